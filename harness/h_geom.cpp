// Points, lines, planes, triangles, boxes, polygons, patches, transformations and one-dimensional interpolation.
#include "vp.h"
#include <cmath>
#include <vector>
#include <string>
#include <algorithm>
#include "nrlib/geometry/point.hpp"
#include "nrlib/geometry/line.hpp"
#include "nrlib/geometry/plane.hpp"
#include "nrlib/geometry/triangle.hpp"
#include "nrlib/geometry/box.hpp"
#include "nrlib/geometry/polygon.hpp"
#include "nrlib/geometry/bilinearsurface.hpp"
#include "nrlib/geometry/transformation.hpp"
#include "nrlib/geometry/interpolation.hpp"
using namespace NRLib;
static bool far_(double x) { return (x < 0 ? -x : x) > 1e-6; }
static void e(const char* w, long i, long a, long b) { vp_eq_i64(w, i, a, b); }
static void d(const char* w, long i, double a, double b) { vp_eq_f64(w, i, a, b); }
static void dp(const char* w, long i, const Point& p, double x, double y, double z) { d(w, i, p.x, x); d(w, i + 1, p.y, y); d(w, i + 2, p.z, z); }
static void dp(const char* w, long i, const Point& p, const Point& q) { dp(w, i, p, q.x, q.y, q.z); }
static double V(const char* n) { return vp_real(n, -5, 5); }
#define P3(N) double N##x = V(#N "x"), N##y = V(#N "y"), N##z = V(#N "z"); Point N(N##x, N##y, N##z);
struct V3 { double x, y, z; };
static V3 sub(const Point& a, const Point& b) { V3 r = {a.x - b.x, a.y - b.y, a.z - b.z}; return r; }
static double dot(V3 a, V3 b) { return a.x*b.x + a.y*b.y + a.z*b.z; }
static V3 at(const Point& a, double t, V3 u) { V3 r = {a.x + t*u.x, a.y + t*u.y, a.z + t*u.z}; return r; }
static V3 dif(V3 a, V3 b) { V3 r = {a.x - b.x, a.y - b.y, a.z - b.z}; return r; }
ENTRY(points) { P3(a) P3(b) double t = vp_real("t", 0.5, 5);
  dp("vector-algebra", 0, a + b, ax + bx, ay + by, az + bz); dp("vector-algebra", 3, a - b, ax - bx, ay - by, az - bz); dp("vector-algebra", 6, t*a, t*ax, t*ay, t*az); dp("vector-algebra", 9, a*t, t*ax, t*ay, t*az); dp("vector-algebra", 12, a/t, ax/t, ay/t, az/t); dp("vector-algebra", 15, -a, -ax, -ay, -az);
  d("vector-algebra", 20, a.Dot(b), ax*bx + ay*by + az*bz); d("vector-algebra", 21, Dot(a, b), ax*bx + ay*by + az*bz); Point c = Cross(a, b); dp("vector-algebra", 22, c, ay*bz - az*by, az*bx - ax*bz, ax*by - ay*bx); dp("vector-algebra", 25, a.Cross(b), c);
  double n = std::sqrt(ax*ax + ay*ay + az*az), m = std::sqrt(bx*bx + by*by + bz*bz); vp_assume(n > 0.1 && m > 0.1); d("vector-algebra", 30, a.Norm(), n); d("vector-algebra", 31, Norm(a), n); dp("vector-algebra", 32, a.GetNormalized(), ax/n, ay/n, az/n); d("vector-algebra", 35, a.GetDistance(b), std::sqrt((ax - bx)*(ax - bx) + (ay - by)*(ay - by) + (az - bz)*(az - bz))); d("vector-algebra", 36, a.GetDistanceXY(b), std::sqrt((ax - bx)*(ax - bx) + (ay - by)*(ay - by)));
  d("vector-algebra", 37, std::cos(a.GetAngle(b)), (ax*bx + ay*by + az*bz)/(n*m)); d("vector-algebra", 38, a.GetAngle(Point()), 0); dp("vector-algebra", 40, Point().GetNormalized(), 0, 0, 0); Point z; z.Normalize(); dp("vector-algebra", 43, z, 0, 0, 0); Point q = a; q.Normalize(); dp("vector-algebra", 46, q, ax/n, ay/n, az/n);
  q = a; q += b; dp("vector-algebra", 50, q, ax + bx, ay + by, az + bz); q -= a; dp("vector-algebra", 53, q, b); q *= t; dp("vector-algebra", 56, q, bx*t, by*t, bz*t); q /= t; dp("vector-algebra", 59, q, b); q.Swap(a); dp("vector-algebra", 62, a, bx, by, bz); dp("vector-algebra", 65, q, ax, ay, az);
  e("point-equality", 0, q == Point(ax, ay, az), 1); e("point-equality", 1, q == Point(ax + 1, ay, az), 0); e("point-equality", 2, q == Point(ax, ay - 1, az), 0); e("point-equality", 3, q != Point(ax, ay, az + 1), 1); e("point-equality", 4, q != q, 0);
  e("point-equality", 5, Point(1, 2, 3).IsEqual(Point(1, 2, 3.0000001)), 1); e("point-equality", 6, Point(1, 2, 3).IsEqual(Point(1, 2, 3.001)), 0); e("point-equality", 7, Point(1, 2, 3).IsEqual(Point(1, 2.001, 3)), 0); e("point-equality", 8, Point(1, 2, 3).IsEqual(Point(1.001, 2, 3)), 0); e("point-equality", 9, Point(1, 2, 3).IsEqual(Point(1.001, 2.001, 3.001), 0.01), 1); e("point-equality", 10, Point(2000.001, 2, 3).IsEqual(Point(2000, 2, 3)), 1);
  d("side-of-line", 0, Point(1, 1, 0).LeftFromLineXY(Point(0, 0, 0), Point(2, 0, 0)) > 0, 1); P3(c0) d("side-of-line", 1, c0.LeftFromLineXY(a, b), -c0.LeftFromLineXY(b, a)); d("side-of-line", 2, c0.LeftFromLineXY(a, b), (b.x - a.x)*(c0y - a.y) - (b.y - a.y)*(c0x - a.x));
  std::vector<Point> v; e("point-list", 0, a.IsInList(v), 0); d("point-list", 1, Point::CalculatePointVectorLength(v), 0); v.push_back(q); e("point-list", 2, q.IsInList(v), 1); d("point-list", 3, Point::CalculatePointVectorLength(v), 0); v.push_back(a); v.push_back(c0); e("point-list", 4, c0.IsInList(v), 1); e("point-list", 5, Point(77, 0, 0).IsInList(v), 0); d("point-list", 6, Point::CalculatePointVectorLength(v), q.GetDistance(a) + a.GetDistance(c0)); }
// --- lines
template<bool E1, bool E2> static void line() { P3(a) P3(b) P3(p) Line l(a, b, E1, E2); V3 u = sub(b, a), w = sub(p, a); double t = dot(u, w)/dot(u, u), s = t; if (E1 && s < 0) s = 0; if (E2 && s > 1) s = 1; V3 q = at(a, s, u), r = dif(q, V3{px, py, pz}); double dist = std::sqrt(dot(r, r));
  vp_assume(dot(u, u) > 0.1 && far_(t) && far_(t - 1) && far_(dist - 1.5)); Point f = l.FindProjection(p); dp("nearest-on-line", 0, f, q.x, q.y, q.z); d("nearest-on-line", 3, l.FindDistance(p), dist); d("line-parameter", 0, l.FindParameter(p), t); bool right; d("nearest-on-line", 4, l.FindDistanceAndSide(p, right), dist); double side = (bx - ax)*(py - ay) - (by - ay)*(px - ax); vp_assume(far_(side)); e("side-of-line", 10, right, side <= 0);
  e("point-on-line", 0, l.IsPointOnLine(p, 1.5), dist < 1.5); double tt = vp_real("tt", 0, 1); Point on(ax + tt*(bx - ax), ay + tt*(by - ay), az + tt*(bz - az)); e("point-on-line", 1, l.IsPointOnLine(on), 1);
  Point g; e("line-ends", 0, l.GetPt1(g), E1); dp("line-ends", 1, g, a); e("line-ends", 4, l.GetPt2(g), E2); dp("line-ends", 5, g, b); e("line-ends", 8, l.IsEndPt1(), E1); e("line-ends", 9, l.IsEndPt2(), E2); double n = std::sqrt(dot(u, u)); dp("line-ends", 10, l.GetDir(), u.x/n, u.y/n, u.z/n); if (E1 && E2) d("line-ends", 13, l.GetLength(), n); else e("line-ends", 14, l.GetLength() > 1e300, 1);
  Line x = l.LineXY(); dp("line-ends", 20, x.GetPt1(), ax, ay, 0); dp("line-ends", 23, x.GetPt2(), bx, by, 0); e("line-ends", 26, x.IsEndPt1(), E1); e("line-ends", 27, x.IsEndPt2(), E2); Line c; c.SetPt(b, a, E2, E1); dp("line-ends", 30, c.GetPt1(), b); dp("line-ends", 33, c.GetPt2(), a); e("line-ends", 36, c.IsEndPt1(), E2); e("line-ends", 37, c.IsEndPt2(), E1); }
ENTRY(line_11) { line<true, true>(); } ENTRY(line_10) { line<true, false>(); } ENTRY(line_01) { line<false, true>(); } ENTRY(line_00) { line<false, false>(); }
ENTRY(line_made) { P3(a) P3(b) vp_assume(b.Norm() > 0.5); Line i = Line::InfiniteLine(a, b), r = Line::Ray(a, b), s = Line::Segment(a, b); dp("line-ends", 40, i.GetPt2(), ax + bx, ay + by, az + bz); e("line-ends", 43, i.IsEndPt1() || i.IsEndPt2(), 0); e("line-ends", 44, r.IsEndPt1() && !r.IsEndPt2(), 1); e("line-ends", 45, s.IsEndPt1() && s.IsEndPt2(), 1); dp("line-ends", 46, s.GetPt2(), b); double w = V("w"); Line k = Line::InfiniteLine(a, w); dp("line-ends", 50, k.GetDir(), std::cos(w), std::sin(w), 0); Line z; dp("line-ends", 60, z.FindProjection(a), 0, 0, 0); e("line-ends", 63, k.IsEndPt1() || k.IsEndPt2(), 0); dp("line-ends", 64, k.GetPt1(), a);
  e("parallel", 0, i.IsParallel(Line::Segment(Point(1, 2, 3), Point(1 + 2*bx, 2 + 2*by, 3 + 2*bz)), 1e-6), 1); P3(c) vp_assume(c.Norm() > 0.5 && far_(Cross(b.GetNormalized(), c.GetNormalized()).Norm() - 0.3)); e("parallel", 1, i.IsParallel(Line::Ray(a, c), 0.3), Cross(b.GetNormalized(), c.GetNormalized()).Norm() < 0.3);
  e("overlap", 0, Line::Segment(Point(0, 0, 0), Point(2, 0, 0)).IsOverLapping(Line::Segment(Point(1, 0, 0), Point(5, 0, 0))), 1); e("overlap", 1, Line::Segment(Point(0, 0, 0), Point(2, 0, 0)).IsOverLapping(Line::Segment(Point(3, 0, 0), Point(5, 0, 0))), 0); e("overlap", 2, Line::Segment(Point(0, 0, 0), Point(9, 0, 0)).IsOverLapping(Line::Segment(Point(3, 0, 0), Point(5, 0, 0))), 1); e("overlap", 3, Line::Segment(Point(3, 0, 0), Point(5, 0, 0)).IsOverLapping(Line::Segment(Point(9, 0, 0), Point(0, 0, 0))), 1); e("overlap", 4, Line::Segment(Point(3, 0, 0), Point(5, 0, 0)).IsOverLapping(Line::Segment(Point(3, 0, 0), Point(3, 2, 0))), 0); e("overlap", 5, Line::Segment(Point(0, 0, 0), Point(2, 0, 0)).IsOverLapping(Line::Segment(Point(-3, 0, 0), Point(0.5, 0, 0))), 1); }
static double pl(const Point& p, const Point& a, V3 u, bool e1, bool e2) { double t = dot(u, sub(p, a))/dot(u, u); if (e1 && t < 0) t = 0; if (e2 && t > 1) t = 1; V3 r = dif(at(a, t, u), V3{p.x, p.y, p.z}); return dot(r, r); }
// the distance of two lines is the least of: the common perpendicular if it ends on both, and the distances of the ends to the other
template<int E> static void lines() { const bool a1 = E & 1, a2 = E & 2, b1 = E & 4, b2 = E & 8; P3(a) P3(b) P3(p) P3(q) Line l(a, b, a1, a2), m(p, q, b1, b2); V3 u = sub(b, a), v = sub(q, p), w = sub(a, p); double uu = dot(u, u), uv = dot(u, v), vv = dot(v, v), uw = dot(u, w), vw = dot(v, w), D = uu*vv - uv*uv, s = (uv*vw - vv*uw)/D, t = (uu*vw - uv*uw)/D; vp_assume(uu > 0.1 && vv > 0.1 && D > 0.1 && far_(s) && far_(s - 1) && far_(t) && far_(t - 1));
  double best = 1e30; bool in = !(a1 && s < 0) && !(a2 && s > 1) && !(b1 && t < 0) && !(b2 && t > 1); V3 r = dif(at(a, s, u), at(p, t, v)); if (in) best = dot(r, r);
  if (a1) { double x = pl(a, p, v, b1, b2); if (x < best) best = x; } if (a2) { double x = pl(b, p, v, b1, b2); if (x < best) best = x; } if (b1) { double x = pl(p, a, u, a1, a2); if (x < best) best = x; } if (b2) { double x = pl(q, a, u, a1, a2); if (x < best) best = x; }
  Point x, y; double f = l.FindDistance(m, x, y); d("distance-of-lines", 0, f*f, best); V3 g = sub(x, y); d("distance-of-lines", 1, dot(g, g), best); vp_true("distance-of-lines", 2, pl(x, a, u, a1, a2) < 1e-12); vp_true("distance-of-lines", 3, pl(y, p, v, b1, b2) < 1e-12); d("distance-of-lines", 4, l.FindDistance(m), f); }
ENTRY(lines_15) { lines<15>(); } ENTRY(lines_0) { lines<0>(); } ENTRY(lines_5) { lines<5>(); } ENTRY(lines_3) { lines<3>(); } ENTRY(lines_14) { lines<14>(); }
ENTRY(lines_parallel) { double s = vp_real("s", 0.5, 5), h = vp_real("h", 0.5, 5); for (int k = 0; k < 4; ++k) { double from = k == 0 ? 3 : k == 1 ? -7 : k == 2 ? 0.5 : -1, to = k == 3 ? 9 : from + 3.5; Line l = Line::Segment(Point(0, 0, 0), Point(2, 0, 0)), m = Line::Segment(Point(from, h, 0), Point(to, h, 0)); double gap = k == 0 ? 1 : k == 1 ? 3.5 : 0; Point x, y; d("distance-of-lines", 10 + k, l.FindDistance(m, x, y), std::sqrt(gap*gap + h*h)); e("distance-of-lines", 20 + k, x.y == 0 && x.x >= 0 && x.x <= 2 && y.x >= from && y.x <= to, 1); } }
ENTRY(intersect) { P3(a) P3(b) P3(p) P3(q) Line l = Line::Segment(a, b), m = Line::Segment(p, q); double den = (bx - ax)*(qy - py) - (by - ay)*(qx - px), s = ((px - ax)*(qy - py) - (py - ay)*(qx - px))/den, t = ((px - ax)*(by - ay) - (py - ay)*(bx - ax))/den; vp_assume(std::fabs(den) > 0.1 && far_(s) && far_(s - 1) && far_(t) && far_(t - 1)); bool in = s >= 0 && s <= 1 && t >= 0 && t <= 1, half = t >= 0 && t <= 1; Point r;
  e("crossing", 0, l.IntersectXY(m, r), in); d("crossing", 1, r.x, in ? ax + s*(bx - ax) : 0); d("crossing", 2, r.y, in ? ay + s*(by - ay) : 0); d("crossing", 3, r.z, 0); e("crossing", 4, l.IntersectXY(m, r, true), half); d("crossing", 5, r.x, half ? ax + s*(bx - ax) : 0); d("crossing", 6, r.y, half ? ay + s*(by - ay) : 0); e("crossing", 7, Line::Segment(Point(0, 0, 0), Point(1, 1, 0)).IntersectXY(Line::Segment(Point(1, 0, 0), Point(2, 1, 0)), r), 0); }
// --- planes
ENTRY(planes) { P3(a) P3(b) P3(c) P3(p) V3 u = sub(b, a), v = sub(c, a); double nx = u.y*v.z - u.z*v.y, ny = u.z*v.x - u.x*v.z, nz = u.x*v.y - u.y*v.x, nn = std::sqrt(nx*nx + ny*ny + nz*nz); Plane s(a, b, c); Point n = s.GetNormalVector(); dp("plane", 0, n, nx/nn, ny/nn, nz/nn); double h = (nx*(px - ax) + ny*(py - ay) + nz*(pz - az))/nn; vp_assume(nn > 0.5 && std::fabs(h) > 0.01); Plane k(a, Point(3*nx, 3*ny, 3*nz)); dp("plane", 10, k.GetNormalVector(), nx/nn, ny/nn, nz/nn); dp("plane", 13, k.GetRefPoint(), a);
  d("plane", 20, s.FindDistance(p), h < 0 ? -h : h); Point f = s.FindProjection(p); dp("plane", 21, f, px - h*nx/nn, py - h*ny/nn, pz - h*nz/nn); e("plane", 24, k.IsOnPositiveSide(p), h > 0); e("plane", 25, s.IsPointOnPlane(f, 1e-6), 1); e("plane", 26, s.IsPointOnPlane(p, 1e-6), 0); e("plane", 27, s.IsPointOnPlane(p, 1.5), (h < 0 ? -h : h) <= 1.5);
  P3(q) double hq = (nx*(qx - ax) + ny*(qy - ay) + nz*(qz - az))/nn, t = h/(h - hq); vp_assume(far_(h - hq) && far_(t) && far_(t - 1) && std::fabs(hq) > 0.01 && far_(std::fabs(h) - 1.5) && far_(std::fabs(h - hq) - 2)); Point r = s.FindIntersection(Line::Segment(p, q)); dp("plane-crossing", 0, r, px + t*(qx - px), py + t*(qy - py), pz + t*(qz - pz));
  for (int m = 0; m < 4; ++m) { bool hit = s.FindIntersection(Line(p, q, m & 1, m & 2), r, 0.0); e("plane-crossing", 10 + m, hit, !((m & 1) && t < 0) && !((m & 2) && t > 1)); if (m == 0) dp("plane-crossing", 20, r, px + t*(qx - px), py + t*(qy - py), pz + t*(qz - pz)); } e("plane-crossing", 30, Plane(Point(0, 0, 1), Point(0, 0, 1)).FindIntersection(Line::Segment(p, Point(qx, qy, pz)), r, 0.0), 0); double dn = std::fabs((nx*(qx - px) + ny*(qy - py) + nz*(qz - pz))/nn); e("plane-crossing", 31, s.IsParallel(Line::Segment(p, q), 2.0), dn <= 2.0); }
ENTRY(planes_two) { P3(a) P3(n) P3(b) P3(m) vp_assume(std::sqrt(nx*nx + ny*ny + nz*nz) > 0.5 && std::sqrt(mx*mx + my*my + mz*mz) > 0.5 && std::fabs(nx*my - ny*mx) + std::fabs(ny*mz - nz*my) + std::fabs(nz*mx - nx*mz) > 1.0); Plane s(a, n), t(b, m); Line l = s.FindIntersection(t); vp_true("planes-crossing", 0, s.FindDistance(l.GetPt1()) < 1e-6); vp_true("planes-crossing", 1, t.FindDistance(l.GetPt1()) < 1e-6); vp_true("planes-crossing", 2, s.FindDistance(l.GetPt2()) < 1e-6); vp_true("planes-crossing", 3, t.FindDistance(l.GetPt2()) < 1e-6); e("planes-crossing", 4, l.IsEndPt1() || l.IsEndPt2(), 0); vp_true("planes-crossing", 5, l.GetPt1().GetDistance(l.GetPt2()) > 0); d("planes-crossing", 6, Plane(a, Point(0, 0, 2)).FindIntersection(Plane(b, Point(0, 0, 3))).GetLength(), 0); }
// --- triangles
template<int E> static void triangle() { P3(a) P3(b) P3(c) P3(p) P3(q) Triangle tr(a, b, c); Line l(p, q, E & 1, E & 2); V3 u = sub(b, a), v = sub(c, a), g = sub(q, p), w = sub(p, a); // p + r g = a + s u + t v by Cramer's rule
  double D = -(g.x*(u.y*v.z - u.z*v.y) - u.x*(g.y*v.z - g.z*v.y) + v.x*(g.y*u.z - g.z*u.y)); double R = (w.x*(u.y*v.z - u.z*v.y) - u.x*(w.y*v.z - w.z*v.y) + v.x*(w.y*u.z - w.z*u.y))/D;
  double hx = w.x + R*g.x, hy = w.y + R*g.y, hz = w.z + R*g.z, kx = u.y*v.z - u.z*v.y, ky = u.z*v.x - u.x*v.z, kz = u.x*v.y - u.y*v.x, nn = kx*kx + ky*ky + kz*kz;
  double s = ((hy*v.z - hz*v.y)*kx + (hz*v.x - hx*v.z)*ky + (hx*v.y - hy*v.x)*kz)/nn, t = ((u.y*hz - u.z*hy)*kx + (u.z*hx - u.x*hz)*ky + (u.x*hy - u.y*hx)*kz)/nn;
  vp_assume(nn > 0.5 && std::fabs(D) > 0.1 && far_(R) && far_(R - 1) && far_(s) && far_(t) && far_(s + t - 1) && dot(g, g) > 0.1); bool on = !((E & 1) && R < 0) && !((E & 2) && R > 1), in = on && s > 0 && t > 0 && s + t < 1; Point r; e("triangle-crossing", 0, tr.FindIntersection(l, r, true), in); e("triangle-crossing", 1, tr.FindIntersection(l, r, false), in); Point n; double f = tr.FindNearestPoint(l, n); if (in) { dp("triangle-crossing", 2, n, px + R*g.x, py + R*g.y, pz + R*g.z); d("triangle-crossing", 5, f, 0); }
  double x = Line::Segment(a, b).FindDistance(l), y = Line::Segment(b, c).FindDistance(l), z = Line::Segment(a, c).FindDistance(l); double m = x; if (y < m) m = y; if (z < m) m = z; if (!in) { d("triangle-distance", 0, f, m); vp_true("triangle-distance", 1, l.FindDistance(n) < f + 1e-9); } }
ENTRY(triangle_3) { triangle<3>(); } ENTRY(triangle_0) { triangle<0>(); } ENTRY(triangle_1) { triangle<1>(); }
ENTRY(triangle_edge) { Triangle t(Point(0, 0, 0), Point(2, 0, 0), Point(0, 2, 0)); double xs[] = {1, 0, 1, 0, 2, 0.5}, ys[] = {0, 1, 1, 0, 0, 0.5}; Point r; for (int i = 0; i < 6; ++i) { Line l = Line::Segment(Point(xs[i], ys[i], 1), Point(xs[i], ys[i], -1)); e("triangle-edge", i, t.FindIntersection(l, r, true), 1); e("triangle-edge", 10 + i, t.FindIntersection(l, r, false), i == 5); } e("triangle-edge", 20, t.FindIntersection(Line::Segment(Point(0, 0, 1), Point(1, 1, 1)), r, true), 0); e("triangle-edge", 21, Triangle(Point(0, 0, 0), Point(1, 1, 1), Point(2, 2, 2)).FindIntersection(Line::Segment(Point(1, 0, 0), Point(0, 1, 0)), r, true), 0); e("triangle-edge", 22, t.FindIntersection(Line::Segment(Point(0.5, 0.5, 0), Point(0.5, 0.5, -1)), r, true), 1); }
// --- boxes
#define BOX P3(o) double lx = vp_real("lx", 0.5, 9), ly = vp_real("ly", 0.5, 9), lz = vp_real("lz", 0.5, 9), w = vp_real("w", -4, 4), cw = std::cos(w), sw = std::sin(w); Box b(o, lx, ly, lz, w);
ENTRY(box) { BOX double x = lx*vp_real("rx", -1, 2), y = ly*vp_real("ry", -1, 2), z = lz*vp_real("rz", -1, 2); Point p(ox + cw*x - sw*y, oy + sw*x + cw*y, oz + z); vp_assume(std::fabs(x) > 1e-7 && std::fabs(y) > 1e-7 && std::fabs(z) > 1e-7 && std::fabs(x - lx) > 1e-7 && std::fabs(y - ly) > 1e-7 && std::fabs(z - lz) > 1e-7);
  bool in = x > 0 && x < lx && y > 0 && y < ly && z > 0 && z < lz; e("box-inside", 0, b.IsInside(p), in); double ex = x < 0 ? -x : x > lx ? x - lx : 0, ey = y < 0 ? -y : y > ly ? y - ly : 0, ez = z < 0 ? -z : z > lz ? z - lz : 0; double m = x; if (lx - x < m) m = lx - x; if (y < m) m = y; if (ly - y < m) m = ly - y; if (z < m) m = z; if (lz - z < m) m = lz - z; d("box-distance", 0, b.FindDistance(p), in ? m : std::sqrt(ex*ex + ey*ey + ez*ez));
  for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) for (int k = 0; k < 2; ++k) { dp("box-corner", 3*(i + 2*j + 4*k), b.GetCorner(i, j, k), ox + i*cw*lx - j*sw*ly, oy + i*sw*lx + j*cw*ly, oz + k*lz); dp("box-corner", 50 + 3*(i + 2*j + 4*k), b.GetCorner(i == 1, j == 1, k == 1), b.GetCorner(i, j, k)); }
  Box c(1, 2, 3, 4, 6, 8); d("box-corner", 100, c.GetLX(), 3); d("box-corner", 101, c.GetLY(), 4); d("box-corner", 102, c.GetLZ(), 5); c.Swap(b); d("box-corner", 103, c.GetLX(), lx); d("box-corner", 104, c.GetAngle(), w); d("box-corner", 105, b.GetLZ(), 5); d("box-corner", 106, c.GetYRef(), oy); d("box-corner", 107, b.GetXRef(), 1); d("box-corner", 108, b.GetAngle(), 0); d("box-corner", 109, c.GetLY(), ly); d("box-corner", 110, c.GetLZ(), lz); d("box-corner", 111, b.GetLY(), 4); d("box-corner", 112, b.GetZRef(), 3); }
template<int E, int K> static void boxline1() { // through a face point of the unit-like box to another: faces chosen so that exactly two are crossed
  double w = K ? 0.7 : 0.0, cw = std::cos(w), sw = std::sin(w), lx = 3, ly = 4, lz = 5; Point o(1, 2, 3); Box b(o, lx, ly, lz, w); double s = K ? 0.3 : 0.8, t = K ? 0.7 : 0.4, p = K ? 0.45 : 0.55, q = K ? 0.6 : 0.25; double f[6][3] = {{0, s*ly, t*lz}, {lx, p*ly, q*lz}, {s*lx, 0, t*lz}, {p*lx, ly, q*lz}, {s*lx, t*ly, 0}, {p*lx, q*ly, lz}};
  double* A = f[E % 6]; double* B = f[E / 6]; double g[2][3]; for (int i = 0; i < 3; ++i) { g[0][i] = A[i] - 0.5*(B[i] - A[i]); g[1][i] = B[i] + 0.5*(B[i] - A[i]); }
#define G(N) Point(1 + cw*(N)[0] - sw*(N)[1], 2 + sw*(N)[0] + cw*(N)[1], 3 + (N)[2])
  std::vector<Point> r = b.FindIntersections(Line::InfiniteLine(G(g[0]), G(g[1]) - G(g[0]))); e("box-crossing", 0, r.size(), 2); bool first = E % 6 < E / 6; if (r.size() == 2) { dp("box-crossing", 1, r[first ? 0 : 1], G(A)); dp("box-crossing", 4, r[first ? 1 : 0], G(B)); }
  double mid[3]; for (int i = 0; i < 3; ++i) mid[i] = 0.5*(A[i] + B[i]); r = b.FindIntersections(Line::Segment(G(mid), G(g[1]))); e("box-crossing", 10, r.size(), 1); if (r.size() == 1) dp("box-crossing", 11, r[0], G(B)); r = b.FindIntersections(Line::Segment(G(B), G(g[1]) + (G(g[1]) - G(B)))); r = b.FindIntersections(Line::Segment(G(mid), G(mid) + 0.1*(G(B) - G(A)))); e("box-crossing", 20, r.size(), 0); }
template<int E> static void boxline() { boxline1<E, 0>(); boxline1<E, 1>(); }
ENTRY(box_01) { boxline<6>(); } ENTRY(box_23) { boxline<20>(); } ENTRY(box_45) { boxline<34>(); } ENTRY(box_03) { boxline<18>(); } ENTRY(box_25) { boxline<32>(); } ENTRY(box_41) { boxline<10>(); }
// --- polygons
template<int N> static void poly(Polygon& g, double* X, double* Y) { static const char* xs[] = {"x0","x1","x2","x3","x4"}; static const char* ys[] = {"y0","y1","y2","y3","y4"}; for (int i = 0; i < N; ++i) { X[i] = V(xs[i]); Y[i] = V(ys[i]); g.AddPoint(Point(X[i], Y[i], 0)); } }
template<int N> static void polygon() { Polygon g; double X[5], Y[5]; poly<N>(g, X, Y); double x = V("x"), y = V("y"); int in = 0; double area = 0, circ = 0; bool pos = true, neg = true; double xl = 1e30, xh = -1e30, yl = 1e30, yh = -1e30;
  for (int i = 0; i < N; ++i) { int j = (i + 1) % N, k = (i + 2) % N; double side = (X[j] - X[i])*(y - Y[i]) - (Y[j] - Y[i])*(x - X[i]); vp_assume(far_(side) && far_(y - Y[i]) && far_(Y[i] - Y[j]) && far_(x - X[i])); if (Y[i] < y && Y[j] >= y && side > 0) in ^= 1; if (Y[j] < y && Y[i] >= y && side < 0) in ^= 1; area += X[i]*Y[j] - X[j]*Y[i]; circ += std::sqrt((X[j] - X[i])*(X[j] - X[i]) + (Y[j] - Y[i])*(Y[j] - Y[i])); double c = (X[j] - X[i])*(Y[k] - Y[j]) - (Y[j] - Y[i])*(X[k] - X[j]); vp_assume(far_(c)); if (c < 0) pos = false; if (c > 0) neg = false; if (X[i] < xl) xl = X[i]; if (X[i] > xh) xh = X[i]; if (Y[i] < yl) yl = Y[i]; if (Y[i] > yh) yh = Y[i]; }
  vp_assume(far_(area)); e("polygon-inside", 0, g.IsInsidePolygonXY(x, y), in); e("polygon-inside", 1, g.IsInsidePolygonXY(Point(x, y, 9)), in); e("polygon-orientation", 0, g.IsCounterclockwise(), area >= 0); d("polygon-length", 0, g.GetCircumferenceXY(), circ); e("polygon-convex", 0, g.IsConvex(), (pos && area >= 0) || (neg && area < 0)); double a, b, c, f; g.XYExtent(a, b, c, f); d("polygon-extent", 0, a, xl); d("polygon-extent", 1, b, xh); d("polygon-extent", 2, c, yl); d("polygon-extent", 3, f, yh);
  double d01 = std::sqrt((X[1] - X[0])*(X[1] - X[0]) + (Y[1] - Y[0])*(Y[1] - Y[0])), d12 = std::sqrt((X[2] - X[1])*(X[2] - X[1]) + (Y[2] - Y[1])*(Y[2] - Y[1])), along = d01 + d12, back = circ - along; d("polygon-length", 1, g.DistanceBetweenPointsXY(0, 2), along < back ? along : back); d("polygon-length", 2, g.DistanceBetweenPointsXY(2, 0), along < back ? along : back); d("polygon-length", 3, g.DistanceBetweenPointsXY(1, 1), 0); e("polygon-points", 0, g.FindPointPosition(Point(X[1], Y[1], 0)), 1); e("polygon-points", 1, g.FindPointPosition(Point(X[1], Y[1], 1)), N); std::vector<Point> v; g.GetPoints(v, true); e("polygon-points", 2, v.size(), N + 1); dp("polygon-points", 3, v[N], X[0], Y[0], 0); g.GetPoints(v); e("polygon-points", 6, v.size(), N); e("polygon-points", 7, g.GetSize(), N); dp("polygon-points", 8, g[2], X[2], Y[2], 0); }
ENTRY(polygon_3) { polygon<3>(); } ENTRY(polygon_4) { polygon<4>(); } ENTRY(polygon_5) { polygon<5>(); }
ENTRY(polygon_empty) { Polygon g; e("polygon-inside", 10, g.IsInsidePolygonXY(1, 1), 0); g.AddPoint(Point(1, 1, 0)); e("polygon-inside", 11, g.IsInsidePolygonXY(1, 1), 0); Polygon h(4); e("polygon-points", 20, h.GetSize(), 4); std::vector<Point> v; Polygon().GetPoints(v, true); e("polygon-points", 21, v.size(), 0); }
// wherever it lies and wherever its list of points starts
template<int K> static void hull() { static const double X[] = {0, 4, 4.5, 3, 2, 1}, Y[] = {0, 0, 3, 4, 1, 5}; static const double XO[] = {0, 10, -7.5, 1.25}, YO[] = {0, 20, 3.5, -30}; for (int s = 0; s < 24; ++s) { double x0 = XO[s/6], y0 = YO[s/6]; Polygon g; for (int i = 0; i < 6; ++i) { int k = K ? (s + 6 - i) % 6 : (s + i) % 6; g.AddPoint(Point(x0 + X[k], y0 + Y[k], 0)); } e("polygon-orientation", 10 + s, g.IsCounterclockwise(), !K); e("polygon-convex", 10 + s, g.IsConvex(), 0); g.MakeConvex(); e("polygon-convex", 50 + s, g.IsConvex(), 1); e("polygon-convex", 100 + s, g.GetSize(), 5); for (size_t i = 0; i < g.GetSize(); ++i) e("polygon-convex", 1000 + 10*s + i, std::fabs(g[i].x - x0 - 2) < 0.1 && std::fabs(g[i].y - y0 - 1) < 0.1, 0); } }
ENTRY(hull_0) { hull<0>(); } ENTRY(hull_1) { hull<1>(); }
// --- patches
ENTRY(patch) { P3(a) P3(b) P3(c) P3(f) double u = vp_real("u", 0, 1), v = vp_real("v", 0, 1); for (int k = 0; k < 3; ++k) { BilinearSurface s; if (k == 0) s = BilinearSurface(a, b, c, f); else if (k == 1) s.SetCornerPoints(a, b, c, f); else s.SetPtVector(a, b - a, f - a, c - f - b + a); Point p = s.GetPoint(u, v); dp("patch", 10*k, p, ax*(1 - u)*(1 - v) + bx*u*(1 - v) + cx*u*v + fx*(1 - u)*v, ay*(1 - u)*(1 - v) + by*u*(1 - v) + cy*u*v + fy*(1 - u)*v, az*(1 - u)*(1 - v) + bz*u*(1 - v) + cz*u*v + fz*(1 - u)*v); } }
// --- transformations: each is applied after those before it
ENTRY(transform) { P3(p) double a = V("a"), b = V("b"), c = vp_real("c", -4, 4), q = V("q"); Point r = p; double x = px, y = py, z = pz, t; Transformation T; T.Transform(r); dp("transformation", 0, r, x, y, z); long n = 10;
#define STEP(OP, CODE) T.OP; CODE; r = p; T.Transform(r); dp("transformation", n, r, x, y, z); n += 3;
  STEP(TranslateX(a), x += a) STEP(StretchX(b), x *= b) STEP(RotateZ(c), t = x; x = std::cos(c)*x - std::sin(c)*y; y = std::sin(c)*t + std::cos(c)*y) STEP(TranslateY(q), y += q) STEP(RotateX(c), t = y; y = std::cos(c)*y - std::sin(c)*z; z = std::sin(c)*t + std::cos(c)*z) STEP(StretchY(a), y *= a) STEP(TranslateZ(b), z += b) STEP(RotateY(c), t = x; x = std::cos(c)*x + std::sin(c)*z; z = -std::sin(c)*t + std::cos(c)*z) STEP(StretchZ(q), z *= q) STEP(ShearXY(a, b), x += a*z; y += b*z) STEP(MirrorXY(), z = -z) }
ENTRY(transform_2) { P3(p) double a = V("a"), b = V("b"); Point r = p; double x = px, y = py, z = pz; Transformation T; long n = 100; STEP(TranslateX(1), x += 1) STEP(ShearXZ(a, b), x += a*y; z += b*y) STEP(MirrorXZ(), y = -y) STEP(ShearYZ(b, a), y += b*x; z += a*x) STEP(MirrorYZ(), x = -x) STEP(TranslateX(2).TranslateY(a).StretchZ(b), x += 2; y += a; z *= b) }
// --- interpolation
template<int N> static void knots(std::vector<double>& x, std::vector<double>& y) { static const char* h[] = {"h0","h1","h2","h3","h4"}; static const char* v[] = {"y0","y1","y2","y3","y4"}; double s = V("x0"); for (int i = 0; i < N; ++i) { x.push_back(s); y.push_back(V(v[i])); s += vp_real(h[i], 0.5, 4); } }
template<int N> static void linear() { std::vector<double> x, y, o; knots<N>(x, y); double r = x[0] + (x[N - 1] - x[0])*vp_real("r", -1, 2); o.push_back(r); o.push_back(x[1]); o.push_back(x[0]); o.push_back(x[N - 1]); std::vector<double> z = Interpolation::Interpolate1D(x, y, o, "linear"); int k = 0; double want = 0; for (k = 0; k < N - 1; ++k) { double q = y[k] + (r - x[k])*(y[k + 1] - y[k])/(x[k + 1] - x[k]); if (k == 0 || r > x[k]) want = q; }
  e("linear", 0, z.size(), 4); d("linear", 1, z[0], want); d("linear", 2, z[1], y[1]); d("linear", 3, z[2], y[0]); d("linear", 4, z[3], y[N - 1]); d("linear", 5, Interpolation::InterpolateBetweenPoints(x, y, r), want); }
ENTRY(linear_2) { linear<2>(); } ENTRY(linear_3) { linear<3>(); } ENTRY(linear_5) { linear<5>(); }
// the natural spline: second derivatives by elimination in exact form for the small sizes
template<int N> static void spline(bool out) { std::vector<double> x, y, o; knots<N>(x, y); double r = x[0] + (x[N - 1] - x[0])*vp_real("r", -1, 2); o.push_back(r); o.push_back(x[1]); o.push_back(x[0]); o.push_back(x[N - 1]); double m[5] = {0, 0, 0, 0, 0};
  if (N == 3) m[1] = 6*((y[2] - y[1])/(x[2] - x[1]) - (y[1] - y[0])/(x[1] - x[0]))/(2*(x[2] - x[0])); if (N == 4) { double a = 2*(x[2] - x[0]), b = x[2] - x[1], f = 2*(x[3] - x[1]), p = 6*((y[2] - y[1])/(x[2] - x[1]) - (y[1] - y[0])/(x[1] - x[0])), q = 6*((y[3] - y[2])/(x[3] - x[2]) - (y[2] - y[1])/(x[2] - x[1])), D = a*f - b*b; m[1] = (p*f - b*q)/D; m[2] = (a*q - b*p)/D; }
  double want = 0; for (int k = 0; k < N - 1; ++k) { double h = x[k + 1] - x[k], A = (x[k + 1] - r)/h, B = (r - x[k])/h, q = A*y[k] + B*y[k + 1] + ((A*A*A - A)*m[k] + (B*B*B - B)*m[k + 1])*h*h/6; if (k == 0 || r > x[k]) want = q; }
  vp_assume(far_(r - x[0]) && far_(r - x[N - 1])); std::vector<double> z; if (out) { z = Interpolation::Interpolate1D(x, y, o, "spline", 1234.5); if (r < x[0] || r > x[N - 1]) want = 1234.5; } else z = Interpolation::Interpolate1D(x, y, o, "spline"); e("spline", 0, z.size(), 4); d("spline", 1, z[0], want); d("spline", 2, z[1], y[1]); d("spline", 3, z[2], y[0]); d("spline", 4, z[3], y[N - 1]); }
ENTRY(spline_2) { spline<2>(false); } ENTRY(spline_3) { spline<3>(false); } ENTRY(spline_4) { spline<4>(false); } ENTRY(spline_out_3) { spline<3>(true); } ENTRY(spline_out_2) { spline<2>(true); }
ENTRY(interp_errors) { std::vector<double> x, y, o; knots<3>(x, y); o.push_back(1); int n = 0; try { Interpolation::Interpolate1D(x, y, o, "cubic"); } catch (...) { ++n; } try { Interpolation::Interpolate1D(x, y, o, "linear", 3.0); } catch (...) { ++n; } try { Interpolation::Interpolate1D(x, y, o, "other", 3.0); } catch (...) { ++n; } e("interpolation-errors", 0, n, 3); e("interpolation-errors", 1, Interpolation::Interpolate1D(x, y, std::vector<double>(), "linear").size(), 0); }
// tangents from a point outside a convex polygon, and its least rectangle
static const double HX[] = {0, 4, 6, 5, 2, -1}, HY[] = {0, -1, 1, 4, 5, 3};
template<int S> static void tangents() { double w = vp_real("w", -4, 4), R = vp_real("R", 9, 20); Polygon g; Point v[6]; for (int i = 0; i < 6; ++i) { v[i] = Point(HX[(i + S) % 6], HY[(i + S) % 6], 0); g.AddPoint(v[i]); } Point p(2.5 + R*std::cos(w), 2 + R*std::sin(w), 0); size_t rt = 0, lt = 0; g.TangentPointPoly(p, rt, lt); double lo = 0, hi = 0; for (int k = 0; k < 6; ++k) { double a = v[k].LeftFromLineXY(p, v[rt]), b = v[k].LeftFromLineXY(p, v[lt]); if (a < lo) lo = a; if (b > hi) hi = b; } vp_true("polygon-tangents", 0, lo > -1e-9); vp_true("polygon-tangents", 1, hi < 1e-9); }
ENTRY(tangents_0) { tangents<0>(); } ENTRY(tangents_2) { tangents<2>(); } ENTRY(tangents_4) { tangents<4>(); }
template<int K> static void rectangle() { static const double W[] = {0.0, 0.4, 1.3, 2.9}; double c = std::cos(W[K]), s = std::sin(W[K]), X[6], Y[6]; Polygon g; for (int i = 0; i < 6; ++i) { X[i] = 3*K + c*HX[i] - s*HY[i]; Y[i] = 7 - K + s*HX[i] + c*HY[i]; g.AddPoint(Point(X[i], Y[i], 1)); } double best = 1e30;
  for (int i = 0; i < 6; ++i) { int j = (i + 1) % 6; double ux = X[j] - X[i], uy = Y[j] - Y[i], n = std::sqrt(ux*ux + uy*uy); ux /= n; uy /= n; double a = 1e30, b = -1e30, h = 0; for (int k = 0; k < 6; ++k) { double t = (X[k] - X[i])*ux + (Y[k] - Y[i])*uy, q = (Y[k] - Y[i])*ux - (X[k] - X[i])*uy; if (t < a) a = t; if (t > b) b = t; if (q > h) h = q; } if ((b - a)*h < best) best = (b - a)*h; }
  double x, y, l1, l2, w; g.MinEnclosingRectangle(x, y, l1, l2, w); d("least-rectangle", 0, l1*l2, best); for (int k = 0; k < 6; ++k) { double t = (X[k] - x)*std::cos(w) + (Y[k] - y)*std::sin(w), q = (Y[k] - y)*std::cos(w) - (X[k] - x)*std::sin(w); e("least-rectangle", 1 + k, t > -1e-9 && t < l1 + 1e-9 && q > -1e-9 && q < l2 + 1e-9, 1); } }
ENTRY(rectangle_0) { rectangle<0>(); } ENTRY(rectangle_1) { rectangle<1>(); } ENTRY(rectangle_2) { rectangle<2>(); } ENTRY(rectangle_3) { rectangle<3>(); }
ENTRY(polygon_levels) { static const double X[] = {0, 1, 0, -1}, Y[] = {-1, 0, 1, 0}; Polygon g; for (int i = 0; i < 4; ++i) g.AddPoint(Point(X[i], Y[i], 0)); static const double px[] = {0, 0.5, -0.5, -2, 2, 0.2, 0.2, 0.2, -3, 3}, py[] = {0, 0, 0, 0, 0, 0.5, -0.5, 2, 1, -1}; static const int in[] = {1, 1, 1, 0, 0, 1, 1, 0, 0, 0}; for (int i = 0; i < 10; ++i) e("polygon-inside", 20 + i, g.IsInsidePolygonXY(px[i], py[i]), in[i]); }

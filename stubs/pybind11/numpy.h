#pragma once
#include "pybind11.h"
#include <initializer_list>
namespace pybind11 {
struct array_base_flags { enum { c_style = 1, f_style = 2, forcecast = 16 }; };
struct buffer_info { void* ptr; ssize_t itemsize = 8; ssize_t size; ssize_t ndim = 1; std::vector<ssize_t> shape; std::vector<ssize_t> strides; };
struct array : object {
  enum { c_style = 1, f_style = 2, forcecast = 16 };
  using object::object; array() { v.kind = PyVal::DVEC; }
  ssize_t size() const { return (ssize_t)v.dv.size(); }
  ssize_t ndim() const { return 1; }
  ssize_t shape(ssize_t = 0) const { return size(); }
};
template<class T> struct acc { T* p; ssize_t n; T& operator()(ssize_t i) const { return p[i]; } T& operator[](ssize_t i) const { return p[i]; } ssize_t shape(ssize_t = 0) const { return n; } ssize_t size() const { return n; } T* mutable_data(ssize_t i = 0) const { return p + i; } };
template<class T, int F = 16> struct array_t : array {
  static_assert(std::is_same<T, double>::value, "only double arrays are modelled");
  array_t() { vp_py_api(); }
  array_t(const object& o) { v = o.v; v.kind = PyVal::DVEC; }
  array_t(const array& o) { v = o.v; }
  template<class I, class = std::enable_if_t<std::is_integral<I>::value>> explicit array_t(I n) { vp_py_api(); v.dv.resize(n); }
  template<class I, class = std::enable_if_t<std::is_integral<I>::value>> array_t(I n, const T* q) { vp_py_api(); if (q) v.dv.assign(q, q + n); else v.dv.resize(n); }
  template<class I, class = std::enable_if_t<std::is_integral<I>::value>> array_t(I n, const T* q, handle) { vp_py_api(); v.dv.assign(q, q + n); }
  template<class I> array_t(std::initializer_list<I> s) { vp_py_api(); size_t n = 1; for (auto x : s) n *= x; v.dv.resize(n); }
  template<class I> array_t(std::initializer_list<I> s, const T* q) { vp_py_api(); size_t n = 1; for (auto x : s) n *= x; v.dv.assign(q, q + n); }
  template<class I> array_t(const std::vector<I>& s) { vp_py_api(); size_t n = 1; for (auto x : s) n *= x; v.dv.resize(n); }
  template<class I> array_t(const std::vector<I>& s, const T* q) { vp_py_api(); size_t n = 1; for (auto x : s) n *= x; v.dv.assign(q, q + n); }
  const T* data(ssize_t i = 0) const { return v.dv.data() + i; }
  T* mutable_data(ssize_t i = 0) { return v.dv.data() + i; }
  T& mutable_at(ssize_t i) { return v.dv[i]; }
  T at(ssize_t i) const { return v.dv[i]; }
  buffer_info request(bool = false) { buffer_info b; b.ptr = v.dv.data(); b.size = size(); b.shape.push_back(b.size); b.strides.push_back(8); return b; }
  template<ssize_t N = 1> acc<T> mutable_unchecked() { return acc<T>{v.dv.data(), size()}; }
  template<ssize_t N = 1> acc<const T> unchecked() const { return acc<const T>{v.dv.data(), size()}; }
};
}

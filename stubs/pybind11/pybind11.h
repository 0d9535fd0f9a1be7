// Analysis model of the pybind11 interface.  Never executed: compiled to IR together with the
// binding layer so that the value-flow analysis can follow a Python-level call (positional and
// keyword arguments, defaults, overloads) into the C++ code and its result back out.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

struct _object;
#define PYBIND11_NAMESPACE pybind11
namespace pybind11 {
using ssize_t = std::ptrdiff_t;
using size_t = std::size_t;

enum class return_value_policy : uint8_t { automatic = 0, automatic_reference, take_ownership, copy, move, reference, reference_internal };

struct error_already_set : std::runtime_error { error_already_set() : std::runtime_error("python error") {} };
struct builtin_exception : std::runtime_error { using std::runtime_error::runtime_error; };
struct value_error : builtin_exception { using builtin_exception::builtin_exception; };
struct type_error : builtin_exception { using builtin_exception::builtin_exception; };
struct index_error : builtin_exception { using builtin_exception::builtin_exception; };
struct key_error : builtin_exception { using builtin_exception::builtin_exception; };
struct cast_error : builtin_exception { using builtin_exception::builtin_exception; };
struct stop_iteration : builtin_exception { using builtin_exception::builtin_exception; };

// ---- a Python value as far as this extension module can see one
struct PyVal {
  enum Kind { NONE, REAL, INT, BOOL, STR, PTR, DVEC, SVEC, VOID_ };
  int kind = NONE;
  double d = 0;
  long long i = 0;
  bool unsig = false;
  void* p = nullptr;
  return_value_policy pol = return_value_policy::automatic;
  std::string s;
  std::vector<double> dv;
  std::vector<size_t> sv;
  PyVal() {}
  PyVal(double x) : kind(REAL), d(x) {}
  PyVal(float x) : kind(REAL), d(x) {}
  PyVal(int x) : kind(INT), i(x) {}
  PyVal(unsigned x) : kind(INT), i(x) {}
  PyVal(long x) : kind(INT), i(x) {}
  PyVal(long long x) : kind(INT), i(x) {}
  PyVal(unsigned long x) : kind(INT), i((long long)x), unsig(true) {}
  PyVal(bool x) : kind(BOOL), i(x) {}
  PyVal(const char* x) : kind(STR), s(x) {}
  PyVal(const std::string& x) : kind(STR), s(x) {}
  PyVal(std::nullptr_t) {}
  static PyVal ptr(void* q) { PyVal v; v.kind = PTR; v.p = q; return v; }
};

struct handle {
  PyVal v;
  handle() {}
  handle(const PyVal& x) : v(x) {}
  bool is_none() const { return v.kind == PyVal::NONE; }
  const handle& inc_ref() const { return *this; }
  const handle& dec_ref() const { return *this; }
  template<class T> T cast() const;
  explicit operator bool() const { return true; }
};
struct object : handle { using handle::handle; object() {} object(const handle& h) : handle(h) {} };
struct none : object { none() {} };
struct str : object { str() {} str(const char* c) { v = PyVal(c); } str(const std::string& c) { v = PyVal(c); } operator std::string() const { return v.s; } };
struct int_ : object { int_(long long x) { v = PyVal(x); } };
struct float_ : object { float_(double x) { v = PyVal(x); } };
struct bool_ : object { bool_(bool x) { v = PyVal(x); } };
template<class T> inline T reinterpret_borrow(handle h) { T t; t.v = h.v; return t; }
template<class T> inline T reinterpret_steal(handle h) { T t; t.v = h.v; return t; }

struct capsule : object { capsule() {} template<class P, class F> capsule(P, F) {} };

// ---- argument descriptions
struct arg_v;
struct arg {
  const char* name;
  constexpr explicit arg(const char* n = nullptr) : name(n) {}
  template<class T> arg_v operator=(T&& x) const;
  arg& noconvert(bool = true) { return *this; }
  arg& none(bool = true) { return *this; }
};
struct arg_v : arg {
  PyVal val;
  template<class T> arg_v(const arg& a, T&& x) : arg(a), val(std::forward<T>(x)) {}
  template<class T> arg_v(const char* n, T&& x, const char* = nullptr) : arg(n), val(std::forward<T>(x)) {}
  arg_v& noconvert(bool = true) { return *this; }
};
template<class T> inline arg_v arg::operator=(T&& x) const { return arg_v(*this, std::forward<T>(x)); }
namespace literals { constexpr arg operator"" _a(const char* n, size_t) { return arg(n); } }

struct doc { const char* v; doc(const char* c) : v(c) {} };
struct name { const char* v; name(const char* c) : v(c) {} };
struct scope { template<class T> scope(const T&) {} };
struct sibling { template<class T> sibling(const T&) {} };
struct is_method { template<class T> is_method(const T&) {} };
struct kw_only {}; struct pos_only {}; struct prepend {}; struct is_operator {}; struct dynamic_attr {}; struct module_local { module_local(bool = true) {} };
template<size_t A, size_t B> struct keep_alive {};
extern "C" void vp_gil_release() noexcept; extern "C" void vp_gil_acquire() noexcept;
struct gil_scoped_release { gil_scoped_release() { vp_gil_release(); } ~gil_scoped_release() { vp_gil_acquire(); } };
struct gil_scoped_acquire { gil_scoped_acquire() { vp_gil_acquire(); } ~gil_scoped_acquire() { vp_gil_release(); } };
template<class... G> struct call_guard {};
extern "C" void vp_py_api() noexcept;      // marks a use of the Python API
struct mod_gil_not_used { bool f; explicit mod_gil_not_used(bool x = true) : f(x) {} };
struct multiple_interpreters {
  int k;
  static multiple_interpreters not_supported() { return {0}; }
  static multiple_interpreters shared_gil() { return {1}; }
  static multiple_interpreters per_interpreter_gil() { return {2}; }
};

// ---- value conversion
template<class T, class = void> struct conv;
template<> struct conv<PyVal> { static PyVal in(const PyVal& v) { return v; } static PyVal out(const PyVal& v) { return v; } };
template<class T> struct conv<T, std::enable_if_t<std::is_floating_point<T>::value>> {
  static T in(const PyVal& v) { return v.kind == PyVal::REAL ? (T)v.d : (T)v.i; }
  static PyVal out(T x) { return PyVal((double)x); } };
template<class T> struct conv<T, std::enable_if_t<std::is_integral<T>::value>> {
  static T in(const PyVal& v) { return (T)v.i; }
  static PyVal out(T x) { return std::is_same<T, bool>::value ? PyVal((bool)x) : std::is_unsigned<T>::value ? PyVal((unsigned long)x) : PyVal((long long)x); } };
template<class T> struct conv<T, std::enable_if_t<std::is_enum<T>::value>> {
  static T in(const PyVal& v) { return (T)v.i; } static PyVal out(T x) { return PyVal((long long)x); } };
template<> struct conv<std::string> { static std::string in(const PyVal& v) { return v.s; } static PyVal out(const std::string& s) { return PyVal(s); } };
template<> struct conv<const char*> { static const char* in(const PyVal& v) { return v.s.c_str(); } static PyVal out(const char* s) { return PyVal(s); } };
template<class T> struct conv<T*, std::enable_if_t<!std::is_same<std::remove_cv_t<T>, char>::value>> {
  static T* in(const PyVal& v) { return (T*)v.p; } static PyVal out(T* x) { return PyVal::ptr((void*)x); } };
template<class T> struct conv<std::unique_ptr<T>> {
  static PyVal out(std::unique_ptr<T>&& x) { PyVal v = PyVal::ptr((void*)x.release()); v.pol = return_value_policy::take_ownership; return v; } };
template<class T> struct conv<std::shared_ptr<T>> {
  static PyVal out(const std::shared_ptr<T>& x) { return PyVal::ptr((void*)x.get()); } };
template<class T> struct conv<std::optional<T>> {
  static std::optional<T> in(const PyVal& v) { if (v.kind == PyVal::NONE) return std::nullopt; return conv<T>::in(v); }
  static PyVal out(const std::optional<T>& x) { return x ? conv<T>::out(*x) : PyVal(); } };
template<> struct conv<std::vector<double>> {
  static std::vector<double> in(const PyVal& v) { return v.dv; }
  static PyVal out(const std::vector<double>& x) { PyVal v; v.kind = PyVal::DVEC; v.dv = x; return v; } };
template<> struct conv<std::vector<size_t>> {
  static std::vector<size_t> in(const PyVal& v) { return v.sv; }
  static PyVal out(const std::vector<size_t>& x) { PyVal v; v.kind = PyVal::SVEC; v.sv = x; return v; } };
template<class T> struct conv<T, std::enable_if_t<std::is_base_of<handle, T>::value>> {
  static T in(const PyVal& v) { T t; t.v = v; return t; } static PyVal out(const T& x) { return x.v; } };
template<class T> struct conv<T, std::enable_if_t<std::is_class<T>::value && !std::is_base_of<handle, T>::value && std::is_polymorphic<T>::value>> {
  static T& in(const PyVal& v) { return *(T*)v.p; } static PyVal out(const T& x) { return PyVal::ptr((void*)&x); } };
template<class T> using bare = std::remove_cv_t<std::remove_reference_t<T>>;
template<class P> inline decltype(auto) conv_in(const PyVal& v) { return conv<bare<P>>::in(v); }
template<class T> inline object cast(T&& x) { vp_py_api(); return object(handle(conv<bare<T>>::out(std::forward<T>(x)))); }
template<class T> inline object cast(T&& x, return_value_policy) { return cast(std::forward<T>(x)); }
template<class T> inline object cast(T&& x, return_value_policy, handle) { return cast(std::forward<T>(x)); }
template<class T> inline T cast(const handle& h) { return conv<T>::in(h.v); }
template<class T> inline T handle::cast() const { return conv<T>::in(v); }

// ---- the table of bindings
struct Invoker { bool nogil = false; virtual PyVal call(PyVal* a) = 0; virtual ~Invoker() {} };
struct Binding {
  const char* scope; const char* name; int nparam; int nnamed; const char* names[16]; bool has_def[16]; PyVal def[16];
  int kinds[16]; return_value_policy pol; Invoker* inv; bool is_method;
};
struct ModuleOpts { bool gil_not_used; int multi; };
extern Binding* vp_bindings[96]; extern int vp_nbindings; extern ModuleOpts vp_opts;

template<class P> struct pkind { static const int v =
  std::is_floating_point<bare<P>>::value ? PyVal::REAL :
  std::is_integral<bare<P>>::value ? PyVal::INT :
  (std::is_same<bare<P>, std::string>::value || std::is_same<bare<P>, const char*>::value) ? PyVal::STR : PyVal::PTR; };

struct NoGil { bool on; explicit NoGil(bool b) : on(b) { if (on) vp_gil_release(); } ~NoGil() { if (on) vp_gil_acquire(); } };
template<class F, class R, class... P> struct InvokerOf : Invoker {
  F f;
  InvokerOf(F g) : f(g) {}
  template<size_t... I> PyVal go(PyVal* a, std::index_sequence<I...>) {
    (void)a;
    if constexpr (std::is_void<R>::value) { { NoGil g(nogil); f(conv_in<P>(a[I])...); } PyVal v; v.kind = PyVal::VOID_; return v; }
    else return conv<bare<R>>::out([&]() -> R { NoGil g(nogil); return f(conv_in<P>(a[I])...); }());
  }
  PyVal call(PyVal* a) override { return go(a, std::index_sequence_for<P...>()); }
};
inline void extra(Binding* b, const arg& a) { b->names[b->nnamed] = a.name; b->has_def[b->nnamed] = false; b->nnamed++; }
inline void extra(Binding* b, const arg_v& a) { b->names[b->nnamed] = a.name; b->has_def[b->nnamed] = true; b->def[b->nnamed] = a.val; b->nnamed++; }
inline void extra(Binding* b, return_value_policy p) { b->pol = p; }
template<class... G> inline void extra(Binding* b, const call_guard<G...>&) { if ((std::is_same<G, gil_scoped_release>::value || ...)) b->inv->nogil = true; }
template<class T> inline void extra(Binding*, const T&) {}

template<class F, class R, class... P> inline Binding* make_binding(const char* sc, const char* nm, F f) {
  Binding* b = new Binding; b->scope = sc; b->name = nm; b->nparam = sizeof...(P); b->nnamed = 0; b->pol = return_value_policy::automatic; b->is_method = false;
  int k = 0; ((b->kinds[k++] = pkind<P>::v), ...); (void)k;
  b->inv = new InvokerOf<F, R, P...>(f);
  vp_bindings[vp_nbindings++] = b;
  return b;
}
template<class R, class... P> inline Binding* bind_any(const char* sc, const char* nm, R (*f)(P...)) { return make_binding<R (*)(P...), R, P...>(sc, nm, f); }
template<class F, class R, class C, class... P> inline Binding* bind_call(const char* sc, const char* nm, F f, R (C::*)(P...) const) { return make_binding<F, R, P...>(sc, nm, f); }
template<class F, class R, class C, class... P> inline Binding* bind_call(const char* sc, const char* nm, F f, R (C::*)(P...)) { return make_binding<F, R, P...>(sc, nm, f); }
template<class F, class = std::enable_if_t<std::is_class<bare<F>>::value>> inline Binding* bind_any(const char* sc, const char* nm, F f) { return bind_call(sc, nm, f, &F::operator()); }
template<class C, class R, class K, class... P> inline Binding* bind_member(const char* sc, const char* nm, R (K::*f)(P...)) {
  auto l = [f](C* c, P... p) -> R { return (c->*f)(p...); }; return make_binding<decltype(l), R, C*, P...>(sc, nm, l); }
template<class C, class R, class K, class... P> inline Binding* bind_member(const char* sc, const char* nm, R (K::*f)(P...) const) {
  auto l = [f](const C* c, P... p) -> R { return (c->*f)(p...); }; return make_binding<decltype(l), R, const C*, P...>(sc, nm, l); }

template<class... A> struct overload_cast_impl {
  template<class R> constexpr auto operator()(R (*f)(A...)) const { return f; }
  template<class R, class C> constexpr auto operator()(R (C::*f)(A...), std::false_type = {}) const { return f; }
  template<class R, class C> constexpr auto operator()(R (C::*f)(A...) const, std::true_type) const { return f; }
};
template<class... A> static constexpr overload_cast_impl<A...> overload_cast{};
static constexpr std::true_type const_{};

struct attr_sink { template<class T> attr_sink& operator=(const T&) { return *this; } };
struct module_ : object {
  const char* nm;
  module_(const char* n = "") : nm(n) {}
  template<class F, class... E> module_& def(const char* n, F&& f, const E&... e) {
    Binding* b = bind_any(nm, n, std::forward<F>(f)); (extra(b, e), ...); (void)b; return *this; }
  module_ def_submodule(const char* n, const char* = nullptr) { return module_(n); }
  attr_sink attr(const char*) { return attr_sink(); }
  attr_sink doc() { return attr_sink(); }
  static module_ import(const char* n) { return module_(n); }
};
using module = module_;
template<class... A> struct init {};
template<class T, class... O> struct class_ : object {
  const char* nm;
  template<class... E> class_(const module_&, const char* n, const E&...) : nm(n) {}
  template<class F, class... E> class_& def(const char* n, F&& f, const E&... e) {
    Binding* b; 
    if constexpr (std::is_member_function_pointer<bare<F>>::value) b = bind_member<T>(nm, n, f); else b = bind_any(nm, n, std::forward<F>(f));
    b->is_method = true; b->names[b->nnamed++] = "self"; b->has_def[0] = false; (extra(b, e), ...); return *this; }
  template<class... A, class... E> class_& def(const init<A...>&, const E&...) { return *this; }
  template<class F, class... E> class_& def_static(const char* n, F&& f, const E&... e) { Binding* b = bind_any(nm, n, f); (extra(b, e), ...); return *this; }
  template<class F, class... E> class_& def_property_readonly(const char*, F&&, const E&...) { return *this; }
  template<class F, class G, class... E> class_& def_property(const char*, F&&, G&&, const E&...) { return *this; }
  template<class F, class... E> class_& def_readonly(const char*, F&&, const E&...) { return *this; }
  attr_sink attr(const char*) { return attr_sink(); }
};
template<class T> struct enum_ : object { template<class... E> enum_(const module_&, const char*, const E&...) {} enum_& value(const char*, T, const char* = nullptr) { return *this; } enum_& export_values() { return *this; } };
template<class T> struct exception : object { template<class... A> exception(A&&...) {} };
template<class T, class... A> inline exception<T> register_exception(A&&...) { return exception<T>(); }
template<class F> inline void register_exception_translator(F&&) {}
inline void mod_opt(const mod_gil_not_used& o) { vp_opts.gil_not_used = o.f; }
inline void mod_opt(const multiple_interpreters& o) { vp_opts.multi = o.k; }
template<class T> inline void mod_opt(const T&) {}
template<class... T> inline void mod_opts(const T&... t) { (mod_opt(t), ...); }
template<class... A> inline void print(A&&...) {}
}
#define PYBIND11_MODULE(NAME, VAR, ...) \
  static void vp_py_body(::pybind11::module_& VAR); \
  void vp_py_init() { ::pybind11::mod_opts(__VA_ARGS__); ::pybind11::module_ m_("" #NAME); vp_py_body(m_); } \
  void vp_py_body(::pybind11::module_& VAR)
#define PYBIND11_MAKE_OPAQUE(...)

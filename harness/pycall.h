// Calls through the binding table, as Python would make them.
#pragma once
#include "vp.h"
#include <pybind11/pybind11.h>
#include <pybind11/numpy.h>
namespace py = pybind11;
void vp_py_init();
#ifdef PYCALL_DEFINE
namespace pybind11 { Binding* vp_bindings[96]; int vp_nbindings = 0; ModuleOpts vp_opts; }
#endif
struct KW { const char* n; py::PyVal v; };
inline bool kinds_ok(int param, int given) {
  if (param == given) return true;
  if (param == py::PyVal::REAL && given == py::PyVal::INT) return true;
  if (param == py::PyVal::INT && given == py::PyVal::BOOL) return true;
  return false;
}
extern "C" void vp_phase(int inside) noexcept;      // a call from Python begins / has ended
extern "C" void vp_no_binding(const char* scope, const char* name) __attribute__((noreturn));
// positional values pos[0..np), keyword values kw[0..nk)
inline py::PyVal py_call(const char* scope, const char* name, py::PyVal* pos, int np, KW* kw = nullptr, int nk = 0) {
  for (int b = 0; b < py::vp_nbindings; ++b) {
    py::Binding* B = py::vp_bindings[b];
    if (std::strcmp(B->scope, scope) || std::strcmp(B->name, name)) continue;
    if (np > B->nparam) continue;
    py::PyVal args[16]; bool ok = true; int used = 0;
    for (int i = 0; i < B->nparam && ok; ++i) {
      bool got = false;
      if (i < np) { args[i] = pos[i]; got = true; }
      else {
        for (int k = 0; k < nk; ++k) if (i < B->nnamed && B->names[i] && !std::strcmp(kw[k].n, B->names[i])) { args[i] = kw[k].v; got = true; ++used; }
        if (!got && i < B->nnamed && B->has_def[i]) { args[i] = B->def[i]; got = true; }
      }
      if (!got || !kinds_ok(B->kinds[i], args[i].kind)) ok = false;
    }
    if (!ok || used != nk) continue;
#ifdef PYCALL_PHASES
    struct Phase { Phase() { vp_phase(1); } ~Phase() { vp_phase(0); } } phase;
#endif
    return B->inv->call(args);
  }
  vp_no_binding(scope, name);
}

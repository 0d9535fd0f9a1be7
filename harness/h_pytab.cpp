// The binding table of the compiled module, for the analysis of the Python sources.
#define PYCALL_DEFINE
#include "pycall.h"
extern "C" void entry_table() {
  vp_py_init();
  for (int b = 0; b < py::vp_nbindings; ++b) {
    py::Binding* B = py::vp_bindings[b];
    vp_out_i64(B->scope, 100*b, B->is_method); vp_out_i64(B->name, 100*b + 1, B->nparam);
    for (int i = 0; i < B->nparam; ++i) {
      bool nm = i < B->nnamed && B->names[i];
      vp_out_i64(nm ? B->names[i] : "", 100*b + 2 + 2*i, nm && B->has_def[i]);
      if (nm && B->has_def[i]) vp_out_f64("default", 100*b + 3 + 2*i, B->def[i].kind == py::PyVal::REAL ? B->def[i].d : (double)B->def[i].i);
    }
  }
}

// the bindings under test, as they are
#include <osqp/osqp.h>
#include "../python/pybind_export.cpp"
void p01_register_module() { PyImport_AppendInittab("pympcxx", PyInit_pympcxx); }

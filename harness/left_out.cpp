// symmetrix.cpp calls these; the files that define them need sphericart, which is not here.
#include <pybind11/pybind11.h>

void bind_mace(pybind11::module_ &) {}
void bind_spherical_harmonic(pybind11::module_ &) {}

// Harness module for the Kokkos part: real calls that have no Python binding.
#include <pybind11/pybind11.h>
#include <pybind11/numpy.h>
#include <pybind11/stl.h>
#include "cubic_spline_kokkos.hpp"
#include "cubic_spline_set_kokkos.hpp"
#include "radial_function_set_kokkos.hpp"
#include "zbl_kokkos.hpp"
namespace py = pybind11;
using dv = std::vector<double>; using iv = std::vector<int>;
template <class T> using arr = py::array_t<T, py::array::c_style | py::array::forcecast>;

template <class T> Kokkos::View<T*> view(const std::vector<T>& v)
{
    Kokkos::View<T*> d("in", v.size());
    auto h = Kokkos::create_mirror_view(d);
    for (size_t i = 0; i < v.size(); ++i) h(i) = v[i];
    Kokkos::deep_copy(d, h);
    return d;
}
static Kokkos::View<double**> view2(const std::vector<dv>& v)
{
    Kokkos::View<double**> d("in2", v.size(), v.empty() ? 0 : v[0].size());
    auto h = Kokkos::create_mirror_view(d);
    for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < v[i].size(); ++j) h(i, j) = v[i][j];
    Kokkos::deep_copy(d, h);
    return d;
}
template <class T> std::vector<T> back(Kokkos::View<T*> d)
{
    auto h = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace(), d);
    std::vector<T> v(h.extent(0));
    for (size_t i = 0; i < v.size(); ++i) v[i] = h(i);
    return v;
}
template <class T> std::vector<double> back2(Kokkos::View<T**, Kokkos::LayoutRight> d)
{
    auto h = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace(), d);
    std::vector<double> v;
    for (size_t i = 0; i < h.extent(0); ++i) for (size_t j = 0; j < h.extent(1); ++j) v.push_back(h(i, j));
    return v;
}

template <class P> void radial(py::module_& m, const char* name)
{
    using R = RadialFunctionSetKokkos<P>;
    py::class_<R>(m, name, py::module_local())
        .def(py::init<double, std::vector<std::vector<dv>>, std::vector<std::vector<dv>>>())
        .def("evaluate", [](R& s, int n, iv node_types, iv num_neigh, iv neigh_types, dv r, int width) {
            using V = Kokkos::View<P**, Kokkos::LayoutRight>;
            V a(Kokkos::view_alloc("R", Kokkos::WithoutInitializing), r.size(), width), b(Kokkos::view_alloc("Rd", Kokkos::WithoutInitializing), r.size(), width);
            s.evaluate(n, view(node_types), view(num_neigh), view(neigh_types), view(r), a, b);
            return py::make_tuple(back2<P>(a), back2<P>(b));
        });
}

PYBIND11_MODULE(vh, m)
{
    m.def("init", [] { if (!Kokkos::is_initialized()) Kokkos::initialize(); });
    m.def("stats", [] { return std::string(vkokkos_stats()); });
    py::class_<ZBLKokkos>(m, "Repulsion", py::module_local()).def(py::init<double,double,dv,dv,int>())
        .def("list", [](ZBLKokkos& z, int n, iv node_types, iv num_neigh, iv neigh_types, iv atomic_numbers, dv r, dv xyz, dv e, dv f) {
            auto E = view(e), F = view(f);
            z.compute_ZBL(n, view(node_types), view(num_neigh), view(neigh_types), view(atomic_numbers), view(r), view(xyz), E, F);
            return py::make_tuple(back(E), back(F));
        });
    // built from device views
    py::class_<CubicSplineKokkos>(m, "SplineFromViews", py::module_local())
        .def(py::init([](double h, dv v, dv d) { return CubicSplineKokkos(h, view(v), view(d)); }))
        .def("evaluate", &CubicSplineKokkos::evaluate)
        .def("evaluate_deriv", &CubicSplineKokkos::evaluate_deriv)
        .def("evaluate_deriv_divided", &CubicSplineKokkos::evaluate_deriv_divided);
    py::class_<CubicSplineSetKokkos>(m, "SetFromViews", py::module_local())
        .def(py::init([](double h, std::vector<dv> v, std::vector<dv> d, bool views) {
            return views ? CubicSplineSetKokkos(h, view2(v), view2(d)) : CubicSplineSetKokkos(h, v, d); }))
        .def("evaluate", [](CubicSplineSetKokkos& s, double r) {
            Kokkos::View<double*> a(Kokkos::view_alloc("a", Kokkos::WithoutInitializing), s.num_splines);
            s.evaluate(r, a);
            return back(a); })
        .def("evaluate_derivs", [](CubicSplineSetKokkos& s, double r) {
            Kokkos::View<double*> a(Kokkos::view_alloc("a", Kokkos::WithoutInitializing), s.num_splines), b(Kokkos::view_alloc("b", Kokkos::WithoutInitializing), s.num_splines);
            s.evaluate_derivs(r, a, b);
            return py::make_tuple(back(a), back(b)); })
        .def("evaluate_derivs_many", [](CubicSplineSetKokkos& s, dv r) {
            using V = Kokkos::View<double**, Kokkos::LayoutRight>;
            V a(Kokkos::view_alloc("a", Kokkos::WithoutInitializing), r.size(), s.num_splines), b(Kokkos::view_alloc("b", Kokkos::WithoutInitializing), r.size(), s.num_splines);
            s.evaluate_derivs(view(r), a, b);
            return py::make_tuple(back2<double>(a), back2<double>(b)); });
    radial<double>(m, "Radial");
    radial<float>(m, "RadialFloat");
}

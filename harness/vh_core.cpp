// Harness module: real calls that have no Python binding.
#include <pybind11/pybind11.h>
#include <pybind11/numpy.h>
#include <pybind11/stl.h>
#include <algorithm>
#include <cstring>
#include "zbl.hpp"
#include "tools.hpp"
#include "multivariate_polynomial.hpp"
#include "multilayer_perceptron.hpp"
#include "cubic_spline.hpp"
#include "cubic_spline_set.hpp"
namespace py = pybind11;
using dv = std::vector<double>; using iv = std::vector<int>;

PYBIND11_MODULE(vh, m)
{
    // ZBL over a neighbour list, on exactly-sized heap buffers; returns the accumulators
    m.def("zbl_list", [](double a_exp, double a_pre, dv c, dv radii, int p, int num_nodes, iv node_types, iv num_neigh,
                         iv neigh_types, iv atomic_numbers, dv r, dv xyz, dv e, dv f) {
        ZBL z(a_exp, a_pre, c, radii, p);
        z.compute_ZBL(num_nodes, node_types, num_neigh, neigh_types, atomic_numbers, r, xyz, e, f);
        return py::make_tuple(e, f, node_types, num_neigh, neigh_types, atomic_numbers, r, xyz);
    });
    // the same on a long-lived object
    py::class_<ZBL>(m, "Repulsion", py::module_local()).def(py::init<double,double,dv,dv,int>())
        .def("list", [](ZBL& z, int num_nodes, iv node_types, iv num_neigh, iv neigh_types, iv atomic_numbers, dv r, dv xyz, dv e, dv f) {
            z.compute_ZBL(num_nodes, node_types, num_neigh, neigh_types, atomic_numbers, r, xyz, e, f);
            return py::make_tuple(e, f, node_types, num_neigh, neigh_types, atomic_numbers, r, xyz);
        });
    m.def("product", [](std::vector<iv> in) { return _product<int>(in); });
    m.def("product_d", [](std::vector<dv> in) { return _product<double>(in); });
    // copies: value semantics of evaluator objects
    m.def("mlp_copies", [](iv shape, std::vector<dv> w, double s, dv x, dv y) {
        MultilayerPerceptron a(shape, w, s);
        auto r0 = a.evaluate(x);
        MultilayerPerceptron b = a;
        auto r1 = b.evaluate_gradient(y);
        auto r2 = a.evaluate(x);
        MultilayerPerceptron d; d = b;
        auto r3 = d.evaluate_gradient(y);
        MultilayerPerceptron e = std::move(d);
        auto r4 = e.evaluate_gradient(y);
        return py::make_tuple(r0, r1, r2, r3, r4);
    });
    m.def("poly_copies", [](int n, dv c, std::vector<iv> mon, dv x, dv y) {
        MultivariatePolynomial a(n, c, mon);
        auto r0 = a.evaluate_gradient(x);
        MultivariatePolynomial b = a;
        auto r1 = b.evaluate_gradient(y);
        auto r2 = a.evaluate_gradient(x);
        b = a;
        auto r3 = b.evaluate_gradient(y);
        MultivariatePolynomial d = std::move(b);
        auto r4 = d.evaluate_gradient(y);
        return py::make_tuple(r0, r1, r2, r3, r4);
    });
    // in-place span evaluation into the middle of a larger array
    m.def("set_eval_span", [](double h, std::vector<dv> v, std::vector<dv> d, double r, int pad) {
        CubicSplineSet s(h, v, d);
        const int n = v.size();
        dv a(n+2*pad, -7.25), b(n+2*pad, -7.25), g(n+2*pad, -7.25);
        s.evaluate(r, std::span<double>(a.data()+pad, n));
        s.evaluate_derivs(r, std::span<double>(b.data()+pad, n), std::span<double>(g.data()+pad, n));
        return py::make_tuple(n, a, b, g);
    });
}

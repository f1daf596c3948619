#pragma once
#include "KokkosBatched_Util.hpp"

namespace KokkosBlas {
using Trans = KokkosBatched::Trans; using Algo = KokkosBatched::Algo;

// a kernel with a result on the host
template <class X, class Y> auto dot(const X& x, const Y& y) {
    using V = typename X::non_const_value_type;
    if (x.extent(0) != y.extent(0)) throw std::runtime_error("KokkosBlas::dot: Dimensions do not match");
    V s = 0;
    Kokkos::parallel_reduce("KokkosBlas::dot", (int)x.extent(0), [=](int i, V& t) { t += x(i) * y(i); }, s);
    return s;
}
template <class T, class Alg> struct SerialGemv {   // runs where it is called
    template <class S, class A, class X, class Y> static int invoke(const S alpha, const A& a, const X& x, const S beta, const Y& y) {
        using V = typename Y::non_const_value_type;
        const long M = T::t ? a.extent(1) : a.extent(0), N = T::t ? a.extent(0) : a.extent(1);
        KokkosBatched::vimpl::same((long)x.extent(0) == N && (long)y.extent(0) == M, "Gemv");
        for (long i = 0; i < M; ++i) {
            V s = 0;
            for (long k = 0; k < N; ++k) { if constexpr (T::t) s += a(k, i) * x(k); else s += a(i, k) * x(k); }
            y(i) = beta == 0 ? static_cast<V>(alpha * s) : static_cast<V>(beta * y(i) + alpha * s);
        }
        return 0;
    }
};
template <class AV, class XV, class YV> void gemv(const char t[], double alpha, const AV& A, const XV& x, double beta, const YV& y) {
    using V = typename YV::non_const_value_type;
    const bool tr = t[0] == 'T' || t[0] == 't';
    const long M = tr ? A.extent(1) : A.extent(0), N = tr ? A.extent(0) : A.extent(1);
    KokkosBatched::vimpl::same((long)x.extent(0) == N && (long)y.extent(0) == M, "gemv");
    Kokkos::parallel_for("KokkosBlas::gemv", (int)M, [=](int i) {
        V s = 0; for (long k = 0; k < N; ++k) s += (tr ? A(k, i) : A(i, k)) * x(k);
        y(i) = beta == 0 ? V(alpha * s) : V(beta * y(i) + alpha * s); });
}
template <class AV, class BV, class CV> void gemm(const char ta[], const char tb[], double alpha, const AV& A, const BV& B, double beta, const CV& C) {
    using V = typename CV::non_const_value_type;
    const bool p = ta[0] == 'T' || ta[0] == 't', q = tb[0] == 'T' || tb[0] == 't';
    const long K = p ? A.extent(0) : A.extent(1), n = C.extent(1);
    KokkosBatched::vimpl::same((p ? A.extent(1) : A.extent(0)) == C.extent(0) && (q ? B.extent(0) : B.extent(1)) == C.extent(1) && (long)(q ? B.extent(1) : B.extent(0)) == K, "gemm");
    Kokkos::parallel_for("KokkosBlas::gemm", (int)(C.extent(0) * n), [=](int x) {
        const long i = x / n, j = x % n;
        V s = 0; for (long k = 0; k < K; ++k) s += (p ? A(k, i) : A(i, k)) * (q ? B(j, k) : B(k, j));
        C(i, j) = beta == 0 ? V(alpha * s) : V(beta * C(i, j) + alpha * s); });
}
template <class Y, class X> void axpy(double a, const X& x, const Y& y) { Kokkos::parallel_for("KokkosBlas::axpy", (int)x.extent(0), [=](int i) { y(i) += a * x(i); }); }
template <class Y, class X> void scal(const Y& y, double a, const X& x) { Kokkos::parallel_for("KokkosBlas::scal", (int)x.extent(0), [=](int i) { y(i) = a * x(i); }); }
}

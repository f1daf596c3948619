// Stand-in for the part of KokkosKernels that the sources use.
#pragma once
#include "Kokkos_Core.hpp"

namespace KokkosBatched {
struct Trans { struct NoTranspose { static constexpr bool t = false; }; struct Transpose { static constexpr bool t = true; }; struct ConjTranspose { static constexpr bool t = true; }; };
struct Algo {
    struct Level3 { struct Unblocked {}; struct Blocked {}; struct MKL {}; };
    struct Level2 { struct Unblocked {}; struct Blocked {}; struct MKL {}; };
    using Gemm = Level3; using Gemv = Level2;
};
struct Side { struct Left {}; struct Right {}; }; struct Mode { struct Serial {}; struct Team {}; struct TeamVector {}; };

namespace vimpl {
inline void same(bool ok, const char* what) { if (!ok) vk::violation(std::string(what) + ": extents do not match"); }
template <bool TA, bool TB, class A, class B, class C> void element(double alpha, const A& a, const B& b, double beta, const C& c, long i, long j) {
    using V = typename C::non_const_value_type;
    const long K = a.extent(TA ? 0 : 1);
    V s = 0;
    for (long k = 0; k < K; ++k) {
        V x, y;
        if constexpr (TA) x = a(k, i); else x = a(i, k);
        if constexpr (TB) y = b(j, k); else y = b(k, j);
        s += x * y;
    }
    c(i, j) = beta == 0 ? static_cast<V>(alpha * s) : static_cast<V>(beta * c(i, j) + alpha * s);
}
template <bool TA, bool TB, class A, class B, class C> void shapes(const A& a, const B& b, const C& c) {
    same(a.extent(TA ? 1 : 0) == c.extent(0) && b.extent(TB ? 0 : 1) == c.extent(1) && a.extent(TA ? 0 : 1) == b.extent(TB ? 1 : 0), "Gemm");
}
}
// every thread of the team has to call it; like the original it does not wait for the others at the end
template <class Member, class TA, class TB, class Alg> struct TeamGemm {
    template <class S, class A, class B, class C> static int invoke(const Member& m, const S alpha, const A& a, const B& b, const S beta, const C& c) {
        vimpl::shapes<TA::t, TB::t>(a, b, c);
        const long n = c.extent(1);
        m.team_barrier();
        Kokkos::parallel_for(Kokkos::TeamThreadRange(m, (long)(c.extent(0) * n)), [&](int q) { vimpl::element<TA::t, TB::t>(alpha, a, b, beta, c, q / n, q % n); });
        return 0;
    }
};
template <class Member, class TA, class TB, class Alg> struct TeamVectorGemm : TeamGemm<Member, TA, TB, Alg> {};
template <class TA, class TB, class Alg> struct SerialGemm {
    template <class S, class A, class B, class C> static int invoke(const S alpha, const A& a, const B& b, const S beta, const C& c) {
        vimpl::shapes<TA::t, TB::t>(a, b, c);
        for (long i = 0; i < (long)c.extent(0); ++i) for (long j = 0; j < (long)c.extent(1); ++j) vimpl::element<TA::t, TB::t>(alpha, a, b, beta, c, i, j);
        return 0;
    }
};
}

// One deterministic task = construct evaluators from random data, run a random call history on them,
// return every number obtained.  Used alone (memory monitors) and from many threads (race monitors).
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <span>
#include <stdexcept>
#include <string>
#include <vector>
#include "zbl.hpp"
#include "tools.hpp"
#include "multivariate_polynomial.hpp"
#include "multilayer_perceptron.hpp"
#include "cubic_spline.hpp"
#include "cubic_spline_set.hpp"

using dv = std::vector<double>; using iv = std::vector<int>;

struct Rng {    // splitmix64
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed*0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next() { uint64_t z=(s+=0x9E3779B97F4A7C15ull); z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31); }
    double u() { return (next()>>11)*0x1p-53; }
    double sym() { return 2*u()-1; }
    int in(int a, int b) { return a + int(next()%uint64_t(b-a+1)); }   // inclusive
    bool p(double q) { return u()<q; }
    template <class T> T pick(std::initializer_list<T> l) { return *(l.begin()+in(0,int(l.size())-1)); }
    dv vec(int n) { dv v(n); for (auto& x:v) x=sym(); return v; }
};

struct Log {
    dv out;                                   // every number returned
    std::set<std::string> seen;               // distinct (kind, previous call, call) transitions
    long calls = 0, objects = 0, copies = 0, rejected = 0;
    void put(double x) { out.push_back(x); }
    void put(const dv& v) { out.insert(out.end(), v.begin(), v.end()); }
    template <class A, class B> void put(const std::tuple<A,B>& t) { put(std::get<0>(t)); put(std::get<1>(t)); }
};

inline int small_or_edge(Rng& g, int lo, int hi) { return g.p(.3) ? lo : g.in(lo, hi); }
inline int batch(Rng& g, int hi) { return g.p(.12) ? 0 : g.p(.2) ? 1 : g.in(1, hi); }

template <class F> void history(Rng& g, Log& L, const char* kind, int steps, const std::vector<std::pair<const char*, F>>& ops)
{
    std::string prev = "-";
    for (int s=0; s<steps; ++s) {
        const auto& o = ops[g.in(0, int(ops.size())-1)];
        std::string tag = o.second();
        std::string cur = std::string(o.first) + tag;
        L.seen.insert(std::string(kind)+":"+prev+">"+cur);
        prev = cur; ++L.calls;
    }
}
using Op = std::function<std::string()>;
inline std::string bt(int b) { return b==0 ? "[0]" : b==1 ? "[1]" : b<8 ? "[<8]" : "[8+]"; }

inline void work_spline(Rng& g, Log& L, int steps)
{
    const int n = small_or_edge(g, 2, 40); const double h = .01 + g.u();
    CubicSpline s(h, g.vec(n), g.vec(n)); ++L.objects;
    std::optional<CubicSpline> alt;
    auto arg = [&] { return g.p(.15) ? 0.0 : g.p(.2) ? h*g.in(0,n-2) : g.u()*h*(n-1)*(1-1e-9); };
    history<Op>(g, L, "spline", steps, {
        {"evaluate", [&]{ L.put(s.evaluate(arg())); return ""; }},
        {"deriv", [&]{ L.put(s.evaluate_deriv(arg())); return ""; }},
        {"divided", [&]{ const double r = arg(); L.put(s.evaluate_deriv_divided(r > 0 ? r : .5*h)); return ""; }},
        {"reject", [&]{ try { s.evaluate(h*n*(1+g.u())); } catch (const std::invalid_argument&) { ++L.rejected; } return ""; }},
        {"copy", [&]{ alt = s; L.put(alt->evaluate(arg())); s = *alt; ++L.copies; return ""; }}});
}

inline void work_set(Rng& g, Log& L, int steps)
{
    const int n = small_or_edge(g, 2, 30), m = small_or_edge(g, 1, 17); const double h = .01 + g.u();
    std::vector<dv> v, d; for (int i=0;i<m;++i) { v.push_back(g.vec(n)); d.push_back(g.vec(n)); }
    auto s = std::make_unique<CubicSplineSet>(h, v, d); ++L.objects;
    auto arg = [&] { return g.p(.15) ? 0.0 : g.p(.2) ? h*g.in(0,n-2) : g.p(.3) ? h*(n-2+g.u()*(1-1e-9)) : g.u()*h*(n-1)*(1-1e-9); };
    history<Op>(g, L, "set", steps, {
        {"evaluate", [&]{ auto a = std::make_unique<double[]>(m); s->evaluate(arg(), std::span<double>(a.get(), m)); for (int i=0;i<m;++i) L.put(a[i]); return ""; }},
        {"derivs", [&]{ auto a = std::unique_ptr<double[]>(new double[m]); auto b = std::unique_ptr<double[]>(new double[m]);
             s->evaluate_derivs(arg(), std::span<double>(a.get(), m), std::span<double>(b.get(), m)); for (int i=0;i<m;++i) { L.put(a[i]); L.put(b[i]); } return ""; }},
        {"reject", [&]{ dv a(m); try { s->evaluate(h*n*(1+g.u()), a); } catch (const std::invalid_argument&) { ++L.rejected; } return ""; }},
        {"copy", [&]{ s = std::make_unique<CubicSplineSet>(*s); ++L.copies; return ""; }}});
}

inline void work_mlp(Rng& g, Log& L, int steps)
{
    const int nl = g.in(2, 5); iv sh; for (int i=0;i<nl;++i) sh.push_back(small_or_edge(g, 1, 12));
    std::vector<dv> w; for (int i=0;i+1<nl;++i) w.push_back(g.vec(sh[i]*sh[i+1]));
    auto m = std::make_unique<MultilayerPerceptron>(sh, w, .3+g.u()); ++L.objects;
    history<Op>(g, L, "mlp", steps, {
        {"evaluate", [&]{ L.put(m->evaluate(g.vec(sh[0]))); return std::string(); }},
        {"gradient", [&]{ L.put(m->evaluate_gradient(g.vec(sh[0]))); return std::string(); }},
        {"batch", [&]{ int b=batch(g,20); L.put(m->evaluate_batch(g.vec(b*sh[0]), b)); return bt(b); }},
        {"gradbatch", [&]{ int b=batch(g,20); L.put(m->evaluate_gradient_batch(g.vec(b*sh[0]), b)); return bt(b); }},
        {"copy", [&]{ MultilayerPerceptron c; c = *m; L.put(c.evaluate(g.vec(sh[0]))); m = std::make_unique<MultilayerPerceptron>(std::move(c)); ++L.copies; return std::string(); }}});
}

inline void work_poly(Rng& g, Log& L, int steps)
{
    const int nv = small_or_edge(g, 1, 9), nt = small_or_edge(g, 1, 14), deg = g.in(1, 6);
    dv c; std::vector<iv> mon;
    for (int t=0;t<nt;++t) {
        iv m; for (int k=g.in(1,deg);k>0;--k) m.push_back(g.in(0,nv-1));
        c.push_back(g.sym()); mon.push_back(m);
    }
    auto p = std::make_unique<MultivariatePolynomial>(nv, c, mon); ++L.objects;
    history<Op>(g, L, "poly", steps, {
        {"evaluate", [&]{ L.put(p->evaluate(g.vec(nv))); return std::string(); }},
        {"simple", [&]{ L.put(p->evaluate_simple(g.vec(nv))); return std::string(); }},
        {"gradient", [&]{ L.put(p->evaluate_gradient(g.vec(nv))); return std::string(); }},
        {"gradsimple", [&]{ L.put(p->evaluate_gradient_simple(g.vec(nv))); return std::string(); }},
        {"batch", [&]{ int b=batch(g,24); L.put(p->evaluate_batch(g.vec(b*nv), b)); return bt(b); }},
        {"copy", [&]{ auto q = std::make_unique<MultivariatePolynomial>(*p); L.put(p->evaluate(g.vec(nv))); p = std::move(q); ++L.copies; return std::string(); }}});
}

inline void work_zbl(Rng& g, Log& L, int steps)
{
    const int nz = small_or_edge(g, 2, 119);
    dv c{.1818,.5099,.2802,.02817}, rad; for (int i=0;i<nz;++i) rad.push_back(.2+2*g.u());
    auto z = std::make_unique<ZBL>(.3, .4543, c, rad, g.in(1,8)); ++L.objects;
    auto Z = [&] { return g.in(1, nz-1); };
    history<Op>(g, L, "zbl", steps, {
        {"compute", [&]{ L.put(z->compute(Z(), Z(), .1+3*g.u())); return ""; }},
        {"gradient", [&]{ L.put(z->compute_gradient(Z(), Z(), .1+3*g.u())); return ""; }},
        {"envelope", [&]{ L.put(z->compute_envelope(.1+g.u(), .5+g.u(), g.in(1,8))); return ""; }},
        {"envgrad", [&]{ L.put(z->compute_envelope_gradient(.1+g.u(), .5+g.u(), g.in(1,8))); return ""; }},
        {"copy", [&]{ ZBL q; q = *z; z = std::make_unique<ZBL>(q); ++L.copies; return ""; }},
        {"list", [&]{
            const int ne = small_or_edge(g, 1, 5); iv num; for (int i=0;i<ne;++i) num.push_back(Z());
            const int n = g.p(.1) ? 0 : small_or_edge(g, 1, 8); iv nt, nn, jt; dv r, xyz;
            for (int i=0;i<n;++i) { nt.push_back(g.in(0,ne-1)); nn.push_back(g.p(.25)?0:g.in(0,6));
                for (int k=0;k<nn.back();++k) { jt.push_back(g.in(0,ne-1)); double x=g.sym()+.1,y=g.sym(),w=g.sym(); r.push_back(std::sqrt(x*x+y*y+w*w)); xyz.insert(xyz.end(),{x,y,w}); } }
            nt.shrink_to_fit(); nn.shrink_to_fit(); jt.shrink_to_fit(); r.shrink_to_fit(); xyz.shrink_to_fit();
            dv e(n,.5), f(xyz.size(),-.5);
            z->compute_ZBL(n, nt, nn, jt, num, r, xyz, e, f); L.put(e); L.put(f); return n?"":"[0]"; }}});
}

inline void work_tools(Rng& g, Log& L)
{
    auto sum3 = [&](const std::vector<std::vector<iv>>& p) { double s=0; int k=1; for (auto& a:p) for (auto& b:a) for (int x:b) s+=x*double(k++%97); L.put(s); L.put(double(p.size())); };
    auto sum2 = [&](const std::vector<iv>& p) { double s=0; int k=1; for (auto& b:p) for (int x:b) s+=x*double(k++%97); L.put(s); L.put(double(p.size())); };
    iv v; for (int i=g.in(0,6);i>0;--i) v.push_back(g.in(-9,9));
    L.calls += 7;
    if (!v.empty()) { sum3(_partitions(v)); sum3(_two_part_partitions(v)); }
    sum2(_permutations(g.in(1,5)));
    if (v.size()>=2) sum2(_combinations(v, 2));
    sum2(_product_repeat(iv(v.begin(), v.begin()+std::min<size_t>(3,v.size())), g.in(1,3)));
    sum2(_generate_indices(g.in(1,3), g.in(0,3)));
    sum2(_product<int>({v, {1,2}}));
    L.put(_binomial_coefficient(g.in(0,12), g.in(0,12))); L.put(_sum(v));
    L.seen.insert("tools:"+std::to_string(v.size()));
}

inline void task(uint64_t seed, Log& L, int steps)
{
    Rng g(seed);
    for (int k=0; k<3; ++k) switch (g.in(0,5)) {
        case 0: work_spline(g, L, steps); break;
        case 1: work_set(g, L, steps); break;
        case 2: work_mlp(g, L, steps); break;
        case 3: work_poly(g, L, steps); break;
        case 4: work_zbl(g, L, steps); break;
        case 5: work_tools(g, L); break;
    }
}

inline void json_report(long cases, const std::map<std::string,long>& ev, const std::set<std::string>& seen,
                        const std::vector<std::string>& samples, const std::vector<std::pair<std::string,std::string>>& bad)
{
    auto esc = [](const std::string& s) { std::string o; for (char c:s) { if (c=='"'||c=='\\') o+='\\'; if (c=='\n') { o+="\\n"; continue; } o+=c; } return o; };
    std::string o = "{\"cases\":"+std::to_string(cases)+",\"events\":{";
    bool f=true; for (auto& [k,v]:ev) { o += (f?"":",")+("\""+esc(k)+"\":")+std::to_string(v); f=false; }
    o += "},\"distinct\":["; f=true; for (auto& s:seen) { o += (f?"\"":",\"")+esc(s)+"\""; f=false; }
    o += "],\"samples\":["; f=true; for (auto& s:samples) { o += (f?"\"":",\"")+esc(s)+"\""; f=false; }
    o += "],\"violations\":["; f=true; for (auto& [k,m]:bad) { o += std::string(f?"":",")+"{\"key\":\""+esc(k)+"\",\"msg\":\""+esc(m)+"\"}"; f=false; }
    puts((o+"]}").c_str());
}

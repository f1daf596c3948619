// Runs the Kokkos evaluators and the Kokkos potential with many threads, team sizes, mappings and orders under a
// race detector.  args: models.txt seed first count
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <string>
#include <vector>
#include <Kokkos_Core.hpp>
#include "cubic_spline_set_kokkos.hpp"
#include "mace_kokkos.hpp"
#include "multilayer_perceptron_kokkos.hpp"
#include "multivariate_polynomial_kokkos.hpp"
#include "radial_function_set_kokkos.hpp"
#include "zbl_kokkos.hpp"
using R = std::mt19937_64;
using dv = std::vector<double>; using iv = std::vector<int>;
static std::map<std::string,long> ev; static std::set<std::string> seen; static long violations = 0; static std::string what;
static int ri(R& g, int a, int b) { return std::uniform_int_distribution<int>(a,b)(g); }
static double rd(R& g, double a, double b) { return std::uniform_real_distribution<double>(a,b)(g); }

template <class T> Kokkos::View<T*> view(const std::vector<T>& v)
{
    Kokkos::View<T*> d("in", v.size());
    auto h = Kokkos::create_mirror_view(d);
    for (size_t i=0;i<v.size();++i) h(i) = v[i];
    Kokkos::deep_copy(d, h);
    return d;
}
template <class V> dv flat(V d)
{
    Kokkos::fence();
    dv v(d.size());
    for (size_t i=0;i<v.size();++i) v[i] = d.data()[i];
    return v;
}

static std::string mode(R& g, bool single)
{
    static const char *O[]={"up","down","random"}, *M[]={"stride","block","random"};
    int t = ri(g,2,5), s = ri(g,1,4), o = ri(g,0,2), m = ri(g,0,2), d = ri(g,0,1), e = ri(g,0,1);
    if (single) { t=1; s=1; o=0; m=0; d=0; e=0; }
    setenv("VKOKKOS", ("threads="+std::to_string(t)+",team="+std::to_string(s)+",order="+O[o]+",map="+M[m]+",defer="+std::to_string(d)+",separate="+std::to_string(e)
                       +",seed="+std::to_string(g()%1000000)).c_str(), 1);
    return std::to_string(t)+std::to_string(s)+O[o][0]+M[m][0]+std::to_string(d);
}
// results of one case under one schedule; scale: how large the terms entering them are
struct Out { dv v; double tol; };
static void compare(const std::string& name, const Out& a, const Out& b)
{
    double top = 1;
    for (double q : a.v) top = std::max(top, std::fabs(q));
    bool bad = a.v.size() != b.v.size();
    for (size_t i=0;!bad && i<a.v.size();++i) bad = !(std::fabs(a.v[i]-b.v[i]) <= a.tol*top);
    ev["results compared"] += a.v.size();
    if (bad) { violations++; what = name+" differs from its single-threaded result"; }
}

struct Lists { int n; iv types, nn, idx, ntypes; dv xyz, r; };
static Lists lists(R& g, int elements, double r_cut)
{
    Lists L;
    switch (ri(g,0,5)) { case 0: L.n = 0; break; case 1: L.n = 1; break; case 2: L.n = ri(g,10,25); break; default: L.n = ri(g,2,9); }
    const int top = ri(g,0,5)==0 ? 0 : ri(g,1,8);
    for (int i=0;i<L.n;++i) L.types.push_back(ri(g,0,elements-1));
    for (int i=0;i<L.n;++i) {
        const int k = ri(g,0,5)==0 ? 0 : ri(g,0,top);
        L.nn.push_back(k);
        for (int j=0;j<k;++j) {
            const int a = ri(g,0,2)==0 ? 0 : ri(g,0,L.n-1);     // a popular atom: many threads add to it
            L.idx.push_back(a); L.ntypes.push_back(L.types[a]);
            double r = ri(g,0,9)==0 ? r_cut*rd(g,1,2) : r_cut*rd(g,.4,1), u[3] = {rd(g,-1,1), rd(g,-1,1), rd(g,-1,1)};
            const double s = std::sqrt(u[0]*u[0]+u[1]*u[1]+u[2]*u[2])+1e-300;
            for (double q : u) L.xyz.push_back(q/s*r);
            L.r.push_back(r);
        }
    }
    return L;
}

template <class P> Out potential(MACEKokkos<P>& m, const Lists& L)
{
    m.compute_node_energies_forces(L.n, view(L.types), view(L.nn), view(L.idx), view(L.ntypes), view(L.xyz), view(L.r));
    dv e = flat(m.node_energies), f = flat(m.node_forces);
    e.resize(L.n); f.resize(L.xyz.size());
    double acc = 0, top = 0;
    e.insert(e.end(), f.begin(), f.end());
    return {e, sizeof(P)==4 ? 1e-2 : 1e-7};
}
template <class P> void mace(R& g, const std::string& file)
{
    mode(g, true);
    MACEKokkos<P> a(file);
    mode(g, false);
    MACEKokkos<P> b(file);
    for (int k=0;k<3;++k) {
        Lists L = lists(g, a.atomic_numbers.size(), a.r_cut);
        mode(g, true);
        Out x = potential(a, L);
        std::string s = mode(g, false);
        Out y = potential(b, L);
        compare(sizeof(P)==4 ? "single-precision potential" : "potential", x, y);
        ev["potential evaluations"]++; ev["atoms"] += L.n; ev["neighbours"] += L.r.size();
        seen.insert("mace"+std::to_string(sizeof(P))+s+std::to_string(a.l_max)+std::to_string(a.L_max)+(L.n==0?"0":L.n<10?"s":"l"));
    }
}

static void evaluators(R& g)
{
    const int kind = ri(g,0,4);
    std::vector<Out> out;
    std::string name, s;
    R g0 = g;
    for (int pass=0;pass<2;++pass) {
        R q = g0;                                     // the same data in both passes
        s = mode(g, pass==0);
        dv all;
        if (kind==0) {
            name = "perceptron";
            iv shape{ri(q,1,9)}; for (int k=ri(q,0,2);k>=0;--k) shape.push_back(ri(q,1,17)); shape.push_back(1);
            std::vector<dv> w; for (size_t l=0;l+1<shape.size();++l) { w.emplace_back(); for (int k=0;k<shape[l]*shape[l+1];++k) w.back().push_back(rd(q,-1,1)); }
            MultilayerPerceptronKokkos p(shape, w, rd(q,.5,2));
            for (int k=0;k<3;++k) {
                const int b = ri(q,1,12);
                Kokkos::View<double**,Kokkos::LayoutRight> x("x",b,shape[0]), G("g",b,shape[0]); Kokkos::View<double*,Kokkos::LayoutRight> f("f",b);
                for (int i=0;i<b;++i) for (int j=0;j<shape[0];++j) x(i,j) = rd(q,-2,2);
                if (k==1) p.evaluate(x, f); else { p.evaluate_gradient(x, f, G); for (double z : flat(G)) all.push_back(z); }
                for (double z : flat(f)) all.push_back(z);
            }
        } else if (kind==1) {
            name = "polynomial";
            const int nv = ri(q,1,6), terms = ri(q,1,25);
            std::set<iv> M; while ((int)M.size()<terms && M.size()<20) { iv m; for (int k=ri(q,1,4);k>0;--k) m.push_back(ri(q,0,nv-1)); std::sort(m.begin(),m.end()); M.insert(m); if (ri(q,0,40)==0) break; }
            std::vector<iv> mono(M.begin(),M.end()); dv c; for (size_t k=0;k<mono.size();++k) c.push_back(rd(q,-1,1));
            MultivariatePolynomialKokkos p(nv, c, mono);
            for (int k=0;k<4;++k) {
                dv x; for (int i=0;i<nv;++i) x.push_back(rd(q,-1.5,1.5));
                Kokkos::View<double*> G("g",nv);
                Kokkos::View<const double*> X = view(x);
                all.push_back(k==0 ? p.evaluate_gradient_simple(X,G) : k==1 ? p.evaluate_gradient(X,G) : k==2 ? p.evaluate(X) : p.evaluate_simple(X));
                if (k<2) for (double z : flat(G)) all.push_back(z);
            }
        } else if (kind==2) {
            name = "spline set";
            const int n = ri(q,2,12), m = ri(q,1,9); const double h = rd(q,.1,.6);
            std::vector<dv> v(m), d(m); for (int i=0;i<m;++i) for (int j=0;j<n;++j) { v[i].push_back(rd(q,-1,1)); d[i].push_back(rd(q,-1,1)); }
            CubicSplineSetKokkos S(h, v, d);
            for (int k=0;k<3;++k) {
                dv r; for (int j=ri(q,1,20);j>0;--j) r.push_back(rd(q,0,.999)*h*(n-1));
                Kokkos::View<double**,Kokkos::LayoutRight> a("a",r.size(),m), b("b",r.size(),m);
                S.evaluate_derivs(view(r), a, b);
                for (double z : flat(a)) all.push_back(z);
                for (double z : flat(b)) all.push_back(z);
                Kokkos::View<double*> e("e",m); S.evaluate(r[0], e); for (double z : flat(e)) all.push_back(z);
            }
        } else if (kind==3) {
            name = "radial tables";
            const int N = ri(q,1,3), n = ri(q,2,10), m = ri(q,1,9); const double h = rd(q,.1,.6);
            std::vector<std::vector<dv>> v(N*(N+1)/2,std::vector<dv>(m)), d=v;
            for (auto* t : {&v,&d}) for (auto& x : *t) for (auto& y : x) for (int j=0;j<n;++j) y.push_back(rd(q,-1,1));
            RadialFunctionSetKokkos<double> S(h, v, d);
            Lists L = lists(q, N, h*(n-1));
            Kokkos::View<double**,Kokkos::LayoutRight> a("a",L.r.size(),m), b("b",L.r.size(),m);
            S.evaluate(L.n, view(L.types), view(L.nn), view(L.ntypes), view(L.r), a, b);
            for (double z : flat(a)) all.push_back(z);
            for (double z : flat(b)) all.push_back(z);
        } else {
            name = "pair repulsion";
            iv Z; for (int k=ri(q,1,4);k>0;--k) Z.push_back(ri(q,1,100));
            dv c, rad; for (int i=0;i<4;++i) c.push_back(rd(q,.05,.6)); for (int i=0;i<119;++i) rad.push_back(rd(q,.5,1.5));
            ZBLKokkos z(rd(q,.2,.4), rd(q,.3,.6), c, rad, ri(q,2,7));
            Lists L = lists(q, Z.size(), 3.0);
            Kokkos::View<double*> E("E",L.n), F("F",L.xyz.size());
            z.compute_ZBL(L.n, view(L.types), view(L.nn), view(L.ntypes), view(Z), view(L.r), view(L.xyz), E, F);
            for (double t : flat(E)) all.push_back(t);
            for (double t : flat(F)) all.push_back(t);
        }
        out.push_back({all, 1e-8});
    }
    compare(name, out[0], out[1]);
    ev["evaluator cases"]++;
    seen.insert(name+s);
}

int main(int, char** argv)
{
    std::vector<std::string> files; { std::ifstream f(argv[1]); std::string s; while (std::getline(f,s)) if (!s.empty()) files.push_back(s); }
    const unsigned seed = atoi(argv[2]); const int first = atoi(argv[3]), count = atoi(argv[4]);
    Kokkos::initialize();
    for (int c=first;c<first+count;++c) {
        R g(seed*1000003ull+c);
        fprintf(stderr,"\rcase %d ",c);
        const int k = ri(g,0,9);
        if (k<5) mace<double>(g, files[g()%files.size()]);
        else if (k<6) mace<float>(g, files[g()%files.size()]);
        else for (int j=0;j<4;++j) evaluators(g);
    }
    Kokkos::fence();
    fprintf(stderr,"\n");
    std::string st = vkokkos_stats();
    for (const char* k : {"kernels","iterations","barriers","atomics","fences","deferred","team_kernels"}) {
        auto p = st.find(std::string("\"")+k+"\":");
        if (p!=std::string::npos) ev[std::string("kokkos ")+k] = atol(st.c_str()+p+strlen(k)+3);
    }
    printf("{\"cases\":%d,\"events\":{",count);
    bool f=true; for (auto& [k,v]:ev) { printf("%s\"%s\":%ld",f?"":",",k.c_str(),v); f=false; }
    printf("},\"distinct\":["); f=true; for (auto& s:seen) { printf("%s\"%s\"",f?"":",",s.c_str()); f=false; }
    printf("],\"violations\":["); if (violations) printf("{\"key\":\"schedule\",\"msg\":\"%s\"}",what.c_str());
    printf("]}\n");
    return 0;
}

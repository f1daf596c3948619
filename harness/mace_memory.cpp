// Loads model files and evaluates neighbour lists under a memory monitor.  args: models.txt seed first count
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <string>
#include <vector>
#include "mace.hpp"

struct Lists { int n; std::vector<int> types, nn, idx, ntypes; std::vector<double> xyz, r; };

// every array exactly as long as it must be, in its own allocation
template <class T> std::vector<T> exact(std::vector<T> const& v) { std::vector<T> w; w.reserve(v.size()); w.assign(v.begin(), v.end()); return w; }

template <class R> Lists make(R& g, int elements, double r_cut)
{
    auto ri = [&](int a, int b) { return std::uniform_int_distribution<int>(a,b)(g); };
    auto rd = [&](double a, double b) { return std::uniform_real_distribution<double>(a,b)(g); };
    Lists L;
    switch (ri(0,5)) { case 0: L.n = 0; break; case 1: L.n = 1; break; case 2: L.n = ri(20,60); break; default: L.n = ri(2,10); }
    const int top = ri(0,4)==0 ? 0 : ri(1,12);
    const int one = ri(0,3)==0 ? ri(0,elements-1) : -1;
    for (int i=0;i<L.n;++i) L.types.push_back(one>=0 ? one : ri(0,elements-1));
    for (int i=0;i<L.n;++i) {
        const int k = ri(0,4)==0 ? 0 : ri(0,top);
        L.nn.push_back(k);
        for (int j=0;j<k;++j) {
            const int a = ri(0,L.n-1);
            L.idx.push_back(a); L.ntypes.push_back(L.types[a]);
            double r = ri(0,9)==0 ? r_cut*rd(1,3) : r_cut*rd(.05,1);
            if (ri(0,19)==0) r = r_cut;
            double u[3] = {rd(-1,1), rd(-1,1), rd(-1,1)};
            if (ri(0,4)==0) { u[0]=u[1]=u[2]=0; u[ri(0,2)] = ri(0,1) ? 1 : -1; }
            const double s = std::sqrt(u[0]*u[0]+u[1]*u[1]+u[2]*u[2])+1e-300;
            for (double q : u) L.xyz.push_back(q/s*r);
            L.r.push_back(r);
        }
    }
    return {L.n, exact(L.types), exact(L.nn), exact(L.idx), exact(L.ntypes), exact(L.xyz), exact(L.r)};
}

int main(int, char** argv)
{
    std::vector<std::string> files; { std::ifstream f(argv[1]); std::string s; while (std::getline(f,s)) if (!s.empty()) files.push_back(s); }
    const unsigned seed = atoi(argv[2]); const int first = atoi(argv[3]), count = atoi(argv[4]);
    std::map<std::string,long> ev; std::set<std::string> seen; long violations = 0; std::string what;
    for (int c=first;c<first+count;++c) {
        fprintf(stderr,"\rcase %d ",c);
        std::mt19937_64 g(seed*1000003ull+c);
        std::string prev="-";
        const auto& file = files[g()%files.size()];
        auto m = std::make_unique<MACE>(file);
        ev["loads"]++;
        for (int k=0;k<6;++k) {
            Lists L = make(g, m->atomic_numbers.size(), m->r_cut);
            m->compute_node_energies_forces(L.n, L.types, L.nn, L.idx, L.ntypes, L.xyz, L.r);
            ev["evaluations"]++; ev["atoms"]+=L.n; ev["neighbours"]+=L.r.size();
            double acc=0; bool finite=true;
            for (int i=0;i<L.n;++i) { acc+=m->node_energies[i]; finite&=std::isfinite(m->node_energies[i]); }
            for (size_t i=0;i<L.xyz.size();++i) { acc+=m->node_forces[i]; finite&=std::isfinite(m->node_forces[i]); }
            if (acc>1e300) ev["huge"]++;                // makes memcheck look at every number
            if (!finite) { violations++; what="a result is not finite in "+file; }
            auto b=[](size_t n){ return n==0?'0':n==1?'1':n<10?'s':'l'; };
            std::string now{b(L.n),b(L.r.size())};
            seen.insert(prev+">"+now+"#"+std::to_string(m->atomic_numbers.size())+std::to_string(m->l_max)+std::to_string(m->L_max));
            prev=now;
            if (g()%8==0) { m = std::make_unique<MACE>(file); ev["loads"]++; prev="-"; }
        }
    }
    fprintf(stderr,"\n");
    printf("{\"cases\":%d,\"events\":{",count);
    bool f=true; for (auto& [k,v]:ev) { printf("%s\"%s\":%ld",f?"":",",k.c_str(),v); f=false; }
    printf("},\"distinct\":["); f=true; for (auto& s:seen) { printf("%s\"%s\"",f?"":",",s.c_str()); f=false; }
    printf("],\"violations\":["); if (violations) printf("{\"key\":\"not finite\",\"msg\":\"%s\"}",what.c_str());
    printf("]}\n");
    return 0;
}

// Separate MACE potentials in separate threads: no race (ThreadSanitizer), results as when alone.
// args: models.txt seed first rounds threads
#include <atomic>
#include <barrier>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <string>
#include <thread>
#include <vector>
#include "mace.hpp"

struct Lists { int n; std::vector<int> types, nn, idx, ntypes; std::vector<double> xyz, r; };

// every array exactly as long as it must be, in its own allocation
template <class T> std::vector<T> exact(std::vector<T> const& v) { std::vector<T> w; w.reserve(v.size()); w.assign(v.begin(), v.end()); return w; }

template <class R> Lists make(R& g, int elements, double r_cut)
{
    auto ri = [&](int a, int b) { return std::uniform_int_distribution<int>(a,b)(g); };
    auto rd = [&](double a, double b) { return std::uniform_real_distribution<double>(a,b)(g); };
    Lists L;
    switch (ri(0,5)) { case 0: L.n = 0; break; case 1: L.n = 1; break; case 2: L.n = ri(20,60); break; default: L.n = ri(2,10); }
    const int top = ri(0,4)==0 ? 0 : ri(1,12);
    const int one = ri(0,3)==0 ? ri(0,elements-1) : -1;
    for (int i=0;i<L.n;++i) L.types.push_back(one>=0 ? one : ri(0,elements-1));
    for (int i=0;i<L.n;++i) {
        const int k = ri(0,4)==0 ? 0 : ri(0,top);
        L.nn.push_back(k);
        for (int j=0;j<k;++j) {
            const int a = ri(0,L.n-1);
            L.idx.push_back(a); L.ntypes.push_back(L.types[a]);
            double r = ri(0,9)==0 ? r_cut*rd(1,3) : r_cut*rd(.05,1);
            if (ri(0,19)==0) r = r_cut;
            double u[3] = {rd(-1,1), rd(-1,1), rd(-1,1)};
            if (ri(0,4)==0) { u[0]=u[1]=u[2]=0; u[ri(0,2)] = ri(0,1) ? 1 : -1; }
            const double s = std::sqrt(u[0]*u[0]+u[1]*u[1]+u[2]*u[2])+1e-300;
            for (double q : u) L.xyz.push_back(q/s*r);
            L.r.push_back(r);
        }
    }
    return {L.n, exact(L.types), exact(L.nn), exact(L.idx), exact(L.ntypes), exact(L.xyz), exact(L.r)};
}


struct Log { std::vector<double> out; std::set<std::string> seen; long loads=0, evals=0, edges=0; };

// one potential (sometimes loaded anew) and a few evaluations; everything follows from the seed
static void task(std::vector<std::string> const& files, uint64_t seed, int which, Log& log)
{
    std::mt19937_64 g(seed);
    const auto pick = g();
    const auto& file = files[which>=0 ? which : pick%files.size()];
    auto m = std::make_unique<MACE>(file); log.loads++;
    std::string prev="load";
    for (int k=0;k<4;++k) {
        Lists L = make(g, m->atomic_numbers.size(), m->r_cut);
        const bool staged = g()%3==0;
        if (staged) {                                   // the calls the LAMMPS styles make
            if (L.n==0) continue;
            m->compute_Y(L.xyz);
            m->compute_R0(L.n, L.types, L.nn, L.ntypes, L.r);
            m->compute_A0(L.n, L.types, L.nn, L.ntypes);
            m->compute_A0_scaled(L.n, L.types, L.nn, L.ntypes, L.r);
            m->compute_M0(L.n, L.types);
            m->compute_H1(L.n);
            for (double q : m->H1) log.out.push_back(q);
        } else {
            m->compute_node_energies_forces(L.n, L.types, L.nn, L.idx, L.ntypes, L.xyz, L.r);
            log.out.insert(log.out.end(), m->node_energies.begin(), m->node_energies.begin()+L.n);
            log.out.insert(log.out.end(), m->node_forces.begin(), m->node_forces.begin()+L.xyz.size());
        }
        log.evals++; log.edges += L.r.size();
        auto b=[](size_t n){ return n==0?'0':n==1?'1':n<10?'s':'l'; };
        std::string now{b(L.n),b(L.r.size()),staged?'t':'w'};
        log.seen.insert(prev+">"+now+"#"+std::to_string(m->l_max)+std::to_string(m->L_max)+(m->has_zbl?"z":"")+(m->A0_scaled?"s":""));
        prev=now;
        if (g()%5==0) { m = std::make_unique<MACE>(file); log.loads++; prev="load"; }
    }
}

int main(int, char** argv)
{
    std::vector<std::string> files; { std::ifstream f(argv[1]); std::string s; while (std::getline(f,s)) if (!s.empty()) files.push_back(s); }
    const uint64_t seed = strtoull(argv[2],0,10); const int first=atoi(argv[3]), rounds=atoi(argv[4]), T=atoi(argv[5]);
    std::map<std::string,long> ev; std::set<std::string> seen; std::string bad;
    for (int r=first;r<first+rounds && bad.empty();++r) {
        fprintf(stderr,"\rround %d ",r);
        const int per = 2;
        std::vector<Log> alone(T*per), together(T*per);
        std::atomic<int> running{0}, peak{0}; std::atomic<long> inside{0};
        std::mt19937_64 h(seed*7919+r);
        const int which = r%2 ? -1 : int(h()%files.size());      // every second round all threads use one file
        const bool equal = r%4==0;                               // and sometimes the same structures
        auto id = [&](int q) { return seed*1000003+r*1009+(equal ? q%per : q); };
        auto solo = [&] { for (int q=0;q<T*per;++q) task(files, id(q), which, alone[q]); };
        const bool later = r%3==1;                               // shared state, if any, first touched in the threads
        if (!later) solo();
        std::barrier go(T);
        std::vector<std::thread> th;
        for (int t=0;t<T;++t) th.emplace_back([&,t] {
            go.arrive_and_wait();
            for (int k=0;k<per;++k) {
                int n=++running, p=peak.load(); while (n>p && !peak.compare_exchange_weak(p,n)) {}
                if (n>1) ++inside;
                task(files, id(t*per+k), which, together[t*per+k]);
                --running;
            }
        });
        for (auto& t:th) t.join();
        if (later) solo();
        for (int q=0;q<T*per && bad.empty();++q) {
            const auto &a=alone[q].out, &b=together[q].out;
            double top=1; for (double v:a) top=std::max(top,std::fabs(v));
            bool ok = a.size()==b.size();
            for (size_t i=0;ok && i<a.size();++i) ok = std::fabs(a[i]-b[i]) <= 1e-9*top || !std::isfinite(a[i]);
            if (!ok) bad = "round "+std::to_string(r)+": a potential in one of "+std::to_string(T)+" threads gives other numbers than alone";
            ev["numbers compared with the single-threaded run"] += a.size(); ev["models loaded in threads"] += together[q].loads;
            ev["evaluations in threads"] += together[q].evals; ev["neighbours"] += together[q].edges;
            for (auto& s:together[q].seen) seen.insert(s);
        }
        ev["tasks that overlapped another thread"] += inside; ev["max:threads active at once"] = std::max<long>(ev["max:threads active at once"],peak);
        ev["rounds"]++;
        seen.insert("overlap:"+std::to_string(T)+":"+std::to_string(inside)+":"+std::to_string(peak));
    }
    fprintf(stderr,"\n");
    printf("{\"cases\":%d,\"events\":{",rounds);
    bool f=true; for (auto& [k,v]:ev) { printf("%s\"%s\":%ld",f?"":",",k.c_str(),v); f=false; }
    printf("},\"distinct\":["); f=true; for (auto& s:seen) { printf("%s\"%s\"",f?"":",",s.c_str()); f=false; }
    printf("],\"violations\":["); if (!bad.empty()) printf("{\"key\":\"thread-interference\",\"msg\":\"%s\"}",bad.c_str());
    printf("]}\n");
    return 0;
}

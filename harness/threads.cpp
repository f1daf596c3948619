// Separate evaluator objects in separate threads: no race (ThreadSanitizer), results as when alone.
// args: seed rounds threads steps strict(0/1)
#include <atomic>
#include <barrier>
#include <cstdlib>
#include <thread>
#include "work.hpp"

int main(int argc, char** argv)
{
    const uint64_t seed = strtoull(argv[1],0,10); const int rounds=atoi(argv[2]), T=atoi(argv[3]), steps=atoi(argv[4]); const bool strict=atoi(argv[5]);
    std::map<std::string,long> ev; std::set<std::string> seen; std::vector<std::pair<std::string,std::string>> bad; std::vector<std::string> samples;
    std::set<std::string> overlaps;
    for (int r=0; r<rounds && bad.empty(); ++r) {
        const int per = 3;
        std::vector<Log> alone(T*per), together(T*per);
        std::atomic<int> running{0}; std::atomic<long> inside{0}; std::atomic<int> peak{0};
        const bool first_use_in_threads = (r%2==1);   // lazily initialised shared state is then first touched concurrently
        auto solo = [&] { for (int t=0;t<T*per;++t) task(seed*1000003+r*1009+(r%3==0 ? t%per : t), alone[t], steps); };
        if (!first_use_in_threads) solo();
        std::barrier go(T);
        std::vector<std::thread> th;
        for (int t=0;t<T;++t) th.emplace_back([&,t] {
            Rng g(seed*77+r*131+t);
            go.arrive_and_wait();
            for (int k=0;k<per;++k) {
                int n = ++running; int p = peak.load(); while (n>p && !peak.compare_exchange_weak(p,n)) {}
                if (n>1) ++inside;
                const int q = t*per+k;
                task(seed*1000003+r*1009+(r%3==0 ? k : q), together[q], steps);    // every third round: all threads run equal tasks
                --running;
                for (int y=g.in(0,3);y>0;--y) std::this_thread::yield();
            }
        });
        for (auto& t:th) t.join();
        if (first_use_in_threads) solo();
        for (int q=0;q<T*per;++q) {
            const auto &a=alone[q].out, &b=together[q].out;
            ev["numbers compared with the single-threaded run"] += a.size();
            if (a.size()!=b.size()) { bad.push_back({"thread-interference","a thread obtained a different number of results"}); break; }
            for (size_t i=0;i<a.size();++i) {
                const bool same = (a[i]==b[i]) || (!strict && std::abs(a[i]-b[i])<=1e-9*(1+std::abs(a[i])+std::abs(b[i])));
                if (!same) { char m[200]; snprintf(m,200,"round %d task %d value %zu: %.17g alone, %.17g with %d threads",r,q,i,a[i],b[i],T); bad.push_back({"thread-interference",m}); break; }
            }
            if (!bad.empty()) break;
            ev["calls"] += together[q].calls; ev["objects constructed in threads"] += together[q].objects;
            for (auto& s:together[q].seen) seen.insert(s);
        }
        ev["tasks that overlapped another thread"] += inside; ev["max:threads active at once"] = std::max<long>(ev["max:threads active at once"], peak);
        overlaps.insert("overlap:"+std::to_string(T)+":"+std::to_string(inside)+":"+std::to_string(peak));
    }
    for (auto& s:overlaps) seen.insert(s);
    ev["rounds"] = rounds;
    samples.push_back("seed "+std::to_string(seed)+", "+std::to_string(T)+" threads, 3 tasks each per round, "+std::to_string(steps)+" calls per object");
    json_report(long(rounds)*T*3, ev, seen, samples, bad);
    return 0;
}

// Call histories of all evaluators under a memory monitor.  args: seed first count steps
#include <cstdlib>
#include "work.hpp"
int main(int argc, char** argv)
{
    const uint64_t seed = strtoull(argv[1],0,10); const int first=atoi(argv[2]), count=atoi(argv[3]), steps=atoi(argv[4]);
    std::map<std::string,long> ev; std::set<std::string> seen; std::vector<std::pair<std::string,std::string>> bad;
    for (int i=first;i<first+count;++i) {
        fprintf(stderr, "\rcase %d ", i);
        Log L; task(seed*1000003+i, L, steps);
        ev["calls"]+=L.calls; ev["objects"]+=L.objects; ev["copies"]+=L.copies; ev["rejected calls"]+=L.rejected; ev["numbers returned"]+=L.out.size();
        for (auto& s:L.seen) seen.insert(s);
        double acc=0;
        for (double x:L.out) { if (std::isfinite(x)) acc+=x; else { char m[100]; snprintf(m,100,"case %d returned a non-finite number on valid input",i); bad.push_back({"non-finite",m}); break; } }
        if (acc > 1e300) puts("?");     // every returned number is used in a decision: uninitialised ones are reported by memcheck
    }
    json_report(count, ev, seen, {"seed "+std::to_string(seed)+" cases "+std::to_string(first)+".."+std::to_string(first+count-1)}, bad);
}

// Stand-in for the part of LAMMPS that the pair styles use (LAMMPS is not available here), with monitors.
// One process plays all MPI processes: each rank runs on a thread of its own, exactly one of them at a time
// (a baton), and the baton changes hands only where a rank waits for a message, in an order drawn from a seed.
// Ghost layouts, swaps and neighbour lists are supplied by the driver; forward_comm and reverse_comm follow
// CommBrick: for each swap pack, send, receive, unpack; reverse in the opposite order of swaps.
// Monitored, with an abort and a message starting "VLAMMPS:": messages larger than the declared comm_forward /
// comm_reverse, ranks that wait for messages never sent, messages never received, map() of absent atoms,
// add_request and modify_params arguments that LAMMPS does not know.
#pragma once
#include <array>
#include <cmath>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <random>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <type_traits>
#include <vector>

#define FLERR __FILE__, __LINE__
#define NEIGHMASK 0x1FFFFFFF

namespace LAMMPS_NS {

typedef int tagint;
typedef int64_t bigint;

[[noreturn]] inline void vl_violation(const std::string& what)
{
    fprintf(stderr, "\nVLAMMPS: %s\n", what.c_str());
    fflush(stderr);
    abort();
}

struct LAMMPSException : std::runtime_error { using std::runtime_error::runtime_error; };
struct RankAborted : std::runtime_error { using std::runtime_error::runtime_error; };

template <class T> inline void vl_put(std::stringstream& o, const T& x) { o << x; }
inline void vl_format(std::stringstream& o, const std::string& f, size_t at) { o << f.substr(at); }
template <class A, class... R> void vl_format(std::stringstream& o, const std::string& f, size_t at, const A& a, const R&... r)
{
    auto p = f.find('{', at);
    auto q = p == std::string::npos ? p : f.find('}', p);
    if (q == std::string::npos) { o << f.substr(at); return; }
    o << f.substr(at, p - at); vl_put(o, a);
    vl_format(o, f, q + 1, r...);
}
template <class... A> std::string vl_fmt(const std::string& f, const A&... a) { std::stringstream o; vl_format(o, f, 0, a...); return o.str(); }

class Memory {
public:
    template <class T> T* create(T*& a, int n, const char*) {
        a = (T*)malloc(sizeof(T) * (n > 0 ? n : 0));
        if constexpr (std::is_floating_point_v<T>) for (int i = 0; i < n; ++i) a[i] = std::nan("");
        return a;
    }
    template <class T> T** create(T**& a, int n, int m, const char*) {
        T* d = (T*)malloc(sizeof(T) * (size_t)n * m);
        if constexpr (std::is_floating_point_v<T>) for (long i = 0; i < (long)n * m; ++i) d[i] = std::nan("");
        a = (T**)malloc(sizeof(T*) * (n > 0 ? n : 1));
        a[0] = d;
        for (int i = 1; i < n; ++i) a[i] = d + (size_t)i * m;
        return a;
    }
    template <class T> void destroy(T*& a) { free(a); a = nullptr; }
    template <class T> void destroy(T**& a) { if (!a) return; free(a[0]); free(a); a = nullptr; }
};
class MemoryKokkos;

class LAMMPS;
class Error {
public:
    long warnings = 0;
    template <class... A> [[noreturn]] void all(const char*, int, const std::string& f, const A&... a) { throw LAMMPSException(vl_fmt(f, a...)); }
    template <class... A> [[noreturn]] void all(const char*, int, int, const std::string& f, const A&... a) { throw LAMMPSException(vl_fmt(f, a...)); }
    template <class... A> [[noreturn]] void one(const char*, int, const std::string& f, const A&... a) { throw LAMMPSException(vl_fmt(f, a...)); }
    template <class... A> void warning(const char*, int, const std::string& f, const A&... a) { ++warnings; }
};

class Atom {
public:
    enum { MAP_NONE = 0, MAP_ARRAY = 1, MAP_HASH = 2, MAP_YES = 3 };
    int map_style = MAP_ARRAY, map_user = MAP_ARRAY;
    int ntypes = 1, nlocal = 0, nghost = 0, nmax = 0;
    bigint natoms = 0;
    double **x = nullptr, **f = nullptr; int* type = nullptr; tagint* tag = nullptr;
    std::map<tagint, int> vl_map;      // owned atoms win over ghosts, as in LAMMPS
    int map(tagint t) { auto p = vl_map.find(t); return p == vl_map.end() ? -1 : p->second; }
    virtual ~Atom() {}
};
class AtomKokkos;

class NeighList {
public:
    int inum = 0, gnum = 0; int* ilist = nullptr; int* numneigh = nullptr; int** firstneigh = nullptr; int ghost = 0;
    virtual ~NeighList() {}
};

namespace NeighConst { enum { REQ_DEFAULT = 0, REQ_FULL = 1 << 0, REQ_GHOST = 1 << 1 }; }
class NeighRequest {
public:
    int kokkos_host = 0, kokkos_device = 0;
    void set_kokkos_host(int f) { kokkos_host = f; }
    void set_kokkos_device(int f) { kokkos_device = f; }
    void enable_full() {} void enable_ghost() {}
};
class Pair;
class Neighbor {
public:
    double skin = 0.0, cutneighmax = 0.0;
    int requests = 0, flags = 0;
    NeighRequest request;
    NeighRequest* add_request(Pair*, int f = 0) {
        if (f & ~(NeighConst::REQ_FULL | NeighConst::REQ_GHOST)) vl_violation("add_request with flags this stand-in does not know");
        ++requests; flags |= f; return &request;
    }
};
class Force { public: int newton = 1, newton_pair = 1; };
class Domain {};

struct VSwap { int to, from; std::vector<int> sendlist; int first, count; };   // indices of this rank

class VWorld;
class Comm {
public:
    int me = 0, nprocs = 1, nthreads = 1;
    double cutghostuser = 0.0; Neighbor* neighbor = nullptr; VWorld* world = nullptr;
    bool device = false;                    // use the pair style's device packing where it has one
    std::vector<VSwap> swaps;
    long messages = 0, forwards = 0, reverses = 0;
    virtual ~Comm() {}
    double get_comm_cutoff() { return std::max(cutghostuser, neighbor->cutneighmax); }
    void modify_params(int n, char** a) {
        for (int i = 0; i < n; ) {
            if (std::string(a[i]) == "cutoff" && i + 1 < n) {
                char* end; double c = strtod(a[i+1], &end);
                if (*end || !(c >= 0)) throw LAMMPSException("Invalid cutoff in comm_modify command");
                cutghostuser = c; i += 2;
            } else vl_violation(std::string("comm modify_params with argument ") + a[i]);
        }
    }
    void forward_comm(Pair*, int = 0);
    void reverse_comm(Pair*, int = 0);
};

class LAMMPS {
public:
    Memory* memory; Error* error; Atom* atom; Comm* comm; Neighbor* neighbor; Force* force; Domain* domain;
    AtomKokkos* atomKK = nullptr; MemoryKokkos* memoryKK = nullptr;
    std::string log;
};
class Pointers {
public:
    Pointers(LAMMPS* l) : lmp(l), memory(l->memory), error(l->error), atom(l->atom), comm(l->comm), neighbor(l->neighbor), force(l->force), domain(l->domain),
        atomKK(l->atomKK), memoryKK(l->memoryKK) {}
    virtual ~Pointers() {}
protected:
    LAMMPS* lmp; Memory*& memory; Error*& error; Atom*& atom; Comm*& comm; Neighbor*& neighbor; Force*& force; Domain*& domain;
    AtomKokkos*& atomKK; MemoryKokkos*& memoryKK;
};
namespace utils {
template <class... A> void logmesg(LAMMPS* l, const std::string& f, const A&... a) { l->log += vl_fmt(f, a...); }
}

enum ExecutionSpace { Host, Device, HostKK };

class Pair : protected Pointers {
public:
    enum { ENERGY_NONE = 0, ENERGY_GLOBAL = 1, ENERGY_ATOM = 2, VIRIAL_NONE = 0, VIRIAL_PAIR = 1, VIRIAL_FDOTR = 2, VIRIAL_ATOM = 4, VIRIAL_CENTROID = 8 };
    double eng_vdwl = 0, eng_coul = 0, virial[6] = {0,0,0,0,0,0};
    double *eatom = nullptr, **vatom = nullptr, **cvatom = nullptr;
    double** cutsq = nullptr; int** setflag = nullptr;
    int allocated = 0, single_enable = 1, restartinfo = 1, one_coeff = 0, manybody_flag = 0, no_virial_fdotr_compute = 0, comm_forward = 0, comm_reverse = 0, comm_reverse_off = 0;
    int unit_convert_flag = 0, centroidstressflag = 0, copymode = 0, ghostneigh = 0;
    int kokkosable = 0, reverse_comm_device = 0; ExecutionSpace execution_space = Host; unsigned datamask_read = 0, datamask_modify = 0;
    int evflag = 0, eflag_either = 0, eflag_global = 0, eflag_atom = 0, vflag_either = 0, vflag_global = 0, vflag_atom = 0, cvflag_atom = 0, vflag_fdotr = 0;
    int maxeatom = 0, maxvatom = 0, maxcvatom = 0;
    NeighList* list = nullptr;
    Pair(LAMMPS* l) : Pointers(l) {}
    ~Pair() override { if (copymode) return; if (eatom) memory->destroy(eatom); if (vatom) memory->destroy(vatom); }
    virtual void compute(int, int) = 0;
    virtual void settings(int, char**) = 0;
    virtual void coeff(int, char**) = 0;
    virtual double init_one(int, int) { return 0; }
    virtual void init_style() {}
    virtual int pack_forward_comm(int, int*, double*, int, int*) { return 0; }
    virtual void unpack_forward_comm(int, int, double*) {}
    virtual int pack_reverse_comm(int, int, double*) { return 0; }
    virtual void unpack_reverse_comm(int, int*, double*) {}
    void ev_init(int eflag, int vflag, int alloc = 1) { if (eflag || vflag) ev_setup(eflag, vflag, alloc); else ev_unset(); }
    void ev_unset() {
        evflag = eflag_either = eflag_global = eflag_atom = vflag_either = vflag_global = vflag_atom = cvflag_atom = vflag_fdotr = 0;
    }
    void ev_setup(int eflag, int vflag, int alloc) {
        eflag_either = eflag; eflag_global = eflag & ENERGY_GLOBAL; eflag_atom = eflag & ENERGY_ATOM;
        vflag_global = vflag & (VIRIAL_PAIR | VIRIAL_FDOTR);
        if ((vflag & VIRIAL_FDOTR) && no_virial_fdotr_compute == 0) { vflag_fdotr = 1; vflag_global = 0; }
        vflag_atom = vflag & VIRIAL_ATOM; cvflag_atom = 0;
        if (vflag & VIRIAL_CENTROID) vflag_atom = VIRIAL_ATOM;
        vflag_either = vflag_global || vflag_atom;
        evflag = eflag_either || vflag_either;
        if (eflag_atom && atom->nmax > maxeatom) {
            maxeatom = atom->nmax;
            if (alloc) { memory->destroy(eatom); memory->create(eatom, comm->nthreads * maxeatom, "pair:eatom"); }
        }
        if (vflag_atom && atom->nmax > maxvatom) {
            maxvatom = atom->nmax;
            if (alloc) { memory->destroy(vatom); memory->create(vatom, comm->nthreads * maxvatom, 6, "pair:vatom"); }
        }
        if (eflag_global) eng_vdwl = eng_coul = 0.0;
        if (vflag_global || vflag_fdotr) for (int i = 0; i < 6; ++i) virial[i] = 0.0;
        const int n = atom->nlocal + (force->newton ? atom->nghost : 0);
        if (eflag_atom && alloc) for (int i = 0; i < n; ++i) eatom[i] = 0.0;
        if (vflag_atom && alloc) for (int i = 0; i < n; ++i) for (int k = 0; k < 6; ++k) vatom[i][k] = 0.0;
    }
};

// ------------------------------------------------------------------ ranks and messages
class VWorld {
    std::mutex m; std::condition_variable c;
    int turn = -1; int n = 0; bool aborting = false;
    enum State { Ready, Waiting, Finished };
    std::vector<State> state; std::vector<std::function<bool()>> cond;
    std::mt19937_64 rng;
    // chooses who goes next; called with the lock held by the rank that has the baton (or at the start)
    void pass() {
        std::vector<int> can;
        for (int r = 0; r < n; ++r) if (state[r] == Ready || (state[r] == Waiting && (aborting || cond[r]()))) can.push_back(r);
        if (can.empty()) {
            for (int r = 0; r < n; ++r) if (state[r] != Finished) vl_violation("rank " + std::to_string(r) + " waits for a message that no rank sends");
            turn = -1;
        } else { turn = can[rng() % can.size()]; ++switches; order = order * 1000003 + turn + 1; }
        c.notify_all();
    }
public:
    long switches = 0; uint64_t order = 0;
    std::map<std::array<long, 3>, std::vector<double>> mail;     // (from, to, number of the message)
    void wait_for(int me, std::function<bool()> ready) {
        if (ready()) return;
        std::unique_lock<std::mutex> l(m);
        state[me] = Waiting; cond[me] = ready;
        pass();
        c.wait(l, [&] { return turn == me; });
        state[me] = Ready;
        if (aborting && !ready()) throw RankAborted("another rank raised an error");
    }
    // runs f(rank) for every rank; rethrows the first error
    void run(int nranks, uint64_t seed, const std::function<void(int)>& f) {
        n = nranks; state.assign(n, Ready); cond.assign(n, nullptr); aborting = false; rng.seed(seed); mail.clear(); order = 0;
        std::exception_ptr err; bool real = false;
        std::vector<std::thread> t;
        for (int r = 0; r < n; ++r) t.emplace_back([&, r] {
            { std::unique_lock<std::mutex> l(m); c.wait(l, [&] { return turn == r; }); }
            try { f(r); }
            catch (const RankAborted&) { if (!err) err = std::current_exception(); }
            catch (...) { if (!real) err = std::current_exception(); real = true; aborting = true; }
            std::unique_lock<std::mutex> l(m);
            state[r] = Finished;
            pass();
        });
        { std::unique_lock<std::mutex> l(m); pass(); }
        for (auto& x : t) x.join();
        if (err) { mail.clear(); std::rethrow_exception(err); }
        if (!mail.empty()) vl_violation("a message was sent that no rank receives");
    }
};

}  // namespace LAMMPS_NS

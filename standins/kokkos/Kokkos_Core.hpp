// Stand-in for Kokkos (not installed here): the part of its programming model that the sources use,
// executed on host threads, with monitors.  What a Kokkos backend is free to choose is chosen here at
// run time from the environment variable VKOKKOS ("key=value,..."):
//   threads   host threads that execute a kernel               (default 1)
//   team      team size used for AUTO                          (default 1)
//   order     order of iterations: up | down | random          (default up)
//   map       iteration -> thread: stride | block | random     (default stride)
//   defer     1: kernels run at the next fence, not at launch  (default 0)
//   separate  1: mirrors and device copies are separate memory (default 0)
//   seed      for the random choices
// Monitored, with an abort and a message starting "VKOKKOS:": view indices out of range, extents that do
// not match, team barriers that not all threads of a team reach, scratch memory beyond the request, use
// before initialisation.  Memory that Kokkos leaves uninitialised is filled with NaN patterns.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <cmath>
#include <condition_variable>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

#define KOKKOS_VERSION 40500
#define KOKKOS_LAMBDA [=]
#define KOKKOS_CLASS_LAMBDA [=, *this]
#define KOKKOS_INLINE_FUNCTION inline
#define KOKKOS_FORCEINLINE_FUNCTION inline
#define KOKKOS_FUNCTION
#define KOKKOS_DEFAULTED_FUNCTION
#define KOKKOS_ASSERT(x)
#define KOKKOS_ENABLE_SERIAL
#define KOKKOS_IF_ON_HOST(code) KOKKOS_VK_UNWRAP code
#define KOKKOS_IF_ON_DEVICE(code)
#define KOKKOS_VK_UNWRAP(...) __VA_ARGS__

namespace vk {

[[noreturn]] inline void violation(const std::string& what)
{
    fprintf(stderr, "\nVKOKKOS: %s\n", what.c_str());
    fflush(stderr);
    abort();
}

// ------------------------------------------------------------------ configuration and statistics
struct Config {
    int threads = 1, team = 1, defer = 0, separate = 0;
    unsigned long seed = 0;
    std::string order = "up", map = "stride";
};

struct Stats {
    std::atomic<long> kernels{0}, iterations{0}, barriers{0}, atomics{0}, fences{0}, allocations{0}, copies{0}, deferred{0}, team_kernels{0};
    std::mutex m;
    std::map<std::string, long> labels;
    static Stats& get() { static Stats* s = new Stats; return *s; }
};

inline bool& initialized() { static bool b = false; return b; }
inline bool& in_parallel() { static thread_local bool b = false; return b; }

inline Config& config_ref() { static Config* c = new Config; return *c; }
inline Config& config()
{
    static std::string* last = new std::string("\1");
    const char* e = getenv("VKOKKOS");
    std::string now = e ? e : "";
    Config& c = config_ref();
    if (now != *last) {
        *last = now;
        c = Config();
        std::stringstream s(now);
        std::string kv;
        while (std::getline(s, kv, ',')) {
            auto p = kv.find('=');
            if (p == std::string::npos) continue;
            std::string k = kv.substr(0, p), v = kv.substr(p + 1);
            if (k == "threads") c.threads = std::max(1, atoi(v.c_str()));
            else if (k == "team") c.team = std::max(1, atoi(v.c_str()));
            else if (k == "order") c.order = v;
            else if (k == "map") c.map = v;
            else if (k == "defer") c.defer = atoi(v.c_str());
            else if (k == "separate") c.separate = atoi(v.c_str());
            else if (k == "seed") c.seed = strtoul(v.c_str(), nullptr, 10);
        }
    }
    return c;
}

inline uint64_t mix(uint64_t x)
{
    x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31);
}

// the choices of one launch
struct Choice {
    int order = 0, map = 0; uint64_t seed = 0;
    static Choice next() {
        static uint64_t* count = new uint64_t(0);
        const Config& c = config();
        Choice k;
        k.order = c.order == "down" ? 1 : c.order == "random" ? 2 : 0;
        k.map = c.map == "block" ? 1 : c.map == "random" ? 2 : 0;
        k.seed = mix(c.seed * 1000003 + ++*count);
        return k;
    }
    // which of p workers does iteration i of n
    int owner(long i, long n, int p) const {
        if (p == 1) return 0;
        if (map == 1) { long b = (n + p - 1) / p; return int(i / (b ? b : 1)); }
        if (map == 2) return int(mix(seed ^ (uint64_t)i * 0x100000001b3ull) % p);
        return int(i % p);
    }
    // iterations of worker w, in the order in which it does them
    void list(long n, int p, int w, std::vector<long>& out) const {
        out.clear();
        for (long i = 0; i < n; ++i) if (owner(i, n, p) == w) out.push_back(i);
        if (order == 1) std::reverse(out.begin(), out.end());
        if (order == 2) {
            uint64_t s = mix(seed ^ (uint64_t)(w + 1));
            for (size_t i = out.size(); i > 1; --i) { s = mix(s); std::swap(out[i-1], out[s % i]); }
        }
    }
    template <class F> void each(long n, int p, int w, const F& f) const {
        if (p == 1 && order == 0) { for (long i = 0; i < n; ++i) f(i); return; }
        if (order == 0) { for (long i = 0; i < n; ++i) if (owner(i, n, p) == w) f(i); return; }
        std::vector<long> l; list(n, p, w, l);
        for (long i : l) f(i);
    }
};

// ------------------------------------------------------------------ threads
class Pool {
    std::vector<std::thread> t;
    std::mutex m;
    std::condition_variable start, done;
    const std::function<void(int)>* job = nullptr;
    long gen = 0; int want = 0, left = 0;
    void loop(int id) {
        long seen = 0;
        for (;;) {
            const std::function<void(int)>* f;
            {
                std::unique_lock<std::mutex> l(m);
                start.wait(l, [&] { return gen != seen; });
                seen = gen;
                f = id < want ? job : nullptr;
            }
            if (f) {
                in_parallel() = true;
                (*f)(id);
                in_parallel() = false;
                std::lock_guard<std::mutex> l(m);
                if (--left == 0) done.notify_all();
            }
        }
    }
public:
    static Pool& get() { static Pool* p = new Pool; return *p; }
    // f(0), ..., f(n-1), each on a thread of its own
    void run(int n, const std::function<void(int)>& f) {
        if (n == 1) {
            const bool was = in_parallel();
            in_parallel() = true; f(0); in_parallel() = was;
            return;
        }
        std::unique_lock<std::mutex> l(m);
        while ((int)t.size() < n) { int id = t.size(); t.emplace_back([this, id] { loop(id); }); t.back().detach(); }
        job = &f; want = n; left = n; ++gen;
        start.notify_all();
        done.wait(l, [&] { return left == 0; });
        job = nullptr;
    }
};

class Barrier {
    std::mutex m; std::condition_variable c;
    const int n; int waiting = 0; long gen = 0; int kind_ = 0;
public:
    explicit Barrier(int n) : n(n) {}
    void wait(int kind) {
        if (n == 1) return;
        std::unique_lock<std::mutex> l(m);
        if (waiting == 0) kind_ = kind;
        else if (kind_ != kind) violation("a team_barrier or team-wide reduction is not reached by every thread of the team");
        const long g = gen;
        if (++waiting == n) { waiting = 0; ++gen; c.notify_all(); return; }
        c.wait(l, [&] { return gen != g; });
    }
};

// ------------------------------------------------------------------ the queue of launched kernels
struct Queue {
    std::deque<std::function<void()>> q;
    static Queue& get() { static Queue* p = new Queue; return *p; }
    void flush() {
        while (!q.empty()) { auto f = std::move(q.front()); q.pop_front(); f(); }
    }
};

inline void need_init() { if (!initialized()) violation("Kokkos is used before it is initialised or after it is finalised"); }

inline void fence() { if (in_parallel()) return; Stats::get().fences++; Queue::get().flush(); }

inline void launch(const std::string& label, long n, bool wait, std::function<void()> f)
{
    need_init();
    if (in_parallel()) violation("a kernel is launched from inside a kernel");
    auto& s = Stats::get();
    s.kernels++; s.iterations += n;
    { std::lock_guard<std::mutex> l(s.m); s.labels[label]++; }
    if (!wait && config().defer) { s.deferred++; Queue::get().q.push_back(std::move(f)); return; }
    Queue::get().flush();
    f();
}

} // namespace vk

extern "C" {
// statistics as one line of JSON; reset to zero
__attribute__((used, visibility("default"))) inline const char* vkokkos_stats()
{
    static std::string* out = new std::string;
    auto& s = vk::Stats::get();
    std::lock_guard<std::mutex> l(s.m);
    std::stringstream o;
    o << "{\"kernels\":" << s.kernels.exchange(0) << ",\"iterations\":" << s.iterations.exchange(0)
      << ",\"barriers\":" << s.barriers.exchange(0) << ",\"atomics\":" << s.atomics.exchange(0)
      << ",\"fences\":" << s.fences.exchange(0) << ",\"allocations\":" << s.allocations.exchange(0)
      << ",\"copies\":" << s.copies.exchange(0) << ",\"deferred\":" << s.deferred.exchange(0)
      << ",\"team_kernels\":" << s.team_kernels.exchange(0) << ",\"labels\":{";
    bool first = true;
    for (auto& [k, v] : s.labels) { o << (first ? "" : ",") << '"' << k << "\":" << v; first = false; }
    s.labels.clear();
    o << "}}";
    *out = o.str();
    return out->c_str();
}
}

namespace Kokkos {

// ------------------------------------------------------------------ spaces, layouts, traits
struct LayoutRight {}; struct LayoutLeft {}; struct LayoutStride {};
struct HostSpace { using memory_space = HostSpace; };
struct VDeviceSpace { using memory_space = VDeviceSpace; };
struct SharedSpace { using memory_space = SharedSpace; };
struct SharedHostPinnedSpace { using memory_space = SharedHostPinnedSpace; };
struct AnonymousSpace { using memory_space = AnonymousSpace; };

struct VScratch {
    char* base = nullptr; size_t size = 0; size_t* used = nullptr;
    using memory_space = VScratch;
    void* take(size_t bytes) const {
        size_t at = (*used + 7) / 8 * 8;
        if (at + bytes > size)
            vk::violation("team scratch memory: " + std::to_string(at + bytes) + " bytes taken, " + std::to_string(size) + " requested");
        *used = at + bytes;
        return base + at;
    }
};

struct DefaultExecutionSpace {
    using memory_space = VDeviceSpace; using execution_space = DefaultExecutionSpace; using device_type = DefaultExecutionSpace;
    using scratch_memory_space = VScratch; using array_layout = LayoutRight; using size_type = size_t;
    void fence(const std::string& = "") const { vk::fence(); }
    static int concurrency() { return vk::config().threads; }
    static bool in_parallel() { return vk::in_parallel(); }
};
struct DefaultHostExecutionSpace {
    using memory_space = HostSpace; using execution_space = DefaultHostExecutionSpace; using device_type = DefaultHostExecutionSpace;
    using scratch_memory_space = VScratch; using array_layout = LayoutRight; using size_type = size_t;
    void fence(const std::string& = "") const { vk::fence(); }
    static int concurrency() { return vk::config().threads; }
};
using Serial = DefaultHostExecutionSpace;
template <class E, class M> struct Device { using execution_space = E; using memory_space = M; using device_type = Device; };

enum MemoryTraitsFlags { Unmanaged = 1, RandomAccess = 2, Atomic = 4, Restrict = 8, Aligned = 16 };
template <unsigned F> struct MemoryTraits { static constexpr unsigned value = F; };
using MemoryUnmanaged = MemoryTraits<Unmanaged>;
using MemoryManaged = MemoryTraits<0>;
using MemoryRandomAccess = MemoryTraits<Unmanaged | RandomAccess>;

struct AUTO_t {}; inline constexpr AUTO_t AUTO{};
struct ALL_t {}; inline constexpr ALL_t ALL{};
struct WithoutInitializing_t {}; inline constexpr WithoutInitializing_t WithoutInitializing{};
struct SequentialHostInit_t {}; inline constexpr SequentialHostInit_t SequentialHostInit{};
struct AllowPadding_t {}; inline constexpr AllowPadding_t AllowPadding{};

template <class A, class B> struct pair {
    A first; B second;
};
template <class A, class B> constexpr pair<A, B> make_pair(A a, B b) { return {a, b}; }
template <class T, size_t N> struct Array {
    T m[N ? N : 1];
    constexpr T& operator[](size_t i) { return m[i]; }
    constexpr const T& operator[](size_t i) const { return m[i]; }
    static constexpr size_t size() { return N; }
    constexpr T* data() { return m; }
    constexpr const T* data() const { return m; }
};

struct AllocProp { std::string label; bool init = true; bool sequential = false; };
namespace vimpl {
inline void prop(AllocProp& p, const std::string& s) { p.label = s; }
inline void prop(AllocProp& p, const char* s) { p.label = s; }
inline void prop(AllocProp& p, WithoutInitializing_t) { p.init = false; }
inline void prop(AllocProp& p, SequentialHostInit_t) { p.sequential = true; }
inline void prop(AllocProp& p, AllowPadding_t) {}
template <class S, class = typename S::memory_space> inline void prop(AllocProp&, const S&) {}
}
template <class... A> AllocProp view_alloc(const A&... a) { AllocProp p; (vimpl::prop(p, a), ...); return p; }

// ------------------------------------------------------------------ View
namespace vimpl {

struct Block {
    std::atomic<long> refs{1}; void* data = nullptr; size_t n = 0; std::string label;
    void (*destroy)(void*, size_t) = nullptr;
};

template <class D> struct Spec { using value = D; static constexpr int dyn = 0, rank = 0; static void statics(size_t*) {} };
template <class D> struct Spec<D*> {
    using value = typename Spec<D>::value; static constexpr int dyn = Spec<D>::dyn + 1, rank = Spec<D>::rank + 1;
};
template <class D, size_t N> struct Spec<D[N]> {
    using value = typename Spec<D>::value; static constexpr int dyn = Spec<D>::dyn, rank = Spec<D>::rank + 1;
};
// static extents in order
template <class D> void statics(size_t* e, int& k) {
    if constexpr (std::is_array_v<D>) { e[k++] = std::extent_v<D>; statics<std::remove_extent_t<D>>(e, k); }
}
template <class V, int R> struct PtrData { using type = typename PtrData<V, R - 1>::type*; };
template <class V> struct PtrData<V, 0> { using type = V; };

template <class P> concept IsLayout = std::is_same_v<P, LayoutRight> || std::is_same_v<P, LayoutLeft> || std::is_same_v<P, LayoutStride>;
template <class P> concept IsSpace = requires { typename P::memory_space; };
template <class P> struct is_traits : std::false_type {};
template <unsigned F> struct is_traits<MemoryTraits<F>> : std::true_type {};

template <class... P> struct LayoutOf { using type = LayoutRight; };
template <class H, class... T> struct LayoutOf<H, T...> { using type = typename std::conditional_t<IsLayout<H>, std::type_identity<H>, LayoutOf<T...>>::type; };
template <class P> struct mem_of { using type = void; };
template <class P> requires IsSpace<P> struct mem_of<P> { using type = typename P::memory_space; };
template <class... P> struct SpaceOf { using type = VDeviceSpace; };
template <class H, class... T> struct SpaceOf<H, T...> {
    using type = typename std::conditional_t<IsSpace<H>, mem_of<H>, SpaceOf<T...>>::type; };
template <class... P> struct FlagsOf { static constexpr unsigned value = 0; };
template <unsigned F, class... T> struct FlagsOf<MemoryTraits<F>, T...> { static constexpr unsigned value = F; };
template <class H, class... T> struct FlagsOf<H, T...> : FlagsOf<T...> {};

struct no_init {};
} // namespace vimpl

template <class D, class... P> class View;
template <class T> struct is_view : std::false_type {};
template <class D, class... P> struct is_view<View<D, P...>> : std::true_type {};
template <class T> inline constexpr bool is_view_v = is_view<T>::value;

template <class D, class... P> struct ViewTraits {
    using execution_space = DefaultExecutionSpace; using memory_space = typename vimpl::SpaceOf<P...>::type;
    using device_type = Device<execution_space, memory_space>; using array_layout = typename vimpl::LayoutOf<P...>::type;
    using value_type = typename vimpl::Spec<D>::value; using data_type = D; using size_type = size_t;
    using memory_traits = MemoryTraits<vimpl::FlagsOf<P...>::value>;
    using const_value_type = std::add_const_t<value_type>; using non_const_value_type = std::remove_const_t<value_type>;
};

template <class D, class... P> class View : public ViewTraits<D, P...> {
    template <class, class...> friend class View;
    using S = vimpl::Spec<D>;
public:
    using traits = ViewTraits<D, P...>;
    using value_type = typename S::value;
    using non_const_value_type = std::remove_const_t<value_type>;
    using const_value_type = std::add_const_t<value_type>;
    using array_layout = typename traits::array_layout;
    using memory_space = typename traits::memory_space;
    using execution_space = typename traits::execution_space;
    using device_type = typename traits::device_type;
    using reference_type = value_type&;
    using pointer_type = value_type*;
    using size_type = size_t;
    using data_type = D;
    static constexpr int rank_ = S::rank;
    struct rank_type { constexpr operator size_t() const { return S::rank; } constexpr size_t operator()() const { return S::rank; } };
    static constexpr rank_type rank{};
    static constexpr int Rank = S::rank;
    static constexpr int rank_dynamic = S::dyn;
    using HostMirror = View<typename vimpl::PtrData<non_const_value_type, S::rank>::type, array_layout, HostSpace>;
    using host_mirror_type = HostMirror;
    using non_const_type = View<typename vimpl::PtrData<non_const_value_type, S::rank>::type, array_layout, memory_space>;
    using const_type = View<typename vimpl::PtrData<const_value_type, S::rank>::type, array_layout, memory_space>;

    View() { set_static(); }
    View(const View& o) { take(o); }
    View(View&& o) noexcept { take(o); }
    View& operator=(const View& o) { if (this != &o) { auto* old = block; block = nullptr; take(o); drop(old); } return *this; }
    View& operator=(View&& o) noexcept { return *this = static_cast<const View&>(o); }
    ~View() { drop(block); }

    template <class D2, class... P2>
        requires (!std::is_same_v<View<D2, P2...>, View> && vimpl::Spec<D2>::rank == S::rank &&
                  std::is_convertible_v<typename vimpl::Spec<D2>::value (*)[], value_type (*)[]>)
    View(const View<D2, P2...>& o) {
        take(o);
        check_layout();
    }
    template <class D2, class... P2>
        requires (!std::is_same_v<View<D2, P2...>, View> && vimpl::Spec<D2>::rank == S::rank &&
                  std::is_convertible_v<typename vimpl::Spec<D2>::value (*)[], value_type (*)[]>)
    View& operator=(const View<D2, P2...>& o) { return *this = View(o); }

    template <class... I> requires (std::is_convertible_v<I, size_t> && ...)
    explicit View(const char* label, I... n) { AllocProp p; p.label = label; allocate(p, {(size_t)n...}); }
    template <class... I> requires (std::is_convertible_v<I, size_t> && ...)
    explicit View(const std::string& label, I... n) { AllocProp p; p.label = label; allocate(p, {(size_t)n...}); }
    template <class... I> requires (std::is_convertible_v<I, size_t> && ...)
    explicit View(const AllocProp& p, I... n) { allocate(p, {(size_t)n...}); }
    template <class T, class... I> requires (std::is_convertible_v<T (*)[], value_type (*)[]> && (std::is_convertible_v<I, size_t> && ...))
    explicit View(T* p, I... n) { shape({(size_t)n...}); ptr = p; wrapped = true; }
    template <class... I> requires (std::is_convertible_v<I, size_t> && ...)
    explicit View(const VScratch& s, I... n) {
        shape({(size_t)n...});
        ptr = static_cast<value_type*>(s.take(size() * sizeof(value_type)));
        wrapped = true;
    }
    static size_t shmem_size(size_t a, size_t b = 1, size_t c = 1, size_t d = 1) { return a * b * c * d * sizeof(value_type); }

    template <class... I> reference_type operator()(I... i) const {
        static_assert(sizeof...(I) == S::rank, "wrong number of indices");
        const long k[] = {static_cast<long>(i)..., 0};
        size_t at = 0;
        for (int q = 0; q < S::rank; ++q) {
            if (k[q] < 0 || (size_t)k[q] >= ext[q]) out_of_range(k, q);
            at += k[q] * str[q];
        }
        return ptr[at];
    }
    template <class I> reference_type operator[](I i) const requires (S::rank == 1) { return (*this)(i); }

    size_t extent(int k) const { return k < S::rank ? ext[k] : 1; }
    int extent_int(int k) const { return (int)extent(k); }
    static constexpr size_t static_extent(int) { return 0; }
    size_t stride(int k) const { return k < S::rank ? str[k] : 1; }
    size_t stride_0() const { return stride(0); }
    size_t stride_1() const { return stride(1); }
    size_t size() const { size_t n = 1; for (int k = 0; k < S::rank; ++k) n *= ext[k]; return n; }
    size_t span() const {
        size_t n = 1;
        for (int k = 0; k < S::rank; ++k) { if (!ext[k]) return 0; n += (ext[k] - 1) * str[k]; }
        return n;
    }
    bool span_is_contiguous() const { return span() == size(); }
    value_type* data() const { return ptr; }
    bool is_allocated() const { return ptr != nullptr; }
    long use_count() const { return block ? block->refs.load() : 0; }
    std::string label() const { return name ? *name : std::string(); }

    // used by the stand-in only
    void v_shape(const size_t* e, const size_t* s, value_type* p, vimpl::Block* b, const std::string* nm) {
        for (int k = 0; k < S::rank; ++k) { ext[k] = e[k]; str[k] = s[k]; }
        ptr = p; name = nm;
        if (b && !vk::in_parallel()) { b->refs.fetch_add(1); block = b; }
    }
    vimpl::Block* v_block() const { return block; }
    const std::string* v_name() const { return name; }
    const size_t* v_ext() const { return ext; }
    const size_t* v_str() const { return str; }

private:
    value_type* ptr = nullptr;
    size_t ext[S::rank ? S::rank : 1] = {}, str[S::rank ? S::rank : 1] = {};
    vimpl::Block* block = nullptr;
    const std::string* name = nullptr;
    bool wrapped = false;

    [[noreturn]] void out_of_range(const long* k, int) const {
        std::string s = "view '" + label() + "' index (";
        for (int q = 0; q < S::rank; ++q) s += (q ? "," : "") + std::to_string(k[q]);
        s += ") outside extents (";
        for (int q = 0; q < S::rank; ++q) s += (q ? "," : "") + std::to_string(ext[q]);
        vk::violation(s + ")");
    }
    void set_static() {
        if constexpr (S::rank > S::dyn) { int k = S::dyn; vimpl::statics<D>(ext, k); }
        strides();
    }
    void strides() {
        size_t n = 1;
        if constexpr (std::is_same_v<array_layout, LayoutLeft>) for (int k = 0; k < S::rank; ++k) { str[k] = n; n *= ext[k]; }
        else for (int k = S::rank - 1; k >= 0; --k) { str[k] = n; n *= ext[k]; }
    }
    void shape(std::initializer_list<size_t> n) {
        if ((int)n.size() != S::dyn && (int)n.size() != S::rank)
            vk::violation("a view of rank " + std::to_string(S::rank) + " is made with " + std::to_string(n.size()) + " extents");
        int k = 0;
        for (size_t e : n) { if (e > (size_t)1 << 48) vk::violation("a view is made with a negative extent"); ext[k++] = e; }
        if ((int)n.size() != S::rank) { if constexpr (S::rank > S::dyn) { int q = S::dyn; vimpl::statics<D>(ext, q); } }
        strides();
    }
    void check_layout() const {
        if constexpr (std::is_same_v<array_layout, LayoutStride>) return;
        if (size() == 0) return;
        size_t n = 1;
        const bool left = std::is_same_v<array_layout, LayoutLeft>;
        for (int q = 0; q < S::rank; ++q) {
            const int k = left ? q : S::rank - 1 - q;
            // the slowest stride may be larger (padding); extents of one have no stride
            if (ext[k] > 1 && str[k] != n && q != S::rank - 1) vk::violation("view '" + label() + "' is assigned to a view of another layout");
            n = (ext[k] > 1 ? str[k] : n) * ext[k];
        }
        if (S::rank == 1 && ext[0] > 1 && str[0] != 1) vk::violation("view '" + label() + "' is assigned to a view of another layout");
    }
    template <class V> void take(const V& o) {
        for (int k = 0; k < S::rank; ++k) { ext[k] = o.ext[k]; str[k] = o.str[k]; }
        ptr = o.ptr; name = o.name; wrapped = o.wrapped;
        if (o.block && !vk::in_parallel()) { o.block->refs.fetch_add(1); block = o.block; } else block = nullptr;
    }
    void drop(vimpl::Block* b) {
        if (b && b->refs.fetch_sub(1) == 1) {
            if (b->destroy) b->destroy(b->data, b->n);
            ::free(b->data);
            delete b;
        }
        if (b == block) block = nullptr;
    }
    void allocate(const AllocProp& p, std::initializer_list<size_t> n) {
        vk::need_init();
        if (vk::in_parallel()) vk::violation("a view is allocated inside a kernel");
        vk::Stats::get().allocations++;
        shape(n);
        using T = non_const_value_type;
        auto* b = new vimpl::Block;
        b->label = p.label; b->n = size();
        b->data = malloc(b->n * sizeof(T) ? b->n * sizeof(T) : 1);
        if constexpr (std::is_trivially_default_constructible_v<T> && std::is_trivially_destructible_v<T>) {
            if (b->n) memset(b->data, p.init ? 0 : 0xFF, b->n * sizeof(T));
        } else {
            T* t = static_cast<T*>(b->data);
            for (size_t i = 0; i < b->n; ++i) new (t + i) T();
            b->destroy = [](void* d, size_t n) { for (size_t i = 0; i < n; ++i) static_cast<T*>(d)[i].~T(); };
        }
        block = b; ptr = static_cast<T*>(b->data); name = &b->label;
    }
};

namespace vimpl {
template <class V> using plain_t = View<typename PtrData<typename V::non_const_value_type, V::rank_>::type, typename V::array_layout, typename V::memory_space>;
template <class V, class Space> using in_space_t = View<typename PtrData<typename V::non_const_value_type, V::rank_>::type,
    std::conditional_t<std::is_same_v<typename V::array_layout, LayoutStride>, LayoutRight, typename V::array_layout>, typename Space::memory_space>;

template <class V, size_t... K> V make_like_(const AllocProp& p, const size_t* e, std::index_sequence<K...>) { return V(p, e[K]...); }
template <class V> V make_like(const AllocProp& p, const size_t* e) { return make_like_<V>(p, e, std::make_index_sequence<V::rank_>()); }

// every element, in row-major order of the extents
template <class F> void walk(int rank, const size_t* e, const F& f) {
    size_t n = 1; for (int k = 0; k < rank; ++k) n *= e[k];
    std::array<size_t, 8> i{};
    for (size_t c = 0; c < n; ++c) {
        f(i);
        for (int k = rank - 1; k >= 0; --k) { if (++i[k] < e[k]) break; i[k] = 0; }
    }
}
template <class V> typename V::value_type& at(const V& v, const std::array<size_t, 8>& i) {
    size_t o = 0; for (int k = 0; k < V::rank_; ++k) o += i[k] * v.v_str()[k];
    return v.data()[o];
}
template <class V, class W> V alias(const W& w) {   // same memory under another type
    V v;
    v.v_shape(w.v_ext(), w.v_str(), const_cast<typename V::value_type*>(w.data()), w.v_block(), w.v_name());
    return v;
}
}

// ------------------------------------------------------------------ realloc, resize, copies
inline void fence(const std::string& = "") { vk::need_init(); vk::fence(); }

template <class D, class... P, class... I> requires (std::is_convertible_v<I, size_t> && ...)
void realloc(View<D, P...>& v, I... n) {
    vk::fence();
    if (sizeof...(I) != View<D, P...>::rank_dynamic && sizeof...(I) != View<D, P...>::rank_)
        vk::violation("realloc of view '" + v.label() + "' of rank " + std::to_string(View<D, P...>::rank_) + " with " + std::to_string(sizeof...(I)) + " extents");
    std::string l = v.label();
    v = View<D, P...>();
    v = View<D, P...>(view_alloc(l), n...);
}
template <class D, class... P, class... I> void realloc(WithoutInitializing_t, View<D, P...>& v, I... n) {
    vk::fence();
    std::string l = v.label();
    v = View<D, P...>();
    v = View<D, P...>(view_alloc(l, WithoutInitializing), n...);
}
template <class D, class... P, class... I> void realloc(const AllocProp& p, View<D, P...>& v, I... n) {
    vk::fence();
    AllocProp q = p; q.label = v.label();
    v = View<D, P...>();
    v = View<D, P...>(q, n...);
}
template <class D, class... P, class... I> requires (std::is_convertible_v<I, size_t> && ...)
void resize(View<D, P...>& v, I... n) {
    vk::fence();
    View<D, P...> w(view_alloc(v.label()), n...);
    if (v.is_allocated()) {
        size_t e[8];
        for (int k = 0; k < w.rank_; ++k) e[k] = std::min(v.extent(k), w.extent(k));
        vimpl::walk(w.rank_, e, [&](auto& i) { vimpl::at(w, i) = vimpl::at(v, i); });
    }
    v = w;
}
template <class D, class... P, class... I> void resize(WithoutInitializing_t, View<D, P...>& v, I... n) { resize(v, n...); }

template <class D, class... P, class D2, class... P2> void deep_copy(const View<D, P...>& dst, const View<D2, P2...>& src) {
    static_assert(View<D, P...>::rank_ == View<D2, P2...>::rank_, "deep_copy between views of different rank");
    vk::fence();
    vk::Stats::get().copies++;
    for (int k = 0; k < dst.rank_; ++k)
        if (dst.extent(k) != src.extent(k))
            throw std::runtime_error("deep_copy: extents of views '" + dst.label() + "' and '" + src.label() + "' do not match");
    if ((const void*)dst.data() == (const void*)src.data() && sizeof(*dst.data()) == sizeof(*src.data())) return;
    vimpl::walk(dst.rank_, dst.v_ext(), [&](auto& i) { vimpl::at(dst, i) = static_cast<typename View<D, P...>::value_type>(vimpl::at(src, i)); });
}
template <class D, class... P, class T> requires (!is_view_v<T>) void deep_copy(const View<D, P...>& dst, const T& x) {
    vk::fence();
    vk::Stats::get().copies++;
    vimpl::walk(dst.rank_, dst.v_ext(), [&](auto& i) { vimpl::at(dst, i) = static_cast<typename View<D, P...>::value_type>(x); });
}
template <class T, class D, class... P> requires (!is_view_v<T> && View<D, P...>::rank_ == 0)
void deep_copy(T& x, const View<D, P...>& src) { vk::fence(); x = *src.data(); }
template <class A, class B> void deep_copy(const DefaultExecutionSpace&, const A& dst, const B& src) { deep_copy(dst, src); }

template <class V> constexpr bool v_shared = std::is_same_v<typename V::memory_space, SharedSpace>;

template <class D, class... P> auto create_mirror(const View<D, P...>& v) {
    using M = vimpl::in_space_t<View<D, P...>, HostSpace>;
    return vimpl::make_like<M>(view_alloc(v.label(), WithoutInitializing), v.v_ext());
}
// host memory through which a view can be read and written: the view itself where the host can reach it
template <class D, class... P> auto create_mirror_view(const View<D, P...>& v) {
    using V = View<D, P...>; using M = vimpl::in_space_t<V, HostSpace>;
    if (!vk::config().separate || std::is_same_v<typename V::memory_space, HostSpace> || v_shared<V>) return vimpl::alias<M>(v);
    return vimpl::make_like<M>(view_alloc(v.label(), WithoutInitializing), v.v_ext());
}
template <class Space, class D, class... P> requires (vimpl::IsSpace<Space>) auto create_mirror_view(const Space&, const View<D, P...>& v) {
    using V = View<D, P...>; using M = vimpl::in_space_t<V, Space>;
    if (!vk::config().separate || std::is_same_v<typename V::memory_space, typename Space::memory_space>) return vimpl::alias<M>(v);
    return vimpl::make_like<M>(view_alloc(v.label(), WithoutInitializing), v.v_ext());
}
template <class D, class... P> auto create_mirror_view(WithoutInitializing_t, const View<D, P...>& v) { return create_mirror_view(v); }
template <class Space, class D, class... P> auto create_mirror_view_and_copy(const Space&, const View<D, P...>& v, const std::string& label = "") {
    using V = View<D, P...>; using M = vimpl::in_space_t<V, Space>;
    vk::fence();
    if (!vk::config().separate || std::is_same_v<typename V::memory_space, typename Space::memory_space>) return vimpl::alias<M>(v);
    M m = vimpl::make_like<M>(view_alloc(label.empty() ? v.label() : label, WithoutInitializing), v.v_ext());
    deep_copy(m, v);
    return m;
}

// ------------------------------------------------------------------ subview
namespace vimpl {
template <class A> struct keeps : std::bool_constant<!std::is_integral_v<A> && !std::is_enum_v<A>> {};
template <class A> void slice(const A& a, size_t extent, size_t& first, size_t& count, const std::string& label) {
    if constexpr (std::is_same_v<A, ALL_t>) { first = 0; count = extent; }
    else if constexpr (std::is_integral_v<A> || std::is_enum_v<A>) {
        first = (size_t)a; count = 1;
        if ((long)a < 0 || first >= extent) vk::violation("subview of '" + label + "' at " + std::to_string((long)a) + " outside extent " + std::to_string(extent));
    } else {
        const long b = (long)a.first, e = (long)a.second;
        if (b < 0 || e < b || (size_t)e > extent) vk::violation("subview of '" + label + "' from " + std::to_string(b) + " to " + std::to_string(e) + " outside extent " + std::to_string(extent));
        first = b; count = e - b;
    }
}
}
template <class D, class... P, class... A> auto subview(const View<D, P...>& v, const A&... a) {
    using V = View<D, P...>;
    static_assert(sizeof...(A) == V::rank_, "subview needs one argument per dimension");
    constexpr int R = (0 + ... + (vimpl::keeps<A>::value ? 1 : 0));
    using W = View<typename vimpl::PtrData<typename V::value_type, R>::type, LayoutStride, typename V::memory_space>;
    size_t e[8], s[8], off = 0; int k = 0, r = 0;
    auto one = [&](const auto& x) {
        size_t f, c;
        vimpl::slice(x, v.extent(k), f, c, v.label());
        off += f * v.stride(k);
        if (vimpl::keeps<std::decay_t<decltype(x)>>::value) { e[r] = c; s[r] = v.stride(k); ++r; }
        ++k;
    };
    (one(a), ...);
    W w;
    w.v_shape(e, s, v.data() + off, v.v_block(), v.v_name());
    return w;
}
template <class V, class... A> using Subview = decltype(subview(std::declval<V>(), std::declval<A>()...));

// ------------------------------------------------------------------ policies
enum class Iterate { Default, Left, Right };
template <unsigned N, Iterate O = Iterate::Default, Iterate I = Iterate::Default> struct Rank { static constexpr int rank = N; };
template <class T> struct IndexType { using type = T; };
struct Static {}; struct Dynamic {};
template <class T> struct Schedule {};
template <class T, class... R> struct LaunchBounds {};

namespace vimpl {
template <class P> struct known : std::bool_constant<IsSpace<P> || std::is_integral_v<P>> {};
template <> struct known<void> : std::true_type {};
template <class T> struct known<IndexType<T>> : std::true_type {};
template <class T> struct known<Schedule<T>> : std::true_type {};
template <unsigned N, Iterate O, Iterate I> struct known<Rank<N, O, I>> : std::true_type {};
template <class... P> struct TagOf { using type = void; };
template <class H, class... T> struct TagOf<H, T...> { using type = typename std::conditional_t<known<H>::value, TagOf<T...>, std::type_identity<H>>::type; };
template <class... P> struct RankOf { static constexpr int value = 0; };
template <unsigned N, Iterate O, Iterate I, class... T> struct RankOf<Rank<N, O, I>, T...> { static constexpr int value = N; };
template <class H, class... T> struct RankOf<H, T...> : RankOf<T...> {};

template <class Tag, class F, class... A> void call(const F& f, A&&... a) {
    if constexpr (std::is_void_v<Tag>) f(std::forward<A>(a)...); else f(Tag(), std::forward<A>(a)...);
}
}

template <class... P> struct RangePolicy {
    using work_tag = typename vimpl::TagOf<P...>::type; using execution_space = DefaultExecutionSpace; using index_type = long;
    long b = 0, e = 0;
    RangePolicy() = default;
    RangePolicy(long b, long e) : b(b), e(std::max(b, e)) {}
    template <class S> requires (vimpl::IsSpace<S>) RangePolicy(const S&, long b, long e) : b(b), e(std::max(b, e)) {}
    long begin() const { return b; } long end() const { return e; }
};
RangePolicy(long, long) -> RangePolicy<>;

template <class... P> struct MDRangePolicy {
    static constexpr int rank = vimpl::RankOf<P...>::value;
    using work_tag = typename vimpl::TagOf<P...>::type;
    std::array<long, rank> lo{}, hi{};
    template <class A, class B> MDRangePolicy(std::initializer_list<A> a, std::initializer_list<B> b) {
        int k = 0; for (auto x : a) lo[k++] = (long)x;
        k = 0; for (auto x : b) { hi[k] = (long)x; ++k; }
    }
    template <class A, class B, class C> MDRangePolicy(std::initializer_list<A> a, std::initializer_list<B> b, std::initializer_list<C>) : MDRangePolicy(a, b) {}
    MDRangePolicy(std::initializer_list<long> a, std::initializer_list<long> b) : MDRangePolicy(a, b, {0L}) {}
    MDRangePolicy(const Array<long, rank>& a, const Array<long, rank>& b) { for (int k = 0; k < rank; ++k) { lo[k] = a[k]; hi[k] = b[k]; } }
};

struct VPerTeam { size_t bytes; }; struct VPerThread { size_t bytes; };

namespace vimpl {
struct TeamShared {
    vk::Barrier bar;
    int size;
    std::vector<std::array<double, 16>> slot;   // storage for team-wide reductions (reinterpreted)
    TeamShared(int n) : bar(n), size(n), slot(n) {}
};
}

class VTeamMember {
public:
    using execution_space = DefaultExecutionSpace; using scratch_memory_space = VScratch; using team_handle = VTeamMember;
    int lr, ls, tr, ts; vimpl::TeamShared* sh; vk::Choice ch;
    char* sbase[2]; size_t ssize[2]; size_t* sused[2];
    int league_rank() const { return lr; } int league_size() const { return ls; }
    int team_rank() const { return tr; } int team_size() const { return ts; }
    void team_barrier() const { vk::Stats::get().barriers.fetch_add(1, std::memory_order_relaxed); sh->bar.wait(1); }
    VScratch team_scratch(int level) const { return VScratch{sbase[level], ssize[level], sused[level]}; }
    VScratch thread_scratch(int level) const { return team_scratch(level); }
    VScratch team_shmem() const { return team_scratch(0); }
    template <class T> void team_broadcast(T& x, int root) const {
        static_assert(sizeof(T) <= sizeof(sh->slot[0]));
        if (tr == root) memcpy(&sh->slot[root], &x, sizeof(T));
        sh->bar.wait(2);
        memcpy(&x, &sh->slot[root], sizeof(T));
        sh->bar.wait(3);
    }
};

template <class... P> struct TeamPolicy {
    using member_type = VTeamMember; using work_tag = typename vimpl::TagOf<P...>::type; using execution_space = DefaultExecutionSpace;
    int league = 0, team = 0, vector = 0; size_t scratch[2] = {0, 0}, tscratch[2] = {0, 0};
    TeamPolicy() = default;
    TeamPolicy(long n, int t, int v = 1) : league((int)n), team(t), vector(v) { check(); }
    TeamPolicy(long n, AUTO_t, int v = 0) : league((int)n), vector(v) { check(); }
    TeamPolicy(long n, AUTO_t, AUTO_t) : league((int)n) { check(); }
    TeamPolicy(long n, int t, AUTO_t) : league((int)n), team(t) { check(); }
    template <class S, class... A> requires (vimpl::IsSpace<S>) TeamPolicy(const S&, long n, A... a) : TeamPolicy(n, a...) {}
    void check() const { if (league < 0) vk::violation("a TeamPolicy is made with a negative league size"); }
    TeamPolicy& set_scratch_size(int level, VPerTeam b) { scratch[level] = b.bytes; return *this; }
    TeamPolicy& set_scratch_size(int level, VPerThread b) { tscratch[level] = b.bytes; return *this; }
    TeamPolicy& set_scratch_size(int level, VPerTeam b, VPerThread c) { scratch[level] = b.bytes; tscratch[level] = c.bytes; return *this; }
    TeamPolicy& set_chunk_size(int) { return *this; }
    int league_size() const { return league; } int team_size() const { return team; }
    template <class F, class T> int team_size_recommended(const F&, const T&) const { return vk::config().team; }
    template <class F, class T> int team_size_max(const F&, const T&) const { return 64; }
    static int vector_length_max() { return 32; }
};

struct VSinglePerTeam { const VTeamMember& m; };
struct VSinglePerThread { const VTeamMember& m; };
inline VPerTeam PerTeam(size_t b) { return {b}; }
inline VPerThread PerThread(size_t b) { return {b}; }
inline VSinglePerTeam PerTeam(const VTeamMember& m) { return {m}; }
inline VSinglePerThread PerThread(const VTeamMember& m) { return {m}; }

struct ParallelForTag {}; struct ParallelReduceTag {};

// nested ranges.  level 0: over the threads of the team; level 1: within a thread (vector lanes)
struct VNested { const VTeamMember& m; long b, e; int level; };
inline VNested TeamThreadRange(const VTeamMember& m, long n) { return {m, 0, n, 0}; }
inline VNested TeamThreadRange(const VTeamMember& m, long b, long e) { return {m, b, e, 0}; }
inline VNested TeamVectorRange(const VTeamMember& m, long n) { return {m, 0, n, 0}; }
inline VNested TeamVectorRange(const VTeamMember& m, long b, long e) { return {m, b, e, 0}; }
inline VNested ThreadVectorRange(const VTeamMember& m, long n) { return {m, 0, n, 1}; }
inline VNested ThreadVectorRange(const VTeamMember& m, long b, long e) { return {m, b, e, 1}; }

template <int R, int Level> struct VNestedMD { const VTeamMember& m; std::array<long, R> n; };
#define VK_MD(name, level) \
    template <class Rk, class Member> struct name : VNestedMD<Rk::rank, level> { \
        template <class... I> name(const Member& m, I... n) : VNestedMD<Rk::rank, level>{m, {(long)n...}} { \
            static_assert(sizeof...(I) == Rk::rank); } };
VK_MD(TeamVectorMDRange, 0)
VK_MD(TeamThreadMDRange, 0)
VK_MD(ThreadVectorMDRange, 1)
#undef VK_MD

// ------------------------------------------------------------------ reducers
template <class T> struct Sum { using value_type = T; T& r; Sum(T& r) : r(r) {} static T init() { return T(); } static void join(T& a, const T& b) { a += b; } T& reference() const { return r; } };
template <class T> struct Prod { using value_type = T; T& r; Prod(T& r) : r(r) {} static T init() { return T(1); } static void join(T& a, const T& b) { a *= b; } T& reference() const { return r; } };
template <class T> struct Max { using value_type = T; T& r; Max(T& r) : r(r) {} static T init() { return std::numeric_limits<T>::lowest(); } static void join(T& a, const T& b) { if (b > a) a = b; } T& reference() const { return r; } };
template <class T> struct Min { using value_type = T; T& r; Min(T& r) : r(r) {} static T init() { return std::numeric_limits<T>::max(); } static void join(T& a, const T& b) { if (b < a) a = b; } T& reference() const { return r; } };
template <class T> struct LOr { using value_type = T; T& r; LOr(T& r) : r(r) {} static T init() { return T(0); } static void join(T& a, const T& b) { a = a || b; } T& reference() const { return r; } };
template <class T> struct LAnd { using value_type = T; T& r; LAnd(T& r) : r(r) {} static T init() { return T(1); } static void join(T& a, const T& b) { a = a && b; } T& reference() const { return r; } };

namespace vimpl {
template <class R> concept IsReducer = requires(const R& r) { typename R::value_type; R::init(); r.reference(); };
template <class R> struct red { // a plain variable: sum
    using T = R;
    static T init() { if constexpr (requires { R::init; } ) return T(); else return T(); }
    static void join(T& a, const T& b) { a += b; }
    static void store(R& r, const T& v) { r = v; }
};
template <class R> requires IsReducer<R> struct red<R> {
    using T = typename R::value_type;
    static T init() { return R::init(); }
    static void join(T& a, const T& b) { R::join(a, b); }
    static void store(const R& r, const T& v) { r.reference() = v; }
};
template <class R> requires (is_view_v<R>) struct red<R> {
    using T = typename R::non_const_value_type;
    static T init() { return T(); }
    static void join(T& a, const T& b) { a += b; }
    static void store(const R& r, const T& v) { *r.data() = v; }
};
template <class R> constexpr bool is_async = is_view_v<std::decay_t<R>>;

inline long flat_count(long n) { return n; }
}

// ------------------------------------------------------------------ execution of the outer policies
namespace vimpl {

template <class F> void run_flat(long n, const vk::Choice& c, const F& f) // f(worker, i)
{
    const int p = (int)std::max<long>(1, std::min<long>(vk::config_ref().threads, n));
    vk::Pool::get().run(p, [&](int w) { c.each(n, p, w, [&](long i) { f(w, i); }); });
}

template <class F> void run_team(int league, int team, const size_t* scratch, const vk::Choice& c, const F& f) // f(group, member)
{
    vk::Stats::get().team_kernels++;
    const int ts = team > 0 ? team : vk::config_ref().team;
    const int groups = std::max(1, std::min(league, vk::config_ref().threads));
    std::vector<std::unique_ptr<TeamShared>> sh;
    for (int g = 0; g < groups; ++g) sh.push_back(std::make_unique<TeamShared>(ts));
    std::vector<std::vector<long>> lists(groups);
    for (int g = 0; g < groups; ++g) c.list(league, groups, g, lists[g]);
    // scratch of its own for every member of the league, filled with NaN patterns
    std::vector<std::unique_ptr<char[]>> mem[2];
    for (int l = 0; l < 2; ++l) for (int i = 0; i < league && scratch[l]; ++i) {
        mem[l].emplace_back(new char[scratch[l]]); memset(mem[l].back().get(), 0xFF, scratch[l]); }
    vk::Pool::get().run(groups * ts, [&](int w) {
        const int g = w / ts, r = w % ts;
        for (long i : lists[g]) {
            size_t used[2] = {0, 0};
            VTeamMember m{(int)i, league, r, ts, sh[g].get(), c, {}, {}, {}};
            for (int l = 0; l < 2; ++l) { m.sbase[l] = scratch[l] ? mem[l][i].get() : nullptr; m.ssize[l] = scratch[l]; m.sused[l] = &used[l]; }
            f(g, r, m);
            sh[g]->bar.wait(9);
        }
    });
}
} // namespace vimpl

// ------------------------------------------------------------------ parallel_for
template <class I, class F> requires (std::is_integral_v<I>) void parallel_for(const std::string& label, I n, const F& f) {
    vk::launch(label, (long)n, false, [n, f, c = vk::Choice::next()] { vimpl::run_flat((long)n, c, [&](int, long i) { f((std::conditional_t<sizeof(I) == 8, long, int>)i); }); });
}
template <class... P, class F> void parallel_for(const std::string& label, const RangePolicy<P...>& p, const F& f) {
    using Tag = typename RangePolicy<P...>::work_tag;
    vk::launch(label, p.e - p.b, false, [p, f, c = vk::Choice::next()] { vimpl::run_flat(p.e - p.b, c, [&](int, long i) { vimpl::call<Tag>(f, (int)(p.b + i)); }); });
}
template <class... P, class F> void parallel_for(const std::string& label, const MDRangePolicy<P...>& p, const F& f) {
    using M = MDRangePolicy<P...>; using Tag = typename M::work_tag;
    long n = 1; for (int k = 0; k < M::rank; ++k) n *= std::max(0L, p.hi[k] - p.lo[k]);
    vk::launch(label, n, false, [p, f, n, c = vk::Choice::next()] {
        vimpl::run_flat(n, c, [&](int, long q) {
            std::array<int, M::rank> i;
            for (int k = M::rank - 1; k >= 0; --k) { long d = p.hi[k] - p.lo[k]; i[k] = int(p.lo[k] + q % d); q /= d; }
            std::apply([&](auto... x) { vimpl::call<Tag>(f, x...); }, i);
        });
    });
}
template <class... P, class F> void parallel_for(const std::string& label, const TeamPolicy<P...>& p, const F& f) {
    using Tag = typename TeamPolicy<P...>::work_tag;
    vk::launch(label, p.league, false, [p, f, c = vk::Choice::next()] {
        size_t s[2] = {p.scratch[0] + 64 * p.tscratch[0], p.scratch[1] + 64 * p.tscratch[1]};
        vimpl::run_team(p.league, p.team, s, c, [&](int, int, const VTeamMember& m) { vimpl::call<Tag>(f, m); });
    });
}
template <class P, class F> requires (!std::is_convertible_v<P, std::string> && !std::is_same_v<std::decay_t<P>, VNested>)
void parallel_for(const P& p, const F& f) { parallel_for(std::string("(unnamed)"), p, f); }
template <class P, class F> requires (!std::is_convertible_v<P, std::string>)
void parallel_for(const P& p, const F& f, const std::string& label) { parallel_for(label, p, f); }

// nested
template <class F> void parallel_for(const VNested& r, const F& f) {
    const long n = std::max(0L, r.e - r.b);
    if (r.level == 0) r.m.ch.each(n, r.m.ts, r.m.tr, [&](long i) { f((int)(r.b + i)); });
    else r.m.ch.each(n, 1, 0, [&](long i) { f((int)(r.b + i)); });
}
template <class F, int R, int L> void v_md(const VNestedMD<R, L>& r, const F& f) {
    long inner = 1; for (int k = 1; k < R; ++k) inner *= std::max(0L, r.n[k]);
    auto row = [&](long i0) {
        r.m.ch.each(inner, 1, 0, [&](long q) {
            std::array<int, R> i; i[0] = (int)i0;
            for (int k = R - 1; k >= 1; --k) { i[k] = int(q % r.n[k]); q /= r.n[k]; }
            std::apply([&](auto... x) { f(x...); }, i);
        });
    };
    if (L == 0) r.m.ch.each(std::max(0L, r.n[0]), r.m.ts, r.m.tr, row);
    else r.m.ch.each(std::max(0L, r.n[0]), 1, 0, row);
}
template <class A, class B, class F> void parallel_for(const TeamVectorMDRange<A, B>& r, const F& f) { v_md<F, A::rank, 0>(r, f); }
template <class A, class B, class F> void parallel_for(const TeamThreadMDRange<A, B>& r, const F& f) { v_md<F, A::rank, 0>(r, f); }
template <class A, class B, class F> void parallel_for(const ThreadVectorMDRange<A, B>& r, const F& f) { v_md<F, A::rank, 1>(r, f); }

// ------------------------------------------------------------------ parallel_reduce
namespace vimpl {
template <class... R> using Vals = std::tuple<typename red<std::decay_t<R>>::T...>;
template <class... R> Vals<R...> inits() { return Vals<R...>(red<std::decay_t<R>>::init()...); }
template <class... R, size_t... K> void joins(Vals<R...>& a, const Vals<R...>& b, std::index_sequence<K...>) { (red<std::decay_t<R>>::join(std::get<K>(a), std::get<K>(b)), ...); }
template <class... R, size_t... K> void stores(const Vals<R...>& v, std::index_sequence<K...>, R&... r) { (red<std::decay_t<R>>::store(r, std::get<K>(v)), ...); }
template <class Tag, class F, class V, class... A> void fold(const F& f, V& v, A... a) {
    std::apply([&](auto&... x) { if constexpr (std::is_void_v<Tag>) f(a..., x...); else f(Tag(), a..., x...); }, v);
}
// partial results, away from each other
template <class V> struct alignas(64) Part { V v; };

// a launch with a result in host memory has finished when it returns
template <class Tag, class F, class... R> void reduce_flat(const std::string& label, long b, long n, const F& f, R&... r) {
    auto seq = std::index_sequence_for<R...>();
    Vals<R...> total = inits<R...>();
    vk::launch(label, n, true, [&, c = vk::Choice::next()] {
        const int p = (int)std::max<long>(1, std::min<long>(vk::config_ref().threads, n));
        std::vector<Part<Vals<R...>>> part(p, Part<Vals<R...>>{inits<R...>()});
        run_flat(n, c, [&](int w, long i) { fold<Tag>(f, part[w].v, (int)(b + i)); });
        for (auto& q : part) joins<R...>(total, q.v, seq);
    });
    stores<R...>(total, seq, r...);
}
}
template <class I, class F, class... R> requires (std::is_integral_v<I> && sizeof...(R) > 0)
void parallel_reduce(const std::string& label, I n, const F& f, R&&... r) { vimpl::reduce_flat<void>(label, 0, (long)n, f, r...); }
template <class... P, class F, class... R> void parallel_reduce(const std::string& label, const RangePolicy<P...>& p, const F& f, R&&... r) {
    vimpl::reduce_flat<typename RangePolicy<P...>::work_tag>(label, p.b, p.e - p.b, f, r...);
}
template <class... P, class F, class... R> void parallel_reduce(const std::string& label, const MDRangePolicy<P...>& p, const F& f, R&&... r) {
    using M = MDRangePolicy<P...>;
    long n = 1; for (int k = 0; k < M::rank; ++k) n *= std::max(0L, p.hi[k] - p.lo[k]);
    vimpl::reduce_flat<void>(label, 0, n, [&](long q, auto&... x) {
        std::array<int, M::rank> i;
        for (int k = M::rank - 1; k >= 0; --k) { long d = p.hi[k] - p.lo[k]; i[k] = int(p.lo[k] + q % d); q /= d; }
        std::apply([&](auto... y) { f(y..., x...); }, i);
    }, r...);
}
template <class... P, class F, class... R> void parallel_reduce(const std::string& label, const TeamPolicy<P...>& p, const F& f, R&&... r) {
    using Tag = typename TeamPolicy<P...>::work_tag;
    using V = vimpl::Vals<R...>;
    auto seq = std::index_sequence_for<R...>();
    V total = vimpl::inits<R...>();
    vk::launch(label, p.league, true, [&, c = vk::Choice::next()] {
        const int ts = p.team > 0 ? p.team : vk::config_ref().team;
        std::vector<vimpl::Part<V>> part(std::max(1, vk::config_ref().threads) * ts, vimpl::Part<V>{vimpl::inits<R...>()});
        size_t s[2] = {p.scratch[0] + 64 * p.tscratch[0], p.scratch[1] + 64 * p.tscratch[1]};
        vimpl::run_team(p.league, p.team, s, c, [&](int g, int rk, const VTeamMember& m) { vimpl::fold<Tag, F, V, const VTeamMember&>(f, part[g * ts + rk].v, m); });
        for (auto& q : part) vimpl::joins<R...>(total, q.v, seq);
    });
    vimpl::stores<R...>(total, seq, r...);
}
// nested
template <class F, class... R> void parallel_reduce(const VNested& r, const F& f, R&&... out) {
    using V = vimpl::Vals<R...>;
    auto seq = std::index_sequence_for<R...>();
    V mine = vimpl::inits<R...>();
    const long n = std::max(0L, r.e - r.b);
    if (r.level == 1) {
        r.m.ch.each(n, 1, 0, [&](long i) { vimpl::fold<void>(f, mine, (int)(r.b + i)); });
        vimpl::stores<R...>(mine, seq, out...);
        return;
    }
    r.m.ch.each(n, r.m.ts, r.m.tr, [&](long i) { vimpl::fold<void>(f, mine, (int)(r.b + i)); });
    if (r.m.ts > 1) {
        static_assert(sizeof(V) <= sizeof(r.m.sh->slot[0]) && std::is_trivially_destructible_v<V>);
        new (&r.m.sh->slot[r.m.tr]) V(mine);
        r.m.sh->bar.wait(4);
        V all = vimpl::inits<R...>();
        for (int t = 0; t < r.m.ts; ++t) vimpl::joins<R...>(all, *reinterpret_cast<V*>(&r.m.sh->slot[t]), seq);
        mine = all;
        r.m.sh->bar.wait(5);
    }
    vimpl::stores<R...>(mine, seq, out...);
}
template <class A, class F, class... R> requires (std::is_integral_v<A> || requires { typename A::work_tag; })
void parallel_reduce(const A& p, const F& f, R&&... r) { parallel_reduce(std::string("(unnamed)"), p, f, r...); }

// ------------------------------------------------------------------ parallel_scan
namespace vimpl {
template <class T> struct scan_arg;
template <class C, class R, class I, class U> struct scan_arg<R (C::*)(I, U&, bool) const> { using type = U; };
template <class C, class R, class I, class U> struct scan_arg<R (C::*)(I, U&, bool)> { using type = U; };
template <class C, class R, class I, class U> struct scan_arg<R (C::*)(I, U&, const bool&) const> { using type = U; };
template <class F> using scan_t = typename scan_arg<decltype(&F::operator())>::type;

template <class F, class T> void scan(const std::string& label, long b, long n, const F& f, T* total, bool wait) {
    vk::launch(label, n, wait, [=] {
        const int p = (int)std::max<long>(1, std::min<long>(vk::config_ref().threads, n));
        const long block = n ? (n + p - 1) / p : 0;
        std::vector<Part<T>> part(p, Part<T>{T()});
        if (p > 1) vk::Pool::get().run(p, [&](int w) {
            for (long i = w * block; i < std::min(n, (w + 1) * block); ++i) f((int)(b + i), part[w].v, false); });
        T sum{};
        for (auto& q : part) { T v = q.v; q.v = sum; sum += v; }
        vk::Pool::get().run(p, [&](int w) {
            for (long i = w * block; i < std::min(n, (w + 1) * block); ++i) f((int)(b + i), part[w].v, true); });
        if (total) *total = n ? part[p-1].v : T{};
    });
}
}
template <class I, class F> requires (std::is_integral_v<I>) void parallel_scan(const std::string& label, I n, const F& f) {
    vimpl::scan<F, vimpl::scan_t<F>>(label, 0, (long)n, f, nullptr, false); }
template <class... P, class F> void parallel_scan(const std::string& label, const RangePolicy<P...>& p, const F& f) {
    vimpl::scan<F, vimpl::scan_t<F>>(label, p.b, p.e - p.b, f, nullptr, false); }
template <class I, class F, class T> requires (std::is_integral_v<I>) void parallel_scan(const std::string& label, I n, const F& f, T& total) {
    vimpl::scan<F, vimpl::scan_t<F>>(label, 0, (long)n, f, &total, true); }
template <class... P, class F, class T> void parallel_scan(const std::string& label, const RangePolicy<P...>& p, const F& f, T& total) {
    vimpl::scan<F, vimpl::scan_t<F>>(label, p.b, p.e - p.b, f, &total, true); }
template <class A, class F> requires (std::is_integral_v<A> || requires { typename A::work_tag; }) void parallel_scan(const A& p, const F& f) { parallel_scan(std::string("(unnamed)"), p, f); }

// ------------------------------------------------------------------ single
template <class F> void single(const VSinglePerTeam& s, const F& f) { if (s.m.tr == 0) f(); }
template <class F, class T> void single(const VSinglePerTeam& s, const F& f, T& x) { if (s.m.tr == 0) f(x); s.m.team_broadcast(x, 0); }
template <class F> void single(const VSinglePerThread&, const F& f) { f(); }
template <class F, class T> void single(const VSinglePerThread&, const F& f, T& x) { f(x); }

// ------------------------------------------------------------------ atomics
template <class T, class U> void atomic_add(T* p, U x) {
    vk::Stats::get().atomics.fetch_add(1, std::memory_order_relaxed);
    std::atomic_ref<T> a(*p);
    T old = a.load(std::memory_order_relaxed);
    while (!a.compare_exchange_weak(old, static_cast<T>(old + static_cast<T>(x)), std::memory_order_relaxed)) {}
}
template <class T, class U> void atomic_sub(T* p, U x) { atomic_add(p, -static_cast<T>(x)); }
template <class T> void atomic_inc(T* p) { atomic_add(p, T(1)); }
template <class T> void atomic_increment(T* p) { atomic_add(p, T(1)); }
template <class T, class U> T atomic_fetch_add(T* p, U x) {
    std::atomic_ref<T> a(*p);
    T old = a.load(std::memory_order_relaxed);
    while (!a.compare_exchange_weak(old, static_cast<T>(old + static_cast<T>(x)), std::memory_order_relaxed)) {}
    return old;
}
template <class T, class U> void atomic_store(T* p, U x) { std::atomic_ref<T>(*p).store(static_cast<T>(x), std::memory_order_relaxed); }
template <class T> T atomic_load(T* p) { return std::atomic_ref<T>(*p).load(std::memory_order_relaxed); }

// ------------------------------------------------------------------ functions, start and end
using std::sqrt; using std::exp; using std::pow; using std::log; using std::sin; using std::cos; using std::tanh;
using std::abs; using std::fabs; using std::fmax; using std::fmin; using std::floor; using std::ceil;
template <class T> constexpr const T& max(const T& a, const T& b) { return a < b ? b : a; }
template <class T> constexpr const T& min(const T& a, const T& b) { return b < a ? b : a; }
inline double sqrt(int x) { return std::sqrt((double)x); }

struct InitializationSettings {
    InitializationSettings& set_num_threads(int) { return *this; }
    InitializationSettings& set_device_id(int) { return *this; }
    InitializationSettings& set_disable_warnings(bool) { return *this; }
    InitializationSettings& set_print_configuration(bool) { return *this; }
    InitializationSettings& set_map_device_id_by(const std::string&) { return *this; }
};
inline void initialize(const InitializationSettings& = {}) {
    if (vk::initialized()) vk::violation("Kokkos is initialised twice");
    vk::initialized() = true;
}
inline void initialize(int&, char**) { initialize(); }
inline void finalize() { vk::need_init(); vk::fence(); vk::initialized() = false; }
inline bool is_initialized() { return vk::initialized(); }
inline bool is_finalized() { return !vk::initialized(); }
struct ScopeGuard { ScopeGuard() { initialize(); } ScopeGuard(int&, char**) { initialize(); } ~ScopeGuard() { finalize(); } };
inline void abort(const char* m) { vk::violation(std::string("Kokkos::abort: ") + m); }
template <class... A> void printf(const char* f, A... a) { ::printf(f, a...); }

struct Timer { double seconds() const { return 0; } void reset() {} };

} // namespace Kokkos

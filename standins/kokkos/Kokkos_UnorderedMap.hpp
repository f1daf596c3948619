#pragma once
#include "Kokkos_Core.hpp"
namespace Kokkos {
template <class Device = DefaultExecutionSpace> class Bitset {
    View<unsigned char*> d;
    void at(long i) const { if (i < 0 || i >= (long)d.extent(0)) vk::violation("Bitset of " + std::to_string(d.extent(0)) + " bits used at " + std::to_string(i)); }
public:
    Bitset(unsigned n = 0) : d("Bitset", n) {}
    unsigned size() const { return (unsigned)d.extent(0); }
    bool set(unsigned i) const { at(i); return !std::atomic_ref<unsigned char>(d.data()[i]).exchange(1, std::memory_order_relaxed); }
    bool reset(unsigned i) const { at(i); return std::atomic_ref<unsigned char>(d.data()[i]).exchange(0, std::memory_order_relaxed); }
    bool test(unsigned i) const { at(i); return std::atomic_ref<unsigned char>(d.data()[i]).load(std::memory_order_relaxed); }
    void set() { vk::fence(); for (unsigned i = 0; i < size(); ++i) d.data()[i] = 1; }
    void reset() { vk::fence(); for (unsigned i = 0; i < size(); ++i) d.data()[i] = 0; }
    void clear() { reset(); }
    unsigned count() const { vk::fence(); unsigned n = 0; for (unsigned i = 0; i < size(); ++i) n += d.data()[i]; return n; }
};
Bitset(int) -> Bitset<>;
Bitset(unsigned) -> Bitset<>;
}

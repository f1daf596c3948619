// Stand-in for the KOKKOS package of LAMMPS, on top of the stand-in for Kokkos.  Dual data has a host and a
// device side; they are separate memory when the Kokkos stand-in is told to separate memories, and then only
// sync() moves data, as on a GPU.
#pragma once
#include "vlammps.h"
#include <Kokkos_Core.hpp>

#define X_MASK        0x00000001
#define V_MASK        0x00000002
#define F_MASK        0x00000004
#define TAG_MASK      0x00000008
#define TYPE_MASK     0x00000010
#define ENERGY_MASK   0x00010000
#define VIRIAL_MASK   0x00020000
#define EMPTY_MASK    0x00000000
#define ALL_MASK      0xffffffff

typedef Kokkos::DefaultExecutionSpace LMPDeviceType;
typedef Kokkos::DefaultHostExecutionSpace LMPHostType;

namespace LAMMPS_NS {

template <class D> struct ExecutionSpaceFromDevice;
template <> struct ExecutionSpaceFromDevice<LMPDeviceType> { static const ExecutionSpace space = Device; };
template <> struct ExecutionSpaceFromDevice<LMPHostType> { static const ExecutionSpace space = Host; };

template <class T> struct VDual {            // T is e.g. double* or double**
    using host_t = Kokkos::View<T, Kokkos::LayoutRight, Kokkos::HostSpace>;
    using dev_t = Kokkos::View<T, Kokkos::LayoutRight, LMPDeviceType>;
    dev_t d_view; host_t h_view; std::shared_ptr<std::array<int, 2>> mod;
    VDual() {}
    template <class... N> VDual(const std::string& label, N... n) : d_view(label, n...), mod(std::make_shared<std::array<int, 2>>()) { h_view = Kokkos::create_mirror_view(d_view); Kokkos::deep_copy(h_view, d_view); }
    template <class D> auto view() const { if constexpr (std::is_same_v<D, LMPDeviceType>) return d_view; else return h_view; }
    template <class D> void modify() { if (mod) (*mod)[std::is_same_v<D, LMPDeviceType> ? 1 : 0] = 1; }
    void modify_host() { modify<LMPHostType>(); } void modify_device() { modify<LMPDeviceType>(); }
    template <class D> void sync() { if constexpr (std::is_same_v<D, LMPDeviceType>) sync_device(); else sync_host(); }
    void sync_device() { if (mod && (*mod)[0]) { Kokkos::deep_copy(d_view, h_view); (*mod) = {0, 0}; } }
    void sync_host() { if (mod && (*mod)[1]) { Kokkos::fence(); Kokkos::deep_copy(h_view, d_view); (*mod) = {0, 0}; } }
    void clear_sync_state() { if (mod) *mod = {0, 0}; }
};
struct DAT {
    typedef VDual<int*> tdual_int_1d; typedef VDual<int**> tdual_int_2d; typedef VDual<int*> tdual_tagint_1d;
    typedef VDual<double*> tdual_double_1d; typedef VDual<double*> ttransform_kkacc_1d; typedef VDual<double*> tdual_kkacc_1d;
    typedef VDual<double**> ttransform_kkfloat_1d_3_lr; typedef VDual<double**> ttransform_kkacc_1d_3;
};
struct VHash { std::shared_ptr<std::map<tagint, int>> m; template <class D> void sync() {} template <class D> void modify() {} };
typedef VHash dual_hash_type;

class MemoryKokkos : public Memory {
public:
    template <class T> void destroy_kokkos(VDual<T>& d, double*& a) { if (!a) return; Kokkos::fence(); d = VDual<T>(); a = nullptr; }
    template <class T> void create_kokkos(VDual<T>& d, double*& a, int n, const char* name) { d = VDual<T>(name, n); a = d.h_view.data(); }
};

class AtomKokkos : public Atom {
public:
    DAT::ttransform_kkfloat_1d_3_lr k_x; DAT::ttransform_kkacc_1d_3 k_f; DAT::tdual_int_1d k_type; DAT::tdual_tagint_1d k_tag;
    DAT::tdual_int_1d k_map_array; dual_hash_type k_map_hash;
    void sync(ExecutionSpace s, unsigned mask) { each(mask, [&](auto& d) { if (s == Device) d.sync_device(); else d.sync_host(); }); }
    void modified(ExecutionSpace s, unsigned mask) { each(mask, [&](auto& d) { if (s == Device) d.modify_device(); else d.modify_host(); }); }
    template <class D> static int map_kokkos(tagint t, int style, const DAT::tdual_int_1d& a, const dual_hash_type& h) {
        if (style == MAP_ARRAY) return a.template view<D>()(t);
        auto p = h.m->find(t);
        return p == h.m->end() ? -1 : p->second;
    }
private:
    template <class F> void each(unsigned mask, const F& f) {
        if (mask & X_MASK) f(k_x);
        if (mask & F_MASK) f(k_f);
        if (mask & TAG_MASK) f(k_tag);
        if (mask & TYPE_MASK) f(k_type);
    }
};

template <class D> class NeighListKokkos : public NeighList {
public:
    Kokkos::View<int*> d_ilist, d_numneigh; Kokkos::View<int**> d_neighbors;
};

class KokkosBase {
public:
    virtual ~KokkosBase() {}
    virtual int pack_forward_comm_kokkos(int, DAT::tdual_int_1d, DAT::tdual_double_1d&, int, int*) { return 0; }
    virtual void unpack_forward_comm_kokkos(int, int, DAT::tdual_double_1d&) {}
    virtual int pack_reverse_comm_kokkos(int, int, DAT::tdual_double_1d&) { return 0; }
    virtual void unpack_reverse_comm_kokkos(int, DAT::tdual_int_1d, DAT::tdual_double_1d&) {}
};

}  // namespace LAMMPS_NS

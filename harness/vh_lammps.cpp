// Harness module: the real LAMMPS pair styles on the stand-in for LAMMPS.
#include <pybind11/pybind11.h>
#include <pybind11/numpy.h>
#include <pybind11/stl.h>
#include "vlammps.h"
#include "pair_symmetrix_mace.h"
#ifdef SYMMETRIX_KOKKOS
#include "vlammps_kokkos.h"
#include "pair_symmetrix_mace_kokkos.h"
#endif
namespace py = pybind11;
using namespace LAMMPS_NS;
template <class T> using arr = py::array_t<T, py::array::c_style | py::array::forcecast>;

// ------------------------------------------------------------------ messages
// forward: the owner packs its list, the ghost side unpacks a contiguous range; reverse: the other way round
void Comm::forward_comm(Pair* p, int)
{
    ++forwards;
    const int size = p->comm_forward;
#ifdef SYMMETRIX_KOKKOS
    auto* kb = device && p->execution_space == Device ? dynamic_cast<KokkosBase*>(p) : nullptr;
#endif
    for (size_t s = 0; s < swaps.size(); ++s) {
        auto& w = swaps[s];
        const long number = messages++;
        const int n = (int)w.sendlist.size(), cap = n * size;
        std::vector<int> lst(w.sendlist); std::vector<double> buf(cap, std::nan(""));
        int pbc[6] = {0,0,0,0,0,0}, got;
#ifdef SYMMETRIX_KOKKOS
        if (kb) {
            DAT::tdual_int_1d k_list("sendlist", n); DAT::tdual_double_1d k_buf("buf", cap);
            for (int i = 0; i < n; ++i) k_list.h_view(i) = lst[i];
            for (int i = 0; i < cap; ++i) k_buf.h_view(i) = std::nan("");
            k_list.modify_host(); k_list.sync_device(); k_buf.modify_host(); k_buf.sync_device();
            got = kb->pack_forward_comm_kokkos(n, k_list, k_buf, 0, pbc);
            k_buf.modify_device(); k_buf.sync_host();
            for (int i = 0; i < cap; ++i) buf[i] = k_buf.h_view(i);
        } else
#endif
        got = p->pack_forward_comm(n, lst.data(), buf.data(), 0, pbc);
        if (got < 0 || got > cap) vl_violation("pack_forward_comm returns " + std::to_string(got) + " values for a buffer of " + std::to_string(cap));
        if (lst != w.sendlist) vl_violation("pack_forward_comm changes the send list");
        world->mail[{me, w.to, number}] = std::vector<double>(buf.begin(), buf.begin() + got);
        const std::array<long, 3> key{w.from, me, number};
        world->wait_for(me, [&] { return world->mail.count(key) > 0; });
        std::vector<double> in = std::move(world->mail[key]); world->mail.erase(key);
        if ((int)in.size() > w.count * size) vl_violation("a message of " + std::to_string(in.size()) + " values arrives for " + std::to_string(w.count) + " atoms of " + std::to_string(size));
        in.resize(w.count * size, std::nan("")); in.shrink_to_fit();
#ifdef SYMMETRIX_KOKKOS
        if (kb) {
            DAT::tdual_double_1d k_buf("buf", in.size());
            for (size_t i = 0; i < in.size(); ++i) k_buf.h_view(i) = in[i];
            k_buf.modify_host(); k_buf.sync_device();
            kb->unpack_forward_comm_kokkos(w.count, w.first, k_buf);
        } else
#endif
        p->unpack_forward_comm(w.count, w.first, in.data());
    }
}

void Comm::reverse_comm(Pair* p, int)
{
    ++reverses;
    const int size = std::max(p->comm_reverse, p->comm_reverse_off);
#ifdef SYMMETRIX_KOKKOS
    auto* kb = device && p->execution_space == Device && p->reverse_comm_device ? dynamic_cast<KokkosBase*>(p) : nullptr;
#endif
    for (size_t s = swaps.size(); s-- > 0; ) {
        auto& w = swaps[s];
        const long number = messages++;
        const int cap = w.count * size;
        std::vector<double> buf(cap, std::nan(""));
        int got;
#ifdef SYMMETRIX_KOKKOS
        if (kb) {
            DAT::tdual_double_1d k_buf("buf", cap);
            for (int i = 0; i < cap; ++i) k_buf.h_view(i) = std::nan("");
            k_buf.modify_host(); k_buf.sync_device();
            got = kb->pack_reverse_comm_kokkos(w.count, w.first, k_buf);
            k_buf.modify_device(); k_buf.sync_host();
            for (int i = 0; i < cap; ++i) buf[i] = k_buf.h_view(i);
        } else
#endif
        got = p->pack_reverse_comm(w.count, w.first, buf.data());
        if (got < 0 || got > cap) vl_violation("pack_reverse_comm returns " + std::to_string(got) + " values for a buffer of " + std::to_string(cap));
        world->mail[{me, w.from, number}] = std::vector<double>(buf.begin(), buf.begin() + got);
        const std::array<long, 3> key{w.to, me, number};
        world->wait_for(me, [&] { return world->mail.count(key) > 0; });
        std::vector<double> in = std::move(world->mail[key]); world->mail.erase(key);
        std::vector<int> lst(w.sendlist);
        const int n = (int)lst.size();
        if ((int)in.size() > n * size) vl_violation("a reverse message of " + std::to_string(in.size()) + " values arrives for " + std::to_string(n) + " atoms of " + std::to_string(size));
        in.resize(n * size, std::nan("")); in.shrink_to_fit();
#ifdef SYMMETRIX_KOKKOS
        if (kb) {
            DAT::tdual_int_1d k_list("sendlist", n); DAT::tdual_double_1d k_buf("buf", in.size());
            for (int i = 0; i < n; ++i) k_list.h_view(i) = lst[i];
            for (size_t i = 0; i < in.size(); ++i) k_buf.h_view(i) = in[i];
            k_list.modify_host(); k_list.sync_device(); k_buf.modify_host(); k_buf.sync_device();
            kb->unpack_reverse_comm_kokkos(n, k_list, k_buf);
        } else
#endif
        p->unpack_reverse_comm(n, lst.data(), in.data());
    }
}

// ------------------------------------------------------------------ one rank
struct Rank {
    std::unique_ptr<Memory> memory; Error error; Neighbor neighbor; Force force; Domain domain; Comm comm;
    std::unique_ptr<Atom> atom; LAMMPS lmp; std::unique_ptr<Pair> pair; std::unique_ptr<NeighList> list;
    bool kk = false;
    // exact-size storage
    std::unique_ptr<double[]> x, f; std::unique_ptr<double*[]> xp, fp; std::unique_ptr<int[]> type, tag, ilist, numneigh; std::vector<std::unique_ptr<int[]>> rows; std::unique_ptr<int*[]> first;

    Rank(const std::string& style, int me, int nprocs, VWorld* w)
    {
        kk = style.find("/kk") != std::string::npos;
#ifdef SYMMETRIX_KOKKOS
        if (kk) {
            auto mk = std::make_unique<MemoryKokkos>(); lmp.memoryKK = mk.get(); memory = std::move(mk);
            auto ak = std::make_unique<AtomKokkos>(); lmp.atomKK = ak.get(); atom = std::move(ak);
            list = std::make_unique<NeighListKokkos<LMPDeviceType>>();
        } else
#endif
        { memory = std::make_unique<Memory>(); atom = std::make_unique<Atom>(); list = std::make_unique<NeighList>(); }
        comm.me = me; comm.nprocs = nprocs; comm.world = w; comm.neighbor = &neighbor;
        lmp.memory = memory.get(); lmp.error = &error; lmp.atom = atom.get(); lmp.comm = &comm; lmp.neighbor = &neighbor; lmp.force = &force; lmp.domain = &domain;
        if (style == "symmetrix/mace") pair = std::make_unique<PairSymmetrixMACE>(&lmp);
#ifdef SYMMETRIX_KOKKOS
        else if (style == "symmetrix/mace/kk") pair = std::make_unique<PairSymmetrixMACEKokkos<LMPDeviceType, double>>(&lmp);
        else if (style == "symmetrix/mace/float32/kk") pair = std::make_unique<PairSymmetrixMACEKokkos<LMPDeviceType, float>>(&lmp);
#endif
        else throw std::runtime_error("unknown style " + style);
    }
#ifdef SYMMETRIX_KOKKOS
    AtomKokkos& ak() { return *static_cast<AtomKokkos*>(atom.get()); }
#endif
    void set_atoms(arr<double> X, arr<int> T, arr<int> G, int nlocal, int nmax, int max_tag)
    {
        const int n = T.size();
        atom->nlocal = nlocal; atom->nghost = n - nlocal; atom->nmax = nmax;
        atom->vl_map.clear();
        for (int i = n - 1; i >= 0; --i) atom->vl_map[G.at(i)] = i;
        x.reset(new double[3 * nmax]); f.reset(new double[3 * nmax]); type.reset(new int[nmax]); tag.reset(new int[nmax]);
        xp.reset(new double*[nmax]); fp.reset(new double*[nmax]);
        for (int i = 0; i < nmax; ++i) { xp[i] = &x[3 * i]; fp[i] = &f[3 * i]; for (int k = 0; k < 3; ++k) { xp[i][k] = i < n ? X.at(i, k) : std::nan(""); fp[i][k] = 0; } type[i] = i < n ? T.at(i) : 0x3fffffff; tag[i] = i < n ? G.at(i) : 0; }
        atom->x = xp.get(); atom->f = fp.get(); atom->type = type.get(); atom->tag = tag.get();
#ifdef SYMMETRIX_KOKKOS
        if (kk) {
            Kokkos::fence();
            auto& a = ak();
            a.k_x = {"atom:x", nmax, 3}; a.k_f = {"atom:f", nmax, 3}; a.k_type = {"atom:type", nmax}; a.k_tag = {"atom:tag", nmax}; a.k_map_array = {"atom:map", max_tag + 1};
            for (int i = 0; i < nmax; ++i) { a.k_type.h_view(i) = type[i]; a.k_tag.h_view(i) = tag[i]; for (int k = 0; k < 3; ++k) a.k_x.h_view(i, k) = xp[i][k]; }
            for (int i = 0; i <= max_tag; ++i) a.k_map_array.h_view(i) = a.map(i);
            a.k_map_array.modify_host();
            a.k_map_hash.m = std::make_shared<std::map<tagint, int>>(a.vl_map);
            a.modified(Host, ALL_MASK);
        }
#endif
    }
    void move(arr<double> X)
    {
        for (int i = 0; i < (int)X.shape(0); ++i) for (int k = 0; k < 3; ++k) xp[i][k] = X.at(i, k);
#ifdef SYMMETRIX_KOKKOS
        if (kk) { Kokkos::fence(); for (int i = 0; i < (int)X.shape(0); ++i) for (int k = 0; k < 3; ++k) ak().k_x.h_view(i, k) = X.at(i, k); ak().modified(Host, X_MASK); }
#endif
    }
    void set_f(arr<double> F)
    {
        for (int i = 0; i < (int)F.shape(0); ++i) for (int k = 0; k < 3; ++k) fp[i][k] = F.at(i, k);
#ifdef SYMMETRIX_KOKKOS
        if (kk) {
            ak().sync(Host, F_MASK); Kokkos::fence();
            for (int i = 0; i < (int)F.shape(0); ++i) for (int k = 0; k < 3; ++k) ak().k_f.h_view(i, k) = F.at(i, k);
            ak().modified(Host, F_MASK);
        }
#endif
    }
    void set_list(std::vector<int> il, std::vector<std::vector<int>> nb, int inum, int width)
    {
        list->inum = inum; list->gnum = (int)il.size() - inum;
        const int rowsn = (int)nb.size();
        ilist.reset(new int[il.size()]); std::copy(il.begin(), il.end(), ilist.get());
        numneigh.reset(new int[rowsn]); first.reset(new int*[rowsn]); rows.clear();
        for (int i = 0; i < rowsn; ++i) {
            numneigh[i] = nb[i].size();
            rows.emplace_back(new int[nb[i].size()]); std::copy(nb[i].begin(), nb[i].end(), rows.back().get());
            first[i] = rows.back().get();
        }
        list->ilist = ilist.get(); list->numneigh = numneigh.get(); list->firstneigh = first.get();
#ifdef SYMMETRIX_KOKKOS
        if (kk) {
            Kokkos::fence();
            auto& l = *static_cast<NeighListKokkos<LMPDeviceType>*>(list.get());
            l.d_ilist = Kokkos::View<int*>("neigh:ilist", il.size()); l.d_numneigh = Kokkos::View<int*>("neigh:numneigh", rowsn); l.d_neighbors = Kokkos::View<int**>("neigh:neighbors", rowsn, width);
            auto a = Kokkos::create_mirror_view(l.d_ilist); auto b = Kokkos::create_mirror_view(l.d_numneigh); auto c = Kokkos::create_mirror_view(l.d_neighbors);
            for (size_t i = 0; i < il.size(); ++i) a(i) = il[i];
            for (int i = 0; i < rowsn; ++i) { b(i) = nb[i].size(); for (int j = 0; j < width; ++j) c(i, j) = j < (int)nb[i].size() ? nb[i][j] : -7777777; }
            Kokkos::deep_copy(l.d_ilist, a); Kokkos::deep_copy(l.d_numneigh, b); Kokkos::deep_copy(l.d_neighbors, c); Kokkos::fence();
            list->ilist = nullptr; list->numneigh = nullptr; list->firstneigh = nullptr;     // a device list has no host side
        }
#endif
        pair->list = list.get();
    }
    py::array_t<double> forces()
    {
        const int n = atom->nlocal + atom->nghost;
        py::array_t<double> out({n, 3});
        auto o = out.mutable_unchecked<2>();
#ifdef SYMMETRIX_KOKKOS
        if (kk) { ak().sync(Host, F_MASK); Kokkos::fence(); for (int i = 0; i < n; ++i) for (int k = 0; k < 3; ++k) o(i, k) = ak().k_f.h_view(i, k); return out; }
#endif
        for (int i = 0; i < n; ++i) for (int k = 0; k < 3; ++k) o(i, k) = fp[i][k];
        return out;
    }
    std::vector<double> eatom(int n)
    {
        std::vector<double> e;
#ifdef SYMMETRIX_KOKKOS
        if (kk) Kokkos::fence();
#endif
        if (!pair->eatom) return e;
        for (int i = 0; i < n; ++i) e.push_back(pair->eatom[i]);
        return e;
    }
    void call(const std::vector<std::string>& a, const std::function<void(int, char**)>& f)
    {
        std::vector<std::vector<char>> s; std::vector<char*> p;
        for (auto& x : a) { s.emplace_back(x.begin(), x.end()); s.back().push_back(0); }
        for (auto& x : s) p.push_back(x.data());
        auto q = std::make_unique<char*[]>(p.size()); std::copy(p.begin(), p.end(), q.get());   // exact size: no argv[argc]
        f((int)a.size(), q.get());
    }
};

struct Host_ {
    VWorld world; std::vector<std::unique_ptr<Rank>> r; uint64_t seed = 0;
    Host_(const std::string& style, int nprocs) { for (int i = 0; i < nprocs; ++i) r.push_back(std::make_unique<Rank>(style, i, nprocs, &world)); }
    void each(const std::function<void(int)>& f) { py::gil_scoped_release g; world.run(r.size(), ++seed, f); }
};

PYBIND11_MODULE(vl, m)
{
    py::register_exception<LAMMPSException>(m, "LammpsError", PyExc_RuntimeError);
#ifdef SYMMETRIX_KOKKOS
    m.def("init", [] { if (!Kokkos::is_initialized()) Kokkos::initialize(); });
    m.def("stats", [] { return std::string(vkokkos_stats()); });
#endif
    py::class_<Host_>(m, "Host")
        .def(py::init<std::string, int>())
        .def_readwrite("seed", &Host_::seed)
        .def("environment", [](Host_& h, int ntypes, int map_user, int map_style, int newton, double skin, double cutghost, bool device) {
            for (auto& r : h.r) { r->atom->ntypes = ntypes; r->atom->map_user = map_user; r->atom->map_style = map_style; r->force.newton = r->force.newton_pair = newton;
                r->neighbor.skin = skin; r->comm.cutghostuser = cutghost; r->comm.device = device; } })
        .def("settings", [](Host_& h, std::vector<std::string> a) { h.each([&](int k) { h.r[k]->call(a, [&](int n, char** p) { h.r[k]->pair->settings(n, p); }); }); })
        .def("coeff", [](Host_& h, std::vector<std::string> a) { h.each([&](int k) { h.r[k]->call(a, [&](int n, char** p) { h.r[k]->pair->coeff(n, p); }); }); })
        .def("init", [](Host_& h) {     // as Force::init / Neighbor::init / Comm::setup do
            double cut = 0;
            h.each([&](int k) {
                auto& r = *h.r[k];
                r.neighbor.flags = 0; r.neighbor.requests = 0;
                // Pair::init: every pair of types must be set, then init_style, then init_one
                for (int i = 1; i <= r.atom->ntypes; ++i) if (!r.pair->allocated || r.pair->setflag[i][i] == 0) throw LAMMPSException("All pair coeffs are not set");
                r.pair->init_style();
                for (int i = 1; i <= r.atom->ntypes; ++i) for (int j = i; j <= r.atom->ntypes; ++j) {
                    double c = r.pair->init_one(i, j);
                    r.pair->cutsq[i][j] = r.pair->cutsq[j][i] = c * c;
                    r.neighbor.cutneighmax = std::max(r.neighbor.cutneighmax, c + r.neighbor.skin);
                    cut = std::max(cut, c);
                }
            });
            return cut; })
        .def("comm_cutoff", [](Host_& h) { std::vector<double> c; for (auto& r : h.r) c.push_back(r->comm.get_comm_cutoff()); return c; })
        .def("requests", [](Host_& h) { std::vector<std::pair<int, int>> c; for (auto& r : h.r) c.push_back({r->neighbor.requests, r->neighbor.flags}); return c; })
        .def("flags", [](Host_& h, int k) { auto& p = *h.r[k]->pair; return py::dict(py::arg("single_enable") = p.single_enable, py::arg("restartinfo") = p.restartinfo, py::arg("one_coeff") = p.one_coeff, py::arg("manybody_flag") = p.manybody_flag, py::arg("no_virial_fdotr_compute") = p.no_virial_fdotr_compute, py::arg("comm_forward") = p.comm_forward, py::arg("comm_reverse") = p.comm_reverse); })
        .def("set_atoms", [](Host_& h, int k, arr<double> x, arr<int> t, arr<int> g, int nl, int nmax, int mt) { h.r[k]->set_atoms(x, t, g, nl, nmax, mt); })
        .def("move", [](Host_& h, int k, arr<double> x) { h.r[k]->move(x); })
        .def("set_f", [](Host_& h, int k, arr<double> x) { h.r[k]->set_f(x); })
        .def("set_list", [](Host_& h, int k, std::vector<int> il, std::vector<std::vector<int>> nb, int inum, int width) { h.r[k]->set_list(il, nb, inum, width); })
        .def("set_swaps", [](Host_& h, int k, std::vector<std::tuple<int, int, std::vector<int>, int, int>> s) {
            h.r[k]->comm.swaps.clear();
            for (auto& [to, from, l, first, count] : s) h.r[k]->comm.swaps.push_back({to, from, l, first, count}); })
        .def("compute", [](Host_& h, int e, int v) { for (auto& r : h.r) r->comm.messages = 0; h.each([&](int k) { h.r[k]->pair->compute(e, v); }); })
        .def("forces", [](Host_& h, int k) { return h.r[k]->forces(); })
        .def("energy", [](Host_& h, int k) { return h.r[k]->pair->eng_vdwl; })
        .def("set_energy", [](Host_& h, int k, double e) { h.r[k]->pair->eng_vdwl = e; })
        .def("virial", [](Host_& h, int k) { return std::vector<double>(h.r[k]->pair->virial, h.r[k]->pair->virial + 6); })
        .def("set_virial", [](Host_& h, int k, double e) { for (int i = 0; i < 6; ++i) h.r[k]->pair->virial[i] = e; })
        .def("eatom", [](Host_& h, int k, int n) { return h.r[k]->eatom(n); })
        .def("poison_eatom", [](Host_& h, int k, double e) { auto& p = *h.r[k]->pair; if (!p.eatom) return 0; for (int i = 0; i < p.maxeatom; ++i) p.eatom[i] = e; return p.maxeatom; })
        .def("state", [](Host_& h, int k) { auto& r = *h.r[k]; const int n = r.atom->nlocal + r.atom->nghost; py::bytes x((char*)r.x.get(), 24 * n), t((char*)r.type.get(), 4 * n), g((char*)r.tag.get(), 4 * n);
            return py::make_tuple(x, t, g); })
        .def("log", [](Host_& h, int k) { return h.r[k]->lmp.log; })
        .def("traffic", [](Host_& h) { long n = 0, f = 0; for (auto& r : h.r) { n += r->comm.messages; f += r->comm.forwards + r->comm.reverses; } return py::make_tuple(n, f, h.world.switches, h.world.order); });
}

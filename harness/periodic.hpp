// Reference for translational symmetry
#pragma once
#include "shapes.hpp"
#include <memory>

namespace ref {

struct RSym {
    I3 period = {0, 0, 0};     ///< in unit cells, 0 if not periodic
    std::array<float, 3> arg = {{-1, -1, -1}};
    int count() const { return (period.array() > 0).count(); }
    cpb::TranslationalSymmetry build(Lat const&) const { return {arg[0], arg[1], arg[2]}; }
    void print(std::ostream& os) const {
        os << "TranslationalSymmetry(" << arg[0] << "," << arg[1] << "," << arg[2] << ") period " << period.transpose() << "\n";
    }
};

inline RSym gen_symmetry(Src& s, Lat const& lat, int max_period) {
    auto sym = RSym();
    for (auto k = 0; k < lat.ndim(); ++k) {
        if (k != 0 && !s.chance(2, 3)) { continue; }
        sym.period[k] = s.range(1, max_period);
        // the nearest number of cells counts
        auto const cells = s.chance(1, 3) ? sym.period[k] + s.sym(7) / 16.0 : sym.period[k] * (1 + s.sym(1) / 50.0);
        sym.arg[k] = float(cells * lat.vecs[k].norm());
        if (sym.period[k] == 1 && s.chance(1, 2)) { sym.arg[k] = 0; }
    }
    if (sym.count() == lat.ndim() && lat.ndim() > 1 && s.chance(1, 3)) { sym.period[0] = 0; sym.arg[0] = -1; }
    return sym;
}

struct PHop { std::string family; int i, j; I3 t; Mat energy; }; ///< site i translated by t periods to site j

struct Periodic {
    Sys sys;                 ///< sites of one period and the hoppings between them
    std::vector<PHop> hops;  ///< hoppings from another period into this one
};

/// Cut out the period which starts at cell `lo`
inline Periodic cut_period(Lat const& lat, RSym const& sym, Sys const& sys0, I3 const& lo) {
    auto p = Periodic();
    auto index = std::map<Key, int>();
    for (auto const& site : sys0.sites) {
        auto in = true;
        for (auto k = 0; k < 3; ++k) {
            in &= sym.period[k] == 0 || (site.cell[k] >= lo[k] && site.cell[k] < lo[k] + sym.period[k]);
        }
        if (in) { index[key(site.sub, site.cell)] = int(p.sys.sites.size()); p.sys.sites.push_back(site); }
    }
    connect(lat, p.sys);
    auto fdiv = [](int a, int b) { return a >= 0 ? a / b : -((-a + b - 1) / b); };
    for (auto const& f : lat.fams) {
        for (auto const& t : f.terms) {
            for (size_t i = 0; i < p.sys.sites.size(); ++i) {
                if (p.sys.sites[i].sub != t.from) { continue; }
                I3 c = p.sys.sites[i].cell + t.d;
                auto shift = I3(0, 0, 0); // of the end of the hopping
                for (auto k = 0; k < 3; ++k) {
                    if (sym.period[k] == 0) { continue; }
                    shift[k] = fdiv(c[k] - lo[k], sym.period[k]);
                    c[k] -= shift[k] * sym.period[k];
                }
                auto const it = index.find(key(t.to, c));
                if (it == index.end() || shift == I3(0, 0, 0)) { continue; }
                p.hops.push_back({f.name, int(i), it->second, I3(-shift), f.energy});
            }
        }
    }
    return p;
}

/// The first cell index of every possible period
inline void for_each_period(RSym const& sym, Sys const& sys0, std::function<bool(I3)> const& f) {
    auto lo = I3(1 << 20, 1 << 20, 1 << 20), hi = I3(-lo);
    for (auto const& s : sys0.sites) { lo = lo.cwiseMin(s.cell); hi = hi.cwiseMax(s.cell); }
    auto a = I3(0, 0, 0), b = I3(0, 0, 0);
    for (auto k = 0; k < 3; ++k) {
        if (sym.period[k] > 0) { a[k] = lo[k] - sym.period[k]; b[k] = hi[k] + 1; }
    }
    for (auto x = a[0]; x <= b[0]; ++x) {
        for (auto y = a[1]; y <= b[1]; ++y) {
            for (auto z = a[2]; z <= b[2]; ++z) { if (f(I3(x, y, z))) { return; } }
        }
    }
}

inline bool has_empty_period(Lat const& lat, RSym const& sym, Sys const& sys0) {
    auto empty = false;
    auto lo = I3(1 << 20, 1 << 20, 1 << 20), hi = I3(-lo);
    for (auto const& s : sys0.sites) { lo = lo.cwiseMin(s.cell); hi = hi.cwiseMax(s.cell); }
    for_each_period(sym, sys0, [&](I3 p) {
        for (auto k = 0; k < 3; ++k) { // periods which overlap the range of cells
            if (sym.period[k] > 0 && (p[k] > hi[k] || p[k] + sym.period[k] <= lo[k])) { return false; }
        }
        empty |= cut_period(lat, sym, sys0, p).sys.sites.empty();
        return empty;
    });
    // a shape which is not longer than the block's padding may miss the period altogether
    for (auto k = 0; k < 3; ++k) { empty |= sym.period[k] > 0 && hi[k] - lo[k] + 1 < sym.period[k] + 2; }
    return empty;
}

/// Find which period was chosen
inline Periodic find_period(Lat const& lat, RSym const& sym, Sys const& sys0, cpb::System const& sys) {
    // cells of the actual sites
    auto result = Periodic();
    auto found = false;
    auto const names = family_names(sys);
    auto actual = std::set<Key>();
    for (auto i = 0; i < sys.num_sites(); ++i) {
        auto ok = false;
        for (auto const& s : sys0.sites) {
            if ((s.pos - to_d(sys.positions[i])).cwiseAbs().maxCoeff() < 2e-3 && s.family == names[size_t(i)]) {
                ok = true;
                PBT_CHECK(actual.insert(key(s.sub, s.cell)).second, "duplicate site at (", s.pos.transpose(), ")");
                break;
            }
        }
        PBT_CHECK(ok, "site ", i, " at (", sys.positions[i].transpose(), ") is not a site of the block");
    }
    for_each_period(sym, sys0, [&](I3 lo) {
        auto p = cut_period(lat, sym, sys0, lo);
        if (p.sys.sites.size() != actual.size()) { return false; }
        for (auto const& s : p.sys.sites) { if (!actual.count(key(s.sub, s.cell))) { return false; } }
        result = p;
        found = true;
        return true;
    });
    PBT_CHECK(found, "the ", actual.size(), " sites are not those of one period");
    return result;
}

inline Mat bloch(Lat const& lat, RSym const& sym, Periodic const& p, V3 const& k) {
    auto h = dense(p.sys);
    auto const off = p.sys.offsets();
    for (auto const& b : p.hops) {
        V3 r = V3::Zero();
        for (auto n = 0; n < lat.ndim(); ++n) { r += double(b.t[n] * sym.period[n]) * lat.vecs[n]; }
        Mat const t = b.energy * std::exp(cplx(0, k.dot(r)));
        h.block(off[b.i], off[b.j], t.rows(), t.cols()) += t;
        h.block(off[b.j], off[b.i], t.cols(), t.rows()) += t.adjoint();
    }
    return h;
}

} // namespace ref

// Reference model: a deliberately naive, double precision re-implementation of what a lattice,
// a system and a Hamiltonian *are*. Shares no code with /repo apart from the final comparison.
#pragma once
#include "pbt.hpp"
#include "Model.hpp"

#include <algorithm>
#include <array>
#include <map>
#include <set>

namespace ref {

using pbt::Ctx;
using pbt::Src;
using V3 = Eigen::Vector3d;
using I3 = Eigen::Vector3i;
using Mat = Eigen::MatrixXcd;
using cplx = std::complex<double>;

inline cpb::Cartesian to_f(V3 const& v) { return v.cast<float>(); }
inline V3 to_d(cpb::Cartesian const& v) { return v.cast<double>(); }

inline double det3(Eigen::Matrix3d const& m) {
    return m(0, 0) * (m(1, 1) * m(2, 2) - m(1, 2) * m(2, 1))
         - m(0, 1) * (m(1, 0) * m(2, 2) - m(1, 2) * m(2, 0))
         + m(0, 2) * (m(1, 0) * m(2, 1) - m(1, 1) * m(2, 0));
}

struct Sub {
    std::string name;
    V3 pos = {0, 0, 0};
    Mat energy;        ///< as given by the user (Hermitian or upper triangular)
    int alias_of = -1; ///< index of another sublattice
    int norb() const { return int(energy.rows()); }
};

struct Term { I3 d; int from, to; };
struct Fam { std::string name; Mat energy; std::vector<Term> terms; };

/// Hermitian completion of a matrix which is either Hermitian or upper triangular
inline Mat hermitian(Mat const& m) {
    auto r = m;
    for (auto i = 0; i < m.rows(); ++i) {
        for (auto j = 0; j < i; ++j) { r(i, j) = std::conj(m(j, i)); }
        r(i, i) = m(i, i).real();
    }
    return r;
}

struct Lat {
    std::vector<V3> vecs;
    std::vector<Sub> subs;
    std::vector<Fam> fams;
    V3 offset = {0, 0, 0};
    int min_neighbors = 1;

    int ndim() const { return int(vecs.size()); }
    int root(int s) const { return subs[s].alias_of < 0 ? s : root(subs[s].alias_of); }
    Mat onsite(int s) const { return hermitian(subs[root(s)].energy); }
    int norb(int s) const { return subs[root(s)].norb(); }

    V3 translation(I3 const& n) const {
        V3 r = V3::Zero();
        for (auto i = 0; i < ndim(); ++i) { r += double(n[i]) * vecs[i]; }
        return r;
    }
    V3 site_pos(int s, I3 const& n) const { return offset + translation(n) + subs[s].pos; }

    /// Lattice coordinates of a position (Cramer's rule in the first ndim components)
    V3 coords(V3 const& p) const {
        Eigen::Matrix3d m = Eigen::Matrix3d::Identity();
        for (auto i = 0; i < ndim(); ++i) {
            m.col(i).setZero();
            for (auto k = 0; k < ndim(); ++k) { m(k, i) = vecs[i][k]; }
        }
        V3 rhs = V3::Zero();
        for (auto k = 0; k < ndim(); ++k) { rhs[k] = p[k]; }
        auto const det = det3(m);
        V3 r = V3::Zero();
        for (auto i = 0; i < ndim(); ++i) {
            auto mi = m;
            mi.col(i) = rhs;
            r[i] = det3(mi) / det;
        }
        return r;
    }

    bool any_complex() const {
        for (auto const& s : subs) { if (!s.energy.imag().isZero(0)) { return true; } }
        for (auto const& f : fams) { if (!f.energy.imag().isZero(0)) { return true; } }
        return false;
    }
    bool multiorbital() const {
        for (auto s = 0; s < int(subs.size()); ++s) { if (norb(s) != 1) { return true; } }
        return false;
    }

    cpb::Lattice build() const {
        auto const zero = V3(0, 0, 0);
        auto l = cpb::Lattice(to_f(vecs[0]), to_f(ndim() > 1 ? vecs[1] : zero),
                              to_f(ndim() > 2 ? vecs[2] : zero));
        for (auto const& s : subs) {
            if (s.alias_of < 0) { l.add_sublattice(s.name, to_f(s.pos), s.energy); }
            else { l.add_alias(s.name, subs[s.alias_of].name, to_f(s.pos)); }
        }
        for (auto const& f : fams) {
            l.register_hopping_energy(f.name, f.energy);
        }
        for (auto const& f : fams) {
            for (auto const& t : f.terms) {
                l.add_hopping(t.d, subs[t.from].name, subs[t.to].name, f.name);
            }
        }
        if (offset != V3(0, 0, 0)) { l.set_offset(to_f(offset)); }
        l.set_min_neighbors(min_neighbors);
        return l;
    }

    void print(std::ostream& os) const {
        os << "Lattice";
        for (auto const& v : vecs) { os << " (" << v.transpose() << ")"; }
        os << " offset (" << offset.transpose() << ") min_neighbors " << min_neighbors << "\n";
        auto mat = [&](Mat const& m) {
            os << "[";
            for (auto i = 0; i < m.rows(); ++i) {
                for (auto j = 0; j < m.cols(); ++j) {
                    os << (j ? "," : (i ? ";" : "")) << m(i, j).real();
                    if (m(i, j).imag() != 0) { os << (m(i, j).imag() > 0 ? "+" : "") << m(i, j).imag() << "i"; }
                }
            }
            os << "]";
        };
        for (auto const& s : subs) {
            os << " sub " << s.name << " at (" << s.pos.transpose() << ") ";
            if (s.alias_of >= 0) { os << "alias of " << subs[s.alias_of].name; } else { mat(s.energy); }
            os << "\n";
        }
        for (auto const& f : fams) {
            os << " hop " << f.name << " "; mat(f.energy);
            for (auto const& t : f.terms) {
                os << "  " << subs[t.from].name << "->" << subs[t.to].name << " (" << t.d.transpose() << ")";
            }
            os << "\n";
        }
    }
};

struct LatOptions {
    int min_dim = 1, max_dim = 3;
    int max_subs = 4;
    int many_subs = 0;      ///< sometimes have up to this many sublattices
    int max_orb = 3;
    int max_fams = 4;
    int max_terms = 4;      ///< per family
    int max_range = 1;      ///< of relative indices (mostly), see long_range
    bool long_range = true; ///< sometimes reach one cell further than max_range
    bool complex = true;
    bool aliases = true;
    bool wide_positions = false; ///< sublattice positions may lie outside of the unit cell
    bool planar = false;    ///< no z component for 1D and 2D
};

inline double quarter(Src& s, int max) { return s.frac(max, 4); }

inline Mat gen_onsite(Src& s, int norb, bool complex) {
    Mat m = Mat::Zero(norb, norb);
    if (s.chance(1, 5)) { return m; }
    for (auto i = 0; i < norb; ++i) {
        m(i, i) = quarter(s, 2);
        for (auto j = i + 1; j < norb; ++j) {
            m(i, j) = cplx(quarter(s, 1), complex ? quarter(s, 1) : 0);
        }
    }
    return s.chance(1, 2) ? hermitian(m) : m; // or left upper triangular
}

inline Mat gen_hopping(Src& s, int rows, int cols, bool complex) {
    Mat m(rows, cols);
    for (auto i = 0; i < rows; ++i) {
        for (auto j = 0; j < cols; ++j) {
            m(i, j) = cplx(quarter(s, 2), complex ? quarter(s, 2) : 0);
        }
    }
    if (m.isZero(0)) { m(0, 0) = 1; }
    return m;
}

inline std::vector<V3> gen_vectors(Src& s, int ndim) {
    auto vecs = std::vector<V3>();
    for (auto i = 0; i < ndim; ++i) {
        V3 v = V3::Zero();
        for (auto k = 0; k < ndim; ++k) {
            v[k] = (k == i) ? 0.75 + 0.25 * s.range(0, 5) : (s.chance(1, 2) ? 0.25 * s.sym(2) : 0);
        }
        vecs.push_back(v);
    }
    // keep it well conditioned: |det| must not be small
    Eigen::Matrix3d m = Eigen::Matrix3d::Identity();
    for (auto i = 0; i < ndim; ++i) { for (auto k = 0; k < ndim; ++k) { m(k, i) = vecs[i][k]; } }
    if (std::abs(det3(m)) < 0.25) {
        for (auto i = 0; i < ndim; ++i) { auto const d = vecs[i][i]; vecs[i].setZero(); vecs[i][i] = d; }
    }
    if (s.chance(1, 5)) { // left-handed or inverted
        vecs[0] = -vecs[0];
    }
    return vecs;
}

inline Lat gen_lattice(Src& s, LatOptions const& o = {}) {
    auto lat = Lat();
    auto const ndim = s.range(o.min_dim, o.max_dim);
    lat.vecs = gen_vectors(s, ndim);
    auto const complex = o.complex && s.chance(1, 2);

    auto const nsub = (o.many_subs && s.chance(1, 40)) ? s.range(o.max_subs, o.many_subs)
                                                       : s.range(1, o.max_subs);
    auto used = std::set<std::array<int, 3>>();
    auto const letters = std::string("ABCDEFHIJKLMNOPQRSTUVWXYZabcdefhij"); // without g: see generators
    auto const first_letter = s.chance(1, 2) ? s.range(0, int(letters.size()) - 1) : 0;
    auto const fresh_name = [&](int i, std::string const& previous) {
        if (i > 0 && s.chance(1, 10)) { return previous + "'"; } // one name starts with another
        auto name = std::string(1, letters[(first_letter + i) % letters.size()]);
        return s.chance(1, 4) ? name + std::to_string(s.range(0, 999)) : name;
    };
    for (auto i = 0; i < nsub; ++i) {
        auto sub = Sub();
        sub.name = fresh_name(i, i > 0 ? lat.subs.back().name : "");
        // distinct fractional coordinates (modulo 1) on a coarse grid -- no two sites coincide
        auto f = std::array<int, 3>{{0, 0, 0}};
        for (auto k = 0; k < 3; ++k) {
            if (k < ndim) { f[k] = s.range(0, 7); }
            else if (!o.planar && s.chance(1, 4)) { f[k] = s.range(0, 3); }
        }
        while (used.count(f)) { // next free grid point
            for (auto k = 0; k < 3; ++k) {
                auto const n = k < ndim ? 8 : (nsub > 7 ? 4 : 1);
                if (n > 1) { f[k] = (f[k] + 1) % n; if (f[k] != 0) { break; } }
            }
        }
        used.insert(f);
        for (auto k = 0; k < 3; ++k) {
            auto c = f[k] / 8.0;
            if (k < ndim) {
                if (s.chance(1, 2) && c > 0) { c -= 1; } // (-1, 1)
                if (o.wide_positions && s.chance(1, 4)) { c += s.sym(2); }
                sub.pos += c * lat.vecs[k];
            } else {
                sub.pos[k] += c;
            }
        }
        if (i > 0 && o.aliases && s.chance(1, 4)) {
            sub.alias_of = s.range(0, i - 1);
            sub.energy = lat.subs[lat.root(sub.alias_of)].energy;
        } else {
            auto const norb = s.chance(1, 2) ? 1 : s.range(1, o.max_orb);
            sub.energy = gen_onsite(s, norb, complex);
        }
        lat.subs.push_back(sub);
    }

    auto seen = std::set<std::array<int, 5>>();
    auto const nfam = s.range(0, o.max_fams);
    for (auto i = 0; i < nfam; ++i) {
        auto fam = Fam();
        fam.name = s.chance(1, 4) ? fresh_name(i, i > 0 ? lat.fams.back().name : "") : "t" + std::to_string(i);
        auto const a = s.range(0, nsub - 1), b = s.range(0, nsub - 1);
        fam.energy = gen_hopping(s, lat.norb(a), lat.norb(b), complex);
        auto const nterms = s.range(0, o.max_terms);
        for (auto n = 0; n < nterms; ++n) {
            auto t = Term{I3::Zero(), a, b};
            if (n > 0 && s.chance(1, 3)) { // any other pair of the same shape
                auto const c = s.range(0, nsub - 1), d = s.range(0, nsub - 1);
                if (lat.norb(c) == lat.norb(a) && lat.norb(d) == lat.norb(b)) { t.from = c; t.to = d; }
            }
            for (auto k = 0; k < ndim; ++k) {
                auto const r = o.max_range + ((o.long_range && s.chance(1, 12)) ? 1 : 0);
                t.d[k] = s.sym(r);
            }
            auto key = std::array<int, 5>{{t.d[0], t.d[1], t.d[2], t.from, t.to}};
            auto conj = std::array<int, 5>{{-t.d[0], -t.d[1], -t.d[2], t.to, t.from}};
            if (key == conj || seen.count(key) || seen.count(conj)) { continue; }
            seen.insert(key);
            fam.terms.push_back(t);
        }
        lat.fams.push_back(fam);
    }
    return lat;
}

inline bool zero_hopping(Lat const& lat) {
    for (auto const& f : lat.fams) { if (!f.terms.empty()) { return false; } }
    return true;
}

// ------------------------------------------------------------------------------------------

struct Site {
    int sub = 0;          ///< index into the lattice's sublattices, or -1 for generated sites
    I3 cell = {0, 0, 0};
    V3 pos = {0, 0, 0};
    std::string family;   ///< name of the (unaliased) site family
    Mat onsite;           ///< Hermitian
    int norb() const { return int(onsite.rows()); }
};

struct Hop {
    std::string family;
    int i, j;             ///< block (i, j) of the Hamiltonian is `energy`
    Mat energy;
    bool unordered = false;
};

using Key = std::array<int, 4>; // sub, cell
inline Key key(int sub, I3 const& c) { return {{sub, c[0], c[1], c[2]}}; }

struct Sys {
    std::vector<Site> sites;
    std::vector<Hop> hops;

    int ham_size() const { auto n = 0; for (auto const& s : sites) { n += s.norb(); } return n; }
    std::vector<int> offsets() const {
        auto r = std::vector<int>(); auto n = 0;
        for (auto const& s : sites) { r.push_back(n); n += s.norb(); }
        return r;
    }
    double min_distance() const {
        auto d = 1e9;
        for (size_t i = 0; i < sites.size(); ++i) {
            for (size_t j = 0; j < i; ++j) { d = std::min(d, (sites[i].pos - sites[j].pos).norm()); }
        }
        return d;
    }

    /// Remove sites and renumber hoppings
    void filter(std::vector<char> const& keep) {
        auto map = std::vector<int>(sites.size(), -1);
        auto s2 = std::vector<Site>();
        for (size_t i = 0; i < sites.size(); ++i) {
            if (keep[i]) { map[i] = int(s2.size()); s2.push_back(sites[i]); }
        }
        auto h2 = std::vector<Hop>();
        for (auto h : hops) {
            if (map[h.i] < 0 || map[h.j] < 0) { continue; }
            h.i = map[h.i]; h.j = map[h.j];
            h2.push_back(h);
        }
        sites = s2; hops = h2;
    }
};

inline Site make_site(Lat const& lat, int sub, I3 const& cell) {
    auto s = Site();
    s.sub = sub; s.cell = cell;
    s.pos = lat.site_pos(sub, cell);
    s.family = lat.subs[lat.root(sub)].name;
    s.onsite = lat.onsite(sub);
    return s;
}

/// Connect the sites with all lattice hoppings
inline void connect(Lat const& lat, Sys& sys) {
    auto index = std::map<Key, int>();
    for (size_t i = 0; i < sys.sites.size(); ++i) { index[key(sys.sites[i].sub, sys.sites[i].cell)] = int(i); }
    sys.hops.clear();
    for (auto const& f : lat.fams) {
        for (auto const& t : f.terms) {
            for (size_t i = 0; i < sys.sites.size(); ++i) {
                if (sys.sites[i].sub != t.from) { continue; }
                auto const it = index.find(key(t.to, sys.sites[i].cell + t.d));
                if (it != index.end()) { sys.hops.push_back({f.name, int(i), it->second, f.energy}); }
            }
        }
    }
}

inline Sys make_block(Lat const& lat, I3 const& lo, I3 const& hi) {
    auto sys = Sys();
    for (auto s = 0; s < int(lat.subs.size()); ++s) {
        for (auto c = lo[2]; c <= hi[2]; ++c) {
            for (auto b = lo[1]; b <= hi[1]; ++b) {
                for (auto a = lo[0]; a <= hi[0]; ++a) { sys.sites.push_back(make_site(lat, s, {a, b, c})); }
            }
        }
    }
    connect(lat, sys);
    return sys;
}

/// Dense Hamiltonian in the order of `sys.sites`
inline Mat dense(Sys const& sys) {
    auto const n = sys.ham_size();
    auto const off = sys.offsets();
    Mat h = Mat::Zero(n, n);
    for (size_t i = 0; i < sys.sites.size(); ++i) {
        auto const& e = sys.sites[i].onsite;
        h.block(off[i], off[i], e.rows(), e.cols()) += e;
    }
    for (auto const& t : sys.hops) {
        h.block(off[t.i], off[t.j], t.energy.rows(), t.energy.cols()) += t.energy;
        h.block(off[t.j], off[t.i], t.energy.cols(), t.energy.rows()) += t.energy.adjoint();
    }
    return h;
}

// ------------------------------------------------------------------------------------------
// Comparison with the real thing

/// Site family names in site order
inline std::vector<std::string> family_names(cpb::System const& sys) {
    auto r = std::vector<std::string>();
    for (auto const& sub : sys.compressed_sublattices) {
        for (auto i = 0; i < sub.num_sites(); ++i) { r.push_back(sys.site_registry.name(sub.id())); }
    }
    return r;
}

/// Match sites by position and family: returns map[real index] = reference index
inline std::vector<int> match_sites(cpb::System const& sys, Sys const& expected, double tol = 2e-3) {
    auto const n = int(sys.num_sites());
    PBT_CHECK(sys.positions.y.size() == n && sys.positions.z.size() == n, "ragged position arrays");
    auto const names = family_names(sys);
    PBT_CHECK(int(names.size()) == n, "sublattice data lists ", names.size(), " sites, positions ", n);
    PBT_CHECK(n == int(expected.sites.size()), "system has ", n, " sites, expected ", expected.sites.size());
    auto map = std::vector<int>(n, -1);
    auto taken = std::vector<char>(expected.sites.size(), 0);
    for (auto i = 0; i < n; ++i) {
        V3 const p = to_d(sys.positions[i]);
        for (size_t k = 0; k < expected.sites.size(); ++k) {
            if (taken[k] || expected.sites[k].family != names[i]) { continue; }
            if ((expected.sites[k].pos - p).cwiseAbs().maxCoeff() < tol) { map[i] = int(k); break; }
        }
        PBT_CHECK(map[i] >= 0, "unexpected site ", i, " of family ", names[i], " at (", p.transpose(), ")");
        taken[map[i]] = 1;
    }
    return map;
}

using HopKey = std::tuple<std::string, int, int>;

inline std::string show(std::map<HopKey, int> const& a, std::map<HopKey, int> const& b) {
    auto ss = std::ostringstream();
    for (auto const& p : a) {
        auto const it = b.find(p.first);
        if (it == b.end() || it->second != p.second) {
            ss << " " << std::get<0>(p.first) << ":" << std::get<1>(p.first) << "->" << std::get<2>(p.first)
               << " x" << p.second << " vs x" << (it == b.end() ? 0 : it->second);
        }
    }
    return ss.str();
}

/// Hopping lists must be equal as multisets (site numbers in reference numbering)
inline void check_hoppings(cpb::HoppingBlocks const& blocks, cpb::HoppingRegistry const& registry,
                           std::vector<int> const& map, std::vector<Hop> const& expected) {
    auto generated = std::set<std::string>();
    auto want = std::map<HopKey, int>(), have = std::map<HopKey, int>();
    for (auto const& h : expected) {
        if (h.unordered) {
            generated.insert(h.family);
            ++want[HopKey(h.family, std::min(h.i, h.j), std::max(h.i, h.j))];
        } else {
            ++want[HopKey(h.family, h.i, h.j)];
        }
    }
    for (auto const& block : blocks) {
        auto const name = registry.name(block.family_id());
        for (auto const& coo : block.coordinates()) {
            PBT_CHECK(coo.row >= 0 && coo.row < int(map.size()) && coo.col >= 0 && coo.col < int(map.size()),
                      "hopping ", name, " refers to nonexistent site ", coo.row, "->", coo.col);
            auto const i = map[coo.row], j = map[coo.col];
            if (generated.count(name)) { ++have[HopKey(name, std::min(i, j), std::max(i, j))]; }
            else { ++have[HopKey(name, i, j)]; }
        }
    }
    PBT_CHECK(want == have, "hoppings differ; missing or different:", show(want, have), "; unexpected:", show(have, want));
}

struct Scalar { bool is_double = false, is_complex = false; };

struct ToDense {
    Mat& out; Scalar& s;
    template<class scalar_t>
    void operator()(cpb::SparseMatrixRC<scalar_t> const& p) const {
        PBT_CHECK(p != nullptr, "no Hamiltonian");
        s.is_double = std::is_same<scalar_t, double>::value || std::is_same<scalar_t, std::complex<double>>::value;
        s.is_complex = std::is_same<scalar_t, std::complex<float>>::value || std::is_same<scalar_t, std::complex<double>>::value;
        auto const& m = *p;
        PBT_CHECK(m.isCompressed(), "the matrix is not compressed");
        out = Mat::Zero(m.rows(), m.cols());
        auto seen = std::vector<char>(size_t(m.cols()), 0);
        for (auto r = 0; r < m.rows(); ++r) {
            auto const b = m.outerIndexPtr()[r], e = m.outerIndexPtr()[r + 1];
            PBT_CHECK(b <= e, "bad row pointers");
            for (auto k = b; k < e; ++k) {
                auto const c = m.innerIndexPtr()[k];
                PBT_CHECK(c >= 0 && c < m.cols(), "column index out of range");
                PBT_CHECK(!seen[size_t(c)], "element (", r, ",", c, ") is stored twice");
                seen[size_t(c)] = 1;
                out(r, c) = cplx(m.valuePtr()[k]);
            }
            for (auto k = b; k < e; ++k) { seen[size_t(m.innerIndexPtr()[k])] = 0; }
        }
    }
};

inline Mat to_dense(cpb::Hamiltonian const& h, Scalar& s) {
    auto m = Mat();
    cpb::var::apply_visitor(ToDense{m, s}, h.get_variant());
    return m;
}

/// Reorder a real (system ordered) matrix to the reference order
inline Mat reorder(Mat const& m, cpb::System const& sys, std::vector<int> const& map, Sys const& expected) {
    auto const off = expected.offsets();
    auto const n = expected.ham_size();
    PBT_CHECK(m.rows() == n && m.cols() == n, "matrix is ", m.rows(), "x", m.cols(), ", expected size ", n);
    PBT_CHECK(sys.hamiltonian_size() == n, "hamiltonian_size ", sys.hamiltonian_size(), " expected ", n);
    auto perm = std::vector<int>(size_t(n), -1);
    for (auto i = 0; i < int(map.size()); ++i) {
        auto const idx = sys.to_hamiltonian_indices(i);
        PBT_CHECK(idx.size() == expected.sites[map[i]].norb(), "site ", i, " has ", idx.size(), " orbitals");
        for (auto k = 0; k < idx.size(); ++k) {
            PBT_CHECK(idx[k] >= 0 && idx[k] < n && perm[size_t(idx[k])] < 0, "Hamiltonian index ", idx[k], " repeated or out of range");
            perm[size_t(idx[k])] = off[map[i]] + k;
        }
    }
    Mat r(n, n);
    for (auto i = 0; i < n; ++i) { for (auto j = 0; j < n; ++j) { r(perm[i], perm[j]) = m(i, j); } }
    return r;
}

inline void check_equal(Mat const& actual, Mat const& expected, double tol, char const* what) {
    PBT_CHECK(actual.rows() == expected.rows() && actual.cols() == expected.cols(), what, ": size ",
              actual.rows(), "x", actual.cols(), " expected ", expected.rows(), "x", expected.cols());
    for (auto i = 0; i < actual.rows(); ++i) {
        for (auto j = 0; j < actual.cols(); ++j) {
            auto const a = actual(i, j), e = expected(i, j);
            PBT_CHECK(std::abs(a - e) <= tol, what, "(", i, ",", j, ") is ", a, " expected ", e);
        }
    }
}

/// System and Hamiltonian against the reference
inline std::vector<int> check_system(cpb::System const& sys, Sys const& expected) {
    auto const map = match_sites(sys, expected);
    PBT_CHECK(sys.hopping_blocks.get_num_sites() == sys.num_sites(), "the hoppings are meant for ", sys.hopping_blocks.get_num_sites(), " sites");
    for (auto const& b : sys.boundaries) {
        PBT_CHECK(b.hopping_blocks.get_num_sites() == sys.num_sites(), "the boundary hoppings are meant for ", b.hopping_blocks.get_num_sites(), " sites");
    }
    check_hoppings(sys.hopping_blocks, sys.hopping_registry, map, expected.hops);
    return map;
}

inline bool throws(std::function<void()> const& f) {
    try { f(); }
    catch (pbt::Failure const&) { throw; }
    catch (pbt_eigen::AssertError const&) { throw; } // not a deliberate rejection
    catch (std::exception const&) { return true; }
    return false;
}

} // namespace ref

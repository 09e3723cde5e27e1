// A "program" is a lattice, a block or shape, and a sequence of structure and energy modifiers.
// Real callbacks record what they are given; `Program::replay` steps a naive model through the
// same sequence and compares every recorded call.
#pragma once
#include "periodic.hpp"
#include "shapes.hpp"

namespace ref {

struct Step {
    enum Kind { state, position, site_gen, hop_gen } kind = state;
    std::string only;              ///< act on this sublattice only (empty: on all)
    V3 normal = {1, 0, 0};         ///< state: half-space
    double off_above = 1e9;        ///< switch off where normal . pos > off_above
    double on_below = -1e9;        ///< switch on where normal . pos < on_below
    int min_neighbors = 0;
    V3 move = {0, 0, 0};           ///< position: pos += move + stretch * pos
    Eigen::Matrix3d stretch = Eigen::Matrix3d::Zero();
    std::string name;              ///< generators
    Mat energy;
    std::vector<V3> new_positions;
    std::uint64_t seed = 0;        ///< hop_gen: which pairs
    int percent = 0;
    enum Bad { good, negative, too_large, misfit, unequal } bad = good;

    bool generator() const { return kind >= site_gen; }
    int flip(double x, double limit) const { // -1: too close to tell
        if (std::abs(x - limit) < 1e-3) { return -1; }
        return x > limit;
    }
    /// New state of a site or -1 if too close to tell
    int new_state(V3 const& pos, std::string const& sub, bool old) const {
        if (!only.empty() && only != sub) { return old; }
        auto const x = normal.dot(pos);
        auto const off = flip(x, off_above), on = flip(-x, -on_below);
        if (off < 0 || on < 0) { return -1; }
        return off ? 0 : on ? 1 : old;
    }
    V3 new_pos(V3 const& pos, std::string const& sub) const {
        if (!only.empty() && only != sub) { return pos; }
        return pos + move + stretch * pos;
    }
    void print(std::ostream& os) const {
        switch (kind) {
            case state: os << " state modifier"; if (!only.empty()) { os << " on " << only; }
                os << " normal (" << normal.transpose() << ") off above " << off_above << " on below " << on_below
                   << " min_neighbors " << min_neighbors; break;
            case position: os << " position modifier"; if (!only.empty()) { os << " on " << only; }
                os << " move (" << move.transpose() << ") stretch " << stretch.row(0) << "; " << stretch.row(1) << "; " << stretch.row(2); break;
            case site_gen: os << " site generator " << name << " energy [" << energy << "] at";
                for (auto const& p : new_positions) { os << " (" << p.transpose() << ")"; } break;
            case hop_gen: os << " hopping generator " << name << " energy [" << energy << "] " << percent << "% of pairs, bad=" << int(bad); break;
        }
        os << "\n";
    }
};

struct EnergyMod {
    bool onsite = true;
    std::string only;
    double a = 1, b = 0, d = 0, q = 0; ///< scale, shift, orbital dependence, imaginary part
    V3 g = {0, 0, 0}, h = {0, 0, 0};   ///< gradients
    bool is_complex = false, is_double = false;
    double bad_above = 1e9;            ///< NaN or infinite where x > bad_above
    double bad_value = 0;

    bool wants_complex() const { return q != 0; }

    template<class T>
    T onsite_value(T e, int i, int j, V3 const& pos) const {
        using R = typename Eigen::NumTraits<T>::Real;
        auto r = T(R(a)) * e;
        if (i == j) { r += T(R(b + g.dot(pos))); }
        else { r += T(R(d * (i + j))); }
        if (wants_complex() && i != j) { r += imag<T>(i < j ? q : -q); }
        if (pos[0] > bad_above && i == j) { r = T(R(bad_value)); }
        return r;
    }
    template<class T>
    T hopping_value(T t, int i, int j, V3 const& p1, V3 const& p2) const {
        using R = typename Eigen::NumTraits<T>::Real;
        auto r = T(R(a * (1 + g.dot(p2 - p1)))) * t + T(R(b + h.dot(p1 + p2) + d * (2 * i - j)));
        if (wants_complex()) { r += imag<T>(q * (1 + i)); }
        if (p1[0] > bad_above) { r = T(R(bad_value)); }
        return r;
    }
    template<class T> static typename std::enable_if<Eigen::NumTraits<T>::IsComplex, T>::type imag(double x) {
        return T(0, typename Eigen::NumTraits<T>::Real(x));
    }
    template<class T> static typename std::enable_if<!Eigen::NumTraits<T>::IsComplex, T>::type imag(double) {
        throw cpb::ComplexOverride();
    }
    void print(std::ostream& os) const {
        os << (onsite ? " onsite modifier" : " hopping modifier");
        if (!only.empty()) { os << " on " << only; }
        os << " a " << a << " b " << b << " d " << d << " q " << q << " g (" << g.transpose() << ") h (" << h.transpose() << ")"
           << (is_complex ? " complex" : "") << (is_double ? " double" : "");
        if (bad_above < 1e8) { os << " x > " << bad_above << " becomes " << bad_value; }
        os << "\n";
    }
};

struct Program {
    Lat lat;                    ///< with its own offset (the shape may add another one)
    bool shaped = false;
    RShape shape;
    double reach = 0;
    I3 size = {1, 1, 1};
    RSym sym;
    std::vector<Step> steps;
    std::vector<EnergyMod> mods;

    struct Call {
        int step;
        std::string name;
        std::vector<V3> pos;
        std::vector<char> state;
    };
    struct End { std::string family; V3 pos; };
    struct EnergyCall {
        int mod;
        std::string name;
        int rows, cols, num;
        bool is_double, is_complex;
        std::vector<V3> pos1, pos2;
    };
    struct Log {
        std::vector<Call> calls;
        std::map<int, std::vector<std::pair<End, End>>> pairs;
        std::vector<EnergyCall> energy_calls;
        std::shared_ptr<cpb::System> before; ///< the system given to the first generator
    };
    std::shared_ptr<Log> log = std::make_shared<Log>();
    /// Called after the modifiers of the site block: (block, valid flags, lower and upper cell)
    std::function<void(Sys&, std::vector<char>&, I3, I3)> attach;

    int first_generator() const {
        for (size_t i = 0; i < steps.size(); ++i) { if (steps[i].generator()) { return int(i); } }
        return int(steps.size());
    }

    void print(std::ostream& os) const {
        lat.print(os);
        if (shaped) { shape.print(os); } else { os << "Primitive " << size.transpose() << "\n"; }
        if (sym.count()) { sym.print(os); }
        for (auto const& s : steps) { s.print(os); }
        for (auto const& m : mods) { m.print(os); }
    }

    template<class P> static std::vector<V3> positions(P const& p) {
        auto r = std::vector<V3>();
        for (auto i = 0; i < p.size(); ++i) { r.push_back(V3(p.x()[i], p.y()[i], p.z()[i])); }
        return r;
    }

    // --------------------------------------------------------------------------------------
    // The real thing

    void add_step(cpb::Model& model, int n) const {
        auto const s = steps[size_t(n)];
        auto const log = this->log;
        if (s.kind == Step::state) {
            model.add(cpb::SiteStateModifier([s, n, log](Eigen::Ref<cpb::ArrayX<bool>> state, cpb::CartesianArrayConstRef pos, std::string const& name) {
                auto call = Call{n, name, positions(pos), {}};
                PBT_CHECK(state.size() == pos.size(), "state modifier is given ", state.size(), " states and ", pos.size(), " positions");
                for (auto i = 0; i < state.size(); ++i) {
                    call.state.push_back(state[i]);
                    auto const v = s.new_state(call.pos[size_t(i)], name, state[i]);
                    if (v < 0) { throw pbt::Discard(); }
                    state[i] = v != 0;
                }
                log->calls.push_back(call);
            }, s.min_neighbors));
        } else if (s.kind == Step::position) {
            model.add(cpb::PositionModifier([s, n, log](cpb::CartesianArrayRef pos, std::string const& name) {
                auto call = Call{n, name, positions(pos), {}};
                for (auto i = 0; i < pos.size(); ++i) {
                    auto const p = s.new_pos(call.pos[size_t(i)], name);
                    pos.x()[i] = float(p[0]); pos.y()[i] = float(p[1]); pos.z()[i] = float(p[2]);
                }
                log->calls.push_back(call);
            }));
        } else if (s.kind == Step::site_gen) {
            model.add(cpb::SiteGenerator(s.name, s.energy, [s, n, log](cpb::System const& sys) {
                if (!log->before) { log->before = std::make_shared<cpb::System>(sys); }
                log->calls.push_back(system_call(n, sys));
                auto r = cpb::CartesianArray(int(s.new_positions.size()));
                for (auto i = 0; i < int(s.new_positions.size()); ++i) { r[i] = to_f(s.new_positions[size_t(i)]); }
                return r;
            }));
        } else {
            auto const make = [s, n, log](cpb::System const& sys) {
                if (!log->before) { log->before = std::make_shared<cpb::System>(sys); }
                log->calls.push_back(system_call(n, sys));
                auto from = std::vector<int>(), to = std::vector<int>();
                auto norb = std::vector<int>();
                for (auto const& sub : sys.compressed_sublattices) { for (auto i = 0; i < sub.num_sites(); ++i) { norb.push_back(int(sub.num_orbitals())); } }
                auto const names = family_names(sys);
                auto state = s.seed | 1;
                auto next = [&] { state ^= state << 13; state ^= state >> 7; state ^= state << 17; return (state * 0x2545F4914F6CDD1Dull) >> 33; };
                auto& pairs = log->pairs[n];
                auto const limit = s.percent * 40 / 100 + 1;
                auto tries = 0;
                auto misfits = 0;
                while (int(from.size()) < limit && ++tries < 400 && norb.size() > 1) {
                    auto i = int(next() % norb.size()), j = int(next() % norb.size());
                    if (i == j) { continue; }
                    if (i > j) { std::swap(i, j); }
                    auto const fits = norb[size_t(i)] == s.energy.rows() && norb[size_t(j)] == s.energy.cols();
                    if (!fits && !(s.bad == Step::misfit && misfits++ == 0)) { continue; }
                    pairs.push_back({End{names[size_t(i)], to_d(sys.positions[i])}, End{names[size_t(j)], to_d(sys.positions[j])}});
                    if (next() % 2) { std::swap(i, j); }
                    from.push_back(i); to.push_back(j);
                    if (next() % 4 == 0) { // repeated, either way round
                        if (next() % 2) { std::swap(i, j); }
                        from.push_back(i); to.push_back(j);
                    }
                }
                if (s.bad == Step::misfit && misfits == 0) { throw pbt::Discard(); }
                if (s.bad == Step::negative) { from.push_back(-1 - int(next() % 3)); to.push_back(0); }
                if (s.bad == Step::too_large) { from.push_back(0); to.push_back(int(sys.num_sites()) + int(next() % 2)); }
                if (s.bad == Step::unequal) { from.push_back(0); }
                auto r = cpb::HoppingGenerator::Result{cpb::ArrayXi(int(from.size())), cpb::ArrayXi(int(to.size()))};
                std::copy(from.begin(), from.end(), r.from.data());
                std::copy(to.begin(), to.end(), r.to.data());
                return r;
            };
            if (s.energy.size() == 1 && s.seed % 2) { model.add(cpb::HoppingGenerator(s.name, s.energy(0, 0), make)); }
            else { model.add(cpb::HoppingGenerator(s.name, s.energy, make)); }
        }
    }

    static Call system_call(int n, cpb::System const& sys) {
        auto call = Call{n, "", {}, {}};
        for (auto i = 0; i < sys.num_sites(); ++i) { call.pos.push_back(to_d(sys.positions[i])); }
        return call;
    }

    template<class T>
    static void apply_onsite(EnergyMod const& m, cpb::ComplexArrayRef e, std::vector<V3> const& pos) {
        auto const n = e.ndim == 3 ? e.shape[2] : e.shape[0];
        auto const rows = e.ndim == 3 ? e.shape[0] : 1, cols = e.ndim == 3 ? e.shape[1] : 1;
        auto* data = static_cast<T*>(e.data);
        for (auto i = 0; i < rows; ++i) {
            for (auto j = 0; j < cols; ++j) {
                for (auto k = 0; k < n; ++k, ++data) { *data = m.onsite_value(*data, i, j, pos[size_t(k)]); }
            }
        }
    }
    template<class T>
    static void apply_hopping(EnergyMod const& m, cpb::ComplexArrayRef e, std::vector<V3> const& p1, std::vector<V3> const& p2) {
        auto const n = e.ndim == 3 ? e.shape[2] : e.shape[0];
        auto const rows = e.ndim == 3 ? e.shape[0] : 1, cols = e.ndim == 3 ? e.shape[1] : 1;
        auto* data = static_cast<T*>(e.data);
        for (auto i = 0; i < rows; ++i) {
            for (auto j = 0; j < cols; ++j) {
                for (auto k = 0; k < n; ++k, ++data) { *data = m.hopping_value(*data, i, j, p1[size_t(k)], p2[size_t(k)]); }
            }
        }
    }

    static EnergyCall energy_call(int n, std::string const& name, cpb::ComplexArrayRef const& e) {
        PBT_CHECK(e.ndim == 1 || e.ndim == 3, "energy array with ", int(e.ndim), " dimensions");
        auto c = EnergyCall();
        c.mod = n; c.name = name;
        c.rows = e.ndim == 3 ? int(e.shape[0]) : 1; c.cols = e.ndim == 3 ? int(e.shape[1]) : 1;
        c.num = int(e.ndim == 3 ? e.shape[2] : e.shape[0]);
        c.is_double = e.tag == cpb::num::Tag::f64 || e.tag == cpb::num::Tag::cf64;
        c.is_complex = e.tag == cpb::num::Tag::cf32 || e.tag == cpb::num::Tag::cf64;
        return c;
    }

    void add_mod(cpb::Model& model, int n) const {
        auto const m = mods[size_t(n)];
        auto const log = this->log;
        using cpb::num::Tag;
        if (m.onsite) {
            model.add(cpb::OnsiteModifier([m, n, log](cpb::ComplexArrayRef e, cpb::CartesianArrayConstRef pos, std::string const& name) {
                auto c = energy_call(n, name, e);
                c.pos1 = positions(pos);
                PBT_CHECK(int(c.pos1.size()) == c.num, "onsite modifier: ", c.num, " energies and ", c.pos1.size(), " positions");
                if (m.only.empty() || m.only == name) {
                    if (e.tag == Tag::f32) { apply_onsite<float>(m, e, c.pos1); }
                    else if (e.tag == Tag::f64) { apply_onsite<double>(m, e, c.pos1); }
                    else if (e.tag == Tag::cf32) { apply_onsite<std::complex<float>>(m, e, c.pos1); }
                    else { apply_onsite<std::complex<double>>(m, e, c.pos1); }
                }
                log->energy_calls.push_back(c);
            }, m.is_complex, m.is_double));
        } else {
            model.add(cpb::HoppingModifier([m, n, log](cpb::ComplexArrayRef e, cpb::CartesianArrayConstRef pos1, cpb::CartesianArrayConstRef pos2, std::string const& name) {
                auto c = energy_call(n, name, e);
                c.pos1 = positions(pos1); c.pos2 = positions(pos2);
                PBT_CHECK(int(c.pos1.size()) == c.num && int(c.pos2.size()) == c.num, "hopping modifier: ", c.num, " energies and ", c.pos1.size(), " positions");
                if (m.only.empty() || m.only == name) {
                    if (e.tag == Tag::f32) { apply_hopping<float>(m, e, c.pos1, c.pos2); }
                    else if (e.tag == Tag::f64) { apply_hopping<double>(m, e, c.pos1, c.pos2); }
                    else if (e.tag == Tag::cf32) { apply_hopping<std::complex<float>>(m, e, c.pos1, c.pos2); }
                    else { apply_hopping<std::complex<double>>(m, e, c.pos1, c.pos2); }
                }
                log->energy_calls.push_back(c);
            }, m.is_complex, m.is_double));
        }
    }

    cpb::Model make_model() const {
        auto model = cpb::Model(lat.build());
        if (shaped) { model.add(shape.build()); }
        else { model.add(cpb::Primitive(size[0], size[1], size[2])); }
        if (sym.count()) { model.add(sym.build(lat)); }
        for (auto i = 0; i < int(steps.size()); ++i) { add_step(model, i); }
        for (auto i = 0; i < int(mods.size()); ++i) { add_mod(model, i); }
        return model;
    }

    // --------------------------------------------------------------------------------------
    // The naive model

    struct World {
        Sys sys;
        std::vector<PHop> phops;
        Lat lat;                    ///< lattice including the shape's offset
        int removed = 0, revived = 0, removed_late = 0, removed_by_cascade = 0;

        void filter(std::vector<char> const& keep) {
            auto map = std::vector<int>(sys.sites.size(), -1);
            auto n = 0;
            for (size_t i = 0; i < keep.size(); ++i) { if (keep[i]) { map[i] = n++; } }
            sys.filter(keep);
            auto p2 = std::vector<PHop>();
            for (auto h : phops) {
                if (map[h.i] < 0 || map[h.j] < 0) { continue; }
                h.i = map[h.i]; h.j = map[h.j];
                p2.push_back(h);
            }
            phops = p2;
        }
    };

    static void check_distinct(std::vector<V3> const& pos) {
        // sort along x, then compare neighbours
        auto p = pos;
        std::sort(p.begin(), p.end(), [](V3 const& a, V3 const& b) { return a[0] < b[0]; });
        for (size_t i = 0; i < p.size(); ++i) {
            for (auto j = i + 1; j < p.size() && p[j][0] - p[i][0] < 0.02; ++j) {
                if ((p[i] - p[j]).norm() < 0.02) { throw pbt::Discard(); }
            }
        }
    }

    /// Compare the positions (and states) in a call with expected ones; any order
    static void check_call(Call const& call, std::vector<V3> const& pos, std::vector<char> const& state, bool with_state) {
        PBT_CHECK(call.pos.size() == pos.size(), "step ", call.step, " on '", call.name, "' was given ", call.pos.size(), " sites, expected ", pos.size());
        auto used = std::vector<char>(pos.size(), 0);
        auto hint = size_t{0};
        for (size_t i = 0; i < pos.size(); ++i) {
            auto found = false;
            for (size_t n = 0; n < pos.size() && !found; ++n) {
                auto const k = (hint + n) % pos.size();
                if (!used[k] && (pos[k] - call.pos[i]).cwiseAbs().maxCoeff() < 2e-3) {
                    found = true; used[k] = 1; hint = k + 1;
                    if (with_state) {
                        PBT_CHECK(call.state[i] == state[k], "step ", call.step, " on '", call.name, "': site at (", pos[k].transpose(), ") was given as ", call.state[i] ? "on" : "off");
                    }
                }
            }
            PBT_CHECK(found, "step ", call.step, " on '", call.name, "' was given an unexpected position (", call.pos[i].transpose(), ")");
        }
    }

    /// Throws Discard for borderline cases; requires that the real system was built
    World replay(cpb::System const& real) const { return replay(&real); }
    World replay(cpb::System const* real) const {
        auto w = World();
        w.lat = lat;
        w.lat.offset += shaped ? shape.lattice_offset : V3(0, 0, 0);
        auto const& l = w.lat;
        auto const nfoundation = first_generator();
        auto calls = std::map<int, std::vector<Call>>();
        auto last = -1;
        for (auto const& c : log->calls) {
            PBT_CHECK(c.step >= last, "step ", c.step, " was applied after step ", last);
            last = c.step;
            calls[c.step].push_back(c);
        }

        // the block of sites
        auto lo = I3(0, 0, 0), hi = I3(0, 0, 0);
        auto inside = std::set<Key>();
        if (shaped) {
            auto cut = make_cut(l, shape, reach, 800);
            ref::remove_dangling(l, cut, l.min_neighbors);
            for (auto const& s : cut.sites) { inside.insert(key(s.sub, s.cell)); }
            if (nfoundation > 0 && !calls[0].empty()) {
                auto const& c = calls[0][0];
                auto sub = -1;
                for (auto i = 0; i < int(l.subs.size()); ++i) { if (l.subs[i].name == c.name) { sub = i; } }
                PBT_CHECK(sub >= 0 && !c.pos.empty(), "step 0 was applied to unknown sublattice '", c.name, "'");
                lo = I3(1 << 20, 1 << 20, 1 << 20); hi = -lo;
                for (auto const& p : c.pos) {
                    auto const f = l.coords(p - l.offset - l.subs[sub].pos);
                    auto const n = I3(int(std::lround(f[0])), int(std::lround(f[1])), int(std::lround(f[2])));
                    lo = lo.cwiseMin(n); hi = hi.cwiseMax(n);
                }
            } else {
                for (auto const& s : cut.sites) { lo = lo.cwiseMin(s.cell); hi = hi.cwiseMax(s.cell); }
            }
            for (auto const& s : cut.sites) {
                PBT_CHECK((s.cell.array() >= lo.array()).all() && (s.cell.array() <= hi.array()).all(), "a site inside the shape is not in the block");
            }
        } else {
            lo = I3(-(size[0] / 2), -(size[1] / 2), -(size[2] / 2));
            hi = lo + size - I3::Ones();
        }
        if (long(hi[0] - lo[0] + 1) * (hi[1] - lo[1] + 1) * (hi[2] - lo[2] + 1) * long(l.subs.size()) > 6000) { throw pbt::Discard(); }
        auto block = make_block(l, lo, hi);
        auto valid = std::vector<char>();
        for (auto const& s : block.sites) { valid.push_back(!shaped || inside.count(key(s.sub, s.cell)) > 0); }
        if (sym.count()) {
            // which period: from the actual system (before anything was moved)
            if (nfoundation > 0) { throw pbt::Discard(); }
            auto sys0 = block;
            sys0.filter(valid);
            PBT_CHECK(steps.empty() || log->before, "no generator was called");
            auto const p = find_period(l, sym, sys0, steps.empty() ? *real : *log->before);
            w.phops = p.hops;
            block = p.sys;
            valid.assign(block.sites.size(), 1);
        }

        for (auto n = 0; n < nfoundation; ++n) {
            auto const& s = steps[size_t(n)];
            auto const& c = calls[n];
            PBT_CHECK(c.size() == l.subs.size(), "step ", n, " was applied ", c.size(), " times for ", l.subs.size(), " sublattices");
            auto all = std::vector<V3>();
            for (auto sub = 0; sub < int(l.subs.size()); ++sub) {
                auto const& name = l.subs[sub].name;
                auto const it = std::find_if(c.begin(), c.end(), [&](Call const& x) { return x.name == name; });
                PBT_CHECK(it != c.end(), "step ", n, " was not applied to sublattice '", name, "'");
                auto pos = std::vector<V3>();
                auto state = std::vector<char>();
                for (size_t i = 0; i < block.sites.size(); ++i) {
                    if (block.sites[i].sub == sub) { pos.push_back(block.sites[i].pos); state.push_back(valid[i]); }
                }
                check_distinct(pos);
                check_call(*it, pos, state, s.kind == Step::state);
            }
            for (size_t i = 0; i < block.sites.size(); ++i) {
                auto& site = block.sites[i];
                auto const& name = l.subs[site.sub].name;
                if (s.kind == Step::state) {
                    auto const v = s.new_state(site.pos, name, valid[i]);
                    if (v < 0) { throw pbt::Discard(); }
                    w.removed += valid[i] && !v; w.revived += !valid[i] && v;
                    valid[i] = char(v);
                } else {
                    site.pos = s.new_pos(site.pos, name);
                }
            }
            if (s.kind == Step::state && s.min_neighbors > 0) {
                for (auto again = true; again;) {
                    again = false;
                    auto total = std::vector<int>(block.sites.size(), 0), count = total;
                    for (auto const& h : block.hops) {
                        ++total[h.i]; ++total[h.j];
                        count[h.i] += valid[h.j]; count[h.j] += valid[h.i];
                    }
                    auto v2 = valid;
                    for (size_t i = 0; i < valid.size(); ++i) {
                        if (valid[i] && count[i] < s.min_neighbors && count[i] < total[i]) { v2[i] = 0; again = true; ++w.removed; ++w.removed_by_cascade; }
                    }
                    valid = v2;
                }
            }
        }
        if (attach) { attach(block, valid, lo, hi); }
        w.sys = block;
        w.sys.filter(valid);

        auto keep = std::vector<char>(w.sys.sites.size(), 1);
        auto sweep = [&] { w.filter(keep); keep.assign(w.sys.sites.size(), 1); };
        for (auto n = nfoundation; n < int(steps.size()); ++n) {
            auto const& s = steps[size_t(n)];
            auto const& c = calls[n];
            if (s.generator()) { sweep(); }
            auto all = std::vector<V3>();
            for (auto const& site : w.sys.sites) { all.push_back(site.pos); }
            check_distinct(all);
            if (s.generator()) {
                PBT_CHECK(c.size() == 1, "generator ", n, " was called ", c.size(), " times");
                check_call(c[0], all, {}, false);
                if (s.kind == Step::site_gen) {
                    for (auto const& p : s.new_positions) {
                        auto site = Site();
                        site.sub = -1; site.pos = p; site.family = s.name; site.onsite = hermitian(s.energy);
                        w.sys.sites.push_back(site);
                    }
                    keep.assign(w.sys.sites.size(), 1);
                } else {
                    auto seen = std::set<std::pair<int, int>>();
                    auto find = [&](End const& e) {
                        for (size_t i = 0; i < w.sys.sites.size(); ++i) {
                            if (w.sys.sites[i].family == e.family && (w.sys.sites[i].pos - e.pos).cwiseAbs().maxCoeff() < 2e-3) { return int(i); }
                        }
                        pbt::fail(pbt::str("generator ", n, " was given an unexpected site of family ", e.family, " at (", e.pos.transpose(), ")"));
                    };
                    auto const it = log->pairs.find(n);
                    if (it != log->pairs.end()) {
                        for (auto const& p : it->second) {
                            auto const i = find(p.first), j = find(p.second);
                            if (!seen.insert({i, j}).second) { continue; }
                            w.sys.hops.push_back({s.name, i, j, s.energy});
                        }
                    }
                }
                continue;
            }
            // called once per family which has sites (families without any may be left out)
            auto families = std::map<std::string, std::pair<std::vector<V3>, std::vector<char>>>();
            for (size_t i = 0; i < w.sys.sites.size(); ++i) {
                auto& f = families[w.sys.sites[i].family];
                f.first.push_back(w.sys.sites[i].pos); f.second.push_back(keep[i]);
            }
            auto seen = std::set<std::string>();
            for (auto const& call : c) {
                PBT_CHECK(seen.insert(call.name).second, "step ", n, " was applied twice to '", call.name, "'");
                check_call(call, families[call.name].first, families[call.name].second, s.kind == Step::state);
                families.erase(call.name);
            }
            for (auto const& f : families) { PBT_CHECK(f.second.first.empty(), "step ", n, " was not applied to '", f.first, "'"); }
            for (size_t i = 0; i < w.sys.sites.size(); ++i) {
                auto& site = w.sys.sites[i];
                if (s.kind == Step::state) {
                    auto const v = s.new_state(site.pos, site.family, keep[i]);
                    if (v < 0) { throw pbt::Discard(); }
                    w.removed_late += keep[i] && !v;
                    keep[i] = char(v);
                } else {
                    site.pos = s.new_pos(site.pos, site.family);
                }
            }
        }
        sweep();
        auto all = std::vector<V3>();
        for (auto const& site : w.sys.sites) { all.push_back(site.pos); }
        check_distinct(all);
        return w;
    }

    /// Final energies after modifiers
    void apply_mods(World& w) const {
        for (auto const& m : mods) {
            if (m.onsite) {
                for (auto& s : w.sys.sites) {
                    if (!m.only.empty() && m.only != s.family) { continue; }
                    for (auto i = 0; i < s.onsite.rows(); ++i) {
                        for (auto j = 0; j < s.onsite.cols(); ++j) { s.onsite(i, j) = m.onsite_value(s.onsite(i, j), i, j, s.pos); }
                    }
                }
            } else {
                auto change = [&](std::string const& family, Mat& t, V3 const& p1, V3 const& p2) {
                    if (!m.only.empty() && m.only != family) { return; }
                    for (auto i = 0; i < t.rows(); ++i) {
                        for (auto j = 0; j < t.cols(); ++j) { t(i, j) = m.hopping_value(t(i, j), i, j, p1, p2); }
                    }
                };
                for (auto& h : w.sys.hops) { change(h.family, h.energy, w.sys.sites[h.i].pos, w.sys.sites[h.j].pos); }
                for (auto& h : w.phops) {
                    V3 r = V3::Zero();
                    for (auto n = 0; n < lat.ndim(); ++n) { r += double(h.t[n] * sym.period[n]) * lat.vecs[n]; }
                    change(h.family, h.energy, w.sys.sites[h.i].pos, w.sys.sites[h.j].pos - r);
                }
            }
        }
    }

    Mat final_hamiltonian(World w, V3 const& k = {0, 0, 0}) const {
        apply_mods(w);
        auto p = Periodic();
        p.sys = w.sys; p.hops = w.phops;
        return bloch(w.lat, sym, p, k);
    }

    bool expect_complex() const {
        auto c = lat.any_complex() || sym.count() > 0;
        for (auto const& s : steps) { c |= s.generator() && !s.energy.imag().isZero(0); }
        for (auto const& m : mods) { c |= m.is_complex; }
        return c;
    }
    bool expect_double() const {
        for (auto const& m : mods) { if (m.is_double) { return true; } }
        return false;
    }
};

// ------------------------------------------------------------------------------------------
// Generators

inline V3 gen_normal(Src& s, int ndim) {
    V3 n = V3::Zero();
    for (auto k = 0; k < ndim; ++k) { n[k] = s.sym(2); }
    if (n.isZero(0)) { n[0] = 1; }
    return n;
}

/// A threshold off the grid of site positions (multiples of 1/32)
inline double gen_threshold(Src& s, double scale) { return s.sym(24) / 8.0 * scale + 1.0 / 64; }

inline Step gen_state(Src& s, Lat const& lat, std::vector<std::string> const& names, double scale) {
    auto st = Step();
    st.kind = Step::state;
    if (s.chance(1, 2)) { st.only = s.pick(names); }
    st.normal = gen_normal(s, lat.ndim());
    auto const c = gen_threshold(s, scale);
    st.off_above = c;
    if (s.chance(1, 3)) { st.on_below = c - std::abs(gen_threshold(s, scale / 2)) - 1.0 / 32; }
    if (s.chance(1, 4)) { st.off_above = 1e9; }
    return st;
}

inline Step gen_position(Src& s, Lat const& lat, std::vector<std::string> const& names) {
    auto st = Step();
    st.kind = Step::position;
    if (s.chance(1, 2)) { st.only = s.pick(names); }
    for (auto k = 0; k < 3; ++k) { st.move[k] = s.sym(6) / 16.0; }
    if (s.chance(1, 3)) {
        for (auto i = 0; i < lat.ndim(); ++i) { for (auto j = 0; j < lat.ndim(); ++j) { st.stretch(i, j) = s.sym(2) / 16.0; } }
    }
    return st;
}

inline std::vector<std::string> sub_names(Lat const& lat) {
    auto r = std::vector<std::string>();
    for (auto const& s : lat.subs) { r.push_back(s.name); }
    return r;
}

inline EnergyMod gen_mod(Src& s, std::vector<std::string> const& subs, std::vector<std::string> const& hops, bool allow_complex) {
    auto m = EnergyMod();
    m.onsite = s.chance(1, 2) || hops.empty();
    if (s.chance(1, 3)) { m.only = s.pick(m.onsite ? subs : hops); }
    m.a = s.pick({1.0, 0.5, 2.0, -1.0, 0.0});
    m.b = s.sym(8) / 4.0;
    if (s.chance(1, 2)) { for (auto k = 0; k < 3; ++k) { m.g[k] = s.sym(4) / 8.0; } }
    if (s.chance(1, 2)) { m.d = s.sym(4) / 4.0; }
    if (!m.onsite && s.chance(1, 3)) { for (auto k = 0; k < 3; ++k) { m.h[k] = s.sym(4) / 16.0; } }
    if (allow_complex && s.chance(1, 4)) { m.q = s.sym(4) / 4.0; m.is_complex = s.chance(1, 2); }
    if (s.chance(1, 8)) { m.is_complex = allow_complex; }
    m.is_double = s.chance(1, 8);
    return m;
}

} // namespace ref

// C01: a lattice definition is stored exactly as given or rejected unchanged
// Stateful test: a random sequence of definition calls (valid and invalid) against a plain model.
#include "ref.hpp"
using namespace ref;

namespace {

struct MSub { V3 pos; Mat energy; int root; int id = -1; };
struct MTerm { I3 d; std::string from, to; };
struct MFam { Mat energy; std::vector<MTerm> terms; int id = -1; };

struct MLat {
    int ndim;
    std::vector<V3> vecs;
    std::vector<std::pair<std::string, MSub>> subs;
    std::vector<std::pair<std::string, MFam>> fams;
    V3 offset = {0, 0, 0};
    int min_neighbors = 1;

    MSub* sub(std::string const& n) { for (auto& p : subs) { if (p.first == n) { return &p.second; } } return nullptr; }
    MFam* fam(std::string const& n) { for (auto& p : fams) { if (p.first == n) { return &p.second; } } return nullptr; }
    int sub_index(std::string const& n) const {
        for (size_t i = 0; i < subs.size(); ++i) { if (subs[i].first == n) { return int(i); } }
        return -1;
    }
};

/// Multiple of 1/4, at times with a tiny difference from another one
double energy_value(Src& s, int limit) {
    auto const e = quarter(s, limit);
    return s.chance(1, 12) ? e + s.sym(1) * std::ldexp(1.0, -s.pick<int>({12, 20, 28})) : e;
}

Mat random_matrix(Src& s, int rows, int cols) {
    Mat m(rows, cols);
    for (auto i = 0; i < rows; ++i) { for (auto j = 0; j < cols; ++j) { m(i, j) = cplx(energy_value(s, 1), s.chance(1, 3) ? energy_value(s, 1) : 0); } }
    return m;
}

bool onsite_ok(Mat const& m) {
    if (m.rows() != m.cols() || m.rows() == 0) { return false; }
    auto upper = true, herm = true;
    for (auto i = 0; i < m.rows(); ++i) {
        if (m(i, i).imag() != 0) { return false; }
        for (auto j = 0; j < i; ++j) {
            upper = upper && m(i, j) == 0.0;
            herm = herm && m(i, j) == std::conj(m(j, i));
        }
    }
    return upper || herm;
}

/// Recorded definition must equal the model's
void check_definition(cpb::Lattice const& l, MLat& m) {
    PBT_CHECK(l.ndim() == m.ndim && int(l.get_vectors().size()) == m.ndim, "ndim ", l.ndim());
    for (auto i = 0; i < m.ndim; ++i) { PBT_CHECK(to_d(l.vector(i)) == m.vecs[i] && to_d(l.get_vectors()[i]) == m.vecs[i], "vector ", i); }
    PBT_CHECK(l.nsub() == int(m.subs.size()) && l.get_sublattices().size() == m.subs.size(), "nsub ", l.nsub(), " expected ", m.subs.size());
    PBT_CHECK(l.nhop() == int(m.fams.size()) && l.get_hoppings().size() == m.fams.size(), "nhop ", l.nhop(), " expected ", m.fams.size());
    PBT_CHECK(to_d(l.get_offset()) == m.offset, "offset");
    PBT_CHECK(l.get_min_neighbors() == m.min_neighbors, "min_neighbors");

    auto ids = std::set<int>();
    for (auto& p : m.subs) {
        auto const it = l.get_sublattices().find(p.first);
        PBT_CHECK(it != l.get_sublattices().end(), "sublattice ", p.first, " is missing");
        auto const& sub = it->second;
        PBT_CHECK(to_d(sub.position) == p.second.pos, "position of ", p.first);
        check_equal(sub.energy, hermitian(m.subs[p.second.root].second.energy), 0, "onsite energy");
        PBT_CHECK(ids.insert(sub.unique_id.value()).second, "sublattice ID is not unique");
        if (p.second.id < 0) { p.second.id = sub.unique_id.value(); }
        PBT_CHECK(p.second.id == sub.unique_id.value(), "sublattice ID of ", p.first, " changed");
        PBT_CHECK(sub.alias_id.value() == m.subs[p.second.root].second.id, "alias ID of ", p.first);
    }
    ids.clear();
    for (auto& p : m.fams) {
        auto const it = l.get_hoppings().find(p.first);
        PBT_CHECK(it != l.get_hoppings().end(), "hopping family ", p.first, " is missing");
        auto const& fam = it->second;
        check_equal(fam.energy, p.second.energy, 0, "hopping energy");
        PBT_CHECK(ids.insert(fam.family_id.value()).second, "family ID is not unique");
        if (p.second.id < 0) { p.second.id = fam.family_id.value(); }
        PBT_CHECK(p.second.id == fam.family_id.value(), "family ID of ", p.first, " changed");
        PBT_CHECK(fam.terms.size() == p.second.terms.size(), "family ", p.first, " has ", fam.terms.size(), " terms, expected ", p.second.terms.size());
        for (size_t i = 0; i < fam.terms.size(); ++i) {
            auto const& t = fam.terms[i];
            auto const& e = p.second.terms[i];
            PBT_CHECK(t.relative_index == e.d && t.from.value() == m.sub(e.from)->id && t.to.value() == m.sub(e.to)->id,
                      "term ", i, " of ", p.first);
        }
    }
}

/// Views derived from the definition
void check_views(cpb::Lattice const& l, MLat& m) {
    auto const sites = l.site_registry();
    auto diagonal = false, onsite = false, complex = false, multi = false;
    for (auto& p : m.subs) {
        auto const& root = m.subs[p.second.root];
        auto const id = cpb::SiteID(root.second.id);
        PBT_CHECK(sites.name(id) == root.first, "registry name of ", root.first, " is ", sites.name(id));
        check_equal(sites.energy(id), hermitian(root.second.energy), 0, "registry energy");
        if (p.second.root == m.sub_index(p.first)) {
            PBT_CHECK(sites.id(p.first) == id, "registry ID of ", p.first);
            auto const map = sites.name_map();
            PBT_CHECK(map.count(p.first) && map.at(p.first) == root.second.id, "registry name map of ", p.first);
        }
        auto const e = hermitian(root.second.energy);
        diagonal |= !e.diagonal().isZero(0);
        onsite |= !e.isZero(0);
        complex |= !e.imag().isZero(0);
        multi |= e.size() != 1;
    }
    PBT_CHECK(throws([&] { sites.id("no such name"); }), "unknown name is rejected");
    if (!m.subs.empty()) {
        PBT_CHECK(sites.has_nonzero_energy() == onsite, "has_nonzero_energy");
        PBT_CHECK(sites.any_complex_terms() == complex, "any_complex_terms");
        PBT_CHECK(sites.has_multiple_orbitals() == multi, "has_multiple_orbitals");
    }
    PBT_CHECK(l.has_diagonal_terms() == diagonal, "has_diagonal_terms");
    PBT_CHECK(l.has_onsite_energy() == onsite, "has_onsite_energy");

    auto const hops = l.hopping_registry();
    PBT_CHECK(hops.size() == int(m.fams.size()), "hopping registry size ", hops.size());
    complex = multi = false;
    for (auto& p : m.fams) {
        auto const id = cpb::HopID(p.second.id);
        PBT_CHECK(hops.name(id) == p.first && hops.id(p.first) == id, "hopping registry name ", p.first);
        check_equal(hops.energy(id), p.second.energy, 0, "hopping registry energy");
        complex |= !p.second.energy.imag().isZero(0);
        multi |= p.second.energy.size() != 1;
    }
    PBT_CHECK(hops.any_complex_terms() == complex, "any_complex_terms (hoppings)");
    PBT_CHECK(hops.has_multiple_orbitals() == multi, "has_multiple_orbitals (hoppings)");

    // per-site bound: every term counts at both ends
    auto bound = 0;
    for (auto const& p : m.subs) {
        auto n = int(m.subs[p.second.root].second.energy.cols()) - 1;
        for (auto const& f : m.fams) {
            for (auto const& t : f.second.terms) {
                if (t.from == p.first) { n += int(f.second.energy.cols()); }
                if (t.to == p.first) { n += int(f.second.energy.rows()); }
            }
        }
        bound = std::max(bound, n);
    }
    PBT_CHECK(l.max_hoppings() == bound, "max_hoppings ", l.max_hoppings(), " expected ", bound);

    // unit cell: every term once in each direction
    auto const cell = l.optimized_unit_cell();
    auto const n = int(cell.end() - cell.begin());
    PBT_CHECK(n == int(m.subs.size()), "unit cell has ", n, " sites");
    auto name = std::vector<std::string>();
    for (auto const& site : cell) {
        auto found = std::string();
        for (auto const& p : m.subs) { if (p.second.id == site.unique_id.value()) { found = p.first; } }
        PBT_CHECK(!found.empty(), "unit cell site with unknown ID");
        PBT_CHECK(std::find(name.begin(), name.end(), found) == name.end(), "unit cell site ", found, " is repeated");
        name.push_back(found);
        auto const* sub = m.sub(found);
        auto const& root = m.subs[sub->root].second;
        PBT_CHECK(to_d(site.position) == sub->pos && site.norb == root.energy.cols() && site.alias_id.value() == root.id,
                  "unit cell site ", found);
    }
    auto groups = std::set<int>();
    for (auto i = 0; i < n; ++i) {
        PBT_CHECK(i == 0 || cell[i - 1].norb <= cell[i].norb, "unit cell is not ordered by orbital count");
        if (i == 0 || cell[i - 1].alias_id != cell[i].alias_id) {
            PBT_CHECK(groups.insert(cell[i].alias_id.value()).second, "aliases are not contiguous");
        }
    }
    using K = std::tuple<std::string, std::string, int, int, int, int, bool>;
    auto want = std::multiset<K>(), have = std::multiset<K>();
    for (auto const& f : m.fams) {
        for (auto const& t : f.second.terms) {
            want.insert(K(t.from, t.to, f.second.id, t.d[0], t.d[1], t.d[2], false));
            want.insert(K(t.to, t.from, f.second.id, -t.d[0], -t.d[1], -t.d[2], true));
        }
    }
    for (auto i = 0; i < n; ++i) {
        for (auto const& h : cell[i].hoppings) {
            PBT_CHECK(h.to_sub_idx >= 0 && h.to_sub_idx < n, "unit cell index");
            have.insert(K(name[i], name[h.to_sub_idx], h.family_id.value(), h.relative_index[0], h.relative_index[1],
                          h.relative_index[2], h.is_conjugate));
        }
    }
    PBT_CHECK(want == have, "unit cell lists ", have.size(), " directed hoppings, expected ", want.size(), " or they differ");
}

} // namespace

static void run(Src& s, Ctx& ctx) {
    auto m = MLat();
    m.ndim = s.range(1, 3);
    m.vecs = gen_vectors(s, m.ndim);
    auto const zero = V3(0, 0, 0);
    auto l = cpb::Lattice(to_f(m.vecs[0]), to_f(m.ndim > 1 ? m.vecs[1] : zero), to_f(m.ndim > 2 ? m.vecs[2] : zero));

    auto sub_names = std::vector<std::string>{"A", "B", "C", "D", "E", ""};
    auto const large = s.chance(1, 30); // many sublattices
    if (large) { for (auto i = 0; i < 40; ++i) { sub_names.push_back("S" + std::to_string(i)); } }
    auto const fam_names = std::vector<std::string>{"t", "u", "v", "__anonymous__1", "__anonymous__0", ""};
    auto any_rejected = false, any_term = false, any_alias = false;
    auto pick_sub = [&]() -> std::string { // mostly existing
        if (!m.subs.empty() && s.chance(5, 6)) { return m.subs[s.draw(m.subs.size())].first; }
        return s.pick(sub_names);
    };
    auto const nops = large ? s.range(30, 70) : s.range(1, ctx.thorough ? 30 : 18);
    for (auto op = 0; op < nops; ++op) {
        auto what = std::ostringstream();
        auto must_reject = false;
        auto rejected = false;
        auto after = m; // the model if the call is accepted
        auto anonymous = false;
        Mat anonymous_energy;
        MTerm anonymous_term;
        auto call = std::function<void()>();
        switch (large && s.chance(2, 3) ? s.pick<int>({0, 2}) : s.range(0, 9)) {
        case 0: case 1: { // sublattice
            auto const name = s.pick(sub_names);
            auto sub = MSub{V3(quarter(s, 2), quarter(s, 2), quarter(s, 2)), {}, int(m.subs.size())};
            must_reject = name.empty() || m.sub(name);
            auto const overload = s.range(0, 3);
            if (overload == 0) {
                auto const e = energy_value(s, 2);
                sub.energy = Mat::Constant(1, 1, e);
                call = [=, &l] { l.add_sublattice(name, to_f(sub.pos), e); };
            } else if (overload == 1) {
                auto const k = s.range(0, 3);
                Eigen::VectorXd e(k);
                for (auto i = 0; i < k; ++i) { e[i] = energy_value(s, 2); }
                must_reject = must_reject || k == 0;
                sub.energy = Mat::Zero(k, k);
                for (auto i = 0; i < k; ++i) { sub.energy(i, i) = e[i]; }
                call = [=, &l] { l.add_sublattice(name, to_f(sub.pos), e); };
            } else {
                auto const k = s.range(0, 3);
                Mat e = random_matrix(s, k, s.chance(1, 6) ? s.range(0, 3) : k);
                auto const form = s.range(0, 3); // otherwise: anything
                if (form > 0 && e.rows() == e.cols()) {
                    for (auto i = 0; i < e.rows(); ++i) {
                        e(i, i) = e(i, i).real();
                        for (auto j = 0; j < i; ++j) { e(i, j) = (form == 1) ? cplx(0) : std::conj(e(j, i)); }
                    }
                    if (form == 3 && e.rows() > 0 && s.chance(1, 2)) { e(s.range(0, int(e.rows()) - 1), 0) += cplx(0, 0.25); }
                }
                must_reject = must_reject || !onsite_ok(e);
                sub.energy = e;
                call = [=, &l] { l.add_sublattice(name, to_f(sub.pos), e); };
            }
            what << "add_sublattice(" << name << ", overload " << overload << ")\n" << sub.energy;
            after.subs.push_back({name, sub});
            break;
        }
        case 2: { // alias
            auto const name = s.pick(sub_names), original = pick_sub();
            auto const* o = m.sub(original);
            must_reject = name.empty() || m.sub(name) || !o;
            auto sub = MSub{V3(quarter(s, 2), quarter(s, 2), quarter(s, 2)), o ? o->energy : Mat(), o ? o->root : 0};
            after.subs.push_back({name, sub});
            call = [=, &l] { l.add_alias(name, original, to_f(sub.pos)); };
            what << "add_alias(" << name << ", " << original << ")";
            if (!must_reject) { any_alias = true; }
            break;
        }
        case 3: case 4: { // energy
            auto const name = s.pick(fam_names);
            must_reject = name.empty() || m.fam(name);
            auto fam = MFam();
            if (s.chance(1, 2)) {
                auto const e = cplx(energy_value(s, 2), energy_value(s, 2));
                fam.energy = Mat::Constant(1, 1, e);
                call = [=, &l] { l.register_hopping_energy(name, e); };
            } else {
                fam.energy = random_matrix(s, s.range(0, 3), s.range(0, 3));
                must_reject = must_reject || fam.energy.rows() == 0 || fam.energy.cols() == 0;
                call = [=, &l] { l.register_hopping_energy(name, fam.energy); };
            }
            after.fams.push_back({name, fam});
            what << "register_hopping_energy(" << name << ")\n" << fam.energy;
            break;
        }
        case 5: case 6: case 7: { // term
            auto const from = pick_sub(), to = s.chance(1, 3) ? from : pick_sub();
            auto t = MTerm{I3(s.sym(1), s.sym(1), s.sym(1)), from, to};
            if (s.chance(1, 4)) { t.d = I3::Zero(); }
            auto const* a = m.sub(from);
            auto const* b = m.sub(to);
            must_reject = !a || !b || (from == to && t.d == I3::Zero());
            for (auto const& f : m.fams) {
                for (auto const& e : f.second.terms) {
                    must_reject = must_reject || (e.d == t.d && e.from == t.from && e.to == t.to)
                                  || (e.d == -t.d && e.from == t.to && e.to == t.from);
                }
            }
            auto fits = [&](Mat const& e) { return a && b && a->energy.rows() == e.rows() && b->energy.rows() == e.cols(); };
            if (s.chance(1, 2)) {
                auto name = s.pick(fam_names);
                if (!m.fams.empty() && s.chance(5, 6)) { name = m.fams[s.draw(m.fams.size())].first; }
                auto* fam = after.fam(name);
                must_reject = must_reject || !fam || !fits(fam->energy);
                if (fam) { fam->terms.push_back(t); }
                call = [=, &l] { l.add_hopping(t.d, t.from, t.to, name); };
                what << "add_hopping(" << t.d.transpose() << ", " << from << ", " << to << ", '" << name << "')";
            } else {
                anonymous = true;
                anonymous_term = t;
                if (s.chance(1, 2)) {
                    auto const e = !m.fams.empty() && s.chance(1, 4) && m.fams[0].second.energy.size() == 1
                                   ? m.fams[0].second.energy(0, 0) + s.sym(1) * std::ldexp(1.0, -28) : cplx(energy_value(s, 1), energy_value(s, 1));
                    anonymous_energy = Mat::Constant(1, 1, e);
                    call = [=, &l] { l.add_hopping(t.d, t.from, t.to, e); };
                } else {
                    auto const right = a && b && s.chance(3, 4);
                    Mat const e = !m.fams.empty() && s.chance(1, 4) ? m.fams[s.draw(m.fams.size())].second.energy
                             : random_matrix(s, right ? int(a->energy.rows()) : s.range(0, 3), right ? int(b->energy.rows()) : s.range(0, 3));
                    anonymous_energy = e;
                    call = [=, &l] { l.add_hopping(t.d, t.from, t.to, e); };
                }
                must_reject = must_reject || !fits(anonymous_energy) || anonymous_energy.size() == 0;
                what << "add_hopping(" << t.d.transpose() << ", " << from << ", " << to << ") with energy\n" << anonymous_energy;
            }
            if (!must_reject) { any_term = true; }
            break;
        }
        case 8: { // offset
            V3 p = V3::Zero();
            auto biggest = 0.0;
            for (auto k = 0; k < m.ndim; ++k) {
                auto const c = s.pick<double>({0, 0.125, -0.125, 0.25, -0.25, 0.5, -0.5, 0.625, -0.625, 1, -1});
                p += c * m.vecs[k];
                biggest = std::max(biggest, std::abs(c));
            }
            must_reject = biggest > 0.55;
            after.offset = p;
            auto const copy = s.chance(1, 3);
            call = [=, &l] { if (copy) { auto const before = l; l = l.with_offset(to_f(p)); } else { l.set_offset(to_f(p)); } };
            what << "set_offset(" << p.transpose() << ")";
            break;
        }
        default: {
            auto const n = s.range(0, 4);
            after.min_neighbors = n;
            if (s.chance(1, 2)) { call = [=, &l] { l.set_min_neighbors(n); }; }
            else { call = [=, &l] { auto const c = l.with_min_neighbors(n); l = c; }; }
            what << "set_min_neighbors(" << n << ")";
        }
        }
        ctx.describe([&](std::ostream& os) { os << what.str() << (must_reject ? "   (invalid)" : "") << "\n"; });
        rejected = throws(call);
        PBT_CHECK(rejected == must_reject, what.str(), ": rejected ", rejected, " expected ", must_reject);
        any_rejected |= rejected;
        if (!rejected) {
            if (anonymous) { // in an existing family of equal energy or in a new one
                auto target = std::string();
                for (auto const& p : l.get_hoppings()) {
                    auto const* known = m.fam(p.first);
                    if (!known) {
                        PBT_CHECK(target.empty(), "more than one family changed");
                        target = p.first;
                        auto fam = MFam(); fam.energy = anonymous_energy;
                        after.fams.push_back({p.first, fam});
                    } else if (known->terms.size() != p.second.terms.size()) {
                        PBT_CHECK(target.empty(), "more than one family changed");
                        target = p.first;
                    }
                }
                PBT_CHECK(!target.empty(), "the anonymous hopping was not recorded");
                auto* fam = after.fam(target);
                PBT_CHECK(fam->energy.rows() == anonymous_energy.rows() && fam->energy.cols() == anonymous_energy.cols(), "wrong family");
                fam->terms.push_back(anonymous_term);
                check_equal(fam->energy, anonymous_energy, 0, "energy of the anonymous hopping");
            }
            m = after;
        }
        check_definition(l, m);
        if (s.chance(1, large ? 12 : 3)) { check_views(l, m); }
    }
    check_views(l, m);
    ctx.nontrivial = m.subs.size() > 0 && (any_term || any_rejected);
    ctx.label(any_term, "terms");
    ctx.label(any_rejected, "rejected calls");
    ctx.label(any_alias, "aliases");
    ctx.label(m.subs.size() > 16, ">16 sublattices");
    ctx.label(m.fams.size() > 3, ">3 families");
}

namespace pbt {
Property const property = {
    "C01",
    "random sequences of up to 18 (1 of 30: 70) definition calls, valid and invalid, on a 1-3D lattice, compared after each call with a "
    "plain model of the definition and its derived views; non-trivial: a sublattice and a hopping term or a rejected call",
    150000, 1500000, run,
    {"energies are multiples of 1/4, some with differences down to 2^-28 (no rounding errors)"}};
}

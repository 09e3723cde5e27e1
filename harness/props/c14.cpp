// C14: site and hopping containers keep their content through edits and serialization
#include "ref.hpp"
#include "system/CompressedSublattices.hpp"
#include "system/HoppingBlocks.hpp"
using namespace ref;
using cpb::CompressedSublattices;
using cpb::HoppingBlocks;
using cpb::ArrayXi;
using cpb::SiteID;
using cpb::HopID;

namespace {

struct Block { int id, norb, count; };

struct Model {
    std::vector<Block> subs;
    std::vector<std::vector<std::pair<int, int>>> hops;
    int num_sites = 0;

    std::set<std::pair<int, int>> all_pairs() const {
        auto r = std::set<std::pair<int, int>>();
        for (auto const& b : hops) { for (auto const& p : b) { r.insert(p); } }
        return r;
    }
    int nnz() const { auto n = 0; for (auto const& b : hops) { n += int(b.size()); } return n; }
    int sum() const { auto n = 0; for (auto const& b : subs) { n += b.count; } return n; }
};

std::vector<int> vec(ArrayXi const& a) { return std::vector<int>(a.data(), a.data() + a.size()); }
ArrayXi arr(std::vector<int> const& v) {
    auto r = ArrayXi(int(v.size()));
    std::copy(v.begin(), v.end(), r.data());
    return r;
}
template<class T> std::string show(std::vector<T> const& v) {
    auto ss = std::ostringstream();
    for (auto const& x : v) { ss << " " << x; }
    return ss.str();
}

void check_subs(CompressedSublattices const& c, Model const& m) {
    auto ids = std::vector<int>(), counts = ids, norbs = ids, flat = ids;
    for (auto const& b : m.subs) {
        ids.push_back(b.id); counts.push_back(b.count); norbs.push_back(b.norb);
        flat.insert(flat.end(), size_t(b.count), b.id);
    }
    PBT_CHECK(vec(c.alias_ids()) == ids, "ids", show(vec(c.alias_ids())), " expected", show(ids));
    PBT_CHECK(vec(c.site_counts()) == counts, "site counts", show(vec(c.site_counts())), " expected", show(counts));
    PBT_CHECK(vec(c.orbital_counts()) == norbs, "orbital counts", show(vec(c.orbital_counts())), " expected", show(norbs));
    PBT_CHECK(c.decompressed_size() == int(flat.size()), "decompressed size ", c.decompressed_size(), " expected ", flat.size());
    auto const d = c.decompressed();
    auto const got = std::vector<int>(d.data(), d.data() + d.size());
    PBT_CHECK(got == flat, "decompressed", show(got), " expected", show(flat));
    auto n = size_t{0}, sys = size_t{0}, ham = size_t{0};
    for (auto const& sub : c) {
        PBT_CHECK(n < m.subs.size(), "too many blocks");
        auto const& b = m.subs[n++];
        PBT_CHECK(sub.id().value() == b.id && sub.num_sites() == b.count && sub.num_orbitals() == b.norb, "block ", n - 1);
        PBT_CHECK(sub.sys_start() == int(sys) && sub.sys_end() == int(sys) + b.count, "block ", n - 1, " has the sites ", sub.sys_start(), "-", sub.sys_end());
        PBT_CHECK(sub.ham_start() == int(ham) && sub.ham_size() == b.count * b.norb && sub.ham_end() == int(ham) + b.count * b.norb,
                  "block ", n - 1, " has the rows ", sub.ham_start(), "-", sub.ham_end());
        sys += size_t(b.count); ham += size_t(b.count * b.norb);
    }
    PBT_CHECK(n == m.subs.size(), "too few blocks");
    for (auto norb = 1; norb < 6; ++norb) {
        auto start = 0;
        auto found = false;
        for (auto const& b : m.subs) { if (b.norb == norb) { found = true; break; } start += b.count; }
        if (found) { PBT_CHECK(c.start_index(norb) == start, "sites with ", norb, " orbitals start at ", c.start_index(norb), " expected ", start); }
        else { PBT_CHECK(throws([&] { c.start_index(norb); }), "there are no sites with ", norb, " orbitals"); }
    }
    auto sorted = std::is_sorted(norbs.begin(), norbs.end());
    auto const unique = std::set<int>(ids.begin(), ids.end()).size() == ids.size();
    PBT_CHECK(throws([&] { c.verify(m.sum()); }) == !(sorted && unique), "verify() of ", sorted ? "sorted" : "unsorted", " orbital counts and ",
              unique ? "unique" : "repeated", " ids");
    PBT_CHECK(throws([&] { c.verify(m.sum() + 1); }), "verify() of the wrong number of sites");
}

void check_hops(HoppingBlocks const& h, Model const& m, cpb::NameMap const& names) {
    PBT_CHECK(h.get_num_sites() == m.num_sites, "num_sites ", h.get_num_sites(), " expected ", m.num_sites);
    PBT_CHECK(h.nnz() == m.nnz(), "nnz ", h.nnz(), " expected ", m.nnz());
    PBT_CHECK(h.get_name_map() == names, "the family names have changed");
    auto n = size_t{0};
    auto serialized = h.get_serialized_blocks();
    PBT_CHECK(serialized.size() == m.hops.size(), "there are ", serialized.size(), " serialized blocks");
    for (auto const& block : h) {
        PBT_CHECK(n < m.hops.size(), "too many families");
        PBT_CHECK(block.family_id().value() == int(n), "family id ", block.family_id().value());
        auto got = std::vector<std::pair<int, int>>();
        for (auto const& c : block.coordinates()) { got.push_back({c.row, c.col}); }
        PBT_CHECK(block.size() == int(got.size()), "block size");
        auto const& s = serialized[n];
        PBT_CHECK(s.first.size() == int(got.size()) && s.second.size() == int(got.size()), "serialized size of family ", n);
        for (auto i = 0; i < int(got.size()); ++i) {
            PBT_CHECK(s.first[i] == got[size_t(i)].first && s.second[i] == got[size_t(i)].second, "serialized pair ", i, " of family ", n);
        }
        auto expected = m.hops[n];
        std::sort(got.begin(), got.end());
        std::sort(expected.begin(), expected.end());
        if (got != expected) {
            auto ss = std::ostringstream();
            for (auto const& p : got) { ss << " " << p.first << "-" << p.second; }
            ss << "; expected:";
            for (auto const& p : expected) { ss << " " << p.first << "-" << p.second; }
            pbt::fail(pbt::str("family ", n, " has the pairs", ss.str()));
        }
        ++n;
    }
    PBT_CHECK(n == m.hops.size(), "too few families");

    auto neighbors = std::vector<int>(size_t(m.num_sites), 0);
    for (auto const& b : m.hops) { for (auto const& p : b) { ++neighbors[size_t(p.first)]; ++neighbors[size_t(p.second)]; } }
    PBT_CHECK(vec(h.count_neighbors()) == neighbors, "neighbour counts", show(vec(h.count_neighbors())), " expected", show(neighbors));

    if (int(m.all_pairs().size()) == m.nnz()) { // a matrix can hold one family per element
        auto const csr = h.tocsr();
        PBT_CHECK(csr.rows() == m.num_sites && csr.cols() == m.num_sites && csr.isCompressed(), "CSR shape");
        PBT_CHECK(csr.nonZeros() == m.nnz(), "CSR has ", csr.nonZeros(), " elements, expected ", m.nnz());
        auto elements = std::map<std::pair<int, int>, int>();
        for (auto r = 0; r < csr.rows(); ++r) {
            auto last = -1;
            for (auto k = csr.outerIndexPtr()[r]; k < csr.outerIndexPtr()[r + 1]; ++k) {
                auto const c = csr.innerIndexPtr()[k];
                PBT_CHECK(c > last, "CSR row ", r, " is not sorted");
                last = c;
                elements[{r, c}] = csr.valuePtr()[k];
            }
        }
        for (size_t f = 0; f < m.hops.size(); ++f) {
            for (auto const& p : m.hops[f]) {
                auto const it = elements.find(p);
                PBT_CHECK(it != elements.end() && it->second == int(f), "CSR element ", p.first, ",", p.second, " is not family ", f);
            }
        }
    }
}

} // namespace

static void run(Src& s, Ctx& ctx) {
    auto m = Model();
    auto subs = CompressedSublattices();
    auto log = std::ostringstream();
    // sites
    auto const ordered = s.chance(3, 4);
    for (auto n = s.range(0, 5); n > 0; --n) {
        auto const id = ordered ? int(m.subs.size()) * 3 % 7 : s.range(0, 6);
        auto const norb = ordered ? (m.subs.empty() ? 1 : m.subs.back().norb) + s.range(0, 1) : s.range(1, 4);
        auto const count = s.range(1, 4);
        auto const single = s.chance(1, 2);
        if (!m.subs.empty() && m.subs.back().id == id) { m.subs.back().count += count; }
        else { m.subs.push_back({id, norb, count}); }
        if (single) { for (auto i = 0; i < count; ++i) { subs.add(SiteID(id), norb); } }
        else { subs.add(SiteID(id), norb, count); }
        log << " add " << count << " sites of sublattice " << id << " norb " << norb << "\n";
    }
    m.num_sites = m.sum();
    auto const nfam = s.range(0, 4);
    m.hops.resize(size_t(nfam));
    auto names = cpb::NameMap();
    for (auto i = 0; i < nfam; ++i) { names["t" + std::to_string(i)] = i; }
    auto hops = HoppingBlocks(m.num_sites, names);
    if (s.chance(1, 2)) { hops.reserve(arr(std::vector<int>(size_t(s.range(0, nfam)), 3))); }
    check_subs(subs, m);
    check_hops(hops, m, names);

    auto filtered = 0, appended = 0, removed_pairs = 0, round_trips = 0, most = 0;
    auto const repeats = s.chance(1, 6); // the same pair may be in several families
    for (auto n = s.range(1, ctx.thorough ? 16 : 10); n > 0; --n) {
        auto const what = s.range(0, 5);
        if (what == 0 && nfam > 0 && m.num_sites > 0) { // single pairs
            auto const f = s.range(0, nfam - 1);
            for (auto k = s.range(1, 5); k > 0; --k) {
                auto const i = s.range(0, m.num_sites - 1), j = s.range(0, m.num_sites - 1);
                auto const known = m.all_pairs();
                if (i == j || known.count({i, j}) || known.count({j, i})) { continue; }
                hops.add(HopID(f), i, j);
                m.hops[size_t(f)].push_back({i, j});
                log << " add " << i << "-" << j << " to family " << f << "\n";
            }
        } else if (what == 1 && nfam > 0 && m.num_sites > 0) { // a range of pairs
            auto const f = s.range(0, nfam - 1);
            auto rows = std::vector<int>(), cols = rows;
            log << " append to family " << f << ":";
            auto& block = m.hops[size_t(f)];
            for (auto k = s.range(0, 6); k > 0; --k) {
                auto i = s.range(0, m.num_sites - 1), j = s.range(0, m.num_sites - 1);
                auto const known = m.all_pairs();
                auto const lo = std::min(i, j), hi = std::max(i, j);
                auto const here = std::find(block.begin(), block.end(), std::make_pair(lo, hi)) != block.end();
                if (known.count({hi, lo}) || (!repeats && !here && known.count({lo, hi}))) { continue; }
                rows.push_back(i); cols.push_back(j);
                log << " " << i << "-" << j;
                if (!here) { block.push_back({lo, hi}); }
            }
            log << "\n";
            hops.append(HopID(f), arr(rows), arr(cols));
            ++appended;
        } else if (what == 2) { // remove sites
            auto keep = cpb::VectorX<bool>(m.num_sites);
            auto const mode = s.range(0, 3);
            for (auto i = 0; i < m.num_sites; ++i) { keep[i] = mode == 0 ? s.chance(1, 2) : mode == 1 ? !s.chance(1, 4) : mode == 2 ? true : false; }
            if (mode == 3 && m.num_sites > 0) { keep[s.range(0, m.num_sites - 1)] = true; }
            log << " keep " << keep.transpose() << "\n";
            auto map = std::vector<int>();
            auto next = 0;
            for (auto i = 0; i < m.num_sites; ++i) { map.push_back(keep[i] ? next++ : -1); }
            auto i = 0;
            for (auto& b : m.subs) { auto c = 0; for (auto k = 0; k < b.count; ++k) { c += map[size_t(i++)] >= 0; } b.count = c; }
            for (; i < m.num_sites; ++i) { if (map[size_t(i)] >= 0) { PBT_CHECK(false, "harness: site without sublattice"); } }
            for (auto& b : m.hops) {
                auto kept = std::vector<std::pair<int, int>>();
                for (auto const& p : b) {
                    if (map[size_t(p.first)] >= 0 && map[size_t(p.second)] >= 0) { kept.push_back({map[size_t(p.first)], map[size_t(p.second)]}); }
                    else { ++removed_pairs; }
                }
                b = kept;
            }
            subs.filter(keep);
            hops.filter(keep);
            filtered += next < m.num_sites;
            m.num_sites = next;
        } else if (what == 3) { // more sites
            auto const count = s.range(1, 4);
            auto id = 7 + n, norb = m.subs.empty() ? 1 : m.subs.back().norb + s.range(0, 1);
            if (!m.subs.empty() && s.chance(1, 3)) { id = m.subs.back().id; norb = m.subs.back().norb; m.subs.back().count += count; }
            else { m.subs.push_back({id, norb, count}); }
            subs.add(SiteID(id), norb, count);
            hops.add_sites(count);
            m.num_sites += count;
            log << " add " << count << " sites of sublattice " << id << " norb " << norb << "\n";
        } else if (what == 4) { // save and load
            log << " save and load\n";
            subs = CompressedSublattices(subs.alias_ids(), subs.site_counts(), subs.orbital_counts());
            hops = HoppingBlocks(hops.get_num_sites(), hops.get_serialized_blocks(), hops.get_name_map());
            ++round_trips;
        } else { // rejected, without any effect
            if (nfam > 0) {
                auto const f = s.range(0, nfam - 1);
                auto const a = s.range(0, 2), b = a + s.range(1, 2);
                PBT_CHECK(throws([&] { hops.append(HopID(f), arr(std::vector<int>(size_t(a), 0)), arr(std::vector<int>(size_t(b), 0))); }),
                          "index arrays of different sizes were accepted");
                PBT_CHECK(throws([&] { hops.append(HopID(f), arr(std::vector<int>(size_t(b), 0)), arr(std::vector<int>(size_t(a), 0))); }),
                          "index arrays of different sizes were accepted");
            }
        }
        ctx.describe([&](std::ostream& os) { os << log.str(); log.str(""); });
        check_subs(subs, m);
        check_hops(hops, m, names);
        most = std::max(most, m.nnz());
    }
    ctx.nontrivial = most > 1 && filtered + appended + round_trips > 0;
    ctx.label(filtered > 0, "sites removed");
    ctx.label(removed_pairs > 0, "pairs removed");
    ctx.label(filtered > 0 && m.nnz() > 0, "sites removed, pairs remain");
    ctx.label(appended > 0, "appended");
    ctx.label(round_trips > 0 && m.nnz() > 0, "round trip");
    ctx.label(round_trips > 0 && filtered > 0, "round trip after removal");
    ctx.label(repeats, "pairs in several families");
    ctx.label(!ordered, "ids and orbital counts in any order");
}

namespace pbt {
Property const property = {
    "C14",
    "random histories of 1-16 operations (add, append with repeated and reversed pairs, filter, add sites, save and load, rejected "
    "calls) on containers of 0-4 families and 0-10 sublattices; every observer compared with plain lists after each operation; "
    "non-trivial: more than one pair at some point and an append, removal or round trip",
    250000, 8000000, run,
    {"a reversed duplicate of a pair which was added (not appended) before is out of scope: the structure never has one"}};
}

// C05: shape membership matches the geometry of the shape
#include "ref.hpp"
using namespace ref;
using Pt = std::array<double, 2>;

namespace {

double segment_distance(Pt p, Pt a, Pt b) {
    auto const dx = b[0] - a[0], dy = b[1] - a[1];
    auto const l2 = dx * dx + dy * dy;
    auto t = l2 > 0 ? ((p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / l2 : 0;
    t = std::max(0.0, std::min(1.0, t));
    return std::hypot(p[0] - a[0] - t * dx, p[1] - a[1] - t * dy);
}

/// Even-odd rule along a generic ray (rotated so that it meets no vertex), in double precision
bool even_odd(std::vector<Pt> const& v, Pt p) {
    auto inside = false;
    auto const c = std::cos(0.7391), sn = std::sin(0.7391);
    auto rot = [&](Pt q) { return Pt{{c * (q[0] - p[0]) - sn * (q[1] - p[1]), sn * (q[0] - p[0]) + c * (q[1] - p[1])}}; };
    for (size_t i = 0; i < v.size(); ++i) {
        auto const a = rot(v[i]), b = rot(v[(i + 1) % v.size()]);
        if ((a[1] > 0) != (b[1] > 0)) {
            auto const x = a[0] + (b[0] - a[0]) * (0 - a[1]) / (b[1] - a[1]);
            if (x > 0) { inside = !inside; }
        }
    }
    return inside;
}

cpb::CartesianArray to_array(std::vector<V3> const& p) {
    auto a = cpb::CartesianArray(cpb::idx_t(p.size()));
    for (size_t i = 0; i < p.size(); ++i) { a[int(i)] = to_f(p[i]); }
    return a;
}

void polygon(Src& s, Ctx& ctx) {
    auto const n = s.range(3, 9);
    auto const grid = s.chance(2, 3); // coincident coordinates are common on a coarse grid
    auto coord = [&] { return grid ? s.sym(4) * 0.5 : double(float(s.sym(4000) / 1000.0)); };
    auto v = std::vector<Pt>();
    for (auto i = 0; i < n; ++i) {
        if (i > 0 && s.chance(1, 8)) { v.push_back(v[s.draw(v.size())]); } // repeated vertex
        else if (i > 0 && s.chance(1, 6)) { v.push_back({{coord(), v.back()[1]}}); } // horizontal side
        else { v.push_back({{coord(), coord()}}); }
    }
    if (s.chance(1, 2)) { std::reverse(v.begin(), v.end()); }
    std::rotate(v.begin(), v.begin() + s.range(0, n - 1), v.end());
    auto vertices = std::vector<cpb::Cartesian>();
    for (auto const& p : v) { vertices.push_back(cpb::Cartesian(float(p[0]), float(p[1]), float(s.chance(1, 4) ? s.sym(3) : 0))); }
    ctx.describe([&](std::ostream& os) { os << "polygon"; for (auto& p : v) { os << " (" << p[0] << "," << p[1] << ")"; } os << "\n"; });

    auto points = std::vector<V3>();
    for (auto i = s.range(1, 25); i > 0; --i) {
        auto p = grid && s.chance(2, 3) ? V3(s.sym(18) * 0.25, s.sym(18) * 0.25, s.sym(8)) : V3(s.sym(5000) / 1000.0, s.sym(5000) / 1000.0, s.sym(8));
        if (s.chance(1, 3)) { p[1] = v[s.draw(v.size())][1]; } // level with a vertex
        for (auto k = 0; k < 3; ++k) { p[k] = double(float(p[k])); }
        points.push_back(p);
    }
    auto const shape = cpb::Polygon(vertices);
    PBT_CHECK(static_cast<bool>(shape), "shape is not usable");
    auto const got = shape.contains(to_array(points));
    PBT_CHECK(got.size() == int(points.size()), "result size");
    auto nin = 0, nout = 0;
    for (size_t i = 0; i < points.size(); ++i) {
        auto const q = Pt{{points[i][0], points[i][1]}};
        auto d = 1e9;
        for (size_t k = 0; k < v.size(); ++k) { d = std::min(d, segment_distance(q, v[k], v[(k + 1) % v.size()])); }
        if (d < 1e-4) { continue; } // on the border
        auto const want = even_odd(v, q);
        PBT_CHECK(bool(got[int(i)]) == want, "point (", q[0], ",", q[1], ",", points[i][2], ") inside: ", bool(got[int(i)]), " expected ", want);
        (want ? nin : nout) += 1;
    }
    ctx.nontrivial = nin > 0 && nout > 0;
    ctx.label("polygon");
    ctx.label(nin > 0, "polygon: points inside");
    auto const some = shape.contains(to_array({}));
    PBT_CHECK(some.size() == 0, "no points");
}

void line(Src& s, Ctx& ctx) {
    auto p3 = [&](int m) { return V3(s.sym(m) * 0.5, s.chance(1, 2) ? s.sym(m) * 0.5 : 0, s.chance(1, 3) ? s.sym(m) * 0.5 : 0); };
    V3 const a = p3(6);
    V3 b = p3(6);
    if (a == b) { b[0] += 1; }
    ctx.describe([&](std::ostream& os) { os << "line (" << a.transpose() << ") (" << b.transpose() << ")\n"; });
    auto points = std::vector<V3>();
    for (auto i = s.range(1, 20); i > 0; --i) {
        switch (s.range(0, 4)) {
        case 0: points.push_back(a); break;
        case 1: points.push_back(b); break;
        case 2: points.push_back(a + (b - a) * (s.sym(6) / 4.0)); break;
        default: points.push_back(p3(10));
        }
    }
    auto const shape = cpb::Line(to_f(a), to_f(b));
    auto const got = shape.contains(to_array(points));
    PBT_CHECK(got.size() == int(points.size()), "result size");
    auto nin = 0, nout = 0;
    for (size_t i = 0; i < points.size(); ++i) {
        auto const t = (points[i] - a).dot(b - a) / (b - a).squaredNorm(); // exact on this grid
        auto const at_end = points[i] == a || points[i] == b; // the ends themselves are left out
        auto const want = t >= 0 && t <= 1 && !at_end;
        if (!(std::abs(t) < 1e-9 || std::abs(t - 1) < 1e-9) && (std::abs(t) < 1e-4 || std::abs(t - 1) < 1e-4)) { continue; }
        PBT_CHECK(bool(got[int(i)]) == want, "point (", points[i].transpose(), ") on the line: ", bool(got[int(i)]), " expected ", want, " t = ", t);
        (want ? nin : nout) += 1;
    }
    ctx.nontrivial = nin > 0 && nout > 0;
    ctx.label("line");
}

void freeform(Src& s, Ctx& ctx) {
    auto const w = V3(s.range(0, 8) * 0.5, s.range(0, 8) * 0.5, s.range(0, 8) * 0.5), c = V3(quarter(s, 3), quarter(s, 3), quarter(s, 3));
    auto const a = s.sym(3), b = s.sym(3), off = s.sym(3);
    auto f = [=](V3 const& p) { return a * p[0] + b * p[1] + p[2] > off; };
    auto points = std::vector<V3>();
    for (auto i = s.range(0, 20); i > 0; --i) { points.push_back(V3(quarter(s, 3), quarter(s, 3), quarter(s, 3))); }
    auto calls = 0;
    auto const shape = cpb::FreeformShape([&](cpb::CartesianArrayConstRef p) -> cpb::ArrayX<bool> {
        ++calls;
        PBT_CHECK(p.size() == int(points.size()), "function got ", p.size(), " points");
        auto r = cpb::ArrayX<bool>(p.size());
        for (auto i = 0; i < p.size(); ++i) {
            PBT_CHECK(V3(p.x()[i], p.y()[i], p.z()[i]) == points[i], "function got a different point");
            r[i] = f(V3(p.x()[i], p.y()[i], p.z()[i]));
        }
        return r;
    }, to_f(w), to_f(c));
    auto const got = shape.contains(to_array(points));
    PBT_CHECK(calls == 1 && got.size() == int(points.size()), "calls ", calls);
    for (size_t i = 0; i < points.size(); ++i) { PBT_CHECK(bool(got[int(i)]) == f(points[i]), "delegation"); }
    // the bounding volume is the box that was given
    V3 lo = V3::Constant(1e9), hi = V3::Constant(-1e9);
    for (auto const& v : shape.vertices) { lo = lo.cwiseMin(to_d(v)); hi = hi.cwiseMax(to_d(v)); }
    PBT_CHECK((lo - (c - w / 2)).norm() < 1e-5 && (hi - (c + w / 2)).norm() < 1e-5, "box ", lo.transpose(), " to ", hi.transpose());
    // ... with all of its corners (the box need not be aligned with the lattice)
    for (auto k = 0; k < 8; ++k) {
        V3 corner = c - w / 2;
        for (auto i = 0; i < 3; ++i) { if (k & (1 << i)) { corner[i] += w[i]; } }
        auto found = false;
        for (auto const& v : shape.vertices) { found |= (to_d(v) - corner).norm() < 1e-5; }
        PBT_CHECK(found, "corner (", corner.transpose(), ") is not a bounding vertex");
    }
    ctx.nontrivial = points.size() > 1;
    ctx.label("freeform");
}

void invalid(Src& s, Ctx& ctx) {
    auto const n = s.range(0, 3);
    auto v = std::vector<cpb::Cartesian>();
    for (auto i = 0; i < n; ++i) { v.push_back(cpb::Cartesian(float(i), float(i * i), 0)); }
    auto always = [](cpb::CartesianArrayConstRef p) -> cpb::ArrayX<bool> { return cpb::ArrayX<bool>::Constant(p.size(), true); };
    PBT_CHECK(throws([&] { cpb::Shape(v, always); }) == (n < 2), "shape with ", n, " vertices");
    PBT_CHECK(throws([&] { cpb::Polygon p(v); }) == (n < 2), "polygon with ", n, " vertices");
    auto const a = s.range(-2, 3), b = s.range(-2, 3), c = s.range(-2, 3);
    auto const bad = a < 1 || b < 1 || c < 1;
    ctx.describe([&](std::ostream& os) { os << n << " vertices, primitive " << a << " " << b << " " << c << "\n"; });
    PBT_CHECK(throws([&] { cpb::Primitive(a, b, c); }) == bad, "primitive ", a, " ", b, " ", c);
    if (!bad) { auto const p = cpb::Primitive(a, b, c); PBT_CHECK(p.size == I3(a, b, c), "primitive size"); }
    PBT_CHECK(!static_cast<bool>(cpb::Shape()), "an empty shape is not a shape");
    ctx.label("invalid arguments");
    ctx.nontrivial = bad || n < 2;
}

} // namespace

static void run(Src& s, Ctx& ctx) {
    auto const kind = s.range(0, 9);
    if (kind < 5) { polygon(s, ctx); }
    else if (kind < 8) { line(s, ctx); }
    else if (kind < 9) { freeform(s, ctx); }
    else { invalid(s, ctx); }
}

namespace pbt {
Property const property = {
    "C05",
    "random polygons (3-9 vertices, self-intersecting, repeated vertices, horizontal sides, either orientation), lines in 3D, "
    "freeform boxes and invalid sizes; points on a shared grid and at random; compared with a double precision even-odd test "
    "along another direction and with projections; non-trivial: points on both sides",
    300000, 6000000, run,
    {"points closer than 1e-4 to a polygon side are not compared"}};
}

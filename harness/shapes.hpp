// Random shapes with an independent double precision membership test
#pragma once
#include "ref.hpp"
#include <memory>

namespace ref {

using Pt = std::array<double, 2>;

inline double segment_distance(Pt p, Pt a, Pt b) {
    auto const dx = b[0] - a[0], dy = b[1] - a[1];
    auto const l2 = dx * dx + dy * dy;
    auto t = l2 > 0 ? ((p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / l2 : 0;
    t = std::max(0.0, std::min(1.0, t));
    return std::hypot(p[0] - a[0] - t * dx, p[1] - a[1] - t * dy);
}

struct RShape {
    enum Kind { polygon, line, box, ball, cell } kind = box;
    std::vector<Pt> v;            ///< polygon
    V3 a = {0, 0, 0}, b = {0, 0, 0}; ///< line
    V3 center = {0, 0, 0}, width = {1, 1, 1};
    bool hole = false;            ///< ball: with a hole in the middle
    V3 lattice_offset = {0, 0, 0};
    std::shared_ptr<Lat> lat;     ///< cell: a parallelepiped in lattice coordinates
    V3 cell_center = {0, 0, 0}, cell_half = {1, 1, 1};

    /// cell: the box around it
    void finish() {
        V3 h = V3::Zero();
        center.setZero();
        for (auto k = 0; k < lat->ndim(); ++k) {
            center += cell_center[k] * lat->vecs[k];
            h += cell_half[k] * lat->vecs[k].cwiseAbs();
        }
        for (auto k = lat->ndim(); k < 3; ++k) { h[k] = 8; }
        width = 2 * h;
    }
    double reach() const {
        auto r = 0.0;
        for (auto k = 0; k < lat->ndim(); ++k) { r = std::max(r, std::abs(center[k]) + width[k] / 2); }
        return r;
    }

    /// 1: inside, 0: outside, -1: too close to tell
    int contains(V3 const& p) const {
        auto const eps = 1e-3;
        if (kind == polygon) {
            auto const q = Pt{{p[0], p[1]}};
            auto inside = false;
            for (size_t i = 0; i < v.size(); ++i) {
                auto const& s = v[i];
                auto const& e = v[(i + 1) % v.size()];
                if (segment_distance(q, s, e) < eps) { return -1; }
                if ((s[1] > q[1]) != (e[1] > q[1]) && q[0] > s[0] + (e[0] - s[0]) * (q[1] - s[1]) / (e[1] - s[1])) { inside = !inside; }
            }
            return inside;
        }
        if (kind == line) {
            auto const t = (p - a).dot(b - a) / (b - a).norm();
            if (std::abs(t) < eps || std::abs(t - (b - a).norm()) < eps) { return -1; }
            return t > 0 && t < (b - a).norm();
        }
        if (kind == box) {
            V3 const d = (p - center).cwiseAbs() - width / 2;
            for (auto k = 0; k < 3; ++k) { if (std::abs(d[k]) < eps) { return -1; } }
            return d.maxCoeff() < 0;
        }
        if (kind == cell) {
            V3 const d = (lat->coords(p) - cell_center).cwiseAbs() - cell_half;
            for (auto k = 0; k < lat->ndim(); ++k) { if (std::abs(d[k]) < eps) { return -1; } }
            for (auto k = 0; k < lat->ndim(); ++k) { if (d[k] > 0) { return 0; } }
            return 1;
        }
        auto const r = (p - center).norm();
        auto const outer = width.minCoeff() / 2;
        if (std::abs(r - outer) < eps || (hole && std::abs(r - outer * 0.4) < eps)) { return -1; }
        return r < outer && !(hole && r < outer * 0.4);
    }

    cpb::Shape build() const {
        auto vertices = cpb::Shape::Vertices();
        if (kind == polygon) { for (auto const& p : v) { vertices.push_back(cpb::Cartesian(float(p[0]), float(p[1]), 0)); } }
        auto self = *this;
        auto f = [self](cpb::CartesianArrayConstRef p) -> cpb::ArrayX<bool> {
            auto r = cpb::ArrayX<bool>(p.size());
            for (auto i = 0; i < p.size(); ++i) { r[i] = self.contains(V3(p.x()[i], p.y()[i], p.z()[i])) != 0; }
            return r;
        };
        auto shape = kind == polygon ? cpb::Shape(cpb::Polygon(vertices))
                   : kind == line ? cpb::Shape(cpb::Line(to_f(a), to_f(b)))
                   : cpb::Shape(cpb::FreeformShape(f, to_f(width), to_f(center)));
        if (!lattice_offset.isZero(0)) { shape.lattice_offset = to_f(lattice_offset); } // there is none by default
        return shape;
    }

    void print(std::ostream& os) const {
        if (kind == polygon) { os << "polygon"; for (auto const& p : v) { os << " (" << p[0] << "," << p[1] << ")"; } }
        else if (kind == line) { os << "line (" << a.transpose() << ") to (" << b.transpose() << ")"; }
        else if (kind == cell) { os << "parallelepiped center (" << cell_center.transpose() << ") half width (" << cell_half.transpose() << ") in lattice coordinates"; }
        else { os << (kind == box ? "box" : hole ? "ring" : "ball") << " width (" << width.transpose() << ") center (" << center.transpose() << ")"; }
        os << " lattice_offset (" << lattice_offset.transpose() << ")\n";
    }
};

/// A shape which is off the 1/32 grid where the sites of generated lattices are
inline RShape gen_shape(Src& s, Lat const& lat, double extent) {
    auto sh = RShape();
    auto const ndim = lat.ndim();
    auto off_grid = [&](double x) { return double(float(std::round(x * 32) / 32 + 1.0 / 64)); };
    auto c = V3(0, 0, 0);
    for (auto k = 0; k < 3; ++k) { c[k] = off_grid((k < ndim ? s.sym(8) * extent / 8 : 0)); }
    auto const kind = s.range(0, 3);
    if (kind == 0 && ndim <= 2) {
        sh.kind = RShape::polygon;
        auto const n = s.range(3, 7);
        auto angle = s.range(0, 62) / 10.0;
        for (auto i = 0; i < n; ++i) {
            auto const r = extent * s.range(3, 10) / 10.0;
            auto x = off_grid(c[0] + r * std::cos(angle)), y = off_grid(c[1] + r * std::sin(angle));
            if (ndim == 1) { y = off_grid(r * std::sin(angle)); }
            sh.v.push_back({{x, y}});
            angle += 6.2 / n;
        }
        if (s.chance(1, 2)) { std::reverse(sh.v.begin(), sh.v.end()); }
    } else if (kind == 1 && ndim == 1) {
        sh.kind = RShape::line;
        sh.a = c; sh.b = c;
        sh.a[1] = sh.b[1] = 0; sh.a[2] = sh.b[2] = 0;
        sh.b[0] = off_grid(c[0] + (s.chance(1, 2) ? 1 : -1) * extent * s.range(2, 16) / 8);
        if (s.chance(1, 2)) { std::swap(sh.a, sh.b); }
    } else {
        sh.kind = kind == 2 ? RShape::ball : RShape::box;
        sh.hole = s.chance(1, 3);
        sh.center = c;
        for (auto k = 0; k < 3; ++k) {
            sh.width[k] = off_grid(2 * extent * s.range(3, 10) / 10.0);
            if (k >= ndim) { sh.width[k] = 8 + 2 * extent; sh.center[k] = 0; } // all of the lattice's own thickness
        }
    }
    return sh;
}

/// All lattice sites inside the shape (throws Discard if too close to tell or too many)
inline Sys make_cut(Lat const& lat, RShape const& sh, double reach, size_t max_sites) {
    auto sys = Sys();
    // cells which may hold sites within `reach` of the origin
    auto r = I3(0, 0, 0);
    for (auto k = 0; k < lat.ndim(); ++k) {
        auto biggest = 0.0;
        for (auto c = 0; c < 8; ++c) {
            V3 p(c & 1 ? reach : -reach, c & 2 ? reach : -reach, c & 4 ? reach : -reach);
            biggest = std::max(biggest, std::abs(lat.coords(p)[k]));
        }
        auto extra = 0.0;
        for (auto const& sub : lat.subs) { extra = std::max(extra, std::abs(lat.coords(lat.offset + sub.pos)[k])); }
        r[k] = int(std::ceil(biggest + extra)) + 1;
    }
    if (size_t(2 * r[0] + 1) * size_t(2 * r[1] + 1) * size_t(2 * r[2] + 1) > 60000) { throw pbt::Discard(); }
    for (auto k = 0; k < int(lat.subs.size()); ++k) {
        for (auto c = -r[2]; c <= r[2]; ++c) {
            for (auto b = -r[1]; b <= r[1]; ++b) {
                for (auto a = -r[0]; a <= r[0]; ++a) {
                    auto const p = lat.site_pos(k, {a, b, c});
                    auto const in = sh.contains(p);
                    if (in < 0) { throw pbt::Discard(); }
                    if (in) {
                        sys.sites.push_back(make_site(lat, k, {a, b, c}));
                        if (sys.sites.size() > max_sites) { throw pbt::Discard(); }
                    }
                }
            }
        }
    }
    connect(lat, sys);
    return sys;
}

/// Repeatedly remove sites which have lost a neighbour (of the infinite lattice) and have fewer
/// than the minimum left
inline void remove_dangling(Lat const& lat, Sys& sys, int min_neighbors) {
    auto full = std::vector<int>(lat.subs.size(), 0);
    for (auto const& f : lat.fams) { for (auto const& t : f.terms) { ++full[t.from]; ++full[t.to]; } }
    for (;;) {
        auto count = std::vector<int>(sys.sites.size(), 0);
        for (auto const& h : sys.hops) { ++count[h.i]; ++count[h.j]; }
        auto keep = std::vector<char>(sys.sites.size(), 1);
        auto any = false;
        for (size_t i = 0; i < sys.sites.size(); ++i) {
            if (count[i] < min_neighbors && count[i] < full[sys.sites[i].sub]) { keep[i] = 0; any = true; }
        }
        if (!any) { return; }
        sys.filter(keep);
    }
}

} // namespace ref

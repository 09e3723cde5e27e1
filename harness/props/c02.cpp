// C02: Cartesian positions and lattice coordinates convert both ways
#include "ref.hpp"
using namespace ref;

static void run(Src& s, Ctx& ctx) {
    auto lat = Lat();
    auto const ndim = s.range(1, 3);
    auto const nice = s.chance(1, 2);
    if (nice) {
        lat.vecs = gen_vectors(s, ndim);
    } else { // arbitrary directions and lengths, reasonably conditioned
        auto const scale = s.pick<double>({1, 0.01, 0.3, 25, 1000});
        Eigen::Matrix3d m = Eigen::Matrix3d::Identity();
        for (auto i = 0; i < ndim; ++i) {
            V3 v = V3::Zero();
            for (auto k = 0; k < ndim; ++k) { v[k] = s.sym(1000) / 1000.0; }
            if (v.norm() < 0.2) { throw pbt::Discard(); }
            v *= scale;
            for (auto k = 0; k < 3; ++k) { v[k] = double(float(v[k])); }
            lat.vecs.push_back(v);
            for (auto k = 0; k < ndim; ++k) { m(k, i) = v[k] / v.norm(); }
        }
        if (std::abs(det3(m)) < 0.15) { throw pbt::Discard(); }
    }
    auto unit = 0.0;
    for (auto const& v : lat.vecs) { unit = std::max(unit, v.norm()); }
    auto const nsub = s.range(0, 3);
    for (auto i = 0; i < nsub; ++i) {
        auto sub = Sub();
        sub.name = std::string(1, char('A' + i));
        sub.energy = Mat::Zero(1, 1);
        for (auto k = 0; k < 3; ++k) { sub.pos[k] = double(float(s.sym(100) / 50.0 * unit)); }
        if (i > 0 && s.chance(1, 3)) { sub.alias_of = 0; }
        lat.subs.push_back(sub);
    }
    ctx.describe([&](std::ostream& os) { lat.print(os); });
    auto l = lat.build();
    PBT_CHECK(l.ndim() == ndim, "ndim ", l.ndim());

    // offset: accepted if and only if within about half a primitive vector
    V3 c = V3::Zero();
    V3 off = V3::Zero();
    auto const steps = s.chance(1, 2) ? 10 : 16;
    for (auto k = 0; k < ndim; ++k) { c[k] = s.sym(steps) / 16.0; off += c[k] * lat.vecs[k]; }
    for (auto k = ndim; k < 3; ++k) { off[k] = s.sym(4) * unit / 4; }
    for (auto k = 0; k < 3; ++k) { off[k] = double(float(off[k])); }
    auto const biggest = c.cwiseAbs().maxCoeff();
    auto const before = to_d(l.get_offset());
    ctx.describe([&](std::ostream& os) { os << "offset with coordinates " << c.transpose() << "\n"; });
    auto const via_copy = s.chance(1, 2);
    auto rejected = throws([&] { if (via_copy) { l = l.with_offset(to_f(off)); } else { l.set_offset(to_f(off)); } });
    if (biggest <= 0.51) { PBT_CHECK(!rejected, "offset rejected"); }
    if (biggest >= 0.61) { PBT_CHECK(rejected, "offset accepted"); }
    auto const now = rejected ? before : off;
    PBT_CHECK(to_d(l.get_offset()) == now, "get_offset");

    auto const range = s.pick({1, 3, 20, 200});
    for (auto n = s.range(1, 6); n > 0; --n) {
        auto idx = I3(0, 0, 0);
        for (auto k = 0; k < ndim; ++k) { idx[k] = s.sym(range); }
        V3 want = now + lat.translation(idx);
        auto const tol = 3e-6 * (want.norm() + lat.translation(idx.cwiseAbs()).norm() + 4 * unit) * ndim;
        V3 have = to_d(l.calc_position(idx));
        PBT_CHECK((have - want).norm() <= tol, "position of cell ", idx.transpose(), " is ", have.transpose(), " expected ", want.transpose());
        if (nsub > 0) {
            auto const& sub = lat.subs[s.range(0, nsub - 1)];
            want += sub.pos;
            have = to_d(l.calc_position(idx, sub.name));
            PBT_CHECK((have - want).norm() <= tol, "position of ", sub.name, " in cell ", idx.transpose(), " is ", have.transpose(), " expected ", want.transpose());
        }
        PBT_CHECK(throws([&] { l.calc_position(idx, "nonexistent"); }), "unknown sublattice accepted");

        // coordinates <-> position, independent of the offset
        V3 coords = V3::Zero(), p = V3::Zero();
        for (auto k = 0; k < ndim; ++k) { coords[k] = s.sym(range * 8) / 8.0; p += coords[k] * lat.vecs[k]; }
        V3 const got = to_d(l.translate_coordinates(to_f(p)));
        auto const ctol = 3e-4 * (1 + coords.norm()); // vectors are well-conditioned
        PBT_CHECK((got - coords).norm() <= ctol, "coordinates of ", p.transpose(), " are ", got.transpose(), " expected ", coords.transpose());
        V3 back = V3::Zero();
        for (auto k = 0; k < ndim; ++k) { back += got[k] * lat.vecs[k]; }
        PBT_CHECK((back - p).head(ndim).norm() <= 1e-4 * (p.norm() + unit) * (1 + range / 20.0), "round trip of ", p.transpose(), " gives ", back.transpose());
        for (auto k = ndim; k < 3; ++k) { PBT_CHECK(got[k] == 0, "coordinate outside of the lattice dimensions"); }
    }
    ctx.nontrivial = now != V3(0, 0, 0) && ndim > 1;
    ctx.label("dim" + std::to_string(ndim));
    ctx.label(rejected, "offset rejected");
    ctx.label(!nice, "arbitrary vectors");
}

namespace pbt {
Property const property = {
    "C02",
    "random 1-3D primitive vectors (a coarse grid or arbitrary directions scaled by 0.01-1000), sublattices, offsets on both "
    "sides of the limit, cell indices up to 200; compared with Cramer's rule in double precision; non-trivial: accepted "
    "non-zero offset in 2D or 3D",
    200000, 4000000, run,
    {"the offset limit is only tested outside of 0.51-0.61 of a primitive vector", "primitive vectors are not nearly parallel"}};
}

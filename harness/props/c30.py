# C30: materials, modifiers, lead bands and the kwant export follow their definitions
import itertools
import sys
import types
import numpy as np

# kwant is not installed: its two base classes are all that the export needs
_kwant, _system = types.ModuleType("kwant"), types.ModuleType("kwant.system")
_system.FiniteSystem = type("FiniteSystem", (), {})
_system.InfiniteSystem = type("InfiniteSystem", (), {})
_kwant.system = _system
sys.modules["kwant"], sys.modules["kwant.system"] = _kwant, _system

import warnings
import gen
import pybinding as pb
from pybinding.repository import graphene, group6_tmd, phosphorene, examples
from pbt import check, discard_if

QUICK, THOROUGH = 6000, 100000
RULE = ("one of: materials of the repository with random parameters at random wave vectors against Bloch sums over shells of "
        "neighbours or the published closed form; the repository's modifiers with random parameters on random graphene samples "
        "against their formulas and physical invariants (translation in a magnetic field, six-fold symmetry of the armchair "
        "hexagon); random models with leads: h0, h1 and the bands of leads against the definition of the lattice; the kwant view of random models "
        "against the model; non-trivial: a wave vector away from zero, at least ten sites, or several leads or orbitals")
ASSUMPTIONS = ["the extension module is the project's cppmodule compiled against a small stand-in for pybind11",
               "kwant itself is absent: two empty classes stand for its base classes"]
A, ACC, C0 = 0.24595, 0.142, 0.335


def near(a, b, tol, what, *args):
    a, b = np.asarray(a), np.asarray(b)
    check(a.shape == b.shape, what + ": shape {} expected {}", *(args + (a.shape, b.shape)))
    scale = max(1.0, float(np.abs(b).max()) if b.size else 1.0)
    check(bool(np.all(np.isfinite(a))) and (not a.size or float(np.abs(a - b).max()) <= tol * scale), what + ": {} expected {}",
          *(args + (a.tolist(), b.tolist())))


# PhysRevB.88.085433, table II (GGA)
TMD = {"MoS2": [0.3190, 1.046, 2.104, -0.184, 0.401, 0.507, 0.218, 0.338, 0.057], "WS2": [0.3191, 1.130, 2.275, -0.206, 0.567, 0.536, 0.286, 0.384, -0.061],
       "MoSe2": [0.3326, 0.919, 2.065, -0.188, 0.317, 0.456, 0.211, 0.290, 0.130], "WSe2": [0.3325, 0.943, 2.179, -0.207, 0.457, 0.486, 0.263, 0.329, 0.034],
       "MoTe2": [0.3557, 0.605, 1.972, -0.169, 0.228, 0.390, 0.207, 0.239, 0.252], "WTe2": [0.3560, 0.606, 2.102, -0.175, 0.342, 0.410, 0.233, 0.270, 0.190]}


# -- materials ----------------------------------------------------------------------------------------

def bloch(vectors, sites, onsite, rule, k, reach=4):
    """sites: [(name, position)]; rule(a, b, d) -> energy of the hopping between names a and b with the vector d"""
    n = len(sites)
    h = np.zeros((n, n), dtype=complex)
    for i, (a, p) in enumerate(sites):
        h[i, i] += onsite[a]
    for c in itertools.product(range(-reach, reach + 1), repeat=len(vectors)):
        shift = sum(x * np.array(v) for x, v in zip(c, vectors))
        for i, (a, p) in enumerate(sites):
            for j, (b, q) in enumerate(sites):
                d = np.array(q) + shift - np.array(p)
                if np.linalg.norm(d) < 1e-6:
                    continue
                h[i, j] += rule(a, b, d) * np.exp(1j * np.dot(k, shift[:len(k)]))
    return h


def at(d, length, tol=0.003):
    return abs(np.linalg.norm(d) - length) < tol


def materials(s, ctx):
    kind = s.pick(["mono", "alt", "4atom", "bilayer", "tmd", "phosphorene", "square", "chain"])
    ctx.label(kind)
    k = np.array([s.num(20.0, 40), s.num(20.0, 40)])
    ctx.nontrivial(np.linalg.norm(k) > 0.1)
    t = -2.8
    r3 = np.sqrt(3)
    rule = None
    if kind in ("mono", "alt", "4atom"):
        ons = (s.num(1.0), s.num(1.0))
        kw = {}
        nn = 1
        tt = t
        if kind == "mono":
            nn = s.int(1, 3)
            for name in ("t", "t_nn", "t_nnn"):
                if s.bool(30):
                    kw[name] = s.num(3.0) + 0.01
            if s.bool(15):
                nn, ons, kw = 1, (0, 0), {}
                lat = graphene.monolayer()
            else:
                lat = graphene.monolayer(nn, ons, **kw)
            vectors, sites = [[A, 0, 0], [A / 2, A / 2 * r3, 0]], [("A", (0, -ACC / 2, 0)), ("B", (0, ACC / 2, 0))]
            tt = kw.get("t", t)
        elif kind == "alt":
            ons = ons if s.bool(80) else (0, 0)
            lat = graphene.monolayer_alt(ons) if any(ons) else graphene.monolayer_alt()
            vectors, sites = [[A / 2, A / 2 * r3, 0], [A / 2, -A / 2 * r3, 0]], [("A", (0, 0, 0)), ("B", (0, ACC, 0))]
        else:
            ons = ons if s.bool(80) else (0, 0)
            lat = graphene.monolayer_4atom(ons) if any(ons) else graphene.monolayer_4atom()
            vectors = [[A, 0, 0], [0, 3 * ACC, 0]]
            sites = [("A", (0, -ACC / 2, 0)), ("B", (0, ACC / 2, 0)), ("A", (A / 2, ACC, 0)), ("B", (A / 2, 2 * ACC, 0))]
        nn2 = kw.get("t_nn", 0.1) if nn > 1 else 0.0
        nn3 = kw.get("t_nnn", 0.05) if nn > 2 else 0.0
        ctx.note("{} nearest {} onsite {} {} k {}", kind, nn, ons, kw, k.tolist())

        def rule(a, b, d):
            if a != b:
                return tt if at(d, ACC) else nn3 if at(d, 2 * ACC) else 0.0
            return nn2 if at(d, A) else 0.0
        h = bloch(vectors, sites, {"A": ons[0] + 3 * nn2, "B": ons[1] + 3 * nn2}, rule, k)
        check(lat.min_neighbors == 2, "min_neighbors {}", lat.min_neighbors)
    elif kind == "bilayer":
        g3, g4 = s.bool(), s.bool()
        ons = tuple(s.num(1.0) for _ in range(4))
        if s.bool(15):
            g3 = g4 = False
            ons = (0, 0, 0, 0)
            lat = graphene.bilayer()
        else:
            lat = graphene.bilayer(g3, g4, ons) if s.bool() else graphene.bilayer(onsite=ons, gamma4=g4, gamma3=g3)
        ctx.note("bilayer {} {} onsite {} k {}", g3, g4, ons, k.tolist())
        sites = [("A1", (0, -ACC / 2, 0)), ("B1", (0, ACC / 2, 0)), ("A2", (0, ACC / 2, -C0)), ("B2", (0, 3 * ACC / 2, -C0))]

        def rule(a, b, d):
            pair = "".join(sorted([a, b]))
            if pair in ("A1B1", "A2B2"):
                return t if at(d, ACC) else 0.0
            flat = np.linalg.norm(d[:2])
            if pair == "A2B1":
                return -0.4 if flat < 1e-3 else 0.0
            if pair == "A1B2":
                return -0.3 if g3 and abs(flat - ACC) < 0.003 else 0.0
            if pair == "A1A2":
                return -0.04 if g4 and abs(flat - ACC) < 0.003 else 0.0
            return 0.0
        h = bloch([[A / 2, A / 2 * r3, 0], [-A / 2, A / 2 * r3, 0]], sites, dict(zip(["A1", "B1", "A2", "B2"], ons)), rule, k)
    elif kind == "tmd":
        names = ["MoS2", "WS2", "MoSe2", "WSe2", "MoTe2", "WTe2"]
        name = s.pick(names)
        params = TMD[name]
        if s.bool(40):
            name = s.pick(names + ["CrS2", "NbSe2"])
            params = [0.3 + 0.01 * s.int(0, 6)] + [s.num(1.0) for _ in range(8)]
            lat = group6_tmd.monolayer_3band(name, {name: params})
        else:
            lat = group6_tmd.monolayer_3band(name)
        ctx.note("{} {} k {}", name, params, k.tolist())
        a, e1, e2, t0, t1, t2, t11, t12, t22 = params
        x, y = k[0] * a / 2, r3 * k[1] * a / 2
        cx, cy, sx, sy = np.cos(x), np.cos(y), np.sin(x), np.sin(y)
        h0 = 2 * t0 * (np.cos(2 * x) + 2 * cx * cy) + e1
        h1 = -2 * r3 * t2 * sx * sy + 2j * t1 * (np.sin(2 * x) + sx * cy)
        h2 = 2 * t2 * (np.cos(2 * x) - cx * cy) + 2j * r3 * t1 * cx * sy
        h11 = 2 * t11 * np.cos(2 * x) + (t11 + 3 * t22) * cx * cy + e2
        h22 = 2 * t22 * np.cos(2 * x) + (3 * t11 + t22) * cx * cy + e2
        h12 = r3 * (t22 - t11) * sx * sy + 4j * t12 * sx * (cx - cy)
        h = np.array([[h0, h1, h2], [np.conj(h1), h11, h12], [np.conj(h2), np.conj(h12), h22]])
        check(list(lat.sublattices) == [name[:2] if name[1].islower() else name[0]], "sublattices {}", list(lat.sublattices))
    elif kind == "phosphorene":
        n = s.int(2, 5)
        lat = phosphorene.monolayer_4band(n)
        ctx.note("phosphorene {} k {}", n, k.tolist())
        ts = [-1.22, 3.665, -0.205, -0.105, -0.055]
        a, ax, ay = 0.222, 0.438, 0.332
        s0 = 0.5 * ax - a * np.cos(np.radians(96.79) / 2)
        sites = [("A1", (-s0 / 2, -ay / 2, 0)), ("B0", (s0 / 2, -ay / 2, 0)), ("C0", (-s0 / 2 + ax / 2, 0, 0)), ("D1", (s0 / 2 + ax / 2, 0, 0))]

        def rule(p, q, d):
            if p == q:
                return 0.0
            length = np.linalg.norm(d[:2])
            shells = [(0.222, 1), (0.3347, 3)] if p[1] == q[1] else [(s0, 2), (np.hypot(ax, ay) / 2, 4), (ax - s0, 5)]
            return sum(ts[i - 1] for r, i in shells if i <= n and abs(length - r) < 0.002)
        h = bloch([[ax, 0, 0], [0, ay, 0]], sites, {"A1": 0, "B0": 0, "C0": 0, "D1": 0}, rule, k, 3)
        for bad in (1, 6):
            try:
                phosphorene.monolayer_4band(bad)
            except RuntimeError:
                continue
            check(False, "{} hoppings were accepted", bad)
    elif kind == "square":
        d0, t0 = s.pick([0.2, 0.5, 1.0]), s.pick([-1, 0.5, -2.25])
        if s.bool(20):
            d0, t0 = 0.2, -1
            lat = examples.square_lattice()
        else:
            lat = examples.square_lattice(d0, t0)

        def rule(a, b, d):
            return t0 if np.linalg.norm(d) < 1.6 * d0 else 0.0
        ctx.note("square {} {} k {}", d0, t0, k.tolist())
        h = bloch([[d0, 0, 0], [0, d0, 0]], [("A", (0, 0, 0))], {"A": 0.0}, rule, k)
    else:
        d0, t0, v0 = s.pick([0.2, 0.5, 1.0]), s.pick([-1, 0.5, -2.25]), s.num(2.0)
        if s.bool(20):
            d0, t0, v0 = 1, -1, 0
            lat = examples.chain_lattice()
        else:
            lat = examples.chain_lattice(d0, t0, v0)

        def rule(a, b, d):
            return t0 if at(d, d0) else 0.0
        k = k[:1]
        h = np.array([[v0 + 2 * t0 * np.cos(k[0] * d0)]])
    model = pb.Model(lat, pb.translational_symmetry())
    model.set_wave_vector(list(k) if s.bool() else k)
    near(np.linalg.eigvalsh(model.hamiltonian.toarray().astype(complex)), np.linalg.eigvalsh(h), 2e-4, "energies at {}", k.tolist())
    if rule is not None:
        # the hoppings connect sites at the right distances
        t = gen.Terms(model.system)
        listed = [(i, j, np.zeros(3)) for i, j, _ in t.hops] + [(i, j, sh) for sh, pairs in t.boundaries for i, j, _ in pairs]
        names = [dict(A="A1", B="B0", C="C0", D="D1")[x] for x in t.sub] if kind == "phosphorene" else t.sub
        for i, j, sh in listed:
            d = t.pos[j] - sh - t.pos[i]
            check(rule(names[i], names[j], d) != 0, "a hopping between {} and {} of {}", t.sub[i], t.sub[j], d.tolist())
        if kind == "mono":  # the same phases in a sample without boundaries
            check(np.allclose(sorted(t.pos[:, 1]), [-ACC / 2, ACC / 2], atol=1e-6), "positions {}", t.pos.tolist())
    bands = pb.solver.lapack(model).calc_bands([0] * len(k), list(k), step=float(np.linalg.norm(k)) + 1.0)
    near(bands.energy[-1], np.linalg.eigvalsh(h), 2e-4, "last band energies at {}", k.tolist())


# -- modifiers ----------------------------------------------------------------------------------------

def sample(s, ctx, center=(0.0, 0.0)):
    w, hgt = s.real(0.5, 1.6), s.real(0.5, 1.6)
    c = [center[0] + 0.011, center[1] + 0.007]
    ctx.note("rectangle {} x {} at {}", w, hgt, c)

    def shape(c=c):
        x, y = w / 2, hgt / 2
        return pb.Polygon([[c[0] - x, c[1] - y], [c[0] + x, c[1] - y], [c[0] + x, c[1] + y], [c[0] - x, c[1] + y]])
    return shape


def built(*args):
    m = pb.Model(*args)
    try:
        m.system
    except RuntimeError as e:
        discard_if("Impossible system" in str(e))
        raise
    return m


def modifiers(s, ctx):
    kind = s.pick(["mass", "coulomb", "field", "field moved", "strain", "bump", "hexagon"])
    ctx.label(kind)
    lat = graphene.monolayer()
    if kind == "hexagon":
        width = s.int(2, 60) / 20 + 0.003
        ctx.note("hexagon_ac({})", width)
        m = built(lat, graphene.hexagon_ac(width))
        t = gen.Terms(m.system)
        ctx.nontrivial(t.n > 10)
        check(t.n % 6 == 0, "{} sites", t.n)
        rot = np.array([[0.5, -np.sqrt(3) / 2], [np.sqrt(3) / 2, 0.5]])
        p = t.pos[:, :2] - t.pos[:, :2].mean(axis=0)
        check(np.linalg.norm(t.pos[:, :2].mean(axis=0)) < 2e-3, "the centre is {}", t.pos[:, :2].mean(axis=0))
        # between the requested size and the next whole row
        radius = np.linalg.norm(p, axis=1).max()
        check(width - 2.5 * ACC < radius < width + 2.5 * ACC, "sites up to {} from the centre for a side width of {}", radius, width)
        q = p @ rot.T
        d = np.linalg.norm(p[:, None] - q[None, :], axis=2)
        i = d.argmin(axis=0)
        check(d.min(axis=0).max() < 2e-3 and len(set(i)) == t.n, "not symmetric under a sixth of a turn ({})", d.min(axis=0).max())
        check(all(t.sub[a] != t.sub[b] for a, b in enumerate(i)), "sublattices under a sixth of a turn")
        neighbors = np.array(m.system.count_neighbors())
        check(neighbors.min() >= 2 and (t.n == 6 or neighbors.max() == 3), "neighbours {}", neighbors)
        # on an armchair edge the sites with a missing neighbour come in bonded pairs
        edge = [a for a in range(t.n) if neighbors[a] == 2]
        if t.n > 6:
            partner = {a: 0 for a in edge}
            for a, b, _ in t.hops:
                if a in partner and b in partner:
                    partner[a] += 1
                    partner[b] += 1
            # (three in a row at the corners)
            count = list(partner.values())
            check(set(count) <= {1, 2} and count.count(2) == 6, "edges are not armchair: {}", partner)
        return
    shape = sample(s, ctx)
    args, strained = [], False
    if kind in ("field", "field moved"):
        b = s.num(4.0) * 2000
        ctx.note("field of {} T", b)
        mod = graphene.constant_magnetic_field(b)
        m = built(lat, shape(), mod)
        t = gen.Terms(m.system)
        ctx.nontrivial(t.n > 10 and b)
        h = np.array(m.hamiltonian.toarray(), dtype=complex)
        phi0 = 2 * np.pi * 6.58211899e-16
        const = 2 * np.pi / phi0 * 1e-18
        if kind == "field":
            def hop(i, j, f, p1, p2):
                return np.array([[-2.8 * np.exp(1j * const * 0.5 * b * (p1[1] + p2[1]) * (p1[0] - p2[0]))]])
            ref = gen.dense(t, {"A": 1, "B": 1}, lambda i: np.zeros((1, 1)), hop)
            near(h, ref, 1e-3, "Hamiltonian in a field of {}", b)
            # the phase around every closed path is its flux: around the hexagons
            adj = {i: [] for i in range(t.n)}
            for i, j, _ in t.hops:
                adj[i].append(j)
                adj[j].append(i)
            for start in range(min(t.n, 6)):
                for path in hexagons(adj, start):
                    p = t.pos[path, :2]
                    area = 0.5 * sum(p[i][0] * p[(i + 1) % 6][1] - p[(i + 1) % 6][0] * p[i][1] for i in range(6))
                    loop = np.prod([h[path[i], path[(i + 1) % 6]] / -2.8 for i in range(6)])
                    check(abs(loop - np.exp(1j * const * b * area)) < 1e-2, "phase {} around a hexagon of flux {}", loop, const * b * area)
        else:
            n1, n2 = s.int(-4, 4), s.int(-4, 4)
            v = n1 * np.array([A, 0]) + n2 * np.array([A / 2, A / 2 * np.sqrt(3)])
            ctx.note("moved by {}", v.tolist())
            m2 = built(lat, shape([0.011 + v[0], 0.007 + v[1]]), mod)
            discard_if(m2.system.num_sites != t.n)  # a site on the edge
            near(np.linalg.eigvalsh(np.array(m2.hamiltonian.toarray(), dtype=complex)), np.linalg.eigvalsh(h), 1e-3, "levels of the moved sample")
        return
    if kind == "mass":
        delta = s.num(2.0)
        ctx.note("mass term {}", delta)
        args = [graphene.mass_term(delta)]

        def onsite(sub, p):
            return delta if sub == "A" else -delta
    elif kind == "coulomb":
        beta, cut = s.num(2.0), s.pick([0.0, 0.05, 0.3])
        off = (s.num(0.5, 8), s.num(0.5, 8) + 0.003, s.num(0.5, 4))
        kw = {}
        if cut or s.bool():
            kw["cutoff_radius"] = cut
        ctx.note("coulomb {} cutoff {} offset {}", beta, cut, off)
        args = [graphene.coulomb_potential(beta, offset=off if s.bool() else list(off), **kw)]
        scale = beta * 1.5 * 2.8 * ACC

        def onsite(sub, p):
            r = max(np.linalg.norm(np.array(p) - off), cut)
            discard_if(r < 0.01)
            return -scale / r
    else:
        strained = True
        if kind == "strain":
            b = s.num(2.0) * 100
            ctx.note("strain {}", b)
            args = [graphene.triaxial_strain(b)]
            c = b * ACC / (4 * 6.58211899e-16 * 3.37) * 1e-18

            def moved(p):
                return np.array([p[0] + 2 * c * p[0] * p[1], p[1] + c * (p[0] ** 2 - p[1] ** 2), p[2]])
        else:
            hgt, sigma, ctr = s.num(1.0), s.pick([0.3, 0.6, 2.0]), (s.num(0.5, 8), s.num(0.5, 8))
            ctx.note("bump {} {} {}", hgt, sigma, ctr)
            args = [graphene.gaussian_bump(hgt, sigma, *([ctr] if ctr != (0, 0) or s.bool() else []))]

            def moved(p):
                r2 = (p[0] - ctr[0]) ** 2 + (p[1] - ctr[1]) ** 2
                return np.array([p[0], p[1], hgt * np.exp(-r2 / sigma ** 2)])
        if s.bool():
            args = list(args[0])

        def onsite(sub, p):
            return 0.0
    plain = built(lat, shape())
    m = built(lat, shape(), *args)
    t0, t = gen.Terms(plain.system), gen.Terms(m.system)
    ctx.nontrivial(t.n > 10)
    check(t.n == t0.n and t.sub == t0.sub and t.hops == t0.hops, "the modifier changed the structure")
    pos = np.array([moved(p) for p in t0.pos]) if strained else t0.pos
    near(t.pos, pos, 1e-5, "positions")

    def hop(i, j, f, p1, p2):
        e = -2.8
        if strained:
            e *= np.exp(-3.37 * (np.linalg.norm(pos[i] - pos[j]) / ACC - 1))
        return np.array([[e]])
    ref = gen.dense(t, {"A": 1, "B": 1}, lambda i: np.array([[onsite(t.sub[i], t0.pos[i])]]), hop)
    near(np.array(m.hamiltonian.toarray(), dtype=complex), ref, 5e-4, "Hamiltonian")
    if strained:
        return
    near(m.onsite_map.data, np.diag(ref).real, 5e-4, "onsite_map")


def hexagons(adj, start):
    found = []

    def go(path):
        if len(path) == 6:
            if start in adj[path[-1]] and path[1] < path[-1]:
                found.append(list(path))
            return
        for j in adj[path[-1]]:
            if j not in path:
                go(path + [j])
    go([start])
    return found


# -- leads and kwant ----------------------------------------------------------------------------------

def lead_model(s, ctx):
    norb = s.int(1, 2)
    cplx = s.bool(40)
    v1, v2 = [1.0, 0.0, 0.0], [0.25 if s.bool(30) else 0.0, 1.0, 0.0]
    lat = pb.Lattice(v1[:2], v2[:2])
    names = ["A", "B"][:s.int(1, 2)]
    spec = {}
    for i, n in enumerate(names):
        k = norb if i == 0 else s.int(1, 2)
        e = gen.hermitian(s, k, cplx)
        lat.add_one_sublattice(n, [0.3 * i, 0.3 * i], e if k > 1 or np.iscomplexobj(e) else float(e[0, 0]))
        spec[n] = (k, e)
    energies, terms = {}, []

    def hop(rel, a, b):
        m = gen.energy_matrix(s, spec[a][0], spec[b][0], cplx)
        if not np.any(m):
            m[0, 0] = 1.0
        name = "t%d" % len(energies)
        energies[name] = m
        lat.register_hopping_energies({name: m})
        lat.add_one_hopping(rel, a, b, name)
        terms.append((a, b, rel[0] * np.array(v1) + rel[1] * np.array(v2) + 0.3 * (ord(b) - ord(a)) * np.array([1, 1, 0]), m))
    hop([1, 0], "A", "A")
    hop([0, 1], "A", "A")
    if len(names) > 1:
        hop([0, 0], "A", "B")
        if s.bool():
            hop([1, 0], "B", "A")
    w, hgt = s.int(2, 4), s.int(2, 4)
    ctx.note("{} {} sample {} x {}", spec, {n: v.tolist() for n, v in energies.items()}, w, hgt)
    parts = [pb.rectangle(w + 0.7, hgt + 0.7)]
    factor = 1
    if s.bool(30):
        @pb.onsite_energy_modifier
        def bias(energy):
            return energy * 2
        parts.append(bias)
        factor = 2
        ctx.note("onsite energy doubled")
    m = pb.Model(lat, *parts)
    attached = 0
    for _ in range(s.int(0, 3)):
        d = s.pick([1, -1, 2, -2])
        half = (hgt if abs(d) == 1 else w) * 0.5 + 0.4
        lo = -half * s.pick([1.0, 0.5])
        line = pb.line([0, lo], [0, half]) if abs(d) == 1 else pb.line([lo, 0], [half, 0])
        ctx.note("lead {} from {} to {}", d, lo, half)
        try:
            m.attach_lead(d, line)
            m.system
        except RuntimeError as e:
            discard_if(True)
        attached += 1
    check(len(m.leads) == attached, "{} leads expected {}", len(m.leads), attached)
    return spec, terms, m, factor


def lead_bands(s, ctx):
    spec, terms, m, factor = lead_model(s, ctx)
    n = len(m.leads)
    ctx.nontrivial(n > 1 or (n and max(k for k, _ in spec.values()) > 1))
    check([l.index for l in m.leads] == list(range(n)), "leads {}", [l.index for l in m.leads])
    for l in m.leads:
        t = gen.Terms(l.system)
        check(len(l.system.boundaries) == 1, "{} boundaries of a lead", len(l.system.boundaries))
        check(len(l.indices) == t.n, "{} indices for {} sites", len(l.indices), t.n)
        shift = t.boundaries[0][0]
        sizes = [spec[x][0] for x in t.sub]
        h0, h1 = np.array(l.h0.toarray(), dtype=complex), np.array(l.h1.toarray(), dtype=complex)
        check(h0.shape == h1.shape == (sum(sizes),) * 2, "shapes {} {}", h0.shape, h1.shape)
        # the sites of the main system it is attached to are one unit cell away
        main = np.array([np.array(v, dtype=float) for v in m.system.positions]).T[np.array(l.indices)]
        check([x for x in np.array(m.system.sublattices)[np.array(l.indices)]] == list(np.array(l.system.sublattices)), "sublattices")
        check(np.allclose(main + shift, t.pos, atol=1e-4) or np.allclose(main - shift, t.pos, atol=1e-4) or np.allclose(main, t.pos, atol=1e-4),
              "positions {} next to {}", t.pos.tolist(), main.tolist())
        start, end = s.num(3.0), s.num(3.0) + 0.05
        step = s.pick([0.3, 0.7, 2.0])
        kw = {}
        if s.bool(20):
            start, end, step = -np.pi, np.pi, 0.7
            kw = {"step": step}
            bands = l.calc_bands(**kw)
        else:
            bands = l.calc_bands(start, end, step)
        path = np.array(pb.results.make_path(start, end, step=step)).reshape(-1)
        near(np.asarray(bands.k_path).reshape(-1), path, 1e-9, "k path")
        exp = np.array([np.linalg.eigvalsh(h0 + h1 * np.exp(1j * q) + h1.conj().T * np.exp(-1j * q)) for q in path])
        near(bands.energy, exp, 3e-4, "lead bands")
        # of the infinite lead, from the definition of the lattice: the second cell is the one closer to the system
        offset = np.concatenate([[0], np.cumsum(sizes)])
        ref = {n: np.zeros(h0.shape, dtype=complex) for n in (-1, 0, 1)}
        for i in range(t.n):
            ref[0][offset[i]:offset[i + 1], offset[i]:offset[i + 1]] += factor * np.array(spec[t.sub[i]][1])
        for a, b, d, e in terms:
            for n, i, j in itertools.product((-1, 0, 1), range(t.n), range(t.n)):
                if (t.sub[i], t.sub[j]) == (a, b) and np.allclose(t.pos[j] - n * shift - t.pos[i], d, atol=1e-3):
                    ref[n][offset[i]:offset[i + 1], offset[j]:offset[j + 1]] += e
                    ref[-n][offset[j]:offset[j + 1], offset[i]:offset[i + 1]] += np.conj(e).T
        near(h0, ref[0], 1e-5, "h0")
        near(h1, ref[1], 1e-5, "h1")


def kwant(s, ctx):
    if s.bool(40):
        spec, terms, m, factor = lead_model(s, ctx)
        norb = {n: k for n, (k, _) in spec.items()}
        dim = 2
    else:
        lat, sp = gen.lattice(s)
        for line in sp.text:
            ctx.note("{}", line)
        args, _ = gen.model(s, sp, lat, ctx=ctx)
        args = args[:1]
        norb, dim = dict(sp.norb), sp.dim
        names = sorted(norb)
        gone = s.pick(names) if len(names) > 1 and s.bool(40) else None
        if gone is not None:
            ctx.note("without the sublattice {}", gone)

            @pb.site_state_modifier
            def remove(state, sub_id):
                state[sub_id == gone] = False
                return state
            args.append(remove)
            ctx.label("missing sublattice")
        m = built(lat, *args)
    k = m.tokwant()
    t = gen.Terms(m.system)
    sizes = [norb[x] for x in t.sub]
    ctx.nontrivial(max(sizes) > 1 or len(m.leads) > 1)
    h = m.hamiltonian.toarray()
    check(k.graph.num_nodes == t.n, "{} nodes for {} sites", k.graph.num_nodes, t.n)
    for i in {0, t.n - 1, t.n // 2}:
        near(k.pos(i), t.pos[i][:dim], 1e-6, "position of node {}", i)
    with warnings.catch_warnings():
        warnings.simplefilter("error")
        sparse = k.hamiltonian_submatrix(sparse=True)
        near(sparse.toarray(), h, 1e-12, "sparse matrix")
        near(np.asarray(k.hamiltonian_submatrix()), h, 1e-12, "dense matrix")
        mat, to, frm = k.hamiltonian_submatrix(sparse=s.bool(), return_norb=True)
        check(mat.shape == h.shape and list(to) == sizes and list(frm) == sizes, "orbitals {} {} expected {}", list(to), list(frm), sizes)
        if max(sizes) == 1:
            i, j = s.int(0, t.n - 1), s.int(0, t.n - 1)
            check(k.hamiltonian(i, j) == h[i, j], "element {}", (i, j))
    for kw in ({"to_sites": [0]}, {"from_sites": [0]}):
        try:
            k.hamiltonian_submatrix(**kw)
        except RuntimeError:
            continue
        check(False, "{} was accepted", kw)
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        calls = [lambda **kw: k.hamiltonian_submatrix(**kw), lambda **kw: k.hamiltonian(0, 0, **kw)]
        for l in k.leads:
            calls += [lambda **kw: l.hamiltonian(0, 0, **kw), lambda **kw: l.cell_hamiltonian(**kw), lambda **kw: l.inter_cell_hopping(**kw)]
        for q, call in enumerate(calls):
            call(params={"v": 1})
            check(len(caught) == q + 1, "ignored parameters without a warning")
    check(len(k.leads) == len(k.lead_interfaces) == len(m.leads), "leads")
    for a, b, c in zip(k.leads, k.lead_interfaces, m.leads):
        check(list(b) == list(c.indices), "interface")
        near(a.cell_hamiltonian(sparse=True).toarray(), c.h0.toarray(), 1e-12, "lead cell")
        near(np.asarray(a.cell_hamiltonian()), c.h0.toarray(), 1e-12, "lead cell")
        near(np.asarray(a.inter_cell_hopping()), c.h1.toarray(), 1e-12, "lead hopping")
        near(a.inter_cell_hopping(sparse=True).toarray(), c.h1.toarray(), 1e-12, "lead hopping")


def run(s, ctx):
    kind = s.weighted(("materials", 3), ("modifiers", 4), ("lead_bands", 3), ("kwant", 3))
    if kind in ("lead_bands", "kwant"):
        ctx.label(kind)
    globals()[kind](s, ctx)

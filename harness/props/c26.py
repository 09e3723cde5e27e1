# C26: the Python lattice specification records what it is given, copies are independent, reciprocal space is right
import itertools
import numpy as np
import gen
import pybinding as pb
from pbt import check, discard_if

QUICK, THOROUGH = 16000, 300000
RULE = ("one of: random definition sequences through the Python calls (energies as Python and numpy scalars, lists, arrays of any "
        "type and layout, single and multiple calls, invalid calls) against a plain record; copies with another offset or neighbour "
        "count followed by changes on either side; reciprocal vectors of lattices of 1-3 random vectors (skewed, tilted) and "
        "Brillouin zones of 1D and 2D ones against a wide search over reciprocal points; non-trivial: at least five definition "
        "calls, a changed copy, or a lattice that is not rectangular")
ASSUMPTIONS = ["the extension module is the project's cppmodule compiled against a small stand-in for pybind11",
               "vectors are multiples of 1/8 with an angle of at least one degree between them, and zones are large against the rounding "
               "of the vectors in single precision"]


def close(a, b, tol=2e-5):
    a, b = np.asarray(a, dtype=complex), np.asarray(b, dtype=complex)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


# -- reciprocal space ---------------------------------------------------------------------------------

def vectors(s, dim, space):
    v = []
    if dim == 2 and space == 2 and s.bool(25):
        # a plain lattice given by vectors which are several steps away from the shortest ones
        a, b = [np.array([s.int(-4, 4) / 8, s.int(-4, 4) / 8, 0.0]) for _ in range(2)]
        for i in range(s.int(2, 5)):
            q = s.pick([1, -1, 2, -2])
            a, b = b + q * a, a
        v = np.array([a, b] if s.bool() else [b, a])
        n = np.linalg.norm(v, axis=1)
        discard_if(n.min() < 0.1 or n.max() > 12)
        discard_if(abs(np.linalg.det(v[:, :2])) < 0.015 * n[0] * n[1])
        return v
    for _ in range(dim):
        a = np.zeros(3)
        for d in range(space):
            a[d] = s.int(-12, 12) / 8
        v.append(a)
    v = np.array(v)
    gram = v @ v.T
    n = np.sqrt(np.diag(gram))
    discard_if(n.min() < 0.2)
    discard_if(abs(np.linalg.det(gram / np.outer(n, n))) < 0.003)
    return v


def reciprocal(s, ctx):
    dim = s.int(1, 3)
    space = s.int(dim, 3)
    v = vectors(s, dim, space)
    ctx.note("vectors {}", v.tolist())
    lat = pb.Lattice(*[a if s.bool(50) else list(a[:space]) for a in v])
    check(lat.ndim == dim, "ndim {}", lat.ndim)
    check(close(lat.vectors, v), "vectors are {}", np.array(lat.vectors).tolist())
    off = np.abs(v @ v.T - np.diag(np.diag(v @ v.T))).max()
    ctx.nontrivial(dim > 1 and off > 1e-9 or np.any(v[:, 0] == 0))
    b = np.array(lat.reciprocal_vectors(), dtype=float)
    check(b.shape == (dim, 3), "{} reciprocal vectors of shape {}", len(b), b.shape)
    cond = np.linalg.cond(v @ v.T)
    check(np.all(np.abs(v @ b.T - 2 * np.pi * np.eye(dim)) < 1e-5 * (1 + cond)), "products with the vectors are {}", (v @ b.T).tolist())
    # within the span of the lattice
    coef = np.linalg.solve(v @ v.T, v @ b.T)
    check(np.all(np.abs(b - coef.T @ v) < 1e-5 * (1 + cond) * (1 + np.abs(b).max())), "not in the plane of the lattice: {}", b.tolist())
    if dim == 3:
        try:
            lat.brillouin_zone()
        except Exception:
            return
        check(False, "there is no 3D Brillouin zone")
    if dim == 1:
        l = 2 * np.pi / np.linalg.norm(v[0])
        check(close(lat.brillouin_zone(), [-l / 2, l / 2]), "zone {}", lat.brillouin_zone())
        return
    if space > 2 and np.any(v[:, 2]):
        return
    exact = 2 * np.pi * np.linalg.inv(v[:, :2]).T       # rows are the reciprocal vectors
    scale = np.abs(exact).max()
    # all reciprocal points within reach: reduce the basis by exhaustive search over short combinations
    grid = np.array([p for p in itertools.product(range(-30, 31), repeat=2) if p != (0, 0)])
    points = grid @ exact
    zone = [np.asarray(p, dtype=float)[:2] for p in lat.brillouin_zone()]
    ctx.label("zone of {}".format(len(zone)))
    check(len(zone) >= 4, "{} corners", len(zone))
    tol = (2e-4 + 3e-7 * cond) * scale
    discard_if(tol > 0.05 * np.linalg.norm(points, axis=1).min())
    for p in zone:
        d0 = np.linalg.norm(p)
        d = np.linalg.norm(points - p, axis=1)
        check(d.min() > d0 - tol, "corner {} is nearer to {} than to the origin", p.tolist(), points[d.argmin()].tolist())
        check(np.sum(np.abs(d - d0) < tol) >= 2, "corner {} is not equally far from three reciprocal points", p.tolist())
    angle = [np.arctan2(p[1], p[0]) for p in zone]
    turn = sum(((angle[(i + 1) % len(angle)] - angle[i]) + np.pi) % (2 * np.pi) - np.pi for i in range(len(angle)))
    check(abs(turn - 2 * np.pi) < 1e-3, "corners are not in order around the origin: {}", angle)
    area = 0.5 * sum(p[0] * q[1] - p[1] * q[0] for p, q in zip(zone, zone[1:] + zone[:1]))
    want = abs(np.linalg.det(exact))
    check(abs(area - want) < 1e-3 * want + 2 * tol * sum(np.linalg.norm(p) for p in zone), "the zone has the area {} instead of {}", area, want)


# -- definitions --------------------------------------------------------------------------------------

def form_scalar(s, v):
    """The same scalar in some form"""
    if isinstance(v, complex):
        return s.pick([v, np.complex128(v), [[v]], np.array([[v]])])
    forms = [float(v), np.float64(v), [[v]], np.array([[v]])]
    if v == int(v):
        forms += [int(v)]
    return s.pick(forms)


def form_matrix(s, m):
    k = s.int(0, 5)
    if k == 0:
        return m.tolist()
    if k == 1:
        return np.asfortranarray(m)
    if k == 2:
        big = np.zeros((2 * m.shape[0], 2 * m.shape[1]), dtype=m.dtype)
        big[::2, ::2] = m
        return big[::2, ::2]
    if k == 3 and not np.iscomplexobj(m) and np.all(m == np.round(m)):
        return m.astype(int)
    if k == 4:
        return np.ascontiguousarray(m.T).T
    return m.copy()


def matrix(s, r, c, cplx):
    m = np.array([[s.int(-4, 4) / s.pick([1, 2]) for _ in range(c)] for _ in range(r)], dtype=float)
    if cplx:
        m = m + 1j * np.array([[s.int(-4, 4) / 2 for _ in range(c)] for _ in range(r)])
    return m


def definitions(s, ctx):
    dim = s.int(1, 3)
    lat = pb.Lattice(*np.eye(3)[:dim, :dim].tolist())
    subs, families, terms, calls = {}, {}, [], 0
    order = []

    def pos():
        p = [s.int(-3, 3) / 8 for _ in range(s.int(dim, 3))]
        return s.pick([p, np.array(p), tuple(p)]), p + [0.0] * (3 - len(p))

    def rejected(what, f, *a):
        try:
            f(*a)
        except Exception:
            return
        check(False, "{} was accepted", what)

    for _ in range(s.int(2, 9)):
        op = s.weighted(('sub', 4), ('subs', 1), ('alias', 1), ('register', 2), ('hop', 5), ('hops', 1), ('bad', 2))
        calls += 1
        ctx.label(op)
        if op in ('sub', 'subs'):
            batch = []
            for _ in range(1 if op == 'sub' else s.int(1, 3)):
                name = "S{}".format(len(subs))
                n = s.int(1, 3)
                p, want = pos()
                cplx = s.bool(40)
                kind = s.int(0, 3)
                if kind == 0 and n == 1:
                    e = np.zeros((1, 1))
                    args = (name, p)
                elif kind == 1:
                    diag = [s.int(-4, 4) / 2 for _ in range(n)]
                    e = np.diag(diag)
                    args = (name, p, s.pick([diag, np.array(diag)]) if n > 1 or s.bool() else form_scalar(s, diag[0]))
                else:
                    m = matrix(s, n, n, cplx)
                    m = np.triu(m) + np.triu(m, 1).conj().T
                    if cplx:
                        m = m - 1j * np.diag(np.diag(m).imag)
                    e = m
                    args = (name, p, form_matrix(s, m))
                subs[name] = [np.array(want), e, name, len(subs)]
                batch.append(args)
            ctx.note("{}", batch)
            if op == 'sub':
                lat.add_one_sublattice(*batch[0])
            else:
                lat.add_sublattices(*batch)
        elif op == 'alias' and subs:
            orig = s.pick(sorted(subs))
            name = "S{}".format(len(subs))
            p, want = pos()
            ctx.note("alias {} of {}", name, orig)
            if s.bool():
                lat.add_one_alias(name, orig, p)
            else:
                lat.add_aliases((name, orig, p))
            subs[name] = [np.array(want), subs[orig][1], subs[orig][2], len(subs)]
        elif op == 'register':
            new = {}
            for _ in range(s.int(1, 3)):
                name = "f{}".format(len(families) + len(new))
                if s.bool():
                    v = s.int(-4, 4) / 2 + 11 * (len(families) + len(new) + 1)
                    v = complex(v, 0.5) if s.bool(30) else v
                    new[name] = (np.array([[v]]), form_scalar(s, v))
                else:
                    m = matrix(s, s.int(1, 3), s.int(1, 3), s.bool(30)) + 11 * (len(families) + len(new) + 1)
                    new[name] = (m, form_matrix(s, m))
            ctx.note("register {}", {k: v[1] for k, v in new.items()})
            lat.register_hopping_energies({k: new[k][1] for k in s.shuffled(sorted(new))})
            for k in sorted(new):
                families[k] = [new[k][0], len(families)]
        elif op in ('hop', 'hops') and subs:
            batch, records = [], []
            for _ in range(1 if op == 'hop' else s.int(1, 3)):
                a, b = s.pick(sorted(subs)), s.pick(sorted(subs))
                rel = [s.int(-1, 1) for _ in range(dim)]
                full = tuple(rel + [0] * (3 - dim))
                key, conj = (full, a, b), (tuple(-r for r in full), b, a)
                if (a == b and not any(full)) or any(t[1] in (key, conj) for t in terms + records):
                    continue
                shape = (len(subs[a][1]), len(subs[b][1]))
                fits = [f for f, (m, _) in families.items() if m.shape == shape]
                if fits and s.bool(50):
                    name = s.pick(sorted(fits))
                    arg = name
                elif fits and s.bool(30):        # the same energy again: no new family
                    name = s.pick(sorted(fits))
                    m = families[name][0]
                    same = sorted((f for f in fits if np.array_equal(families[f][0], m)), key=lambda f: families[f][1])
                    discard_if(len(same) > 1)
                    arg = form_matrix(s, m) if m.size > 1 else form_scalar(s, m[0, 0].item())
                else:
                    m = matrix(s, shape[0], shape[1], s.bool(30)) + 11 * (len(families) + 1)
                    arg = form_matrix(s, m) if m.size > 1 else form_scalar(s, m[0, 0].item())
                    name = "__anonymous__{}".format(len(families))
                    families[name] = [m, len(families)]
                records.append((name, key))
                batch.append((s.pick([rel, tuple(rel), np.array(rel)]), a, b, arg))
            if not batch:
                continue
            ctx.note("hop {}", batch)
            if op == 'hop':
                lat.add_one_hopping(*batch[0])
            else:
                lat.add_hoppings(*batch)
            terms += records
        elif op == 'bad':
            kind = s.int(0, 6)
            if kind == 0 and subs:
                rejected("a second sublattice of the same name", lat.add_one_sublattice, s.pick(sorted(subs)), [0.0] * dim)
            elif kind == 1:
                rejected("an alias of an unknown sublattice", lat.add_one_alias, "bad", "nowhere", [0.0] * dim)
            elif kind == 2 and families:
                rejected("a second hopping of the same name", lat.register_hopping_energies, {s.pick(sorted(families)): 1.0})
            elif kind == 3 and terms:
                name, (rel, a, b) = s.pick(terms)
                rejected("the conjugate of a hopping", lat.add_one_hopping, [-r for r in rel], b, a, name if len(subs[a][1]) == len(subs[b][1]) == 1
                         else np.conj(families[name][0].T))
                # the refused family must not stay behind
            elif kind == 4 and subs:
                rejected("a hopping to an unknown sublattice", lat.add_one_hopping, [1] + [0] * (dim - 1), s.pick(sorted(subs)), "nowhere", 1.0)
            elif kind == 5 and subs:
                a = s.pick(sorted(subs))
                n = len(subs[a][1])
                rejected("a hopping matrix of the wrong size", lat.add_one_hopping, [5] + [0] * (dim - 1), a, a, np.ones((n + 1, n)) * 123)
            elif kind == 6:
                m = np.array([[1.0, 2.0, 3.0], [2.0, 1.0, 0.5]]) if s.bool() else np.array([[1.0, 2.0], [3.0, 1.0]])
                rejected("an onsite matrix which isn't Hermitian", lat.add_one_sublattice, "bad", [0.0] * dim, m)
    ctx.nontrivial(calls >= 5 and len(subs) > 1)
    check(lat.ndim == dim and lat.nsub == len(subs) and lat.nhop == len(families), "{} sublattices and {} families instead of {} and {}",
          lat.nsub, lat.nhop, len(subs), len(families))
    got = lat.sublattices
    check(sorted(got) == sorted(subs), "sublattices {}", sorted(got))
    for n, (p, e, orig, uid) in subs.items():
        check(close(got[n].position, p), "{} at {} instead of {}", n, got[n].position, p)
        check(close(got[n].energy, e), "{} has {} instead of {}", n, np.asarray(got[n].energy).tolist(), e.tolist())
        check(int(got[n].unique_id) == uid and int(got[n].alias_id) == subs[orig][3], "{} has the IDs {} and {}", n, got[n].unique_id, got[n].alias_id)
    hops = lat.hoppings
    check(sorted(hops) == sorted(families), "families {} instead of {}", sorted(hops), sorted(families))
    ids = {v[3]: n for n, v in subs.items()}
    for n, (m, fid) in families.items():
        check(close(hops[n].energy, m), "{} has {} instead of {}", n, np.asarray(hops[n].energy).tolist(), m.tolist())
        check(int(hops[n].family_id) == fid, "{} has the ID {} instead of {}", n, hops[n].family_id, fid)
        have = sorted((tuple(map(int, t.relative_index)), ids[int(t.from_id)], ids[int(t.to_id)]) for t in hops[n].terms)
        want = sorted(k for f, k in terms if f == n)
        check(have == want, "{} has the terms {} instead of {}", n, have, want)


# -- copies -------------------------------------------------------------------------------------------

def content(lat):
    return (np.array(lat.vectors).tolist(),
            {n: (np.asarray(v.position).tolist(), np.asarray(v.energy).tolist(), int(v.unique_id), int(v.alias_id)) for n, v in lat.sublattices.items()},
            {n: (np.asarray(v.energy).tolist(), int(v.family_id), [(tuple(map(int, t.relative_index)), int(t.from_id), int(t.to_id)) for t in v.terms])
             for n, v in lat.hoppings.items()})


def copies(s, ctx):
    lat, spec = gen.lattice(s, max_orb=2)
    for t in spec.text:
        ctx.note("{}", t)
    pool = [[lat, content(lat), np.zeros(3), 1]]
    changed = 0
    for _ in range(s.int(1, 5)):
        item = s.pick(pool)
        op = s.int(0, 4)
        if op in (0, 1):
            frac = [s.int(-5, 5) / 10 for _ in range(spec.dim)]
            if s.bool(15):
                frac[s.int(0, spec.dim - 1)] = s.pick([0.7, -0.8, 1.0])
            off = sum(f * v for f, v in zip(frac, spec.vectors))
            arg = s.pick([off, off[:spec.dim], list(off)])
            ctx.note("offset {}", frac)
            legal = max(abs(f) for f in frac) < 0.55
            try:
                if op == 0:
                    new = item[0].with_offset(arg)
                else:
                    item[0].offset = arg
            except Exception:
                check(not legal, "the offset {} was rejected", frac)
            else:
                check(legal, "the offset {} was accepted", frac)
                if op == 0:
                    pool.append([new, item[1], off, item[3]])
                else:
                    item[2] = off
                changed += 1
        elif op == 2:
            n = s.int(0, 4)
            pool.append([item[0].with_min_neighbors(n), item[1], item[2], n])
            ctx.note("with_min_neighbors({})", n)
            changed += 1
        elif op == 3:
            item[3] = s.int(0, 4)
            item[0].min_neighbors = item[3]
            ctx.note("min_neighbors = {}", item[3])
        else:
            item[0].add_one_sublattice("new%d" % len(item[1][1]), [0.0] * spec.dim, 3.0)
            item[0].register_hopping_energies({"more%d" % len(item[1][2]): 0.25})
            item[1] = content(item[0])
            ctx.note("more definitions")
        for l, c, o, n in pool:
            check(content(l) == c, "the definitions of another copy changed")
            check(close(l.offset, o), "the offset is {} instead of {}", np.asarray(l.offset).tolist(), o.tolist())
            check(l.min_neighbors == n, "min_neighbors is {} instead of {}", l.min_neighbors, n)
    ctx.nontrivial(changed > 0 and len(pool) > 1)
    # the offset moves the sites, nothing else
    l, c, o, n = s.pick(pool)
    blocks = [s.int(1, 2) for _ in range(spec.dim)]
    base = pb.Model(pool[0][0].with_offset([0.0, 0.0, 0.0]).with_min_neighbors(0), pb.primitive(*blocks))
    if content(l) == pool[0][1]:
        m = pb.Model(l.with_min_neighbors(0), pb.primitive(*blocks))
        check(close(np.array(m.system.positions).T, np.array(base.system.positions).T + o), "the sites are not moved by {}", o.tolist())
        check(abs(m.hamiltonian - base.hamiltonian).max() == 0, "the Hamiltonian depends on the offset")
    # radius for plots: within the given fraction of the spacing
    pos = [np.asarray(v.position, dtype=float) for v in l.sublattices.values()]
    d = [np.linalg.norm(p - q) for i, p in enumerate(pos) for q in pos[:i]]
    d = [x for x in d if x > 1e-6] or [np.linalg.norm(v) for v in spec.vectors]
    f = s.pick([0.1, 0.33, 0.49])
    if not any(0 < np.linalg.norm(p - q) <= 1e-6 for i, p in enumerate(pos) for q in pos[:i]):
        r = l.site_radius_for_plot(f)
        check(0 < r <= f * min(d) * (1 + 1e-5), "radius {} with a spacing of {}", r, min(d))


def run(s, ctx):
    kind = s.weighted((reciprocal, 3), (definitions, 4), (copies, 2))
    ctx.label(kind.__name__)
    kind(s, ctx)

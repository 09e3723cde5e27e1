"""Random lattices and models, with plain records of how they were defined"""
import itertools
import numpy as np

import pybinding as pb
from pbt import discard_if


class Spec:
    """Plain description of a lattice"""
    def __init__(self):
        self.vectors = []
        self.subs = {}      # name -> (position, onsite matrix, original name)
        self.hops = []      # (family name, relative index, from, to)
        self.energies = {}  # family name -> matrix
        self.text = []


def energy_matrix(s, rows, cols, cplx):
    m = np.array([[s.num(2.0) for _ in range(cols)] for _ in range(rows)])
    if cplx and s.bool(60):
        m = m + 1j * np.array([[s.num(2.0) for _ in range(cols)] for _ in range(rows)])
    return m


def hermitian(s, n, cplx):
    m = energy_matrix(s, n, n, cplx)
    m = np.triu(m) + np.triu(m, 1).conj().T
    return m - 1j * np.diag(np.diag(m).imag) if np.iscomplexobj(m) else m


def lattice(s, max_dim=3, max_orb=3, cplx=True, aliases=True, max_subs=3, max_range=1, axis_aligned=False, friendly=False):
    """-> (pb.Lattice, Spec)"""
    spec = Spec()
    dim = s.int(1, max_dim)
    vectors = []
    for d in range(dim):
        v = np.zeros(3)
        v[d] = s.pick([1.0, 0.5, 1.5])
        if not axis_aligned:
            for e in range(dim):
                if e != d and s.bool(30):
                    v[e] = s.pick([0.25, -0.25, 0.5])
        vectors.append(v)
    discard_if(abs(np.linalg.det(np.array([v[:dim] for v in vectors]))) < 0.05)
    spec.vectors = vectors
    lat = pb.Lattice(*[v[:dim] for v in vectors])
    names = ["A", "B", "C"]
    split = friendly and s.bool(25)  # names of two parts, which also compare equal to their first part
    if split:
        names = s.pick([["A|1", "A|2", "B"], ["A|1", "B|1", "A|2"], ["B|x", "A|", "B"]])
    names = names[:s.int(1, max_subs)]
    norb = {}
    for n in names:
        k = s.int(1, max_orb)
        pos = np.array([s.num(0.25, 8), s.num(0.25, 8) if dim > 1 or s.bool() else 0.0, s.num(0.25, 8) if dim > 2 or s.bool(20) else 0.0])
        e = hermitian(s, k, cplx)
        norb[n] = k
        spec.subs[n] = (pos, e, n)
        if k == 1 and not np.iscomplexobj(e) and s.bool():
            lat.add_one_sublattice(n, pos, float(e[0, 0]))
        else:
            lat.add_one_sublattice(n, pos, e)
    if aliases and s.bool(25):
        orig = s.pick(names)
        pos = np.array([s.num(0.25, 8), 0.3, 0.0])
        lat.add_one_alias(orig + "2", orig, pos)
        spec.subs[orig + "2"] = (pos, spec.subs[orig][1], orig)
        norb[orig + "2"] = norb[orig]
    every = list(spec.subs)
    seen = set()
    for i in range(s.int(1, 5)):
        a, b = s.pick(every), s.pick(every)
        rel = tuple(s.int(0, 2 * max_range) - max_range if d < dim else 0 for d in range(3))
        rel = tuple(((r + 1) // 2 * (1 if r % 2 else -1)) if False else r for r in rel)
        if a == b and rel == (0, 0, 0):
            rel = (1, 0, 0)
        if (rel, a, b) in seen or (tuple(-r for r in rel), b, a) in seen:
            continue
        seen.add((rel, a, b))
        family = None
        same = [f for f, m in spec.energies.items() if m.shape == (norb[a], norb[b])]
        if same and s.bool(40):
            family = s.pick(same)
        else:
            family = ("t|%d" if split and s.bool(60) else "t%d") % len(spec.energies)
            m = energy_matrix(s, norb[a], norb[b], cplx)
            discard_if(np.any(np.abs(m) > 1e5))
            if not np.any(m):
                m[0, 0] = 1.0
            spec.energies[family] = m
            lat.register_hopping_energies({family: m if m.shape != (1, 1) or np.iscomplexobj(m) else float(m[0, 0])})
        lat.add_one_hopping(list(rel[:dim]) if s.bool(50) else list(rel), a, b, family)
        spec.hops.append((family, rel, a, b))
    spec.dim = dim
    spec.norb = norb
    spec.text.append("lattice: vectors %s" % [v.tolist() for v in vectors])
    for n, (p, e, o) in spec.subs.items():
        spec.text.append("  sub %s at %s onsite %s%s" % (n, np.array(p).tolist(), np.array(e).tolist(), " alias of " + o if o != n else ""))
    for f, r, a, b in spec.hops:
        spec.text.append("  hop %s %s %s->%s %s" % (f, list(r), a, b, spec.energies[f].tolist()))
    return lat, spec


def finite_shape(s, spec, small=True):
    """A shape or block argument for pb.Model and its description"""
    dim = spec.dim
    n = [s.int(1, 4 if dim < 3 else 3) for _ in range(dim)]
    if s.bool(50) or dim == 1:
        return pb.primitive(*n), "primitive%s" % (tuple(n),)
    if dim == 2:
        kind = s.int(0, 2)
        w, h = s.real(0.6, 4.0), s.real(0.6, 4.0)
        if kind == 0:
            return pb.rectangle(w, h), "rectangle(%g, %g)" % (w, h)
        if kind == 1:
            return pb.circle(w / 2 + 0.3), "circle(%g)" % (w / 2 + 0.3)
        return pb.regular_polygon(3 + s.int(0, 3), w / 2 + 0.4), "polygon(%g)" % (w / 2 + 0.4)
    def inside(x, y, z):
        return x ** 2 + y ** 2 + z ** 2 < 1.0
    return pb.FreeformShape(inside, [2.2, 2.2, 2.2]), "sphere"


def model(s, spec, lat, periodic=40, ctx=None):
    """A model of the lattice; -> (list of model arguments, wave vector or None)"""
    shape, text = finite_shape(s, spec)
    args = [shape]
    k = None
    if s.bool(periodic):
        axes = [s.bool(70) for _ in range(spec.dim)]
        lengths = []
        for d in range(spec.dim):
            if axes[d]:
                lengths.append(float(np.linalg.norm(spec.vectors[d])) * s.int(1, 2))
            else:
                lengths.append(None)
        args.append(pb.translational_symmetry(*[(x if x is not None else False) for x in lengths]))
        text += " symmetry%s" % (tuple(lengths),)
        if s.bool(70):
            k = np.array([s.num(3.0) if d < spec.dim else 0.0 for d in range(3)])
            text += " k=%s" % k.tolist()
    if ctx is not None:
        ctx.note("model: {}", text)
    return args, k


def build(lat, args, k=None):
    m = pb.Model(lat, *args)
    if k is not None:
        m.set_wave_vector(k)
    return m


def named(name, other):
    return name == other or name.split("|")[0] == other


class Terms:
    """Plain copy of a system's structure"""
    def __init__(self, system):
        self.pos = np.array([np.array(v, dtype=float) for v in system.positions]).T.reshape(-1, 3)
        ids = np.array(system.sublattices)
        names = {v: str(k) for k, v in system.sublattices.mapping.items()}
        self.sub = [names[i] for i in ids]
        self.n = len(ids)
        hop_names = {v: str(k) for k, v in system.hoppings.tocsr().mapping.items()}
        def pairs(h):
            c = h.tocoo()
            return [(int(i), int(j), hop_names[int(d)]) for i, j, d in zip(c.row, c.col, np.array(c.data))]
        self.hops = pairs(system.hoppings)
        self.boundaries = [(np.array(b.shift, dtype=float), pairs(b.hoppings)) for b in system.boundaries]


def dense(terms, norb, onsite, hopping, k=None):
    """onsite(i) -> matrix, hopping(i, j, family, p1, p2) -> matrix; the Bloch Hamiltonian"""
    sizes = [norb[n] for n in terms.sub]
    start = np.concatenate([[0], np.cumsum(sizes)]).astype(int)
    h = np.zeros((start[-1], start[-1]), dtype=complex)

    def block(i, j):
        return slice(start[i], start[i + 1]), slice(start[j], start[j + 1])
    for i in range(terms.n):
        h[block(i, i)] += onsite(i)
    for i, j, f in terms.hops:
        t = hopping(i, j, f, terms.pos[i], terms.pos[j])
        h[block(i, j)] += t
        h[block(j, i)] += np.conj(t.T)
    for shift, pairs in terms.boundaries:
        for i, j, f in pairs:
            t = hopping(i, j, f, terms.pos[i], terms.pos[j] - shift)
            phase = np.exp(1j * np.dot(k, shift)) if k is not None else 1.0
            h[block(i, j)] += t * phase
            h[block(j, i)] += np.conj(t.T * phase)
    return h

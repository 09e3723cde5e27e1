# C27: Python shapes contain exactly the points of their formula, under composition and offsets
import numpy as np
import pybinding as pb
from pbt import check, discard_if

QUICK, THOROUGH = 12000, 200000
RULE = ("random trees of and/or/xor/add/subtract over polygons, rectangles, regular polygons, circles, 2D and 3D freeform shapes, "
        "with offsets at any node, and lines; membership of random and grid points against double precision formulas (points within "
        "1e-4 of any edge excluded), bounding vertices against the contained points, and the sites of a model built from the shape "
        "against all lattice points inside of it; non-trivial: at least one composition or offset and points on either side")
ASSUMPTIONS = ["the extension module is the project's cppmodule compiled against a small stand-in for pybind11"]
EPS = 1e-4


def xyz(points):
    return [np.ascontiguousarray(points[:, i], dtype=np.float32) for i in range(3)]


class Node:
    """A shape, its description, and `margin(points)`: positive inside, negative outside, near zero on an edge"""
    def __init__(self, shape, text, eval_, composed=0, hull=None):
        self.shape, self.text, self.eval, self.composed, self.hull = shape, text, eval_, composed, hull


# `eval(points)` -> (inside, safe): boolean arrays; unsafe points are too close to the edge of some part

def polygon_eval(v):
    v = np.array(v, dtype=float)[:, :2]

    def f(p):
        p = p[:, :2]
        inside = np.zeros(len(p), dtype=bool)
        safe = np.ones(len(p), dtype=bool)
        for a, b in zip(v, np.roll(v, -1, axis=0)):
            e = b - a
            l2 = e @ e
            t = np.clip(((p - a) @ e) / l2, 0, 1) if l2 > 0 else np.zeros(len(p))
            safe &= np.linalg.norm(p - (a + t[:, None] * e), axis=1) > EPS
            # crossing number of a ray towards +y (the code under test shoots along x)
            cross = (a[0] > p[:, 0]) != (b[0] > p[:, 0])
            with np.errstate(divide="ignore", invalid="ignore"):
                y = a[1] + (p[:, 0] - a[0]) * (b[1] - a[1]) / (b[0] - a[0])
            inside ^= cross & (y > p[:, 1])
        return inside, safe
    return f


def circle_eval(r, c):
    c = np.array(list(c) + [0.0] * (2 - len(c)))

    def f(p):
        d = np.linalg.norm(p[:, :2] - c, axis=1)
        return d < r, np.abs(d - r) > EPS
    return f


def shifted_eval(f, v):
    return lambda p: f(p - v)


def vector(s, dim=None):
    n = dim or s.int(2, 3)
    return [s.int(-8, 8) / 4 for _ in range(n)]


def full(v):
    return np.array(list(v) + [0.0] * (3 - len(v)), dtype=float)


def leaf(s, dim):
    kind = s.int(0, 5) if dim == 2 else s.int(4, 5)
    if kind == 0:
        n = s.int(3, 6)
        # a star-shaped polygon around a random center: simple, not always convex
        angles = np.sort([2 * np.pi * (i + s.int(0, 8) / 10) / n for i in range(n)])
        c = [s.int(-4, 4) / 4, s.int(-4, 4) / 4]
        v = [[c[0] + r * np.cos(a), c[1] + r * np.sin(a)] for a, r in ((a, s.int(2, 8) / 4) for a in angles)]
        if s.bool():
            v = v[::-1]
        given = [p + [0.0] for p in v] if s.bool() else v
        return Node(pb.Polygon(given), "polygon({})".format(np.round(v, 3).tolist()), polygon_eval(v), hull=np.array([p + [0.0] for p in v]))
    if kind == 1:
        w = s.int(1, 10) / 4
        h = s.pick([None, s.int(1, 10) / 4])
        shape = pb.rectangle(w, h) if h or s.bool() else pb.rectangle(w)
        h = h or w
        v = [[w / 2, h / 2], [w / 2, -h / 2], [-w / 2, -h / 2], [-w / 2, h / 2]]
        return Node(shape, "rectangle({}, {})".format(w, h), polygon_eval(v), hull=np.array([p + [0.0] for p in v]))
    if kind == 2:
        n, r, a = s.int(3, 8), s.int(2, 8) / 4, s.int(0, 6) / 3
        v = [[r * np.sin(a + 2 * np.pi * i / n), r * np.cos(a + 2 * np.pi * i / n)] for i in range(n)]
        return Node(pb.regular_polygon(n, r, a), "regular_polygon({}, {}, {})".format(n, r, a), polygon_eval(v), hull=np.array([p + [0.0] for p in v]))
    if kind == 3:
        r, c = s.int(1, 8) / 4, [s.int(-4, 4) / 4, s.int(-4, 4) / 4]
        return Node(pb.circle(r, c) if s.bool(70) or any(c) else pb.circle(r), "circle({}, {})".format(r, c), circle_eval(r, c),
                    hull=np.array([[c[0] + i * r, c[1] + j * r, 0] for i in (-1, 1) for j in (-1, 1)]))
    # a freeform ellipsoid within its box; 2D ones do not depend on z
    n = dim
    w = [s.int(2, 8) / 2 for _ in range(n)]
    cn = s.int(0, n)
    c = [s.int(-4, 4) / 4 for _ in range(cn)]
    cf = np.array(c + [0.0] * (n - cn))
    power = s.pick([1, 2])

    def contains(x, y, z):
        q = sum((np.abs(v - cf[i]) * 2 / w[i])**power for i, v in enumerate((x, y, z)[:n]))
        return q < 1

    def f(p):
        q = sum((np.abs(p[:, i] - cf[i]) * 2 / w[i])**power for i in range(n))
        return q < 1, np.abs(q - 1) > 10 * EPS
    shape = pb.FreeformShape(contains, w, c) if cn else pb.FreeformShape(contains, w)
    corners = np.array([[cf[i] + (w[i] / 2 if b >> i & 1 else -w[i] / 2) for i in range(n)] + [0.0] * (3 - n) for b in range(2**n)])
    return Node(shape, "freeform({}, {}, {})".format(w, c, power), f, hull=corners)


def tree(s, dim, depth):
    if depth == 0 or s.bool(25):
        node = leaf(s, dim)
    else:
        a, b = tree(s, dim, depth - 1), tree(s, dim, depth - 1)
        op = s.pick("&|^+-")
        shape = {"&": lambda: a.shape & b.shape, "|": lambda: a.shape | b.shape, "^": lambda: a.shape ^ b.shape,
                 "+": lambda: a.shape + b.shape, "-": lambda: a.shape - b.shape}[op]()

        def f(p):
            (x, sx), (y, sy) = a.eval(p), b.eval(p)
            return {"&": x & y, "|": x | y, "^": x != y, "+": x | y, "-": x & ~y}[op], sx & sy
        node = Node(shape, "({} {} {})".format(a.text, op, b.text), f, a.composed + b.composed + 1, np.vstack([a.hull, b.hull]))
    if s.bool(30):
        v = vector(s)
        arg = s.pick([v, np.array(v), tuple(v)])
        old = [np.array(p, dtype=float) for p in node.shape.vertices]
        shape = node.shape.with_offset(arg)
        new = [np.array(p, dtype=float) for p in shape.vertices]
        check(len(old) == len(new) and np.allclose(np.array(new), np.array(old) + full(v), atol=1e-5), "vertices {} moved by {} are {}", old, v, new)
        again = [np.array(p, dtype=float) for p in node.shape.vertices]
        check(np.array_equal(np.array(again), np.array(old)), "the original was moved")
        node = Node(shape, node.text + ".with_offset({})".format(v), shifted_eval(node.eval, full(v)), node.composed + 1, node.hull + full(v))
    return node


def points(s, node, dim):
    lo, hi = node.hull.min(axis=0), node.hull.max(axis=0)
    rng = s.rng()
    n = 60
    p = lo + (hi - lo) * (rng.random((n, 3)) * 1.3 - 0.15)
    p[:20] = np.round(p[:20] * 4) / 4 + 0.01
    p[20:30] += (rng.random((10, 3)) - 0.5) * 8
    if dim == 2 and s.bool():
        p[:, 2] = 0
    return p.astype(np.float32).astype(float)


def membership(s, ctx, node, dim):
    p = points(s, node, dim)
    want, safe = node.eval(p)
    got = np.asarray(node.shape.contains(*xyz(p)))
    check(got.shape == (len(p),) and got.dtype == bool, "contains gives {} of shape {}", got.dtype, got.shape)
    bad = np.flatnonzero((got != want) & safe)
    check(len(bad) == 0, "{} is {} for {}", p[bad[0]].tolist() if len(bad) else None, "inside" if len(bad) and got[bad[0]] else "outside", node.text)
    ctx.nontrivial(node.composed > 0 and want[safe].any() and not want[safe].all())
    ctx.label("composed", node.composed > 0)
    # one point at a time
    i = s.int(0, len(p) - 1)
    one = np.asarray(node.shape.contains(*xyz(p[i:i + 1])))
    check(one.shape == (1,) and (one[0] == want[i] or not safe[i]), "a single point")


def in_hull(v, p, tol):
    """Is p within the convex hull of the vertices? By separating directions"""
    rng = np.random.RandomState(1)
    d = rng.normal(size=(200, 3))
    d = np.vstack([d, np.eye(3), -np.eye(3)])
    d /= np.linalg.norm(d, axis=1)[:, None]
    return np.all(p @ d.T <= (v @ d.T).max(axis=0) + tol, axis=1)


def sites(s, ctx, node, dim):
    """A model of the shape has exactly the lattice points inside"""
    a = [s.pick([0.25, 0.5, 0.4]) for _ in range(dim)]
    vectors = np.diag(a)
    if s.bool():
        vectors[0, 1] = a[1] * s.pick([0.5, 0.25])
    if dim == 3 and s.bool():
        vectors[2, 0] = a[0] * 0.5
    shift = np.array([s.int(-4, 4) / 10 + 0.03 for _ in range(dim)]) @ vectors
    subs = [np.array([0.0] * dim), np.array([s.int(1, 6) / 40 for _ in range(dim)])][:s.int(1, 2)]
    lat = pb.Lattice(*vectors.tolist())
    for i, q in enumerate(subs):
        lat.add_one_sublattice("AB"[i], q)
    lat = lat.with_offset(shift).with_min_neighbors(0)
    lo, hi = node.hull.min(axis=0)[:dim], node.hull.max(axis=0)[:dim]
    corners = np.array([[(lo, hi)[b >> i & 1][i] for i in range(dim)] for b in range(2**dim)])
    idx = np.linalg.solve(vectors.T, corners.T).T
    rng = [np.arange(int(np.floor(idx[:, i].min())) - 4, int(np.ceil(idx[:, i].max())) + 5) for i in range(dim)]
    cells = np.stack([g.ravel() for g in np.meshgrid(*rng, indexing="ij")], axis=1)
    discard_if(len(cells) > 40000)
    want, sure = [], []
    for q in subs:
        p = cells @ vectors + q + shift
        p = np.hstack([p, np.zeros((len(p), 3 - dim))])
        inside, safe = node.eval(p)
        want.append(p[inside & safe])
        sure.append(p[~safe])
    want, unsure = np.vstack(want), np.vstack(sure)
    ctx.note("lattice {} offset {} subs {}", vectors.tolist(), shift.tolist(), [q.tolist() for q in subs])
    v = np.array([np.array(q, dtype=float) for q in node.shape.vertices])
    flat = np.array([1.0, 1.0, 1.0 if dim == 3 else 0.0])    # the third coordinate of a 2D shape has no meaning
    check(np.all(in_hull(v * flat, want * flat, 2e-3)), "the bounding vertices leave out a part of the shape")
    if len(want) == 0:
        return
    m = pb.Model(lat, node.shape)
    got = np.array(m.system.positions, dtype=float).T
    ctx.label("model")

    def keys(p):
        return {tuple(r) for r in np.round(p * 1000 / 2).astype(int).tolist()}
    # positions differ by at least 1/40 or are compared with a tolerance
    def missing(a, b):
        """Points of `a` which are not among `b`"""
        if not len(a):
            return a
        if not len(b):
            return a
        d = np.abs(a[:, None, :] - b[None, :, :]).max(axis=2).min(axis=1)
        return a[d > 1e-3]
    lost = missing(want, got)
    extra = missing(got, np.vstack([want, unsure]))
    check(len(lost) == 0, "the site {} is missing: {} of {}", lost[:1].tolist(), len(lost), len(want))
    check(len(extra) == 0, "the site {} is outside", extra[:1].tolist())
    check(len(want) <= len(got) <= len(want) + len(unsure), "{} sites instead of {}", len(got), len(want))
    check(m.shape is node.shape, "model.shape is another shape")


def symmetry(s, ctx):
    """translational_symmetry and primitive: number of sites, boundary shifts"""
    dim = s.int(1, 3)
    length = [s.pick([1.0, 0.5, 0.75]) for _ in range(dim)]
    lat = pb.Lattice(*[[length[d] if e == d else 0.0 for e in range(dim)] for d in range(dim)])
    lat.add_one_sublattice("A", [0.0] * dim)
    for d in range(dim):
        rel = [int(e == d) for e in range(dim)]
        lat.add_one_hopping(rel, "A", "A", -1.0)
    periods, lengths, parts = [], [], []
    size = [s.int(1, 5) for _ in range(dim)]
    for d in range(dim):
        # False: not periodic, True: a unit cell, a length: rounded to the nearest number of unit cells
        v = s.pick([False, True, "length", "default"])
        if v == "length":
            n = s.int(1, 4)
            v = length[d] * (n + s.pick([0, 0.2, -0.2]))
            v = s.pick([float, np.float64])(v)
        elif v == "default":
            n = 1
        else:
            n = 1 if v else None
        periods.append(n)
        lengths.append(v)
    size = [max(c, q or 1) for c, q in zip(size, periods)]  # (a smaller block leaves gaps)
    kw = {"a%d" % (d + 1): v for d, v in enumerate(lengths) if v != "default" or isinstance(v, bool)}
    positional = s.bool() and len(kw) == dim
    sym = pb.translational_symmetry(*lengths) if positional else pb.translational_symmetry(**kw)
    ctx.note("lengths {} of the vectors {}, block {}", lengths, length, size)
    block = pb.primitive(*size) if s.bool(70) else pb.primitive(**{"a%d" % (d + 1): n for d, n in enumerate(size)})
    m = pb.Model(lat, block, sym) if s.bool() else pb.Model(lat, sym, block)
    n = [q if q is not None else c for q, c in zip(periods, size)]
    check(m.system.num_sites == int(np.prod(n)), "{} sites instead of {}", m.system.num_sites, n)
    ctx.nontrivial(any(periods) and not all(periods))
    # a shift for every combination of periodic directions in which a hopping crosses the boundary
    want = sorted(tuple(periods[d] * length[d] * (e == d) for e in range(3)) for d in range(dim) if periods[d] is not None)
    got = [np.array(b.shift, dtype=float) for b in m.system.boundaries if b.hoppings.nnz]
    got = sorted(tuple(np.abs(v)) for v in got)
    check(np.allclose(got, want, atol=1e-5) and len(got) == len(want), "boundaries {} instead of {}", got, want)


def line(s, ctx):
    dim = s.int(1, 2)
    a = [s.int(-6, 6) / 4 for _ in range(dim)]
    b = [s.int(-6, 6) / 4 for _ in range(dim)]
    discard_if(a == b)
    form = s.int(0, 2)
    if dim == 1 and form == 0:
        shape = pb.line(a[0], b[0])
    elif form == 1:
        shape = pb.line(a, b)
    else:
        shape = pb.line(np.array(a), np.array(b))
    text = "line({}, {})".format(a, b)
    a, b = full(a), full(b)
    if s.bool(60):
        v = vector(s, s.int(1, 3))[:2] if s.bool() else vector(s, 2)
        shape = shape.with_offset(v)
        a, b = a + full(v), b + full(v)
        text += ".with_offset({})".format(v)
        ctx.nontrivial()
    ctx.note("{}", text)
    v = [np.array(p, dtype=float) for p in shape.vertices]
    check(len(v) == 2 and np.allclose(v[0], a, atol=1e-5) and np.allclose(v[1], b, atol=1e-5), "ends {} instead of {} and {}", v, a, b)
    rng = s.rng()
    p = ((a + b) / 2 + (rng.random((40, 3)) - 0.5) * 6)
    p[:, 2] *= s.pick([0, 1])
    p = p.astype(np.float32).astype(float)
    t = (p - a) @ (b - a) / ((b - a) @ (b - a))
    far = np.minimum(np.abs(t), np.abs(t - 1)) > 1e-3
    got = np.asarray(shape.contains(*xyz(p)))
    want = (t > 0) & (t < 1)
    bad = np.flatnonzero((got != want) & far)
    check(len(bad) == 0, "{} of {} is {}", p[bad[:1]].tolist(), text, got[bad[:1]].tolist())


def factories(s, ctx):
    n, r, a = s.int(3, 12), s.int(1, 12) / 4, s.int(0, 12) / 4
    v = np.array([np.array(p, dtype=float) for p in pb.regular_polygon(n, r, a).vertices])
    ctx.nontrivial()
    check(v.shape == (n, 3) and np.allclose(np.linalg.norm(v, axis=1), r, atol=1e-5), "corners of a regular polygon: {}", v.tolist())
    sides = np.linalg.norm(v - np.roll(v, 1, axis=0), axis=1)
    check(np.allclose(sides, 2 * r * np.sin(np.pi / n), atol=1e-5), "sides of a regular polygon: {}", sides.tolist())
    check(np.allclose(v[0], [r * np.sin(a), r * np.cos(a), 0], atol=1e-5), "first corner {}", v[0].tolist())
    w, h = s.int(1, 12) / 4, s.pick([None, s.int(1, 12) / 4])
    v = np.array([np.array(p, dtype=float) for p in pb.rectangle(w, h).vertices])
    h = h or w
    check(v.shape == (4, 3) and {tuple(p) for p in v.tolist()} == {(i * w / 2, j * h / 2, 0.0) for i in (-1, 1) for j in (-1, 1)}, "corners {}", v.tolist())
    c = [s.int(-4, 4) / 4, s.int(-4, 4) / 4]
    v = np.array([np.array(p, dtype=float) for p in pb.circle(r, c).vertices])
    check(np.allclose(v.min(axis=0), [c[0] - r, c[1] - r, 0], atol=1e-5) and np.allclose(v.max(axis=0), [c[0] + r, c[1] + r, 0], atol=1e-5), "box {}", v.tolist())
    for bad in ([], [[0, 0]], [[0, 0], [1, 1]]):
        try:
            pb.Polygon(bad)
        except Exception:
            continue
        check(False, "a polygon of {} corners was accepted", len(bad))


def run(s, ctx):
    kind = s.weighted(('tree', 10), ('line', 2), ('factories', 1), ('symmetry', 2))
    ctx.label(kind)
    if kind == 'line':
        return line(s, ctx)
    if kind == 'symmetry':
        return symmetry(s, ctx)
    if kind == 'factories':
        return factories(s, ctx)
    dim = s.weighted((2, 3), (3, 1))
    ctx.label("{}D".format(dim))
    node = tree(s, dim, s.int(0, 2))
    ctx.note("{}", node.text)
    membership(s, ctx, node, dim)
    if s.bool(35):
        sites(s, ctx, node, dim)

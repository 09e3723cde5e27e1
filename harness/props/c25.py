# C25: result containers keep values attached to their coordinates through every operation
import copy
import os
import numpy as np
import pybinding as pb
from pybinding.results import Sweep, NDSweep, Series, Bands, Eigenvalues, SpatialMap, Path, make_path
from pybinding.support.fuzzy_set import FuzzySet
from pybinding.support.pickle import pickleable
from pbt import check, discard_if

QUICK, THOROUGH = 24000, 500000
RULE = ("one of: paths through 2-5 random points in 1-3 dimensions (repeated points, short segments); chains of 1-4 operations "
        "(indexing with scalars, slices, masks, index lists and open meshes, cropping, mirroring, interpolation, text files, "
        "nearest slices) on random 2D sweeps against plain dictionaries from coordinates to values; n-dimensional sweeps; series; "
        "bands; spatial maps written to text; fuzzy sets against a plain list; versioned pickle states; non-trivial: at least "
        "three points, two operations or four values")
ASSUMPTIONS = ["interpolated axes have points at least 0.25 apart; path lengths within 1e-9 of a multiple of the step may be "
               "divided either way"]


def near(a, b, tol=1e-9):
    a, b = np.asarray(a, dtype=complex), np.asarray(b, dtype=complex)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


def digits(rows, want):
    """Text with six significant digits"""
    a, b = np.asarray(rows, dtype=float), np.asarray(want, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 6e-6 * np.abs(b) + 1e-300))


# -- k-paths ------------------------------------------------------------------------------------------

def point(s, dim, form):
    p = [s.int(-8, 8) / 2 for _ in range(dim)]
    if form == 0 and dim == 1:
        return p[0]
    return p if form == 1 else np.array(p) if form == 2 else tuple(p)


def path(s, ctx):
    dim, n = s.int(1, 3), s.int(2, 5)
    form = s.int(0, 3)
    pts = [point(s, dim, form) for _ in range(n)]
    for i in range(1, n):
        if s.bool(10):
            pts[i] = pts[i - 1]
    step = s.pick([0.1, 0.25, 0.3, 0.7, 1.0, 1.5, 4.0])
    ctx.note("make_path({}, step={})", pts, step)
    if s.bool(10):
        wrong = [0.5] * (dim + 1)
        i = s.int(0, n - 1)
        bad = pts[:i] + [wrong] + pts[i + 1:]
        try:
            make_path(*bad, step=step)
        except Exception:
            return
        check(False, "points of different dimensions were accepted: {}", bad)
    result = make_path(*pts, step=step)
    ref = [np.atleast_1d(np.array(p, dtype=float)) for p in pts]
    arr = np.asarray(result)
    ctx.nontrivial(n > 2 or len(arr) > 3)
    idx = list(result.point_indices)
    check(len(idx) == n and idx[0] == 0 and idx[-1] == len(arr) - 1, "point indices {} for {} samples", idx, len(arr))
    check(near(arr[idx], ref), "the path has {} instead of the given points", arr[idx].tolist())
    check(near(np.asarray(result.points), ref), "points are {}", np.asarray(result.points).tolist())
    check(result.is_simple == (n == 2), "is_simple is {}", result.is_simple)
    for a, b, p, q in zip(idx[:-1], idx[1:], ref[:-1], ref[1:]):
        length = np.linalg.norm(q - p)
        steps = b - a
        lo, hi = (max(1, int(np.floor(length / step + e))) for e in (-1e-9, 1e-9))
        check(lo <= steps <= hi, "segment of length {} has {} steps of {}", length, steps, step)
        want = [p + (q - p) * k / steps for k in range(steps)]
        check(near(arr[a:b], want), "samples {} instead of {}", arr[a:b].tolist(), want)
    if n == 2:
        if np.any(ref[0] != ref[1]):
            axis = int(np.flatnonzero(ref[1] - ref[0])[0])
            check(near(np.ravel(result.as_1d()), arr[:, axis]), "as_1d {}", np.asarray(result.as_1d()).tolist())
    else:
        check(near(result.as_1d(), np.arange(len(arr))), "as_1d {}", np.asarray(result.as_1d()).tolist())
    bands = Bands(result, np.zeros((len(arr), 3)))
    check(list(bands.k_path.point_indices) == idx and bands.num_bands == 3, "bands lose the path")
    plain = Bands(arr, np.zeros((len(arr), 2)))
    check(list(plain.k_path.point_indices) == [0, len(arr) - 1], "bands of a plain array: {}", plain.k_path.point_indices)


# -- sweeps -------------------------------------------------------------------------------------------

def axis(s, n, dtype, from_zero):
    v = 0.0 if from_zero else s.int(-6, 6) / 2
    out = []
    for _ in range(n):
        out.append(v)
        v += s.int(1, 8) / 4 if dtype != np.int64 else s.int(1, 3)
    a = np.array(out)
    if dtype == np.int64:
        a = np.round(a)
    return a.astype(dtype)


def index(s, n, ctx):
    """An index for numpy, and the plain list of selected positions"""
    kind = s.int(0, 4)
    if kind == 0:
        lo, hi = s.int(0, n), s.int(0, n)
        st = s.pick([None, 1, 2, -1])
        i = slice(s.pick([None, lo]), s.pick([None, hi]), st)
        return i, list(range(n))[i]
    if kind == 1:
        i = s.int(-n, n - 1)
        return s.pick([i, np.int64(i)]), [i % n]
    if kind == 2:
        m = [s.bool(60) for _ in range(n)]
        return np.array(m), [k for k in range(n) if m[k]]
    if kind == 3:
        i = [s.int(-n, n - 1) for _ in range(s.int(1, 4))]
        return s.pick([i, np.array(i)]), [k % n for k in i]
    return slice(None), list(range(n))


def same_sweep(sw, m, what, factor=1.0):
    x, y, d = m
    check(np.shape(sw.x) == (len(x),) and near(sw.x, x, 1e-6), "{}: x is {} instead of {}", what, np.asarray(sw.x).tolist(), list(x))
    check(np.shape(sw.y) == (len(y),) and near(sw.y, y, 1e-6), "{}: y is {} instead of {}", what, np.asarray(sw.y).tolist(), list(y))
    check(np.shape(sw.data) == (len(x), len(y)), "{}: data has shape {} for {} and {} coordinates", what, np.shape(sw.data), len(x), len(y))
    check(near(np.asarray(sw.data) / factor, np.asarray(d) / factor, 2e-5), "{}: data is {} instead of {}", what, np.asarray(sw.data).tolist(), np.asarray(d).tolist())


def lerp(xs, ys, x):
    """Linear interpolation by hand in double precision"""
    xs = [float(v) for v in xs]
    order = sorted(range(len(xs)), key=lambda i: xs[i])
    for a, b in zip(order[:-1], order[1:]):
        if xs[a] <= x <= xs[b] or b == order[-1]:
            t = (x - xs[a]) / (xs[b] - xs[a])
            return ys[a] * (1 - t) + ys[b] * t
    return ys[order[0]]


def sweep(s, ctx):
    nx, ny = s.int(1, 5), s.int(1, 5)
    dtype = s.pick([np.float64, np.float32, np.int64])
    x, y = axis(s, nx, dtype, s.bool(60)), axis(s, ny, s.pick([np.float64, np.float32]), s.bool(60))
    d = np.array([[s.num(3) for _ in range(ny)] for _ in range(nx)])
    factor = s.pick([1, 1, 1, 1e-7, 1e-3, 1e5])
    d = d * factor
    labels, tags = s.pick([None, dict(title="t", x=r"$\alpha$ (eV)")]), s.pick([None, dict(a=1)])
    sw = Sweep(x if s.bool() else list(x), y, d, labels, tags)
    m = (x.astype(float), y.astype(float), d.copy())
    ctx.note("x {} y {} data {}", x.tolist(), y.tolist(), d.tolist())
    ops = s.int(1, 4)
    ctx.nontrivial(ops > 1 and nx > 1 and ny > 1)
    for _ in range(ops):
        nx, ny = len(m[0]), len(m[1])
        if not nx or not ny:
            break
        before = (np.array(sw.x), np.array(sw.y), np.array(sw.data))
        op = s.weighted(('index', 5), ('crop', 3), ('mirror', 2), ('interpolate', 3), ('text', 1), ('nearest', 1))
        ctx.label(op)
        if op == 'index':
            ix, lx = index(s, nx, ctx)
            iy, ly = index(s, ny, ctx)
            form = s.int(0, 3)
            if form == 0:
                iy, ly = slice(None), list(range(ny))
                item = ix
            elif form == 1 and lx and ly:
                item = np.ix_(lx, ly)
            else:
                item = (ix, iy)
            ctx.note("[{}]", item)
            new = sw[item]
            m = (m[0][lx], m[1][ly], m[2][np.ix_(lx, ly)] if lx and ly else np.zeros((len(lx), len(ly))))
            if form == 1 and lx and ly:      # an open mesh gives open coordinates (see the repository's test)
                new.x, new.y = np.ravel(new.x), np.ravel(new.y)
        elif op == 'crop':
            def limits(v):
                if s.bool(30):
                    return None
                a, b = sorted([s.int(-8, 20) / 4, s.int(-8, 20) / 4])
                if s.bool(50):
                    a = float(v[s.int(0, len(v) - 1)])
                    b = max(b, a)
                return s.pick([(a, b), [a, b]])
            cx, cy = limits(m[0]), limits(m[1])
            ctx.note("cropped({}, {})", cx, cy)
            new = sw.cropped(x=cx, y=cy)
            lx = [i for i in range(nx) if cx is None or cx[0] <= m[0][i] <= cx[1]]
            ly = [i for i in range(ny) if cy is None or cy[0] <= m[1][i] <= cy[1]]
            m = (m[0][lx], m[1][ly], m[2][np.ix_(lx, ly)] if lx and ly else np.zeros((len(lx), len(ly))))
        elif op == 'mirror':
            ax = s.pick('xyz')
            ctx.note("mirrored({})", ax)
            if ax == 'z':
                try:
                    new = sw.mirrored(ax)
                except Exception:
                    continue
                check(False, "an invalid axis was accepted")
            k = 'xy'.index(ax)
            if m[k][0] != 0:
                continue
            new = sw.mirrored(ax) if ax == 'y' or s.bool() else sw.mirrored()
            n = len(m[k])
            order = list(range(n - 1, 0, -1)) + list(range(n))
            sign = np.array([-1.0] * (n - 1) + [1.0] * n)
            v = m[k][order] * sign
            m = (v, m[1], m[2][order]) if k == 0 else (m[0], v, m[2][:, order])
        elif op == 'interpolate':
            ok = all(len(set(v)) == len(v) > 1 and min(abs(a - b) for i, a in enumerate(v) for b in v[:i]) > 0.2 for v in m[:2])
            if not ok or len(m[0]) > 30 or len(m[1]) > 30:
                continue
            if s.bool():
                arg = s.pick([2, 3, (1, 2), (2, 1), (2, 3), [3, 2]])
                mx, my = arg if not isinstance(arg, int) else (arg, 1)
                new = sw.interpolated(mul=arg)
                sx, sy = nx * mx, ny * my
            else:
                arg = s.pick([4, 7, (5, 0), (0, 6), (3, 8), [9, 2], 0])
                mx, my = arg if not isinstance(arg, int) else (arg, 0)
                new = sw.interpolated(size=arg)
                sx, sy = mx or nx, my or ny
            ctx.note("interpolated({} -> {}, {})", arg, sx, sy)
            check(np.shape(new.x) == (sx,) and np.shape(new.y) == (sy,), "interpolated axes have {} and {} points instead of {} and {}",
                  np.shape(new.x), np.shape(new.y), sx, sy)
            d = m[2]
            for k, size in ((0, sx), (1, sy)):
                old = m[k]
                v = np.asarray((new.x, new.y)[k], dtype=float)
                if size == len(old):
                    check(near(v, old, 1e-6), "the axis changed: {} -> {}", old.tolist(), v.tolist())
                    continue
                want = np.linspace(old.min(), old.max(), size)
                if np.asarray((sw.x, sw.y)[k]).dtype.kind == 'f':
                    check(near(v, want, 1e-5), "interpolated axis {} instead of {}", v.tolist(), want.tolist())
                else:
                    check(np.all(np.abs(v - want) < 1), "interpolated axis {} instead of {}", v.tolist(), want.tolist())
                rows = d if k == 0 else d.T
                rows = np.array([lerp(old, rows, p) for p in v])
                d = rows if k == 0 else rows.T
            m = (np.asarray(new.x, dtype=float), np.asarray(new.y, dtype=float), d)
        elif op == 'text':
            name = os.path.join(ctx.scratch, "sweep.txt")
            sw.save_txt(name)
            lines = open(name).read().splitlines()
            os.remove(name)
            check(lines[0].startswith("#"), "no header")
            rows = [[float(v) for v in line.split()] for line in lines[1:]]
            want = [[sw.x[i], sw.y[j], sw.data[i, j]] for i in range(nx) for j in range(ny)]
            check(digits(rows, want), "text file has {} instead of {}", rows, want)
            continue
        else:
            v = s.num(5)
            ctx.note("nearest {}", v)
            data, found = sw._slice_x(v)
            dist = np.abs(m[0] - v)
            check(abs(abs(found - v) - dist.min()) < 1e-5, "nearest x to {} is {}", v, found)
            check(any(near(data / factor, m[2][i] / factor, 2e-5) and abs(m[0][i] - found) < 1e-5 for i in range(nx)), "slice at x = {}", found)
            data, found = sw._slice_y(v)
            dist = np.abs(m[1] - v)
            check(abs(abs(found - v) - dist.min()) < 1e-5, "nearest y to {} is {}", v, found)
            check(any(near(data / factor, m[2][:, i] / factor, 2e-5) and abs(m[1][i] - found) < 1e-5 for i in range(ny)), "slice at y = {}", found)
            continue
        same_sweep(new, m, op, factor)
        check(new.tags == tags, "tags {} became {}", tags, new.tags)
        check(new.labels == sw.labels, "labels {} became {}", sw.labels, new.labels)
        for a, b in zip(before, (sw.x, sw.y, sw.data)):
            check(np.array_equal(a, b), "{} changed the original", op)
        sw = new
    want = dict(dict(title="", x="x", y="y", data="data"), **(labels or {}))
    check(sw.labels == want, "labels are {}", sw.labels)
    gx, gy = sw._xy_grids() if len(m[0]) and len(m[1]) else (None, None)
    if gx is not None:
        check(gx.shape == gy.shape == (len(m[0]), len(m[1])), "grids have shape {} and {}", gx.shape, gy.shape)
        check(near(gx, np.outer(m[0], np.ones(len(m[1]))), 1e-6) and near(gy, np.outer(np.ones(len(m[0])), m[1]), 1e-6), "grids")


def ndsweep(s, ctx):
    sizes = [s.int(1, 4) for _ in range(s.int(1, 4))]
    variables = tuple(np.array([s.num(4) for _ in range(n)]) for n in sizes)
    flat = np.array([s.num(4) for _ in range(int(np.prod(sizes)))])
    form = s.int(0, 2)
    data = flat if form == 0 else flat.reshape((-1, sizes[-1])) if form == 1 else flat.reshape(sizes)
    axes = s.shuffled(["a", "b", "c", "d"])[:len(sizes)]
    given = s.pick([None, dict(axes=axes, title="T")])
    keep = copy.deepcopy(given)
    nd = NDSweep(variables, data, given, tags=dict(k=2))
    ctx.note("sizes {}", sizes)
    ctx.nontrivial(len(flat) >= 4 and len(sizes) > 1)
    check(nd.data.shape == tuple(sizes), "shape {} for {}", nd.data.shape, sizes)
    k = 0
    for idx in np.ndindex(*sizes):
        check(nd.data[idx] == flat[k], "element {} is {} instead of {}", idx, nd.data[idx], flat[k])
        k += 1
    check(nd.tags == dict(k=2), "tags")
    check(given == keep, "the given labels were modified: {}", given)
    if given:
        check(nd.labels["axes"] == axes and nd.labels["title"] == "T", "labels {}", nd.labels)
        for a, b in zip("xyz", axes):
            check(nd.labels[a] == b, "label {} is {}", a, nd.labels.get(a))


def series(s, ctx):
    n, cols = s.int(1, 6), s.int(0, 3)
    v = np.array([s.num(3) for _ in range(n)])
    d = np.array([[s.num(3) for _ in range(cols)] for _ in range(n)]) if cols else np.array([s.num(3) for _ in range(n)])
    keep = d.copy()
    sr = Series(list(v) if s.bool() else v, d, dict(variable="E"))
    ctx.note("{} rows, {} columns", n, cols)
    ctx.nontrivial(n * max(1, cols) >= 4)
    check(near(sr.variable, v) and near(sr.data, d), "series values")
    check(sr.labels == dict(variable="E", data="y", columns=""), "labels {}", sr.labels)
    if cols:
        r = sr.reduced()
        check(near(r.data, [sum(row) for row in d.tolist()]), "reduced {} from {}", r.data.tolist(), d.tolist())
        check(near(r.variable, v) and r.labels == sr.labels, "reduced variable")
    other = np.arange(n, dtype=float)
    w = sr.with_data(other)
    check(near(w.data, other) and near(w.variable, v) and w.labels == sr.labels, "with_data")
    check(near(sr.data, keep), "the original changed")
    e = Eigenvalues(v)
    check(list(e.indices) == list(range(n)) and near(e.values, v), "eigenvalues")


def spatial(s, ctx):
    n = s.int(1, 8)
    pos = [[s.num(3) for _ in range(n)] for _ in range(3)]
    factor = s.pick([1, 1, 1e-6, 1e4])
    d = [s.num(3) * factor for _ in range(n)]
    if s.bool(10):
        try:
            SpatialMap(d + [1.0] if s.bool() else d[:-1], pos)
        except Exception:
            return
        check(False, "data of the wrong size was accepted")
    sm = SpatialMap(np.array(d) if s.bool() else d, pos if s.bool() else [np.array(v) for v in pos])
    ctx.note("{} sites", n)
    ctx.nontrivial(n >= 4)
    name = os.path.join(ctx.scratch, "map")
    sm.save_txt(name)
    rows = [[float(v) for v in line.split()] for line in open(name + ".dat").read().splitlines()[1:]]
    os.remove(name + ".dat")
    check(digits(rows, [[pos[0][i], pos[1][i], d[i]] for i in range(n)]), "text file {}", rows)
    ids = [s.pick([0, 1, 2, 127, 128, 300, -1]) for _ in range(n)]
    other = SpatialMap(d, pos, ids if s.bool() else np.array(ids))
    keep = [s.bool(60) for _ in range(n)]
    part = other[np.array(keep)]
    check(list(other.sub) == ids and list(other.sublattices) == ids, "sublattices {} expected {}", list(other.sub), ids)
    check(list(part.sub) == [i for i, k in zip(ids, keep) if k], "sublattices of a part")
    check(near(part.data, [v for v, k in zip(d, keep) if k]), "data of a part")
    lo, hi = sorted([s.num(3) * factor, s.num(3) * factor])
    c = sm.clipped(lo, hi)
    check(near(c.data, [min(max(v, lo), hi) for v in d]), "clipped({}, {}) gives {} from {}", lo, hi, c.data.tolist(), d)
    check(near(sm.data, d), "clipping changed the original")
    for k, v in enumerate("xyz"):
        check(near(getattr(c, v), pos[k]), "clipping moved the sites")
    check(near(c.xyz, np.array(pos).T), "xyz")
    sigma = s.pick([0.25, 0.5, 1.0, 3.0])
    r = [np.hypot(pos[0][i], pos[1][i]) for i in range(n)]
    if min([abs(abs(a - b) - sigma) for a in r for b in r]) > 1e-9:
        sm.convolve(sigma)
        want = []
        for i in range(n):
            w = [np.exp(-0.5 * ((r[i] - r[j]) / sigma)**2) if abs(r[j] - r[i]) < sigma else 0.0 for j in range(n)]
            want.append(sum(a * b for a, b in zip(w, d)) / sum(w))
        check(near(sm.data, want), "convolve({}) gives {} instead of {}", sigma, np.asarray(sm.data).tolist(), want)


def fuzzy(s, ctx):
    rtol, atol = s.pick([(1e-3, 1e-5), (1e-3, 1e-5), (0.0, 0.125), (1e-6, 1e-6)])
    plain = (rtol, atol) == (1e-3, 1e-5) and s.bool()  # the default tolerances
    args = () if plain else (rtol, atol)
    dim = s.int(1, 3)

    def close(a, b):
        return all(abs(p - q) <= atol + rtol * abs(q) for p, q in zip(a, b))

    def item():
        base = [s.int(-3, 3) for _ in range(dim)]
        eps = atol * s.pick([0, 0, 0.2, -0.2, 3.0])
        part = rtol * s.pick([0, 0, 0.25, -0.25, 2.5])
        return np.array([b * (1 + part) + eps for b in base])

    def make():
        items = [item() for _ in range(s.int(0, 5))]
        m = []
        for i in items:
            if not any(close(i, k) for k in m):
                m.append(i)
        return FuzzySet(items, *args) if items or s.bool() else FuzzySet(None, *args), m

    def same(f, m, what):
        check(len(f) == len(m) and all(np.array_equal(a, b) for a, b in zip(f, m)), "{}: {} instead of {}", what,
              [np.asarray(a).tolist() for a in f], [a.tolist() for a in m])

    sets = [make() for _ in range(s.int(1, 3))]
    for f, m in sets:
        same(f, m, "new")
    n = s.int(1, 6)
    ctx.nontrivial(n > 2 and sum(len(m) for _, m in sets) > 3)
    for _ in range(n):
        k, j = s.int(0, len(sets) - 1), s.int(0, len(sets) - 1)
        f, m = sets[k]
        op = s.int(0, 4)
        ctx.note("op {} on {} {}", op, k, j)
        if op == 0:
            i = item()
            f.add(i)
            if not any(close(i, x) for x in m):
                m.append(i)
        elif op == 1:
            i = item()
            check((i in f) == any(close(i, x) for x in m), "{} in {}", i.tolist(), [x.tolist() for x in m])
        elif op in (2, 3) and j != k:
            g, mg = sets[j]
            if op == 2:
                f += g
                sets[k] = (f, m)
                for i in mg:
                    if not any(close(i, x) for x in m):
                        m.append(i)
            else:
                mm = list(m)
                for i in mg:
                    if not any(close(i, x) for x in mm):
                        mm.append(i)
                r = f + g
                same(r, mm, "sum")
                check(r.rtol == f.rtol and r.atol == f.atol, "tolerances of the sum")
                sets.append((r, mm))
        else:
            mm = []
            for _, q in sets:
                for i in q:
                    if not any(close(i, x) for x in mm):
                        mm.append(i)
            same(sum(q for q, _ in sets), mm, "sum of all")
        for i, (q, mq) in enumerate(sets):
            same(q, mq, "set {} after op {} on {} {}".format(i, op, k, j))


def states(s, ctx):
    names = s.subset(["alpha", "beta", "gamma"], 60)
    version = s.int(0, 2)

    @pickleable(" ".join(names), version)
    class Thing:
        pass

    for n in ("alpha", "beta", "gamma"):
        def setter(self, v, n=n):
            self.__dict__["log"] = self.__dict__.get("log", []) + [(n, v)]
        setattr(Thing, n, property(lambda self, n=n: self.values[n], setter))
    t = Thing()
    t.values = {"alpha": s.int(0, 9), "beta": s.int(0, 9), "gamma": s.int(0, 9)}
    state = t.__getstate__()
    ctx.note("properties {} version {}", names, version)
    ctx.nontrivial(len(names) > 1)
    form = s.int(0, 4)
    new = Thing.__new__(Thing)
    if form == 0:        # data which was written before versions existed
        new.__setstate__(dict(values=1))
        check(new.__dict__ == dict(values=1), "old data gives {}", new.__dict__)
        return
    state = dict(state)
    if form == 1:
        state["version"] = version + s.pick([-1, 1])
        try:
            new.__setstate__(state)
        except Exception:
            return
        check(False, "data of version {} was accepted by version {}", state["version"], version)
    if form == 2 and names:
        state["props"] = dict(state["props"], other=3)
    if form == 3 and not names:
        state["props"] = []
    new.__setstate__(state)
    check(new.values == t.values, "attributes {}", new.__dict__)
    check(sorted(new.__dict__.get("log", [])) == sorted((n, t.values[n]) for n in names), "properties {} set to {}", names,
          new.__dict__.get("log"))
    c = copy.copy(t)
    check(c.values == t.values, "copied attributes")


def run(s, ctx):
    kind = s.weighted((path, 4), (sweep, 9), (ndsweep, 2), (series, 2), (spatial, 2), (fuzzy, 3), (states, 1))
    ctx.label(kind.__name__)
    kind(s, ctx)

# C31: drawings show the structure and the results as they are
import math
from collections import Counter

import matplotlib as mpl
import matplotlib.pyplot as plt
import numpy as np
import gen
import pybinding as pb
from pybinding import pltutils, results, system
from pybinding.support.collections import CircleCollection
from pbt import check, discard_if

QUICK, THOROUGH = 36000, 600000
RULE = ("random lattices, finite and periodic systems, slices of them, maps of data, models with leads, lattices, k-paths and results are "
        "drawn with random options (view axes, periods, offsets, colors, subsets of hoppings) on recording axes; the recorded circles, "
        "segments, arrows, labels, curves and images are compared with those computed from the plain structure; non-trivial: a periodic "
        "structure with repeated cells, a rotated view, a subset, a lead, or a result of several columns")
ASSUMPTIONS = ["the extension module is the project's cppmodule compiled against a small stand-in for pybind11",
               "matplotlib is replaced by a recorder: what matplotlib makes of the recorded calls is not part of this"]

SCALE = 960  # the generated positions are multiples of 1/960


def key(point):
    return tuple(int(v) for v in np.rint(np.asarray(point, dtype=float) * SCALE))


def segment(a, b):
    return tuple(sorted((key(a), key(b))))


def rotation(axes):
    order = ["xyz".index(a) for a in axes]
    return order + [i for i in range(3) if i not in order]


def named(annotations=("annotate",)):
    return [(name, a, k) for name, a, k in mpl.log if name in annotations]


def texts():
    """-> [(text, position)] of everything written"""
    out = []
    for name, args, kwargs in mpl.log:
        if name == "annotate":
            text = args[0] if args else kwargs.get("text", kwargs.get("s"))
            xy = args[1] if len(args) > 1 else kwargs["xy"]
            out.append((text, tuple(float(v) for v in xy[:2]), kwargs))
    return out


def single(name):
    found = [(a, k) for n, a, k in mpl.log if n == name]
    check(len(found) == 1, "{} calls of {} expected 1", len(found), name)
    return found[0]


def same(a, b, what, tol=1e-5):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    check(a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol), "{}: {} expected {}", what, a.tolist(), b.tolist())


# --- structures ---------------------------------------------------------------------------------

class Plain:
    """A structure as plain lists"""
    def __init__(self, obj):
        self.pos = [tuple(float(v) for v in p) for p in zip(obj.x, obj.y, obj.z)]
        self.sub = [int(i) for i in np.array(obj.sub)]
        self.hops = self.pairs(obj.hoppings)
        self.boundaries = [(np.array(b.shift, dtype=float), self.pairs(b.hoppings)) for b in obj.boundaries]

    @staticmethod
    def pairs(h):
        c = h.tocoo()
        return [(int(i), int(j), int(f)) for i, j, f in zip(c.row, c.col, np.array(c.data))]


def cells(plain, periods):
    """{cell shift key: (shift, level)}: reached by at most `periods` boundary shifts"""
    steps = [sg * sh for sh, _ in plain.boundaries for sg in (1, -1)]
    found = {key((0, 0, 0)): (np.zeros(3), 0)}
    front = [np.zeros(3)]
    for level in range(1, periods + 1):
        new = []
        for f in front:
            for st in steps:
                t = f + st
                if key(t) not in found:
                    found[key(t)] = (t, level)
                    new.append(t)
        front = new
    return found


def wanted(hops, names, only):
    """The hoppings named in `only` (all if it's empty)"""
    if not only:
        return hops
    ids = {i for n, i in names.items() for o in only if gen.named(n, o)}
    return [h for h in hops if h[2] in ids]


class Options:
    """Random plot options and what they mean"""
    def __init__(self, s, hop_names, sub_count, periodic=True):
        self.kwargs = {}
        self.axes = s.pick(["xy", "yx", "xz", "zx", "yz", "zy", "xyz", "zyx"]) if s.bool(40) else "xy"
        if self.axes != "xy" or s.bool(20):
            self.kwargs["axes"] = self.axes
        self.site, self.hopping, self.boundary = {}, {}, {}
        self.only = self.boundary_only = ()
        colors = ["#ff0000", "#00ff00", "#0000ff", "#102030", "black", "#abcdef", "0.25"]
        if s.bool(40):
            self.site["cmap"] = s.shuffled(colors)[:s.int(1, 7)]
        elif s.bool(15):
            self.site["cmap"] = s.pick(["auto", "pairs"])
        if s.bool(40):
            self.site["radius"] = s.pick([0.05, 0.0, 0.1, 0.3])
        if s.bool(15):
            self.site["blend"] = s.pick([0.5, 0.25, 1.0])
        if s.bool(30):
            self.hopping["cmap"] = s.shuffled(colors)[:s.int(1, 7)]
        elif s.bool(40):
            self.hopping["color"] = s.pick(colors)
        if s.bool(30):
            self.hopping["width"] = s.pick([1.5, 0, 0.5])
        if s.bool(15):
            self.hopping["blend"] = s.pick([0.5, 0.25, 1.0])
        if s.bool(30) and hop_names:
            choice = sorted(hop_names) + [n.split("|")[0] for n in hop_names] + ["nothing"]
            self.only = self.boundary_only = tuple(dict.fromkeys(s.pick(choice) for _ in range(s.int(1, 2))))
            self.hopping["draw_only"] = list(self.only)
        if s.bool(25):
            self.boundary["color"] = s.pick(colors)
        if s.bool(10):
            self.boundary["width"] = s.pick([2.0, 0])
        if s.bool(10) and hop_names:
            self.boundary_only = (s.pick(sorted(hop_names)),)
            self.boundary["draw_only"] = list(self.boundary_only)
        if self.site or s.bool(10):
            self.kwargs[s.pick(["site", "sites"])] = self.site
        if self.hopping or s.bool(10):
            self.kwargs[s.pick(["hopping", "hoppings"])] = self.hopping
        if self.boundary:
            self.kwargs["boundary"] = self.boundary
        self.before = repr(self.kwargs)

    def unchanged(self):
        check(repr(self.kwargs) == self.before, "the options were changed: {} before {}", self.kwargs, self.before)


def lattice_bonds(lat, names):
    """{family number: displacements from one site to the other}"""
    out = {}
    positions = {sub.unique_id: np.array(sub.position) for sub in lat.sublattices.values()}
    for name, family in lat.hoppings.items():
        for t in family.terms:
            d = positions[t.to_id] - positions[t.from_id] + sum(n * np.array(v) for n, v in zip(t.relative_index, lat.vectors))
            out.setdefault(names[str(name)], []).append(d)
    return out


class Expected:
    """The sites and segments which have to be drawn"""
    def __init__(self, opt, ndim=2):
        self.rot = rotation(opt.axes)
        self.ndim = ndim
        self.opt = opt
        self.cells = []         # per drawn copy: list of (depth, point, data, radius, level)
        self.lines = Counter()  # (segment, family) -> times
        self.bonds = None       # {family: displacements from one site to the other}
        self.levels = {}        # (segment, family) -> level, inner

    def point(self, p):
        return [p[r] for r in self.rot]

    def add_sites(self, pos, data, radius, shift, level):
        cell = []
        for i, p in enumerate(pos):
            q = self.point(np.array(p) + shift)
            r = radius[i] if radius is not None and not np.isscalar(radius) else None
            cell.append((key(q)[2], key(q[:self.ndim]), float(data[i]), r))
        self.cells.append((cell, level))

    def add_line(self, a, b, family, kind, level):
        if self.bonds is not None:
            d = np.asarray(b, dtype=float) - a
            ok = any(np.allclose(sg * d, v, atol=1e-4) for v in self.bonds[family] for sg in (1, -1))
            check(ok, "the {} hopping {} of length {} is no bond of the lattice: {}", kind, family, d.tolist(), self.bonds[family])
        seg = segment(self.point(a)[:self.ndim], self.point(b)[:self.ndim])
        self.lines[(seg, family)] += 1
        self.levels.setdefault((seg, family), set()).add((kind, level))

    def structure(self, plain, names, periods, data, radius, draw_sites=True):
        pos = [np.array(p) for p in plain.pos]
        found = cells(plain, periods)
        inner = wanted(plain.hops, names, self.opt.only)
        width = self.opt.hopping.get("width", 1.0)
        boundary_width = self.opt.boundary.get("width", width)
        for shift, level in found.values():
            if draw_sites:
                self.add_sites(plain.pos, data, radius, shift, level)
            if width != 0:
                for i, j, f in inner:
                    self.add_line(pos[i] + shift, pos[j] + shift, f, "inner", level)
        if boundary_width != 0:
            for sh, hops in plain.boundaries:
                for shift, level in found.values():
                    other = found.get(key(shift + sh))  # the cell of the first site, if the second is in the cell of `shift`
                    if other is None or min(level, other[1]) >= periods:
                        continue
                    for i, j, f in wanted(hops, names, self.opt.boundary_only):
                        self.add_line(pos[i] + shift + sh, pos[j] + shift, f, "boundary", min(level, other[1]) + 1)

    def lead(self, plain, names, length, data, radius, draw_sites=True):
        pos = [np.array(p) for p in plain.pos]
        shift, outer = plain.boundaries[0]
        width = self.opt.hopping.get("width", 1.0)
        boundary_width = self.opt.boundary.get("width", width)
        for n in range(length):
            if draw_sites:
                self.add_sites(plain.pos, data, radius, n * shift, n + 1)
            if width != 0:
                for i, j, f in wanted(plain.hops, names, self.opt.only):
                    self.add_line(pos[i] + n * shift, pos[j] + n * shift, f, "inner", n + 1)
            if boundary_width != 0:
                for i, j, f in wanted(outer, names, self.opt.boundary_only):
                    self.add_line(pos[i] + n * shift, pos[j] + (n - 1) * shift, f, "boundary", n + 1)


def rgb(color):
    return np.array(mpl.colors.colorConverter.to_rgb(color))


def fade(color, base):
    """The factor with which `base` was blended with white to get `color`"""
    color, base = rgb(color), rgb(base)
    d = base - 1
    if not np.any(d):
        return None
    f = float(np.dot(color - 1, d) / np.dot(d, d))
    check(np.allclose(1 + f * d, color, atol=1e-6) and -1e-6 <= f <= 1 + 1e-6, "color {} is no blend of {} and white", color, base)
    return f


def mapped_color(col, value):
    cmap, norm = col.kwargs["cmap"], col.kwargs["norm"]
    return cmap.color(norm.index(value))


def palette(names, value, values, integer):
    """Integer data selects the color by its number, otherwise by its rank among the unique values"""
    i = int(value) if integer else sorted(set(values)).index(value)
    return names[min(i, len(names) - 1)]


def compare(ax, exp, radius, cmap, integer_data, hop_color=None, boundary_color=None):
    """The recorded artists against the expected ones"""
    circles = [c for c in ax.collections if isinstance(c, CircleCollection)]
    lines = [c for c in ax.collections if isinstance(c, mpl.LineCollection)]
    check(len(circles) + len(lines) == len(ax.collections), "unknown artists")

    fades = {}
    left = list(exp.cells)
    number = sum(len(c) for c, _ in exp.cells)
    drawn = sum(len(np.asarray(c.offsets)) for c in circles)
    check(drawn == number, "{} sites drawn, expected {}", drawn, number)
    for c in circles:
        if exp.ndim == 2:
            points = [key(p) for p in np.asarray(c.offsets, dtype=float)]
        else:
            xs, ys, zs = c._offsets3d
            points = [key(p) for p in zip(xs, ys, zs)]
        array = [float(v) for v in np.array(c.array)]
        check(len(points) == len(array), "{} data values for {} points", len(array), len(points))
        radii = [None] * len(points)
        r = np.atleast_1d(np.asarray(c.radius, dtype=float))
        if radius is not None and not np.isscalar(radius):
            check(len(r) == len(points), "{} radii for {} points", len(r), len(points))
            radii = [float(v) for v in r * (8 if exp.ndim == 3 else 1)]
        elif radius is not None:
            factor = float(r[0]) * (8 if exp.ndim == 3 else 1) / radius
            check(len(r) == 1 and 0.8 < factor < 1.4, "radius {} of circles of {}", r.tolist(), radius)
        found = None
        for n, (cell, level) in enumerate(left):
            if len(cell) != len(points):
                continue
            order = sorted(cell, key=lambda t: t[0]) if exp.ndim == 2 else cell
            got = Counter(zip(points, array))
            if got != Counter((p, d) for _, p, d, _ in order):
                continue
            found = n
            # from bottom to top
            i = 0
            while i < len(order):
                j = i
                while j < len(order) and order[j][0] == order[i][0]:
                    j += 1
                a = sorted((points[k], array[k], radii[k]) if radii[k] is not None else (points[k], array[k]) for k in range(i, j))
                b = sorted((p, d, q) if q is not None else (p, d) for _, p, d, q in order[i:j])
                ok = len(a) == len(b) and all(x[:2] == y[:2] and (len(x) < 3 or abs(x[2] - y[2]) < 1e-5) for x, y in zip(a, b))
                check(ok, "sites at the same height are {} expected {} (positions, data, radii)", a, b)
                i = j
            break
        check(found is not None, "sites {} with data {} belong to no cell", points, array)
        level = left.pop(found)[1]
        if cmap == "auto":
            colors = {v: tuple(rgb(mapped_color(c, v))) for v in set(array)}
            check(len(set(colors.values())) == len(colors) or max(colors) > 7, "the same color for different sublattices: {}", colors)
        elif isinstance(cmap, (list, tuple)):
            for v in set(array):
                f = fade(mapped_color(c, v), palette(cmap, v, array, integer_data))
                if f is not None:
                    fades.setdefault(("site", level), []).append(f)
    check(not left, "{} cells were not drawn", len(left))

    got = Counter()
    for c in lines:
        segs = np.asarray(c.segments, dtype=float)
        ids = None
        if "cmap" in c.kwargs:
            ids = [int(v) for v in np.array(c.array)]
            check(len(ids) == len(segs), "{} values for {} segments", len(ids), len(segs))
        for n, sg in enumerate(segs):
            seg = segment(sg[0], sg[1])
            families = [f for q, f in exp.lines if q == seg]
            check(families, "segment {} is no hopping", sg.tolist())
            family = ids[n] if ids is not None else families[0]
            check(family in families, "segment {} has the number {} expected {}", sg.tolist(), family, families)
            got[(seg, family)] += 1
            if ids is None:
                for f in families:
                    got[(seg, f)] += 1
            kinds = {t for f in ([family] if ids is not None else families) for t in exp.levels[(seg, f)]}
            if len(kinds) == 1:
                (kind, level), = kinds
                base = hop_color if kind == "inner" else boundary_color
                if isinstance(base, (list, tuple)):
                    f = fade(mapped_color(c, family), base[min(family, len(base) - 1)])
                elif base is not None and "cmap" not in c.kwargs:
                    color = c.kwargs["colors"] if "colors" in c.kwargs else c.kwargs["color"] if "color" in c.kwargs else c.args[0]
                    f = fade(color, base)
                else:
                    f = None
                if f is not None:
                    fades.setdefault((kind, level), []).append(f)
    for item in exp.lines:
        check(got[item] > 0, "the hopping {} (number {}) was not drawn", item[0], item[1])
    if all(len(v) == 1 for v in exp.levels.values()) and not any(k == "boundary" for v in exp.levels.values() for k, _ in v):
        # every hopping once
        total, count = sum(len(np.asarray(c.segments)) for c in lines), sum(exp.lines.values())
        check(total == count, "{} segments drawn, expected {}", total, count)

    for kind in ("site", "inner", "boundary"):
        levels = sorted(l for k, l in fades if k == kind)
        for l in levels:
            v = fades[(kind, l)]
            check(max(v) - min(v) < 1e-6, "different shades in the same level: {}", v)
        for a, b in zip(levels, levels[1:]):
            check(fades[(kind, a)][0] > fades[(kind, b)][0] - 1e-6, "{}: level {} is lighter than level {}", kind, a, b)
    return fades


def limits_contain(ax, exp, what=""):
    if exp.ndim != 2:
        return
    (x0, x1), (y0, y1) = ax.get_xlim(), ax.get_ylim()
    for cell, _ in exp.cells:
        for _, p, _, _ in cell:
            check(x0 - 1e-6 <= p[0] / SCALE <= x1 + 1e-6 and y0 - 1e-6 <= p[1] / SCALE <= y1 + 1e-6,
                  "the site at {} {} is outside of the limits {} {}", p[0] / SCALE, p[1] / SCALE, (x0, x1), (y0, y1))


def axis_labels(ax, opt):
    check([a for n, a, k in mpl.log if n == "set_aspect"][-1:] == [("equal",)], "the two axes have different scales")
    rot = rotation(opt.axes)
    check(ax.labels.get("x", "")[:1] == "xyz"[rot[0]] and ax.labels.get("y", "")[:1] == "xyz"[rot[1]],
          "axis labels {} in the {} view", ax.labels, opt.axes)


def default_radius(opt, lattice, structure_map=False):
    if "radius" in opt.site:
        return opt.site["radius"]
    return None


def hop_colors(opt):
    hop = opt.hopping.get("cmap", opt.hopping.get("color"))
    boundary = opt.hopping.get("cmap", opt.boundary.get("color", opt.hopping.get("color")))
    return hop, boundary


def name_map(obj):
    return {str(k): v for k, v in obj.hoppings.tocsr().mapping.items()}


def some_model(s, ctx, periodic=60, dim=3):
    lat, spec = gen.lattice(s, max_dim=dim, max_orb=2, friendly=True)
    for t in spec.text:
        ctx.note("{}", t)
    args, _ = gen.model(s, spec, lat, periodic=periodic, ctx=ctx)
    m = pb.Model(lat, *args)
    try:
        discard_if(m.system.num_sites > 60)
    except RuntimeError as e:
        discard_if("Impossible system" in str(e))
        raise
    return lat, spec, m


def structure(s, ctx):
    lat, spec, m = some_model(s, ctx)
    obj = m.system
    names = {n: i for n, i in ((str(k), v) for k, v in name_map(obj).items())}
    if s.bool(30):
        n = obj.num_sites
        kind = s.int(0, 2)
        if kind == 0:
            keep = np.array([s.bool(70) for _ in range(n)])
            discard_if(not keep.any())
            obj = obj[keep]
        elif kind == 1:
            obj = obj[[s.int(0, n - 1) for _ in range(s.int(1, n))]] if s.bool(30) else obj[s.shuffled(range(n))[:s.int(1, n)]]
        else:
            obj = obj[:s.int(1, n)]
        ctx.note("a slice of {} sites", obj.num_sites)
        ctx.label("slice")
    plain = Plain(obj)
    periods = s.pick([1, 2, 0, 3]) if len(plain.boundaries) < 3 else s.pick([1, 0, 2])
    discard_if(len(cells(plain, periods)) * len(plain.pos) > 900)
    opt = Options(s, names, len(spec.subs))
    three = s.bool(15)
    ax = mpl.reset("3d" if three else "rectilinear")
    exp = Expected(opt, 3 if three else 2)
    cmap, integer = opt.site.get("cmap", "auto"), True
    data = plain.sub
    radius = opt.site.get("radius")
    data_map = s.bool(35)
    kwargs = dict(opt.kwargs)
    hop, boundary = hop_colors(opt)
    if data_map:
        integer = s.bool(40)
        data = [float(s.int(0, 4)) if integer else s.num(2.0) for _ in plain.pos]
        if s.bool(10):
            data = [data[0]] * len(data)
        array = np.array(data, dtype=int if integer else float)
        shown = obj.with_data(array)
        r = s.pick([(0.03, 0.05), (0.1, 0.4), (0.0, 0.5), [0.3, 0.1], 0.25])
        if s.bool(70):
            kwargs["site_radius"] = r
        else:
            r = (0.03, 0.05)
        top = max(data) - min(data)
        if radius is None:
            if not isinstance(r, (tuple, list)):
                radius = r
            elif top < 1e-9:
                radius = r[1]
            else:
                radius = [r[0] + (r[1] - r[0]) * (d - min(data)) / top for d in data]
        if not isinstance(cmap, list):
            cmap = "auto" if integer and "cmap" in opt.site else None
    else:
        shown = obj
    no_sites = radius is not None and np.all(np.array(radius) == 0)
    if periods != 1 or s.bool():
        kwargs["num_periods"] = periods
    ctx.note("{} sites, {} boundaries; plot(**{})", len(plain.pos), len(plain.boundaries), kwargs)
    if radius is None and not data_map and hasattr(shown, "lattice"):
        radius = float(lat.site_radius_for_plot())
    result = shown.plot(**kwargs)
    opt.unchanged()
    exp.bonds = lattice_bonds(lat, names)
    exp.structure(plain, names, periods, data, radius, not no_sites)
    ctx.label("3d", three)
    ctx.label("data", data_map)
    ctx.label("rotated", opt.axes != "xy")
    ctx.label("subset", bool(opt.only))
    ctx.label("periodic %d" % min(periods, 2), bool(plain.boundaries))
    ctx.nontrivial((plain.boundaries and periods) or opt.axes != "xy" or opt.only)
    if cmap == "pairs":
        cmap = "auto"
    fades = compare(ax, exp, radius if not no_sites else None, cmap, integer, hop, boundary)
    for kind, options in (("site", opt.site), ("inner", opt.hopping)):
        for (k, level), f in fades.items():
            if k == kind and ("blend" in options or level == 0):
                check(abs(f[0] - options.get("blend", 1.0)) < 1e-6, "{} of level {} are blended by {}", kind, level, f[0])
            elif k == kind:
                check(f[0] < 1 - 1e-6, "{} of level {} are not faded", kind, level)
    if not three:
        axis_labels(ax, opt)
        limits_contain(ax, exp)
    if data_map and not no_sites:
        check(Counter(float(v) for v in np.array(result.array)) == Counter(data), "the returned collection has other data")
        check(single("sci")[0][0] is result, "the drawn data is not the current image")
    # the same picture again: plotting changes nothing
    compare_again = Plain(shown)
    check(compare_again.pos == plain.pos and compare_again.hops == plain.hops and compare_again.sub == plain.sub
          and [h for _, h in compare_again.boundaries] == [h for _, h in plain.boundaries], "the structure was changed by drawing it")


def functions(s, ctx):
    """The plotting functions with positions and matrices of the user"""
    from scipy.sparse import coo_matrix
    n = s.int(1, 8)
    positions = tuple(np.array([s.num(2.0) for _ in range(n)]) for _ in range(3))
    if s.bool(30):
        positions = positions[:2] + (np.zeros(n),)
    nh = s.int(0, 8)
    pairs = list(dict.fromkeys((s.int(0, n - 1), s.int(0, n - 1)) for _ in range(nh)))
    fam = [s.int(0, 4) for _ in pairs]
    rows, cols = [p[0] for p in pairs], [p[1] for p in pairs]
    coo = coo_matrix((np.array(fam, dtype=np.int32), (rows, cols)), shape=(n, n))
    opt = Options(s, {}, 1)
    three = s.bool(25)
    ax = mpl.reset("3d" if three else "rectilinear")
    exp = Expected(opt, 3 if three else 2)
    offset = tuple(s.num(2.0) for _ in range(3)) if s.bool() else (0, 0, 0)
    if s.bool(30):
        offset = np.array(offset)
    common = dict(axes=opt.axes) if opt.axes != "xy" or s.bool() else {}
    if np.any(offset):
        common["offset"] = offset
    data = [float(s.int(0, 3)) for _ in range(n)]
    integer = s.bool()
    if not integer:
        data = [s.num(2.0) for _ in range(n)]
    radius = opt.site.get("radius", 0.025)
    if s.bool(30):
        radius = [s.real(0.05, 0.4) for _ in range(n)]
        opt.site["radius"] = np.array(radius)
    array = np.array(data, dtype=int if integer else float)
    before = [p.copy() for p in positions]
    options = dict(common, **opt.site)
    ctx.note("plot_sites({}, {}, {})", [p.tolist() for p in positions], data, options)
    col = system.plot_sites(positions, array, **options)
    if np.isscalar(radius) and radius == 0:
        check(col is None and not ax.collections, "sites of no size were drawn")
    else:
        check(col is ax.collections[-1], "plot_sites() returns another collection")
        exp.add_sites(list(zip(*positions)), data, radius, np.array(offset, dtype=float), 0)
    cmap = options.get("cmap")
    hop_options = dict(common, **opt.hopping)
    only = [i for i in range(5) if s.bool(40)] if s.bool(40) else []
    hop_options.pop("draw_only", None)
    if only:
        hop_options["draw_only"] = only
    sign = shift = None
    if s.bool(40):
        sign, shift = s.pick([1, -1]), np.array([s.num(2.0) for _ in range(3)])
        hop_options["boundary"] = (sign, shift)
    ctx.note("plot_hoppings({}, {}, {})", pairs, fam, hop_options)
    as_csr = s.bool(20)
    matrix = coo.tocsr() if as_csr else coo
    triplets = sorted(zip(map(int, coo.row), map(int, coo.col), map(int, coo.data)))
    col = system.plot_hoppings(positions, matrix, **hop_options)
    kept = matrix.tocoo()
    check(sorted(zip(map(int, kept.row), map(int, kept.col), map(int, kept.data))) == triplets, "plot_hoppings() changed the matrix")
    check(all(np.array_equal(a, b) for a, b in zip(before, positions)) and np.array_equal(array, np.array(data)), "drawing changed its arguments")
    if opt.hopping.get("width", 1.0) != 0 and pairs:
        check(col is ax.collections[-1], "plot_hoppings() returns another collection")
        for i, j, f in triplets:
            if only and f not in only:
                continue
            a = np.array([p[i] for p in positions]) + offset
            b = np.array([p[j] for p in positions]) + offset
            if sign == 1:
                a = a + shift
            elif sign == -1:
                b = b - shift
            exp.add_line(a, b, f, "inner", 0)
    else:
        check(col is None, "hoppings of no width were drawn")
    ctx.nontrivial(opt.axes != "xy" or only or sign)
    ctx.label("functions 3d" if three else "functions")
    hop, _ = hop_colors(opt)
    fades = compare(ax, exp, radius if not (np.isscalar(radius) and radius == 0) else None, cmap if isinstance(cmap, list) else None,
                    integer, hop, None)
    for kind, options in (("site", opt.site), ("inner", opt.hopping)):
        for (k, level), f in fades.items():
            if k == kind:
                check(abs(f[0] - options.get("blend", 1.0)) < 1e-6, "{} are blended by {}", kind, f[0])


def lattice_of(s, ctx, dim=3):
    lat, spec = gen.lattice(s, max_dim=dim, max_orb=1, friendly=True)
    for t in spec.text:
        ctx.note("{}", t)
    return lat, spec


def arrows():
    return [tuple(float(v) for v in a[:4]) for n, a, k in mpl.log if n == "arrow"]


def lattice(s, ctx):
    lat, spec = lattice_of(s, ctx)
    opt = Options(s, {f: 0 for f in spec.energies}, 1)
    opt.only = ()
    kwargs = dict(opt.kwargs)
    rot = rotation(opt.axes)
    vectors = [np.array([v[r] for r in rot]) for v in spec.vectors]
    positions = {n: np.array([p[0][r] for r in rot]) for n, p in spec.subs.items()}
    center = sum(positions.values()) / len(positions)
    start = center[:2]
    if s.bool(40):
        start = np.array([s.num(2.0), s.num(2.0)])
        kwargs["vector_position"] = s.pick([list, tuple, np.array])(start)
    elif s.bool(20):
        kwargs["vector_position"] = None
        start = None
    elif s.bool(30):
        kwargs["vector_position"] = "center"
    ax = mpl.reset()
    ctx.note("lattice.plot(**{})", kwargs)
    lat.plot(**kwargs)
    opt.unchanged()
    ctx.label("lattice")
    ctx.nontrivial(opt.axes != "xy" or spec.dim > 1)
    want = Counter()
    if start is not None:
        for i, v in enumerate(vectors):
            if np.any(v[:2]):
                want[("$a_%d$" % (i + 1), key(v[:2]))] += 1
    marks = [t for t in texts() if str(t[0]).startswith("$a_")]
    arrow = arrows()
    check(len(marks) == len(arrow) == sum(want.values()), "{} arrows and {} names, expected {}", len(arrow), len(marks), sum(want.values()))
    got = Counter()
    for (x, y, dx, dy), (text, xy, _) in zip(arrow, marks):
        same(xy, (x + dx / 2, y + dy / 2), "place of the name " + text)
        same((x, y), start, "origin of the vectors")
        got[(text, key((dx, dy)))] += 1
    check(got == want, "lattice vectors {} expected {}", got, want)

    # names of the sublattices: the topmost of each place
    places = {}
    for n, p in positions.items():
        places.setdefault(key(p[:2]), []).append((p[2], n))
    shown = [t for t in texts() if t[0] in spec.subs]
    check(len(shown) == len(places), "{} sublattices are named, expected {}", [t[0] for t in shown], len(places))
    for text, xy, _ in shown:
        check(key(xy) == key(positions[text][:2]), "the name {} is at {}", text, xy)
        top = max(z for z, _ in places[key(xy)])
        check(abs(positions[text][2] - top) < 1e-6, "{} is named but another sublattice is above it", text)
    # the numbers of the neighboring cells
    cells_shown = [(t, xy, k) for t, xy, k in texts() if str(t).startswith("[")]
    want = {}
    for f, rel, a, b in spec.hops:
        if tuple(rel[:2]) == (0, 0):
            continue
        for sg in (1, -1):
            r = [sg * v for v in rel]
            d = sum(q * v for q, v in zip(r, vectors))
            want["[" + ", ".join(str(v) for v in r[:spec.dim]) + "]"] = d
    check({t for t, _, _ in cells_shown} == set(want), "numbers of neighboring cells {} expected {}", [t[0] for t in cells_shown], list(want))
    for text, xy, k in cells_shown:
        d = want[text]
        same(xy, (center[:2] + d[:2]) * 1.05, "place of " + text, 1e-4)
        ha, va = k.get("ha", k.get("horizontalalignment")), k.get("va", k.get("verticalalignment"))
        # the text goes away from the original cell
        check(ha == ("center" if abs(d[0]) < 1e-6 else "left" if d[0] > 0 else "right"), "{} is aligned {}", text, ha)
        check(va == ("center" if abs(d[1]) < 1e-6 else "bottom" if d[1] > 0 else "top"), "{} is aligned {}", text, va)
    # the original cell and its neighbors, as for every other infinite structure
    opt.only = tuple(opt.hopping.get("draw_only", ()))
    system_ = pb.Model(lat, pb.translational_symmetry()).system
    plain = Plain(system_)
    exp = Expected(opt)
    radius = opt.site.get("radius")
    exp.structure(plain, name_map(system_), 1, plain.sub, radius, radius != 0)
    hop, boundary = hop_colors(opt)
    compare(ax, exp, radius if radius != 0 else None, opt.site.get("cmap") if isinstance(opt.site.get("cmap"), list) else "auto", True, hop, boundary)
    limits_contain(ax, exp)


def radii(s, ctx):
    """The suggested radius keeps the sites apart, and grows with the lattice"""
    lat, spec = lattice_of(s, ctx)
    fraction = s.pick([0.33, 0.1, 0.49, 5.0])
    r = lat.site_radius_for_plot(fraction) if fraction != 0.33 or s.bool() else lat.site_radius_for_plot()
    points = [np.array(p[0]) for p in spec.subs.values()]
    distances = [np.linalg.norm(a - b) for i, a in enumerate(points) for b in points[:i]]
    distances = [d for d in distances if d > 0] or [np.linalg.norm(v) for v in spec.vectors]
    check(0 < r <= fraction * min(distances) + 1e-6, "radius {} of sites at distances {}, fraction {}", r, distances, fraction)
    factor = s.pick([2.0, 0.5, 4.0])
    big = pb.Lattice(*[np.array(v[:spec.dim]) * factor for v in spec.vectors])
    for n, (p, e, o) in spec.subs.items():
        big.add_one_sublattice(n, np.array(p) * factor)
    same(big.site_radius_for_plot(fraction), r * factor, "radius in a lattice {} times as large".format(factor))
    ctx.nontrivial(len(points) > 1)
    ctx.label("radius")


def lattice_vectors(s, ctx):
    lat, spec = lattice_of(s, ctx)
    position, scale = [s.num(2.0), s.num(2.0)], s.pick([1.0, 0.5, 3.0])
    mpl.reset()
    lat.plot_vectors(s.pick([list, tuple, np.array])(position), **(dict(scale=scale) if scale != 1 or s.bool() else {}))
    want = Counter((key(position), key(v[:2] * scale)) for v in spec.vectors if np.any(v[:2]))
    got = Counter((key(a[:2]), key(a[2:])) for a in arrows())
    check(got == want, "vectors {} expected {}", got, want)
    ctx.nontrivial(spec.dim > 1)
    ctx.label("vectors")


def brillouin(s, ctx):
    lat, spec = lattice_of(s, ctx, 2)
    ax = mpl.reset()
    decorate = s.bool(70)
    lat.plot_brillouin_zone(**(dict(decorate=decorate) if not decorate or s.bool() else {}))
    vertices = lat.brillouin_zone()
    ctx.label("brillouin zone %dd" % spec.dim)
    ctx.nontrivial(spec.dim > 1)
    if spec.dim == 1:
        args, _ = single("plot")
        same(args[0], vertices, "ends of the Brillouin zone")
        ticks = [a for n, a, k in mpl.log if n == "xticks"][-1]
        same(ticks[0], [vertices[0], 0, vertices[1]], "ticks")
        check(list(ticks[1]) == [pb.utils.misc.x_pi(v) for v in (vertices[0], 0, vertices[1])], "tick labels {}", ticks[1])
        return
    check(len(ax.patches) == 1, "{} polygons", len(ax.patches))
    same(ax.patches[0].xy, vertices, "Brillouin zone")
    reciprocal = lat.reciprocal_vectors()
    if decorate:
        want = [np.concatenate([[0, 0], v[:2]]) for v in reciprocal]
        same(arrows(), want, "reciprocal vectors")
        labels = [(t, xy) for t, xy, _ in texts() if str(t).startswith("[")]
        check(len(labels) == len(vertices), "{} labels for {} vertices", len(labels), len(vertices))
        for (text, xy), v in zip(labels, vertices):
            same(xy, np.array(v) * 1.05, "place of a label", 1e-4)
            check(text == "[" + ", ".join(map(pb.utils.misc.x_pi, v)) + "]", "label {} of {}", text, v)
    else:
        check(not arrows() and not texts(), "decorations in spite of decorate=False")
    (x0, x1), (y0, y1) = ax.get_xlim(), ax.get_ylim()
    for v in vertices:
        check(abs(v[0]) <= (x1 - x0) / 2 + 1e-6 and abs(v[1]) <= (y1 - y0) / 2 + 1e-6, "the zone does not fit the limits")


# --- leads --------------------------------------------------------------------------------------

def lead_model(s, ctx):
    lat = pb.Lattice([1, 0], [0, 1])
    nsub = s.int(1, 2)
    subs = ["A", "B"][:nsub]
    for i, n in enumerate(subs):
        lat.add_one_sublattice(n, [s.num(0.25, 8), s.num(0.25, 8), s.num(0.25, 8)])
    names = []
    for rel, a, b in [([1, 0], 0, 0), ([0, 1], 0, 0), ([0, 0], 0, 1), ([1, 0], 1, 0), ([0, 1], 1, 0), ([1, 1], 0, 0)]:
        if max(a, b) >= nsub or (s.bool(30) and rel == [1, 1]):
            continue
        name = "t%d" % len(names)
        names.append(name)
        lat.register_hopping_energies({name: s.num(2.0) or 1.0})
        lat.add_one_hopping(rel, subs[a], subs[b], name)
    w, h = s.int(2, 4), s.int(2, 4)
    m = pb.Model(lat, pb.rectangle(w + 0.6, h + 0.6))
    lines = []
    for d in s.subset([1, -1, 2, -2], 60) or [1]:
        half = s.pick([0.6, 1.3, 3.0])
        line = ([0.013, -half], [0.013, half]) if abs(d) == 1 else ([-half, 0.013], [half, 0.013])
        try:
            m.attach_lead(d, pb.line(*line))
            m.system
        except RuntimeError:
            discard_if(True)
        lines.append((d, line))
    ctx.note("{} x {} with {} sublattices, hoppings {}, leads {}", w, h, nsub, names, lines)
    return lat, m, lines


def leads(s, ctx):
    lat, m, lines = lead_model(s, ctx)
    names = name_map(m.system)
    opt = Options(s, names, 2)
    length = s.pick([6, 1, 2, 3, 0])
    kwargs = dict(opt.kwargs)
    ax = mpl.reset()
    exp = Expected(opt)
    exp.bonds = lattice_bonds(lat, names)
    radius = opt.site.get("radius")
    whole = s.bool()
    ctx.label("leads with the model" if whole else "a lead")
    ctx.nontrivial(length > 0)
    if length != 6 or s.bool():
        kwargs["lead_length"] = length
    if whole:
        ctx.note("model.plot(**{})", kwargs)
        m.plot(**kwargs)
        plain = Plain(m.system)
        exp.structure(plain, names, 1, plain.sub, radius, radius != 0)
        shown = list(range(len(lines)))
    else:
        shown = [s.int(0, len(lines) - 1)]
        ctx.note("leads[{}].plot(**{})", shown[0], kwargs)
        m.leads[shown[0]].plot(**kwargs)
    opt.unchanged()
    for n in shown:
        plain = Plain(m.leads[n].system)
        exp.lead(plain, names, length, plain.sub, radius, radius != 0)
        if length:
            points = [exp.point(np.array(p) + i * plain.boundaries[0][0])[:2] for p in plain.pos for i in (0, 1.5 * length)]
            labels = [xy for t, xy, _ in texts() if t == "lead %d" % n]
            check(len(labels) == 1, "{} names of lead {}", len(labels), n)
            low, high = np.min(points, axis=0), np.max(points, axis=0)
            check(np.all(labels[0] >= low - 1e-5) and np.all(labels[0] <= high + 1e-5), "the name of lead {} is at {}, the lead from {} to {}",
                  n, labels[0], low, high)
    hop, boundary = hop_colors(opt)
    cmap = opt.site.get("cmap")
    if whole:
        hop = boundary = cmap = None  # the levels of the leads and of the system are not the same shades
    compare(ax, exp, radius if radius != 0 else None, None if whole else cmap if isinstance(cmap, list) else "auto", True, hop, boundary)
    axis_labels(ax, opt)
    limits_contain(ax, exp)


def contact(s, ctx):
    lat, m, lines = lead_model(s, ctx)
    n = s.int(0, len(lines) - 1)
    d, (a, b) = lines[n]
    arrow_length, shade = s.pick([0.5, 1.0, 0.2]), s.pick([0.3, 1.0])
    ax = mpl.reset()
    kwargs = {}
    if arrow_length != 0.5 or s.bool():
        kwargs["arrow_length"] = arrow_length
    if shade != 0.3 or s.bool():
        kwargs["shade_width"] = shade
    m.leads[n].plot_contact(**kwargs)
    a, b = np.array(a), np.array(b)
    vec = np.array([1.0, 0.0] if abs(d) == 1 else [0.0, 1.0]) * (1 if d > 0 else -1) * arrow_length * np.linalg.norm(a - b)
    check(len(ax.patches) == 2, "{} patches", len(ax.patches))
    line, area = sorted((np.array(p.xy, dtype=float) for p in ax.patches), key=len)
    same(sorted(line.tolist()), sorted([a.tolist(), b.tolist()]), "the contact line")
    w = shade * vec
    same(sorted(np.round(area, 4).tolist()), sorted(np.round([p.tolist() for p in (a - w, a + w, b + w, b - w)], 4).tolist()), "the shaded area", 1e-3)
    same(arrows(), [np.concatenate([(a + b) / 2, vec])], "the arrow")
    check([t for t, _, _ in texts()] == ["$%sa_%d$" % ("-" if d < 0 else "", abs(d))], "name of the direction: {}", texts())
    ctx.nontrivial()
    ctx.label("contact")


def debug_labels(s, ctx):
    """Site indices, and the hopping names over each hopping"""
    lat, spec, m = some_model(s, ctx, dim=2)
    system_ = m.system
    plain = Plain(system_)
    mpl.reset()
    system.plot_site_indices(system_)
    got = {int(t): xy for t, xy, _ in texts()}
    check(len(texts()) == len(plain.pos), "number of labels")
    for i, p in enumerate(plain.pos):
        same(got[i], p[:2], "place of the index of site {}".format(i))
    mpl.reset()
    system.plot_hopping_values(system_)
    names = {v: k for k, v in name_map(system_).items()}
    want = Counter()
    pos = [np.array(p) for p in plain.pos]
    for i, j, f in plain.hops:
        want[(names[f], key(((pos[i] + pos[j]) / 2)[:2]))] += 1
    for shift, hops in plain.boundaries:
        for i, j, f in hops:
            want[(names[f], key(((pos[i] + pos[j] + shift) / 2)[:2]))] += 1
            want[(names[f], key(((pos[i] + pos[j] - shift) / 2)[:2]))] += 1
    got = Counter((str(t), key(xy)) for t, xy, _ in texts())
    near = Counter()
    for (t, xy), c in got.items():  # the middle of two positions may fall between two keys
        for dx in (0, 1, -1):
            for dy in (0, 1, -1):
                if (t, (xy[0] + dx, xy[1] + dy)) in want:
                    near[(t, (xy[0] + dx, xy[1] + dy))] += c
    check(sum(got.values()) == sum(want.values()) and all(near[w] >= c for w, c in want.items()), "hopping names {} expected {}", got, want)
    ctx.nontrivial(len(plain.hops) + len(plain.boundaries))
    ctx.label("labels")


# --- results ------------------------------------------------------------------------------------

def limits(ax, axis):
    return tuple(float(v) for v in getattr(ax, "get_%slim" % axis)())


def series(s, ctx):
    n, c = s.int(1, 6), s.int(0, 4)
    x = np.array(s.shuffled([s.num(2.0) + 10 * i for i in range(n)]))
    data = np.array([[s.num(2.0) for _ in range(max(c, 1))] for _ in range(n)])
    if not c:
        data = data[:, 0]
    labels = dict(variable="E (eV)", data="DOS", columns="orbitals") if s.bool() else None
    if labels and s.bool():
        labels["title"] = "a title"
    ax = mpl.reset()
    pb.Series(x, data, labels).plot(**(dict(lw=3) if s.bool() else {}))
    args, kwargs = single("plot")
    same(args[0], x, "variable")
    same(args[1], data, "data")
    same(limits(ax, "x"), (x.min(), x.max()), "limits")
    want = labels or dict(variable="x", data="y", columns="")
    check(ax.labels["x"] == want["variable"] and ax.labels["y"] == want["data"], "axis labels {}", ax.labels)
    check(ax.labels.get("title") == want.get("title"), "title {}", ax.labels)
    legends = [k for name, a, k in mpl.log if name == "legend"]
    check(len(legends) == (1 if c else 0), "{} legends for {} columns", len(legends), c)
    if c:
        check(list(legends[0]["labels"]) == [str(i) for i in range(c)] and legends[0]["title"] == want["columns"], "legend {}", legends[0])
    ctx.nontrivial(c > 1)
    ctx.label("series")


def bands(s, ctx):
    dim = s.int(1, 2)
    points = [[s.num(2.0) for _ in range(dim)] for _ in range(s.int(2, 4))]
    discard_if(any(np.allclose(a, b) for a, b in zip(points, points[1:])))
    path = results.make_path(*[p if dim > 1 else p[0] for p in points], step=s.pick([0.25, 0.1, 1.0]))
    nb = s.int(1, 4)
    energy = s.rng().rand(len(path), nb) * 4 - 2
    labels = ["P%d" % i for i in range(len(points))] if s.bool() else None
    ax = mpl.reset()
    r = pb.results.Bands(path, energy)
    r.plot(**(dict(point_labels=labels) if labels else {}))
    args, _ = single("plot")
    k = np.asarray(args[0], dtype=float).reshape(-1)
    same(args[1], energy, "energies")
    # equidistant numbers, or the coordinate itself
    if len(points) == 2:
        axis = [i for i in range(dim) if points[0][i] != points[1][i]][0]
        same(k, np.asarray(path)[:, axis], "k")
    else:
        check(len(k) == len(path) and np.all(np.diff(k) > 0), "the k-axis is not increasing")
    ticks = single("xticks")[0]
    index = [int(np.flatnonzero(np.all(np.isclose(np.asarray(path), p), axis=1))[0]) for p in points]
    seen, place = [], 0
    for p in points:  # in the order of the path
        match = [i for i in range(place, len(path)) if np.allclose(np.asarray(path)[i], p)]
        seen.append(match[0])
        place = match[0] + 1
    same(np.asarray(ticks[0], dtype=float).reshape(-1), k[seen], "ticks")
    names = labels
    if names is None:
        fmt = "[%s]" if dim > 1 else "%s"
        names = [fmt % ", ".join(pb.utils.misc.x_pi(v) for v in p) for p in points]
    check(list(ticks[1]) == names, "tick labels {} expected {}", ticks[1], names)
    marks = [float(np.asarray(a[0]).reshape(-1)[0]) for n, a, kw in mpl.log if n == "axvline"]
    same(marks, k[seen], "marked points")
    y0, y1 = limits(ax, "y")
    tops = [kw["ymax"] for n, a, kw in mpl.log if n == "axvline"]
    same(tops, [(energy[i].max() - y0) / (y1 - y0) for i in seen], "height of the marks")
    x0, x1 = limits(ax, "x")
    check(x0 <= k.min() + 1e-6 and x1 >= k.max() - 1e-6, "limits {} of {}..{}", (x0, x1), k.min(), k.max())
    if dim == 2:
        mpl.reset()
        r.plot_kpath(**(dict(point_labels=labels) if labels else {}))
        q, _ = single("quiver")
        p = np.array(points)
        same(q[0], p[:-1, 0], "x of the path")
        same(q[1], p[:-1, 1], "y of the path")
        same(q[2], np.diff(p[:, 0]), "x of the steps")
        same(q[3], np.diff(p[:, 1]), "y of the steps")
        written = [(t, xy) for t, xy, _ in texts()]
        check([t for t, _ in written] == (labels or []), "labels {}", written)
        for (_, xy), pt in zip(written, points):
            same(xy, np.array(pt) * 1.05, "place of a label", 1e-4)
    ctx.nontrivial(nb > 1)
    ctx.label("bands")


def eigenvalues(s, ctx):
    values, e = [], -2.0
    for _ in range(s.int(1, 8)):
        e += s.pick([0.25, 0.0, 1.0, 1e-7])
        values.append(e)
    n = len(values)
    prob = [s.real(0.0, 1.0) for _ in range(n)] if s.bool() else None
    ev = pb.results.Eigenvalues(np.array(values), np.array(prob) if prob else None)
    mark, show, heat = s.bool(70), s.bool(40), s.bool()
    ax = mpl.reset()
    kwargs = {}
    if not mark or s.bool():
        kwargs["mark_degenerate"] = mark
    if show or s.bool(20):
        kwargs["show_indices"] = show
    if heat and s.bool(40):
        kwargs["size"] = s.pick([(1, 10), (0, 5), (20, 200)])
    ctx.note("{} of {} with {}, {}", "plot_heatmap" if heat else "plot", values, prob, kwargs)
    result = ev.plot_heatmap(**kwargs) if heat else ev.plot(**kwargs)
    args, kw = single("scatter")
    if heat and prob and max(prob) > 0:
        got = sorted(zip(map(int, args[0]), map(float, args[1]), map(float, kw["c"])))
        check(got == sorted(zip(range(n), values, prob)), "states {} expected {}", got, list(zip(range(n), values, prob)))
        check(list(kw["c"]) == sorted(prob), "states of higher probability are not above the others")
        sizes = [float(v) for v in kw["s"]]
        low, high = kwargs.get("size", (7, 77))
        check(sizes[-1] > low and any(abs(sizes[-1] - v) < 1e-6 for v in (high, low + high)), "largest size {} of {}", sizes[-1], (low, high))
        same([(v - low) / (sizes[-1] - low) for v in sizes], [v / max(prob) for v in sorted(prob)], "sizes above the smallest one", 1e-6)
        check(result == max(prob), "the highest probability is {}", result)
    else:
        same(args[0], range(n), "indices")
        same(args[1], values, "values", 1e-9)
    groups, i = [], 0
    while i < n:
        j = i
        while j + 1 < n and abs(values[j + 1] - values[j]) < 1e-5:
            j += 1
        if j > i:
            groups.append([(i, values[i]), (j, values[j])])
        i = j + 1
    drawn = [np.asarray(sg, dtype=float).tolist() for c in ax.collections for sg in c.segments]
    want = [[list(map(float, p)) for p in g] for g in groups] if mark else []
    check(len(drawn) == len(want) and np.allclose(drawn, want, atol=1e-9) if want else not drawn, "degenerate states {} expected {}", drawn, want)
    written = [(int(t), xy) for t, xy, _ in texts()]
    check([t for t, _ in written] == (list(range(n)) if show else []), "indices {}", written)
    for t, xy in written:
        same(xy, (t, values[t]), "place of an index")
    x0, x1 = limits(ax, "x")
    check(x0 < 0 and x1 > n - 1, "limits {}", (x0, x1))
    ctx.nontrivial(bool(groups) or heat)
    ctx.label("eigenvalues")


def sweep(s, ctx):
    nx, ny = s.int(1, 5), s.int(1, 5)
    x = np.cumsum([s.real(0.1, 1.0) for _ in range(nx)]) - 1
    y = np.cumsum([s.real(0.1, 1.0) for _ in range(ny)]) - 1
    data = s.rng().rand(nx, ny)
    labels = dict(title="T", x="V (eV)", y="length", data="G")
    sw = pb.results.Sweep(x, y, data, labels)
    ax = mpl.reset()
    which = s.int(0, 2)
    ctx.nontrivial(nx > 1 and ny > 1)
    ctx.label("sweep")
    if which == 0:
        sw.plot()
        args, _ = single("pcolormesh")
        same(args[0], x, "x")
        same(args[1], y, "y")
        same(args[2], data.T, "data")
        same(limits(ax, "x"), (x.min(), x.max()), "x limits")
        same(limits(ax, "y"), (y.min(), y.max()), "y limits")
        check(ax.labels == dict(title="T", x="V (eV)", y="length"), "labels {}", ax.labels)
        return
    along = "x" if which == 1 else "y"
    own, other = (x, y) if which == 1 else (y, x)
    at = s.num(4.0, 40) + 0.0031
    d = np.abs(own - at)
    discard_if(np.sum(d < d.min() + 1e-6) > 1)
    i = int(np.argmin(d))
    ctx.note("slice at {} = {} of {}", along, at, own.tolist())
    (sw.plot_slice_x if which == 1 else sw.plot_slice_y)(at)
    args, _ = single("plot")
    same(args[0], other, "variable of the slice")
    same(args[1], data[i, :] if which == 1 else data[:, i], "data of the slice")
    check(ax.labels["x"] == labels["y" if which == 1 else "x"] and ax.labels["y"] == "G", "labels {}", ax.labels)
    name, unit = ("V", "eV") if which == 1 else ("length", "")
    check(ax.labels["title"] == "T, {} = {:.2g} {}".format(name, own[i], unit), "title {}", ax.labels["title"])


def spatial(s, ctx):
    n = s.int(3, 10)
    pos = [np.array([s.num(2.0) for _ in range(n)]) for _ in range(3)]
    data = np.array([s.num(2.0) for _ in range(n)])
    m = pb.results.SpatialMap(data, pos)
    kind = s.int(0, 2)
    ax = mpl.reset()
    ctx.label("spatial map")
    ctx.nontrivial()
    levels = s.pick([50, 2, 7])
    if kind == 0:
        m.plot_pcolor()
        args, kwargs = single("tripcolor")
    elif kind == 1:
        m.plot_contourf(**(dict(num_levels=levels) if levels != 50 or s.bool() else {}))
        args, kwargs = single("tricontourf")
        same(kwargs["levels"], [data.min() + (data.max() - data.min()) * i / (levels - 1) for i in range(levels)], "levels")
    else:
        m.plot_contour()
        args, kwargs = single("tricontour")
    same(args[0], pos[0], "x")
    same(args[1], pos[1], "y")
    same(args[2], data, "data")
    check(ax.labels == dict(x="x (nm)", y="y (nm)"), "labels {}", ax.labels)
    check([a for n, a, k in mpl.log if n == "set_aspect"][-1:] == [("equal",)], "the two axes have different scales")


def shapes(s, ctx):
    kind = s.pick(["polygon", "line", "circle", "composite"])
    ctx.label("shape " + kind)
    ctx.nontrivial()
    ax = mpl.reset()
    if kind == "line":
        a, b = [s.num(2.0), s.num(2.0)], [s.num(2.0), s.num(2.0)]
        pb.line(a, b).plot()
        args, _ = single("plot")
        same(args[0], [a[0], b[0]], "x")
        same(args[1], [a[1], b[1]], "y")
        return
    if kind == "polygon":
        vertices = [[s.num(2.0), s.num(2.0)] for _ in range(s.int(3, 6))]
        pb.Polygon(vertices).plot()
        args, _ = single("plot")
        same(args[0], [v[0] for v in vertices + vertices[:1]], "x")
        same(args[1], [v[1] for v in vertices + vertices[:1]], "y")
        return
    shape = pb.circle(s.real(0.5, 3.0), [s.num(2.0), s.num(2.0)])
    if kind == "composite":
        other = pb.rectangle(s.real(0.5, 3.0), s.real(0.5, 3.0)).with_offset([s.num(2.0), s.num(2.0)])
        op = s.int(0, 3)
        shape = shape + other if op == 0 else shape - other if op == 1 else shape & other if op == 2 else shape ^ other
    resolution = (s.int(2, 12), s.int(2, 12))
    shape.plot(resolution=resolution, **(dict(color="red") if s.bool(30) else {}))
    args, kwargs = single("imshow")
    image = args[0]
    x0, x1, y0, y1 = (float(v) for v in kwargs["extent"])
    v = np.array(shape.vertices)
    same((x0, x1, y0, y1), (v[:, 0].min(), v[:, 0].max(), v[:, 1].min(), v[:, 1].max()), "extent of the image")
    check(image.shape == resolution[::-1], "image of {} pixels, expected {}", image.shape, resolution)
    # the first row is the top one
    xs = np.linspace(x0, x1, resolution[0], dtype=np.float32)
    ys = np.linspace(y0, y1, resolution[1], dtype=np.float32)[::-1]
    if kwargs.get("origin") == "lower":
        ys = ys[::-1]
    def inside(dx, dy):
        xx, yy = np.meshgrid(np.array(xs, dtype=float) + dx, np.array(ys, dtype=float) + dy)
        return np.array(shape.contains(xx.ravel(), yy.ravel(), np.zeros(xx.size))).reshape(xx.shape).astype(bool)
    want = inside(0, 0)
    got = np.array(np.ma.filled(image, 0)).astype(bool)
    d = 1e-4
    sure = np.all([inside(dx, dy) == want for dx in (-d, 0, d) for dy in (-d, 0, d)], axis=0)  # not at an edge
    check(np.array_equal(got[sure], want[sure]), "image {} expected {}", got.astype(int).tolist(), want.astype(int).tolist())


# --- helpers ------------------------------------------------------------------------------------

def helpers(s, ctx):
    kind = s.pick(["length", "ratio", "margin", "norm", "blend", "align", "axes", "palette", "box", "legend", "inch"])
    ctx.label("helper " + kind)
    ctx.nontrivial()
    ax = mpl.reset()
    lim = {}
    for a in "xy":
        lo = s.num(4.0)
        lim[a] = (lo, lo + s.pick([1.0, 0.25, 3.0, 0.0, 10.0]))
        ax._set(a, *lim[a])

    def center_kept():
        for a in "xy":
            lo, hi = limits(ax, a)
            same((lo + hi) / 2, sum(lim[a]) / 2, "center of the limits")
            check(hi - lo >= lim[a][1] - lim[a][0] - 1e-9, "the limits became narrower")

    def size(a, old=False):
        lo, hi = lim[a] if old else limits(ax, a)
        return hi - lo
    if kind == "length":
        length, which = s.pick([0.5, 2.0, 20.0]), s.pick(["xy", "x", "y"])
        pltutils.set_min_axis_length(length, **(dict(axis=which) if which != "xy" or s.bool() else {}))
        center_kept()
        for a in "xy":
            same(size(a), max(size(a, True), length) if a in which else size(a, True), "length of " + a)
    elif kind == "ratio":
        discard_if(size("x") == 0 or size("y") == 0)
        ratio = s.pick([0.4, 0.9, 0.1])
        pltutils.set_min_axis_ratio(ratio)
        center_kept()
        same(size("x"), max(size("x", True), ratio * size("y", True)), "length of x")
        same(size("y"), max(size("y", True), ratio * size("x", True)), "length of y")
    elif kind == "margin":
        margin, which = s.pick([0.08, 0.5, 0.0]), s.pick(["xy", "x", "y"])
        pltutils.add_margin(margin, which)
        center_kept()
        for a in "xy":
            same(size(a), size(a, True) * (1 + margin if a in which else 1), "length of " + a)
    elif kind == "norm":
        colors = ["#ff0000", "#00ff00", "#0000ff", "black", "#123456"]
        integer = s.bool()
        if integer:
            data = [s.int(0, 4) for _ in range(s.int(1, 6))]
        else:
            data = [s.num(3.0) + 0.5 for _ in range(s.int(1, 5))]
        blend = s.pick([1, 0.5, 0.2])
        cmap, norm = pltutils.direct_cmap_norm(data, colors, blend)
        for v in data:
            want = colors[v] if integer else colors[sorted(set(data)).index(v)]
            f = fade(cmap.color(norm.index(v)), want)
            check(abs(f - blend) < 1e-6, "the color of {} is blended by {} expected {}", v, f, blend)
        one = pltutils.direct_cmap_norm([1], "red")
        same(rgb(one[0].color(one[1].index(1))), (1, 0, 0), "single color")
    elif kind == "blend":
        a, b, f = s.pick(["#ff8000", "black", "0.5"]), s.pick(["white", "#102030"]), s.real(0, 1)
        same(pltutils.blend_colors(a, b, f), f * rgb(a) + (1 - f) * rgb(b), "blend")
    elif kind == "align":
        x, y = s.num(2.0), s.num(2.0)
        want = ("center" if x == 0 else "right" if x > 0 else "left", "center" if y == 0 else "top" if y > 0 else "bottom")
        check(pltutils.align(x, y) == want, "align({}, {}) is {}", x, y, pltutils.align(x, y))
    elif kind == "axes":
        other = plt.Axes()
        with pltutils.axes(other):
            check(plt.gca() is other, "the axes are not the current ones")
        check(plt.gca() is ax, "the previous axes are not current again")
    elif kind == "palette":
        name, num, start = s.pick(["Set1", "Set2", "Dark2", "Paired", "viridis"]), s.int(1, 14), s.int(0, 5)
        total = dict(Set1=9, Set2=8, Dark2=8, Paired=12).get(name)
        if total:
            bins = [i / (total - 1) for i in range(min(num, total))]
        else:
            bins = [(i + 1) / (num + 1) for i in range(num)]
        every = np.array(plt.get_cmap(name)(bins))[:, :3]
        got = pltutils.get_palette(name, num, start)
        same(got, [every[(start + i) % len(every)] for i in range(num)], "palette")
    elif kind == "box":
        fontcolor = s.pick(["black", "white"])
        kwargs = dict(bbox=dict(alpha=0.9)) if s.bool() else {}
        if s.bool():
            kwargs.update(arrowprops=dict(width=3), xytext=(1, 2))
        kwargs["color"] = "lime" if s.bool() else fontcolor
        pltutils.annotate_box("text", (0.5, 0.25), **(dict(kwargs, fontcolor=fontcolor)))
        (text, xy, k), = texts()
        check(text == "text" and xy == (0.5, 0.25) and k["color"] == kwargs["color"], "annotation {} {} {}", text, xy, k)
        check(k["bbox"]["alpha"] == (0.9 if "bbox" in kwargs else 0.5), "options of the box {}", k["bbox"])
        check(k["bbox"]["fc"] == ("black" if fontcolor == "white" else "white"), "color of the box {}", k["bbox"])
        if "arrowprops" in kwargs:
            check(k["arrowprops"].get("width") == 3 and k["xytext"] == (1, 2), "arrow {}", k)
    elif kind == "legend":
        n, reverse = s.int(0, 3), s.bool()
        ax.legend_entries = (list(range(n)), ["l%d" % i for i in range(n)])
        pltutils.legend(reverse=reverse)
        calls = [a for name, a, k in mpl.log if name == "legend"]
        check(len(calls) == (1 if n else 0), "{} legends of {} entries", len(calls), n)
        if n and reverse:
            check(list(calls[0][0]) == list(range(n))[::-1] and list(calls[0][1]) == ["l%d" % i for i in range(n)][::-1], "reversed legend {}", calls)
        elif n:
            check(not calls[0] or (list(calls[0][0]) == list(range(n))), "legend {}", calls)
    else:
        v = [s.num(10.0) for _ in range(s.int(1, 3))]
        same(pltutils.cm2inch(*v), [q / 2.54 for q in v], "inches")


def run(s, ctx):
    mpl.reset()
    kind = s.weighted((structure, 40), (functions, 12), (lattice, 12), (leads, 12), (radii, 3), (lattice_vectors, 3), (brillouin, 4),
                      (contact, 3), (debug_labels, 4), (series, 3), (bands, 4), (eigenvalues, 4), (sweep, 4), (spatial, 2), (shapes, 4),
                      (helpers, 8))
    ctx.note("{}", kind.__name__)
    kind(s, ctx)

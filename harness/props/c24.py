# C24: indexing, cropping and looking up structures from Python select exactly the named sites
import numpy as np
import gen
import pybinding as pb
from pybinding.results import Structure, StructureMap, SpatialMap
from pybinding.support.structure import Sites
from pbt import check, discard_if

QUICK, THOROUGH = 16000, 300000
RULE = ("random multi-orbital, aliased and periodic systems put through 1-4 random selections (masks, slices, index arrays with "
        "repetitions, shapes, crops), with and without data; positions, sublattices, hoppings, boundaries and data compared with "
        "plain loops after each; lookups, distances and orbital sums likewise; non-trivial: a selection which keeps some sites and "
        "drops others, in a system with hoppings")
ASSUMPTIONS = ["the extension module is the project's cppmodule compiled against a small stand-in for pybind11",
               "single integers are not used as an index of a whole structure"]


class Plain:
    """Sites, hopping triplets and data as plain lists"""
    def __init__(self, pos, ids, hops, boundaries, data):
        self.pos, self.ids, self.hops, self.boundaries, self.data = pos, ids, hops, boundaries, data

    hop_names = {}  # of all families of the lattice

    def select(self, index):
        where = {}
        for new, old in enumerate(index):
            where.setdefault(old, []).append(new)

        def pick(hops):
            return sorted((a, b, f) for i, j, f in hops for a in where.get(i, ()) for b in where.get(j, ()))
        new = Plain([self.pos[i] for i in index], [self.ids[i] for i in index], pick(self.hops),
                    [(sh, pick(h)) for sh, h in self.boundaries], [self.data[i] for i in index])
        new.hop_names = self.hop_names
        return new


def triplets(h):
    c = h.tocoo()
    return sorted(zip(map(int, c.row), map(int, c.col), map(int, np.array(c.data))))


def compare(obj, plain, names, what):
    n = len(plain.pos)
    check(obj.num_sites == n, "{}: {} sites expected {}", what, obj.num_sites, n)
    check([tuple(map(float, p)) for p in zip(obj.x, obj.y, obj.z)] == plain.pos, "{}: positions differ", what)
    check(np.array_equal(obj.xyz, np.array(plain.pos, dtype=np.float32).reshape(-1, 3)), "{}: xyz differs", what)
    for k, v in enumerate("xyz"):
        check(np.array_equal(getattr(obj.positions, v), getattr(obj, v)), "{}: positions.{} differs", what, v)
    check([int(i) for i in np.array(obj.sub)] == plain.ids, "{}: sublattices {} expected {}", what, list(obj.sub), plain.ids)
    for name, i in names.items():
        first = name.split("|")[0]
        same_first = {j for m, j in names.items() if m.split("|")[0] == first}
        check(list(obj.sublattices == name) == [j == i for j in plain.ids], "{}: == '{}' selects the wrong sites", what, name)
        check(list(obj.sub != name) == [j != i for j in plain.ids], "{}: != '{}' selects the wrong sites", what, name)
        if first not in names:
            check(list(obj.sub == first) == [j in same_first for j in plain.ids], "{}: == '{}' selects the wrong sites", what, first)
    if hasattr(obj, "hoppings"):
        check(triplets(obj.hoppings) == plain.hops, "{}: hoppings {} expected {}", what, triplets(obj.hoppings), plain.hops)
        coo, csr = obj.hoppings.tocoo(), obj.hoppings.tocsr()
        hop_names = plain.hop_names
        for name in list(hop_names) + ["t", "u", "nothing"]:
            if name in hop_names:
                ids = {hop_names[name]}
            else:
                ids = {j for m, j in hop_names.items() if m.split("|")[0] == name}
            for m in (coo, csr):
                got = [int(v) in ids for v in np.array(m.data)]
                check(list(m.data == name) == got and list(m.data != name) == [not v for v in got], "{}: hoppings == '{}'", what, name)
        check(obj.hoppings.nnz == len(plain.hops), "{}: nnz", what)
        check(len(obj.boundaries) == len(plain.boundaries), "{}: number of boundaries", what)
        for b, (shift, hops) in zip(obj.boundaries, plain.boundaries):
            check(tuple(map(float, b.shift)) == shift, "{}: boundary shift", what)
            check(triplets(b.hoppings) == hops, "{}: boundary hoppings {} expected {}", what, triplets(b.hoppings), hops)
    if hasattr(obj, "data"):
        check(np.array_equal(np.array(obj.data), np.array(plain.data)), "{}: data {} expected {}", what, list(obj.data), plain.data)


def selection(s, ctx, plain, obj):
    """-> (index object or None for a crop, limits, list of indices)"""
    n = len(plain.pos)
    kind = s.pick(["mask", "slice", "array", "permutation", "shape", "crop", "list", "none", "sub", "mask list"])
    if kind in ("mask", "mask list"):
        keep = [s.bool(60) for _ in range(n)] if n < 60 else list(s.rng().rand(n) < 0.6)
        return kind, (np.array(keep, dtype=bool) if kind == "mask" else [bool(k) for k in keep]), [i for i, k in enumerate(keep) if k]
    if kind == "slice":
        a, b, c = s.int(-n, n), s.int(-n, n), s.pick([1, 2, -1, 3])
        sl = slice(a if s.bool(70) else None, b if s.bool(70) else None, c)
        return kind, sl, list(range(n))[sl]
    if kind in ("array", "list"):
        idx = [s.int(-n, n - 1) for _ in range(s.int(1, min(2 * n, 12)))]
        return kind, np.array(idx) if kind == "array" else idx, [i % n for i in idx]
    if kind == "permutation":
        idx = s.rng().permutation(n)
        return kind, idx, [int(i) for i in idx]
    if kind == "shape":
        w = s.real(0.3, 3.0)
        c = [s.num(1.0, 8) + 0.013, s.num(1.0, 8) + 0.017]
        shape = pb.circle(w, c)
        inside = [(x - c[0]) ** 2 + (y - c[1]) ** 2 for x, y, z in plain.pos]
        discard_if(any(abs(np.sqrt(r) - w) < 1e-5 for r in inside))
        return kind, shape, [i for i, r in enumerate(inside) if r < w * w]
    if kind == "sub":
        name = s.pick(sorted(obj.sub.mapping))
        target = obj.sub.mapping[name]
        return kind, obj.sub == str(name), [i for i, j in enumerate(plain.ids) if j == target]
    if kind == "crop":
        limits = {}
        for v in s.subset(["x", "y", "z"]):
            values = sorted({p["xyz".index(v)] for p in plain.pos})
            a = s.pick(values) if s.bool() else s.num(2.0)  # a limit which is exactly at a site
            b = s.pick(values) if s.bool() else s.num(2.0)
            limits[v] = (min(a, b), max(a, b))
        idx = [i for i, p in enumerate(plain.pos) if all(lo <= p["xyz".index(v)] < hi for v, (lo, hi) in limits.items())]
        return kind, limits, idx
    return kind, slice(None), list(range(n))


def lookups(s, ctx, obj, plain, names):
    n = len(plain.pos)
    dim = s.int(1, 3)
    target = [s.num(2.0, 16) + 0.003 * s.int(0, 3) for _ in range(dim)]
    d = [float(np.linalg.norm(np.array(p[:dim]) - np.array(target))) for p in plain.pos]
    sites = obj._sites
    check(np.allclose(sites.distances(target), d, atol=1e-5), "distances {} expected {}", list(sites.distances(target)), d)
    if dim == 1:
        check(np.allclose(sites.distances(target[0]), d, atol=1e-5), "distances to a number")
    check(len(sites) == n and sites.size == n, "size of sites")
    got = sites.find_nearest(target)
    check(0 <= got < n and d[got] <= min(d) + 1e-5, "find_nearest({}) is {} at {}, the nearest is {}", target, got, d[got], min(d))
    family = s.pick(sorted(names))
    members = [i for i, j in enumerate(plain.ids) if j == names[family]]
    if members:
        got = sites.find_nearest(target, str(family))
        check(got in members and d[got] <= min(d[i] for i in members) + 1e-5, "find_nearest({}, {}) is {}", target, family, got)
        order = list(sites.argsort_nearest(target, str(family)))
        check(sorted(order) == list(range(n)), "argsort_nearest is no permutation")
        head = order[:len(members)]
        check(sorted(head) == members, "argsort_nearest(family): other sites first: {}", head)
        check(all(d[a] <= d[b] + 1e-5 for a, b in zip(head, head[1:])), "argsort_nearest(family) is not sorted")
        ctx.label("nearest of a family")
    order = list(sites.argsort_nearest(target))
    check(sorted(order) == list(range(n)) and all(d[a] <= d[b] + 1e-5 for a, b in zip(order, order[1:])), "argsort_nearest is not sorted")
    if hasattr(obj, "find_nearest"):
        if type(obj).__name__ == "System":
            full = list(target) + [0] * (3 - dim)
            d3 = [float(np.linalg.norm(np.array(p) - np.array(full))) for p in plain.pos]
            got = obj.find_nearest(full)
            check(d3[got] <= min(d3) + 1e-5, "System.find_nearest({}) is {}", full, got)
            if members:
                got = obj.find_nearest(full, str(family))
                check(got in members and d3[got] <= min(d3[i] for i in members) + 1e-5, "System.find_nearest({}, {}) is {}", full, family, got)
        else:
            got = obj.find_nearest(target)
            check(d[got] <= min(d) + 1e-5, "find_nearest")


def orbitals(s, ctx, system, plain, norb_by_id):
    norb = [norb_by_id[i] for i in plain.ids]
    start = [0] + [int(v) for v in np.cumsum(norb)]
    check(system.hamiltonian_size == start[-1], "hamiltonian_size {} expected {}", system.hamiltonian_size, start[-1])
    for i in range(min(len(norb), 20)):
        got = [int(v) for v in np.atleast_1d(system.to_hamiltonian_indices(i))]
        check(got == list(range(start[i], start[i + 1])), "to_hamiltonian_indices({}) = {}", i, got)
    r = s.rng()
    data = r.randint(-50, 50, start[-1]).astype(float)
    want = [data[a:b].sum() for a, b in zip(start, start[1:])]
    if start[-1] != len(norb):
        got = system.reduce_orbitals(data if s.bool() else list(data))
        check(np.allclose(got, want), "reduce_orbitals {} expected {}", list(got), want)
        check(np.allclose(system.with_data(data).data, want), "with_data does not sum the orbitals")
        ctx.label("orbitals summed")
    ex = system.expanded_positions
    for v in "xyz":
        check(np.array_equal(getattr(ex, v), np.repeat(np.array(getattr(system, v)), norb)), "expanded_positions.{}", v)
    turned = data * np.exp(1j * r.uniform(-3, 3, len(data)))
    want = [turned[a:b].sum() for a, b in zip(start, start[1:])]
    check(np.allclose(system.with_data(turned).data, want), "with_data does not sum the orbitals of complex data")
    one = r.randint(-50, 50, len(norb)).astype(float)
    check(np.array_equal(system.reduce_orbitals(one), one), "reduce_orbitals of site data")
    for bad in (start[-1] + 1, max(start[-1] - 1, 0)):
        if bad in (len(norb), start[-1], 0):
            continue
        try:
            system.reduce_orbitals(np.zeros(bad))
        except RuntimeError:
            continue
        check(False, "reduce_orbitals accepted {} values for size {}", bad, start[-1])
    neighbours = [0] * len(norb)
    for i, j, _ in plain.hops:
        neighbours[i] += 1
        neighbours[j] += 1
    check(list(system.count_neighbors()) == neighbours, "count_neighbors {} expected {}", list(system.count_neighbors()), neighbours)


def run(s, ctx):
    lat, spec = gen.lattice(s, friendly=True)
    if s.bool(20):
        # names with a shared first part
        lat.register_hopping_energies({"u|1": 0.5, "u|2": 0.75})
        one = [n for n, k in spec.norb.items() if k == 1]
        if one:
            lat.add_one_hopping([2], one[0], one[0], "u|1")
            lat.add_one_hopping([3], one[0], one[-1], "u|2")
            ctx.label("names with two parts")
    for t in spec.text:
        ctx.note("{}", t)
    args, k = gen.model(s, spec, lat, ctx=ctx)
    try:
        system = gen.build(lat, args, k).system
    except RuntimeError:
        discard_if(True)
    n = system.num_sites
    discard_if(n > 200)
    names = {str(a): int(b) for a, b in system.sublattices.mapping.items()}
    plain = Plain([tuple(map(float, p)) for p in zip(system.x, system.y, system.z)], [int(i) for i in np.array(system.sublattices)],
                  triplets(system.hoppings), [(tuple(map(float, b.shift)), triplets(b.hoppings)) for b in system.boundaries], [0.0] * n)
    plain.hop_names = {str(name): int(family.family_id) for name, family in lat.hoppings.items()}
    ctx.label("three or more hopping families", len(plain.hop_names) > 2)
    compare(system, plain, names, "system")
    orbitals(s, ctx, system, plain, {names[n]: spec.norb[n] for n in names})
    lookups(s, ctx, system, plain, names)

    obj = system
    kind = s.pick(["structure", "structure map", "spatial map"])
    if kind != "structure":
        data = s.rng().randint(-9, 9, n) + (0.5 if s.bool() else 0)
        is_complex = s.bool(20)
        if is_complex:
            data = data + 1j * s.rng().randint(-9, 9, n)
            ctx.label("complex data")
        plain.data = [complex(v) if is_complex else float(v) for v in data]
        if s.bool(30) and kind == "structure map":
            obj = pb.Model(lat, *args).structure_map(data)
        else:
            obj = system.with_data(data) if s.bool(80) else system.with_data(list(data))
        if kind == "spatial map":
            obj = obj.spatial_map if s.bool() else SpatialMap(data if s.bool(70) else list(data), system.positions, system.sublattices)
    ctx.note("{}", kind)
    ctx.label(kind)
    for step in range(s.int(1, 4)):
        if len(plain.pos) == 0:
            break
        before = len(plain.pos)
        how, index, keep = selection(s, ctx, plain, obj)
        ctx.note("{} {}", how, index)
        ctx.label("selected by " + how)
        new_plain = plain.select(keep)
        new = obj.cropped(**index) if how == "crop" else obj[index]
        compare(obj, plain, names, "the original after step %d" % step)
        compare(new, new_plain, names, "step %d" % step)
        if hasattr(obj, "lattice"):
            check(new.lattice is obj.lattice, "the lattice is lost")
        ctx.nontrivial(0 < len(keep) < before and plain.hops)
        obj, plain = new, new_plain
        if len(plain.pos):
            lookups(s, ctx, obj, plain, names)
            if kind != "structure" and s.bool(30):
                lo, hi = sorted([s.num(9.0), s.num(9.0)])
                if s.bool() and not np.iscomplexobj(obj.data):
                    obj, plain.data = obj.clipped(lo, hi), [min(max(v, lo), hi) for v in plain.data]
                    ctx.note("clipped {} {}", lo, hi)
                else:
                    data = s.rng().randint(-9, 9, len(plain.pos)).astype(float)
                    old = obj
                    obj = obj.with_data(data)
                    check(np.array_equal(old.data, np.array(plain.data)), "with_data changed the original")
                    plain.data = list(data)
                    ctx.note("with other data")
                compare(obj, plain, names, "with data, step %d" % step)
            elif kind == "structure" and s.bool(20):
                data = s.rng().randint(-9, 9, len(plain.pos)).astype(float)
                plain.data = list(data)
                obj, kind = obj.with_data(data), "structure map"
                ctx.note("mapped to data")
                compare(obj, plain, names, "mapped to data, step %d" % step)
    ctx.label("empty in the end", not plain.pos)

# C23: whatever is saved, pickled or copied comes back equal and keeps working
import copy
import io
import os
import pathlib
import pickle
import numpy as np
import gen
import pybinding as pb
from pybinding.results import Structure, StructureMap, SpatialMap
from pybinding.support.alias import AliasArray, AliasCSRMatrix
from pbt import check, discard_if

QUICK, THOROUGH = 16000, 300000
RULE = ("random lattices, systems, slices, maps, sweeps, bands, paths, eigenvalues, series and lists of them, taken through 1-3 random "
        "steps of save/load (plain names, extensions, path objects, open files), pickle and deepcopy; the result is compared field "
        "by field with the original and used again (models are rebuilt, structures sliced); non-trivial: the object has hoppings, "
        "several sublattices, or at least four data values")
ASSUMPTIONS = ["the extension module is the project's cppmodule compiled against a small stand-in for pybind11"]


def same_array(a, b, what):
    check(type(a) is type(b), "{}: {} became {}", what, type(a).__name__, type(b).__name__)
    a_, b_ = np.asarray(a), np.asarray(b)
    check(a_.dtype == b_.dtype and a_.shape == b_.shape, "{}: {} {} became {} {}", what, a_.dtype, a_.shape, b_.dtype, b_.shape)
    nan = a_.dtype.kind in "fc"
    check(np.array_equal(a_, b_, equal_nan=nan), "{}: {} became {}", what, a_.tolist(), b_.tolist())
    if isinstance(a, AliasArray):
        same_mapping(a.mapping, b.mapping, what)
    if isinstance(a, pb.results.Path):
        check(list(a.point_indices) == list(b.point_indices), "{}: point indices {} became {}", what, a.point_indices, b.point_indices)


def same_mapping(a, b, what):
    check({str(k): int(v) for k, v in a.items()} == {str(k): int(v) for k, v in b.items()}, "{}: mapping {} became {}", what, a, b)
    check(sorted(type(k).__name__ for k in a) == sorted(type(k).__name__ for k in b), "{}: names change type", what)


def triplets(h):
    c = h.tocoo()
    return sorted(zip(map(int, c.row), map(int, c.col), map(int, np.array(c.data)))), c.shape


def same_structure(a, b, what):
    check(a.num_sites == b.num_sites, "{}: number of sites", what)
    for v in "xyz":
        check(np.array_equal(getattr(a, v), getattr(b, v)), "{}: {}", what, v)
    same_array(a.sublattices, b.sublattices, what + " sublattices")
    if hasattr(a, "hoppings"):
        check(triplets(a.hoppings) == triplets(b.hoppings), "{}: hoppings", what)
        same_mapping(a.hoppings.tocsr().mapping, b.hoppings.tocsr().mapping, what + " hopping names")
        check(len(a.boundaries) == len(b.boundaries), "{}: boundaries", what)
        for p, q in zip(a.boundaries, b.boundaries):
            check(np.array_equal(p.shift, q.shift), "{}: boundary shift", what)
            check(triplets(p.hoppings) == triplets(q.hoppings), "{}: boundary hoppings", what)
    if hasattr(a, "data"):
        same_array(a.data, b.data, what + " data")
    if type(a).__name__ == "System":
        check(a.hamiltonian_size == b.hamiltonian_size, "{}: Hamiltonian size", what)
        for i in range(min(a.num_sites, 6)):
            check(np.array_equal(a.to_hamiltonian_indices(i), b.to_hamiltonian_indices(i)), "{}: Hamiltonian indices", what)
        check(np.array_equal(a.count_neighbors(), b.count_neighbors()), "{}: neighbours", what)
        p = [0.1, 0.2, 0.3]
        check(a.find_nearest(p) == b.find_nearest(p), "{}: nearest", what)
        for v in "xyz":
            check(np.array_equal(getattr(a.expanded_positions, v), getattr(b.expanded_positions, v)), "{}: expanded positions", what)
        if a.lattice is not None:
            same_lattice(a.lattice, b.lattice, what + " lattice")
    if a.num_sites:
        mask = np.arange(a.num_sites) % 3 != 1
        if hasattr(a, "hoppings"):
            check(triplets(a[mask].hoppings) == triplets(b[mask].hoppings), "{}: sliced hoppings", what)
        check(np.array_equal(a[mask].x, b[mask].x), "{}: sliced", what)


def same_lattice(a, b, what):
    check(a.ndim == b.ndim and a.nsub == b.nsub and a.nhop == b.nhop, "{}: sizes", what)
    check(np.array_equal(np.array(a.vectors), np.array(b.vectors)), "{}: vectors", what)
    check(np.array_equal(a.offset, b.offset), "{}: offset {} became {}", what, a.offset, b.offset)
    check(a.min_neighbors == b.min_neighbors, "{}: min_neighbors {} became {}", what, a.min_neighbors, b.min_neighbors)
    check(set(a.sublattices) == set(b.sublattices), "{}: sublattice names", what)
    for n, p in a.sublattices.items():
        q = b.sublattices[n]
        check(np.array_equal(p.position, q.position) and np.array_equal(p.energy, q.energy) and p.unique_id == q.unique_id
              and p.alias_id == q.alias_id, "{}: sublattice {}", what, n)
    check(set(a.hoppings) == set(b.hoppings), "{}: hopping names", what)
    for n, p in a.hoppings.items():
        q = b.hoppings[n]
        check(np.array_equal(p.energy, q.energy) and p.family_id == q.family_id, "{}: hopping {}", what, n)
        check([(list(t.relative_index), t.from_id, t.to_id) for t in p.terms] == [(list(t.relative_index), t.from_id, t.to_id) for t in q.terms],
              "{}: terms of {}", what, n)


def same_fields(a, b, what):
    check(type(a) is type(b), "{}: {} became {}", what, type(a).__name__, type(b).__name__)
    check(set(a.__dict__) == set(b.__dict__), "{}: fields {} became {}", what, sorted(a.__dict__), sorted(b.__dict__))
    for k, v in a.__dict__.items():
        w = b.__dict__[k]
        if isinstance(v, np.ndarray):
            same_array(v, w, what + "." + k)
        elif isinstance(v, (tuple, list)) and any(isinstance(x, np.ndarray) for x in v):
            check(type(v) is type(w) and len(v) == len(w), "{}.{}", what, k)
            for x, y in zip(v, w):
                same_array(np.asarray(x), np.asarray(y), what + "." + k)
        else:
            check(v == w, "{}.{}: {} became {}", what, k, v, w)


def numbers(s, shape, dtype=None):
    dtype = dtype or s.pick([float, np.float32, complex, int])
    r = s.rng()
    a = r.randint(-100, 100, shape) / (1 if dtype is int else 8)
    return (a + 1j * r.randint(-4, 4, shape)).astype(dtype) if dtype is complex else a.astype(dtype)


def make(s, ctx):
    """-> (object, comparison, rich enough)"""
    kind = s.pick(["lattice", "system", "slice", "map", "spatial map", "sweep", "ndsweep", "bands", "path", "series", "eigenvalues",
                   "alias array", "alias matrix", "list", "solver result", "kpm result"])
    ctx.note("{}", kind)
    ctx.label(kind)
    if kind in ("lattice", "system", "slice", "map", "spatial map", "alias matrix", "solver result", "kpm result"):
        lat, spec = gen.lattice(s, max_orb=1 if kind == "kpm result" else 3)
        for t in spec.text:
            ctx.note("{}", t)
        if s.bool(40):
            try:
                lat = lat.with_offset([s.num(0.125, 4) for _ in range(spec.dim)])
            except RuntimeError:
                discard_if(True)
        if s.bool(30):
            lat = lat.with_min_neighbors(s.int(1, 2)) if s.bool() else lat
        args, k = gen.model(s, spec, lat, ctx=ctx)
        if kind == "lattice":
            def compare(a, b, what):
                same_lattice(a, b, what)
                try:
                    h = gen.build(a, args, k).hamiltonian
                except RuntimeError:
                    return
                g = gen.build(b, args, k).hamiltonian
                check(h.shape == g.shape and np.allclose(h.todense(), g.todense(), rtol=1e-5, atol=1e-5), "{}: the Hamiltonian differs", what)
            return lat, compare, spec.hops
        try:
            model = gen.build(lat, args, k)
            system = model.system
            n = system.num_sites
        except RuntimeError:
            discard_if(True)
        rich = len(system.hoppings.tocoo().data) > 0
        if kind == "system":
            return system, same_structure, rich
        if kind == "alias matrix":
            def compare(a, b, what):
                check(triplets(a) == triplets(b), "{}: hoppings", what)
                same_mapping(a.mapping, b.mapping, what)
                same_array(a.data, b.data, what)
            return system.hoppings.tocsr(), compare, rich
        if kind == "solver result":
            discard_if(system.hamiltonian_size > 60)
            solver = pb.solver.lapack(model)
            which = s.int(0, 3)
            if which == 0:
                return solver.calc_eigenvalues(), same_fields, True
            if which == 1:
                return solver.calc_dos(np.linspace(-2, 2, 5), 0.1), same_fields, True
            if which == 2:
                return solver.calc_ldos(np.linspace(-2, 2, 5), 0.1, [0, 0, 0]), same_fields, True
            return solver.calc_spatial_ldos(0.3, 0.2), same_structure, rich
        if kind == "kpm result":
            discard_if(n < 3)
            try:
                kpm = pb.kpm(model)
                if s.bool():
                    return kpm.calc_ldos(np.linspace(-1, 1, 4), 0.5, [0, 0, 0]), same_fields, True
                return kpm.calc_spatial_ldos(np.linspace(-1, 1, 4), 0.5, pb.circle(30)), lambda a, b, w: (
                    same_array(a.data, b.data, w), same_array(a.energy, b.energy, w), same_structure(a.structure, b.structure, w)), rich
            except (RuntimeError, ValueError):
                discard_if(True)
        if kind == "slice":
            return system[s.rng().rand(n) < 0.7], same_structure, rich
        m = system.with_data(numbers(s, n))
        if s.bool():
            m = m[s.rng().rand(n) < 0.7]
        return (m if kind == "map" else m.spatial_map), same_structure, rich
    if kind in ("sweep", "ndsweep"):
        labels = {q: "label %d" % i for i, q in enumerate(s.subset(["x", "y", "data", "title"]))} if s.bool() else None
        tags = {"a": 1, "b": [1, 2]} if s.bool() else None
        if kind == "sweep":
            nx, ny = s.int(1, 6), s.int(1, 6)
            return pb.results.Sweep(numbers(s, nx, float), numbers(s, ny, float), numbers(s, (nx, ny)), labels, tags), same_fields, nx * ny > 3
        sizes = [s.int(1, 4) for _ in range(s.int(1, 4))]
        if labels:
            labels["axes"] = ["q", "r", "s"][:len(sizes)]
        return pb.results.NDSweep(tuple(numbers(s, q) for q in sizes), numbers(s, int(np.prod(sizes))), labels, tags), same_fields, np.prod(sizes) > 3
    if kind in ("bands", "path"):
        dim = s.int(1, 3)
        pts = [np.array([s.num(3.0) for _ in range(dim)]) for _ in range(s.int(2, 4))]
        discard_if(any(np.linalg.norm(a - b) < 0.3 for a, b in zip(pts, pts[1:])))
        path = pb.results.make_path(*pts, step=0.2)
        if kind == "path":
            return path, same_array, len(path) > 3
        return pb.results.Bands(path, numbers(s, (len(path), s.int(1, 3)))), same_fields, True
    if kind == "series":
        n = s.int(1, 6)
        data = numbers(s, n) if s.bool() else numbers(s, (n, s.int(1, 3)))
        return pb.results.Series(numbers(s, n, float), data, {"title": "t"} if s.bool() else None), same_fields, n > 3
    if kind == "eigenvalues":
        n = s.int(1, 6)
        return pb.results.Eigenvalues(numbers(s, n, float), numbers(s, n, float) if s.bool() else None), same_fields, n > 3
    if kind == "alias array":
        names = {"A": 0, "B|1": 1, "B|2": 2, "long name": 5}
        a = AliasArray(np.array([s.pick([0, 1, 2, 5]) for _ in range(s.int(1, 6))], dtype=s.pick([np.int8, np.int32])), names)
        return a, lambda x, y, w: (same_array(x, y, w), [check(list(x == q) == list(y == q), "{}: == {}", w, q) for q in ("A", "B", "B|2")]), len(a) > 3
    items = [make(s, ctx) for _ in range(s.int(1, 3))]

    def compare(a, b, what):
        check(type(a) is type(b) and len(a) == len(b), "{}: list", what)
        for (o, c, _), x, y in zip(items, a, b):
            c(x, y, what + " item")
    return [i[0] for i in items], compare, any(i[2] for i in items)


def run(s, ctx):
    obj, compare, rich = make(s, ctx)
    compare(obj, obj, "unchanged")
    current = obj
    here = s.pick(["files", os.path.join(os.curdir, "files"), "files.d"])
    os.makedirs(here, exist_ok=True)
    written = []
    try:
        for step in range(s.int(1, 3)):
            how = s.pick(["save", "save", "save", "pickle", "deepcopy", "file object", "directory of that name"])
            if how == "pickle":
                p = s.pick([pickle.HIGHEST_PROTOCOL, 4, 3, 2])
                ctx.note("pickle protocol {}", p)
                new = pickle.loads(pickle.dumps(current, protocol=p))
            elif how == "deepcopy":
                ctx.note("deepcopy")
                new = copy.deepcopy(current)
            elif how == "file object":
                ctx.note("open file")
                buf = io.BytesIO()
                pb.save(current, buf)
                buf.seek(0)
                new = pb.load(buf)
            else:
                name = s.pick(["plain", "with.ext", "with.pbz", "dir.d/plain", "two.dots.dat", "dir.d/x.pbz", "with space"])
                path = os.path.join(here, name)
                os.makedirs(os.path.dirname(path), exist_ok=True)
                if how == "directory of that name":
                    path = os.path.join(here, "taken")
                    os.makedirs(path, exist_ok=True)
                    ctx.label("a directory has the name")
                if s.bool(30):
                    path = pathlib.Path(path)
                ctx.note("save {}", name)
                pb.save(current, path)
                # names without an extension get one, whatever the directories are called
                found = str(path) if "." in os.path.basename(str(path)) else str(path) + ".pbz"
                check(os.path.isfile(found), "no file was written for {}", path)
                written.append(found)
                with_ext = pathlib.Path(found) if s.bool(30) else found
                new = pb.load(with_ext if s.bool(40) else path)
            ctx.label(how)
            compare(obj, new, "step %d (%s)" % (step, how))
            compare(current, new, "step %d (%s), again" % (step, how))
            current = new
    finally:
        for f in written:
            if os.path.isfile(f):
                os.remove(f)
    ctx.nontrivial(rich)

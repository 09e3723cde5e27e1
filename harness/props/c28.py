# C28: results of the Python solver and KPM front ends equal their defining sums
import itertools
import numpy as np
from numpy.polynomial import chebyshev as cheb
import gen
import pybinding as pb
from pybinding.solver import Solver
from pybinding.chebyshev import _kpm_python
from pbt import check, discard_if

QUICK, THOROUGH = 24000, 300000
RULE = ("random models (1-3 dimensions, several orbitals, real and complex, finite and periodic with a wave vector) with a sequence "
        "of 1-4 calculations on one solver or KPM object: eigenvalues, eigenvectors, probabilities, densities of states, band "
        "structures, degenerate groups, Chebyshev moments, local densities of states (position, sublattice, shape), Green's "
        "functions of one or several columns, changes of the wave vector and of the model in between; against dense "
        "eigen-decompositions in double precision; non-trivial: at least three energy levels and two calculations")
ASSUMPTIONS = ["the extension module is the project's cppmodule compiled against a small stand-in for pybind11",
               "energy levels between 1e-6 and 1e-3 apart are neither clearly degenerate nor distinct: such models are discarded "
               "where degeneracy matters"]


def near(a, b, tol, what, *args):
    a, b = np.asarray(a), np.asarray(b)
    check(a.shape == b.shape, what + ": shape {} expected {}", *(args + (a.shape, b.shape)))
    scale = max(1.0, float(np.abs(b).max()) if b.size else 1.0)
    bad = not bool(np.all(np.isfinite(a))) or (a.size and float(np.abs(a - b).max()) > tol * scale)
    check(not bad, what + ": {} expected {}", *(args + (a.tolist(), b.tolist())))


class Plain:
    """Dense data of a model"""
    def __init__(self, model, spec):
        self.h = np.array(model.hamiltonian.toarray(), dtype=complex)
        self.t = gen.Terms(model.system)
        self.norb = [spec.norb[n] for n in self.t.sub]
        self.start = np.concatenate([[0], np.cumsum(self.norb)]).astype(int)
        self.multi = max(spec.norb.values()) > 1
        self.vals, self.vecs = np.linalg.eigh(self.h)
        self.scale = max(1.0, float(np.abs(self.vals).max()))

    def rows(self, site):
        return range(self.start[site], self.start[site + 1])

    def per_site(self, data):
        return np.array([sum(data[r] for r in self.rows(i)) for i in range(self.t.n)])

    def groups(self):
        g = [[0]]
        for i in range(1, len(self.vals)):
            if self.vals[i] - self.vals[i - 1] < 1e-4:
                g[-1].append(i)
            else:
                g.append([i])
        return g

    def clear_levels(self):
        d = np.diff(self.vals)
        return not np.any((d > 1e-6 * self.scale) & (d < 1e-3)) and self.scale < 5

    def mixing(self):
        """Rounding in single precision mixes states of similar energy"""
        d = np.diff(self.vals)
        d = d[d > 1e-6 * self.scale]
        return 4e-6 * self.scale / d.min() if d.size else 0.0


def make(s, ctx, spec, lat):
    args, k = gen.model(s, spec, lat, ctx=ctx)
    m = gen.build(lat, args, k)
    try:
        m.system
    except RuntimeError as e:
        discard_if("Impossible system" in str(e))
        raise
    discard_if(m.system.num_sites > 60 or m.hamiltonian.shape[0] > 120)
    return m


def target(s, p):
    """A position close to one site only, and the sublattice argument -> (position, name or "", site)"""
    site = s.int(0, p.t.n - 1)
    pos = p.t.pos[site] + np.array([s.num(0.25, 8) for _ in range(3)])
    pos = pos.astype(np.float32).astype(float)
    name = p.t.sub[site] if s.bool(40) else ""
    d = np.linalg.norm(p.t.pos - pos, axis=1)
    if name:
        d = np.where([n == name for n in p.t.sub], d, np.inf)
    order = np.argsort(d)
    discard_if(len(order) > 1 and d[order[1]] - d[order[0]] < 1e-3)
    form = s.int(0, 2)
    return (list(pos) if form == 0 else pos if form == 1 else tuple(pos)), name, int(order[0])


def energies(s, p, span=None):
    span = span or p.scale
    n = s.int(1, 5)
    e = np.array([s.num(1.0, 12) * span for _ in range(n)])
    return e


def columns(r, reduced, exp):
    """The data of a result as energies by orbitals: one orbital may be given as a plain row"""
    data = np.asarray(r.data)
    if exp.shape[1] == 1:
        return data.reshape(-1, 1)
    check(not reduced and data.ndim == 2 and np.allclose(r.reduced().data, exp.sum(axis=1), atol=1e-2, rtol=1e-2),
          "the orbitals are no columns: shape {} expected {}", data.shape, exp.shape)
    return data


def gauss(vals, e, c):
    return np.exp(-0.5 * (vals[:, None] - e[None, :]) ** 2 / c ** 2) / (c * np.sqrt(2 * np.pi))


def solver_ops(s, ctx, spec, lat):
    model = make(s, ctx, spec, lat)
    kind = s.weighted(("lapack", 3), ("arpack", 1))
    p = Plain(model, spec)
    n = len(p.vals)
    if kind == "arpack":
        discard_if(n < 6)
        k = s.int(2, n // 2)
        sigma = s.num(2.0) * 0.9 + 0.013
        solver = pb.solver.arpack(model, k=k, sigma=sigma)
        order = np.argsort(np.abs(p.vals - sigma))
        gap = abs(p.vals - sigma)[order]
        # single precision Lanczos does not resolve degenerate levels
        discard_if(gap[k] - gap[k - 1] < 1e-2 or gap[0] < 1e-2 or np.diff(p.vals).min() < 5e-3)
        ctx.note("arpack(k={}, sigma={})", k, sigma)
    else:
        solver = pb.solver.lapack(model)
        k = n
    discard_if(not p.clear_levels())
    nops = s.int(1, 4)
    ctx.nontrivial(n >= 3 and nops >= 2)
    ctx.label(kind)
    tol = 3e-4
    for _ in range(nops):
        op = s.pick(["values", "vectors", "map", "probability", "dos", "ldos", "spatial", "clear", "model", "bands", "k"])
        if kind == "arpack" and op in ("model", "bands", "k"):
            op = "vectors"
        ctx.note("{}", op)
        keep = slice(None) if kind == "lapack" else np.sort(order[:k])
        vals, vecs = p.vals[keep], p.vecs[:, keep]
        tol = 3e-4 + (p.mixing() if op in ("map", "probability") else 0)
        if op == "values":
            near(solver.eigenvalues, vals, tol, "eigenvalues")
            near(solver.calc_eigenvalues().values, vals, tol, "calc_eigenvalues()")
        elif op == "vectors":
            v, e = np.array(solver.eigenvectors, dtype=complex), np.array(solver.eigenvalues, dtype=float)
            near(e, vals, tol, "eigenvalues")
            near(p.h @ v, v * e, tol, "H v = E v")
            near(v.conj().T @ v, np.eye(len(e)), tol, "orthonormal eigenvectors")
        elif op in ("map", "probability", "ldos", "dos", "spatial"):
            if op == "map":
                pos, _, site = target(s, p)
                d = np.linalg.norm(p.t.pos - np.array(pos), axis=1)
                site = int(np.argmin(d))
                discard_if(np.partition(d, 1)[1] - d[site] < 1e-3 if len(d) > 1 else False)
                ctx.note("position {}", pos)
                result = solver.calc_eigenvalues(map_probability_at=pos)
                w = sum(np.abs(vecs[r]) ** 2 for r in p.rows(site))
                exp = w.copy()
                groups = Plain.groups(type("v", (), {"vals": vals}))
                for g in groups:
                    exp[g] = np.mean(w[g])
                ctx.label("degenerate", len(groups) < len(vals))
                near(result.values, vals, tol, "eigenvalues")
                near(result.probability, exp, tol, "probability at {}", pos)
            elif op == "probability":
                groups = Plain.groups(type("v", (), {"vals": vals}))
                if s.bool(70):
                    i = s.int(0, len(vals) - 1)
                    g = [g for g in groups if i in g][0]
                    got = solver.calc_probability(i)
                    near(got.data, p.per_site(np.sum(np.abs(vecs[:, g]) ** 2, axis=1)), tol, "calc_probability({})", i)
                else:
                    gs = s.subset(groups, 40)
                    discard_if(not gs)
                    idx = s.shuffled([i for g in gs for i in g])
                    arg = idx if s.bool() else np.array(idx)
                    got = solver.calc_probability(arg)
                    near(got.data, p.per_site(np.sum(np.abs(vecs[:, idx]) ** 2, axis=1)), tol, "calc_probability({})", idx)
                r = s.pick([0.05, 0.3, 1.0])
                i = s.int(0, len(vals) - 1)
                apart = np.abs(vals[i] - vals)
                if np.abs(apart - r).min() > 1e-3:
                    got2 = solver.calc_probability(i, r) if s.bool() else solver.calc_probability(n=i, reduce=r)
                    near(got2.data, p.per_site(np.sum(np.abs(vecs[:, apart < r]) ** 2, axis=1)), tol, "calc_probability({}, reduce={})", i, r)
                i = s.int(0, len(vals) - 1)
                got1 = solver.calc_probability(i, reduce=0)
                near(got1.data, p.per_site(np.abs(np.array(solver.eigenvectors)[:, i]) ** 2), tol, "calc_probability({}, reduce=0)", i)
                check(got.num_sites == p.t.n and np.allclose(np.array(got.xyz), p.t.pos), "sites of the structure map")
            else:
                c = s.pick([0.05, 0.2, 0.5, 1.0])
                e = energies(s, p)
                arg = e if s.bool(60) else list(e)
                ctx.note("energies {} broadening {}", e.tolist(), c)
                g = gauss(vals, e, c)
                if op == "dos":
                    r = solver.calc_dos(arg, c)
                    near(r.data, g.sum(axis=0), 2e-3, "calc_dos")
                    near(r.variable, e, 1e-9, "energies of the result")
                elif op == "ldos":
                    pos, name, site = target(s, p)
                    args = [pos] + ([name] if name or s.bool() else [])
                    red = s.bool(60)
                    ctx.note("position {} sublattice '{}' reduce {}", pos, name, red)
                    kw = {} if red and s.bool() else {"reduce": red}
                    r = solver.calc_ldos(arg, c, *args, **kw)
                    each = np.array([(np.abs(vecs[i]) ** 2) @ g for i in p.rows(site)]).T
                    exp = each.sum(axis=1, keepdims=True) if red else each
                    near(columns(r, red, exp), exp, 2e-3, "calc_ldos")
                    near(r.variable, e, 1e-9, "energies of the result")
                else:
                    r = solver.calc_spatial_ldos(float(e[0]), c)
                    near(r.data, p.per_site((np.abs(vecs) ** 2) @ g[:, 0]), 2e-3, "calc_spatial_ldos")
                    check(np.allclose(np.array(r.xyz), p.t.pos), "sites of the structure map")
        elif op == "clear":
            solver.clear()
        elif op == "k":
            k = np.array([s.num(3.0) for _ in range(spec.dim)]) * (0 if s.bool(25) else 1)
            solver.set_wave_vector(k if s.bool() else list(k))
            ctx.note("k {}", k.tolist())
            p = Plain(model, spec)
            check(solver.model is model, "another model")
        elif op == "model":
            model = make(s, ctx, spec, lat)
            solver.model = model
            p = Plain(model, spec)
            check(solver.system.num_sites == p.t.n, "system of the old model")
        elif op == "bands":
            pts = [np.array([s.num(3.0) for _ in range(spec.dim)]) for _ in range(s.int(2, 3))]
            step = s.pick([0.5, 1.0, 2.5])
            r = solver.calc_bands(*[list(q) if spec.dim > 1 or s.bool() else float(q[0]) for q in pts], step=step)
            path = np.array(pb.results.make_path(*pts, step=step))
            near(np.array(r.k_path), path, 1e-9, "k path")
            exp = []
            for q in path:
                model.set_wave_vector(q)
                exp.append(np.linalg.eigvalsh(np.array(model.hamiltonian.toarray(), dtype=complex)))
            near(r.energy, np.array(exp), tol, "bands")
            check(r.num_bands == len(p.vals), "number of bands")
            solver.set_wave_vector(pts[0])
            p = Plain(model, spec)
        if op in ("k", "model", "bands"):
            discard_if(not p.clear_levels())


# -- KPM ----------------------------------------------------------------------------------------------

def coefficients(kernel, lam, n):
    i = np.arange(n)
    if kernel == "jackson":
        q = n + 1
        return ((q - i) * np.cos(np.pi * i / q) + np.sin(np.pi * i / q) / np.tan(np.pi / q)) / q
    if kernel == "lorentz":
        return np.sinh(lam * (1 - i / n)) / np.sinh(lam)
    return np.ones(n)


class Expansion:
    def __init__(self, p, kpm, kernel, lam, energy, broadening):
        self.a, self.b = kpm.scaling_factors
        self.x = (p.vals - self.b) / self.a
        self.p = p
        discard_if(not np.all(np.abs(self.x) < 1))  # stalled Lanczos procedure, see C19
        self.n = kpm.kernel.required_num_moments(broadening / self.a)
        g = np.array(kpm.kernel.damping_coefficients(self.n))
        near(g, coefficients(kernel, lam, self.n), 2e-5, "damping coefficients of {}", kernel)
        self.w = (np.asarray(energy, dtype=float) - self.b) / self.a
        self.tn = np.cos(np.arange(self.n)[:, None] * np.arccos(self.x)[None, :])
        self.half = np.ones(self.n)
        self.half[0] = 0.5
        self.g = g

    def ldos(self, row):
        mu = (self.tn @ (np.abs(self.p.vecs[row]) ** 2)) * self.g * self.half
        ph = np.cos(np.arange(self.n)[None, :] * np.arccos(self.w)[:, None])
        return 2 / (self.a * np.pi * np.sqrt(1 - self.w ** 2)) * (ph @ mu)

    def states(self):
        """The broadened level of each state at each energy"""
        ph = np.cos(np.arange(self.n)[None, :] * np.arccos(self.w)[:, None])
        return ((2 / (self.a * np.pi * np.sqrt(1 - self.w ** 2)))[:, None] * (ph @ (self.tn * (self.g * self.half)[:, None]))).T

    def greens(self, row, col):
        """<col| G |row>: the code's convention (the documentation does not tell it from the transposed one)"""
        mu = (self.tn @ (self.p.vecs[col] * self.p.vecs[row].conj())) * self.g * self.half
        ph = np.exp(-1j * np.arange(self.n)[None, :] * np.arccos(self.w)[:, None])
        return -2j / (self.a * np.sqrt(1 - self.w ** 2)) * (ph @ mu)


def kpm_ops(s, ctx, spec, lat):
    model = make(s, ctx, spec, lat)
    p = Plain(model, spec)
    n = len(p.vals)
    discard_if(p.vals[-1] - p.vals[0] < 0.1)
    kernel = s.pick(["jackson", "lorentz", "dirichlet"])
    lam = s.pick([4.0, 3.0, 5.0])
    kw = {}
    if kernel == "lorentz":
        kw["kernel"] = pb.lorentz_kernel(lam) if lam != 4.0 or s.bool() else pb.lorentz_kernel()
    elif kernel == "dirichlet":
        kw["kernel"] = pb.dirichlet_kernel()
    elif s.bool():
        kw["kernel"] = pb.jackson_kernel()
    user = s.bool(50)
    if user:
        lo, hi = float(np.floor(p.vals[0] - 0.1)), float(np.ceil(p.vals[-1] + 0.1))
        kw["energy_range"] = (lo, hi)
    python = user and s.bool(15)
    if not python:
        if s.bool(40):
            kw["num_threads"] = s.int(1, 3)
        if s.bool(40):
            kw["matrix_format"] = s.pick(["CSR", "ELL"])
        if s.bool(30):
            kw["optimal_size"] = s.bool()
        if s.bool(30):
            kw["interleaved"] = s.bool()
    ctx.note("kpm({})", {k: v if k != "kernel" else kernel + str(lam) for k, v in kw.items()})
    kpm = _kpm_python(model, **kw) if python else pb.kpm(model, silent=True, **kw)
    if user and not python:
        a, b = kpm.scaling_factors
        check(abs(a - 0.5 * (hi - lo) * 1.01) < 1e-3 * a and abs(b - 0.5 * (hi + lo)) < 1e-3 * (1 + abs(b)),
              "scaling factors {} for the range {}", (a, b), (lo, hi))
    nops = s.int(1, 4)
    ctx.nontrivial(n >= 3 and nops >= 2)
    ctx.label("python" if python else "kpm")
    for _ in range(nops):
        ops = ["ldos"] if python else ["ldos", "spatial", "greens", "greens list", "moments", "model", "deferred", "invalid", "dos", "conductivity"]
        op = s.pick(ops)
        if op == "spatial" and p.multi:
            op = "greens"
        ctx.note("{}", op)
        if op == "model":
            new = make(s, ctx, spec, lat)
            q = Plain(new, spec)
            discard_if(q.vals[-1] - q.vals[0] < 0.1)
            if user:
                discard_if(q.vals[0] < lo or q.vals[-1] > hi)
            model, p, n = new, q, len(q.vals)
            kpm.model = model
            check(kpm.system.num_sites == p.t.n, "system of the old model")
            continue
        if op == "moments":
            num = s.pick([2, 6, 10, 18])
            rng = s.rng()
            cplx = np.iscomplexobj(model.hamiltonian.data)
            def vec():
                v = rng.randint(-3, 4, len(p.h)) / 2.0
                return v + 1j * rng.randint(-3, 4, len(p.h)) / 2.0 if cplx else v
            alpha = vec()
            beta = vec() if s.bool() else None
            opm = None
            if s.bool(40):
                from scipy.sparse import csr_matrix, coo_matrix
                d = rng.randint(-2, 3, p.h.shape) * (rng.rand(*p.h.shape) < 0.3) / 2.0
                d = d.astype(complex if cplx else float).astype(model.hamiltonian.dtype)
                opm = s.pick([csr_matrix, coo_matrix])(d)
            ctx.note("{} moments alpha {} beta {} op {}", num, alpha.tolist(), None if beta is None else beta.tolist(), None if opm is None else opm.toarray().tolist())
            got = kpm.moments(num, alpha, beta, opm)
            a, b = kpm.scaling_factors
            x = (p.vals - b) / a
            tn = np.cos(np.arange(num)[:, None] * np.arccos(np.clip(x, -1, 1))[None, :])
            left = (beta if beta is not None else alpha).conj()
            if opm is not None:
                left = left @ d
            exp = tn @ ((left @ p.vecs) * (p.vecs.conj().T @ alpha))
            exp = exp * coefficients(kernel, lam, num)  # damped, and the first one is halved, ready for the sums
            exp[0] /= 2
            norm = max(1.0, float(np.linalg.norm(left) * np.linalg.norm(alpha)))
            near(np.asarray(got) / norm, exp / norm, 1e-3, "moments")
            continue
        if op == "invalid":
            size = len(p.h)
            bad = s.int(0, 4)
            call = [lambda: kpm.calc_greens(size, 0, np.zeros(1), 0.5), lambda: kpm.calc_greens(0, -1, np.zeros(1), 0.5),
                    lambda: kpm.calc_greens(0, [0, size], np.zeros(1), 0.5), lambda: kpm.moments(4, np.ones(size + 1)),
                    lambda: kpm.calc_ldos(np.zeros(1), 0.5, [0, 0, 0], "no such sublattice")][bad]
            try:
                call()
            except Exception:
                continue
            check(False, "invalid arguments were accepted ({})", bad)
        c = s.pick([0.3, 0.6, 1.5])
        a, b = (0.505 * (hi - lo), 0.5 * (hi + lo)) if python else kpm.scaling_factors
        e = np.array([b + a * 0.9 * s.num(1.0, 12) for _ in range(s.int(1, 4))])
        ctx.note("energies {} broadening {}", e.tolist(), c)
        if python:
            class K:
                scaling_factors = (a, b)
            K.kernel = kw.get("kernel", pb.jackson_kernel())
            x = Expansion(p, K, kernel, lam, e, c)
        else:
            x = Expansion(p, kpm, kernel, lam, e, c)
        tol = 2e-3 if kernel != "dirichlet" else 6e-3
        if op == "dos":
            # random vectors with components of size one: bounded by the extreme values, close to the mean in the average
            count = s.pick([1, 2, 5, 60])
            r = kpm.calc_dos(e, c, count) if s.bool() else kpm.calc_dos(e, c, num_random=count)
            near(r.variable, e, 1e-9, "energies of the density of states")
            w = x.states()
            k = (p.vecs @ (w.T[:, :, None] * p.vecs.conj().T[None, :, :])) if n < 40 else None
            lo_b, hi_b, total = n * w.min(axis=0), n * w.max(axis=0), w.sum(axis=0)
            slack = tol * n * max(1.0, float(np.abs(w).max()))
            got = np.asarray(r.data)
            check(got.shape == e.shape and np.all(got > lo_b - slack) and np.all(got < hi_b + slack), "density of states {} outside of {} {}", got.tolist(), lo_b.tolist(), hi_b.tolist())
            if k is not None:
                off = np.array([np.linalg.norm(m - np.diag(np.diag(m))) for m in k])
                check(np.all(np.abs(got - total) <= 14 * off / np.sqrt(count) + slack), "density of states {} expected about {} +- {}", got.tolist(), total.tolist(), (off / np.sqrt(count)).tolist())
            continue
        if op == "conductivity":
            mu, T, num, pts, v = e, s.pick([300.0, 1000.0]), s.int(1, 3), s.int(5, 20), s.pick([1.0, 2.0, 0.25, 0.0123])
            axes = s.pick("xyz"[:spec.dim]) + s.pick("xyz"[:spec.dim])
            r = kpm.calc_conductivity(mu, c, T, axes, v, num, pts) if s.bool() else \
                kpm.calc_conductivity(chemical_potential=mu, broadening=c, temperature=T, direction=axes, volume=v, num_random=num, num_points=pts)
            near(r.variable, mu, 1e-9, "chemical potentials of the result")
            plain = np.array(kpm.impl.calc_conductivity(mu, c, T, axes, num, pts))
            size = 1e-6 + float(np.abs(plain).max())
            near(np.asarray(r.data) * v / size, plain / size, 1e-3, "conductivity of a volume of {}", v)
            if axes == "xx" and s.bool():
                near(np.asarray(kpm.calc_conductivity(mu, c, T, num_points=pts).data) / size,
                     np.array(kpm.impl.calc_conductivity(mu, c, T, "xx", 1, pts)) / size, 1e-3, "default conductivity")
            continue
        if op in ("ldos", "deferred"):
            pos, name, site = target(s, p)
            ctx.note("position {} sublattice '{}'", pos, name)
            red = op == "deferred" or s.bool(60)
            each = np.array([x.ldos(r) for r in p.rows(site)]).T
            exp = each.sum(axis=1, keepdims=True) if red else each
            if op == "deferred":
                d = kpm.deferred_ldos(e, c, pos, name)
                d.compute()
                near(np.asarray(d.result), exp, tol, "deferred_ldos")
            else:
                r = kpm.calc_ldos(e, c, pos, name, red)
                near(columns(r, red, exp), exp, tol, "calc_ldos(reduce={})", red)
                near(r.variable, e, 1e-9, "energies of the result")
        elif op == "spatial":
            w = s.real(0.4, 3.0)
            ctr = [s.num(1.0, 8) + 0.013, s.num(1.0, 8) + 0.017]
            shape = pb.circle(w, ctr)
            d = np.linalg.norm(p.t.pos[:, :2] - ctr, axis=1)
            discard_if(np.any(np.abs(d - w) < 1e-4))
            name = s.pick(sorted({spec.subs[q][2] for q in p.t.sub})) if s.bool() else ""
            sites = [i for i in range(p.t.n) if d[i] < w and (not name or spec.subs[p.t.sub[i]][2] == name)]
            discard_if(not sites)
            discard_if(name and name not in p.t.sub)
            discard_if(name and any(p.t.sub[i] != name and spec.subs[p.t.sub[i]][2] == name for i in range(p.t.n)))
            ctx.note("circle {} {} sublattice '{}'", w, ctr, name)
            r = kpm.calc_spatial_ldos(e, c, shape, name)
            exp = np.array([x.ldos(p.start[i]) for i in sites]).T
            near(r.data, exp, tol, "calc_spatial_ldos")
            near(np.array(r.structure.xyz), p.t.pos[sites], 1e-6, "sites of the result")
            i = s.int(0, len(e) - 1)
            j = int(np.argmin(np.abs(e - e[i])))
            m = r.structure_map(e[i] + 1e-7)
            near(m.data, exp[j], tol, "structure_map({})", e[i])
            q = s.int(0, len(sites) - 1)
            dd = np.linalg.norm(p.t.pos[sites] - p.t.pos[sites[q]], axis=1)
            if np.sum(dd < 1e-3) == 1:
                near(r.ldos(p.t.pos[sites[q]]).data, exp[:, q], tol, "ldos at site {}", sites[q])
        elif op == "greens":
            i, j = s.int(0, n - 1), s.int(0, n - 1)
            near(kpm.calc_greens(i, j, e, c), x.greens(i, j), tol * 3, "calc_greens({}, {})", i, j)
        elif op == "greens list":
            i, js = s.int(0, n - 1), [s.int(0, n - 1) for _ in range(s.int(1, 4))]
            got = kpm.calc_greens(i, js, e, c)
            check(len(got) == len(js), "{} results for the columns {}", len(got), js)
            for j, gj in zip(js, got):
                near(gj, x.greens(i, j), tol * 3, "calc_greens({}, {}) column {}", i, js, j)


def degenerate(s, ctx):
    tol = 1e-5
    values, groups = [], []
    e = s.num(2.0)
    for _ in range(s.int(1, 6)):
        m = s.weighted((1, 3), (2, 2), (3, 1), (5, 1))
        if m > 1:
            groups.append(list(range(len(values), len(values) + m)))
        values += [e + 2e-6 * i for i in range(m)]
        e = values[-1] + s.pick([0.01, 1e-4, 0.5])
    ctx.note("levels {}", values)
    ctx.nontrivial(len(values) > 3 and bool(groups))
    got = Solver.find_degenerate_states(np.array(values) if s.bool() else values)
    check([[int(i) for i in g] for g in got] == groups, "groups {} expected {}", got, groups)
    if s.bool():
        t = s.pick([0.05, 1e-3])
        exp, cur = [], [0]
        for i in range(1, len(values)):
            discard_if(abs(values[i] - values[i - 1] - t) < 1e-9)
            if values[i] - values[i - 1] < t:
                cur.append(i)
            else:
                exp.append(cur)
                cur = [i]
        exp = [g for g in exp + [cur] if len(g) > 1]
        got = Solver.find_degenerate_states(np.array(values), t)
        check([[int(i) for i in g] for g in got] == exp, "tolerance {}: groups {} expected {}", t, got, exp)


def run(s, ctx):
    kind = s.weighted(("solver", 5), ("kpm", 5), ("degenerate", 1))
    ctx.label(kind)
    if kind == "degenerate":
        return degenerate(s, ctx)
    lat, spec = gen.lattice(s, max_orb=s.pick([1, 2, 3]), aliases=False)
    for line in spec.text:
        ctx.note("{}", line)
    (solver_ops if kind == "solver" else kpm_ops)(s, ctx, spec, lat)

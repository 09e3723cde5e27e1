# C22: modifiers and generators written in Python have exactly the effect of their formula
import numpy as np
import gen
import pybinding as pb
from pbt import check, discard_if

QUICK, THOROUGH = 20000, 400000
RULE = ("random lattices (1-3 dimensions, 1-3 orbitals per sublattice, real or complex) and shapes, with 1-5 random decorated "
        "modifiers and generators; the final structure and dense Hamiltonian compared with the formulas applied term by term in "
        "double precision; non-trivial: at least one energy modifier which changes a matrix element, or a structural one which "
        "changes the structure")
ASSUMPTIONS = ["the extension module is the project's cppmodule compiled against a small stand-in for pybind11",
               "modifier results have the shape of the energy argument (sites first), as the documentation of modifiers says"]


def make(params, body):
    """A function with exactly the given parameters; body gets them as a dict"""
    scope = {"body": body}
    exec("def f({0}):\n    return body(dict({1}))".format(", ".join(params), ", ".join("%s=%s" % (p, p) for p in params)), scope)
    return scope["f"]


def restyle(style, new, original):
    """The same values as `new`, in another kind of array"""
    if style == "in place":
        if np.can_cast(new.dtype, original.dtype, "same_kind"):
            original[...] = new
            return original
        return new
    if style == "strided":
        return np.repeat(new, 2, axis=0)[::2]
    if style == "reversed":
        return np.ascontiguousarray(new[::-1])[::-1]
    if style == "moved":
        return np.moveaxis(np.ascontiguousarray(np.moveaxis(new, 0, -1)), -1, 0)
    if style == "reshaped":
        return new.reshape(-1).copy().reshape(new.shape)
    if style == "fortran":
        return np.asfortranarray(new)
    if style == "single":
        return new.astype(np.complex64 if np.iscomplexobj(new) else np.float32)
    if style == "double":
        return new.astype(np.complex128 if np.iscomplexobj(new) else np.float64)
    if style == "real part":
        return new if np.iscomplexobj(new) else (new + 1j * np.ones_like(new)).real
    if style == "read only":
        new = new.copy()
        new.flags.writeable = False
        return new
    return new


def select(e, mask, factor, style):
    """Multiply where the name matches: as an array index for single orbitals, otherwise as a condition"""
    if e.ndim == 3:
        if style == "in place":
            if mask:
                e *= factor
            return e
        return np.where(mask, e * factor, e) if style != "new" else (e * factor if mask else e)
    new = e if style == "in place" else e.copy()
    new[mask] *= factor
    return new


STYLES = ["new", "in place", "strided", "reversed", "moved", "reshaped", "fortran", "single", "double", "real part", "read only"]


def coeffs(s):
    return [s.num(1.0, 8) for _ in range(4)]


def linear(c, x, y, z):
    return c[0] + c[1] * x + c[2] * y + c[3] * z


def onsite_modifier(s, ctx, spec):
    kind = s.pick(["shift", "scale", "only", "matrix", "hermitian complex"])
    style = s.pick(STYLES)
    c = coeffs(s)
    target = s.pick(["A", "B", "C", "A|1", "new", "nothing"])
    negate = s.bool(30)
    use_double = s.bool(25)
    call = s.bool(30)
    big = np.array([[s.num(1.0, 8) for _ in range(4)] for _ in range(4)])
    big = big + big.T
    skew = np.array([[s.num(1.0, 8) for _ in range(4)] for _ in range(4)])
    skew = 1j * (skew - skew.T)
    params = s.shuffled(["energy"] + [v for i, v in enumerate("xyz") if c[i + 1] or s.bool(20)] +
                        (["sub_id"] if kind in ("shift", "only") or s.bool(20) else []))

    def body(a):
        e = a["energy"]
        zero = 0.0
        x, y, z = (a.get(v, zero) for v in "xyz")
        f = linear(c, x, y, z)
        if kind == "shift":
            new = e + a["sub_id"].eye * f if e.ndim == 3 else e + f
        elif kind == "scale":
            new = e * f
        elif kind == "only":
            m = (a["sub_id"] != target) if negate else (a["sub_id"] == target)
            new = select(e, m, 2, style)
            if style == "in place":
                return new
        elif kind == "matrix":
            n = e.shape[1] if e.ndim == 3 else 1
            new = e + (big[:n, :n] if e.ndim == 3 else big[0, 0])
        else:
            n = e.shape[1] if e.ndim == 3 else 1
            new = e + (skew[:n, :n] if e.ndim == 3 else 0j)
        return restyle(style, np.asarray(new), e)

    def formula(e, sub, p):
        f = linear(c, *p)
        n = len(e)
        if kind == "shift":
            return e + np.eye(n) * f
        if kind == "scale":
            return e * f
        if kind == "only":
            return e * 2 if gen.named(sub, target) != negate else e
        return e + (big if kind == "matrix" else skew)[:n, :n]
    func = make(params, body)
    if use_double:
        m = pb.onsite_energy_modifier(is_double=True)(func)
    elif call:
        m = pb.onsite_energy_modifier()(func)
    else:
        m = pb.onsite_energy_modifier(func)
    ctx.note("onsite modifier({}) {} {} c={} target={}{} double={}", ", ".join(params), kind, style, c, "not " if negate else "", target, use_double)
    ctx.label("onsite " + kind)
    ctx.label("result style: " + style)
    ctx.label("reads " + ("coordinates" if any(c[1:]) else "no coordinates"))
    m.pbt_double = use_double
    return m, formula


def hopping_modifier(s, ctx, spec):
    kind = s.pick(["scale", "only", "peierls", "transform", "flag", "eye"])
    style = s.pick(STYLES)
    c = coeffs(s)
    target = s.pick(["t0", "t1", "t2", "t", "t|0", "new", "nothing"])
    negate = s.bool(30)
    use_double, use_complex = s.bool(25), s.bool(20)
    mats = [np.array([[s.num(1.0, 4) for _ in range(4)] for _ in range(4)]) for _ in range(2)]
    params = s.shuffled(["energy"] + [v + i for i in "12" for v in "xyz" if kind in ("scale", "peierls") or s.bool(10)] +
                        (["hop_id"] if kind in ("only", "eye") or s.bool(20) else []))

    def body(a):
        e = a["energy"]
        if kind == "eye":
            new = e + a["hop_id"].eye * c[0] if e.ndim == 3 else e + c[0] * a["hop_id"].eye[0, 0]
        elif kind == "scale":
            new = e * (linear(c, a["x1"], a["y1"], a["z1"]) + 0.5 * linear(c[::-1], a["x2"], a["y2"], a["z2"]))
        elif kind == "only":
            m = (a["hop_id"] != target) if negate else (a["hop_id"] == target)
            new = select(e, m, 3, style)
            if style == "in place":
                return new
        elif kind == "peierls":
            new = e * np.exp(1j * c[0] * 0.5 * (a["y1"] + a["y2"]) * (a["x1"] - a["x2"]) + 1j * c[1] * (a["z1"] - a["z2"]))
        elif kind == "transform":
            if e.ndim == 3:
                new = mats[0][:e.shape[1], :e.shape[1]] @ e @ mats[1][:e.shape[2], :e.shape[2]]
            else:
                new = mats[0][0, 0] * e * mats[1][0, 0]
        else:
            new = e + 0
        return restyle(style, np.asarray(new), e)

    def formula(e, family, p1, p2):
        if kind == "eye":
            return e + c[0] * np.eye(*np.shape(e))
        if kind == "scale":
            return e * (linear(c, *p1) + 0.5 * linear(c[::-1], *p2))
        if kind == "only":
            return e * 3 if gen.named(family, target) != negate else e
        if kind == "peierls":
            return e * np.exp(1j * c[0] * 0.5 * (p1[1] + p2[1]) * (p1[0] - p2[0]) + 1j * c[1] * (p1[2] - p2[2]))
        if kind == "transform":
            return mats[0][:e.shape[0], :e.shape[0]] @ e @ mats[1][:e.shape[1], :e.shape[1]]
        return e
    func = make(params, body)
    if use_double or use_complex:
        m = pb.hopping_energy_modifier(is_double=use_double, is_complex=use_complex)(func)
    else:
        m = pb.hopping_energy_modifier(func)
    ctx.note("hopping modifier({}) {} {} c={} target={}{} double={} complex={}", ", ".join(params), kind, style, c,
             "not " if negate else "", target, use_double, use_complex)
    ctx.label("hopping " + kind)
    ctx.label("result style: " + style)
    m.pbt_double = use_double
    return m, formula


def state_modifier(s, ctx, spec):
    c = coeffs(s)
    style = s.pick(["new", "in place", "strided", "reversed"])
    sub = s.pick([None, "A", "B", "A|1", "new"])
    if any(o != n for n, (_, _, o) in spec.subs.items()):
        sub = None  # these modifiers get the aliases under their own names, which the system does not keep
    use_sites = s.bool(25)
    params = s.shuffled(["state"] + (["sites"] if use_sites else list("xyz")) + (["sub_id"] if sub or s.bool(20) else []))

    def body(a):
        st = a["state"]
        x, y, z = (getattr(a["sites"], v) for v in "xyz") if use_sites else (a[v] for v in "xyz")
        cut = linear(c, x, y, z) < -0.3
        if sub:
            cut = np.logical_and(cut, a["sub_id"] == sub)
        if style == "in place":
            st[cut] = False
            return st
        return restyle(style, np.logical_and(st, np.logical_not(cut)), st)

    def formula(state, x, y, z, name):
        cut = linear(c, x, y, z) < -0.3
        return state & ~(cut & (gen.named(name, sub) if sub else True))
    ctx.note("state modifier({}) {} c={} sub={}", ", ".join(params), style, c, sub)
    ctx.label("state modifier" + (" with sites" if use_sites else ""))
    return pb.site_state_modifier(make(params, body)), formula, c


def position_modifier(s, ctx, spec):
    m = np.eye(3) + np.array([[s.num(0.5, 4) for _ in range(3)] for _ in range(3)])
    t = [s.num(1.0, 4) for _ in range(3)]
    style = s.pick(["new", "in place", "strided", "reversed", "double"])
    sub = s.pick([None, None, "A", "B", "A|1"])
    if any(o != n for n, (_, _, o) in spec.subs.items()):
        sub = None
    params = s.shuffled(list("xyz") + (["sub_id"] if sub or s.bool(20) else []))

    def body(a):
        x, y, z = a["x"], a["y"], a["z"]
        r = [m[i, 0] * x + m[i, 1] * y + m[i, 2] * z + t[i] for i in range(3)]
        if sub:
            r = [np.where(a["sub_id"] == sub, v, o) for v, o in zip(r, (x, y, z))]
        return tuple(restyle(style, v, o) for v, o in zip(r, (x, y, z)))

    def formula(p, name):
        return p if sub and not gen.named(name, sub) else m @ p + t
    ctx.note("position modifier({}) {} m={} t={} sub={}", ", ".join(params), style, m.tolist(), t, sub)
    ctx.label("position modifier")
    return pb.site_position_modifier(make(params, body)), formula


class Custom(Exception):
    pass


def rejected(s, ctx, lat, spec, args, k):
    """Unusable functions are refused, every time, instead of being half applied"""
    kind = s.pick(["site_state", "site_position", "onsite_energy", "hopping_energy"])
    keywords = {"site_state": ["state"], "site_position": ["x", "y", "z"], "onsite_energy": ["energy"], "hopping_energy": ["energy"]}[kind]
    fault = s.pick(["raises", "not an array", "wrong size", "too many", "kind", "argument"])
    decorator = getattr(pb, kind + "_modifier")
    ctx.note("{} modifier: {}", kind, fault)
    ctx.label("rejected: " + fault)
    if s.bool(10):
        try:
            gen.build(lat, args + [s.pick([None, [None], (pb.constant_potential(0), None)])], k)
        except RuntimeError:
            return
        check(False, "None was accepted as a part of a model")
    if fault == "argument":
        try:
            if s.bool():
                make_generator, names = s.pick([(pb.site_generator, []), (pb.hopping_generator, ["system"])])
                make_generator("new", 1.0)(make(names + ["q"], lambda a: None))
            else:
                decorator(make(keywords + ["q"], lambda a: None))
        except RuntimeError:
            return
        check(False, "an unknown argument was accepted")
    after = s.int(0, 1)  # which call is the bad one
    calls = [0]
    which = s.int(0, len(keywords) - 1)  # result of several

    def put(good, bad):
        return good[:which] + (bad,) + good[which + 1:]

    def body(a):
        good = tuple(a[q] for q in keywords)
        one = good[0]
        calls[0] += 1
        if calls[0] <= after:
            return good if len(good) > 1 else one
        if fault == "raises":
            raise Custom("from the modifier")
        if fault == "not an array":
            return one.tolist() if kind != "site_position" else put(good, one.tolist())
        if fault == "wrong size":
            bad = np.concatenate([one, one])
            return put(good, bad) if len(good) > 1 else bad
        if fault == "too many":
            return good + (one,)
        bad = (one + 1j) if kind == "site_position" else (one * 1.5 if kind == "site_state" else np.array(["x"] * one.size).reshape(one.shape))
        return put(good, bad) if len(good) > 1 else bad
    model = gen.build(lat, args + [decorator(make(keywords, body))], k)
    expected = Custom if fault == "raises" else TypeError
    for attempt in range(3):
        try:
            model.hamiltonian
        except expected:
            check(calls[0] > after, "rejected before the modifier was called")
            continue
        except Exception as e:
            check(False, "attempt {}: {} instead of {}: {}", attempt, type(e).__name__, expected.__name__, e)
        check(calls[0] <= after, "attempt {}: a modifier with a wrong result was accepted after {} calls", attempt, calls[0])
        return
    ctx.nontrivial()


def run(s, ctx):
    lat, spec = gen.lattice(s, friendly=True)
    for t in spec.text:
        ctx.note("{}", t)
    args, k = gen.model(s, spec, lat, ctx=ctx)
    try:
        base = gen.Terms(gen.build(lat, args, k).system)
    except RuntimeError:
        discard_if(True)
    discard_if(base.n > 250)

    if s.bool(8):
        return rejected(s, ctx, lat, spec, args, k)

    # structure: one state or position modifier, then a generator
    norb = dict(spec.norb)
    onsite = {n: e for n, (_, e, o) in spec.subs.items()}
    energies = dict(spec.energies)
    structural = s.weighted(("none", 5), ("state", 2), ("position", 2), ("sites", 2), ("hoppings", 2))
    changed = False
    expected_pos = None
    if structural == "state":
        mod, formula, c = state_modifier(s, ctx, spec)
        keep = []
        for p, n in zip(base.pos, base.sub):
            discard_if(abs(linear(c, *p) + 0.3) < 1e-4)
            keep.append(bool(formula(np.bool_(True), *p, n)))
        discard_if(lat.min_neighbors > 0 and False)
        discard_if(not any(keep))
        expected_pos, expected_sub = base.pos[keep], [n for n, q in zip(base.sub, keep) if q]
        changed = not all(keep)
        new_index = np.cumsum(keep) - 1
        expected_hops = sorted((new_index[i], new_index[j], f) for i, j, f in base.hops if keep[i] and keep[j])
        args = args + [mod]
    elif structural == "position":
        mod, formula = position_modifier(s, ctx, spec)
        expected_pos, expected_sub = np.array([formula(p, n) for p, n in zip(base.pos, base.sub)]).reshape(-1, 3), base.sub
        expected_hops = sorted(base.hops)
        changed = True
        args = args + [mod]
    elif structural == "sites":
        n_new, dim_new = s.int(1, 3), s.int(1, 2)
        e_new = gen.hermitian(s, dim_new, True)
        offset = [s.num(1.0, 8) for _ in range(3)]
        params = s.shuffled(s.subset(["x", "y", "z"]) + (["system"] if s.bool() else []))
        seen = []

        def new_sites(a):
            for v, name in enumerate("xyz"):
                if name in a:
                    seen.append(np.array_equal(a[name], base.pos[:, v].astype(np.float32)))
            if "system" in a:
                seen.append(a["system"].num_sites == base.n and np.array_equal(a["system"].x, base.pos[:, 0].astype(np.float32)))
            i = np.arange(n_new)
            return offset[0] + i, offset[1] - i, np.full(n_new, offset[2])
        energy_arg = e_new
        if dim_new == 1:
            energy_arg = s.pick([e_new, complex(e_new[0, 0]), float(e_new[0, 0].real)])
        elif not np.iscomplexobj(e_new) and s.bool(30):
            e_new = np.diag(np.diag(e_new))
            energy_arg = np.diag(e_new).real.copy()
        if dim_new == 1 and not isinstance(energy_arg, np.ndarray):
            e_new = np.array([[energy_arg]])
        ctx.note("site generator({}) {} sites of onsite {} from {}", ", ".join(params), n_new, np.array(e_new).tolist(), offset)
        discard_if(np.iscomplexobj(e_new) and abs(np.array(e_new).diagonal().imag).max() > 0)
        args = args + [pb.site_generator("new", energy_arg)(make(params, new_sites))]
        onsite["new"], norb["new"] = np.atleast_2d(e_new), dim_new
        ctx.label("site generator")
        changed = True
        expected_pos = np.vstack([base.pos] + [[[offset[0] + i, offset[1] - i, offset[2]]] for i in range(n_new)])
        expected_sub = base.sub + ["new"] * n_new
        expected_hops = sorted(base.hops)
    elif structural == "hoppings":
        # between sites of the same number of orbitals on both ends
        shapes = sorted({(norb[base.sub[i]], norb[base.sub[j]]) for j in range(base.n) for i in range(j)})
        discard_if(not shapes)
        r, c = s.pick(shapes)
        e_new = gen.energy_matrix(s, r, c, True)
        e_new[0, 0] += 0.25
        existing = {(i, j) for i, j, _ in base.hops} | {(j, i) for i, j, _ in base.hops}
        pairs = []
        for _ in range(s.int(1, 4)):
            rows = [i for i in range(base.n) if norb[base.sub[i]] == r]
            cols = [i for i in range(base.n) if norb[base.sub[i]] == c]
            i, j = s.pick(rows), s.pick(cols)
            if r != c and i > j:
                continue  # stored upper triangular: the matrix goes from the lower to the higher index
            if i != j and (i, j) not in existing:
                pairs.append((i, j))
                existing |= {(i, j), (j, i)}
        discard_if(not pairs)
        style = s.pick(["array", "list", "int32", "mask"])
        source = [i for i, _ in pairs]
        if style == "mask":
            pairs = sorted(pairs)
            if len({i for i, _ in pairs}) != len(pairs):
                style = "array"
        params = s.shuffled(["system"] if style == "mask" or s.bool() else ["x"])

        def new_pairs(a):
            left, right = [i for i, _ in pairs], [j for _, j in pairs]
            if style == "mask":
                mask = np.zeros(base.n, dtype=bool)
                mask[left] = True
                return mask, np.array(right)
            if style == "list":
                return left, right
            return np.array(left, dtype=np.int32 if style == "int32" else int), np.array(right)
        energy_arg = complex(e_new[0, 0]) if e_new.shape == (1, 1) and s.bool() else e_new
        ctx.note("hopping generator({}) {} {} energy {}", ", ".join(params), style, pairs, e_new.tolist())
        args = args + [pb.hopping_generator("new", energy_arg)(make(params, new_pairs))]
        energies["new"] = e_new
        ctx.label("hopping generator " + style)
        changed = True
        expected_pos, expected_sub = base.pos, base.sub
        expected_hops = None

    onsite_mods, hop_mods = [], []
    mods = []
    for _ in range(s.int(0 if changed else 1, 4)):
        if s.bool():
            m, f = onsite_modifier(s, ctx, spec)
            onsite_mods.append(f)
        else:
            m, f = hopping_modifier(s, ctx, spec)
            hop_mods.append(f)
        mods.append(m)
    if s.bool(30):
        mag = s.num(2.0, 8)
        ctx.note("constant potential {}", mag)
        mods.insert(0, pb.constant_potential(mag))
        onsite_mods.insert(0, lambda e, sub, p: e + mag * np.eye(len(e)))
        ctx.label("constant potential")
    order = s.int(0, 2)
    if order == 0:
        model = gen.build(lat, args + mods, k)
    elif order == 1:
        model = gen.build(lat, [args, [tuple(mods)]], k)
    else:
        model = gen.build(lat, args, k)
        model.add(*mods)
    try:
        h = model.hamiltonian.todense()
    except RuntimeError as e:
        check(False, "the model does not build: {}", e)
    double = any(getattr(m, "pbt_double", False) for m in mods)
    check(np.finfo(h.dtype).bits == (64 if double else 32), "a Hamiltonian of {}", h.dtype)
    terms = gen.Terms(model.system)
    if expected_pos is not None:
        check(terms.sub == list(expected_sub), "sublattices {} expected {}", terms.sub, expected_sub)
        check(np.allclose(terms.pos, expected_pos, atol=2e-5), "positions {} expected {}", terms.pos.tolist(), np.array(expected_pos).tolist())
        if expected_hops is not None:
            check(sorted(terms.hops) == expected_hops, "hoppings {} expected {}", sorted(terms.hops), expected_hops)
        else:
            check(sorted(terms.hops) == sorted(base.hops + [(i, j, "new") for i, j in pairs]) or
                  sorted((min(i, j), max(i, j), f) for i, j, f in terms.hops) ==
                  sorted((min(i, j), max(i, j), f) for i, j, f in base.hops + [(i, j, "new") for i, j in pairs]),
                  "hoppings {} expected {} and {}", terms.hops, base.hops, pairs)
            # a family may store the pair reversed only together with its matrix
    else:
        check(terms.sub == base.sub and np.array_equal(terms.pos, base.pos), "energy modifiers changed the structure")
    if structural == "sites":
        check(all(seen), "the site generator was given other positions than the system has")

    scale = [1.0]

    def onsite_of(i):
        e = np.array(onsite[terms.sub[i]], dtype=complex)
        for f in onsite_mods:
            e = f(e, terms.sub[i], terms.pos[i])
            scale[0] = max(scale[0], np.abs(e).max())
        return e

    def hopping_of(i, j, family, p1, p2):
        e = np.array(energies[family], dtype=complex)
        for f in hop_mods:
            e = f(e, family, p1, p2)
            scale[0] = max(scale[0], np.abs(e).max())
        return e
    want = gen.dense(terms, norb, onsite_of, hopping_of, k)
    discard_if(not np.isfinite(want).all() or scale[0] > 1e6)
    check(h.shape == want.shape, "Hamiltonian of size {} expected {}", h.shape, want.shape)
    err = np.abs(np.asarray(h) - want)
    tol = 2e-5 * scale[0] * 4
    if err.max() > tol:
        i, j = np.unravel_index(err.argmax(), err.shape)
        check(False, "H[{}, {}] = {} expected {}", i, j, h[i, j], want[i, j])
    plain = gen.dense(terms, norb, lambda i: np.array(onsite[terms.sub[i]], dtype=complex),
                      lambda i, j, f, p1, p2: np.array(energies[f], dtype=complex), k)
    ctx.nontrivial(changed or np.abs(plain - want).max() > 1e-3)
    ctx.label("several energy modifiers", len(mods) > 1)
    ctx.label("multi-orbital", len(want) > terms.n)
    ctx.label("boundaries", any(p for _, p in terms.boundaries))
    ctx.label("complex from real input", np.iscomplexobj(h) and not any(np.iscomplexobj(e) for e in list(onsite.values()) + list(energies.values())))

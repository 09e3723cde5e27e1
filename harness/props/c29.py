# C29: parameter sweeps give the results of a plain loop, in order, for any number of threads
import contextlib
import io
import itertools
import os
import sys
import numpy as np
import pybinding as pb
from pybinding import parallel
from pybinding.results import Sweep, NDSweep
from pybinding.support.inspect import get_call_signature
from pybinding.utils import misc, progressbar, with_suffix, pretty_duration
from pybinding.utils.misc import rotate_axes, with_defaults, cd, x_pi, to_tuple, to_list
from pbt import check, discard_if

QUICK, THOROUGH = 16000, 200000
RULE = ("one of: parameter sweeps over 1-3 variables of 1-5 values with 1-4 threads, queues of 1-5, hooks, logs, save intervals, "
        "and results made by parallel_for, sweep or ndsweep, against a plain loop over the product of the variables; call "
        "signatures and file names of randomly called functions; progress bars driven by random updates against a plain record of "
        "the output; formatting helpers; non-trivial: at least four jobs, two arguments or three updates")
ASSUMPTIONS = ["the extension module is the project's cppmodule compiled against a small stand-in for pybind11",
               "thread schedules come from the operating system: they are sampled, not enumerated"]

ENERGY = [np.linspace(-1.0, 1.5, 4), np.array([0.25]), np.linspace(-0.5, 0.5, 7)]


def make_model(v, w=0.0, t=1.0):
    lat = pb.Lattice(1.0)
    lat.add_one_sublattice("A", [0, 0], float(v))
    lat.add_one_sublattice("B", [0.4, 0], float(w))
    lat.add_hoppings((0, "A", "B", float(t)), (1, "B", "A", 0.5))
    return pb.Model(lat, pb.primitive(4))


def ldos(v, w, t, energy, sub):
    k = pb.kpm(make_model(v, w, t), energy_range=(-6, 6), silent=True, num_threads=1)
    return k.calc_ldos(energy, 0.8, [0.1, 0], sub).data


def sweeps(s, ctx):
    nvar = s.int(1, 3)
    names = ["v", "w", "t"][:nvar]
    values = []
    for n in names:
        size = s.int(1, 5 if nvar == 1 else 3)
        values.append([s.num(1.0, 8) + 0.125 * i for i in range(size)])
    energy = ENERGY[s.int(0, 2)]
    sub = s.pick(["A", "B"])
    threads, queue = s.int(1, 4), s.int(1, 5)
    kind = s.pick(["parallel_for", "sweep", "ndsweep"]) if nvar == 1 else s.pick(["parallel_for", "ndsweep"])
    as_array = s.bool()
    given = {n: np.array(v) if as_array else list(v) for n, v in zip(names, values)}
    order = s.shuffled(names)
    kwargs = {n: given[n] for n in order}
    calls = []

    def produce_job(v, w, t, e):
        k = pb.kpm(make_model(v, w, t), energy_range=(-6, 6), silent=True, num_threads=1)
        calls.append((v, w, t)[:nvar])
        return k.deferred_ldos(e, 0.8, [0.1, 0], sub)

    options = {}
    if s.bool(80):
        options["num_threads"] = threads
    if s.bool(80):
        options["queue_size"] = queue

    def outer():
        if nvar == 1:
            @parallel.parallelize(**options, **kwargs)
            def factory(v, w=0.25, t=1.0, energy=energy):
                return produce_job(v, w, t, energy)
        elif nvar == 2:
            @parallel.parallelize(**options, **kwargs)
            def factory(v, w, t=1.0, energy=energy):
                return produce_job(v, w, t, energy)
        else:
            @parallel.parallelize(**options, **kwargs)
            def factory(v, w, t, energy=energy):
                return produce_job(v, w, t, energy)
        return factory

    factory = outer()
    full = list(itertools.product(*values))
    ctx.note("{} {} {} energies {} sublattice {}", kind, options, {n: v for n, v in zip(names, values)}, energy.tolist(), sub)
    ctx.nontrivial(len(full) >= 4)
    check([tuple(float(x) for x in v) for v in factory.sequence] == full, "sequence {} expected {}", factory.sequence, full)
    log, firsts, plots = [], [], []
    own_status = s.bool(70)
    if own_status:
        factory.hooks.status.clear()
    factory.hooks.status.append(lambda d, i, c: log.append((i, c, np.array(d.result))))
    factory.hooks.first.append(lambda d: firsts.append(len(calls)))
    factory.hooks.plot.append(lambda r: plots.append(r))
    stream = io.StringIO() if s.bool() else None
    factory.config.pbar_fd = stream
    name = os.path.join(ctx.scratch, "sweep") if s.bool(40) else None
    factory.config.filename = name
    every = s.pick([10.0, 25.0, 30.0, 34.0, 45.0, 50.0, 60.0, 70.0, 85.0, 100.0, 3.0, 12.5, 14.0])
    factory.config.save_every = every
    tags = {"a": 1}
    labels = {"x": "V", "title": "T"}
    made = []
    broken = s.int(0, len(full) - 1) if s.bool(10) and threads == 1 and options.get("num_threads") == 1 else None
    if broken is not None:
        inner = factory.produce

        def failing(*args, **kw):
            if len(calls) == broken:
                raise KeyError("broken")
            return inner(*args, **kw)
        factory.produce = failing
    out, err = sys.stdout, sys.stderr
    try:
        if kind == "parallel_for":
            make = s.bool()

            def make_result(data):
                made.append(sum(d is not None for d in data))
                return list(data)
            with contextlib.redirect_stdout(io.StringIO()) as printed:
                result = parallel.parallel_for(factory, *([make_result] if make else []))
        elif kind == "sweep":
            with contextlib.redirect_stdout(io.StringIO()) as printed:
                result = parallel.sweep(factory, plot=None, labels=labels, tags=tags, silent=s.bool() and not own_status)
        else:
            with contextlib.redirect_stdout(io.StringIO()) as printed:
                result = parallel.ndsweep(factory, labels=labels, tags=tags, silent=s.bool() and not own_status)
    except KeyError:
        check(broken is not None, "unexpected KeyError")
        check(sys.stdout is out and sys.stderr is err, "the output streams are not restored after an error")
        ctx.label("failing job")
        return
    check(broken is None, "the failing job went unnoticed")
    check(sys.stdout is out and sys.stderr is err, "the output streams are not restored")
    check([tuple(float(x) for x in c) for c in calls] == full, "produced {} expected {}", calls, full)
    rest = [0.25, 1.0][nvar - 1:] if nvar < 3 else []
    expected = [np.asarray(ldos(*(v + tuple(rest)), energy=energy, sub=sub)).reshape(-1) for v in full]
    check(firsts == [1], "the first hook was called {} times, after {} jobs", len(firsts), firsts)

    def same(a, b, what):
        a = np.asarray(a)
        check(a.size == b.size and np.allclose(a.reshape(-1), b, atol=1e-4, rtol=1e-3), "{}: {} expected {}", what, a.tolist(), b.tolist())

    if log or not (kind != "parallel_for"):
        check([c for _, c, _ in log] == list(range(1, len(full) + 1)), "counts {}", [c for _, c, _ in log])
        check(sorted(i for i, _, _ in log) == list(range(len(full))), "retired {}", [i for i, _, _ in log])
        if options.get("num_threads") == 1:
            check([i for i, _, _ in log] == list(range(len(full))), "retired out of order {}", [i for i, _, _ in log])
        for i, _, d in log:
            same(d, expected[i], "job %d" % i)
    # after every `every` percent of the jobs (either way for a percentage which is a whole job) and after the last
    steps = [len(full) * k * every / 100 for k in range(1, 101) if k * every < 100 - 1e-6]
    points = [{int(x - 1e-6), int(x + 1e-6)} - {0} for x in steps] + [{len(full)}]
    allowed = set().union(*points)
    if kind == "parallel_for":
        check(len(result) == len(full), "{} results for {} jobs", len(result), len(full))
        for i, (r, e) in enumerate(zip(result, expected)):
            same(r, e, "result %d" % i)
        if made:
            check(made == sorted(set(made) & allowed) and all(not p or p & set(made) for p in points),
                  "results were made after {} jobs, expected {}", made, sorted(allowed))
    elif kind == "sweep":
        check(type(result) is Sweep and list(result.x) == values[0] and np.array_equal(result.y, energy), "axes of the sweep")
        check(result.data.shape == (len(full), len(energy)), "shape {}", result.data.shape)
        same(result.data, np.concatenate(expected), "sweep")
        check(result.tags == tags and result.labels["x"] == "V", "labels and tags")
    else:
        shape = tuple(len(v) for v in values) + (len(energy),)
        check(type(result) is NDSweep and result.data.shape == shape, "shape {} expected {}", result.data.shape, shape)
        same(result.data, np.concatenate(expected), "ndsweep")
        for a, b in zip(result.variables, values + [energy]):
            check(list(a) == list(b), "variables")
    if name:
        stored = pb.load(name)
        check(type(stored) is type(result), "the file has a {}", type(stored).__name__)
        if kind == "parallel_for":
            for i, (r, e) in enumerate(zip(stored, expected)):
                same(r, e, "stored result %d" % i)
        else:
            same(stored.data, np.concatenate(expected), "stored")
        with open(name + ".log") as f:
            lines = f.read().splitlines()
        check(lines and "100%" in lines[0], "log starts with {}", lines[:1])
        if not own_status and kind == "parallel_for":
            check([int(x.split("|")[0]) for x in lines[1:] if x.strip()] == list(range(1, len(full) + 1)), "log {}", lines)
            for x, (i, _, _) in zip([x for x in lines[1:] if x.strip()], log):
                exp = ", ".join("{} = {:.2g}".format(n, v) for n, v in zip(["v", "w", "t"], full[i]))
                check(x.split("|")[1].strip() == exp, "log line {} expected {}", x, exp)
            ctx.label("log lines")
        for f in os.listdir(ctx.scratch):
            if f.startswith("sweep"):
                os.remove(os.path.join(ctx.scratch, f))
        ctx.label("saved")
        least = len({max(p) for p in points if len(p) == 1})
        check(len(plots) == len(made) if made else least <= len(plots) <= len(allowed),
              "plotted {} times, expected {} to {}", len(plots), least, len(allowed))
    if stream is not None:
        text = stream.getvalue()
        check("100%" in text, "progress ends at {}", text[-80:])
    ctx.label(kind)
    ctx.label("%d threads" % options["num_threads"] if "num_threads" in options else "default threads")


class Reused:
    """A job whose result is written to the same memory as that of the job before"""
    def __init__(self, buffer, value, log):
        self.result, self.value, self.log, self.solver = buffer, value, log, self

    def compute(self):
        self.log.append(self.value)
        self.result[:] = self.value

    def report(self, shortform=False):
        return "done"


def reused(s, ctx):
    values = [s.num(2.0) for _ in range(s.int(1, 6))]
    ctx.note("jobs {} with results in the same memory", values)
    ctx.nontrivial(len(values) >= 4)
    buffer, log = np.zeros(3), []

    def outer():
        @parallel.parallelize(num_threads=1, a=values)
        def factory(a, energy=np.arange(3.0)):
            return Reused(buffer, a, log)
        return factory
    factory = outer()
    factory.config.pbar_fd, factory.config.filename = None, None
    with contextlib.redirect_stdout(io.StringIO()):
        result = parallel.sweep(factory, plot=None, silent=s.bool()).data if s.bool() else parallel.parallel_for(factory)
    check(log == values, "computed {} expected {}", log, values)
    check([list(r) for r in result] == [[v] * 3 for v in values], "results {} expected {}", [list(r) for r in result], values)


# -- call signatures ----------------------------------------------------------------------------------

def f_plain(a, b=8, *args, target=1, **kwargs):
    return get_call_signature(0)


def f_two(x, y):
    z = x  # noqa: F841
    return get_call_signature(0)


def f_nested(p=3, *, q=4):
    def inner(r, s=p):
        return get_call_signature(0)
    return inner(5), get_call_signature(0)


class Thing:
    def method(self, a, *, key="k"):
        return get_call_signature(0)

    def __repr__(self):
        return "Thing()"


def signature(s, ctx):
    vals = [s.pick([0, 1, -2, 0.5, "s", None, (1, 2), [3], "a b/c.d,e"]) for _ in range(8)]
    kind = s.int(0, 3)
    if kind == 0:
        npos = s.int(1, 4)
        pos = vals[:npos]
        kw = {}
        if npos == 1 and s.bool():
            kw["b"] = vals[4]
        if s.bool():
            kw["target"] = vals[5]
        extra = {}
        for n in ["d", "e", "f"][:s.int(0, 3)]:
            extra[n] = vals[6]
        sig = f_plain(*pos, **kw, **extra)
        b = pos[1] if npos > 1 else kw.get("b", 8)
        named = [("a", pos[0]), ("b", b), ("target", kw.get("target", 1))] + list(extra.items())
        args = tuple(pos[2:])
        if args:
            parts = [(None, pos[0]), (None, b)] + [(None, x) for x in args] + named[2:]
        else:
            parts = named
        func, qual = f_plain, "f_plain"
        ctx.nontrivial(npos > 1)
    elif kind == 1:
        x, y = vals[:2]
        sig = f_two(x, y=y) if s.bool() else f_two(y=y, x=x)
        named, args, func, qual = [("x", x), ("y", y)], (), f_two, "f_two"
        parts = named
        ctx.nontrivial(True)
    elif kind == 2:
        p, q = vals[:2]
        inner, sig = f_nested(p, q=q)
        named, args, func, qual = [("p", p), ("q", q)], (), f_nested, "f_nested"
        parts = named
        check(str(inner) == "inner(r=5, s=%s)" % (p,), "nested: {}", inner)
        check(repr(inner) == "f_nested.<locals>.inner(r=5, s=%r)" % (p,), "nested: {!r}", inner)
        ctx.nontrivial(True)
    else:
        t = Thing()
        sig = t.method(vals[0], key=vals[1])
        named, args, func, qual = [("self", t), ("a", vals[0]), ("key", vals[1])], (), Thing.method, "Thing.method"
        parts = named
    ctx.note("call {} {}", qual, named)
    check(sig.function is func, "function {}", sig.function)
    check(list(sig.named_args.items()) == named and tuple(sig.args) == args, "arguments {} {} expected {} {}", dict(sig.named_args), sig.args, named, args)

    def text(f):
        return ", ".join(f(v) if k is None else "%s=%s" % (k, f(v)) for k, v in parts)
    check(str(sig) == "%s(%s)" % (func.__name__, text(str)), "{} expected {}", sig, text(str))
    check(repr(sig) == "%s(%s)" % (qual, text(repr)), "{!r} expected {}", sig, text(repr))
    name = parallel.Config.make_filename(sig)
    exp = "".join("%s%s" % (k[:1], v) for k, v in named)
    exp = "".join(c for c in exp if c not in " /.,") if exp else "data"
    check(name == exp, "file name {} expected {}", name, exp)
    check(not set(name) & set(" /.,"), "file name {}", name)


# -- progress bar -------------------------------------------------------------------------------------

def progress(s, ctx):
    size = s.int(1, 30)
    width = s.pick([80, 60, 100])
    stream = io.StringIO()
    filename = os.path.join(ctx.scratch, "bar.log") if s.bool(60) else ""
    bar = progressbar.ProgressBar(size, width=width, stream=stream, filename=filename)
    out, err = sys.stdout, sys.stderr
    printed = []
    value = 0
    n = s.int(0, 6)
    ctx.nontrivial(n >= 3)
    ctx.note("progress bar of {} with {} updates", size, n)
    with bar:
        check(sys.stdout is not out, "output is not captured")
        for i in range(n):
            if s.bool(60):
                line = "line %d" % i
                print(line)
                printed.append(line)
            if s.bool(20):
                line = "error %d" % i
                print(line, file=sys.stderr)
                printed.append(line)
            step = s.int(0, max(0, size - value))
            if s.bool():
                bar += step
            else:
                bar.update(value + step)
            value += step
            check(bar.value == value and abs(bar.percent - value / size) < 1e-12, "value {}", bar.value)
    check(sys.stdout is out and sys.stderr is err, "the output streams are not restored")

    def key(lines):
        return sorted(lines)
    last = "Progress {:3.0%} [".format(value / size)
    text = stream.getvalue()
    final = text.rstrip("\n").split("\r")[-1]
    check(final.startswith(last) and len(final) == width, "the last line is {!r}", final)
    filled = final[len(last):final.index("]")]
    cells = len(filled)
    check(filled == ("/" * int(value / size * cells)).ljust(cells), "bar {!r}", filled)
    seen = [x for x in text.replace("\r", "\n").split("\n") if x.startswith(("line", "error"))]
    check(key(seen) == key(printed), "printed {} expected {}", seen, printed)
    check([x for x in seen if x.startswith("line")] == [x for x in printed if x.startswith("line")], "order of {}", seen)
    if filename:
        with open(filename) as f:
            lines = f.read().split("\n")
        check(lines[0].startswith(last) and len(lines[0]) == width, "the log starts with {!r}", lines[0])
        check(key([x for x in lines[1:] if x]) == key(printed), "log {} expected {}", lines, printed)
        ctx.label("log file")
    try:
        with progressbar.ProgressBar(size, stream=None):
            raise KeyError(1)
    except KeyError:
        pass
    check(sys.stdout is out and sys.stderr is err, "the output streams are not restored after an error")


# -- helpers ------------------------------------------------------------------------------------------

def helpers(s, ctx):
    ctx.nontrivial(True)
    kind = s.int(0, 6)
    if kind == 0:
        v = s.pick([1, 2, 3, 7, 12, 55, 123, 456, 789]) * 10.0 ** s.int(-3, 10)
        text = with_suffix(v)
        ctx.note("with_suffix({})", v)
        unit = {"k": 1e3, "M": 1e6, "G": 1e9}.get(text[-1], 1)
        number = float(text[:-1] if unit > 1 else text)
        check(abs(number * unit - v) <= 0.006 * v, "{} is formatted as {}", v, text)
        check(number < 999.5 or unit in (1e9,), "{} is formatted as {}", v, text)
        check(number > 0.998 or unit == 1, "{} is formatted as {}", v, text)
    elif kind == 1:
        sec = s.pick([s.int(0, 2000) / 1e5, s.int(0, 3000) / 100, s.int(0, 20000), s.int(0, 300000) + 0.4])
        text = pretty_duration(sec)
        ctx.note("pretty_duration({})", sec)
        if text.endswith("ms"):
            got, tol = float(text[:-2]) / 1e3, 5.1e-6 if sec < 1e-3 else 5.1e-5 if sec < 1e-2 else 5.1e-4
        elif text.endswith("s"):
            got, tol = float(text[:-1]), 0.0051 if sec < 10 else 0.051 if sec < 20 else 0.51
        else:
            parts = [int(p) for p in text.split(":")]
            check(all(p < 60 for p in parts[1:]) and len(parts) in (2, 3) and all(len(p) == 2 for p in text.split(":")[1:]), "{} is formatted as {}", sec, text)
            got, tol = sum(p * 60 ** i for i, p in enumerate(reversed(parts))), 1.0
        check(abs(got - sec) <= tol, "{} is formatted as {}", sec, text)
    elif kind == 2:
        axes = "".join(s.shuffled("xyz"))
        p = [s.num() + 0.01 * i for i in range(3)]
        n = s.int(1, 3)
        got = rotate_axes(p, axes[:n])
        ctx.note("rotate_axes({}, {})", p, axes[:n])
        exp = [p["xyz".index(a)] for a in axes[:n]]
        check(list(got[:n]) == exp and sorted(got) == sorted(p), "rotated {}", got)
    elif kind == 3:
        a = {k: s.int(0, 5) for k in s.subset("abcd")}
        b = {k: s.int(6, 9) for k in s.subset("abcd")}
        c = {k: s.int(10, 19) for k in s.subset("abcd")}
        before = (dict(a), dict(b), dict(c))
        got = with_defaults(a or s.pick([None, {}]), b, **c)
        ctx.note("with_defaults({}, {}, {})", a, b, c)
        exp = dict(c)
        exp.update(b)
        exp.update(a)
        check(got == exp and (a, b, c) == before, "defaults {} expected {}", got, exp)
        got["new"] = 1
        check("new" not in a and "new" not in b, "the result is one of the arguments")
    elif kind == 4:
        here = os.getcwd()
        d = os.path.join(ctx.scratch, "d")
        os.makedirs(d, exist_ok=True)
        fail = s.bool()
        try:
            with cd(d):
                check(os.path.realpath(os.getcwd()) == os.path.realpath(d), "directory")
                if fail:
                    raise KeyError(1)
        except KeyError:
            pass
        check(os.getcwd() == here, "the directory is not restored")
    elif kind == 5:
        n = s.int(-40, 40) / 4
        text = x_pi(n * np.pi)
        n = (n * np.pi) / np.pi
        ctx.note("x_pi({} pi)", n)
        exp = "0" if n == 0 else r"$\pi$" if abs(n - 1) < 1e-9 else r"-$\pi$" if abs(n + 1) < 1e-9 else "%s" % "{:.2g}".format(n) + r"$\pi$"
        check(text == exp, "{} expected {}", text, exp)
    else:
        v = s.pick([None, 0, 3, "ab", [1, 2], (1, 2), [], (), np.array([1, 2]), 0.0, {"k": 1}])
        ctx.note("to_tuple/to_list({})", v)
        try:
            exp = list(v)
        except TypeError:
            exp = [] if v is None else [v]
        check(list(to_tuple(v)) == exp and type(to_tuple(v)) is tuple and to_list(v) == exp and type(to_list(v)) is list, "tuple {} list {}", to_tuple(v), to_list(v))


def run(s, ctx):
    kind = s.weighted(("sweep", 5), ("signature", 2), ("progress", 2), ("helper", 2), ("reused", 1))
    if kind != "sweep":
        ctx.label(kind)
    {"sweep": sweeps, "reused": reused, "signature": signature, "progress": progress, "helper": helpers}[kind](s, ctx)

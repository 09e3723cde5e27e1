"""Property-based testing engine for the Python layer (same scheme as pbt.hpp / pbt_main.cpp)

A case is a sequence of choices. Random cases draw them from a seeded generator; a failing
sequence is shrunk (fewer and smaller choices) and stored as the replay file. Cases run in forked
workers, so that a crash of the extension module is a failure like any other.

usage: pbt.py MODULE.py --seed N --out FILE --replay-dir DIR [--jobs N] [--cases N] [--thorough]
       pbt.py MODULE.py --replay FILE
"""
import sys
sys.dont_write_bytecode = True
import os
for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"
import argparse
import hashlib
import importlib.util
import json
import mmap
import pickle
import signal
import struct
import tempfile
import time
import traceback
import warnings

import pb_compat  # noqa: F401

CPU_LIMIT = 90  # seconds of CPU time for a single case; they normally take milliseconds


class Discard(Exception):
    """The generated case is not a valid one"""


class Failure(AssertionError):
    """The property does not hold"""


class Known(Exception):
    """A failure which is listed in known_findings.json"""
    def __init__(self, id_, msg):
        super().__init__(id_, msg)
        self.id = id_


def check(ok, msg="", *args):
    if not ok:
        raise Failure(msg.format(*args) if args else msg)


def discard_if(bad):
    if bad:
        raise Discard()


class Src:
    """Source of choices: random, or a recorded sequence (zeros after its end)"""
    MASK = (1 << 64) - 1

    def __init__(self, seed=None, index=None, replay=None, mirror=None):
        self.log = []
        self.mirror = mirror
        self.replay = replay
        if replay is None:
            h = hashlib.sha256(b"%d/%d" % (seed, index)).digest()
            self.s0, self.s1 = struct.unpack("<QQ", h[:16])

    def draw(self, n):
        """An integer in [0, n)"""
        if self.replay is None:
            x, y = self.s0, self.s1
            self.s0 = y
            x = (x ^ (x << 23)) & self.MASK
            self.s1 = x ^ y ^ (x >> 17) ^ (y >> 26)
            v = ((self.s1 + y) & self.MASK) % n if n > 1 else 0
        else:
            i = len(self.log)
            v = min(self.replay[i], max(n - 1, 0)) if i < len(self.replay) else 0
        self.log.append(v)
        if self.mirror is not None and len(self.log) * 8 + 8 < len(self.mirror):
            struct.pack_into("<Q", self.mirror, len(self.log) * 8, v)
            struct.pack_into("<Q", self.mirror, 0, len(self.log))
        if len(self.log) > 500000:
            raise Discard()
        return v

    def int(self, lo, hi):
        """lo..hi inclusive; smaller choices are closer to lo"""
        return lo + self.draw(hi - lo + 1)

    def bool(self, percent=50):
        """True with the given probability; shrinks to False"""
        return self.draw(100) >= 100 - percent

    def pick(self, items):
        return items[self.draw(len(items))]

    def weighted(self, *pairs):
        """pick('a', 3), ('b', 1)... ; shrinks to the first"""
        total = sum(w for _, w in pairs)
        v = self.draw(total)
        for item, w in pairs:
            if v < w:
                return item
            v -= w

    def real(self, lo, hi, steps=64):
        """A multiple of (hi - lo) / steps"""
        return lo + (hi - lo) * self.draw(steps + 1) / steps

    def num(self, span=2.0, steps=16):
        """A signed number with few digits, zero first"""
        v = self.draw(2 * steps + 1)
        v = (v + 1) // 2 * (1 if v % 2 else -1)
        return span * v / steps

    def subset(self, items, percent=50):
        return [x for x in items if self.bool(percent)]

    def shuffled(self, items):
        rest, out = list(items), []
        while rest:
            out.append(rest.pop(self.draw(len(rest))))
        return out

    def rng(self):
        """A numpy generator, for bulk data whose single values do not matter"""
        import numpy as np
        return np.random.RandomState(self.draw(1 << 16))


class Ctx:
    def __init__(self, thorough=False, scratch=None):
        self.thorough = thorough
        self.scratch = scratch
        self.text = []
        self.classes = {}
        self.interesting = False

    def note(self, fmt, *args):
        self.text.append(fmt.format(*args) if args else fmt)

    def label(self, name, cond=True):
        if cond:
            self.classes[name] = 1

    def nontrivial(self, cond=True):
        self.interesting = self.interesting or bool(cond)


def run_case(module, src, thorough, known):
    """-> (status, message, ctx)"""
    ctx = Ctx(thorough, os.getcwd())
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            module.run(src, ctx)
        return "ok", "", ctx
    except Discard:
        return "discard", "", ctx
    except Known as e:
        return ("known" if e.id in known else "failure"), "%s: %s" % e.args, ctx
    except Failure as e:
        where = traceback.extract_tb(e.__traceback__)
        line = next((f for f in reversed(where) if f.filename.endswith("pbt.py") is False), where[-1])
        return "failure", "%s (%s:%d)" % (e, os.path.basename(line.filename), line.lineno), ctx
    except Exception as e:
        tail = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-4:])
        return "failure", "unexpected exception: %s: %s\n%s" % (type(e).__name__, e, tail), ctx
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def silence():
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)


def in_child(job, quiet=True, wall=150):
    """Run in a forked child; -> (result, wait status)"""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        if quiet:
            silence()
        signal.alarm(wall)
        try:
            data = pickle.dumps(job())
            with os.fdopen(w, "wb") as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    return (pickle.loads(data) if data else None), status


def describe(status):
    if os.WIFSIGNALED(status):
        s = os.WTERMSIG(status)
        if s == signal.SIGPROF:
            return "no end after %d s of CPU time" % CPU_LIMIT
        return "crash: signal %d (%s)" % (s, signal.strsignal(s))
    return "the process ended early (status %d)" % status


def evaluate(module, choices, thorough, known, quiet=True):
    """One recorded case in a child; -> (status, message, log, notes)"""
    buf = mmap.mmap(-1, 1 << 22)

    def job():
        src = Src(replay=choices, mirror=buf)
        status, msg, ctx = run_case(module, src, thorough, known)
        return status, msg, src.log, ctx.text
    result, st = in_child(job, quiet)
    if result is None:
        if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGALRM:
            return "discard", "wall clock", choices, []
        n = struct.unpack_from("<Q", buf, 0)[0]
        log = list(struct.unpack_from("<%dQ" % n, buf, 8))
        return "failure", describe(st), log, []
    return result


def shrink(module, choices, thorough, known, budget):
    end = time.time() + budget
    best = list(choices)
    evals = 0

    def fails(c):
        nonlocal best, evals
        if c == best or time.time() > end:
            return False
        evals += 1
        status, _, log, _ = evaluate(module, c, thorough, known)
        if status != "failure":
            return False
        log = log[:len(c)] if len(log) > len(c) else log
        while log and log[-1] == 0:
            log = log[:-1]
        if (len(log), log) < (len(best), best):
            best = log
            return True
        return False

    progress = True
    while progress and time.time() < end:
        progress = False
        size = max(1, len(best) // 2)
        while size >= 1 and time.time() < end:
            i = 0
            while i < len(best) and time.time() < end:
                if fails(best[:i] + best[i + size:]):
                    progress = True
                else:
                    i += size
            size //= 2
        i = 0
        while i < len(best) and time.time() < end:
            if best[i]:
                if fails(best[:i] + [0] + best[i + 1:]):
                    progress = True
                else:
                    lo, hi = 0, best[i] if i < len(best) else 0
                    while hi - lo > 1 and i < len(best) and time.time() < end:
                        mid = (lo + hi) // 2
                        if fails(best[:i] + [mid] + best[i + 1:]):
                            hi = mid
                            progress = True
                        else:
                            lo = mid
            i += 1
    return best, evals


def worker(module, seed, first, total, step, thorough, known, pipe_w, buf, deadline):
    """Runs its share of the cases and reports the sum"""
    out = dict(evaluations=0, nontrivial=0, discarded=0, distinct=set(), classes={}, samples=[], known={}, failure=None)
    i = first
    while i < total:
        struct.pack_into("<Q", buf, 0, i + 1)
        src = Src(seed, i)
        status, msg, ctx = run_case(module, src, thorough, known)
        out["evaluations"] += 1
        if status == "discard":
            out["discarded"] += 1
        elif status == "known":
            k = msg.split(":")[0]
            out["known"][k] = out["known"].get(k, 0) + 1
        elif status == "failure":
            out["failure"] = (i, msg, src.log)
            break
        else:
            for k in ctx.classes:
                out["classes"][k] = out["classes"].get(k, 0) + 1
            if ctx.interesting:
                out["nontrivial"] += 1
                out["distinct"].add(hashlib.sha1(repr(src.log).encode()).digest()[:8])
                if len(out["samples"]) < 3:
                    out["samples"].append("\n".join(ctx.text)[:1500])
        if time.time() > deadline:
            break
        i += step
    with os.fdopen(pipe_w, "wb") as f:
        f.write(pickle.dumps(out))


def load(path):
    spec = importlib.util.spec_from_file_location("property_module", path)
    module = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(module)
    return module


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("module")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--out")
    ap.add_argument("--replay")
    ap.add_argument("--replay-dir")
    ap.add_argument("--known", default=None)
    ap.add_argument("--scratch")  # the engine stays in the current directory
    ap.add_argument("--share")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--cases", type=int)
    ap.add_argument("--thorough", action="store_true")
    a = ap.parse_args()
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    sys.modules["pbt"] = sys.modules["__main__"]

    module = load(a.module)
    prop = os.path.basename(a.module)[:-3].upper()
    known = set()
    if a.known and os.path.exists(a.known):
        known = {f["id"] for f in json.load(open(a.known))["findings"] if not f.get("fixed") and f.get("property") == prop}

    if a.replay:
        data = json.load(open(a.replay))
        status, msg, log, text = evaluate(module, data["choices"], a.thorough or data.get("thorough", False), known, quiet=False)
        print("\n".join(text))
        print("%s %s" % (status, msg))
        if status == "failure":
            print("VIOLATION property=%s replay=%s" % (prop, a.replay))
            return 1
        return 0

    total = a.cases or (module.THOROUGH if a.thorough else module.QUICK)
    wall = getattr(module, "WALL", 100) if not a.thorough else getattr(module, "WALL_THOROUGH", 700)
    t0 = time.time()
    procs = []
    for k in range(a.jobs):
        buf = mmap.mmap(-1, 4096)
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for p in procs:
                os.close(p[1])
            silence()
            d = tempfile.mkdtemp(prefix="w%d_" % k, dir=os.getcwd())
            os.chdir(d)
            try:
                worker(module, a.seed, k, total, a.jobs, a.thorough, known, w, buf, t0 + wall)
            except BaseException:
                traceback.print_exc(file=open(os.path.join(d, "engine-error"), "w"))
                os._exit(7)
            os._exit(0)
        os.close(w)
        procs.append((pid, r, buf))
    res = dict(evaluations=0, nontrivial=0, discarded=0, distinct=set(), classes={}, samples=[], known={})
    failures = []
    for pid, r, buf in procs:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        _, st = os.waitpid(pid, 0)
        if not data:
            if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 7:
                sys.stderr.write("engine error\n")
                return 3
            index = struct.unpack_from("<Q", buf, 0)[0] - 1
            res["evaluations"] += 1

            def regenerate():
                return None
            log_buf = mmap.mmap(-1, 1 << 22)

            def job(index=index, log_buf=log_buf):
                return run_case(module, Src(a.seed, index, mirror=log_buf), a.thorough, known)[:2]
            result, st2 = in_child(job)
            n = struct.unpack_from("<Q", log_buf, 0)[0]
            failures.append((index, describe(st), list(struct.unpack_from("<%dQ" % n, log_buf, 8))))
            continue
        one = pickle.loads(data)
        for k in ("evaluations", "nontrivial", "discarded"):
            res[k] += one[k]
        res["distinct"] |= one["distinct"]
        for k in ("classes", "known"):
            for name, n in one[k].items():
                res[k][name] = res[k].get(name, 0) + n
        res["samples"] += one["samples"][:1]
        if one["failure"]:
            failures.append(one["failure"])

    violation, path, unreproduced = False, "", 0
    for index, msg, log in sorted(failures, key=lambda f: (len(f[2]), f[0])):
        status, msg2, log2, _ = evaluate(module, log, a.thorough, known)
        if status != "failure":
            unreproduced += 1
            sys.stderr.write("case %d did not fail again: %s\n" % (index, msg))
            continue
        best, evals = shrink(module, log, a.thorough, known, 45)
        _, msg3, _, text = evaluate(module, best, a.thorough, known)
        violation = True
        if a.replay_dir:
            path = os.path.join(a.replay_dir, "%s-seed%d-case%d.json" % (prop, a.seed, index))
            with open(path, "w") as f:
                json.dump({"property": prop, "choices": best, "message": msg3, "case": "\n".join(text), "thorough": a.thorough}, f)
        print("\n".join(text)[:4000])
        print("%s: %s (shrunk from %d to %d choices in %d runs)" % (prop, msg3, len(log), len(best), evals))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        break
    out = dict(evaluations=res["evaluations"], distinct_nontrivial=len(res["distinct"]), nontrivial=res["nontrivial"],
               discarded=res["discarded"], rule=module.RULE, samples=res["samples"][:8] or ["(none)"], classes=dict(sorted(res["classes"].items())),
               known=res["known"], violation=violation, replay=path, unreproduced=unreproduced,
               assumptions=getattr(module, "ASSUMPTIONS", []), search_seconds=round(time.time() - t0, 2))
    if a.out:
        with open(a.out, "w") as f:
            json.dump(out, f)
    return 0


if __name__ == "__main__":
    sys.exit(main())

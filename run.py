#!/usr/bin/env python3
"""Build one property's check from /repo's current working tree and run it.

usage: run.py <property id> [quick|thorough] [--replay FILE] [--seed N] [--cases N] [--build-only]

Exit status: 0 the property held on everything explored, 1 a violation was found (a line
"VIOLATION property=<id> replay=<path>" is printed), 2 no answer (the tree does not build).
"""
import concurrent.futures, glob, json, os, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PBT_REPO", "/repo")
CORE = os.path.join(REPO, "cppcore")
H = os.path.join(HERE, "harness")

# Which of the project's sources each property needs besides the structural core
KPM = {"C16", "C17", "C18", "C19"}
SOLVER = {"C20"}


def config(prop):
    spec = {}
    path = os.path.join(H, "props", prop.lower() + ".json")
    if os.path.exists(path):
        spec = json.load(open(path))
    return spec


def sources(prop):
    """All of cppcore/src, except for parts which the property cannot reach (build time)"""
    out = []
    for f in sorted(glob.glob(os.path.join(CORE, "src", "**", "*.cpp"), recursive=True)):
        rel = os.path.relpath(f, os.path.join(CORE, "src"))
        top = rel.split(os.sep)[0]
        if (top == "kpm" or rel == "KPM.cpp") and prop not in KPM:
            continue
        if top == "solver" and (prop not in SOLVER or rel.endswith("FEAST.cpp")):
            continue
        out.append(f)
    return out


def variants(spec):
    """Instruction sets for which a check is built; {name: {"flags": [...], "needs": [cpu features]}}"""
    everything = spec.get("variants", {"": {}})
    cpu = set()
    try:
        for line in open("/proc/cpuinfo"):
            if line.startswith("flags"):
                cpu = set(line.split(":", 1)[1].split())
                break
    except OSError:
        pass
    return {k: v for k, v in everything.items() if set(v.get("needs", [])) <= cpu}


def build(prop, spec, variant=""):
    choice = spec.get("variants", {}).get(variant, {})
    extra_flags = choice.get("flags", [])
    san = choice.get("sanitizer", spec.get("sanitizer", "address"))
    out = os.path.join(HERE, "build", "%s-%s%s" % (prop.lower(), san, "-" + variant if variant else ""))
    os.makedirs(out, exist_ok=True)
    flags = ["-std=c++%s" % spec.get("std", "11"), "-O1", "-g1", "-fno-omit-frame-pointer", "-w", "-pthread",
             "-include", H + "/eigen_throw.hpp", "-I" + H + "/compat", "-include", H + "/compat/compat.hpp",
             "-DFMT_SHARED", "-I" + CORE + "/include", "-I" + H, "-isystem", "/usr/include/eigen3"]
    flags += [x.replace("@H", H) for x in list(spec.get("flags", [])) + list(extra_flags)]
    link = ["-pthread"]
    if san != "none":
        flags.append("-fsanitize=" + san)
        link.append("-fsanitize=" + san)
        if "address" in san:
            flags.append("-DPBT_ASAN")
    srcs = sources(prop) if spec.get("core", True) else [os.path.join(CORE, "src", x) for x in spec.get("sources", [])]
    srcs = [(f, os.path.relpath(f, CORE).replace(os.sep, "_")) for f in srcs]
    for f in [H + "/props/" + prop.lower() + ".cpp", H + "/pbt_main.cpp"] + [H + "/" + x for x in spec.get("extra", [])]:
        srcs.append((f, "harness_" + os.path.basename(f)))
    cxx = spec.get("cxx", "clang++")
    with open(os.path.join(out, "build.ninja"), "w") as n:
        n.write("cxx = %s\nflags = %s\nlink = %s -lfmt\n" % (cxx, " ".join(flags), " ".join(link)))
        n.write("rule cc\n command = $cxx $flags -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc\n")
        n.write("rule ld\n command = $cxx $in $link -o $out\n")
        objs = []
        # the big ones first
        srcs.sort(key=lambda s: -os.path.getsize(s[0]) - (10**7 if "harness" in s[1] else 0))
        for f, name in srcs:
            obj = name + ".o"
            objs.append(obj)
            n.write("build %s: cc %s\n" % (obj, f))
            if name.startswith("harness_"):
                n.write(" flags = $flags -std=c++%s\n" % spec.get("harness_std", 14))
        n.write("build check: ld %s\n" % " ".join(objs))
    r = subprocess.run(["ninja", "--quiet", "-C", out, "-j", str(spec.get("build_jobs", 8)), "check"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:])
        return None
    return os.path.join(out, "check")


def build_module(prop, spec):
    """The extension module of the Python package, against the small pybind11 in harness/py"""
    out = os.path.join(HERE, "build", "%s-module" % prop.lower())
    os.makedirs(out, exist_ok=True)
    q = subprocess.run(["python3-vt", "-c", "import numpy, sysconfig; print(numpy.get_include()); print(sysconfig.get_paths()['include'])"],
                       stdout=subprocess.PIPE, text=True, check=True).stdout.split()
    flags = ["-O1", "-g1", "-w", "-fPIC", "-pthread", "-I" + H + "/compat", "-include", H + "/compat/compat.hpp", "-DFMT_SHARED",
             "-I" + H + "/shim", "-I" + CORE + "/include", "-isystem", "/usr/include/eigen3"]
    module = os.path.join(REPO, "cppmodule")
    more = ["-I" + module + "/include", "-I" + H + "/py/shim", "-isystem", q[0], "-isystem", q[1]]
    srcs = [("core", f) for f in glob.glob(os.path.join(CORE, "src", "**", "*.cpp"), recursive=True) if not f.endswith("FEAST.cpp")]
    srcs += [("mod", f) for f in glob.glob(os.path.join(module, "src", "**", "*.cpp"), recursive=True)] + [("mod", H + "/py/shim/runtime.cpp")]
    srcs.sort(key=lambda s: -os.path.getsize(s[1]) - (10**6 if s[0] == "mod" or "kpm" in s[1] or "KPM" in s[1] else 0))
    with open(os.path.join(out, "build.ninja"), "w") as n:
        n.write("core = -std=c++11 %s\nmod = -std=c++17 -fvisibility=hidden %s\n" % (" ".join(flags), " ".join(flags + more)))
        for kind in ("core", "mod"):
            n.write("rule %s\n command = clang++ $%s -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc\n" % (kind, kind))
        n.write("rule ld\n command = clang++ -shared -pthread $in -o $out -lfmt\n")
        objs = []
        for kind, f in srcs:
            base = CORE if kind == "core" else os.path.dirname(f)
            objs.append("%s_%s.o" % (kind, os.path.relpath(f, base).replace(os.sep, "_")))
            n.write("build %s: %s %s\n" % (objs[-1], kind, f))
        n.write("build _pybinding.so: ld %s\n" % " ".join(objs))
    r = subprocess.run(["ninja", "--quiet", "-C", out, "_pybinding.so"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:])
        return None
    return out


def python_command(prop, out):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
               PYTHONPATH=os.pathsep.join([os.path.join(H, "py", "stubs"), out, REPO, os.path.join(H, "py")]))
    return ["python3-vt", "-W", "ignore", os.path.join(H, "py", "pbt.py"), os.path.join(H, "props", prop.lower() + ".py"),
            "--known", os.path.join(HERE, "known_findings.json")], env


def starts(binary):
    """The thread sanitizer needs an address space layout which not every kernel gives it"""
    r = subprocess.run([binary, "--probe"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return "FATAL: ThreadSanitizer" not in r.stdout


def findings():
    path = os.path.join(HERE, "known_findings.json")
    return json.load(open(path)) if os.path.exists(path) else {"findings": []}


def main(argv):
    prop = argv[0].upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    replay = cases = None
    build_only = False
    rest = argv[1:]
    while rest:
        a = rest.pop(0)
        if a in ("quick", "thorough"):
            tier = a
        elif a == "--replay":
            replay = rest.pop(0)
        elif a == "--seed":
            seed = rest.pop(0)
        elif a == "--cases":
            cases = rest.pop(0)
        elif a == "--build-only":
            build_only = True
        else:
            sys.exit("unknown argument " + a)
    seed = str(int(seed) if seed.isdigit() else sum(map(ord, seed)))

    t0 = time.time()
    spec = config(prop)
    chosen = variants(spec)
    if replay:
        chosen = {k: v for k, v in chosen.items() if k == json.load(open(replay)).get("variant", k)}
    spec["build_jobs"] = spec.get("build_jobs", max(2, 8 // max(1, len(chosen)) + 1) if len(chosen) > 1 else 8)
    with concurrent.futures.ThreadPoolExecutor(max(1, len(chosen))) as pool:
        python = os.path.exists(os.path.join(H, "props", prop.lower() + ".py"))
        built = {k: pool.submit(*((build_module, prop, spec) if python else (build, prop, spec, k))) for k in chosen}
        binaries = {k: f.result() for k, f in built.items()}
    t_build = time.time() - t0
    if not binaries or None in binaries.values():
        print("property %s: the tree at %s does not build" % (prop, REPO))
        return 2
    if len(binaries) > 1:
        binaries = {k: b for k, b in binaries.items() if spec["variants"][k].get("sanitizer") != "thread" or starts(b)}
    if build_only:
        print("\n".join(binaries.values()))
        return 0
    if replay and python:
        with tempfile.TemporaryDirectory(prefix="pbt.") as scratch:
            cmd, env = python_command(prop, binaries[""])
            return subprocess.run(cmd + ["--replay", os.path.abspath(replay)], env=env, cwd=scratch).returncode
    if replay:
        return max(subprocess.run([b, "--replay", replay] + (["--thorough"] if tier == "thorough" else [])).returncode
                   for b in binaries.values())

    replays = os.path.join(HERE, "replays")
    os.makedirs(replays, exist_ok=True)
    res = None
    for i, (variant, binary) in enumerate(binaries.items()):
        with tempfile.TemporaryDirectory(prefix="pbt.") as scratch:
            out = os.path.join(scratch, "out.json")
            cmd = [binary, "--seed", str(int(seed) + 7919 * i), "--out", out, "--replay-dir", replays, "--scratch", scratch,
                   "--jobs", str(spec.get("jobs", 8)), "--share", str(len(binaries))]
            if tier == "thorough":
                cmd.append("--thorough")
            if cases:
                cmd += ["--cases", cases]
            env = None
            if python:
                head, env = python_command(prop, binary)
                cmd = head + cmd[1:]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, text=True, cwd=scratch, env=env)
            try:
                one = json.load(open(out))
            except Exception as e:
                sys.stdout.write(r.stdout)
                sys.stderr.write("no result from %s: %s (exit %d)\n" % (binary, e, r.returncode))
                return 2
        if one["violation"] and variant:
            data = json.load(open(one["replay"]))
            data["variant"] = variant
            with open(one["replay"], "w") as f:
                json.dump(data, f)
        sys.stdout.write(r.stdout)
        if variant:
            one["classes"] = dict(one["classes"], **{"built for " + variant: one["evaluations"]})
        if res is None:
            res = one
        else:
            for k in ("evaluations", "distinct_nontrivial", "nontrivial", "discarded", "search_seconds"):
                res[k] = round(res[k] + one[k], 2)
            for k in ("classes", "known"):
                for name, n in one[k].items():
                    res[k][name] = res[k].get(name, 0) + n
            res["samples"] = (res["samples"] + one["samples"])[:8]
            res["unreproduced"] = res["unreproduced"] or one["unreproduced"]
            res["violation"] = res["violation"] or one["violation"]
        if one["violation"]:
            break
    for f in findings()["findings"]:
        if f.get("property") == prop and not f.get("fixed"):
            hits = res["known"].get(f["id"], 0)
            print("KNOWN-FINDING: property=%s %s (met %d times in this run)" % (prop, f["what"], hits))
    if res["unreproduced"]:
        print("note: one failure did not reproduce and is not reported")
    evidence = {
        "property": prop, "tier": tier, "seed": int(seed), "level": "exploration",
        "coverage": {
            "evaluations": res["evaluations"], "distinct_nontrivial": res["distinct_nontrivial"],
            "nontrivial": res["nontrivial"], "discarded": res["discarded"], "rule": res["rule"],
            "samples": res["samples"], "classes": res["classes"],
            "search_seconds": res["search_seconds"], "build_seconds": round(t_build, 1),
        },
        "wall_s": round(time.time() - t0, 2),
        "assumptions": res["assumptions"],
        "violations": int(res["violation"]),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    print("property %s: %d cases (%d distinct non-trivial), build %.0f s, search %.0f s" % (
        prop, res["evaluations"], res["distinct_nontrivial"], t_build, res["search_seconds"]))
    return 1 if res["violation"] else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))

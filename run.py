#!/usr/bin/env python3
"""Build one check from /repo's working tree and run it.

usage: run.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE] [--law NAME] [--scale X]
       run.py --build-all

exit 0: the property held on everything explored; 1: VIOLATION printed; 2: the check failed.
"""
import argparse, glob, hashlib, json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MPCV_REPO", "/repo")
BUILD = os.environ.get("MPCV_BUILD", os.path.join(VERIF, "build"))
HARNESS = os.path.join(VERIF, "harness")

# property -> (harness sources, flavour)
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

FLAVOURS = {
    "plain": "-O1 -g0 -D_GLIBCXX_ASSERTIONS -ftrivial-auto-var-init=pattern",
    # run under valgrind: locals keep their lack of a value
    "memcheck": "-O1 -g1 -D_GLIBCXX_ASSERTIONS",
    "asan": "-O1 -g1 -D_GLIBCXX_ASSERTIONS -fsanitize=address,undefined "
            "-fno-sanitize-recover=all -fno-omit-frame-pointer",
    "tsan": "-O1 -g1 -D_GLIBCXX_ASSERTIONS -fsanitize=thread",
}


def repo_sources():
    src = sorted(glob.glob(os.path.join(REPO, "src", "**", "*.cpp"), recursive=True))
    src += sorted(glob.glob(os.path.join(REPO, "qpsolver", "src", "*.cpp")))
    return src


def tree_state():
    """Content of everything the build reads from the repository."""
    state = {}
    for top in ("src", "mpc-walkgen", "qpsolver"):
        for d, _, files in os.walk(os.path.join(REPO, top)):
            for f in files:
                p = os.path.join(d, f)
                with open(p, "rb") as fh:
                    state[p] = hashlib.sha256(fh.read()).hexdigest()
    return state


def build(properties):
    os.makedirs(BUILD, exist_ok=True)
    stamp = os.path.join(BUILD, "tree.json")
    state = tree_state()
    try:
        old = json.load(open(stamp))
    except Exception:
        old = None
    # ninja goes by modification times; a file whose content changed while its time went back
    # in time would be missed, so such a file's objects are dropped
    if old is not None and old["files"] != state:
        for p, h in state.items():
            if old["files"].get(p) != h and os.path.getmtime(p) <= old["time"]:
                subprocess.run(["ninja", "-f", os.path.join(BUILD, "build.ninja"), "-t", "clean"],
                               cwd=BUILD, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                break
    incs = (f"-I{HARNESS}/stubs -I{HARNESS}/core -I{REPO} -I{REPO}/qpsolver "
            f"-isystem /usr/include/eigen3")
    out = ["ninja_required_version = 1.5", "builddir = " + BUILD]
    for fl, flags in FLAVOURS.items():
        out += [f"rule cxx_{fl}",
                f"  command = g++ -std=c++14 -w {flags} $defs {incs} -MMD -MF $out.d -c $in -o $out",
                "  depfile = $out.d", "  deps = gcc", "  description = CXX $in",
                f"rule link_{fl}",
                f"  command = g++ {flags} $in -o $out -lpthread", "  description = LINK $out",
                f"rule ar_{fl}", "  command = rm -f $out && ar rcs $out $in",
                "  description = AR $out"]
    for fl in FLAVOURS:
        objs = []
        for s in repo_sources():
            o = os.path.join(BUILD, fl, os.path.relpath(s, REPO).replace("/", "__") + ".o")
            defs = "-DQPOASES_REAL_IS_FLOAT" if s.endswith("_float.cpp") else ""
            out += [f"build {o}: cxx_{fl} {s}"] + ([f"  defs = {defs}"] if defs else [])
            objs.append(o)
        out += [f"build {BUILD}/{fl}/librepo.a: ar_{fl} " + " ".join(objs)]
        core = []
        for s in sorted(glob.glob(os.path.join(HARNESS, "core", "*.cpp"))):
            o = os.path.join(BUILD, fl, "core__" + os.path.basename(s) + ".o")
            out += [f"build {o}: cxx_{fl} {s}"]
            core.append(o)
        done = {}
        for prop, spec in sorted(CHECKS.items()):
            if fl not in spec.get("flavours", ["plain"]):
                continue
            # a check made of several others' laws tells them apart by their file
            mixed = len(spec["sources"]) > 1
            objs = []
            for s in spec["sources"]:
                o = os.path.join(BUILD, fl, ("m__" if mixed else "h__") + s + ".o")
                if o not in done:
                    out += [f"build {o}: cxx_{fl} {HARNESS}/{s}"]
                    if mixed:
                        name = s.split("_")[0]
                        out += [f"  defs = -DMPCV_PREFIX='\"{name}.\"'"]
                    done[o] = 1
                objs.append(o)
            out += [f"build {BUILD}/{fl}/{prop}: link_{fl} " +
                    " ".join(objs + core) + f" {BUILD}/{fl}/librepo.a"]
    nf = os.path.join(BUILD, "build.ninja")
    text = "\n".join(out) + "\n"
    if not os.path.exists(nf) or open(nf).read() != text:
        with open(nf, "w") as fh:
            fh.write(text)
    t0 = time.time()
    env = dict(os.environ, LC_ALL="C.UTF-8")
    r = subprocess.run(["ninja", "--quiet", "-f", nf] + [f"{BUILD}/{fl}/{p}" for p in properties
                                                    for fl in CHECKS[p].get("flavours", ["plain"])],
                       cwd=BUILD, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       env=env)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-8000:])
        print("the check could not be built")
        sys.exit(2)
    with open(stamp, "w") as fh:
        json.dump({"files": state, "time": t0}, fh)
    return time.time() - t0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--law")
    ap.add_argument("--scale")
    ap.add_argument("--build-all", action="store_true")
    a = ap.parse_args()
    if a.build_all:
        print("built in %.1f s" % build(sorted(CHECKS)))
        return 0
    if a.property not in CHECKS:
        print("unknown property", a.property)
        return 2
    prop, spec = a.property, CHECKS[a.property]
    t0 = time.time()
    build_s = build([prop])
    replays = os.path.join(VERIF, "replays")
    os.makedirs(replays, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    known = {}
    kf = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(kf):
        for e in json.load(open(kf))["findings"]:
            if prop == e["property"]:
                known[e["tag"]] = e["what_fails"]
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:"\
        "detect_stack_use_after_return=1:max_malloc_fill_size=100000000:malloc_fill_byte=255"
    env["GLIBC_TUNABLES"] = "glibc.malloc.tcache_count=0"
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=99:report_signal_unsafe=0:detect_deadlocks=0"
    env["UBSAN_OPTIONS"] = "print_stacktrace=0:exitcode=99"
    laws, rc = [], 0
    for fl in spec.get("flavours", ["plain"]):
        tool = spec.get("tools", {}).get(fl, [])
        cmd = tool + [os.path.join(BUILD, fl, prop), prop, "--tier", a.tier, "--seed", str(a.seed),
                      "--replays", replays]
        report = os.path.join(BUILD, prop + ".report.json")
        if os.path.exists(report):
            os.remove(report)
        for tag in known:
            cmd += ["--known", tag + "=1"]
        cmd += ["--report", report] + spec.get("args", [])
        if a.law:
            cmd += ["--law", a.law]
        scale = float(a.scale or 1) * spec.get("scales", {}).get(fl, {}).get(a.tier, 1)
        if scale != 1:
            cmd += ["--scale", str(scale)]
        if a.replay:
            rc = subprocess.run(cmd + ["--replay", a.replay], env=env).returncode
            if rc:
                return rc
            continue
        r = subprocess.run(cmd, env=env)
        if r.returncode not in (0, 1) or not os.path.exists(report):
            print("the check ended with status", r.returncode)
            return 2
        part = json.load(open(report))["laws"]
        for l in part:
            if tool:
                l["name"] = os.path.basename(tool[0]) + ": " + l["name"]
        laws += part
        if r.returncode:
            rc = 1
            break
    if a.replay:
        return 0
    hits = {}
    for l in laws:
        for k, v in l["known"].items():
            hits[k] = hits.get(k, 0) + v
    for tag, text in sorted(known.items()):
        print(f"KNOWN-FINDING: property={prop} {text} [{tag}: met {hits.get(tag, 0)} times in this run]")
    samples = []
    for l in laws:
        for s in l["samples"][:1]:
            samples.append({"law": l["name"], "case": s[:1500].splitlines()})
    ev = {
        "property": prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(l["evaluations"] for l in laws),
            "distinct_nontrivial": sum(l["distinct_nontrivial"] for l in laws),
            "rule": spec.get("rule", "") + " Per law: " +
                    "; ".join(f"{l['name']}: {l['rule']}" for l in laws),
            "samples": samples[:12],
            "laws": [{k: l[k] for k in ("name", "evaluations", "discarded", "nontrivial",
                                        "distinct_nontrivial", "labels", "known", "budget_hit",
                                        "seconds")} for l in laws],
            "build_s": round(build_s, 1),
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": sum(1 for l in laws if l["violated"]),
    }
    if not (a.law or a.scale):
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %s, %.1f s" % (
        prop, a.tier, a.seed, ev["coverage"]["evaluations"],
        ev["coverage"]["distinct_nontrivial"],
        "VIOLATED" if rc else "held", ev["wall_s"]))
    return rc


if __name__ == "__main__":
    sys.exit(main())

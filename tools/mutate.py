#!/usr/bin/env python3
"""tools/mutate.py SLOTS COUNT SEED [FILE-SUBSTRING...]: a mutation campaign, to find what the
checks miss.  Each mutant is one small edit of one line of /repo's sources, made in a scratch copy
under /tmp/mut that is shown as /repo (in a mount namespace of its own); mutants that the
repository's own tests see are left out; the others go through the checks, in the order likely to
see them first, until one reports a violation.  Results: /tmp/mut/results.jsonl."""
import json, os, random, re, shutil, subprocess, sys, threading, time

SLOTS, COUNT, SEED = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3])
ONLY = sys.argv[4:]
TOP = os.environ.get("MUT_TOP", "/tmp/mut")
VERIF = os.environ.get("MUT_VERIF", "/verif")
OUT = os.path.join(TOP, "results.jsonl")

ORDER = [
    (r"tools", ["C01", "C02", "C03", "C14", "C06", "C10"]),
    (r"convexpolygon", ["C04", "C06", "C05", "C08", "C13", "C10", "C19"]),
    (r"interpolator", ["C05", "C07"]),
    (r"lineardynamic|lip_model|no_dynamic|zebulon_base_model", ["C01", "C02", "C03", "C14", "C13", "C12", "C16", "C18"]),
    (r"humanoid_feet_supervisor|humanoid_foot_model", ["C06", "C07", "C08", "C11", "C10", "C20"]),
    (r"function/humanoid", ["C08", "C09", "C10", "C11", "C20"]),
    (r"humanoid_walkgen", ["C10", "C11", "C20", "C23", "C21"]),
    (r"tilt", ["C14", "C15", "C16"]),
    (r"function/zebulon", ["C12", "C13", "C14", "C15", "C16"]),
    (r"zebulon_walkgen", ["C15", "C16", "C20", "C23", "C21"]),
    (r"trajectory", ["C17", "C18", "C20", "C23"]),
    (r"qpsolver", ["C19", "C10"]),
]
ALL = ["C%02d" % i for i in range(1, 22)] + ["C23"]
if os.environ.get("MUT_C22"): ALL.append("C22")

SWAPS = [("StateX", "StateY"), ("StateY", "StateX"), ("Left", "Right"), ("Right", "Left"),
         ("left", "right"), ("right", "left"), ("Sup", "Inf"), ("Inf", "Sup"),
         ("cwiseMin", "cwiseMax"), ("cwiseMax", "cwiseMin"), ("std::min", "std::max"),
         ("std::max", "std::min"), ("true", "false"), ("false", "true"), (".Uinv", ".U"),
         (".UT", ".U"), ("UTinv", "Uinv"), (".S", ".K"), ("Upper", "Lower"), ("Lower", "Upper"),
         ("getCopX", "getCopY"), ("getVel", "getPos"), ("getAcc", "getVel"), ("getPos", "getVel"),
         ("Com", "Base"), ("Base", "Com"), ("front()", "back()"), ("back()", "front()"),
         ("samplingPeriod_", "feedbackPeriod_"), ("feedbackPeriod_", "samplingPeriod_"),
         ("setZero", "setOnes"), ("cos", "sin"), ("sin", "cos"), (" && ", " || "), (" || ", " && ")]


def mutants(path, text):
    """(line number, old line, new line, kind)"""
    res = []
    lines = text.split("\n")
    depth_comment = False
    for i, l in enumerate(lines):
        s = l.strip()
        if "/*" in s: depth_comment = True
        if depth_comment:
            if "*/" in s: depth_comment = False
            continue
        if not s or s.startswith(("//", "#", "template", "namespace", "using", "typedef", "assert",
                                  "public", "private", "protected", "class", "struct", "}", "{")):
            continue
        if "MPC_WALKGEN" in s or "@@" in s or "std::cerr" in s: continue
        if re.match(r"[:,]\w+_?\(", s): continue  # initialisers
        code = l.split("//")[0].rstrip()
        def add(new, kind):
            if new != code: res.append((i, l, new, kind))
        prev = lines[i - 1].split("//")[0].strip() if i else ""
        whole = code.strip().endswith(";") and prev.endswith((";", "{", "}", "")) \
            and (not prev or prev[-1] in ";{}")
        bal = code.count("(") == code.count(")")
        if whole and bal and not re.match(r"\s*(const |int |Scalar |VectorX |MatrixX |return|typename|bool |Vector|std::vector|static|for|while|if|virtual|Phase|double|float|unsigned|break|case|LinearDynamic)", code) \
                and path.endswith(".cpp"):
            add(re.match(r"\s*", code).group() + ";", "delete")
        # only code inside expressions from here on
        if path.endswith(".h") and not re.search(r"[;{]", code): continue
        for m in re.finditer(r"(?<=[\w\)\]]) ?([-+]) ?(?=[\w\(])", code):
            if re.search(r"\de$", code[:m.start(1)]): continue
            o = m.group(1)
            if code[m.start(1):m.start(1)+2] in ("++", "--", "->") or code[m.start(1)-1] in "+-": continue
            add(code[:m.start(1)] + ("-" if o == "+" else "+") + code[m.end(1):], "sign")
        for m in re.finditer(r"\+=|-=", code):
            add(code[:m.start()] + ("-=" if m.group() == "+=" else "+=") + code[m.end():], "sign")
            add(code[:m.start()] + "=" + code[m.end():], "assign")
        for a, b in ((" < ", " <= "), (" > ", " >= "), ("<=", "<"), (">=", ">"), ("==", "!="), ("!=", "=="),
                     ("<", "<=")):
            k = code.find(a)
            if k >= 0 and (re.search(r"\b(if|for|while|return)\b|\?", code)) and "<Scalar" not in code[k:k+8] \
               and code[k:k+2] not in ("<<",) and not (a in ("<",) and code[k+1:k+2] in "=<S"):
                add(code[:k] + b + code[k + len(a):], "relation")
        for m in re.finditer(r"(?<![\w.])([012])(?![\w.])", code):
            v = m.group(1)
            for n in {"0": ["1"], "1": ["0", "2"], "2": ["1", "3"]}[v]:
                add(code[:m.start()] + n + code[m.end():], "constant")
        for m in re.finditer(r"\b([a-z])\b(?=[\),\]])", code):
            if m.group(1) in "ijkn": add(code[:m.end()] + "+1" + code[m.end():], "index")
        for m in re.finditer(r"(?<=[\w\)])\*(?=[\w\(])", code):
            if code.strip().startswith("*"): continue
            add(code[:m.start()] + "/" + code[m.end():], "mul")
        for a, b in SWAPS:
            if re.search(r"^(const )?\w+(<\w+>)?[&*]* ?\w*::|LinearDynamic<|::set|::get|^void ", code.strip()) and not code.strip().endswith(";"): continue
            if path.endswith(".h") and not re.search(r"return|=", code): continue
            for m in re.finditer(re.escape(a), code):
                add(code[:m.start()] + b + code[m.end():], "swap")
        m = re.match(r"(\s*(?:}?\s*else )?if\s*\()(.*)(\)\s*{?)$", code)
        if m and m.group(2).count("(") == m.group(2).count(")"):
            add(m.group(1) + "false && (" + m.group(2) + ")" + m.group(3), "condition")
            add(m.group(1) + "true || (" + m.group(2) + ")" + m.group(3), "condition")
        m = re.match(r"(\s*return )(.*);$", code)
        if m and m.group(2).count("(") == m.group(2).count(")") and "_" in m.group(2) and "&" not in m.group(2):
            pass
    return res


def run(cmd, timeout):
    try:
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                             start_new_session=True)
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        return -1, "timeout"


def in_slot(slot, script, timeout):
    repo = f"{TOP}/repo{slot}"
    return run(["unshare", "-Urm", "bash", "-c", f"mount --bind {repo} /repo && cd /repo && {script}"], timeout)


def one(slot, mut):
    f, i, old, new, kind = mut
    p = f"{TOP}/repo{slot}/{f}"
    orig = open(p).read()
    st = os.stat(p)
    lines = orig.split("\n")
    assert lines[i] == old
    lines[i] = new
    r = {"file": f, "line": i + 1, "old": old.strip(), "new": new.strip(), "kind": kind}
    t0 = time.time()
    try:
        open(p, "w").write("\n".join(lines))
        rc, out = in_slot(slot, f"bash /opt/vp/test.sh {TOP}/t{slot}.json", 400)
        try:
            d = json.load(open(f"{TOP}/t{slot}.json"))
        except Exception:
            d = {"passed": [], "failed": []}
        if not d["passed"]:
            r["result"] = "build"
            return r
        if len(d["passed"]) < 71:
            r["result"] = "tests"
            return r
        first = []
        for pat, cs in ORDER:
            if re.search(pat, f):
                first = cs
                break
        r["result"] = "SURVIVED"
        if not os.environ.get("MUT_ALL"):
            first = first + [c for c in ("C20", "C21", "C23") if c not in first]
        for c in first + [c for c in ALL if c not in first and os.environ.get("MUT_ALL")]:
            rc, out = in_slot(slot, f"cd {VERIF} && MPCV_BUILD={TOP}/build{slot} python3 run.py {c} --tier quick", 900)
            if rc == 1 and "VIOLATION" in out:
                r["result"] = c
                break
            if rc != 0:
                r["result"] = "rc%s %s" % (rc, c)
                r["out"] = out[-300:]
                break
        return r
    finally:
        open(p, "w").write(orig)
        r["s"] = round(time.time() - t0)


def main():
    os.makedirs(TOP, exist_ok=True)
    files = subprocess.run(["git", "-C", "/repo", "ls-files", "src", "mpc-walkgen", "qpsolver"], capture_output=True,
                           text=True).stdout.split()
    files = [f for f in files if f.endswith((".cpp", ".h", ".hxx")) and "test" not in f
             and not f.endswith(("api.h", "macro.h", "type.h"))
             and (not ONLY or any(o in f for o in ONLY))]
    done = set()
    if os.path.exists(OUT):
        for l in open(OUT):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["new"]))
    pool = []
    for f in files:
        ms = mutants(f, open("/repo/" + f).read())
        pool += [(f,) + m for m in ms if (f, m[0] + 1, m[2].strip()) not in done]
    print(len(pool), "mutants")
    rnd = random.Random(SEED)
    # the same weight to each line
    byline = {}
    for m in pool: byline.setdefault((m[0], m[1]), []).append(m)
    keys = sorted(byline)
    rnd.shuffle(keys)
    todo = [rnd.choice(byline[k]) for k in keys][:COUNT]
    if os.environ.get("MUT_DRY"):
        for m in todo: print(m[0], m[1] + 1, m[4], "|", m[2].strip(), "=>", m[3].strip())
        return
    lock = threading.Lock()

    def worker(slot):
        repo = f"{TOP}/repo{slot}"
        if os.path.exists(repo):  # what a stopped campaign left behind
            subprocess.run(["git", "-C", repo, "checkout", "-q", "--", "."], check=True)
            in_slot(slot, "touch src/*.cpp src/*/*.cpp", 60)
        else:
            subprocess.run(["cp", "-a", "/repo", repo], check=True)
            in_slot(slot, "bash /opt/vp/build.sh", 900)
            os.makedirs(f"{TOP}/build{slot}", exist_ok=True)
            in_slot(slot, f"cd {VERIF} && for c in C01 C23; do MPCV_BUILD={TOP}/build{slot} python3 run.py $c --scale 0.01; done", 1800)
        while True:
            with lock:
                if not todo: return
                m = todo.pop()
            r = one(slot, m)
            with lock:
                with open(OUT, "a") as fh: fh.write(json.dumps(r) + "\n")
                print(r["result"], r["s"], r["file"], r["line"], r["old"], "=>", r["new"], flush=True)

    ts = [threading.Thread(target=worker, args=(k,)) for k in range(SLOTS)]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()

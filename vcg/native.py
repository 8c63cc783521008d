"""Runs histories on the real code (native/replay.cpp, compiled with g++ from
/repo's current headers): replays the verifier's counterexamples, and stands in,
bounded, where the verifier cannot decide."""
import os
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
ALLTYPES = ["val", "big", "mov", "cpy", "ali", "i32", "tri", "wid", "emp", "ptr", "boo", "dbl", "enu", "iref", "vref", "cref", "kref", "void",
            "lon", "chr", "hug", "al1", "al6", "tdt", "ncp", "p12", "odd", "dref", "tref"]
FNVARIANT = {"lv", "rv", "cl", "def", "defrv", "mo", "co", "fp", "fr", "bl", "br", "al", "tl", "tr", "em", "pr"}


def command(build, tn, out, prop=None):
    std = build.split("-")[0]
    return ["g++", "-std=" + std, "-O1", "-g", "-w", "-DT_" + tn] + ([] if build.endswith("assert") else ["-DNDEBUG"]) + (
        ["-fsanitize=alignment", "-fno-sanitize-recover=all"] if prop == "C10" else []) + [
        "-I" + os.path.join(REPO, "include"), os.path.join(HERE, "native", "replay.cpp"), "-o", out, "-lboost_context", "-lpthread"]


def compile_one(build, tn, tmp, prop=None):
    out = os.path.join(tmp, "replay-%s-%s" % (build, tn))
    cmd = command(build, tn, out, prop)
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=240)
    except subprocess.TimeoutExpired:
        return None, cmd, "compiler timed out"
    return (out if r.returncode == 0 else None), cmd, r.stdout


def run_one(exe, args, timeout):
    """None: no deviation; else (tag, text)."""
    try:
        r = subprocess.run([exe] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None if int(args[3]) > 64 else ("HANG", "HANG - no result within %d s" % timeout)
    txt = r.stdout.decode("utf-8", "replace").strip()
    if r.returncode == 0:
        return None
    w = txt.split()
    if r.returncode == 3 and len(w) > 1 and w[0] == "FAIL":
        return w[1], txt
    if r.returncode == 5:
        return "HANG", txt
    err = r.stderr.decode("utf-8", "replace").strip()[:2000]
    return "CRASH", "\n".join(x for x in (txt, err) if x) or "the process ended with status %d" % r.returncode


def forced(hist):
    """The verifier's history as forced operations of native/replay.cpp."""
    l = []
    for h in hist:
        who, act = h[0], str(h[1])
        if act.startswith("new"):
            act = "new"
        elif act in ("propagate",):
            continue
        l.append("%s:%s%s" % (who, act, "!" if any("throws" in str(c) for c in h[2:]) else ""))
    return ";".join(l)


def related(tag, prop, text):
    """Does a deviation labelled `tag` show a violation of `prop`?"""
    if tag in (prop, "CRASH", "HANG"):
        return True
    hist = text.split("\nhistory", 1)[-1]
    if prop == "C08" and ("M move handle" in hist or "C move owning" in hist or "assign empty" in hist):
        return True
    if prop == "C16" and ("C move handle" in hist or "C destroy handle" in hist or "handle inside" in text or "seen from" in text):
        return True
    if prop == "C09" and ("iterator" in hist or "pusha" in hist or "operator" in text):
        return True
    if prop == "C01" and tag in ("C09", "C12", "C13") and "yield" in text:
        return True
    if prop == "C15" and ("1:" in hist or "nested" in hist):
        return True
    return False


def search(prop, exe, jobs, deadline):
    """Runs jobs (argument lists) until one deviates; prefers related ones."""
    fallback = None
    n = 0
    for args in jobs:
        if time.time() > deadline:
            break
        n += int(args[3])
        r = run_one(exe, args, 60)
        if r is None:
            continue
        if related(r[0], prop, r[1]):
            return n, args, r, True
        if fallback is None:
            fallback = (args, r)
    if fallback:
        return n, fallback[0], fallback[1], False
    return n, None, None, False


def random_jobs(prop, kinds, variant, seed, n=4000):
    j = []
    for k in kinds:
        for c in (1, 2):
            for v in ([variant] if variant == "any" else [variant, "any"]):
                for i in range(5):
                    j.append([k, v, seed + i * n, n, c])
    if prop == "C15":
        j.insert(0, [kinds[0], "any", seed, 3000, 2, "", 4])
    return j


def replay(prop, viol, info, seed=1):
    """Tries the failed obligations' histories, then histories near them, on
    the real code.  (confirmed, text)"""
    tmp = info["tmp"]
    by = {}
    types = [v for v in viol if v[0][0][3] == "interface"]
    if types:
        ok, text = types_replay(types)
        if ok or len(types) == len(viol):
            return ok, text
    for (task, seg, ob), fs in viol:
        if task[3] == "interface":
            continue
        b, tn, kind, variant, full = task
        v = variant[4:] if variant.startswith("sym-") else variant
        by.setdefault((b, tn), []).append((kind, "pr" if v == "prs" else v, fs[0]))
    todo = sorted(by, key=lambda k: (k[0] not in ("c++17", "c++11"), -len(by[k])))[:10]
    deadline = time.time() + 150

    def one(key):
        exe, cmd, log = compile_one(key[0], key[1], tmp, prop)
        if exe is None:
            return key, cmd, None, None, log
        jobs, seen = [], set()
        for kind, variant, f in by[key]:
            s = forced(f["history"])
            if (kind, variant, s) in seen or len(seen) > 12:
                continue
            seen.add((kind, variant, s))
            jobs.append([kind, variant, seed, 300, 1, s])
        kinds = sorted({k for k, _, _ in by[key]})
        jobs += random_jobs(prop, kinds, by[key][0][1], seed)
        n, args, r, rel = search(prop, exe, jobs, deadline)
        return key, cmd, args, r, rel
    best = None
    with ThreadPoolExecutor(8) as ex:
        for key, cmd, args, r, rel in ex.map(one, todo):
            if args is None:
                continue
            if best is None or (rel is True and best[3] is not True):
                best = (cmd, args, r, rel)
    if best is None and prop in ("C10", "C17") and any(k[2].startswith("layout.") for k, _ in viol):
        ok, text = sizes_replay({k[0] for k in by}, tmp)
        if ok:
            return ok, text
    if best is None:
        return False, "no failing run of the real code was found (native/replay.cpp, %d builds); the verifier's counterexample follows" % len(todo)
    cmd, args, r, rel = best
    seed_line = [l for l in r[1].splitlines() if l.startswith("seed ")]
    a = list(args)
    if seed_line and len(a) <= 7 and not (len(a) > 7):
        a[2], a[3] = seed_line[0].split()[1], 1
    text = "A run of the real code deviates from the specification:\n\n%s\n\nto repeat:\n  %s\n  %s %s\n%s" % (
        r[1], " ".join(cmd).replace(tmp, "/tmp"), "/tmp/" + os.path.basename(cmd[cmd.index("-o") + 1]),
        " ".join("'%s'" % x if ";" in str(x) or x == "" else str(x) for x in a),
        "" if rel else "(the deviation is reported under another property's label; it is the same change)\n")
    return True, text


def sizes_replay(builds, tmp):
    """Coroutine-functions of 40 sizes on the real code."""
    for b in sorted(builds):
        exe = os.path.join(tmp, "sizes-" + b)
        cmd = ["g++", "-std=" + b.split("-")[0], "-O1", "-w", "-DNDEBUG", "-I" + os.path.join(REPO, "include"),
               os.path.join(HERE, "native", "sizes.cpp"), "-o", exe, "-lboost_context"]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=240)
        if r.returncode != 0:
            continue
        try:
            r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
        except subprocess.TimeoutExpired:
            continue
        if r.returncode != 0:
            return True, "A run of the real code deviates from the specification:\n\n%s\n(exit status %d)\n\nto repeat:\n  %s\n  %s\n" % (
                r.stdout[:2000], r.returncode, " ".join(cmd).replace(tmp, "/tmp"), "/tmp/sizes-" + b)
    return False, ""


def types_replay(viol):
    """The obligations on types as static_asserts, with g++."""
    done, text = set(), ""
    for (task, seg, ob), fs in viol:
        b, tn = task[0], task[1]
        if (b, tn) in done or len(done) >= 4:
            continue
        done.add((b, tn))
        cmd = ["g++", "-std=" + b, "-w", "-DSTATIC", "-fsyntax-only", "-I" + os.path.join(REPO, "include"), "-DT_" + {"i32": "int"}.get(tn, tn),
               os.path.join(HERE, "harness", "interface.cpp")]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=240)
        l = [x for x in r.stdout.splitlines() if "static assertion failed" in x]
        if l:
            text += " ".join(cmd) + "\n" + "\n".join(l[:20]) + "\n\n"
    if text:
        return True, "The program that asserts the property of the types is rejected by g++ with the real headers:\n\n" + text
    return False, "g++ does not confirm the obligations on types that clang refutes"


def battery(prop, info, seed=1, types=None, n=4000, budget=200):
    """Bounded stand-in: random histories on the real code."""
    types = [t for t in (types or info["types"]) if t in ALLTYPES]
    keys = [(b, t) for b in ("c++17", "c++11") for t in types]
    deadline = time.time() + budget
    tot, failed = 0, None

    def one(key):
        if time.time() > deadline:
            return key, None, 0, None, None, False
        exe, cmd, log = compile_one(key[0], key[1], info["tmp"], prop)
        if exe is None:
            return key, cmd, 0, None, None, False
        k, args, r, rel = search(prop, exe, random_jobs(prop, ["pull", "push"], "any", seed, n), deadline)
        return key, cmd, k, args, r, rel
    with ThreadPoolExecutor(8) as ex:
        for key, cmd, k, args, r, rel in ex.map(one, keys):
            tot += k
            if r is not None and rel and failed is None:
                failed = (cmd, args, r)
    text = ""
    if failed:
        cmd, args, r = failed
        text = "bounded run of the real code deviates from the specification:\n\n%s\n\nbuild: %s\narguments: %s\n" % (
            r[1], " ".join(cmd), " ".join(map(str, args)))
    return {"histories_run": tot, "builds": len(keys), "bound": "random histories of at most 17 steps per coroutine, 1-2 coroutines; one in 1024 has 70000 switches",
            "failed": failed is not None, "text": text}

"""Decides one property: builds, runs the tasks in parallel, evaluates the
obligations, writes the evidence and the verdict."""
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

from . import attrib

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CLANG = "clang++-18"

BUILDS = {
    "c++11": ["-std=c++11", "-DNDEBUG"],
    "c++14": ["-std=c++14", "-DNDEBUG"],
    "c++17": ["-std=c++17", "-DNDEBUG"],
    "c++20": ["-std=c++20", "-DNDEBUG"],
    # the library's own assertions become obligations
    "c++11-assert": ["-std=c++11", "-DBOOST_ENABLE_ASSERT_HANDLER"],
    "c++17-assert": ["-std=c++17", "-DBOOST_ENABLE_ASSERT_HANDLER"],
}
VARIANTS = ["lv", "rv", "cl", "def", "defrv", "mo", "co", "fp", "fr", "bl", "br", "al", "tl", "tr", "em", "pr"]
EXTRA = VARIANTS[9:]     # more representatives of callables


class Undecided(Exception):
    pass


# ---------------------------------------------------------------- building
def flags(build, types):
    return (["-O0", "-Xclang", "-disable-O0-optnone", "-w", "-fno-discard-value-names", "-ftemplate-depth=900"] + BUILDS[build]
            + ["-I" + os.path.join(REPO, "include")] + ["-DT_" + {"i32": "int"}.get(t, t) for t in types])


def compile_bc(build, types, out, src="api.cpp"):
    dep = out + ".d"
    cmd = [CLANG] + flags(build, types) + ["-emit-llvm", "-c", os.path.join(HERE, "harness", src), "-o", out, "-MD", "-MF", dep]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    if r.returncode == 0:
        txt = open(dep).read()
        for w in txt.replace("\\\n", " ").split():
            if "boost/coroutine2" in w and not os.path.realpath(w).startswith(os.path.realpath(REPO) + "/"):
                raise Undecided("header taken from outside the repository: " + w)
    return r.returncode, r.stdout, cmd


def build_all(builds, types, tmp):
    """{build: [(bitcode, types)]}, {(build, type): (command, compiler output)}"""
    from concurrent.futures import ThreadPoolExecutor
    mods, bad = {}, {}

    def one(b):
        out = os.path.join(tmp, b + ".bc")
        rc, log, cmd = compile_bc(b, types, out)
        if rc == 0:
            return b, [(out, list(types))], []
        ok, err = [], []
        for t in types:
            o = os.path.join(tmp, "%s-%s.bc" % (b, t))
            rc, log, cmd = compile_bc(b, [t], o)
            if rc == 0:
                ok.append((o, [t]))
            else:
                err.append((t, cmd, log))
        return b, ok, err
    with ThreadPoolExecutor(8) as ex:
        lay = [ex.submit(layout, b, types, tmp) for b in builds]
        for b, ok, err in ex.map(one, builds):
            mods[b] = ok
            for t, cmd, log in err:
                bad[(b, t)] = (cmd, log)
        for j in lay:
            j.result()
    return mods, bad


def layout(build, types, tmp):
    """Where the members the function contracts speak about lie: tmp/BUILD.layout,
    {name: numbers}.  Members that are gone leave the file without their entries
    and the functions without contracts: their bodies are then executed instead."""
    from .contracts import parse_layout
    d = {}

    def go(ts):
        cmd = [CLANG] + flags(build, ts) + ["-fno-access-control", "-S", "-emit-llvm", "-o", "-", os.path.join(HERE, "harness", "layout.cpp")]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
        if r.returncode == 0:
            d.update(parse_layout(r.stdout))
        return r.returncode == 0
    if not go(types):
        for t in types:
            go([t])
    json.dump(d, open(os.path.join(tmp, build + ".layout"), "w"))


def interface(builds, types, tmp):
    """The obligations on types: [(build, type, side, fact, holds)] and the
    (build, type) for which the compiler gives no verdict."""
    from concurrent.futures import ThreadPoolExecutor
    out, none = [], []

    def one(b, ts):
        cmd = [CLANG] + flags(b, ts) + ["-S", "-emit-llvm", "-o", "-", os.path.join(HERE, "harness", "interface.cpp")]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
        if r.returncode != 0:
            return None
        return [(b,) + m.groups()[:3] + (m.group(4) == "1",)
                for m in re.finditer(r"^@fact_([a-z0-9]+)__([a-z]+)__(\w+) = .*?constant i8 (\d)", r.stdout, re.M)]

    def go(b):
        r = one(b, types)
        if r is not None:
            return r, []
        l, bad = [], []
        for t in types:
            r = one(b, [t])
            if r is None:
                bad.append((b, t))
            else:
                l += r
        return sorted(set(l)), bad
    with ThreadPoolExecutor(8) as ex:
        for l, bad in ex.map(go, builds):
            out += l
            none += bad
    return out, none


def tokens(cmd):
    """The library's own text after preprocessing, without white space."""
    r = subprocess.run(cmd + ["-I" + os.path.join(REPO, "include"), "-E", "-x", "c++", "-"], input="#include <boost/coroutine2/all.hpp>\n",
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
    out, keep = [], False
    for l in r.stdout.splitlines():
        m = re.match(r'# \d+ "([^"]*)"', l)
        if m:
            keep = "/boost/coroutine2/" in m.group(1)
        elif keep and not l.startswith("#"):
            out.append(re.sub(r"\s+", "", l))
    return r.returncode, "".join(out)


def same_text(builds):
    """Do the compilers and options users have see the text that is verified?
    Returns the standards for which they do not."""
    from concurrent.futures import ThreadPoolExecutor
    jobs = {}
    with ThreadPoolExecutor(8) as ex:
        for std in sorted({BUILDS[b][0] for b in builds}):
            f = ["-w", std, "-DNDEBUG"]
            jobs[std] = [ex.submit(tokens, c + f) for c in ([CLANG, "-O0"], [CLANG, "-O2"], ["g++", "-O0"], ["g++", "-O3"])]
        return [std for std, l in jobs.items() if len({j.result() for j in l}) != 1 or l[0].result()[0]]


# ---------------------------------------------------------------- tasks
def plan(prop, tier):
    """[(build, type, kind, variant, full)]"""
    types = attrib.types(prop)
    t = []
    if prop == "C18":
        # a protected stack of the default size, and one of every size at every address
        return [(b, tn, k, v, tier != "quick" or tn == "void" or b == "c++17") for b in BUILDS for tn in types for k in ("pull", "push")
                for v in ("pr", "sym-prs") if v == "pr" or tier != "quick" or b in ("c++11", "c++17")]
    if prop in ("C10", "C17"):
        # the coroutine's stack at an arbitrary address, of arbitrary size
        for b in ("c++17", "c++11") if tier == "quick" else BUILDS:
            for tn in types:
                for k in ("pull", "push"):
                    full = tier != "quick" or b == "c++17"
                    t.append((b, tn, k, "sym-lv", full))
                    if prop == "C17" and not full:
                        continue
                    if tier == "quick" and tn == "i32":
                        t.append((b, tn, k, "sym-al", False))
                    for v in ("rv", "mo", "co", "al") if tier != "quick" else ():
                        t.append((b, tn, k, "sym-" + v, full))
    if tier == "quick":
        for b in ("c++11", "c++17") if prop != "C10" else ():
            for tn in types:
                for k in ("pull", "push"):
                    t.append((b, tn, k, "lv", True))
        small = [x for x in ("i32", "void", "val") if x in types] or types[:1]
        for b in ("c++11", "c++17"):
            for v in VARIANTS[1:]:
                for tn in small[:1 if v in EXTRA else 2]:
                    for k in ("pull", "push"):
                        t.append((b, tn, k, v, False))
        for b in ("c++14", "c++20", "c++11-assert", "c++17-assert"):
            for tn in small:
                for k in ("pull", "push"):
                    t.append((b, tn, k, "lv", b.endswith("assert")))
    else:
        for b in BUILDS:
            for tn in types:
                for k in ("pull", "push"):
                    for v in VARIANTS:
                        t.append((b, tn, k, v, v in ("lv", "rv", "co", "fp")))
    return t


COST = {"val": 9, "cpy": 6, "big": 6, "ali": 6, "wid": 5, "tri": 4}
_mods = {}


def load_layout(p):
    return json.load(open(p)) if os.path.exists(p) else {}


def run_task(a):
    """Executed in a worker process."""
    from . import llvm, driver
    from .contracts import Contracts
    from .machine import EngineError
    path, task, deadline, prop = a
    b, tn, kind, variant, full = task
    t0 = time.time()
    res = driver.Results()
    out = {"task": task, "error": None}
    findings = load_findings()

    def is_mine(seg, ob, detail):
        _, t, _, op = split_seg(seg)
        f = {"obligation": ob, "tn": t, "op": op, "detail": detail}
        return prop in attrib.props(op, ob, t) and finding_of(findings, f) is None
    res.mine = is_mine
    d = c = None
    try:
        if path not in _mods:
            _mods[path] = llvm.Module(path)
        d = driver.Driver(_mods[path], tn, kind, res, b)
        d.deadline = deadline
        c = Contracts(d, load_layout(os.path.join(os.path.dirname(path), b + ".layout")))
        c.establish()
        d.explore(variant, full=full)
    except EngineError as e:
        out["error"] = "engine: %s" % e
    except RecursionError:
        out["error"] = "engine: recursion"
    except Exception as e:  # the engine meets code it cannot interpret
        out["error"] = "engine: %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:])
    out["ob"] = [(k[0], k[1], v[0], v[1]) for k, v in res.ob.items()]
    out["fails"] = res.fails
    out["time"] = time.time() - t0
    if d is not None:
        m = d.m
        out["states"], out["trans"] = d.nstates, d.ntrans
        out["truncated"] = d.truncated
        out["solver_calls"], out["solver_time"] = m.solver_calls, m.solver_time
        out["functions"] = sorted({m.dem.get(f, f) for f in m.covered if "boost::coroutines2" in m.dem.get(f, f)})
        out["support"] = len({f for f in m.covered if "boost::coroutines2" not in m.dem.get(f, f)})
        if c is not None:
            out["contracts"] = {"established": c.established, "refuted": c.refuted, "used": c.used}
        out["external"] = sorted({m.dem.get(n, n) for n, h in d.env.cache.items() if h is not None})
    return out


def run_tasks(tasks, mods, budget, prop=None, stop=None):
    jobs = []
    where = {}
    for b, l in mods.items():
        for path, types in l:
            for t in types:
                where[(b, t)] = path
    deadline = time.time() + budget
    for t in tasks:
        p = where.get((t[0], t[1]))
        if p is not None:
            jobs.append((p, t, deadline, prop))
    jobs.sort(key=lambda j: -COST.get(j[1][1], 2) * (1 if j[1][4] else 0.3) * (4 if j[1][3].startswith("sym-") else 1))
    n = min(len(os.sched_getaffinity(0)), 8)
    if n == 1 or len(jobs) == 1:
        return [run_task(j) for j in jobs]
    out = []
    with mp.get_context("fork").Pool(n) as pool:
        it = pool.imap_unordered(run_task, jobs)
        for _ in jobs:
            try:
                r = it.next(max(1, deadline + 90 - time.time()))
            except mp.TimeoutError:
                have = {x["task"] for x in out}
                out.extend({"task": j[1], "error": "time limit", "fails": [], "ob": []} for j in jobs if j[1] not in have)
                pool.terminate()
                break
            out.append(r)
            if stop is not None and stop(r):
                pool.terminate()
                break
    return out


# ---------------------------------------------------------------- findings
def load_findings():
    p = os.path.join(HERE, "known-findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def finding_of(findings, f):
    """The listed finding that this failure is (of whatever property)."""
    for k in findings:
        if k.get("status") != "known":
            continue
        m = k["match"]
        if m["obligation"] == f["obligation"] and f["tn"] in m["types"] and f["op"].split(" @")[0] == m["operation"] \
                and re.search(m["detail"], f["detail"]):
            return k
    return None


def split_seg(s):
    """'c++17 val/pull callc @susp' -> (build, type, kind, 'callc @susp')"""
    b, tk, op = s.split(" ", 2)
    tn, kind = tk.split("/")
    return b, tn, kind, op


def fail_props(fs):
    """Properties violated by the failures fs of one obligation."""
    f = fs[0]
    p = set(attrib.props(f["op"], f["obligation"], f["tn"]))
    if f["obligation"].startswith("valid.") and "@run" in f["op"]:
        p.add("C16")
    if f["obligation"].startswith("valid.") and all(any("throws" in str(c) for c in x["history"][-1][2:]) for x in fs if x["history"]):
        # the handle is unusable after a failed transfer
        p.add("C01")
    if any(x.get("truncated") for x in fs):
        return p
    acts = [{(h[0], h[1]) for h in x["history"]} for x in fs]
    if all(("C", "mv") in a for a in acts):
        p.add("C16")
    if all(a & {("M", "mv"), ("M", "assign"), ("C", "mvo")} for a in acts):
        p.add("C08")
    return p


# ---------------------------------------------------------------- main
def main(argv):
    if argv[:1] == ["--setup"]:
        return setup()
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if prop not in attrib.ALL:
        print("unknown property " + prop)
        return 2
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        return decide(prop, tier, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def setup():
    """Nothing to build ahead: checks that the tools are there."""
    from . import llvm  # noqa: F401
    import z3
    r = subprocess.run([CLANG, "--version"], stdout=subprocess.PIPE, text=True)
    print(r.stdout.splitlines()[0], "z3", z3.get_version_string())
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    return r.returncode


def decide(prop, tier, tmp):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    budget = 420 if tier == "quick" else 6 * 3600
    tasks = plan(prop, tier)
    builds = sorted({t[0] for t in tasks})
    types = sorted({t[1] for t in tasks})
    undecided = []
    mods, bad = build_all(builds, types, tmp)
    other = same_text(builds)
    outs = run_tasks(tasks, mods, budget, prop)

    mine, failed, groups = {}, set(), {}
    funcs, ext = set(), set()
    tot = {"states": 0, "trans": 0, "solver_calls": 0, "solver_time": 0.0, "time": 0.0}
    required = load_required()
    for o in outs:
        b, tn, kind, variant, full = o["task"]
        if o["error"]:
            undecided.append("%s: %s" % ("/".join(map(str, o["task"])), o["error"]))
        for f in o["fails"]:
            f["task"] = o["task"]
            f["truncated"] = bool(o.get("truncated") or o["error"])
            _, f["tn"], f["kind"], f["op"] = split_seg(f["segment"])
            groups.setdefault((o["task"], f["segment"], f["obligation"]), []).append(f)
        for seg, ob, p, n in o["ob"]:
            _, _, _, op = split_seg(seg)
            if prop in attrib.props(op, ob, tn):
                mine[(o["task"], seg, ob)] = (p, n)
        if not o["error"] and not o["fails"] or (o["fails"] and all(f["obligation"] == "val.repeatable" for f in o["fails"])):
            # vacuity guard: the obligations known to exist must have been generated
            have = {(split_seg(s)[3], ob) for s, ob, _, _ in o["ob"]}
            miss = [x for x in required.get(req_key(o["task"]), []) if tuple(x) not in have]
            if miss and not o["error"]:
                undecided.append("%s: obligations were not generated: %s" % ("/".join(map(str, o["task"])), miss[:5]))
        for k in tot:
            tot[k] += o.get(k, 0)
        funcs |= set(o.get("functions", []))
        ext |= set(o.get("external", []))
    facts, none = interface([b for b in builds if not b.endswith("assert")], types, tmp)
    for b, tn, side, fact, holds in facts:
        if prop not in attrib.FACTS.get(fact, ()):
            continue
        key = ((b, tn, side, "interface", False), "%s %s/%s interface" % (b, tn, side), "type." + fact)
        mine[key] = (int(holds), int(not holds))
        if not holds:
            groups.setdefault(key, []).append({"task": key[0], "segment": key[1], "obligation": key[2], "tn": tn, "kind": side, "op": "interface",
                                               "detail": "harness/interface.cpp: %s does not hold for %s" % (fact, tn), "history": [],
                                               "choices": [], "stack": [], "truncated": False})
    for b, tn in none:
        if (b, tn) not in bad and any(prop in v for v in attrib.FACTS.values()):
            undecided.append("%s/%s: the obligations on types have no verdict" % (b, tn))
    viol, known = [], {}
    findings = load_findings()
    for key, fs in sorted(groups.items(), key=lambda kv: str(kv[0])):
        rest = []
        for f in fs:
            k = finding_of(findings, f)
            if k is None:
                rest.append(f)
            elif k["property"] == prop:
                known[k["id"]] = k
                failed.add(key)
        if rest and prop in fail_props(rest):
            failed.add(key)
            viol.append((key, rest))
    for std in other:
        undecided.append("%s: the library's text depends on the compiler or its optimisation level; what is verified is clang's -O0 text" % std[5:])
    for (b, tn), (cmd, log) in sorted(bad.items()):
        undecided.append("%s/%s does not compile" % (b, tn))
    from . import report
    return report.conclude(prop, tier, seed, t0, dict(
        mine=mine, failed=failed, viol=viol, known=known, undecided=undecided, bad=bad, outs=outs, tot=tot,
        same_text=[s for s in sorted({BUILDS[b][0][5:] for b in builds}) if "-std=" + s not in other],
        funcs=sorted(funcs), ext=sorted(ext), tasks=tasks, builds=builds, types=types, tmp=tmp))


def req_key(task):
    b, tn, kind, variant, full = task
    return "%s/%s/%s/%s" % (tn, kind, variant, "full" if full else "base")


def load_required():
    p = os.path.join(HERE, "contracts", "required.json")
    if not os.path.exists(p):
        return {}
    d = json.load(open(p))
    return {k: [d["names"][i] for i in v] for k, v in d["tasks"].items()}

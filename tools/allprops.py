#!/usr/bin/env python3
"""One run over the union of all quick tasks; lists violated properties.
tools/allprops.py [--small|--tiny] [--first]   (VERIF_REPO selects the tree;
--first stops with the first task that violates something)"""
import os
import sys
import tempfile
VT = "/opt/veriftools/pyvenv/bin/python3"
try:
    import z3  # noqa
except ImportError:
    os.execv(VT, [VT, "-B"] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vcg import checker, attrib  # noqa: E402


def main():
    small = "--small" in sys.argv
    tasks = sorted({t for p in attrib.ALL for t in checker.plan(p, "quick")})
    if small:
        tasks = [t for t in tasks if t[1] in ("i32", "val", "cpy", "void", "vref")]
    if "--tiny" in sys.argv:
        tasks = [t for t in tasks if t[1] in ("i32", "val", "void", "vref") and t[0] in ("c++11", "c++17")
                 and (t[3] in ("lv", "rv", "mo") or t[3] == "sym-lv" and t[1] == "i32")]
    stop = None
    if "--first" in sys.argv:
        def stop(o):
            g = {}
            for f in o["fails"]:
                _, f["tn"], f["kind"], f["op"] = checker.split_seg(f["segment"])
                f["truncated"] = bool(o.get("truncated") or o["error"])
                g.setdefault((f["segment"], f["obligation"]), []).append(f)
            return any(checker.finding_of(findings, f) is None for fs in g.values() for f in fs)
    findings = checker.load_findings()
    with tempfile.TemporaryDirectory() as tmp:
        mods, bad = checker.build_all(sorted({t[0] for t in tasks}), sorted({t[1] for t in tasks}), tmp)
        seen = set()
        for k, v in bad.items():
            e = next((l for l in v[1].splitlines() if "error:" in l), "?")
            if e not in seen:
                print("does not compile", k, e[:300])
            seen.add(e)
        outs = checker.run_tasks(tasks, mods, 900, stop=stop)
    groups, und = {}, set()
    st = 0
    for o in outs:
        st += o.get("states", 0)
        if o["error"]:
            und.add("%s: %s" % ("/".join(map(str, o["task"])), o["error"][:300]))
        for f in o["fails"]:
            f["task"] = o["task"]
            f["truncated"] = bool(o.get("truncated") or o["error"])
            _, f["tn"], f["kind"], f["op"] = checker.split_seg(f["segment"])
            groups.setdefault((o["task"], f["segment"], f["obligation"]), []).append(f)
    per = {}
    for key, fs in groups.items():
        rest = [f for f in fs if checker.finding_of(findings, f) is None]
        for p in checker.fail_props(rest) if rest else ():
            per.setdefault(p, []).append((key, rest[0]))
    for p in sorted(per):
        print("VIOLATED", p, len(per[p]))
        names = {}
        for key, f in per[p]:
            names.setdefault((key[2], f["detail"][:140]), []).append((key[1], f["history"]))
        for n, l in sorted(names.items(), key=lambda x: -len(x[1]))[:4]:
            print("    ", len(l), n, l[0])
    for u in sorted(und)[:8]:
        print("UNDECIDED", u)
    print("states", st, "undecided", len(und), "violated", sorted(per))


main()

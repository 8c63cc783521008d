#!/opt/veriftools/pyvenv/bin/python3
"""Regenerates contracts/required.json: the names of the contract-level
obligations every run must generate (vacuity guard).  Run on a tree whose
checks pass."""
import json
import os
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vcg import checker  # noqa: E402

KEEP = ("val.", "ctl.", "valid.", "exn.transfer", "exn.propagates", "exn.same", "exn.released", "unwind.thrown", "stack.released",
        "stack.once", "own.", "it.", "ref.", "cat.", "synth.", "fn.once", "fn.value", "fn.destroyed", "obj.destroyed", "frame.",
        "layout.preallocated", "layout.context-in-bounds", "layout.context-on-stack", "layout.object-aligned", "guard.in-place", "guard.own-pages", "regs.")

tmp = tempfile.mkdtemp()
tasks = set(checker.plan("C02", "quick")) | set(checker.plan("C07", "quick")) | set(checker.plan("C13", "quick")) \
    | set(checker.plan("C14", "quick")) | set(checker.plan("C10", "quick"))
tasks |= set(checker.plan("C17", "quick")) | set(checker.plan("C18", "quick"))
tasks |= {t for t in checker.plan("C02", "thorough") if t[0] in ("c++11", "c++17")}
tasks |= {t for t in checker.plan("C10", "thorough") if t[0] in ("c++11", "c++17")}
tasks = sorted(tasks)
mods, bad = checker.build_all(sorted({t[0] for t in tasks}), sorted({t[1] for t in tasks}), tmp)
assert not bad
outs = checker.run_tasks(tasks, mods, 3600)
names, req = {}, {}
for o in outs:
    assert not o["error"], o["error"]
    have = {(checker.split_seg(s)[3], ob) for s, ob, _, _ in o["ob"] if ob.startswith(KEEP)}
    k = checker.req_key(o["task"])
    req[k] = have if k not in req else req[k] & have
for v in req.values():
    for n in sorted(v):
        names.setdefault(n, len(names))
with open(os.path.join(HERE, "contracts", "required.json"), "w") as f:
    json.dump({"names": [list(n) for n in names], "tasks": {k: sorted(names[n] for n in v) for k, v in sorted(req.items())}}, f,
              separators=(",", ":"))
print(len(req), "tasks", len(names), "names")

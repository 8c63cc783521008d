"""Verdict, evidence and replay files."""
import json
import os
import re
import time

from . import native

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TRUSTED = [
    "the positions of the control blocks' members (harness/layout.cpp, compiled with -fno-access-control)",
    "clang 18 front end (C++ -> LLVM bitcode at -O0) and libLLVM 18 bitcode reader",
    "vcg (this repository's verification-condition generator, machine.py/driver.py) and z3 4.x",
    "contracts of boost::context::detail::jump_fcontext/ontop_fcontext/make_fcontext (assembly, env.py h_jump/h_ontop/h_make)",
    "contracts of the C++ runtime's exception machinery (Itanium ABI: __cxa_*, std::exception_ptr, landing pads)",
    "contracts of user code: element types, coroutine-functions and stack allocators behave as C++ objects with value semantics "
    "(declared-only classes Val/Big/Mov/Cpy/Ali/Tdt/Ncp/Fn/FnM/FnC/FnL/FnA/Alo in harness/classes.hpp)",
    "contracts of malloc/free, mmap/mprotect/munmap (a page without access faults) and stack_traits",
    "the compiler and jump_fcontext keep the registers and frames of a suspended context; <cfenv> contracts (env.py h_fenv)",
    "machine arithmetic is exact (64-bit bit-vectors); nothing is treated as mathematical integers",
    "representative element types stand for all types of their category (trivial of several sizes, class types with throwing/noexcept/"
    "deleted copy and move, over-aligned, references, void); templates are verified per instantiation",
]


def pattern(n):
    """A demangled name without template arguments and parameter lists."""
    out, d, i = [], 0, 0
    while i < len(n):
        m = re.match(r"operator *(\(\)|<=>|<<=?|>>=?|<=?|>=?|->)", n[i:])
        if m:
            if d == 0:
                out.append(m.group(0))
            i += m.end()
            continue
        c = n[i]
        if c in "<(":
            d += 1
        elif c in ">)":
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    s = "".join(out)
    s = s[s.find("boost::coroutines2"):]
    return s.strip()


def by_pattern(names):
    r = {}
    for n in names:
        k = pattern(n)
        if k.startswith("boost::coroutines2"):
            r[k] = r.get(k, 0) + 1
    return r


def contract_summary(outs):
    """Function contracts: established for how many instantiations, from how many
    pre-states, with how many outcomes; calls verified against them."""
    ok, no = {}, {}
    seen = set()
    for o in outs:
        c = o.get("contracts")
        if not c:
            continue
        b = o["task"][0]
        for f, v in c["established"].items():
            e = ok.setdefault(pattern(f), {"instantiations": 0, "pre_states": 0, "outcomes_proved_equal": 0, "calls_verified_against_it": 0})
            e["calls_verified_against_it"] += c["used"].get(f, 0)
            if (b, f) not in seen:
                seen.add((b, f))
                e["instantiations"] += 1
                e["pre_states"] += v["pre_states"]
                e["outcomes_proved_equal"] += v["outcomes"]
        for f, w in c["refuted"].items():
            no.setdefault(pattern(f), w[:300])
    return {k: ok[k] for k in sorted(ok)}, {k: no[k] for k in sorted(no)}


def compile_prop(t):
    """The property that promises that element type t can be used at all."""
    return {"mov": "C14", "iref": "C13", "vref": "C13", "cref": "C13", "kref": "C13", "dref": "C13", "tref": "C13", "void": "C02"}.get(t, "C01")


_ni = {}


def not_instantiable(prop, r):
    """A public operation that compiles with neither compiler."""
    for (b, t), (cmd, log) in sorted(r["bad"].items()):
        if compile_prop(t) != prop or b.endswith("assert"):
            continue
        if (b, t) not in _ni:
            exe, cmd2, log2 = native.compile_one(b, t, r["tmp"])
            _ni[(b, t)] = (b, t, cmd, log, cmd2, log2) if exe is None else None
        if _ni[(b, t)]:
            return _ni[(b, t)]
    return None


def conclude(prop, tier, seed, t0, r):
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "proof"}
    total = len(r["mine"])
    nfail = len([k for k in r["mine"] if r["mine"][k][1] or k in r["failed"]])
    undecided = r["undecided"]
    violations = []
    lines = []
    for k in r["known"].values():
        lines.append("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    battery = None
    if r["viol"]:
        confirmed, text = native.replay(prop, r["viol"], r, seed)
        path = os.path.join(HERE, "evidence", "replay", prop + ".txt")
        with open(path, "w") as f:
            f.write("property %s: %d obligations failed\n\n" % (prop, len(r["viol"])))
            f.write(text + "\n\n")
            for (task, seg, ob), fs in r["viol"][:60]:
                x = fs[0]
                f.write("obligation  %s\n  in        %s   (constructor variant %s, harness wrapper %s_%s_*)\n  detail    %s\n"
                        "  history   %s\n  choices   %s\n  stack     %s\n  occurrences %d\n\n" % (
                            ob, seg, task[3], task[1], task[2], x["detail"], " ; ".join(" ".join(map(str, h)) for h in x["history"]),
                            x["choices"], "\n            ".join(x["stack"]), len(fs)))
        violations.append(path)
        lines.append("VIOLATION property=%s replay=%s%s" % (prop, path, "" if confirmed else " no-failing-input-found"))
    elif any(compile_prop(t) == prop for _, t in r["bad"]) and not_instantiable(prop, r):
        path = os.path.join(HERE, "evidence", "replay", prop + ".txt")
        b, t, cmd, log, cmd2, log2 = not_instantiable(prop, r)
        with open(path, "w") as f:
            f.write("coroutine<%s> can no longer be instantiated (%s)\n\n%s\n\n%s\n\n%s\n\n%s\n" % (
                t, b, " ".join(cmd), log[:6000], " ".join(cmd2), log2[:6000]))
        violations.append(path)
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
    elif undecided:
        # the verifier could not decide: a bounded native run stands in (never counted as proved)
        battery = native.battery(prop, r, seed)
        if battery is not None and battery["failed"]:
            path = os.path.join(HERE, "evidence", "replay", prop + ".txt")
            with open(path, "w") as f:
                f.write(battery["text"])
            violations.append(path)
            lines.append("VIOLATION property=%s replay=%s" % (prop, path))
    byseg = {}
    for (task, seg, ob), (p, n) in r["mine"].items():
        byseg.setdefault(ob, [0, 0])
        byseg[ob][0] += 1
        byseg[ob][1] += p + n
    fc, fcno = contract_summary(r["outs"])
    ev["coverage"] = {
        "obligations": total,
        "discharged": total - nfail,
        "checker_cmd": "python3 /verif/check.py %s --tier %s" % (prop, tier),
        "trusted_base": TRUSTED,
        "obligations_by_name": {k: {"named": v[0], "instances_checked": v[1]} for k, v in sorted(byseg.items())},
        "functions_verified": by_pattern(r["funcs"]),
        "function_contracts_established": fc,
        "function_contracts_not_established_body_executed_instead": fcno,
        "trusted_external_contracts": r["ext"],
        "instantiations": sorted({"%s<%s> %s" % (t[2], t[1], t[0]) for t in r["tasks"]}),
        "preprocessed_text_identical_for_gcc_and_clang": r["same_text"],
        "constructor_variants": sorted({t[3] for t in r["tasks"]}),
        "invariant_states": r["tot"]["states"],
        "segments_verified": r["tot"]["trans"],
        "back_end": {"symbolic evaluation over ghost state": "all control, lifetime and resource obligations",
                     "z3 bit-vector queries": r["tot"]["solver_calls"], "z3_time_s": round(r["tot"]["solver_time"], 2)},
        "cpu_s": round(r["tot"]["time"], 1),
        "undecided": undecided[:20],
        "known_findings": sorted(r["known"]),
    }
    if battery is not None:
        ev["coverage"]["bounded_stand_in"] = {k: v for k, v in battery.items() if k != "text"}
    ev["assumptions"] = TRUSTED
    ev["wall_s"] = round(time.time() - t0, 2)
    ev["violations"] = len(violations)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for l in lines:
        print(l)
    for u in undecided[:5]:
        print("undecided: " + u)
    print("%s %s: %d obligations, %d discharged, %d states, %.1fs" % (prop, tier, total, total - nfail, r["tot"]["states"], ev["wall_s"]))
    return 1 if violations else 0

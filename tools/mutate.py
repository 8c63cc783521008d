#!/usr/bin/env python3
"""Systematic mutants of the headers; which ones violate no property?
tools/mutate.py OUT.jsonl [FILE-SUBSTRING] [--full] [--every N]
Each mutant is a one-place edit of a scratch copy of the headers; allprops.py decides."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ["create_control_block.ipp", "pull_control_block_cc.ipp", "push_control_block_cc.ipp", "pull_coroutine.hpp", "push_coroutine.hpp",
         "pull_coroutine.ipp", "push_coroutine.ipp", "wrap.hpp", "state.hpp", "pull_control_block_cc.hpp", "push_control_block_cc.hpp"]

SUB = [
    (r"==", "!="), (r"!=", "=="), (r"&&(?! *\w*[,)=])", "||"), (r"\|\|", "&&"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"state_t::complete", "state_t::unwind"), (r"state_t::unwind", "state_t::none"), (r"state_t::destroy", "state_t::complete"),
    (r"state_t::none\b", "state_t::complete"), (r"\|=", "="), (r"! (?=\w)", ""), (r"if \( (?=\w)", "if ( ! "),
    (r"std::move\( ([\w.>-]+)\)", r"\1"), (r"std::forward< \w+ >\( (\w+)\)", r"\1"), (r"std::forward< \w+ >\( (\w+)\)", r"std::move( \1)"),
    (r"auto fn = std::move\( fn_\)", "auto & fn = fn_"), (r"auto sctx", "auto & sctx"), (r" - ", " + "), (r" \+ ", " - "), (r"\b64\b", "16"), (r"\b64\b", "1"), (r"\b64\b", "128"),
    (r" - sizeof\( ControlBlock\)", ""), (r"alignof\( ControlBlock\)", "sizeof( ControlBlock)"), (r"1 << (\d)", r"1 << 1"),
    (r"std::addressof\( (\w+)\)", r"& \1"), (r"T & >\(", "T >("), (r" noexcept", ""), (r"catch \( \.\.\.\)", "catch ( std::exception const&)"),
    (r"&(?=\w* *\w*\) noexcept)", ""), (r"other\.c_", "c_"), (r"= default", "= delete"), (r"nullptr\b", "this"), (r"cb_\{ nullptr \}", "cb_{ other.cb_ }"),
    (r"return \* this;", "throw 1;"), (r"throw;", "except = std::current_exception();"), (r"throw;", "state |= state_t::complete; throw;"),
    (r"\bthis\b(?=, c\b)", "this"), (r"T const& ", "T & "), (r"T const& ", "T "), (r"T && ", "T "), (r"StackAllocator && ", "StackAllocator & "),
    (r"typename std::decay< Fn >::type fn_\(.*$", "Fn & fn_ = fn;"), (r"typename std::decay< (\w+) >::type ( *\w)", r"\1 \2"),
    (r"alignas *\( *\w+ *\)", ""), (r"> *storage", "> & storage"), (r"sizeof\( *T *\)", "sizeof( void *)"), (r"alignof\( *T *\)", "1"),
]


def mutants(text):
    lines = text.split("\n")
    out = []
    for i, l in enumerate(lines):
        s = l.strip()
        if not s or s.startswith(("//", "#", "namespace", "template", "friend", "typedef", "class", "struct", "typename =")):
            continue
        for a, b in SUB:
            for m in re.finditer(a, l):
                r = l[:m.start()] + m.expand(b) + l[m.end():]
                if r != l:
                    out.append((i, l, r, lines[:i] + [r] + lines[i + 1:]))
        if s.endswith(";") and l.startswith("    ") and s not in ("};",):
            out.append((i, l, "", lines[:i] + [""] + lines[i + 1:]))
            j = i + 1
            while j < len(lines) and lines[j].strip().startswith("//"):
                j += 1
            if j < len(lines) and lines[j].strip().endswith(";"):
                out.append((i, l, "swapped with " + lines[j].strip(), lines[:i] + [lines[j]] + lines[i + 1:j] + [l] + lines[j + 1:]))
        if re.match(r"if \( .*\) *\{$", s):
            for c in ("true", "false"):
                out.append((i, l, "if ( %s) {" % c, lines[:i] + ["if ( %s) {" % c] + lines[i + 1:]))
        if s.startswith("other{ cb }"):
            pass
    return out


def run(tree, small):
    r = subprocess.run([sys.executable, "-B", os.path.join(HERE, "tools", "allprops.py")] + (["--tiny", "--first"] if small else ["--first"]),
                       env=dict(os.environ, VERIF_REPO=tree), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    t = r.stdout
    m = re.search(r"violated (\[.*\])", t)
    return {"violated": m.group(1) if m else "ERROR", "nocompile": "does not compile" in t,
            "err": next((x for x in t.splitlines() if "does not compile" in x), "")[:300],
            "undecided": [x for x in t.splitlines() if x.startswith("UNDECIDED")][:2], "tail": "" if m else t[-800:]}


def main():
    out = sys.argv[1]
    pat = [a for a in sys.argv[2:] if not a.startswith("--") and not a.isdigit()]
    small = "--full" not in sys.argv
    step = int(sys.argv[sys.argv.index("--every") + 1]) if "--every" in sys.argv else 1
    done = set()
    if os.path.exists(out):
        done = {json.loads(x)["id"] for x in open(out)}
    d = tempfile.mkdtemp(prefix="mut.")
    shutil.copytree("/repo/include", os.path.join(d, "include"))
    todo = []
    for f in FILES:
        if pat and not any(p in f for p in pat):
            continue
        p = os.path.join(d, "include/boost/coroutine2/detail", f)
        t = open(p).read()
        seen = set()
        for k, (i, l, r, ls) in enumerate(mutants(t)):
            new = "\n".join(ls)
            if new in seen or new == t:
                continue
            seen.add(new)
            todo.append(("%s:%d:%d" % (f, i + 1, k), p, t, new, l, r))
    todo = todo[::step]
    print(len(todo), "mutants", flush=True)
    for mid, p, t, new, l, r in todo:
        if mid in done:
            continue
        open(p, "w").write(new)
        # a mutant that does not compile with g++ is no mutant
        for std in ("c++17", "c++11"):
            c = subprocess.run(["g++", "-std=" + std, "-fsyntax-only", "-w", "-I" + os.path.join(d, "include"), os.path.join(HERE, "tools", "mutcheck.cpp")],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if c.returncode:
                break
        rec = {"id": mid, "old": l.strip(), "new": r.strip()}
        if c.returncode:
            rec["result"] = "nocompile"
        else:
            rec.update(run(d, small))
        open(p, "w").write(t)
        with open(out, "a") as f:
            f.write(json.dumps(rec) + "\n")
        print(mid, rec.get("result") or rec["violated"], "|", rec["old"], "->", rec["new"], flush=True)
    shutil.rmtree(d)


main()

"""Contracts of the public operations and the inductive closure over them.

A library segment is the execution of library code between two points where
user code has control.  The contract of a public operation says, for the
abstract state in which it is invoked, which user code gets control next
(returning normally, throwing which exception, or entering the
coroutine-function), with which result and which ghost resources.  The set of
symbolic states at control points is computed as the least set closed under
every operation in every order (an inductive invariant); every obligation is
checked in every one of them."""
import time

import z3

from .env import ALIGN, Env, FN_CLASSES, FN_TRIVIAL, Ghost, Obj, SIZES, TRIVIAL_DTOR, VALUE_CLASSES
from .machine import (Client, Ctx, EngineError, Machine, OFFM, PathEnd, SHIFT, State, UNDEF, fresh, is_sym)

# element types: name -> (category, class or scalar layout)
TYPES = {
    "i32": ("tri", [(0, 4)]), "tri": ("tri", [(0, 4), (8, 8), (16, 1)]), "wid": ("tri", [(8 * i, 8) for i in range(20)]),
    "emp": ("tri", []), "ptr": ("tri", [(0, 8)]), "boo": ("tri", [(0, 1)]), "dbl": ("tri", [(0, 8)]), "enu": ("tri", [(0, 1)]),
    "val": ("cls", "Val"), "big": ("cls", "Big"), "mov": ("cls", "Mov"), "cpy": ("cls", "Cpy"), "ali": ("cls", "Ali"),
    "lon": ("tri", [(0, 8)]), "chr": ("tri", [(0, 1)]), "hug": ("tri", [(8 * i, 8) for i in (0, 1, 31, 32, 100, 255, 511, 639)]),
    "al1": ("tri", [(0, 8), (8, 8)]), "al6": ("tri", [(8 * i, 8) for i in range(8)]), "tdt": ("cls", "Tdt"), "ncp": ("cls", "Ncp"), "kref": ("ref", None), "dref": ("ref", None), "tref": ("ref", None),
    "p12": ("tri", [(0, 4), (4, 4), (8, 4)]), "odd": ("tri", [(i, 1) for i in (0, 1, 31, 32, 62, 63, 64, 65, 66)]),
    "iref": ("ref", None), "vref": ("ref", "Val"), "cref": ("ref", "Val"), "void": ("void", None),
}
TSIZE = {"i32": 4, "tri": 24, "wid": 160, "emp": 1, "ptr": 8, "boo": 1, "dbl": 8, "enu": 1, "lon": 8, "chr": 1, "hug": 5120, "al1": 16, "al6": 64, "p12": 12, "odd": 67}
TALIGN = {"hug": 8, "al1": 16, "al6": 64}


class Results:
    """Named obligations of one run."""

    def __init__(self):
        self.ob = {}         # (segment, obligation) -> [passed, failed]
        self.fails = []      # dicts
        self.seg = ""
        self.hist = None
        self.maxfails = 400
        self.mine = None     # decides whether a failure belongs to the property checked
        self.nmine = 0
        self.first = None    # time of the first failure

    def passed(self, st, name):
        k = (self.seg, name)
        r = self.ob.get(k)
        if r is None:
            self.ob[k] = [1, 0]
        else:
            r[0] += 1

    def failed(self, st, name, detail):
        k = (self.seg, name)
        r = self.ob.setdefault(k, [0, 0])
        r[1] += 1
        if self.mine is not None and self.mine(self.seg, name, detail):
            self.nmine += 1
            if self.first is None:
                self.first = time.time()
        if len(self.fails) < self.maxfails:
            sp = st.g.spec if st is not None and st.g is not None else None
            where = []
            if st is not None and st.cur is not None and st.cur in st.ctxs:
                for f in st.ctxs[st.cur].frames[-6:]:
                    if f.fn is not None:
                        where.append(st.m.dem.get(f.fn.name, f.fn.name)[:160])
                    else:
                        where.append("<user code>")
            self.fails.append({"segment": self.seg, "obligation": name, "detail": detail,
                               "history": list(sp.hist) if sp is not None else [],
                               "choices": list(st.choices) if st is not None else [], "stack": where})


class Spec:
    __slots__ = ("kind", "tn", "phase", "mop", "cop", "started", "cur", "moved", "H", "h", "hist", "fval", "fobj", "aobj",
                 "xid", "keep_m", "keep_c", "temps_m", "temps_c", "it_m", "it_c", "unw", "new", "refs", "fnclient", "fpend", "H0")

    def __init__(self, kind, tn):
        self.kind, self.tn = kind, tn
        self.phase = "init"
        self.mop = self.cop = None
        self.started = False
        self.cur = None       # value the reader must observe next
        self.moved = False    # the reader moved it out
        self.H = self.h = None
        self.hist = []
        self.fval = self.fobj = self.aobj = None
        self.xid = None
        self.temps_m, self.temps_c = [], []
        self.keep_m = self.keep_c = None   # a variable that is pushed again and again
        self.it_m = self.it_c = None
        self.unw = False
        self.new = None
        self.refs = []
        self.fnclient = None
        self.fpend = None
        self.H0 = None        # where the owning handle was when the running operation was called on it

    def clone(self):
        s = Spec.__new__(Spec)
        for k in Spec.__slots__:
            v = getattr(self, k)
            setattr(s, k, list(v) if isinstance(v, list) else v)
        return s


class Violation(Exception):
    pass


class Driver:
    def __init__(self, mod, tn, kind, results, label, opts=None):
        self.mod, self.tn, self.kind = mod, tn, kind
        self.cat, self.lay = TYPES[tn]
        self.opts = opts or {}
        self.env = Env(self.opts)
        self.m = Machine(mod, self.env)
        self.m.results = results
        self.res = results
        self.label = label
        self.other = "push" if kind == "pull" else "pull"
        self.base = State(self.m)
        self.base.g = Ghost()
        self.base.ctxs["M"] = Ctx("M")
        self.base.ctxs["M"].frames.append(Client("main"))
        self.base.cur = "M"
        self.m.init_state(self.base, tn + "_")
        self.nstates = 0
        self.ntrans = 0
        self.live_cache = {}
        self.deadline = None
        self.truncated = False

    # naming -------------------------------------------------------------------
    def has(self, side, op):
        return "%s_%s_%s" % (self.tn, side, op) in self.mod.funcs

    def seg(self, name):
        self.res.seg = "%s %s/%s %s" % (self.label, self.tn, self.kind, name)

    def ok(self, st, name, cond, detail=""):
        if cond:
            self.res.passed(st, name)
        else:
            self.res.failed(st, name, detail() if callable(detail) else detail)
        return cond

    # user-owned memory ------------------------------------------------------------
    def slot(self, st, size, name):
        return st.new_region("user", size, name, None)

    def drop(self, st, a):
        """User code ends the lifetime of one of its own variables."""
        if a is None:
            return
        rid = a >> SHIFT
        for x in [x for x in st.g.objs if x >> SHIFT == rid]:
            del st.g.objs[x]
        st.kill_region(rid)

    def fresh_val(self, st, name):
        n = st.g.nuid
        st.g.nuid += 1
        return "%s%d" % (name, n)

    def new_value(self, st, name):
        """A user variable of the element type with an arbitrary value."""
        if self.cat == "cls" or (self.cat == "ref" and self.lay):
            cls = self.lay
            a = self.slot(st, SIZES[cls], name)
            st.regions[a >> SHIFT].align = ALIGN.get(cls, 8)
            st.g.objs[a] = Obj(cls, self.fresh_val(st, "v"), False, 0)
            return a
        if self.cat == "ref":
            a = self.slot(st, 4, name)
            st.regions[a >> SHIFT].align = 4
            st.mem[a] = (4, fresh(32, "v"))
            return a
        a = self.slot(st, TSIZE[self.tn], name)
        st.regions[a >> SHIFT].align = TALIGN.get(self.tn, max([n for o, n in self.lay], default=1))
        for o, n in self.lay:
            v = z3.ZeroExt(7, fresh(1, "v")) if self.tn == "boo" else fresh(8 * n, "v")
            st.mem[a + o] = (n, v)
        return a

    def read_value(self, st, a):
        """Descriptor of the element at address a."""
        a = st.at(a)
        if self.cat == "cls":
            o = st.g.objs.get(a)
            if o is None:
                return None
            return ("moved-from", o.val) if o.moved else o.val
        if self.cat == "ref":
            return a
        return tuple(st.load_raw(a + o, n) for o, n in self.lay)

    def same(self, st, x, y):
        if self.cat in ("cls", "ref"):
            return x == y
        if x is None or y is None or len(x) != len(y):
            return False
        for p, q in zip(x, y):
            if p is UNDEF or q is UNDEF:
                return False
            if isinstance(p, int) and isinstance(q, int):
                if p != q:
                    return False
                continue
            e = self.m.simp(p == q) if is_sym(p) or is_sym(q) else 1
            if isinstance(e, int):
                if not e:
                    return False
                continue
            if self.m.sat(self.m.path(st) + [z3.Not(e)]):
                return False
        return True

    # calling -----------------------------------------------------------------------
    def start(self, st, role_side, op, args):
        st.stop = None
        st.g.switches = 0
        st.g.log = []
        st.written = set()
        st.steps = 0
        st.pc = list(st.g.sinv)
        st.choices = []
        name = "%s_%s_%s" % (self.tn, role_side, op)
        self.m.push_call(st, name, args, None)

    @staticmethod
    def fp_of(cid):
        """The floating-point environment of the code that has control: whatever
        it likes (an identity that is its own)."""
        return 1 if cid == "M" else 1 + cid

    def run(self, st):
        st.g.fp = self.fp_of(st.cur)
        outs = self.m.run(st)
        for o in outs:
            if o.stop[0] != "fn":
                self.ok(o, "regs.fp-environment", o.g.fp == self.fp_of(o.cur),
                        "the floating-point environment is not the one that was in effect before the operation")
            # every access was to live memory, no path ended in terminate/abort
            self.res.passed(o, "mem.valid")
        return outs

    def pure(self, st, side, op, args):
        """Runs an operation that must not transfer control, on st itself;
        returns the (single) resulting value or raises Violation."""
        self.start(st, side, op, args)
        outs = self.run(st)
        return outs

    # canonical form ------------------------------------------------------------------
    def liveness(self, fn):
        r = self.live_cache.get(fn.name)
        if r is not None:
            return r
        fn.parse()
        use, dfn, succ = {}, {}, {}

        def ops(o, acc):
            if isinstance(o, tuple):
                if len(o) == 2 and o[0] == "l":
                    acc.add(o[1])
                    return
                for x in o:
                    ops(x, acc)
            elif isinstance(o, list):
                for x in o:
                    ops(x, acc)
            elif isinstance(o, dict):
                for x in o.values():
                    ops(x, acc)
        per = {}
        for b, insts in fn.blocks.items():
            lst = []
            sc = set()
            for ins in insts:
                u = set()
                ops(ins[1:], u)
                d = ins[1] if ins[0] in ("alloca", "load", "gep", "call", "bin", "icmp", "cast", "phi", "select", "extractvalue",
                                         "insertvalue", "landingpad", "freeze", "rmw") else None
                u.discard(None)
                lst.append((u, d))
                if ins[0] == "br":
                    sc.add(ins[1])
                elif ins[0] == "brc":
                    sc |= {ins[2], ins[3]}
                elif ins[0] == "switch":
                    sc.add(ins[3])
                    sc |= {x for _, x in ins[4]}
                elif ins[0] == "call" and ins[6] is not None:
                    sc |= {ins[6], ins[7]}
            per[b] = lst
            succ[b] = sc
        livein = {b: set() for b in fn.blocks}
        ch = True
        while ch:
            ch = False
            for b in fn.blocks:
                l = set()
                for s in succ[b]:
                    l |= livein.get(s, set())
                for u, d in reversed(per[b]):
                    if d is not None:
                        l.discard(d)
                    l |= u
                if l != livein[b]:
                    livein[b] = l
                    ch = True
        r = (per, succ, livein)
        self.live_cache[fn.name] = r
        return r

    def live_regs(self, fr):
        per, succ, livein = self.liveness(fr.fn)
        l = set()
        for s in succ[fr.blk]:
            l |= livein[s]
        lst = per[fr.blk]
        for u, d in reversed(lst[fr.ix:]):
            if d is not None:
                l.discard(d)
            l |= u
        # the result of the pending call is defined on resumption
        if fr.ix > 0:
            d = lst[fr.ix - 1][1]
            l.discard(d)
        return l

    def canon(self, st, order=None, shape=False):
        reg = {}
        order = [] if order is None else order
        syms = {}
        vals = {}
        out = []
        regions = st.regions

        def val(v):
            if v is UNDEF or v is None:
                return "u"
            if isinstance(v, int):
                if v < (1 << SHIFT):
                    return v
                rid = v >> SHIFT
                if rid >= 0x700000:
                    return v
                r = regions.get(rid)
                if r is None or not r.alive:
                    return "dead" if rid < st.nrid else v
                k = reg.get(rid)
                if k is None:
                    k = reg[rid] = len(reg)
                    order.append(rid)
                return ("p", k, v & OFFM)
            if isinstance(v, tuple):
                return tuple(val(x) for x in v)
            # symbolic
            if st.g.ssym and self.env.stack_of(st, v) is not None:
                a = self.env.anchor(st, v) if z3.is_bv(v) and v.size() == 64 else None
                return val(a) if a is not None else v.sexpr()
            s = v.sexpr()
            vs = []
            todo = [v]
            seen = set()
            while todo:
                e = todo.pop()
                if e.get_id() in seen:
                    continue
                seen.add(e.get_id())
                if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    vs.append(e.decl().name())
                todo.extend(e.children())
            for n in sorted(vs):
                if n.startswith("fnw"):
                    continue     # the given callable's bytes
                if n not in syms:
                    syms[n] = "x%d" % len(syms)
            for n in sorted((n for n in vs if n in syms), key=len, reverse=True):
                s = s.replace(n, syms[n])
            return s

        def oval(v):
            if isinstance(v, tuple):
                return tuple(oval(x) for x in v)
            if v is None or v in ("fp",):
                return v
            if v not in vals:
                vals[v] = "o%d" % len(vals)
            return vals[v]

        sp = st.g.spec
        out.append((sp.kind, sp.tn, sp.phase, sp.started, sp.moved, sp.unw, sp.new,
                    None if sp.mop is None else (sp.mop[0],), None if sp.cop is None else (sp.cop[0],),
                    val(sp.H), val(sp.H0), val(sp.h), val(sp.it_m), val(sp.it_c), val(sp.keep_m), val(sp.keep_c), val(sp.fobj), val(sp.aobj),
                    None if sp.xid is None else val(st.g.exns[sp.xid].addr) if sp.xid in st.g.exns else "gone"))
        if sp.cur is None:
            out.append(None)
        elif self.cat == "cls":
            out.append(oval(sp.cur))
        elif self.cat == "ref":
            out.append(val(sp.cur))
        else:
            out.append(tuple(val(x) for x in sp.cur) if sp.cur != "void" else "void")
        out.append((oval(sp.fval) if sp.fval else None, tuple(val(x) for x in sp.temps_m), tuple(val(x) for x in sp.temps_c),
                    tuple(val(x) for x in sp.refs)))
        cids = sorted(st.ctxs, key=str)
        cix = {c: i for i, c in enumerate(cids)}
        out.append(("cur", cix[st.cur]))
        for c in cids:
            x = st.ctxs[c]
            out.append(("ctx", len(x.frames), tuple(x.caught)))
            for f in x.frames:
                if f.fn is None:
                    out.append(("client", f.role))
                    continue
                lr = self.live_regs(f)
                blks = f.fn.blocks
                out.append((f.fn.name, list(blks).index(f.blk), f.ix,
                            tuple((i, val(f.regs[r])) for i, r in enumerate(sorted(lr)) if r in f.regs),
                            tuple(val(a << SHIFT) for a in f.allocas)))
        i = 0
        bykey = {}
        for a, c in st.mem.items():
            bykey.setdefault(a >> SHIFT, []).append((a & OFFM, c))
        objs = {}
        for a, o in st.g.objs.items():
            objs.setdefault(a >> SHIFT, []).append((a & OFFM, o))
        for rid, _, _ in self.m.mutable_globals:
            out.append(("global", rid, tuple((o, c[0], val(c[1])) for o, c in sorted(bykey.get(rid, []), key=lambda t: t[0]))))
        while i < len(order):
            rid = order[i]
            r = regions[rid]
            if shape and r.kind in ("stack", "local", "heap", "anchor"):
                cells = tuple((o, c[0], "#" if isinstance(c[1], int) and c[1] < (1 << SHIFT) and (c[0] > 1 or c[1] > 3) else val(c[1]))
                              for o, c in sorted(bykey.get(rid, []), key=lambda t: t[0]))
            else:
                cells = tuple((o, c[0], val(c[1])) for o, c in sorted(bykey.get(rid, []), key=lambda t: t[0]))
            os = tuple((o, x.cls, oval(x.val), x.moved) for o, x in sorted(objs.get(rid, []), key=lambda t: t[0]))
            extra = None
            if r.kind == "token":
                extra = cix.get(st.g.tokens.get(rid << SHIFT))
            elif r.kind == "exn":
                x = st.g.byaddr.get(rid << SHIFT)
                e = st.g.exns[x] if x else None
                extra = (e.kind, e.eptr, e.handlers, e.infl, tuple(sorted(e.types.items()))) if e else None
            elif r.kind == "stack":
                k = st.g.stacks[rid]
                extra = (oval(k.alloc), k.frees)
            out.append((i, r.kind, r.size, cells, os, extra))
            i += 1
        # ghost resources that nothing points to any more still count
        out.append(("unreached-objs", tuple(sorted((x.cls, x.moved) for a, x in st.g.objs.items() if (a >> SHIFT) not in reg))))
        out.append(("exns", tuple(sorted((e.kind, e.eptr, e.handlers, e.infl) for e in st.g.exns.values() if e.alive))))
        out.append(("stacks", sum(1 for s in st.g.stacks.values() if s.frees == 0)))
        if st.g.ssym:
            out.append(tuple(sorted(c.sexpr() for c in st.g.sinv)))
        return tuple(out)

    @staticmethod
    def arith(v):
        """Not just a (part of a) transferred value: the library computed it."""
        k = v.decl().kind()
        if k in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_BNUM, z3.Z3_OP_TRUE, z3.Z3_OP_FALSE):
            return False
        if k in (z3.Z3_OP_CONCAT, z3.Z3_OP_EXTRACT, z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT, z3.Z3_OP_ITE, z3.Z3_OP_EQ, z3.Z3_OP_NOT):
            return any(Driver.arith(c) for c in v.children())
        return True

    def gc(self, st):
        """Forget what no longer matters at a control point."""
        if st.g.ssym:
            have = {c.get_id() for c in st.g.sinv}
            st.g.sinv += [c for c in st.pc if c.get_id() not in have and self.env.stack_of(st, c) is not None]
        st.pc = []
        st.regions = {k: r for k, r in st.regions.items() if r.alive}
        for a, (c, v) in list(st.mem.items()):
            if is_sym(v) and self.arith(v) and not (st.g.ssym and self.env.stack_of(st, v) is not None):
                st.mem[a] = (c, fresh(8 * c, "w"))
        live = {k: e for k, e in st.g.exns.items() if e.alive}
        if len(live) != len(st.g.exns):
            sp = st.g.spec
            st.g.exns = live
            st.g.byaddr = {e.addr: k for k, e in live.items()}
        st.g.stacks = {k: s for k, s in st.g.stacks.items() if s.frees == 0}
        for rid, ty, n in self.m.mutable_globals:
            # anything else in the program may have used the library meanwhile
            if n.startswith("_ZGV"):
                continue
            for a in [a for a in st.mem if a >> SHIFT == rid]:
                c, v = st.mem[a]
                if isinstance(v, int) and v < (1 << SHIFT) or is_sym(v):
                    st.mem[a] = (c, fresh(8 * c, "g"))

    # ------------------------------------------------------------------ exploration
    NEW = {"lv": ("Fn", True), "rv": ("Fn", True), "cl": ("Fn", True), "def": ("Fn", False), "defrv": ("Fn", False), "pr": ("Fn", False), "prs": ("Fn", False),
           "mo": ("FnM", True), "co": ("FnC", True), "fp": (None, True), "fr": (None, True),
           "bl": ("FnL", True), "br": ("FnL", True), "al": ("FnA", True), "tl": ("FnT", True), "tr": ("FnT", True), "em": ("FnE", True)}
    LVALUE = ("lv", "cl", "def", "pr", "prs", "co", "bl", "al", "tl", "em")

    def explore(self, variant, full=True, limit=4000):
        """Closure of the control points reachable with constructor `variant`."""
        sym = variant.startswith("sym-")
        if sym:
            variant = variant[4:]
            sz = TSIZE.get(self.tn, SIZES.get(self.lay, 8) if self.cat == "cls" else 8)
            self.env.opts["symstack"] = 1024 + 2 * sz + (2 * ALIGN.get(self.lay, 8) if self.cat == "cls" else 2 * TALIGN.get(self.tn, 8))
        self.variant = variant
        self.env.opts["protected"] = variant in ("pr", "prs")
        self.full = full
        self.seen = {}
        self.groups = {}
        self.work = []
        st = self.base.clone()
        sp = Spec(self.kind, self.tn)
        st.g.spec = sp
        st.g.nuid = 1
        cls, alo = self.NEW[variant]
        hsz = 8
        self.seg("sizeof")
        s = st.clone()
        self.start(s, self.kind, "sizeof", [])
        for o in self.run(s):
            hsz = o.stop[1]
        self.hsize = hsz
        sp.H = self.slot(st, hsz, "handle")
        if alo:
            sp.aobj = self.slot(st, 8, "allocator")
            st.g.objs[sp.aobj] = Obj("Alo", "alloc", False, 0)
        if cls:
            sp.fobj = self.slot(st, SIZES.get(cls) or FN_TRIVIAL[cls], "function")
            if cls in FN_TRIVIAL:
                st.regions[sp.fobj >> SHIFT].align = min(FN_TRIVIAL[cls], 8)
                for o in range(0, FN_TRIVIAL[cls] & ~7, 8):
                    st.mem[sp.fobj + o] = (8, z3.BitVec("fnw%d" % o, 64))
            else:
                st.regions[sp.fobj >> SHIFT].align = ALIGN.get(cls, 8)
                st.g.objs[sp.fobj] = Obj(cls, "fn", False, 0)
            sp.fval = "fn"
        else:
            sp.fval = "fp"
        sp.new = variant
        args = [sp.H] + ([sp.aobj] if alo else []) + ([sp.fobj] if cls else [])
        if variant == "prs":
            # every size that suffices
            n = z3.BitVec("stack.n", 64)
            st.g.sinv = [z3.UGE(n, self.env.opts["symstack"]), z3.ULE(n, 1 << 40)]
            args.append(n)
        self.do(st, "new", args, "new_" + variant, self.kind)
        while self.work:
            s = self.work.pop()
            self.nstates += 1
            if self.nstates > limit:
                raise EngineError("invariant computation does not converge")
            if self.res.nmine > 40 and time.time() > self.res.first + 10 or self.res.nmine and time.time() > self.res.first + 60:
                self.truncated = True
                break
            if self.deadline is not None and time.time() > self.deadline:
                raise EngineError("time budget exhausted")
            self.visit(s)

    def push(self, st):
        self.gc(st)
        k = self.canon(st)
        if k in self.seen:
            return
        self.widen(st)
        k = self.canon(st)
        if k in self.seen:
            return
        self.seen[k] = True
        self.work.append(st)

    WIDEN = 24

    def widen(self, st):
        """Integer cells of library memory that keep taking new values in
        otherwise identical states are generalised to arbitrary values."""
        if len(self.seen) < 3 * self.WIDEN:
            return
        order = []
        shape = self.canon(st, order, True)
        g = self.groups.setdefault(shape, [0, {}])
        g[0] += 1
        if g[0] < 6:
            for i, rid in enumerate(order):
                if st.regions[rid].kind not in ("stack", "local", "heap", "anchor"):
                    continue
                for o in self.offsets(st, rid):
                    v = st.mem[(rid << SHIFT) + o][1]
                    if isinstance(v, int) and v < (1 << SHIFT):
                        g[1].setdefault((i, o), set()).add(v)
            return
        for (i, o), vs in g[1].items():
            if len(vs) >= 5 and i < len(order):
                a = (order[i] << SHIFT) + o
                c = st.mem.get(a)
                if c is not None and isinstance(c[1], int) and c[1] < (1 << SHIFT):
                    st.mem[a] = (c[0], fresh(8 * c[0], "w"))

    @staticmethod
    def offsets(st, rid):
        return [a & OFFM for a in st.mem if a >> SHIFT == rid]

    def do(self, st, act, args, op, side):
        """Invoke a public operation (from user code at st's control point)."""
        sp = st.g.spec
        self.seg("%s @%s" % (op, self.phase_name(sp)))
        st.stop = None
        before = {rid for rid, r in st.regions.items() if r.alive}
        self.start(st, side, op, args)
        sp.hist.append((st.cur == "M" and "M" or "C", act if act != "new" else op))
        outs = self.run(st)
        self.settle(outs, act, before)

    def settle(self, outs, act, before):
        self.ntrans += len(outs)
        segname = self.res.seg
        for o in outs:
            self.res.seg = segname
            osp = o.g.spec
            if o.choices:
                osp.hist[-1] = osp.hist[-1] + tuple(o.choices)
            try:
                self.frame_check(o, before)
                self.post(o, act)
            except Violation:
                pass
            except PathEnd:
                pass

    def frame_check(self, st, before):
        sp = st.g.spec
        bad = []
        for rid in st.written:
            if rid not in before:
                continue
            r = st.regions.get(rid)
            if r is None:
                continue
            if r.kind in ("local", "stack", "exn", "anchor"):
                continue
            if r.kind == "user" and (rid << SHIFT) in (sp.H, sp.H0, sp.h, sp.it_m, sp.it_c):
                continue
            if r.kind == "user" and r.name in ("out", "it", "handle", "mvarg"):
                continue
            if r.kind == "global" and r.name.startswith("_ZGV"):
                continue
            bad.append("%s %s" % (r.kind, r.name))
        self.ok(st, "frame.own-state-only", not bad, "the operation writes %s" % ", ".join(sorted(set(bad))))

    def phase_name(self, sp):
        if sp.phase == "susp":
            return "susp" + ("-unstarted" if sp.cop == ("start",) else "")
        if sp.phase == "run":
            return "run" + ("-unwinding" if sp.unw else "-owner-moved" if sp.H0 is not None else "")
        return sp.phase

    def want(self, st, cond, name, detail=""):
        """A control obligation: a failure ends the path."""
        if not self.ok(st, name, cond, detail):
            raise Violation

    def role(self, st):
        """Which user code has control."""
        if st.stop[0] == "fn":
            return "enter"
        return "M" if st.cur == "M" else "C"

    def show(self, st):
        r = self.role(st)
        k = st.stop[0]
        who = {"M": "main code", "C": "the coroutine-function", "enter": "the coroutine-function (entered)"}[r]
        if k == "throw":
            return "%s by exception %s" % (who, self.env.exn_name(st, st.stop[1]))
        return "%s (%s)" % (who, {"ret": "normal return", "fn": "call"}[k])

    def last_throw(self, st):
        for e in reversed(st.g.log):
            if e[0] in ("copy-throws", "move-throws"):
                return e[2]
        return None

    def catch(self, st):
        """User code catches and discards the exception it received."""
        x = st.stop[1]
        e = st.g.exns[x]
        # an iterator whose increment or assignment threw is not used again
        self.drop_iter(st, "M" if st.cur == "M" else "C")
        self.ok(st, "exn.alive", e.alive, "the exception object delivered was already destroyed")
        e.infl -= 1
        self.env.maybe_free(st, x)

    def exn_ok(self, st, x):
        return st.stop[0] == "throw" and st.stop[1] == x

    # -------- the contract (abstract transition relation) -------------------------
    def post(self, st, act):
        sp = st.g.spec
        r = self.role(st)
        k = st.stop[0]
        self.ok(st, "exn.no-open-handler", all(not c.caught for c in st.ctxs.values()),
                "control reaches user code inside an exception handler of the library")
        env_x = self.last_throw(st)
        if act == "new":
            sp.phase = "ctor"
            sp.mop = ("new",)
            if r == "M" and k == "throw":
                x = st.stop[1]
                e = st.g.exns[x]
                if env_x is not None:
                    self.want(st, x == env_x, "ctl.next", "a constructor whose argument copy threw propagates another exception")
                else:
                    self.want(st, e.label in ("allocate()",) or e.kind == "lib", "ctl.next",
                              "the constructor throws %s without cause" % self.env.exn_name(st, x))
                self.ctor_failed(st, env_x)
                return
            if self.kind == "pull":
                self.want(st, r == "enter", "ctl.next", lambda: "construction of a pull-coroutine gives control to " + self.show(st))
                self.entered(st)
            else:
                self.want(st, r == "M" and k == "ret", "ctl.next",
                          lambda: "construction of a push-coroutine gives control to " + self.show(st))
                sp.phase = "susp"
                sp.cop = ("start",)
                sp.mop = None
                self.fn_source(st)
                self.push(st)
            return
        if act in ("call", "it"):
            if st.g.env.get("actor") == "M":
                return self.post_main_op(st, act, r, k, env_x)
            return self.post_cor_op(st, act, r, k, env_x)
        if act == "del":
            return self.post_del(st, r, k)
        if act in ("return", "throw", "propagate"):
            return self.post_exit(st, act, r, k)
        raise EngineError("act " + act)

    def entered(self, st):
        """The coroutine-function starts to run."""
        sp = st.g.spec
        ctx = st.ctx()
        cl = ctx.frames[-1]
        self.want(st, st.cur != "M", "ctl.next", "the coroutine-function is entered on the caller's stack")
        self.ok(st, "fn.once", not sp.started, "the coroutine-function is entered a second time")
        self.ok(st, "fn.value", cl.meta["fnval"] == sp.fval, "the invoked callable does not have the value that was passed")
        if cl.meta["cls"] is not None:
            self.ok(st, "fn.own-copy", cl.meta["fnobj"] != sp.fobj and not self.is_user(st, cl.meta["fnobj"]),
                    "the caller's callable itself is invoked instead of the coroutine's own copy")
        sp.started = True
        sp.h = cl.meta["handle"]
        sp.phase = "run"
        sp.fnclient = st.cur
        self.fn_source(st)
        self.push(st)

    def is_user(self, st, a):
        r = st.regions.get(a >> SHIFT) if isinstance(a, int) else None
        return r is not None and r.kind == "user"

    def fn_source(self, st):
        """Contract on the callable and allocator passed to the constructor."""
        sp = st.g.spec
        cls, alo = self.NEW[sp.new]
        lv = sp.new in self.LVALUE
        if cls in FN_TRIVIAL and sp.fobj is not None:
            for o in range(0, FN_TRIVIAL[cls] & ~7, 8) if lv else ():
                v = st.load_raw(sp.fobj + o, 8)
                self.ok(st, "fn.source-untouched", v is not UNDEF and self.m.proved(st, v == z3.BitVec("fnw%d" % o, 64)),
                        "the callable passed as lvalue was modified")
        elif cls and sp.fobj is not None:
            o = st.g.objs.get(sp.fobj)
            self.ok(st, "fn.source-alive", o is not None, "the callable passed to the constructor was destroyed")
            if o is not None and lv:
                self.ok(st, "fn.source-untouched", not o.moved and o.val == "fn", "the callable passed as lvalue was modified (moved from)")
            if lv is False and cls in ("Fn", "FnL"):
                self.ok(st, "fn.rvalue-moved", not any(e[0] == "copy" and e[1] == cls for e in st.g.log),
                        "the callable passed as rvalue was copied")
        if alo and sp.aobj is not None:
            o = st.g.objs.get(sp.aobj)
            self.ok(st, "alloc.source-alive", o is not None, "the allocator passed to the constructor was destroyed")
            if o is not None and sp.new != "rv":
                self.ok(st, "alloc.source-untouched", not o.moved, "the allocator passed as lvalue was moved from")

    def ctor_failed(self, st, x=None):
        sp = st.g.spec
        self.catch(st)
        self.terminal(st, "constructor threw")

    def args_done(self, st, who):
        """The operation returned: its argument variables end their lifetime."""
        sp = st.g.spec
        ts = sp.temps_m if who == "M" else sp.temps_c
        for a in ts:
            self.drop(st, a)
        ts.clear()

    def trim_refs(self, st):
        sp = st.g.spec
        for a in sp.refs[:-1]:
            self.drop(st, a)
        sp.refs = sp.refs[-1:]

    def unpush_ref(self, st):
        """The push of a reference failed: the referred object is given up."""
        sp = st.g.spec
        if self.cat == "ref" and len(sp.refs) > 1:
            self.drop(st, sp.refs.pop())

    def check_result(self, st, who, op):
        """*this is returned."""
        sp = st.g.spec
        v = st.stop[1]
        if op[1] == "call":
            h = (sp.H0 or sp.H) if who == "M" else sp.h
            self.ok(st, "ctl.returns-this", v == h, "the operation does not return *this")
        elif op[1] == "inc" or op[1] == "assign":
            i = sp.it_m if who == "M" else sp.it_c
            self.ok(st, "it.returns-this", v == i, "the iterator operation does not return the iterator")

    def check_source(self, st, op):
        """Value category: an lvalue argument is copied and untouched, an
        rvalue argument is moved, not copied."""
        info = op[2]
        if info is None:
            return
        form, addr, val = info
        if self.cat == "cls":
            o = st.g.objs.get(addr)
            self.ok(st, "cat.source-alive", o is not None and o.cls == self.lay, "the argument object was destroyed")
            if o is None:
                return
            if form in ("c", "l", "a"):
                self.ok(st, "cat.lvalue-untouched", not o.moved and o.val == val, "an lvalue argument was modified (moved from)")
            elif self.lay != "Cpy":
                self.ok(st, "cat.rvalue-moved", not any(e[0] == "copy" and e[2] == val for e in st.g.log),
                        "an rvalue argument was copied")
        elif self.cat == "tri":
            self.ok(st, "cat.lvalue-untouched", self.same(st, self.read_value(st, addr), val), "the argument was modified")

    def delivered(self, st, info):
        sp = st.g.spec
        if self.cat == "void":
            sp.cur = "void"
        else:
            sp.cur = info[2]
        sp.moved = False

    def post_main_op(self, st, act, r, k, env_x):
        sp = st.g.spec
        op = sp.mop
        if env_x is not None and r == "M":
            # transferring the argument threw: nothing may have happened
            self.want(st, k == "throw" and st.stop[1] == env_x, "exn.transfer", lambda: "copying the argument threw, control goes to " + self.show(st))
            if sp.cop == ("start",) and self.fnmove_threw(st):
                # moving the coroutine-function failed after it was started
                self.check_source(st, op)
                self.catch(st)
                sp.phase, sp.mop, sp.cop = "done", None, None
                self.args_done(st, "M")
                self.push(st)
                return
            self.ok(st, "ctl.no-switch", st.g.switches == 0, "control was transferred although copying the argument threw")
            self.catch(st)
            sp.phase, sp.mop = "susp", None
            if self.kind == "push":
                sp.cur, sp.moved = None, False
            self.args_done(st, "M")
            self.unpush_ref(st)
            self.push(st)
            return
        if sp.cop == ("start",):
            self.want(st, r == "enter", "ctl.next", lambda: "the first push gives control to " + self.show(st))
            self.ok(st, "ctl.one-switch", st.g.switches == 1, "%d context switches instead of one" % st.g.switches)
            if op[2] is not None or self.cat == "void":
                self.delivered(st, op[2])
            sp.cop = None
            self.entered(st)
            return
        self.want(st, r == "C" and k == "ret", "ctl.next", lambda: "resuming the coroutine gives control to " + self.show(st))
        self.want(st, st.cur == sp.fnclient, "ctl.next", "another coroutine gets control")
        self.ok(st, "ctl.one-switch", st.g.switches == 1, "%d context switches instead of one" % st.g.switches)
        if self.kind == "push":
            self.delivered(st, op[2])
        cop = sp.cop
        sp.phase, sp.cop = "run", None
        self.check_result(st, "C", cop)
        self.check_source(st, cop)
        self.args_done(st, "C")
        if self.kind == "pull" and self.cat == "ref":
            self.trim_refs(st)
        self.push(st)

    def fnmove_threw(self, st):
        return any(e[0] in ("copy-throws", "move-throws") and e[1] in FN_CLASSES for e in st.g.log)

    def post_cor_op(self, st, act, r, k, env_x):
        sp = st.g.spec
        op = sp.cop
        if env_x is not None and r == "C":
            self.want(st, k == "throw" and st.stop[1] == env_x, "exn.transfer", lambda: "copying the argument threw, control goes to " + self.show(st))
            self.ok(st, "ctl.no-switch", st.g.switches == 0, "control was transferred although copying the argument threw")
            self.catch(st)
            sp.cop = None
            if self.kind == "pull":
                sp.cur, sp.moved = None, False
            self.args_done(st, "C")
            self.unpush_ref(st)
            self.push(st)
            return
        self.want(st, r == "M" and k == "ret", "ctl.next", lambda: "suspending the coroutine gives control to " + self.show(st))
        self.ok(st, "ctl.one-switch", st.g.switches == 1, "%d context switches instead of one" % st.g.switches)
        if self.kind == "pull":
            self.delivered(st, op[2])
        mop = sp.mop
        sp.phase, sp.mop = "susp", None
        self.main_completes(st, mop)
        self.push(self.owner_left(st))

    def main_completes(self, st, mop):
        sp = st.g.spec
        if mop[0] in ("call", "it"):
            self.check_result(st, "M", mop)
            self.check_source(st, mop)
            self.args_done(st, "M")
        elif mop[0] == "new":
            self.fn_source(st)
        if self.kind == "push" and self.cat == "ref":
            self.trim_refs(st)

    def post_exit(self, st, act, r, k):
        """The coroutine-function was left."""
        sp = st.g.spec
        mop = sp.mop
        if act == "propagate":
            if mop[0] == "assign":
                self.want(st, r == "M" and k == "ret", "ctl.next", lambda: "unwinding gives control to " + self.show(st))
                sp.phase, sp.mop = "gone", None
                self.after_gone(st)
                return
            self.want(st, r == "M" and k == "ret", "ctl.next", lambda: "unwinding gives control to " + self.show(st))
            sp.phase, sp.mop = "gone", None
            self.terminal(st, "destroyed")
            return
        x = sp.xid if act == "throw" else None
        if act == "throw":
            self.want(st, r == "M" and k == "throw", "exn.propagates", lambda: "an exception left the coroutine-function, control goes to " + self.show(st))
            self.want(st, st.stop[1] == x, "exn.same", lambda: "main code receives %s instead of the exception thrown" % self.env.exn_name(st, st.stop[1]))
        else:
            self.want(st, r == "M" and k == "ret", "ctl.next", lambda: "return of the coroutine-function gives control to " + self.show(st))
        sp.phase, sp.mop = "done", None
        if mop[0] == "new" and act == "throw":
            self.fn_source(st)
            self.ctor_failed(st)
            return
        if act == "throw":
            if mop[0] in ("call", "it"):
                self.check_source(st, mop)
                self.args_done(st, "M")
            self.catch(st)
        else:
            self.main_completes(st, mop)
        sp.h = None
        sp.it_c = None
        self.push(self.owner_left(st))

    def owner_left(self, st):
        """The handle the completed operation was called on may have been moved
        away by the coroutine-function meanwhile."""
        if st.g.spec.H0 is None:
            return st
        h = st.g.spec.H0
        self.expect_bool(st, self.kind, h, False, "own.source")
        st, _ = self.effect(st, self.kind, "del", [h])
        self.drop(st, h)
        st.g.spec.H0 = None
        return st

    def post_del(self, st, r, k):
        sp = st.g.spec
        if sp.phase == "susp" and sp.cop != ("start",):
            self.want(st, r == "C" and k == "throw" and st.g.exns[st.stop[1]].kind == "unwind", "unwind.thrown",
                      lambda: "destroying a suspended coroutine gives control to " + self.show(st))
            sp.phase, sp.unw = "run", True
            sp.xid = st.stop[1]
            sp.mop = ("del",) if sp.mop is None else sp.mop
            self.check_source(st, sp.cop)
            self.args_done(st, "C")
            sp.cop = None
            self.push(st)
            return
        self.want(st, r == "M" and k == "ret", "ctl.next", lambda: "destruction gives control to " + self.show(st))
        if sp.mop is not None and sp.mop[0] == "assign":
            sp.mop = None
            sp.phase = "gone"
            self.after_gone(st)
            return
        sp.phase = "gone"
        self.terminal(st, "destroyed")

    def after_gone(self, st):
        """Move assignment from an empty handle destroyed the coroutine."""
        sp = st.g.spec
        self.ok(st, "own.assign-result", st.stop[1] == sp.H, "move assignment does not return *this")
        self.released(st, "its handle was assigned")
        for op, e in (("bool", 0), ("not", 1)):
            v = self.query(st, self.kind, op, [sp.H])
            self.ok(st, "own.assigned-empty", v == e, "assigning an empty handle leaves a valid one")
        s = st.clone()
        self.seg("del @empty")
        self.start(s, self.kind, "del", [sp.H])
        for o in self.run(s):
            self.ok(o, "ctl.next", self.role(o) == "M" and o.stop[0] == "ret", "destroying an empty handle transfers control")
            self.terminal(o, "destroyed")

    def released(self, st, why):
        live = [s for s in st.g.stacks.values() if s.frees == 0]
        self.ok(st, "stack.released", not live, "the stack is not deallocated although %s" % why)
        self.ok(st, "ctx.none-left", len(st.ctxs) == 1, "a suspended context is left behind although %s" % why)
        left = [(a, o) for a, o in st.g.objs.items() if not self.is_user(st, a) and o.cls not in TRIVIAL_DTOR]
        for cls_kind, name in (("fn", "fn.destroyed"), ("obj", "obj.destroyed"), ("alloc", "alloc.destroyed")):
            l = [o.cls for a, o in left if self.env.kind_tag(o.cls) == cls_kind]
            self.ok(st, name, not l, "%s left alive although %s" % (", ".join(l), why))
        ex = [e.label for e in st.g.exns.values() if e.alive]
        self.ok(st, "exn.released", not ex, "exception objects never released: %s" % ", ".join(ex))
        heap = [r.name for r in st.regions.values() if r.alive and r.kind == "heap"]
        self.ok(st, "mem.heap-released", not heap, "heap memory leaked")

    def terminal(self, st, why):
        self.released(st, why)
        self.ok(st, "exn.no-open-handler", not st.ctxs["M"].caught, "an exception handler is still open")

    @staticmethod
    def untouched(st, o):
        """Nothing that lives in st is different in o, and nothing was added."""
        if o.cur != st.cur or o.ctxs.keys() != st.ctxs.keys():
            return False
        for k, c in st.ctxs.items():
            d = o.ctxs[k]
            if len(c.frames) != len(d.frames) or c.caught != d.caught or c.pending is not d.pending:
                return False
            for f, h in zip(c.frames, d.frames):
                if f.fn is not h.fn or f.fn is not None and (f.blk != h.blk or f.ix != h.ix or f.regs != h.regs):
                    return False
        for k, r in o.regions.items():
            q = st.regions.get(k)
            if q is None:
                if r.alive:
                    return False
            elif q.alive != r.alive or q.guard != r.guard:
                return False
        get = o.mem.get
        for a, c in st.mem.items():
            if get(a) is not c:
                return False
        if len(o.mem) != len(st.mem):
            for a in o.mem:
                if a not in st.mem and (a >> SHIFT) in st.regions:
                    return False
        g, h = st.g, o.g
        if g.objs.keys() != h.objs.keys() or g.tokens != h.tokens or g.exns.keys() != h.exns.keys() or g.stacks.keys() != h.stacks.keys():
            return False
        for a, x in g.objs.items():
            y = h.objs[a]
            if x is not y and (x.cls != y.cls or x.val is not y.val and x.val != y.val or x.moved != y.moved):
                return False
        for a, x in g.exns.items():
            y = h.exns[a]
            if (x.alive, x.kind, x.eptr, x.handlers, x.infl) != (y.alive, y.kind, y.eptr, y.handlers, y.infl):
                return False
        return all(x.frees == h.stacks[a].frees for a, x in g.stacks.items()) and len(g.sinv) == len(h.sinv)

    # -------- observers -------------------------------------------------------------
    def query(self, st, side, op, args, name=None):
        """Runs an observer on a copy; checks that it neither transfers control
        nor changes anything; returns its result."""
        s = st.clone()
        sg = self.res.seg
        self.seg("%s @%s" % (op, self.phase_name(st.g.spec)))
        before = {rid for rid, r in s.regions.items() if r.alive}
        try:
            self.start(s, side, op, args)
            outs = self.run(s)
            if len(outs) != 1 or outs[0].stop[0] != "ret" or outs[0].cur != st.cur:
                self.ok(s, "ctl.next", False, "%s does not simply return (%s)" % (op, "; ".join(self.show(o) for o in outs)))
                return None
            o = outs[0]
            self.ok(s, "ctl.next", True)
            self.frame_check(o, before)
            v = o.stop[1]
            o.stop = None
            self.ok(o, "frame.observer-pure", self.untouched(st, o) or self.canon(o) == self.canon(st), "%s changes the state of the coroutine" % op)
            return v
        finally:
            self.res.seg = sg

    def effect(self, st, side, op, args):
        """Runs a non-transferring operation on st itself; returns (state, result)."""
        sg = self.res.seg
        self.seg("%s @%s" % (op, self.phase_name(st.g.spec)))
        before = {rid for rid, r in st.regions.items() if r.alive}
        self.start(st, side, op, args)
        outs = self.run(st)
        good = [o for o in outs if o.stop[0] == "ret" and o.cur == st.cur]
        if not self.ok(st, "ctl.next", len(good) == 1 and len(outs) == 1, lambda: "%s does not simply return (%s)" % (
                op, "; ".join(self.show(o) for o in outs))):
            self.res.seg = sg
            raise Violation
        o = good[0]
        self.frame_check(o, before)
        self.res.seg = sg
        return o, o.stop[1]

    def expect_bool(self, st, side, h, want, tag):
        if want is None:
            return
        b = self.query(st, side, "bool", [h])
        n = self.query(st, side, "not", [h])
        self.seg("bool @%s" % self.phase_name(st.g.spec))
        self.ok(st, tag + ".bool", b == int(want), "operator bool yields %r, the contract says %s" % (b, want))
        self.ok(st, tag + ".not", n == int(not want), "operator! yields %r, the contract says %s" % (n, not want))

    def observe(self, st):
        sp = st.g.spec
        if st.cur == "M":
            if sp.phase not in ("susp", "done"):
                return
            valid = sp.phase == "susp"
            self.expect_bool(st, self.kind, sp.H, valid, "valid")
            self.observe_iter(st, self.kind, sp.H, valid, sp.it_m)
            if self.kind == "pull" and valid:
                self.observe_value(st, sp.H, sp.it_m)
            if valid and sp.h is not None:
                # the handle of the suspended coroutine-function, seen from outside
                self.expect_bool(st, self.other, sp.h, self.readable(sp, self.other), "valid")
            return
        if sp.unw or sp.h is None:
            return
        self.expect_bool(st, self.other, sp.h, True, "valid")
        self.observe_iter(st, self.other, sp.h, True, sp.it_c)
        if self.kind == "push":
            self.observe_value(st, sp.h, sp.it_c)
        self.observe_synth(st)
        if sp.mop is not None and sp.mop[0] in ("call", "it"):
            # the owning handle, seen from inside the coroutine-function
            self.expect_bool(st, self.kind, sp.H, self.readable(sp, self.kind), "valid")

    def readable(self, sp, side):
        """None: a failed transfer left it open whether there is a value."""
        return True if side == "push" or self.cat == "void" or sp.cur is not None else None

    def observe_iter(self, st, side, h, valid, it):
        if not self.has(side, "it_begin"):
            return
        s = st.clone()
        ph = self.phase_name(st.g.spec)
        forms = [("it_begin", "it_end")] + ([("it_fbegin", "it_fend")] if self.has(side, "it_fbegin") else []) + [("it_begin", "it_def")]
        for b, e in forms:
            try:
                s = st.clone()
                i, j = self.slot(s, 64, "it"), self.slot(s, 64, "it")
                s, _ = self.effect(s, side, b, [h, i])
                s, _ = self.effect(s, side, e, [h, j] if e != "it_def" else [j])
                eq = self.query(s, side, "it_eq", [i, j])
                ne = self.query(s, side, "it_ne", [i, j])
                qe = self.query(s, side, "it_eq", [j, i])
                self.seg("%s @%s" % (b, ph))
                self.ok(s, "it.begin-end", eq == int(not valid) and qe == eq, "begin()==end() yields %r on a %s coroutine" % (eq, "valid" if valid else "complete"))
                self.ok(s, "it.ne", ne == int(valid), "begin()!=end() yields %r on a %s coroutine" % (ne, "valid" if valid else "complete"))
                if valid and side == "pull" and st.g.spec.cur is not None:
                    self.deref(s, side, i, "it.deref")
                if side == "push":
                    v = self.query(s, side, "it_star", [i])
                    self.ok(s, "it.returns-this", v == i, "operator* of the push iterator does not yield the iterator")
                    v = self.query(s, side, "it_inc", [i])
                    self.ok(s, "it.returns-this", v == i, "operator++ of the push iterator does not yield the iterator")
                if it is not None:
                    # the persistent iterator compares like the validity of its coroutine
                    eq = self.query(s, side, "it_eq", [it, j])
                    ne = self.query(s, side, "it_ne", [it, j])
                    self.seg("%s @%s" % ("it_inc" if side == "pull" else "it_assign", ph))
                    self.ok(s, "it.at-end", eq == int(not valid) and ne == int(valid), "an advanced iterator compares %s end() although the coroutine is %s" % (
                        "equal to" if eq else "unequal to", "valid" if valid else "complete"))
                    eq = self.query(s, side, "it_eq", [it, i])
                    self.ok(s, "it.equal-begin", eq == 1, "an advanced iterator differs from begin()")
                    if valid and side == "pull" and st.g.spec.cur is not None:
                        self.deref(s, side, it, "it.deref")
            except Violation:
                pass

    def deref(self, st, side, i, tag):
        sp = st.g.spec
        for op in ("it_deref", "it_arrow"):
            v = self.query(st, side, op, [i])
            self.seg("%s @%s" % (op, self.phase_name(sp)))
            if sp.moved:
                continue
            if self.cat == "ref":
                self.ok(st, "ref.identity", v == sp.cur, "%s does not refer to the object passed" % op)
            else:
                got = self.read_value(st, v) if isinstance(st.at(v), int) else None
                self.ok(st, tag, got is not None and self.same(st, got, sp.cur), "%s yields %r instead of the transferred value %r" % (op, got, sp.cur))

    def observe_value(self, st, h, it):
        """get() yields the value transferred last, every time it is called."""
        sp = st.g.spec
        if self.cat == "void":
            return
        if sp.cur is None:
            return
        if self.cat == "ref":
            v = self.query(st, "pull", "get", [h])
            self.seg("get @" + self.phase_name(sp))
            self.ok(st, "ref.identity", v == sp.cur, "get() does not refer to the object passed")
            if self.lay:
                o = st.g.objs.get(sp.cur)
                self.ok(st, "ref.untouched", o is not None and not o.moved, "the referenced object was modified")
            return
        if sp.moved:
            return
        try:
            s = st.clone()
            out = self.slot(s, max(TSIZE.get(self.tn, 0), SIZES.get(self.lay, 0) if self.cat == "cls" else 0, 1), "out")
            s, _ = self.get(s, h, out)
            self.seg("get @" + self.phase_name(sp))
            got = self.read_value(s, out)
            self.ok(s, "val.delivered", self.same(s, got, sp.cur), "get() yields %r instead of the transferred value %r" % (got, sp.cur))
            out2 = self.slot(s, max(TSIZE.get(self.tn, 0), SIZES.get(self.lay, 0) if self.cat == "cls" else 0, 1), "out")
            s, _ = self.get(s, h, out2)
            got = self.read_value(s, out2)
            if self.tn != "mov":
                self.seg("get-again @" + self.phase_name(sp))
                self.ok(s, "val.repeatable", self.same(s, got, sp.cur), "the second get() yields %r instead of the transferred value %r" % (got, sp.cur))
        except Violation:
            pass

    def get(self, st, h, out):
        # get() is noexcept by interface: a throwing move there terminates by contract
        old = self.env.opts.get("nothrow")
        self.env.opts["nothrow"] = True
        try:
            return self.effect(st, "pull", "get", [h, out])
        finally:
            self.env.opts["nothrow"] = old

    def observe_synth(self, st):
        """The handle given to the coroutine-function does not own the
        coroutine: moving it elsewhere and destroying it changes nothing."""
        sp = st.g.spec
        try:
            s = st.clone()
            D = self.slot(s, self.hsize, "handle")
            s, _ = self.effect(s, self.other, "mv", [D, sp.h])
            self.expect_bool(s, self.other, D, True, "synth.moved")
            self.expect_bool(s, self.other, sp.h, False, "synth.source")
            s, _ = self.effect(s, self.other, "del", [D])
            self.seg("del-synthesized @" + self.phase_name(sp))
            self.ok(s, "synth.non-owning", all(k.frees == 0 for k in s.g.stacks.values()) and len(s.ctxs) == len(st.ctxs),
                    "destroying the synthesized handle destroys the coroutine")
            if sp.mop is not None and sp.mop[0] in ("call", "it"):
                self.expect_bool(s, self.kind, sp.H, self.readable(sp, self.kind), "synth.owner")
        except Violation:
            pass

    # -------- actions -----------------------------------------------------------------
    def visit(self, st):
        sp = st.g.spec
        try:
            self.observe(st)
        except (Violation, PathEnd):
            pass
        if st.cur == "M":
            self.visit_main(st)
        else:
            self.visit_cor(st)

    def push_forms(self, side):
        f = []
        if self.cat == "void":
            return [("call", None)]
        if self.cat == "ref":
            f = [("calll", "l")]
        else:
            f = [("callc", "c"), ("callm", "m"), ("calll", "l")]
        f = [x for x in f if self.has(side, x[0])]
        if not self.full:
            f = f[:1]
        if self.has(side, "it_assign") and self.full:
            f.append(("it_assign", "a"))
        if self.full and len(f) > 1:
            f.append(("calll" if self.cat == "ref" else "callc", "k"))
        return f

    def issue_push(self, st, who, op, form):
        """`sink(v)` / `*it = v` with a fresh arbitrary value."""
        s = st.clone()
        s.stop = None
        sp = s.g.spec
        side = self.kind if who == "M" else self.other
        h = sp.H if who == "M" else sp.h
        s.g.env["actor"] = who
        info = None
        if form == "k":
            # the very variable pushed by an earlier operation, with a new value
            a = self.kept(s, who)
            if a is None:
                return
            info = ("c", a, self.read_value(s, a))
        elif self.cat != "void":
            a = self.new_value(s, "mvarg" if form == "m" else "arg")
            info = (form, a, self.read_value(s, a))
            if self.cat == "ref":
                sp.refs.append(a)
            else:
                (sp.temps_m if who == "M" else sp.temps_c).append(a)
        if form == "a":
            it = sp.it_m if who == "M" else sp.it_c
            if it is None:
                it = self.slot(s, 64, "it")
                s, _ = self.effect(s, side, "it_begin", [h, it])
                s.stop = None
                sp = s.g.spec
                if who == "M":
                    sp.it_m = it
                else:
                    sp.it_c = it
            o = ("it", "assign", info)
            args = [it, a]
        else:
            self.drop_iter(s, who)
            o = ("call", "call", info)
            args = [h] + ([a] if info else [])
        if who == "M":
            sp.mop = o
        else:
            sp.cop = o
        self.do(s, o[0], args, op, side)

    def kept(self, s, who):
        sp = s.g.spec
        if self.cat == "ref":
            return sp.refs[-1] if sp.refs else None
        a = sp.keep_m if who == "M" else sp.keep_c
        if a is None:
            a = self.new_value(s, "arg")
            if who == "M":
                sp.keep_m = a
            else:
                sp.keep_c = a
        elif self.cat == "cls":
            s.g.objs[a].val = self.fresh_val(s, "v")
        else:
            for o, n in self.lay:
                s.mem[a + o] = (n, z3.ZeroExt(7, fresh(1, "v")) if self.tn == "boo" else fresh(8 * n, "v"))
        return a

    def drop_iter(self, s, who):
        sp = s.g.spec
        if who == "M" and sp.it_m is not None:
            self.drop(s, sp.it_m)
            sp.it_m = None
        if who == "C" and sp.it_c is not None:
            self.drop(s, sp.it_c)
            sp.it_c = None

    def issue_pull(self, st, who, form):
        s = st.clone()
        s.stop = None
        sp = s.g.spec
        side = self.kind if who == "M" else self.other
        h = sp.H if who == "M" else sp.h
        s.g.env["actor"] = who
        if form == "call":
            self.drop_iter(s, who)
            o, op, args = ("call", "call", None), "call", [h]
        else:
            it = sp.it_m if who == "M" else sp.it_c
            if it is None:
                it = self.slot(s, 64, "it")
                s, _ = self.effect(s, side, "it_begin", [h, it])
                s.stop = None
                sp = s.g.spec
                if who == "M":
                    sp.it_m = it
                else:
                    sp.it_c = it
            o, op, args = ("it", "inc" if form == "inc" else "post", None), "it_" + form, [it]
        if who == "M":
            sp.mop = o
        else:
            sp.cop = o
        self.do(s, o[0], args, op, side)

    def issue_get(self, st, who):
        """Moves the value out through get()."""
        s = st.clone()
        sp = s.g.spec
        if sp.cur is None or sp.moved or self.cat not in ("cls",):
            return
        h = sp.H if who == "M" else sp.h
        out = self.slot(s, SIZES[self.lay], "out")
        s, _ = self.get(s, h, out)
        self.drop(s, out)
        s.g.spec.moved = True
        s.g.spec.hist.append((who, "get"))
        self.push(s)

    def attempt(self, f, *a):
        try:
            f(*a)
        except (Violation, PathEnd):
            pass

    def visit_main(self, st):
        sp = st.g.spec
        side = self.kind
        if sp.phase == "susp":
            if side == "pull":
                self.attempt(self.issue_pull, st, "M", "call")
                if self.full and self.has("pull", "it_inc"):
                    self.attempt(self.issue_pull, st, "M", "inc")
                    self.attempt(self.issue_pull, st, "M", "post")
                    self.attempt(self.issue_get, st, "M")
            else:
                for op, f in self.push_forms("push"):
                    self.attempt(self.issue_push, st, "M", op, f)
        if sp.phase in ("susp", "done"):
            if sp.it_m is None:
                self.attempt(self.issue_move, st)
                self.attempt(self.issue_assign, st)
                self.attempt(self.issue_assign_empty, st)
                self.attempt(self.issue_self_assign, st)
            s = st.clone()
            s.stop = None
            self.drop_iter(s, "M")
            self.attempt(self.do, s, "del", [sp.H], "del", side)

    def visit_cor(self, st):
        sp = st.g.spec
        side = self.other
        if not sp.unw:
            if side == "pull":
                self.attempt(self.issue_pull, st, "C", "call")
                if self.full and self.has("pull", "it_inc"):
                    self.attempt(self.issue_pull, st, "C", "inc")
                    self.attempt(self.issue_get, st, "C")
            else:
                for op, f in self.push_forms("push"):
                    self.attempt(self.issue_push, st, "C", op, f)
            if self.full and sp.it_c is None and not self.is_user(st, sp.h):
                self.attempt(self.issue_move_synth, st)
            if self.full and sp.H0 is None and sp.it_m is None and sp.mop is not None and sp.mop[0] == "call":
                self.attempt(self.issue_move_owner, st)
            self.attempt(self.leave, st, "return")
            self.attempt(self.leave, st, "throw")
        else:
            self.attempt(self.leave, st, "propagate")

    def leave(self, st, how):
        s = st.clone()
        s.stop = None
        sp = s.g.spec
        self.seg("fn-%s @%s" % (how, self.phase_name(sp)))
        before = {rid for rid, r in s.regions.items() if r.alive}
        ctx = s.ctx()
        cl = ctx.frames.pop()
        if sp.it_c is not None:
            self.drop(s, sp.it_c)
            sp.it_c = None
        if self.is_user(s, sp.h):
            # the coroutine-function destroys its own (moved-to) handle
            ctx.frames.append(cl)
            s, _ = self.effect(s, self.other, "del", [sp.h])
            s.stop = None
            sp = s.g.spec
            ctx = s.ctx()
            cl = ctx.frames.pop()
            self.drop(s, sp.h)
        sp.h = None
        self.args_done(s, "C")
        self.drop(s, sp.keep_c)
        sp.keep_c = None
        s.g.switches = 0
        s.g.log = []
        s.written = set()
        s.steps = 0
        s.choices = []
        s.pc = list(s.g.sinv)
        sp.hist.append(("C", how))
        forks = []
        try:
            if how == "return":
                self.m.ret_to(s, ctx, cl.call, None)
            elif how == "throw":
                x = self.env.new_user_exn(s, "user exception")
                sp.xid = x
                forks = self.m.throw_at(s, ctx, cl.call, x) or []
            else:
                forks = self.m.throw_at(s, ctx, cl.call, sp.xid) or []
        except PathEnd:
            return
        outs = []
        for f in [s] + forks:
            outs.extend(self.run(f))
        self.settle(outs, how, before)

    def issue_move(self, st):
        s = st.clone()
        sp = s.g.spec
        D = self.slot(s, self.hsize, "handle")
        s, _ = self.effect(s, self.kind, "mv", [D, sp.H])
        sp = s.g.spec
        self.seg("mv @" + self.phase_name(sp))
        self.expect_bool(s, self.kind, sp.H, False, "own.source")
        t = s.clone()
        t, _ = self.effect(t, self.kind, "del", [sp.H])
        self.seg("del-moved-from @" + self.phase_name(sp))
        self.ok(t, "own.moved-from-empty", len(t.g.stacks) == len(s.g.stacks) and all(k.frees == 0 for k in t.g.stacks.values()),
                "destroying a moved-from handle releases the coroutine")
        self.drop(t, sp.H)
        t.g.spec.H = D
        t.g.spec.hist.append(("M", "mv"))
        self.push(t)

    def issue_move_owner(self, st):
        """The coroutine-function moves the handle that owns it (whose operator()
        has not returned yet), like a growing container of handles does."""
        s = st.clone()
        sp = s.g.spec
        D = self.slot(s, self.hsize, "handle")
        s, _ = self.effect(s, self.kind, "mv", [D, sp.H])
        sp = s.g.spec
        self.seg("mv @run-owner-moved")
        self.expect_bool(s, self.kind, sp.H, False, "own.source")
        sp.H0, sp.H = sp.H, D
        sp.hist.append(("C", "mvo"))
        self.push(s)

    def issue_move_synth(self, st):
        s = st.clone()
        sp = s.g.spec
        D = self.slot(s, self.hsize, "handle")
        s, _ = self.effect(s, self.other, "mv", [D, sp.h])
        s.g.spec.h = D
        s.g.spec.hist.append(("C", "mv"))
        self.push(s)

    def issue_self_assign(self, st):
        s = st.clone()
        sp = s.g.spec
        k0 = self.canon(s)
        s, v = self.effect(s, self.kind, "as", [sp.H, sp.H])
        self.seg("self-assign @" + self.phase_name(sp))
        self.ok(s, "own.assign-result", v == sp.H, "move assignment does not return *this")
        s.stop = None
        self.ok(s, "own.self-assign", self.canon(s) == k0, "self move assignment changes the handle")

    def issue_assign_empty(self, st):
        """h = std::move(empty): the coroutine of h is destroyed."""
        s = st.clone()
        sp = s.g.spec
        # an empty handle: what a move leaves behind
        E, T = self.slot(s, self.hsize, "handle"), self.slot(s, self.hsize, "handle")
        s, _ = self.effect(s, self.kind, "mv", [T, sp.H])
        s, _ = self.effect(s, self.kind, "mv", [E, sp.H])   # moving from an empty handle
        self.expect_bool(s, self.kind, E, False, "own.source")
        # put it back
        s, v = self.effect(s, self.kind, "as", [sp.H, T])
        self.ok(s, "own.assign-result", v == sp.H, "move assignment does not return *this")
        self.expect_bool(s, self.kind, T, False, "own.source")
        self.expect_bool(s, self.kind, sp.H, sp.phase == "susp", "own.target")
        s, _ = self.effect(s, self.kind, "del", [T])
        self.drop(s, T)
        s.stop = None
        sp = s.g.spec
        sp.mop = ("assign",)
        self.do(s, "del", [sp.H, E], "as", self.kind)

    def issue_assign(self, st):
        """g = std::move(h) where g owns another suspended coroutine: that one
        is unwound and released, g continues h's coroutine, h is empty."""
        s = st.clone()
        sp = s.g.spec
        ph = self.phase_name(sp)
        cls, alo = self.NEW["mo"]
        G = self.slot(s, self.hsize, "handle")
        f = self.slot(s, SIZES[cls], "mvarg")
        s.g.objs[f] = Obj(cls, "fn2", False, 0)
        a = self.slot(s, 8, "allocator")
        s.g.objs[a] = Obj("Alo", "alloc2", False, 0)
        nst = len([k for k in s.g.stacks.values() if not k.frees])
        self.seg("second new_mo @" + ph)
        self.start(s, self.kind, "new_mo", [G, a, f])
        outs = [o for o in self.run(s) if not (o.stop[0] == "throw")]
        self.want(s, len(outs) == 1, "ctl.next", "constructing a second coroutine")
        s = outs[0]
        temp = None
        if self.kind == "pull":
            self.want(s, s.stop[0] == "fn", "ctl.next", "constructing a second coroutine")
            bctx = s.cur
            bh = s.stop[1]
            s.stop = None
            if self.cat == "void":
                self.start(s, "push", "call", [bh])
            else:
                temp = self.new_value(s, "mvarg")
                op = "calll" if self.cat == "ref" else "callm"
                self.env.opts["nothrow"] = True
                self.start(s, "push", op, [bh, temp])
            outs = self.run(s)
            self.env.opts["nothrow"] = False
            self.want(s, len(outs) == 1 and outs[0].cur == "M" and outs[0].stop[0] == "ret", "ctl.next", "second coroutine yields")
            s = outs[0]
        s.stop = None
        sp = s.g.spec
        if sp.phase == "susp" and self.has(self.kind, "it_begin"):
            # neither is exhausted: their iterators differ
            q = s.clone()
            i, j = self.slot(q, 64, "it"), self.slot(q, 64, "it")
            q, _ = self.effect(q, self.kind, "it_begin", [sp.H, i])
            q, _ = self.effect(q, self.kind, "it_begin", [G, j])
            eq, ne = self.query(q, self.kind, "it_eq", [i, j]), self.query(q, self.kind, "it_ne", [i, j])
            self.seg("it_begin @" + ph)
            self.ok(q, "it.other-coroutine", eq == 0 and ne == 1, "begin() of one coroutine equals begin() of another, both unfinished")
        self.seg("as @" + ph)
        before = {rid for rid, r in s.regions.items() if r.alive}
        self.start(s, self.kind, "as", [G, sp.H])
        outs = self.run(s)
        self.want(s, len(outs) == 1, "ctl.next", "move assignment has %d outcomes" % len(outs))
        s = outs[0]
        if self.kind == "pull":
            self.want(s, s.stop[0] == "throw" and s.cur == bctx and s.g.exns[s.stop[1]].kind == "unwind", "own.assign-destroys",
                      lambda: "move assignment to a handle that owns a suspended coroutine does not unwind it: control goes to " + self.show(s))
            x = s.stop[1]
            s.stop = None
            ctx = s.ctx()
            cl = ctx.frames.pop()
            forks = self.m.throw_at(s, ctx, cl.call, x) or []
            outs = []
            for q in [s] + forks:
                outs.extend(self.run(q))
            self.want(s, len(outs) == 1, "ctl.next", "unwinding during move assignment has %d outcomes" % len(outs))
            s = outs[0]
        self.want(s, s.cur == "M" and s.stop[0] == "ret", "ctl.next", lambda: "move assignment gives control to " + self.show(s))
        sp = s.g.spec
        self.ok(s, "own.assign-result", s.stop[1] == G, "move assignment does not return *this")
        self.ok(s, "own.assign-destroys", len([k for k in s.g.stacks.values() if not k.frees]) == nst,
                "move assignment does not destroy the coroutine the target owned")
        left = [o.cls for x, o in s.g.objs.items() if o.val == "fn2" and not self.is_user(s, x)]
        self.ok(s, "own.assign-destroys", not left, "the callable of the destroyed coroutine is left alive")
        self.drop(s, f)
        self.drop(s, a)
        if temp is not None:
            self.drop(s, temp)
        s.stop = None
        self.expect_bool(s, self.kind, sp.H, False, "own.source")
        self.expect_bool(s, self.kind, G, sp.phase == "susp", "own.target")
        s, _ = self.effect(s, self.kind, "del", [sp.H])
        self.drop(s, sp.H)
        sp = s.g.spec
        sp.H = G
        s.stop = None
        sp.hist.append(("M", "assign"))
        self.push(s)

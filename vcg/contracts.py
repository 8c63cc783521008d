"""Contracts of the library's internal functions.

Each contract is an executable specification over the members of the control
blocks, handles and iterators (their positions come from harness/layout.cpp,
compiled on every run): what the function requires, what it returns, which
exception leaves it, which members it writes, what it does to objects.

A contract is *established* when the function's body, run from every admissible
pre-state (flags, values and pointers symbolic, objects present or not, every
copy and move throwing or not), has exactly the outcomes of the specification:
same control outcome, same result, same memory, same objects, same user-visible
events (z3 decides equality of data).  Callees whose contracts are established
are replaced by them, bottom up; afterwards every caller - up to the public
operations - is verified against the contract, not the body.  Where the body no
longer is what the contract says, or the members are gone, or a caller does not
meet the precondition, the body itself is executed: nothing is assumed."""
import re

import z3

from .env import ALIGN, Obj, SIZES
from .machine import (Client, Ctx, EngineError, PathEnd, SHIFT, State, UNDEF, fresh, is_sym)

INLINE = object()

CPP = {"i32": "int", "tri": "Tri", "wid": "Wid", "emp": "Emp", "ptr": "int*", "boo": "bool", "dbl": "double", "enu": "Enu", "lon": "unsigned long",
       "chr": "char", "hug": "Hug", "al1": "Al1", "al6": "Al6", "p12": "P12", "odd": "Odd", "val": "Val", "big": "Big", "mov": "Mov", "cpy": "Cpy", "ali": "Ali", "tdt": "Tdt", "ncp": "Ncp",
       "iref": "int&", "vref": "Val&", "cref": "Val const&", "kref": "int const&", "dref": "double const&", "tref": "P12 const&", "void": "void"}
NS = "boost::coroutines2::detail::"


def parse_layout(text):
    """Constants of harness/layout.cpp from its LLVM assembly."""
    d = {}
    for m in re.finditer(r"^@(\w+) = .*?constant \[\d+ x i64\] (\[.*?\]|zeroinitializer)", text, re.M):
        d[m.group(1)] = [int(x) for x in re.findall(r"i64 (-?\d+)", m.group(2))]
    return d


class Contracts:
    def __init__(self, driver, layout):
        self.d, self.m, self.env = driver, driver.m, driver.env
        self.lay = layout
        self.tn, self.cat = driver.tn, driver.cat
        self.cls = driver.lay if self.cat == "cls" else None
        self.established = {}      # demangled name -> {"states", "outcomes", "props"}
        self.refuted = {}          # demangled name -> reason
        self.used = {}             # demangled name -> calls replaced
        self.off = {}
        ok = True
        for k, names in (("pull_cb", ("c", "other", "state", "except") + (("bvalid", "storage") if self.cat != "void" else ())),
                         ("push_cb", ("c", "other", "state", "except")), ("pull_handle", ("cb",)), ("push_handle", ("cb",))) + (
                             (("pull_iter", ("c",)), ("push_iter", ("c",))) if self.cat != "void" else ()):
            v = layout.get("%s_%s" % (self.tn, k))
            if v is None or len(v) != 1 + 2 * len(names):
                ok = False
                break
            o = {n: v[1 + 2 * i] for i, n in enumerate(names)}
            w = {n: v[2 + 2 * i] for i, n in enumerate(names)}
            for n in ("c", "other", "except", "cb"):
                if n in w and w[n] != 8:
                    ok = False
            if w.get("state", 4) != 4 or w.get("bvalid", 1) != 1:
                ok = False
            self.off[k] = o
            self.off[k + ".size"] = v[0]
        st = layout.get(self.tn + "_state")
        ok = ok and st is not None and len(st) == 4 and st[0] == 0
        self.ok = ok
        if ok:
            self.complete, self.unwind = st[1], st[2]

    # members -------------------------------------------------------------------
    def rd(self, st, a, side, f):
        ty = {"state": ("i", 32), "bvalid": ("i", 8)}.get(f, ("p",))
        return st.load(a + self.off[side][f], ty)

    def wr(self, st, a, side, f, v):
        ty = {"state": ("i", 32), "bvalid": ("i", 8)}.get(f, ("p",))
        st.store(a + self.off[side][f], ty, v)

    def block(self, st, a, side):
        """a is the address of a live control block."""
        return self.inside(st, a, self.off[side + ".size"])

    def inside(self, st, a, n):
        if not isinstance(a, int) or a is UNDEF:
            return False
        r = st.regions.get(a >> SHIFT)
        return r is not None and r.alive and r.kind != "anchor" and (a & ((1 << SHIFT) - 1)) + n <= r.size

    # specifications: return INLINE (precondition not met, nothing changed) or
    # the list of further states, st itself having been given its outcome ----------
    def v_valid(self, st, cb, side):
        """operator bool of a control block: a Boolean term, 0/1, or None."""
        s = self.rd(st, cb, side, "state")
        if s is UNDEF:
            return None
        e = (s & self.complete) == 0
        if side == "push_cb":
            return self.simp(e)
        o = self.rd(st, cb, side, "other")
        if o is UNDEF:
            return None
        if is_sym(o):
            return None
        if o == 0:
            return 0
        if self.cat != "void":
            b = self.rd(st, cb, side, "bvalid")
            if b is UNDEF:
                return None
            b = (b & 1) == 1
            e = z3.And(e, b) if is_sym(e) or is_sym(b) else int(bool(e and b))
        return self.simp(e)

    def simp(self, e):
        if isinstance(e, (bool, int)):
            return int(e)
        return self.m.simp(e)

    def neg(self, e):
        return 1 - e if isinstance(e, int) else self.m.simp(z3.Not(e))

    def ret(self, st, ins, v=None):
        self.m.result(st, ins, v)
        return None

    def cb_valid(self, side):
        def spec(st, ins, a):
            if not self.block(st, a[0], side):
                return INLINE
            v = self.v_valid(st, a[0], side)
            if v is None:
                return INLINE
            return self.ret(st, ins, v)
        return spec

    def s_get(self, st, ins, a):
        if not self.block(st, a[0], "pull_cb"):
            return INLINE
        p = a[0] + self.off["pull_cb"]["storage"]
        if self.cat == "ref":
            p = st.load(p, ("p",))
            if p is UNDEF:
                return INLINE
        return self.ret(st, ins, p)

    def s_set(self, move):
        def spec(st, ins, a):
            cb, src = a
            if not self.block(st, cb, "pull_cb"):
                return INLINE
            p = cb + self.off["pull_cb"]["storage"]
            b = self.rd(st, cb, "pull_cb", "bvalid")
            if self.cat == "ref":
                if src is UNDEF:
                    return INLINE
                st.store(p, ("p",), src)
                self.wr(st, cb, "pull_cb", "bvalid", 1)
                return self.ret(st, ins)
            if self.cat == "tri":
                vs = []
                for o, n in self.d.lay:
                    if not self.inside(st, src, o + n):
                        return INLINE
                    v = st.load_raw(src + o, n)
                    if v is UNDEF:
                        return INLINE
                    vs.append((o, n, v))
                from .driver import TSIZE
                if vs:
                    st.clear(p, TSIZE[self.tn])
                for o, n, v in vs:
                    st.check(p + o, n, True)
                    st.store_raw(p + o, n, v)
                self.wr(st, cb, "pull_cb", "bvalid", 1)
                return self.ret(st, ins)
            # class: the old object (if any) dies, the new one is constructed,
            # a throwing constructor leaves nothing behind
            if not isinstance(b, int) or src not in st.g.objs or src == p or (b and p not in st.g.objs) or (not b and p in st.g.objs):
                return INLINE
            self.wr(st, cb, "pull_cb", "bvalid", 0)
            if b:
                self.env.destroy_obj(st, self.cls, p)
            if move and self.tn != "cpy":
                forks = self.env.move_obj(st, ins, self.cls, p, src)
            else:
                forks = self.env.copy_obj(st, ins, self.cls, p, src)
            self.wr(st, cb, "pull_cb", "bvalid", 1)
            self.ret(st, ins)
            return forks
        return spec

    def s_dtor(self, side):
        def spec(st, ins, a):
            cb = a[0]
            if not self.block(st, cb, side) or self.rd(st, cb, side, "c") != 0 or self.rd(st, cb, side, "except") != 0:
                return INLINE
            if side == "pull_cb" and self.cat in ("cls", "tri"):
                b = self.rd(st, cb, side, "bvalid")
                if self.cls:
                    p = cb + self.off[side]["storage"]
                    if not isinstance(b, int) or bool(b) != (p in st.g.objs):
                        return INLINE
                    if b:
                        self.env.destroy_obj(st, self.cls, p)
                elif b is UNDEF:
                    return INLINE
            return self.ret(st, ins)
        return spec

    def s_sync(self, side):
        """control_block( other, fiber): the block of the handle given to the function"""
        def spec(st, ins, a):
            cb, other, fib = a
            if not self.block(st, cb, side) or not self.inside(st, fib, 8) or other is UNDEF:
                return INLINE
            t = st.load(fib, ("p",))
            if t is UNDEF or is_sym(t):
                return INLINE
            st.store(fib, ("p",), 0)
            self.wr(st, cb, side, "c", t)
            self.wr(st, cb, side, "other", other)
            self.wr(st, cb, side, "state", 0)
            self.wr(st, cb, side, "except", 0)
            if side == "pull_cb" and self.cat != "void":
                self.wr(st, cb, side, "bvalid", 0)
                o = self.off[side]
                st.memset(cb + o["storage"], 0, self.stsize())
            return self.ret(st, ins)
        return spec

    def stsize(self):
        return self.lay["%s_pull_cb" % self.tn][-1]

    def s_dealloc(self, side):
        """no-op for a handle that does not own the coroutine"""
        def spec(st, ins, a):
            if not self.block(st, a[0], side):
                return INLINE
            s = self.rd(st, a[0], side, "state")
            if not isinstance(s, int) or s & self.unwind:
                return INLINE
            return self.ret(st, ins)
        return spec

    # handles
    def h_valid(self, st, h, side):
        if not self.inside(st, h, 8):
            return None
        cb = self.rd(st, h, side + "_handle", "cb")
        if cb is UNDEF or is_sym(cb):
            return None
        if cb == 0:
            return 0
        if not self.block(st, cb, side + "_cb"):
            return None
        return self.v_valid(st, cb, side + "_cb")

    def s_bool(self, side, neg):
        def spec(st, ins, a):
            v = self.h_valid(st, a[0], side)
            if v is None:
                return INLINE
            return self.ret(st, ins, self.neg(v) if neg else v)
        return spec

    def s_hctor(self, side):
        def spec(st, ins, a):
            if not self.inside(st, a[0], 8) or a[1] is UNDEF:
                return INLINE
            self.wr(st, a[0], side + "_handle", "cb", a[1])
            return self.ret(st, ins)
        return spec

    def s_hmove(self, side):
        def spec(st, ins, a):
            if not self.inside(st, a[0], 8) or not self.inside(st, a[1], 8) or a[0] == a[1]:
                return INLINE
            v = self.rd(st, a[1], side + "_handle", "cb")
            if v is UNDEF:
                return INLINE
            self.wr(st, a[1], side + "_handle", "cb", 0)
            self.wr(st, a[0], side + "_handle", "cb", v)
            return self.ret(st, ins)
        return spec

    def s_hdtor(self, side):
        def spec(st, ins, a):
            if not self.inside(st, a[0], 8):
                return INLINE
            cb = self.rd(st, a[0], side + "_handle", "cb")
            if cb == 0 and isinstance(cb, int):
                return self.ret(st, ins)
            if not self.block(st, cb, side + "_cb"):
                return INLINE
            s = self.rd(st, cb, side + "_cb", "state")
            if not isinstance(s, int) or s & self.unwind:
                return INLINE
            return self.ret(st, ins)
        return spec

    def s_refget(self, st, ins, a):
        if not self.inside(st, a[0], 8):
            return INLINE
        cb = self.rd(st, a[0], "pull_handle", "cb")
        if not self.block(st, cb, "pull_cb"):
            return INLINE
        return self.s_get(st, ins, [cb])

    # iterators
    def s_itctor(self, side):
        def spec(st, ins, a):
            if not self.inside(st, a[0], 8):
                return INLINE
            v = self.h_valid(st, a[1], side)
            if v is None:
                return INLINE
            more = []
            for b, s in self.m.branch(st, v):
                self.wr(s, a[0], side + "_iter", "c", a[1] if b else 0)
                self.ret(s, ins)
                if s is not st:
                    more.append(s)
            return more
        return spec

    def s_begin(self, side):
        def spec(st, ins, a):
            v = self.h_valid(st, a[0], side)
            if v is None or self.off[side + "_iter.size"] != 8:
                return INLINE
            more = []
            for b, s in self.m.branch(st, v):
                self.ret(s, ins, a[0] if b else 0)
                if s is not st:
                    more.append(s)
            return more
        return spec

    def s_end(self, st, ins, a):
        return self.ret(st, ins, 0)

    def s_itdef(self, side):
        def spec(st, ins, a):
            if not self.inside(st, a[0], 8):
                return INLINE
            self.wr(st, a[0], side + "_iter", "c", 0)
            return self.ret(st, ins)
        return spec

    def s_iteq(self, side, ne):
        def spec(st, ins, a):
            if not self.inside(st, a[0], 8) or not self.inside(st, a[1], 8):
                return INLINE
            x, y = self.rd(st, a[0], side + "_iter", "c"), self.rd(st, a[1], side + "_iter", "c")
            if not isinstance(x, int) or not isinstance(y, int) or x is UNDEF or y is UNDEF:
                return INLINE
            return self.ret(st, ins, int((x == y) != ne))
        return spec

    def s_deref(self, st, ins, a):
        if not self.inside(st, a[0], 8):
            return INLINE
        c = self.rd(st, a[0], "pull_iter", "c")
        if not self.inside(st, c, 8):
            return INLINE
        return self.s_refget(st, ins, [c])

    def s_self(self, st, ins, a):
        return self.ret(st, ins, a[0])

    # flags
    def s_op(self, op):
        def spec(st, ins, a):
            x, y = a
            if x is UNDEF or y is UNDEF:
                return INLINE
            return self.ret(st, ins, self.simp32(op(x, y)))
        return spec

    def simp32(self, e):
        return e & 0xffffffff if isinstance(e, int) else self.m.simp(e)

    def s_opassign(self, op):
        def spec(st, ins, a):
            if not self.inside(st, a[0], 4) or a[1] is UNDEF:
                return INLINE
            x = st.load(a[0], ("i", 32))
            if x is UNDEF:
                return INLINE
            st.store(a[0], ("i", 32), self.simp32(op(x, a[1])))
            return self.ret(st, ins, a[0])
        return spec

    # pre-states -------------------------------------------------------------------
    def empty(self):
        st = self.d.base.clone()
        st.written = set()
        return st

    def new(self, st, n, name):
        a = st.new_region("heap", n, name, None)
        st.regions[a >> SHIFT].align = 256
        return a

    def token(self, st):
        return st.new_region("opaque", 1, "opaque", None)

    def mkcb(self, st, side, other, obj=None, c=True):
        """A control block with arbitrary members."""
        a = self.new(st, self.off[side + ".size"], side)
        o = self.off[side]
        self.wr(st, a, side, "c", self.token(st) if c else 0)
        self.wr(st, a, side, "except", self.token(st) if c else 0)
        self.wr(st, a, side, "other", other)
        st.mem[a + o["state"]] = (4, fresh(32, "state"))
        if side == "pull_cb" and self.cat != "void":
            p = a + o["storage"]
            if self.cls:
                self.wr(st, a, side, "bvalid", int(obj is not None))
                if obj is not None:
                    st.g.objs[p] = Obj(self.cls, "old", obj == "moved", 0)
            else:
                st.mem[a + o["bvalid"]] = (1, z3.ZeroExt(7, fresh(1, "bvalid")))
                if self.cat == "ref":
                    st.mem[p] = (8, self.token(st))
                else:
                    for x, n in self.d.lay:
                        v = z3.ZeroExt(7, fresh(1, "v")) if self.tn == "boo" else fresh(8 * n, "v")
                        st.mem[p + x] = (n, v)
        return a

    def blocks(self, side, c=True):
        objs = (None, "live", "moved") if side == "pull_cb" and self.cls else (None,)
        for other in (0, 1):
            for obj in objs:
                st = self.empty()
                yield st, self.mkcb(st, side, self.token(st) if other else 0, obj, c)

    def p_cb(self, side):
        return [(s, [a]) for s, a in self.blocks(side)]

    def p_cbdead(self, side):
        return [(s, [a]) for s, a in self.blocks(side, False)]

    def p_dealloc(self, side):
        out = []
        for s, a in self.blocks(side):
            for v in (0, self.complete):
                t = s.clone()
                t.mem[a + self.off[side]["state"]] = (4, v)
                out.append((t, [a]))
        return out

    def p_set(self):
        out = []
        for s, a in self.blocks("pull_cb"):
            for mv in (False, True) if self.cls else (False,):
                t = s.clone()
                v = self.d.new_value(t, "arg")
                if self.cls:
                    t.g.objs[v] = Obj(self.cls, "new", mv, 0)
                out.append((t, [a, v]))
        return out

    def p_sync(self, side):
        st = self.empty()
        cb = self.new(st, self.off[side + ".size"], side)
        f = self.new(st, 8, "fiber")
        out = []
        for t in (0, self.token(st)):
            s = st.clone()
            s.store(f, ("p",), t)
            out.append((s, [cb, self.token(s), f]))
        return out

    def mkh(self, st, side, cb):
        h = self.new(st, self.off[side + "_handle.size"], "handle")
        self.wr(st, h, side + "_handle", "cb", cb)
        return h

    def p_h(self, side, null=True):
        out = []
        if null:
            st = self.empty()
            out.append((st, [self.mkh(st, side, 0)]))
        for s, a in self.blocks(side + "_cb"):
            out.append((s, [self.mkh(s, side, a)]))
        return out

    def p_hdtor(self, side):
        st = self.empty()
        out = [(st, [self.mkh(st, side, 0)])]
        for s, a in self.p_dealloc(side + "_cb"):
            out.append((s, [self.mkh(s, side, a[0])]))
        return out

    def p_hctor(self, side):
        st = self.empty()
        h = self.new(st, self.off[side + "_handle.size"], "handle")
        return [(st, [h, self.token(st)]), (st.clone(), [h, 0])]

    def p_hmove(self, side):
        out = []
        for s, a in self.p_h(side):
            d = self.new(s, self.off[side + "_handle.size"], "handle")
            out.append((s, [d, a[0]]))
        return out

    def p_itctor(self, side):
        out = []
        for s, a in self.p_h(side):
            out.append((s, [self.new(s, self.off[side + "_iter.size"], "iterator"), a[0]]))
        return out

    def p_itdef(self, side):
        st = self.empty()
        return [(st, [self.new(st, self.off[side + "_iter.size"], "iterator")])]

    def p_it2(self, side):
        out = []
        st = self.empty()
        x, y = self.token(st), self.token(st)
        i, j = (self.new(st, self.off[side + "_iter.size"], "iterator") for _ in "ij")
        for p in (0, x):
            for q in (0, x, y):
                s = st.clone()
                self.wr(s, i, side + "_iter", "c", p)
                self.wr(s, j, side + "_iter", "c", q)
                out.append((s, [i, j]))
                if p == q:
                    out.append((s.clone(), [i, i]))
        return out

    def p_it(self, side):
        out = []
        for s, a in self.p_h(side, False):
            i = self.new(s, self.off[side + "_iter.size"], "iterator")
            self.wr(s, i, side + "_iter", "c", a[0])
            out.append((s, [i]))
        return out

    def p_op(self):
        st = self.empty()
        return [(st, [fresh(32, "l"), fresh(32, "r")])]

    def p_opassign(self):
        st = self.empty()
        a = self.new(st, 4, "state")
        st.mem[a] = (4, fresh(32, "l"))
        return [(st, [a, fresh(32, "r")])]

    # the list, callees first -----------------------------------------------------------
    def units(self):
        T = re.escape(CPP[self.tn])
        st = re.escape(NS) + "state_t"
        u = []
        for o, f in (("&", lambda x, y: x & y), ("|", lambda x, y: x | y), ("^", lambda x, y: x ^ y)):
            u.append((r"%soperator%s\(%s, %s\)" % (re.escape(NS), re.escape(o), st, st), self.s_op(f), self.p_op))
            u.append((r"%soperator%s=\(%s&, %s\)" % (re.escape(NS), re.escape(o), st, st), self.s_opassign(f), self.p_opassign))
        for side in ("push", "pull"):
            co = "push" if side == "pull" else "pull"
            H = re.escape(NS) + side + "_coroutine<" + T + ">"
            B = H + "::control_block"
            I = H + "::iterator"
            cb = side + "_cb"
            u += [(B + r"::valid\(\) const", self.cb_valid(cb), lambda cb=cb: self.p_cb(cb)),
                  (B + r"::control_block\(%s%s_coroutine<%s>::control_block\*, boost::context::fiber&\)" % (re.escape(NS), co, T),
                   self.s_sync(cb), lambda cb=cb: self.p_sync(cb)),
                  (B + r"::~control_block\(\)", self.s_dtor(cb), lambda cb=cb: self.p_cbdead(cb)),
                  (B + r"::deallocate\(\)", self.s_dealloc(cb), lambda cb=cb: self.p_dealloc(cb)),
                  (H + r"::operator bool\(\) const", self.s_bool(side, False), lambda side=side: self.p_h(side)),
                  (H + r"::operator!\(\) const", self.s_bool(side, True), lambda side=side: self.p_h(side)),
                  (H + r"::%s_coroutine\(%s::control_block\*\)" % (side, H), self.s_hctor(side), lambda side=side: self.p_hctor(side)),
                  (H + r"::%s_coroutine\(%s&&\)" % (side, H), self.s_hmove(side), lambda side=side: self.p_hmove(side)),
                  (H + r"::~%s_coroutine\(\)" % side, self.s_hdtor(side), lambda side=side: self.p_hdtor(side))]
            if self.cat == "void":
                continue
            if side == "pull":
                t = CPP[self.tn]
                c = t + "&" if self.cat == "ref" else re.escape(self.constref(t))
                u += [(B + r"::get\(\)", self.s_get, lambda: self.p_cb("pull_cb"))]
                if self.cat == "ref":
                    u += [(B + r"::set\(%s\)" % T, self.s_set(False), self.p_set),
                          (H + r"::get\(\)", self.s_refget, lambda: self.p_h("pull", False))]
                else:
                    u += [(B + r"::set\(%s\)" % c, self.s_set(False), self.p_set),
                          (B + r"::set\(%s&&\)" % T, self.s_set(True), self.p_set)]
                u += [(I + r"::operator\*\(\) const", self.s_deref, lambda: self.p_it("pull")),
                      (I + r"::operator->\(\) const", self.s_deref, lambda: self.p_it("pull"))]
            else:
                u += [(I + r"::operator\*\(\)", self.s_self, lambda: self.p_it("push")),
                      (I + r"::operator\+\+\(\)", self.s_self, lambda: self.p_it("push"))]
            u += [(I + r"::iterator\(%s\*\)" % H, self.s_itctor(side), lambda side=side: self.p_itctor(side)),
                  (I + r"::iterator\(\)", self.s_itdef(side), lambda side=side: self.p_itdef(side)),
                  (I + r"::operator==\(%s const&\) const" % I, self.s_iteq(side, False), lambda side=side: self.p_it2(side)),
                  (I + r"::operator!=\(%s const&\) const" % I, self.s_iteq(side, True), lambda side=side: self.p_it2(side)),
                  (H + r"::begin\(\)", self.s_begin(side), lambda side=side: self.p_h(side)),
                  (H + r"::end\(\)", self.s_end, lambda side=side: self.p_h(side)),
                  (r"(?:.* )?%sbegin<.*>\(%s&\)" % (re.escape(NS), H), self.s_begin(side), lambda side=side: self.p_h(side)),
                  (r"(?:.* )?%send<.*>\(%s&\)" % (re.escape(NS), H), self.s_end, lambda side=side: self.p_h(side))]
        return u

    @staticmethod
    def constref(t):
        return t + " const&"

    # verification ------------------------------------------------------------------------
    def establish(self):
        """Verifies every contract against its body, callees first."""
        if not self.ok:
            return
        dem = self.m.dem
        for pat, spec, pre in self.units():
            rx = re.compile(pat + r"\Z")
            names = [n for n, f in self.m.mod.funcs.items() if not f.decl and NS in dem.get(n, "") and rx.match(dem[n])]
            names = [n for n in names if n not in self.m.mod.alias]
            if not names:
                continue
            why, ns, no = None, 0, 0
            for n in sorted(names):
                try:
                    states = pre()
                    for s, args in states:
                        k, w = self.refines(n, spec, s, args)
                        ns, no = ns + 1, no + k
                        why = why or w
                except EngineError as e:
                    why = "not interpreted: %s" % e
                except (KeyError, IndexError, TypeError, AttributeError, z3.Z3Exception) as e:
                    why = "not interpreted: %s: %s" % (type(e).__name__, e)
                if why:
                    break
            for n in names:
                if why:
                    self.refuted[dem[n]] = why
                else:
                    self.established[dem[n]] = {"pre_states": ns, "outcomes": no}
                    self.env.contracts[dem[n]] = self.handler(dem[n], n, spec)
            self.env.cache.clear()
        self.env.cache.clear()

    def handler(self, d, n, spec):
        def h(st, fr, ins, a, name):
            if not st.g.ssym:
                r = spec(st, ins, a)
                if r is not INLINE:
                    self.used[d] = self.used.get(d, 0) + 1
                    return r
            return self.m.call_body(st, ins, name, a)
        h.contract = True
        return h

    def refines(self, name, spec, s, args):
        """Every outcome of the body is one of the specification's and vice versa.
        (number of outcomes, None or why not)"""
        class Quiet:
            def __init__(self):
                self.bad = None

            def passed(self, st, n):
                pass

            def failed(self, st, n, detail):
                self.bad = self.bad or "%s: %s" % (n, detail)
        m = self.m
        keep = m.results
        q = m.results = Quiet()
        try:
            regions = [r for r in s.regions if s.regions[r].alive]
            b0, s0 = s.clone(), s.clone()
            m.push_call(b0, name, list(args), None)
            body = m.run(b0)
            if q.bad:
                return 0, q.bad
            more = spec(s0, None, list(args))
            if more is INLINE:
                return 0, "the precondition excludes an admissible state"
            specs = [x for x in [s0] + (more or []) if x.stop is not None]
            if q.bad:
                return 0, q.bad
            hit = set()
            for b in body:
                w = "no outcome"
                for i, x in enumerate(specs):
                    w = self.differ(b, x, regions)
                    if w is None:
                        hit.add(i)
                        break
                if w:
                    return len(body), w
            if len(hit) != len(specs):
                return len(body), "an outcome of the contract never occurs"
            return len(body), None
        except PathEnd:
            return 0, "fatal"
        finally:
            m.results = keep

    def eq(self, st, x, y):
        if x is UNDEF or y is UNDEF:
            return x is y
        if isinstance(x, int) and isinstance(y, int):
            return x == y
        if is_sym(x) and z3.is_bool(x) or is_sym(y) and z3.is_bool(y):
            def b(v):
                return (v if z3.is_bool(v) else v == 1) if is_sym(v) else z3.BoolVal(bool(v))
            return self.m.proved(st, b(x) == b(y))
        if is_sym(x) and is_sym(y) and x.size() != y.size():
            return False
        return self.m.proved(st, x == y)

    def differ(self, b, x, regions):
        """None, or how the body's outcome b differs from the contract's x."""
        def stop(t):
            return t.stop[0]
        if stop(b) != stop(x):
            return "control: %s / %s" % (b.stop, x.stop)
        if b.choices != x.choices:
            return "environment: %s / %s" % (b.choices, x.choices)
        if stop(b) == "ret" and not self.eq(b, 0 if b.stop[1] is None else b.stop[1], 0 if x.stop[1] is None else x.stop[1]):
            return "result: %s / %s" % (b.stop[1], x.stop[1])
        if stop(b) == "throw" and b.stop[1] != x.stop[1]:
            return "exception"
        if any(len(c.frames) != 1 for c in b.ctxs.values()) or b.g.switches:
            return "switch"
        # x's path condition must follow from b's
        for c in x.pc:
            if not self.m.proved(b, c):
                return "path"
        cells = {}
        for m, n in ((b.mem, x.mem), (x.mem, b.mem)):
            for a, c in m.items():
                d = n.get(a)
                if d is not c and not (d is not None and d[0] == c[0] and (d[1] is c[1] or isinstance(d[1], int) and isinstance(c[1], int)
                                                                            and d[1] == c[1])):
                    cells.setdefault(a >> SHIFT, set()).add(a)
        for r in regions:
            p, o = b.regions.get(r), x.regions.get(r)
            if p is None or o is None or p.alive != o.alive:
                return "memory freed"
            base = r << SHIFT
            skip = self.garbage(b, r)
            if r not in cells:
                continue
            offs = set()
            for a in cells[r]:
                cb, cx = b.mem.get(a), x.mem.get(a)
                if cb is not None and cx is not None and cb[0] == cx[0] and self.eq(b, cb[1], cx[1]):
                    continue
                for c in (cb, cx):
                    if c is not None:
                        offs |= set(range(a, a + c[0]))
            for a in sorted(offs):
                if a in skip:
                    continue
                if not self.eq(b, b.load_raw(a, 1), x.load_raw(a, 1)):
                    return "member at +%d of %s: %s / %s" % (a - base, p.name, b.load_raw(a, 1), x.load_raw(a, 1))
        def objs(t):
            return {a: (o.cls, o.val, o.moved) for a, o in t.g.objs.items()}
        if objs(b) != objs(x):
            return "objects: %s / %s" % (objs(b), objs(x))
        if b.g.log != x.g.log:
            return "events: %s / %s" % (b.g.log, x.g.log)
        wb = {r for r in b.written if r in regions}
        wx = {r for r in x.written if r in regions}
        if not wb <= wx:
            return "frame: writes %s" % (wb - wx)
        return None

    def garbage(self, b, r):
        """Addresses whose content means nothing: padding of the storage, and
        the storage when it holds no value."""
        reg = b.regions[r]
        if reg.name != "pull_cb" or self.cat == "void":
            return ()
        base = r << SHIFT
        p = base + self.off["pull_cb"]["storage"]
        bv = b.load_raw(base + self.off["pull_cb"]["bvalid"], 1)
        if isinstance(bv, int) and bv == 0:
            return set(range(p, p + self.stsize()))
        if self.cat != "tri":
            return ()
        data = {p + o + i for o, n in self.d.lay for i in range(n)}
        return set(range(p, p + self.stsize())) - data

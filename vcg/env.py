"""Contracts assumed of everything the library calls but does not define:
user classes, the stack allocator, the C++ runtime's exception machinery and
the three Boost.Context switch primitives.  Ghost state lives here."""
import z3

from .machine import (UNDEF, SHIFT, OFFM, MID, Client, Ctx, EngineError, Frame, PathEnd, Region, fresh, is_sym)

STACK_SIZE = 0x10000
PAGE = 4096
FENV = {"fegetround", "fegetexceptflag", "fetestexcept", "fesetround", "fegetenv", "fesetenv", "feholdexcept", "feupdateenv", "feclearexcept",
        "feraiseexcept", "fesetexceptflag", "feenableexcept", "fedisableexcept", "fegetexcept", "llvm.x86.sse.ldmxcsr", "llvm.x86.sse.stmxcsr"}


class Obj:
    __slots__ = ("cls", "val", "moved", "uid")

    def __init__(self, cls, val, moved=False, uid=0):
        self.cls, self.val, self.moved, self.uid = cls, val, moved, uid

    def copy(self):
        return Obj(self.cls, self.val, self.moved, self.uid)


class Exn:
    __slots__ = ("xid", "kind", "addr", "tinfo", "eptr", "handlers", "infl", "alive", "types", "label", "dtor")

    def copy(self):
        e = Exn.__new__(Exn)
        for k in Exn.__slots__:
            setattr(e, k, getattr(self, k))
        e.types = dict(self.types)
        return e


class Stack:
    __slots__ = ("rid", "alloc", "sp", "size", "frees")

    def __init__(self, rid, alloc, sp, size):
        self.rid, self.alloc, self.sp, self.size, self.frees = rid, alloc, sp, size, 0

    def copy(self):
        s = Stack(self.rid, self.alloc, self.sp, self.size)
        s.frees = self.frees
        return s


class Ghost:
    def __init__(self):
        self.objs = {}       # address -> live object of an opaque class
        self.exns = {}       # id -> exception object
        self.byaddr = {}     # exception address -> id
        self.tokens = {}     # context token address -> suspended context id
        self.stacks = {}     # region id -> stack
        self.switches = 0    # context switches in this segment
        self.log = []        # user-visible events in this segment
        self.nuid = 1
        self.spec = None     # abstract state (driver)
        self.fnruns = {}     # value of a coroutine-function -> times invoked
        self.env = {}
        self.fp = 0          # the floating-point environment (an identity)
        # one stack of unknown address and size (opts["symstack"])
        self.ssym = {}       # symbol name -> region id of the stack
        self.sinv = []       # what is known about the symbols
        self.anchors = {}    # ast id of a symbolic address -> (region id, address)
        self.extent = {}     # region id -> [lowest, highest offset) used
        self.ctxmem = {}     # region id of the stack -> (top, size) of its context

    def clone(self):
        g = Ghost.__new__(Ghost)
        g.ssym = self.ssym
        g.sinv = list(self.sinv)
        g.anchors = dict(self.anchors)
        g.extent = dict(self.extent)
        g.ctxmem = dict(self.ctxmem)
        g.objs = {k: o.copy() for k, o in self.objs.items()}
        g.exns = {k: e.copy() for k, e in self.exns.items()}
        g.byaddr = dict(self.byaddr)
        g.tokens = dict(self.tokens)
        g.stacks = {k: s.copy() for k, s in self.stacks.items()}
        g.switches = self.switches
        g.log = list(self.log)
        g.nuid = self.nuid
        g.spec = self.spec.clone() if self.spec is not None else None
        g.fnruns = dict(self.fnruns)
        g.env = dict(self.env)
        g.fp = self.fp
        return g


VALUE_CLASSES = {"Val": 24, "Big": 200, "Mov": 16, "Cpy": 8, "Ali": 128, "Tdt": 16, "Ncp": 8}
TRIVIAL_DTOR = {"Tdt"}
FN_CLASSES = {"Fn": 32, "FnM": 16, "FnC": 16, "FnL": 256, "FnA": 64}
FN_TRIVIAL = {"FnT": 16, "FnE": 1}   # plain bytes, no user code but operator()
ALIGN = {"Ali": 128, "FnA": 64}
COPY_THROWS = {"Val", "Big", "Cpy", "Ali", "Fn", "FnL", "FnA", "Tdt"}
MOVE_THROWS = {"Val"}
SIZES = dict(VALUE_CLASSES)
SIZES.update(FN_CLASSES)
SIZES["Alo"] = 8

UNWIND_TI = "_ZTIN5boost7context6detail13forced_unwindE"
ABI_TI = "_ZTIN10__cxxabiv115__forced_unwindE"


class Env:
    def __init__(self, opts=None):
        self.opts = opts or {}
        self.h = {}
        self.sel = {}
        self.contracts = {}
        self.cache = {}

    def attach(self, m):
        self.m = m
        self.cache = {}
        self._syms, self._named, self._split, self._aligned, self._pre, self._isptr, self._dist = {}, {}, {}, {}, {}, {}, {}

    # lookup -----------------------------------------------------------------
    def handler(self, name):
        if name in self.cache:
            return self.cache[name]
        h = self.find(name)
        self.cache[name] = h
        return h

    def find(self, name):
        dem = self.m.dem.get(name, name)
        fn = self.m.mod.funcs.get(name)
        if name in FENV:
            return self.h_fenv
        if name.startswith("llvm."):
            for p, h in (("llvm.memcpy", self.h_memcpy), ("llvm.memmove", self.h_memcpy), ("llvm.memset", self.h_memset),
                         ("llvm.eh.typeid.for", self.h_typeid), ("llvm.lifetime", self.h_nop), ("llvm.dbg", self.h_nop),
                         ("llvm.assume", self.h_nop), ("llvm.trap", self.h_trap), ("llvm.expect", self.h_first),
                         ("llvm.launder.invariant", self.h_first), ("llvm.strip.invariant", self.h_first),
                         ("llvm.stacksave", self.h_stacksave), ("llvm.stackrestore", self.h_nop),
                         ("llvm.is.constant", self.h_zero), ("llvm.objectsize", self.h_minus1),
                         ("llvm.experimental.noalias", self.h_nop), ("llvm.threadlocal.address", self.h_first), ("llvm.umul.with.overflow", self.h_umulo)):
                if name.startswith(p):
                    return h
            return None
        if dem in self.contracts:
            return self.contracts[dem]
        if fn is not None and not fn.decl:
            if name == "__clang_call_terminate":
                return self.h_terminate
            return None
        for cls in SIZES:
            p = cls + "::"
            if dem.startswith(p):
                rest = dem[len(p):]
                if rest == "~%s()" % cls:
                    return lambda st, fr, ins, a, n, c=cls: self.h_dtor(st, ins, c, a)
                if rest == "%s(%s const&)" % (cls, cls):
                    return lambda st, fr, ins, a, n, c=cls: self.h_copy(st, ins, c, a)
                if rest == "%s(%s&&)" % (cls, cls):
                    return lambda st, fr, ins, a, n, c=cls: self.h_move(st, ins, c, a)
                if rest == "%s()" % cls:
                    return lambda st, fr, ins, a, n, c=cls: self.h_default(st, ins, c, a)
                if rest == "operator=(%s const&)" % cls:
                    return lambda st, fr, ins, a, n, c=cls: self.h_assign(st, ins, c, a, False)
                if rest == "operator=(%s&&)" % cls:
                    return lambda st, fr, ins, a, n, c=cls: self.h_assign(st, ins, c, a, True)
                if cls == "Alo" and rest == "allocate()":
                    return self.h_allocate
                if cls == "Alo" and rest.startswith("deallocate("):
                    return self.h_deallocate
                return lambda st, fr, ins, a, n, d=dem: self.h_forbidden(st, ins, d)
            i = dem.find(" " + cls + "::operator()<")
            if i >= 0 or dem.startswith(cls + "::operator()<"):
                return lambda st, fr, ins, a, n, c=cls: self.h_fn(st, ins, c, a)
        for cls in FN_TRIVIAL:
            if " " + cls + "::operator()<" in dem or dem.startswith(cls + "::operator()<"):
                return lambda st, fr, ins, a, n, c=cls: self.h_fntrivial(st, ins, c, a)
        if " fnfree<" in dem or dem.startswith("fnfree<"):
            return lambda st, fr, ins, a, n: self.h_fn(st, ins, None, [None] + a)
        short = {"jump_fcontext": self.h_jump, "ontop_fcontext": self.h_ontop, "make_fcontext": self.h_make,
                 "__cxa_allocate_exception": self.h_xalloc, "__cxa_free_exception": self.h_xfree,
                 "__cxa_throw": self.h_throw, "__cxa_begin_catch": self.h_begin, "__cxa_end_catch": self.h_end,
                 "__cxa_rethrow": self.h_rethrow, "malloc": self.h_malloc, "free": self.h_free, "calloc": self.h_malloc,
                 "memcpy": self.h_memcpyf, "memmove": self.h_memcpyf, "memset": self.h_memsetf,
                 "__cxa_guard_acquire": self.h_guard, "__cxa_guard_release": self.h_guardrel,
                 "__cxa_guard_abort": self.h_nop, "__cxa_atexit": self.h_zero,
                 "abort": self.h_terminate, "mmap": self.h_mmap, "mprotect": self.h_mprotect, "munmap": self.h_munmap, "_ZSt9terminatev": self.h_terminate,
                 "_Znwm": self.h_malloc, "_ZdlPv": self.h_free, "_ZdlPvm": self.h_free,
                 "_ZSt17current_exceptionv": self.h_curexc,
                 "_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv": self.h_addref,
                 "_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv": self.h_release,
                 "__cxa_current_exception_type": self.h_curtype,
                 "__cxa_init_primary_exception": self.h_initprim,
                 "__cxa_get_exception_ptr": self.h_first,
                 "_ZNSt15__exception_ptr13exception_ptrC1EPv": self.h_eptrctor,
                 "_ZNSt15__exception_ptr13exception_ptrC2EPv": self.h_eptrctor,
                 }.get(name)
        if short:
            return short
        if dem.startswith("std::rethrow_exception("):
            return self.h_rethrowptr
        if dem.startswith("boost::context::stack_traits::"):
            return self.h_traits
        if dem.startswith("std::__throw_"):
            return self.h_libthrow
        if dem == "std::uncaught_exception()" or dem == "std::uncaught_exceptions()":
            return self.h_uncaught
        if dem.startswith("boost::assertion_failed"):
            return self.h_assert
        if dem in ("std::bad_alloc::~bad_alloc()",):
            return self.h_nop
        return None

    # stacks of unknown address ----------------------------------------------
    def symbols(self, e):
        r = self._syms.get(e.get_id())
        if r is None:
            seen, todo, names = set(), [e], set()
            while todo:
                x = todo.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    names.add(x.decl().name())
                todo.extend(x.children())
            r = self._syms[e.get_id()] = (frozenset(names), e)
        return r[0]

    def stack_of(self, st, e):
        """The stack an address expression is made from, or None."""
        n = self.symbols(e)
        if not n or not st.g.ssym:
            return None
        rids = {st.g.ssym.get(x) for x in n}
        return rids.pop() if len(rids) == 1 else None

    def name_address(self, st, e):
        """Names the result of a non-linear address computation, so that
        everything derived from it is that name plus a constant."""
        rid = self.stack_of(st, e)
        if rid is None:
            return e
        k = self._named.get(e.get_id())
        if k is None:
            v = z3.BitVec("addr!%d" % len(self._named), 64)
            k = self._named[e.get_id()] = (v, e, v == e)
        if k[0].decl().name() not in st.g.ssym:
            st.g.ssym = dict(st.g.ssym)
            st.g.ssym[k[0].decl().name()] = rid
            st.g.sinv.append(k[2])
        return k[0]

    def split(self, e):
        """address -> (base, constant)"""
        r = self._split.get(e.get_id())
        if r is None:
            x = z3.simplify(e)
            c = 0
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_BADD:
                rest = []
                for y in x.children():
                    if z3.is_bv_value(y):
                        c += y.as_long()
                    else:
                        rest.append(y)
                c &= (1 << 64) - 1
                if c >> 63:
                    c -= 1 << 64
                b = rest[0]
                for y in rest[1:]:
                    b = b + y
                if len(rest) > 1:
                    b = z3.simplify(b)
            else:
                b = x
            r = self._split[e.get_id()] = (b, c, e)
        return r[0], r[1]

    def anchor(self, st, e, create=False):
        b, c = self.split(e)
        k = st.g.anchors.get(b.get_id())
        if k is None:
            rid = self.stack_of(st, e)
            if rid is None or rid not in st.regions:
                return None
            for r2, e2 in st.g.anchors.values():
                d = self.distance(st, b, e2, create)
                if d is not None and abs(c + d) < MID:
                    return (r2 << SHIFT) + MID + c + d
            if not create:
                return None
            a = st.new_region("anchor", 1 << SHIFT, "stack", None)
            st.regions[a >> SHIFT].ctx = rid
            k = (a >> SHIFT, b)
            st.g.anchors[b.get_id()] = k
        if abs(c) >= MID:
            raise EngineError("address arithmetic out of range")
        return (k[0] << SHIFT) + MID + c

    def distance(self, st, x, y, solve):
        """x - y if that is the same in every case."""
        k = (x.get_id(), y.get_id())
        if k not in self._dist:
            d = self.m.simp(x - y)
            if is_sym(d):
                if not solve:
                    return None
                s = z3.Solver()
                s.set("timeout", 20000)
                s.add(*self.m.path(st))
                if s.check() != z3.sat:
                    raise EngineError("solver gave no model")
                d = s.model().eval(x - y, model_completion=True).as_long()
                if not self.m.proved(st, x - y == d):
                    d = None
            if d is not None and d >> 63:
                d -= 1 << 64
            self._dist[k] = (d, x, y)
        return self._dist[k][0]

    def pointer(self, st, e):
        """e is an address inside (or at the end of) a stack, not a size."""
        k = (self.split(e)[0].get_id(), self.split(e)[1])
        r = self._isptr.get(k)
        if r is None:
            s = next((s for s in st.g.stacks.values() if is_sym(s.sp) and s.rid == self.stack_of(st, e)), None)
            if s is None:
                return False
            r = self._isptr[k] = (self.m.proved(st, z3.And(z3.ULE(s.sp - s.size, e), z3.ULE(e, s.sp))), e)
        return r[0]

    def address(self, st, rid, off):
        for r2, e in st.g.anchors.values():
            if r2 == rid:
                return e + (off - MID)
        raise EngineError("unknown anchor")

    def in_stack(self, st, r, off, n):
        """Every access lies inside the stack, outside the part the coroutine
        runs on and apart from whatever is reached by another address."""
        x = st.g.extent.get(r.rid)
        lo, hi = (off, off + n) if x is None else (min(x[0], off), max(x[1], off + n))
        if x == (lo, hi):
            return
        st.g.extent[r.rid] = (lo, hi)
        s = st.g.stacks[r.ctx]
        a, b = self.address(st, r.rid, lo), self.address(st, r.rid, hi)
        bottom = s.sp - s.size + st.regions[s.rid].guard
        good = self.m.proved(st, z3.And(z3.ULE(bottom, a), z3.ULE(a, b), z3.ULE(b, s.sp)))
        self.ok(st, "layout.in-stack", good, "an access lies outside the stack (offsets %d to %d)" % (lo - MID, hi - MID))
        if not good:
            raise PathEnd
        cm = st.g.ctxmem.get(r.ctx)
        if cm is not None:
            good = self.m.proved(st, z3.Or(z3.ULE(b, cm[0] - cm[1]), z3.ULE(cm[0], a)))
            self.ok(st, "layout.context-apart", good, "an object overlaps the memory the coroutine runs on")
        for r2, _ in list(st.g.anchors.values()):
            x = st.g.extent.get(r2)
            if r2 == r.rid or x is None or st.regions[r2].ctx != r.ctx:
                continue
            a2, b2 = self.address(st, r2, x[0]), self.address(st, r2, x[1])
            good = self.m.proved(st, z3.Or(z3.ULE(b, a2), z3.ULE(b2, a)))
            self.ok(st, "layout.apart", good, "two objects on the stack overlap")
            if not good:
                raise PathEnd

    def aligned(self, st, a, n):
        if n <= 1 or self.stack_of(st, a) is None:
            return
        k = self.m.simp(z3.URem(a, z3.BitVecVal(n, 64)))
        good = k == 0 if isinstance(k, int) else None
        if good is None:
            b, c = self.split(a)
            key = (b.get_id(), c % n, n, len(st.g.sinv))
            good = self._aligned.get(key)
            if good is None:
                good = self._aligned[key] = self.m.proved(st, a & (n - 1) == 0)
        self.ok(st, "layout.access-aligned", good, "an access of alignment %d is misaligned for some stack address" % n)

    def precondition(self, name):
        if name in self._pre:
            return self._pre[name]
        d = self.m.dem.get(name, name)
        h = None
        if d.startswith("boost::context::preallocated::preallocated(void*, unsigned long"):
            h = self.p_preallocated
        self._pre[name] = h
        return h

    def p_preallocated(self, st, a):
        """The memory described is exactly what lies below the control block."""
        if len(a) != 5:
            return
        _, sp, size, csize, csp = a
        s = None
        for k in st.g.stacks.values():
            if not k.frees and self.m.equal(st, csp, k.sp):
                s = k
        good = s is not None and (s.size is None or self.m.equal(st, csize, s.size))
        self.ok(st, "layout.preallocated", good, "the stack_context handed on is not the allocated one")
        if not good or any(x is UNDEF for x in (sp, size, csize, csp)):
            return
        top = lambda x: x if is_sym(x) else z3.BitVecVal(x, 64)
        sp, size, csize, csp = map(top, (sp, size, csize, csp))
        good = self.m.proved(st, z3.And(sp - size == csp - csize, z3.ULE(sp, csp), z3.ULE(csp - csize, sp)))
        self.ok(st, "layout.preallocated", good, "stack pointer and size handed to the context do not describe the remaining memory")

    # helpers -----------------------------------------------------------------
    def ok(self, st, name, cond, detail=""):
        if cond:
            self.m.results.passed(st, name)
        else:
            self.m.results.failed(st, name, detail() if callable(detail) else detail)
        return cond

    def h_nop(self, st, fr, ins, a, n):
        self.m.result(st, ins, None)

    def h_zero(self, st, fr, ins, a, n):
        self.m.result(st, ins, 0)

    def h_minus1(self, st, fr, ins, a, n):
        self.m.result(st, ins, (1 << 64) - 1)

    def h_umulo(self, st, fr, ins, a, n):
        r = a[0] * a[1]
        self.m.result(st, ins, (r & ((1 << 64) - 1), int(r >> 64 != 0)))

    def h_first(self, st, fr, ins, a, n):
        self.m.result(st, ins, a[0])

    def h_stacksave(self, st, fr, ins, a, n):
        self.m.result(st, ins, 0)

    def h_trap(self, st, fr, ins, a, n):
        self.m.fail(st, "ctl.trap", "trap executed")
        raise PathEnd

    def h_terminate(self, st, fr, ins, a, n):
        self.m.fail(st, "exn.terminate", "std::terminate/abort called")
        raise PathEnd

    def h_assert(self, st, fr, ins, a, n):
        self.m.fail(st, "assert", "BOOST_ASSERT fails")
        raise PathEnd

    def h_forbidden(self, st, ins, dem):
        self.m.fail(st, "obj.user-operator", "the library calls %s" % dem)
        raise PathEnd

    def h_memcpy(self, st, fr, ins, a, n):
        if is_sym(a[2]):
            raise EngineError("memcpy of symbolic size")
        st.memcpy(a[0], a[1], a[2])
        self.m.result(st, ins, None)

    def h_memset(self, st, fr, ins, a, n):
        if is_sym(a[2]):
            raise EngineError("memset of symbolic size")
        st.memset(a[0], a[1], a[2])
        self.m.result(st, ins, None)

    def h_memcpyf(self, st, fr, ins, a, n):
        st.memcpy(a[0], a[1], a[2])
        self.m.result(st, ins, a[0])

    def h_memsetf(self, st, fr, ins, a, n):
        st.memset(a[0], a[1], a[2])
        self.m.result(st, ins, a[0])

    def h_guard(self, st, fr, ins, a, n):
        v = st.load(a[0], ("i", 8))
        if v is UNDEF:
            v = 0
        # another thread or an earlier call may have initialised it already
        self.m.result(st, ins, 1 if v == 0 else 0)

    def h_guardrel(self, st, fr, ins, a, n):
        st.store(a[0], ("i", 8), 1)
        self.m.result(st, ins, None)

    def h_traits(self, st, fr, ins, a, n):
        d = self.m.dem.get(n, n)
        if "default_size" in d:
            self.m.result(st, ins, STACK_SIZE - 0x100)
        elif "page_size" in d:
            self.m.result(st, ins, PAGE)
        elif "minimum_size" in d:
            self.m.result(st, ins, 8192)
        elif "is_unbounded" in d:
            self.m.result(st, ins, 0)
        else:
            raise EngineError(d)

    # opaque objects -----------------------------------------------------------
    def val_of(self, o):
        return ("moved-from", o.val) if o.moved else o.val

    def kind_tag(self, cls):
        return "fn" if cls in FN_CLASSES else ("alloc" if cls == "Alo" else "obj")

    def place(self, st, cls, dst, val):
        t = self.kind_tag(cls)
        n = SIZES[cls]
        al = ALIGN.get(cls, 1)
        if is_sym(dst):
            if al > 1:
                self.ok(st, "layout.object-aligned", self.m.proved(st, dst & (al - 1) == 0),
                        "%s constructed at an address that is misaligned for some stack address" % cls)
            dst = st.at(dst)
            al = 1
        st.check(dst, n, True)
        if al > 1:
            self.ok(st, "layout.object-aligned", self.real_align(st, dst) % al == 0, "%s constructed at a misaligned address" % cls)
        for x in [x for x, o in st.g.objs.items() if o.cls in TRIVIAL_DTOR and x < dst + n and dst < x + SIZES[o.cls]]:
            st.g.objs.pop(x)   # reusing its storage ends the lifetime of a trivially destructible object
        over = [x for x, o in st.g.objs.items() if x < dst + n and dst < x + SIZES[o.cls]]
        self.ok(st, t + ".no-overwrite", not over, lambda: "%s constructed over a live %s" % (cls, st.g.objs[over[0]].cls))
        for x in over:
            st.g.objs.pop(x)
        st.clear(dst, n)
        st.g.objs[dst] = Obj(cls, val, False, st.g.nuid)
        st.g.nuid += 1

    def real_align(self, st, addr):
        return addr & OFFM if st.regions[addr >> SHIFT].kind in ("stack",) else 0

    def live(self, st, cls, a, what):
        t = self.kind_tag(cls)
        a = st.at(a)
        o = st.g.objs.get(a) if isinstance(a, int) else None
        good = o is not None and o.cls == cls
        self.ok(st, t + ".live", good, lambda: "%s a %s that is not alive (%s)" % (what, cls, self.where(st, a)))
        if not good:
            raise PathEnd
        return o

    def where(self, st, a):
        if not isinstance(a, int):
            return repr(a)
        r = st.regions.get(a >> SHIFT)
        return "%#x" % a if r is None else "%s %s+%d" % (r.kind, r.name, a & OFFM)

    def may_throw(self, st, cls, move):
        if self.opts.get("nothrow"):
            return False
        if cls == "Fn":
            if move:
                return st.cur != "M" and self.opts.get("fnmove_throws", True)
            return True
        return cls in (MOVE_THROWS if move else COPY_THROWS)

    def h_copy(self, st, ins, cls, a):
        forks = self.copy_obj(st, ins, cls, a[0], a[1])
        self.m.result(st, ins, None)
        return forks

    def copy_obj(self, st, ins, cls, dst, src):
        s = self.live(st, cls, src, "copies")
        forks = []
        if self.may_throw(st, cls, False):
            s2 = st.clone()
            s2.choices.append("copying %s throws" % cls)
            x = self.new_user_exn(s2, "copy of " + cls)
            s2.g.log.append(("copy-throws", cls, x))
            forks = self.fork_throw(s2, ins, x)
        self.place(st, cls, dst, self.val_of(s))
        st.g.log.append(("copy", cls, self.val_of(s)))
        return forks

    def h_move(self, st, ins, cls, a):
        forks = self.move_obj(st, ins, cls, a[0], a[1])
        self.m.result(st, ins, None)
        return forks

    def move_obj(self, st, ins, cls, dst, src):
        s = self.live(st, cls, src, "moves")
        forks = []
        if self.may_throw(st, cls, True):
            s2 = st.clone()
            s2.choices.append("moving %s throws" % cls)
            x = self.new_user_exn(s2, "move of " + cls)
            s2.g.log.append(("move-throws", cls, x))
            forks = self.fork_throw(s2, ins, x)
        v = self.val_of(s)
        self.place(st, cls, dst, v)
        s = st.g.objs.get(st.at(src))
        if s is not None:
            s.moved = True
        st.g.log.append(("move", cls, v))
        return forks

    def fork_throw(self, s2, ins, x):
        c = s2.ctx()
        try:
            more = self.m.throw_at(s2, c, ins, x)
        except PathEnd:
            return []
        return [s2] + (more or [])

    def h_default(self, st, ins, cls, a):
        self.place(st, cls, a[0], ("default", cls))
        self.m.result(st, ins, None)

    def h_assign(self, st, ins, cls, a, move):
        d = self.live(st, cls, a[0], "assigns to")
        s = self.live(st, cls, a[1], "assigns from")
        forks = []
        if self.may_throw(st, cls, move):
            s2 = st.clone()
            s2.choices.append("assigning %s throws" % cls)
            x = self.new_user_exn(s2, "assignment of " + cls)
            s2.g.objs[st.at(a[0])].val = ("unspecified", cls)
            forks = self.fork_throw(s2, ins, x)
        v = self.val_of(s)
        if move and d is not s:
            s.moved = True
        if d is not s:
            d.val, d.moved = (v[1], True) if v and v[0] == "moved-from" else (v, False)
        st.g.log.append(("move" if move else "copy", cls, v))
        self.m.result(st, ins, a[0])
        return forks

    def h_dtor(self, st, ins, cls, a):
        self.destroy_obj(st, cls, a[0])
        self.m.result(st, ins, None)

    def destroy_obj(self, st, cls, p):
        if cls in TRIVIAL_DTOR:
            return     # no code runs
        self.live(st, cls, p, "destroys")
        o = st.g.objs.pop(st.at(p))
        st.clear(st.at(p), SIZES[cls])
        if cls in FN_CLASSES:
            st.g.log.append(("fn-destroyed", cls, self.val_of(o)))

    def frame_dies(self, st, fr):
        objs = st.g.objs
        if not objs:
            return
        rids = set(fr.allocas)
        for a in [a for a in objs if a >> SHIFT in rids]:
            o = objs.pop(a)
            self.ok(st, self.kind_tag(o.cls) + ".no-leak", o.cls in TRIVIAL_DTOR,
                    "%s (%r) goes out of scope in %s without being destroyed" % (o.cls, o.val, self.m.dem.get(fr.fn.name) if fr.fn else "user code"))

    # coroutine-function -------------------------------------------------------
    def h_fn(self, st, ins, cls, a):
        val = "fp"
        if cls is not None:
            a = [st.at(a[0])] + a[1:]
            o = self.live(st, cls, a[0], "invokes")
            val = o.val
            self.ok(st, "fn.not-moved-from", not o.moved, "the coroutine-function is invoked on a moved-from object")
            r = st.regions.get(a[0] >> SHIFT)
            st.g.log.append(("fn-called", cls, val, r.ctx if r else None, r.kind if r else None))
        else:
            st.g.log.append(("fn-called", None, "fp", st.cur, "local"))
        c = Client("cor", ins, {"fnval": val, "fnobj": a[0], "handle": a[1], "cls": cls})
        st.ctx().frames.append(c)
        st.stop = ("fn", a[1])
        return None

    def h_fntrivial(self, st, ins, cls, a):
        """A coroutine-function that is plain data: its bytes are its value."""
        f = st.at(a[0])
        st.check(f, FN_TRIVIAL[cls], False)
        val = "fn"
        for o in range(0, FN_TRIVIAL[cls] & ~7, 8):
            v = st.load_raw(f + o, 8)
            if v is UNDEF or not self.m.proved(st, v == z3.BitVec("fnw%d" % o, 64)):
                val = "altered"
        r = st.regions.get(f >> SHIFT)
        st.g.log.append(("fn-called", cls, val, r.ctx if r else None, r.kind if r else None))
        st.ctx().frames.append(Client("cor", ins, {"fnval": val, "fnobj": f, "handle": a[1], "cls": cls}))
        st.stop = ("fn", a[1])
        return None

    # allocator ------------------------------------------------------------------
    def new_stack(self, st, alloc):
        b = st.new_region("stack", STACK_SIZE, "stack", None)
        rid = b >> SHIFT
        if self.opts.get("symstack") and not st.g.env.get("symstack"):
            # the first stack of a history: any address, any size that suffices
            st.g.env["symstack"] = True
            sp, size = z3.BitVec("stack.sp", 64), z3.BitVec("stack.size", 64)
            st.g.ssym = {"stack.sp": rid, "stack.size": rid}
            st.g.sinv = [z3.ULE(sp, 1 << 48), z3.UGE(size, self.opts["symstack"]), z3.ULE(size, sp), z3.ULE(4096, sp - size)]
            st.pc = list(st.g.sinv) + st.pc
            st.g.stacks[rid] = Stack(rid, alloc, sp, size)
            return sp, size
        sp = b + STACK_SIZE - 16
        size = STACK_SIZE - 16 - 0x100
        st.g.stacks[rid] = Stack(rid, alloc, sp, size)
        return sp, size

    def h_allocate(self, st, fr, ins, a, n):
        o = self.live(st, "Alo", a[0], "allocates with")
        self.ok(st, "alloc.intact", not o.moved, "allocate() on a moved-from stack allocator")
        s2 = st.clone()
        s2.choices.append("allocate() throws")
        x = self.new_user_exn(s2, "allocate()")
        forks = self.fork_throw(s2, ins, x)
        sp, size = self.new_stack(st, o.val)
        st.g.log.append(("allocate", o.val))
        if ins[5][0] == "v":
            st.store(a[0], ("i", 64), size)
            raise EngineError("allocate() by sret")
        self.m.result(st, ins, (size, sp))
        return forks

    def h_deallocate(self, st, fr, ins, a, n):
        o = self.live(st, "Alo", a[0], "deallocates with")
        size = st.load(a[1], ("i", 64))
        sp = st.load(a[1] + 8, ("p",))
        self.release_stack(st, o.val if not o.moved else ("moved-from", o.val), sp, size)
        if st.stop is None:
            self.m.result(st, ins, None)

    def release_stack(self, st, alloc, sp, size):
        s = None
        for k in st.g.stacks.values():
            if isinstance(sp, int) and k.rid == sp >> SHIFT or is_sym(sp) and self.stack_of(st, sp) == k.rid:
                s = k
        known = s is not None and self.m.equal(st, sp, s.sp) and (size is None or self.m.equal(st, size, s.size))
        self.ok(st, "stack.same-context", known, "deallocate() called with a stack_context that allocate() did not return")
        if s is None:
            raise PathEnd
        self.ok(st, "stack.once", s.frees == 0, "stack deallocated twice")
        self.ok(st, "stack.same-allocator", alloc == s.alloc, "stack deallocated through another allocator (%r, allocated by %r)" % (alloc, s.alloc))
        if s.frees:
            raise PathEnd
        s.frees = 1
        st.g.log.append(("deallocate", s.alloc))
        running = st.ctx().stack == s.rid
        self.ok(st, "stack.not-running", not running, "the stack is released while the coroutine runs on it")
        if running:
            raise PathEnd
        for cid, c in list(st.ctxs.items()):
            if c.stack == s.rid and not c.dead:
                c.dead = True
                user = [f for f in c.frames if f.fn is None]
                self.ok(st, "unwind.before-release", not user, "the stack is released while the coroutine-function has not been unwound")
                for f in c.frames:
                    self.stack_objs(st, set(f.allocas), "a frame of the released stack")
                    for rid in f.allocas:
                        st.kill_region(rid)
                for t in [t for t, x in st.g.tokens.items() if x == cid]:
                    del st.g.tokens[t]
                self.ok(st, "exn.no-open-handler", not c.caught, "the stack is released inside an exception handler")
                del st.ctxs[cid]
        rids = {s.rid} | {r for r, _ in st.g.anchors.values() if st.regions[r].ctx == s.rid}
        self.stack_objs(st, rids, "the released stack")
        for r in rids:
            st.kill_region(r)
        if len(rids) > 1:
            st.g.anchors = {k: v for k, v in st.g.anchors.items() if v[0] not in rids}

    def stack_objs(self, st, rids, what):
        for a in [a for a in st.g.objs if a >> SHIFT in rids]:
            o = st.g.objs.pop(a)
            self.ok(st, self.kind_tag(o.cls) + ".no-leak", o.cls in TRIVIAL_DTOR, "%s (%r) on %s was never destroyed" % (o.cls, o.val, what))

    def h_malloc(self, st, fr, ins, a, n):
        size = a[0]
        if is_sym(size) and n == "malloc" and not st.g.env.get("symstack") and self.opts.get("symstack"):
            s2 = st.clone()
            s2.choices.append("malloc() fails")
            s2.g.env["malloc_failed"] = True
            self.m.result(s2, ins, 0)
            self.m.result(st, ins, self.symbolic_stack(st, "malloc", size, 16))
            return [s2]
        if is_sym(size) or size is UNDEF:
            raise EngineError("malloc of symbolic size")
        forks = []
        if n == "malloc":
            s2 = st.clone()
            s2.choices.append("malloc() fails")
            s2.g.env["malloc_failed"] = True
            self.m.result(s2, ins, 0)
            forks = [s2]
        b = st.new_region("stack" if n == "malloc" and size > 4096 else "heap", size, "heap", None)
        if n == "malloc" and size > 4096:
            st.g.stacks[b >> SHIFT] = Stack(b >> SHIFT, "malloc", b + size, None)
            st.g.log.append(("allocate", "malloc"))
        self.m.result(st, ins, b)
        return forks

    def h_free(self, st, fr, ins, a, n):
        p = a[0]
        if p == 0:
            self.m.result(st, ins, None)
            return
        rid = p >> SHIFT if isinstance(p, int) else None
        if is_sym(p) and self.stack_of(st, p) is not None:
            s = st.g.stacks[self.stack_of(st, p)]
            self.ok(st, "stack.same-context", self.m.equal(st, p, s.sp - s.size), "free() of an interior pointer")
            self.release_stack(st, "malloc", s.sp, s.size)
        elif rid in st.g.stacks:
            self.release_stack(st, "malloc", p + st.regions[rid].size, None)
            self.ok(st, "stack.same-context", p & OFFM == 0, "free() of an interior pointer")
        else:
            r = st.regions.get(rid)
            self.ok(st, "mem.free-once", r is not None and r.alive and r.kind == "heap", "free of something not allocated")
            st.kill_region(rid)
        if st.stop is None:
            self.m.result(st, ins, None)

    def h_mmap(self, st, fr, ins, a, n):
        """Contract: fresh zeroed pages, or MAP_FAILED."""
        addr, size, prot, flags = a[:4]
        if addr != 0 or size is UNDEF or prot != 3 or not flags & 0x20 or flags & 0x10 or size == 0:
            raise EngineError("mmap( %s)" % (a,))
        if is_sym(size) and (st.g.env.get("symstack") or not self.opts.get("symstack")):
            raise EngineError("mmap of symbolic size")
        s2 = st.clone()
        s2.choices.append("mmap() fails")
        s2.g.env["malloc_failed"] = True
        self.m.result(s2, ins, (1 << 64) - 1)
        if is_sym(size):
            # the length is rounded up to whole pages
            good = self.m.proved(st, size & (PAGE - 1) == 0)
            self.m.result(st, ins, self.symbolic_stack(st, "mmap", size if good else (size + (PAGE - 1)) & -PAGE, PAGE))
            return [s2]
        size = (size + PAGE - 1) & -PAGE
        b = st.new_region("stack", size, "stack", None)
        st.regions[b >> SHIFT].align = PAGE
        st.g.stacks[b >> SHIFT] = Stack(b >> SHIFT, "mmap", b + size, size)
        st.g.log.append(("allocate", "mmap"))
        self.m.result(st, ins, b)
        return [s2]

    def symbolic_stack(self, st, alloc, size, align):
        """A block of `size` bytes, any size the caller asks for, anywhere."""
        st.g.env["symstack"] = True
        b = st.new_region("stack", STACK_SIZE, "stack", None)
        rid = b >> SHIFT
        low = z3.BitVec("stack.low", 64)
        sp = self.m.simp(low + size)
        st.g.ssym = dict.fromkeys(self.symbols(sp), rid)
        st.g.sinv = list(st.g.sinv) + [low & (align - 1) == 0, z3.ULE(4096, low), z3.ULE(low, 1 << 47)]
        st.g.stacks[rid] = Stack(rid, alloc, sp, size)
        st.g.log.append(("allocate", alloc))
        return low

    def h_mprotect(self, st, fr, ins, a, n):
        """Contract: the pages from addr to addr+len fault (PROT_NONE) or do not."""
        p, size, prot = a
        rid = p >> SHIFT if isinstance(p, int) else None
        if is_sym(p) and self.stack_of(st, p) is not None:
            s = st.g.stacks[self.stack_of(st, p)]
            good = isinstance(size, int) and 0 < size and self.m.proved(st, z3.And(
                p & (PAGE - 1) == 0, p == s.sp - s.size, z3.ULE(size, s.size)))
            self.ok(st, "guard.own-pages", good, "mprotect() of something that is not the bottom of the stack")
            if not good:
                raise PathEnd
            st.regions[s.rid].guard = (size + PAGE - 1) & -PAGE if prot == 0 else 0
            self.m.result(st, ins, 0)
            return
        r = st.regions.get(rid)
        good = rid in st.g.stacks and r.alive and isinstance(size, int) and p & (PAGE - 1) == 0 and (p & OFFM) + size <= r.size
        self.ok(st, "guard.own-pages", good, "mprotect() of something that is not part of the stack")
        if not good:
            raise PathEnd
        size = (size + PAGE - 1) & -PAGE
        off = p & OFFM
        if prot == 0:
            if off > r.guard:
                raise EngineError("a guard page in the middle of a stack")
            r.guard = max(r.guard, off + size)
        elif off < r.guard:
            r.guard = off
        self.m.result(st, ins, 0)

    def h_munmap(self, st, fr, ins, a, n):
        p, size = a
        rid = p >> SHIFT if isinstance(p, int) else None
        if is_sym(p) and self.stack_of(st, p) is not None:
            self.release_stack(st, "mmap", self.m.simp(p + size), size)
            if st.stop is None:
                self.m.result(st, ins, 0)
            return
        self.ok(st, "stack.same-context", rid in st.g.stacks and p & OFFM == 0, "munmap() of something that is not a stack")
        if rid not in st.g.stacks:
            raise PathEnd
        self.release_stack(st, "mmap", p + size, size)
        if st.stop is None:
            self.m.result(st, ins, 0)

    def guarded(self, st, c):
        """Contract of the switch to a coroutine on a protected stack: directly
        below its memory lies a page that faults."""
        s = st.g.stacks.get(c.stack)
        if s is None or not (s.alloc == "mmap" or self.opts.get("protected") and c.cid == 1):
            return
        r = st.regions[c.stack]
        low = c.low
        if is_sym(s.sp):
            cm = st.g.ctxmem.get(c.stack)
            good = r.guard >= PAGE and cm is not None
            if good:
                bottom = s.sp - s.size
                good = self.m.proved(st, z3.And(z3.ULE(bottom, cm[0] - cm[1]), z3.ULE(cm[0] - cm[1], bottom + r.guard), z3.ULE(bottom + r.guard, cm[0])))
            self.ok(st, "guard.in-place", good, "the coroutine runs on a stack without a guard page directly below it (guard %d bytes)" % r.guard)
            return
        self.ok(st, "guard.in-place", r.guard >= PAGE and isinstance(low, int) and 0 <= (low & OFFM) <= r.guard,
                lambda: "the coroutine runs on a stack without a guard page directly below it (guard %d bytes, the context's memory starts at +%s)" % (
                    r.guard, low & OFFM if isinstance(low, int) else low))

    # contexts ---------------------------------------------------------------------
    def h_make(self, st, fr, ins, a, n):
        sp, size, fn = a
        rid = sp >> SHIFT if isinstance(sp, int) else (self.stack_of(st, sp) if is_sym(sp) else None)
        r = st.regions.get(rid)
        inside = r is not None and r.alive and r.kind == "stack"
        self.ok(st, "layout.context-on-stack", inside, "make_fcontext on memory that is not the coroutine's stack")
        if not inside:
            raise PathEnd
        s = st.g.stacks[rid]
        lo = (s.sp - s.size) if s.size is not None else rid << SHIFT
        if is_sym(sp) or is_sym(size):
            size = size if is_sym(size) else z3.BitVecVal(size, 64)
            sp = sp if is_sym(sp) else z3.BitVecVal(sp, 64)
            good = self.m.proved(st, z3.And(sp - size == lo, z3.ULE(lo, sp), z3.ULE(sp, s.sp)))
            self.ok(st, "layout.context-in-bounds", good, "the context's stack is not exactly the memory from the bottom of the stack up")
            st.g.ctxmem[rid] = (sp, size)
            # what already lives on the stack keeps clear of it
            for r2 in [r for r, _ in st.g.anchors.values() if st.regions[r].ctx == rid]:
                x = st.g.extent.pop(r2, None)
                if x is not None:
                    self.in_stack(st, st.regions[r2], x[0], x[1] - x[0])
        else:
            good = isinstance(size, int) and size < st.regions[rid].size and sp - size >= lo and sp <= s.sp
            self.ok(st, "layout.context-in-bounds", good, "context stack [%s,%s) exceeds the allocated stack" % (size, sp))
        cid = st.g.env.get("nctx", 0) + 1
        st.g.env["nctx"] = cid
        c = Ctx(cid, rid)
        c.fp = st.g.fp
        c.low = sp - size if isinstance(sp, int) else None
        c.pending = ("fresh", fn)
        st.ctxs[cid] = c
        t = st.new_region("token", 0, "context", None)
        st.g.tokens[t] = cid
        self.m.result(st, ins, t)

    def switch(self, st, tok, what):
        """Consumes token tok; returns the target context."""
        cid = st.g.tokens.get(tok) if isinstance(tok, int) else None
        self.ok(st, "ctx.token-live", cid is not None, lambda: "%s a context that is not suspended (%s)" % (
            what, "null" if tok == 0 else "already resumed or destroyed"))
        if cid is None:
            raise PathEnd
        del st.g.tokens[tok]
        st.kill_region(tok >> SHIFT)
        self.guarded(st, st.ctxs[cid])
        return st.ctxs[cid]

    def suspend(self, st, ins):
        cur = st.ctx()
        self.ok(st, "exn.no-switch-in-handler", not cur.caught, "context switch inside an exception handler")
        if cur.caught:
            raise PathEnd
        cur.pending = ("call", ins)
        cur.fp = st.g.fp
        t = st.new_region("token", 0, "context", None)
        st.g.tokens[t] = cur.cid
        st.g.switches += 1
        return t

    def h_fenv(self, st, fr, ins, a, n):
        """<cfenv>, _mm_getcsr, _mm_setcsr: a floating-point environment is an
        identity; saving and restoring one preserves it, everything else
        makes another one."""
        w = 4 if n.startswith("llvm.") else 8
        if n in ("fegetenv", "feholdexcept", "llvm.x86.sse.stmxcsr"):
            st.check(a[0], w, True)
            st.store_raw(a[0], w, st.g.fp)
        if n in ("fesetenv", "feupdateenv", "llvm.x86.sse.ldmxcsr"):
            v = (1 << 30) if a[0] in ((1 << 64) - 1, (1 << 64) - 2) else (st.check(a[0], w, False), st.load_raw(a[0], w))[1]
            st.g.fp = v if isinstance(v, int) and v is not UNDEF else -1
        elif n not in ("fegetround", "fegetenv", "fetestexcept", "fegetexcept", "fegetexceptflag", "llvm.x86.sse.stmxcsr"):
            st.g.fp = -1
        if ins is not None and ins[5] != ("v",):
            self.m.result(st, ins, fresh(32, n) if n in ("fegetround", "fetestexcept", "fegetexcept") else 0)
        else:
            self.m.result(st, ins, None)

    def h_jump(self, st, fr, ins, a, n):
        tgt = self.switch(st, a[0], "resumes")
        t = self.suspend(st, ins)
        p = tgt.pending
        tgt.pending = None
        st.cur = tgt.cid
        st.g.fp = tgt.fp
        if p[0] == "fresh":
            name = self.m.fname[p[1]]
            self.m.push_call(st, name, [t, a[1]], None)
        else:
            self.m.ret_to(st, tgt, p[1], (t, a[1]))

    def h_ontop(self, st, fr, ins, a, n):
        tgt = self.switch(st, a[0], "unwinds")
        t = self.suspend(st, ins)
        p = tgt.pending
        tgt.pending = None
        st.cur = tgt.cid
        st.g.fp = tgt.fp
        if p[0] == "fresh":
            raise EngineError("ontop_fcontext on a context that never ran")
        name = self.m.fname.get(a[2])
        if name is None:
            raise EngineError("ontop_fcontext with unknown function")
        st.g.log.append(("ontop", name))
        self.m.push_call(st, name, [t, a[1]], p[1])

    # exceptions --------------------------------------------------------------------
    def new_exn(self, st, kind, tinfo, label, addr=None, size=16):
        if addr is None:
            addr = st.new_region("exn", size, label, None)
        e = Exn()
        e.xid = len(st.g.exns) + 1
        while e.xid in st.g.exns:
            e.xid += 1
        e.kind, e.addr, e.tinfo, e.label, e.dtor = kind, addr, tinfo, label, 0
        e.eptr = e.handlers = 0
        e.infl = 1
        e.alive = True
        e.types = {}
        st.g.exns[e.xid] = e
        st.g.byaddr[addr] = e.xid
        return e.xid

    def new_user_exn(self, st, label):
        return self.new_exn(st, "user", None, label)

    def exn_of(self, st, addr):
        x = st.g.byaddr.get(addr) if isinstance(addr, int) else None
        if x is None:
            raise EngineError("unknown exception object")
        return x

    def exn_header(self, st, x):
        return st.g.exns[x].addr

    def exn_name(self, st, x):
        e = st.g.exns[x]
        return "%s (%s)" % (e.label, e.kind)

    def exn_is(self, st, x, ti):
        e = st.g.exns[x]
        if e.kind == "unwind":
            return ti == UNWIND_TI
        if e.kind == "abi":
            return ti == ABI_TI
        if e.kind == "lib":
            return ti == e.tinfo or (ti == "_ZTISt9exception" and e.tinfo == "_ZTISt9bad_alloc")
        if ti in (UNWIND_TI, ABI_TI):
            return False
        return e.types.get(ti)

    def exn_assume(self, st, x, ti, b):
        st.g.exns[x].types[ti] = b
        st.choices.append("exception %s %s %s" % (st.g.exns[x].label, "is" if b else "is not", ti))

    def selector(self, ti):
        if ti not in self.sel:
            self.sel[ti] = len(self.sel) + 1
        return self.sel[ti]

    def maybe_free(self, st, x):
        e = st.g.exns[x]
        if e.alive and e.eptr == 0 and e.handlers == 0 and e.infl == 0:
            e.alive = False
            st.kill_region(e.addr >> SHIFT)
            if e.dtor and e.kind == "lib" and False:
                pass

    def h_typeid(self, st, fr, ins, a, n):
        for g, ad in self.m.gaddr.items():
            if ad == a[0]:
                self.m.result(st, ins, self.selector(g))
                return
        raise EngineError("typeid of unknown")

    def h_xalloc(self, st, fr, ins, a, n):
        b = st.new_region("exn", a[0], "exception", None)
        self.m.result(st, ins, b)

    def h_xfree(self, st, fr, ins, a, n):
        st.kill_region(a[0] >> SHIFT)
        self.m.result(st, ins, None)

    def h_throw(self, st, fr, ins, a, n):
        ti = None
        for g, ad in self.m.gaddr.items():
            if ad == a[1]:
                ti = g
        kind = "unwind" if ti == UNWIND_TI else "lib"
        label = "forced_unwind" if kind == "unwind" else self.m.dem.get(ti, ti)
        x = self.new_exn(st, kind, ti, label, a[0])
        st.g.exns[x].dtor = a[2]
        return self.m.throw_at(st, st.ctx(), ins, x)

    def h_libthrow(self, st, fr, ins, a, n):
        x = self.new_exn(st, "lib", "_ZTISt9exception", self.m.dem.get(n, n))
        return self.m.throw_at(st, st.ctx(), ins, x)

    def h_begin(self, st, fr, ins, a, n):
        x = self.exn_of(st, a[0])
        e = st.g.exns[x]
        e.handlers += 1
        e.infl -= 1
        st.ctx().caught.append(x)
        self.m.result(st, ins, e.addr)

    def h_end(self, st, fr, ins, a, n):
        c = st.ctx()
        if not c.caught:
            self.m.fail(st, "exn.end-catch", "end of a handler that was not entered on this context")
            raise PathEnd
        x = c.caught.pop()
        st.g.exns[x].handlers -= 1
        self.maybe_free(st, x)
        self.m.result(st, ins, None)

    def h_rethrow(self, st, fr, ins, a, n):
        c = st.ctx()
        if not c.caught:
            self.m.fail(st, "exn.terminate", "rethrow outside a handler")
            raise PathEnd
        x = c.caught[-1]
        st.g.exns[x].infl += 1
        return self.m.throw_at(st, c, ins, x)

    def h_curexc(self, st, fr, ins, a, n):
        c = st.ctx()
        if c.caught:
            x = c.caught[-1]
            st.g.exns[x].eptr += 1
            st.store(a[0], ("p",), st.g.exns[x].addr)
        else:
            st.store(a[0], ("p",), 0)
        self.m.result(st, ins, None)

    def h_curtype(self, st, fr, ins, a, n):
        raise EngineError("__cxa_current_exception_type")

    def h_uncaught(self, st, fr, ins, a, n):
        self.m.result(st, ins, fresh(ins[5][1], "uncaught"))

    def h_initprim(self, st, fr, ins, a, n):
        ti = next((g for g, ad in self.m.gaddr.items() if ad == a[1]), None)
        x = self.new_exn(st, "lib", ti, "copy made by the library", a[0])
        st.g.exns[x].infl = 0
        self.m.result(st, ins, a[0])

    def h_eptrctor(self, st, fr, ins, a, n):
        if a[1] != 0:
            st.g.exns[self.exn_of(st, a[1])].eptr += 1
        st.store(a[0], ("p",), a[1])
        self.m.result(st, ins, None)

    def eptr_at(self, st, p):
        v = st.load(p, ("p",))
        if v is UNDEF or is_sym(v) or v not in st.g.byaddr:
            self.m.fail(st, "exn.eptr-valid", "operation on an invalid exception_ptr (%r)" % (v,))
            raise PathEnd
        x = st.g.byaddr[v]
        e = st.g.exns[x]
        if not e.alive:
            self.m.fail(st, "exn.eptr-valid", "use of an exception object after it was destroyed")
            raise PathEnd
        return x

    def h_addref(self, st, fr, ins, a, n):
        x = self.eptr_at(st, a[0])
        st.g.exns[x].eptr += 1
        self.m.result(st, ins, None)

    def h_release(self, st, fr, ins, a, n):
        x = self.eptr_at(st, a[0])
        e = st.g.exns[x]
        e.eptr -= 1
        if e.eptr < 0:
            self.m.fail(st, "exn.eptr-valid", "exception_ptr released too often")
            raise PathEnd
        st.store(a[0], ("p",), 0)
        self.maybe_free(st, x)
        self.m.result(st, ins, None)

    def h_rethrowptr(self, st, fr, ins, a, n):
        v = st.load(a[0], ("p",))
        if v == 0:
            self.m.fail(st, "exn.eptr-valid", "rethrow_exception of a null exception_ptr")
            raise PathEnd
        x = self.eptr_at(st, a[0])
        st.g.exns[x].infl += 1
        return self.m.throw_at(st, st.ctx(), ins, x)

"""Symbolic executor for the LLVM IR of /repo's code: the part of the VC
generator that computes, for one library function and one pre-state, every
post-state (path) of that function.  No loop or call bound: the code under
contract contains no loops, recursion does not occur, and the per-path step
limit is an engine error, never a silent cut."""
import z3

MASK = {w: (1 << w) - 1 for w in range(1, 129)}


class Undef:
    def __repr__(self):
        return "UNDEF"


UNDEF = Undef()


class EngineError(Exception):
    """The generator met something it does not model: no verdict is derived
    from the path."""


class PathEnd(Exception):
    """The current path stops here (after a fatal failed obligation)."""


def is_sym(v):
    return isinstance(v, z3.ExprRef)


_fresh = [0]


def fresh(w, base="s"):
    _fresh[0] += 1
    return z3.BitVec("%s!%d" % (base, _fresh[0]), w)


def reset_fresh():
    _fresh[0] = 0


class Region:
    __slots__ = ("rid", "kind", "size", "alive", "name", "ctx", "const", "align", "guard")

    def __init__(self, rid, kind, size, name, ctx=None):
        self.rid, self.kind, self.size, self.name, self.ctx = rid, kind, size, name, ctx
        self.alive = True
        self.const = False
        self.align = 8
        self.guard = 0       # bytes at the low end that fault


SHIFT = 24
OFFM = (1 << SHIFT) - 1
MID = 1 << (SHIFT - 1)      # origin inside the region of a symbolic address


class Frame:
    __slots__ = ("fn", "blk", "ix", "prev", "regs", "allocas", "call", "meta")

    def __init__(self, fn):
        self.fn = fn
        self.blk = None
        self.ix = 0
        self.prev = None
        self.regs = {}
        self.allocas = []
        self.call = None      # the call instruction (in the frame below) this frame returns to
        self.meta = None

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.blk, f.ix, f.prev, f.call, f.meta = self.fn, self.blk, self.ix, self.prev, self.call, self.meta
        f.regs = dict(self.regs)
        f.allocas = list(self.allocas)
        return f


class Client:
    """Pseudo frame: user code (the caller of the API, or the body of the
    coroutine-function)."""
    __slots__ = ("role", "call", "meta", "fn", "allocas")

    def __init__(self, role, call=None, meta=None):
        self.role, self.call, self.meta = role, call, meta
        self.fn = None
        self.allocas = []

    def copy(self):
        c = Client(self.role, self.call, dict(self.meta) if self.meta else None)
        return c


class Ctx:
    __slots__ = ("cid", "frames", "caught", "stack", "pending", "dead", "resume_tag", "low", "fp")

    def __init__(self, cid, stack=None):
        self.cid = cid
        self.frames = []
        self.caught = []      # exception ids currently handled (innermost last)
        self.stack = stack    # region id of its stack, None for the main context
        self.pending = None   # call instruction it is suspended at
        self.dead = False
        self.low = None       # lowest address of the memory it runs on
        self.fp = 0           # its floating-point environment while it is suspended

    def copy(self):
        c = Ctx(self.cid, self.stack)
        c.low, c.fp = self.low, self.fp
        c.frames = [f.copy() for f in self.frames]
        c.caught = list(self.caught)
        c.pending = self.pending
        c.dead = self.dead
        return c


class State:
    def __init__(self, mach):
        self.m = mach
        self.mem = {}
        self.regions = {}
        self.nrid = 1
        self.ctxs = {}
        self.cur = None
        self.pc = []
        self.g = None          # ghost state (env.Ghost)
        self.stop = None       # control point reached
        self.choices = []      # environment choices on this path (for reports/replay)
        self.written = set()   # region ids written since the segment started
        self.steps = 0
        self.dead = False
        self.calls = []        # demangled names called during the segment (diagnostics)

    def clone(self):
        s = State.__new__(State)
        s.m = self.m
        s.mem = dict(self.mem)
        s.regions = {}
        for k, r in self.regions.items():
            q = Region.__new__(Region)
            q.rid, q.kind, q.size, q.alive, q.name, q.ctx, q.const, q.align, q.guard = (
                r.rid, r.kind, r.size, r.alive, r.name, r.ctx, r.const, r.align, r.guard)
            s.regions[k] = q
        s.nrid = self.nrid
        s.ctxs = {k: c.copy() for k, c in self.ctxs.items()}
        s.cur = self.cur
        s.pc = list(self.pc)
        s.g = self.g.clone()
        s.stop = self.stop
        s.choices = list(self.choices)
        s.written = set(self.written)
        s.steps = self.steps
        s.dead = False
        s.calls = list(self.calls)
        return s

    # regions ---------------------------------------------------------------
    def new_region(self, kind, size, name, ctx=None):
        rid = self.nrid
        self.nrid += 1
        self.regions[rid] = Region(rid, kind, size, name, ctx)
        return rid << SHIFT

    def kill_region(self, rid):
        r = self.regions.get(rid)
        if r is None:
            return
        r.alive = False
        base = rid << SHIFT
        top = base + (1 << SHIFT)
        if r.size <= 256:
            mem = self.mem
            for a in range(base, base + r.size):
                mem.pop(a, None)
        else:
            for a in [a for a in self.mem if base <= a < top]:
                del self.mem[a]

    def ctx(self):
        return self.ctxs[self.cur]

    def top(self):
        return self.ctxs[self.cur].frames[-1]

    # memory ------------------------------------------------------------------
    def at(self, addr):
        """The cell address for a pointer; a pointer into a stack of unknown
        address is resolved against the symbolic address it is an offset of."""
        if is_sym(addr) and z3.is_bv(addr) and addr.size() == 64:
            a = self.m.env.anchor(self, addr, True)
            if a is not None:
                return a
        return addr

    def check(self, addr, n, write):
        if is_sym(addr):
            if self.m.env.stack_of(self, addr) is not None:
                self.m.fail(self, "mem.use-after-lifetime", "access to a stack that was released")
                raise PathEnd
            raise EngineError("symbolic address %s" % addr)
        if addr is UNDEF:
            self.m.fail(self, "mem.indeterminate-pointer", "access through an indeterminate pointer")
            raise PathEnd
        r = self.regions.get(addr >> SHIFT) or self.m.cregions.get(addr >> SHIFT)
        if r is None:
            self.m.fail(self, "mem.null-or-wild", "%s through null/wild pointer %#x" % ("write" if write else "read", addr))
            raise PathEnd
        off = addr & OFFM
        if not r.alive:
            self.m.fail(self, "mem.use-after-lifetime", "%s of %d bytes in dead %s %s+%d" % ("write" if write else "read", n, r.kind, r.name, off))
            raise PathEnd
        if r.kind == "anchor":
            self.m.env.in_stack(self, r, off, n)
        if off + n > r.size:
            self.m.fail(self, "mem.out-of-bounds", "%s of %d bytes outside %s %s+%d" % ("write" if write else "read", n, r.kind, r.name, off))
            raise PathEnd
        if off < r.guard:
            self.m.fail(self, "guard.untouched", "%s of %d bytes in the guard page of the stack" % ("write" if write else "read", n))
            raise PathEnd
        if write:
            if r.const:
                self.m.fail(self, "mem.write-to-const", "write to constant %s" % r.name)
                raise PathEnd
            self.written.add(r.rid)
        return r

    def load_raw(self, addr, n):
        mem = self.m.cmem if (addr >> SHIFT) in self.m.cregions else self.mem
        c = mem.get(addr)
        if c is not None and c[0] == n:
            return c[1]
        # byte reconstruction
        bs = []
        for a in range(addr, addr + n):
            bs.append(self.byte(a))
        if any(b is UNDEF for b in bs):
            if all(b is UNDEF for b in bs):
                return UNDEF
            return UNDEF
        if all(isinstance(b, int) for b in bs):
            v = 0
            for i, b in enumerate(bs):
                v |= b << (8 * i)
            return v
        bs = [b if is_sym(b) else z3.BitVecVal(b, 8) for b in bs]
        return z3.simplify(z3.Concat(*reversed(bs))) if n > 1 else bs[0]

    def byte(self, a):
        mem = self.m.cmem if (a >> SHIFT) in self.m.cregions else self.mem
        for back in range(0, 16):
            c = mem.get(a - back)
            if c is not None:
                if c[0] > back:
                    v = c[1]
                    if v is UNDEF:
                        return UNDEF
                    if isinstance(v, int):
                        return (v >> (8 * back)) & 255
                    return z3.simplify(z3.Extract(8 * back + 7, 8 * back, v))
                return UNDEF
        return UNDEF

    def store_raw(self, addr, n, v):
        mem = self.mem
        c = mem.get(addr)
        if c is not None and c[0] == n:
            mem[addr] = (n, v)
            return
        # drop/split overlapping cells
        for a in range(addr - 15, addr + n):
            c = mem.get(a)
            if c is None or a + c[0] <= addr:
                continue
            if a >= addr and a + c[0] <= addr + n:
                del mem[a]
                continue
            bs = [(x, self.byte(x)) for x in range(a, a + c[0]) if x < addr or x >= addr + n]
            del mem[a]
            for x, b in bs:
                if b is not UNDEF:
                    mem[x] = (1, b)
        mem[addr] = (n, v)

    def clear(self, addr, n):
        for a in range(addr - 15, addr + n):
            c = self.mem.get(a)
            if c is None or a + c[0] <= addr:
                continue
            if a >= addr and a + c[0] <= addr + n:
                del self.mem[a]
            else:
                bs = [(x, self.byte(x)) for x in range(a, a + c[0]) if x < addr or x >= addr + n]
                del self.mem[a]
                for x, b in bs:
                    if b is not UNDEF:
                        self.mem[x] = (1, b)

    def cells(self, addr, n):
        out = []
        mem = self.m.cmem if (addr >> SHIFT) in self.m.cregions else self.mem
        if n > 4 * len(mem):
            ks = sorted(a for a in mem if addr <= a < addr + n)
        else:
            ks = [a for a in range(addr, addr + n) if a in mem]
        for a in ks:
            out.append((a - addr,) + mem[a])
        return out

    def load(self, addr, ty):
        k = ty[0]
        if is_sym(addr):
            addr = self.at(addr)
        if k == "i":
            w = ty[1]
            n = (w + 7) // 8
            n = 1 if n == 1 else (2 if n == 2 else (4 if n <= 4 else (8 if n <= 8 else 16)))
            self.check(addr, n, False)
            v = self.load_raw(addr, n)
            if w != 8 * n:
                v = self.trunc(v, 8 * n, w)
            return v
        if k == "p":
            self.check(addr, 8, False)
            return self.load_raw(addr, 8)
        if k == "f":
            self.check(addr, ty[1] // 8, False)
            return self.load_raw(addr, ty[1] // 8)
        if k == "s":
            return tuple(self.load(addr + o, t) for t, o in zip(ty[1], ty[2]))
        if k == "a" or k == "vec":
            return tuple(self.load(addr + i * ty[3], ty[2]) for i in range(ty[1]))
        raise EngineError("load of type %r" % (ty,))

    def store(self, addr, ty, v):
        k = ty[0]
        if is_sym(addr):
            addr = self.at(addr)
        if k == "i":
            w = ty[1]
            n = (w + 7) // 8
            n = 1 if n == 1 else (2 if n == 2 else (4 if n <= 4 else (8 if n <= 8 else 16)))
            self.check(addr, n, True)
            if w != 8 * n:
                v = self.zext(v, w, 8 * n)
            self.store_raw(addr, n, v)
            return
        if k == "p":
            self.check(addr, 8, True)
            self.store_raw(addr, 8, v)
            return
        if k == "f":
            self.check(addr, ty[1] // 8, True)
            self.store_raw(addr, ty[1] // 8, v)
            return
        if k == "s":
            if v is UNDEF:
                v = [UNDEF] * len(ty[1])
            for t, o, x in zip(ty[1], ty[2], v):
                self.store(addr + o, t, x)
            return
        if k == "a" or k == "vec":
            if v is UNDEF:
                v = [UNDEF] * ty[1]
            for i in range(ty[1]):
                self.store(addr + i * ty[3], ty[2], v[i])
            return
        raise EngineError("store of type %r" % (ty,))

    @staticmethod
    def trunc(v, w0, w1):
        if v is UNDEF:
            return UNDEF
        if isinstance(v, int):
            return v & MASK[w1]
        if w1 == 1:
            return z3.simplify(z3.Extract(0, 0, v) == 1)
        return z3.simplify(z3.Extract(w1 - 1, 0, v))

    @staticmethod
    def zext(v, w0, w1):
        if v is UNDEF or isinstance(v, int):
            return v
        if z3.is_bool(v):
            return z3.If(v, z3.BitVecVal(1, w1), z3.BitVecVal(0, w1))
        return z3.simplify(z3.ZeroExt(w1 - w0, v))

    def memcpy(self, d, s, n):
        if n == 0:
            return
        d, s = self.at(d), self.at(s)
        self.check(s, n, False)
        self.check(d, n, True)
        cs = self.cells(s, n)
        # cells that straddle the window are split
        if any(o + c > n for o, c, _ in cs) or (s not in self.mem and self.byte(s) is not UNDEF):
            cs = [(i, 1, self.byte(s + i)) for i in range(n)]
            cs = [c for c in cs if c[2] is not UNDEF]
        self.clear(d, n)
        for o, c, v in cs:
            self.mem[d + o] = (c, v)

    def memset(self, d, b, n):
        if n == 0:
            return
        d = self.at(d)
        self.check(d, n, True)
        self.clear(d, n)
        o = 0
        while o < n:
            c = 8 if n - o >= 8 and (d + o) % 8 == 0 else (4 if n - o >= 4 and (d + o) % 4 == 0 else 1)
            if isinstance(b, int):
                v = int.from_bytes(bytes([b & 255]) * c, "little")
            else:
                v = UNDEF
            self.mem[d + o] = (c, v)
            o += c


class Machine:
    """Executes one module (one instantiation set, one language standard)."""

    MAXSTEPS = 200000

    def __init__(self, mod, env):
        self.mod = mod
        self.env = env
        self.dem = mod.dem
        env.attach(self)
        self.gaddr = {}
        self.faddr = {}
        self.fname = {}
        self.results = None
        self.solver_time = 0.0
        self.solver_calls = 0
        self._ginit = None
        self.covered = {}
        self._proved = {}

    # obligations ----------------------------------------------------------
    def fail(self, st, name, detail):
        self.results.failed(st, name, detail)

    # globals ----------------------------------------------------------------
    def init_state(self, st, prefix=None):
        """Lays out functions and globals in fixed regions; of the variables
        only those that the functions with this prefix can reach."""
        self.cmem, self.cregions = {}, {}
        from . import llvm as L
        fr = 0x7F0000
        for i, n in enumerate(sorted(self.mod.funcs)):
            a = (fr << SHIFT) + 16 * (i + 1)
            self.faddr[n] = a
            self.fname[a] = n
        for n, t in self.mod.alias.items():
            if t in self.faddr:
                self.faddr[n] = self.faddr[t]
        gl = 0x700000
        todo = []
        for i, n in enumerate(sorted(self.mod.globals)):
            g = self.mod.globals[n]
            rid = gl + i
            init = L.get_init(g)
            self.gaddr[n] = rid << SHIFT
            if init and prefix and not L.is_const_gl(g) and not any(u.startswith(prefix) for u in self.mod.users(n)):
                continue
            try:
                size = self.mod.size(L.gl_vty(g))
            except Exception:
                size = 8
            r = Region(rid, "global", max(size, 1), n)
            st.regions[rid] = r
            if init:
                todo.append((rid, L.is_const_gl(g), init, self.mod.ty(L.gl_vty(g)), n))
        self.mutable_globals = []
        for rid, const, init, ty, n in todo:
            if n.startswith(("_ZTI", "_ZTS", "_ZTV", "llvm.")):
                continue
            try:
                v = self.const_val(st, self.mod.opnd(init), ty)
                st.store(rid << SHIFT, ty, v)
            except EngineError:
                pass
            if const:
                # constants are shared by all states
                r = st.regions.pop(rid)
                r.const = True
                base = rid << SHIFT
                for a in [a for a in st.mem if a >> SHIFT == rid]:
                    self.cmem[a] = st.mem.pop(a)
                self.cregions[rid] = r
            else:
                self.mutable_globals.append((rid, ty, n))
        st.written = set()

    def const_val(self, st, o, ty):
        k = o[0]
        if k == "zero":
            return self.zero(ty)
        if k == "agg":
            if ty[0] == "s":
                return tuple(self.const_val(st, x, t) for x, t in zip(o[1], ty[1]))
            return tuple(self.const_val(st, x, ty[2]) for x in o[1])
        if k == "c" and ty[0] in ("s", "a"):
            return self.zero(ty)
        return self.ev(st, None, o)

    def zero(self, ty):
        if ty[0] == "s":
            return tuple(self.zero(t) for t in ty[1])
        if ty[0] in ("a", "vec"):
            return tuple(self.zero(ty[2]) for _ in range(ty[1]))
        return 0

    # evaluation -------------------------------------------------------------
    def ev(self, st, fr, o):
        k = o[0]
        if k == "l":
            try:
                return fr.regs[o[1]]
            except KeyError:
                raise EngineError("unset register")
        if k == "c":
            return o[1]
        if k == "g":
            a = self.gaddr.get(o[1])
            if a is None:
                raise EngineError("unknown global " + o[1])
            return a
        if k == "f":
            return self.faddr[o[1]]
        if k == "undef":
            return self.undef(o[1])
        if k == "zero":
            return self.zero(o[1])
        if k == "agg":
            return tuple(self.ev(st, fr, x) for x in o[1])
        if k == "ce_gep":
            return self.gep(st, fr, o[1], o[2], o[3])
        if k == "ce_bin":
            return self.bin(st, o[1], self.ev(st, fr, o[2]), self.ev(st, fr, o[3]), o[4][1])
        if k == "meta":
            return None
        raise EngineError("operand %r" % (o,))

    def undef(self, ty):
        if ty[0] == "s":
            return tuple(self.undef(t) for t in ty[1])
        if ty[0] in ("a", "vec"):
            return tuple(self.undef(ty[2]) for _ in range(ty[1]))
        return UNDEF

    def gep(self, st, fr, base, off, dyn):
        b = self.ev(st, fr, base)
        if b is UNDEF:
            return UNDEF
        if off:
            b = (b + off) & MASK[64] if isinstance(b, int) else z3.simplify(b + off)
        for o, w, sc in dyn:
            i = self.ev(st, fr, o)
            if i is UNDEF:
                return UNDEF
            if isinstance(i, int):
                if i >> (w - 1) & 1:
                    i -= 1 << w
                d = i * sc
                b = (b + d) & MASK[64] if isinstance(b, int) else z3.simplify(b + d)
            else:
                if w < 64:
                    i = z3.SignExt(64 - w, i)
                bb = b if is_sym(b) else z3.BitVecVal(b, 64)
                b = z3.simplify(bb + i * sc)
        return b

    # Numeric value of an address: regions lie at arbitrary, suitably aligned places.
    OPAQUE = ("user", "local", "exn", "heap")

    def is_address(self, st, v):
        r = st.regions.get(v >> SHIFT) if isinstance(v, int) and v >> SHIFT else None
        return r if r is not None and r.kind in self.OPAQUE else None

    def assume(self, st, c):
        if not any(c.eq(x) for x in st.pc):
            st.pc.append(c)

    def base(self, st, r):
        b = z3.BitVec("base!%d" % r.rid, 64)
        self.assume(st, z3.And(z3.UGE(b, 4096), z3.ULE(b, 1 << 47), b & (r.align - 1) == 0))
        return b

    def numeric(self, st, v):
        r = self.is_address(st, v)
        return self.base(st, r) + (v & OFFM) if r is not None else v if is_sym(v) else z3.BitVecVal(v, 64)

    def opaque(self, st, op, a, b):
        """Arithmetic that depends on where an object lies in memory?"""
        ra, rb = self.is_address(st, a), self.is_address(st, b)
        if ra is None and rb is None:
            return False
        if op in ("add", "or"):
            return False
        if op == "sub":
            return ra is not None and rb is not None and ra.rid != rb.rid
        if op == "and" and (ra is None or rb is None):
            r, v, m = (ra, a, b) if ra is not None else (rb, b, a)
            k = r.align - 1
            return not (isinstance(m, int) and (m & ~k == 0 or (m ^ MASK[64]) & ~k == 0))
        return True

    def bin(self, st, op, a, b, w):
        if w == 64 and a is not UNDEF and b is not UNDEF and self.opaque(st, op, a, b):
            a, b = self.numeric(st, a), self.numeric(st, b)
        if a is UNDEF or b is UNDEF:
            if op == "and" and (a == 0 or b == 0):
                return 0
            return UNDEF
        if isinstance(a, int) and isinstance(b, int):
            m = MASK[w]
            if op == "add":
                return (a + b) & m
            if op == "sub":
                return (a - b) & m
            if op == "and":
                return a & b
            if op == "or":
                return a | b
            if op == "xor":
                return a ^ b
            if op == "shl":
                return (a << b) & m
            if op == "lshr":
                return a >> b
            if op == "mul":
                return (a * b) & m
            if op == "ashr":
                s = a - (1 << w) if a >> (w - 1) & 1 else a
                return (s >> b) & m
            if op in ("udiv", "urem"):
                if b == 0:
                    self.fail(st, "arith.division-by-zero", op)
                    raise PathEnd
                return a // b if op == "udiv" else a % b
            sa = a - (1 << w) if a >> (w - 1) & 1 else a
            sb = b - (1 << w) if b >> (w - 1) & 1 else b
            if sb == 0:
                self.fail(st, "arith.division-by-zero", op)
                raise PathEnd
            q = abs(sa) // abs(sb)
            if (sa < 0) != (sb < 0):
                q = -q
            return (q if op == "sdiv" else sa - q * sb) & m
        if w == 1:
            a = a if z3.is_bool(a) else z3.BoolVal(bool(a))
            b = b if z3.is_bool(b) else z3.BoolVal(bool(b))
            f = {"and": z3.And, "or": z3.Or, "xor": z3.Xor}.get(op)
            if not f:
                raise EngineError("i1 " + op)
            return self.simp(f(a, b))
        a = a if is_sym(a) else z3.BitVecVal(a, w)
        b = b if is_sym(b) else z3.BitVecVal(b, w)
        f = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "and": lambda: a & b,
             "or": lambda: a | b, "xor": lambda: a ^ b, "shl": lambda: a << b, "lshr": lambda: z3.LShR(a, b),
             "ashr": lambda: a >> b, "udiv": lambda: z3.UDiv(a, b), "urem": lambda: z3.URem(a, b),
             "sdiv": lambda: a / b, "srem": lambda: z3.SRem(a, b)}[op]
        r = self.simp(f())
        if w == 64 and op not in ("add", "sub") and is_sym(r) and st.g.ssym:
            r = self.env.name_address(st, r)
        return r

    @staticmethod
    def simp(e):
        e = z3.simplify(e)
        if z3.is_bv_value(e):
            return e.as_long()
        if z3.is_true(e):
            return 1
        if z3.is_false(e):
            return 0
        return e

    def icmp(self, st, p, a, b, w):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if w == 64 and p not in ("eq", "ne"):
            ra, rb = self.is_address(st, a), self.is_address(st, b)
            if ra is not None and rb is not None and ra.rid != rb.rid:
                x, y = self.base(st, ra), self.base(st, rb)
                self.assume(st, z3.Or(z3.UGE(x, y + rb.size), z3.UGE(y, x + ra.size)))
                a, b = self.numeric(st, a), self.numeric(st, b)
            elif ra is not None and b != 0 or rb is not None and a != 0:
                if ra is None or rb is None:
                    a, b = self.numeric(st, a), self.numeric(st, b)
        if isinstance(a, int) and isinstance(b, int):
            if p == "eq":
                return int(a == b)
            if p == "ne":
                return int(a != b)
            if p[0] == "s":
                a = a - (1 << w) if a >> (w - 1) & 1 else a
                b = b - (1 << w) if b >> (w - 1) & 1 else b
            c = p[1:]
            return int({"gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b}[c])
        if w == 1:
            a = a if z3.is_bool(a) else z3.BoolVal(bool(a))
            b = b if z3.is_bool(b) else z3.BoolVal(bool(b))
            return self.simp(a == b if p == "eq" else z3.Xor(a, b))
        if w == 64 and st.g.ssym and p in ("eq", "ne"):
            # the stack shares no address with any other object
            x, y = (a, b) if is_sym(a) else (b, a)
            if isinstance(y, int) and y >> SHIFT and self.env.stack_of(st, x) is not None and self.env.pointer(st, x):
                return int(p == "ne")
        a = a if is_sym(a) else z3.BitVecVal(a, w)
        b = b if is_sym(b) else z3.BitVecVal(b, w)
        f = {"eq": lambda: a == b, "ne": lambda: a != b, "ugt": lambda: z3.UGT(a, b), "uge": lambda: z3.UGE(a, b),
             "ult": lambda: z3.ULT(a, b), "ule": lambda: z3.ULE(a, b), "sgt": lambda: a > b, "sge": lambda: a >= b,
             "slt": lambda: a < b, "sle": lambda: a <= b}[p]
        return self.simp(f())

    # solver -----------------------------------------------------------------
    def equal(self, st, x, y):
        """x == y in every case."""
        if isinstance(x, int) and isinstance(y, int):
            return x == y
        if x is UNDEF or y is UNDEF or x is None or y is None:
            return False
        e = self.simp(x == y)
        if isinstance(e, int):
            return bool(e)
        return self.proved(st, e)

    @staticmethod
    def path(st):
        """Everything known on the current path."""
        inv = st.g.sinv
        return inv + [c for c in st.pc if not any(c is d for d in inv)] if inv else st.pc

    def proved(self, st, e):
        """e holds on the current path."""
        if isinstance(e, bool):
            return e
        e = self.simp(e)
        if isinstance(e, int):
            return bool(e)
        p = self.path(st)
        k = (e.get_id(),) + tuple(c.get_id() for c in p)
        r = self._proved.get(k)
        if r is None:
            r = self._proved[k] = (not self.sat(p + [z3.Not(e)]), e, p)
        return r[0]

    def sat(self, fs):
        import time
        s = z3.Solver()
        s.set("timeout", 60000)
        s.add(*fs)
        t = time.time()
        r = s.check()
        self.solver_time += time.time() - t
        self.solver_calls += 1
        if r == z3.unknown:
            raise EngineError("solver gave unknown")
        return r == z3.sat

    def branch(self, st, cond):
        """[(bool, state)] feasible continuations for an i1 value."""
        if cond is UNDEF:
            self.fail(st, "mem.branch-on-indeterminate", "control depends on an indeterminate value")
            raise PathEnd
        if isinstance(cond, int):
            return [(bool(cond), st)]
        if z3.is_bv(cond):
            cond = cond == 1
        if st.g.ssym and self.env.stack_of(st, cond) is not None:
            t = not self.proved(st, z3.Not(cond))
            f = not self.proved(st, cond)
        else:
            t = self.sat(self.path(st) + [cond])
            f = self.sat(self.path(st) + [z3.Not(cond)])
        if t and f:
            s2 = st.clone()
            s2.pc.append(z3.Not(cond))
            st.pc.append(cond)
            return [(True, st), (False, s2)]
        if t:
            return [(True, st)]
        if f:
            return [(False, st)]
        raise PathEnd

    # running ----------------------------------------------------------------
    def push_call(self, st, name, args, call=None, cid=None):
        fn = self.mod.funcs[self.mod.alias.get(name, name)]
        fn.parse()
        if fn.decl:
            raise EngineError("call of undefined " + self.dem.get(name, name))
        fr = Frame(fn)
        fr.blk = fn.entry
        fr.call = call
        for p, a in zip(fn.params, args):
            fr.regs[p] = a
        st.ctxs[st.cur if cid is None else cid].frames.append(fr)
        self.covered[name] = self.covered.get(name, 0) + 1
        return fr

    def run(self, st):
        """Runs st to the next control points; returns the list of stopped
        states (paths that ended in a fatal failure are recorded, dropped)."""
        work = [st]
        done = []
        while work:
            s = work.pop()
            try:
                while s.stop is None and not s.dead:
                    more = self.step(s)
                    if more:
                        work.extend(more)
                if s.stop is not None:
                    done.append(s)
            except PathEnd:
                pass
        return done

    def step(self, st):
        ctx = st.ctxs[st.cur]
        fr = ctx.frames[-1]
        if fr.fn is None:
            raise EngineError("stepping a client frame")
        st.steps += 1
        if st.steps > self.MAXSTEPS:
            raise EngineError("step limit")
        ins = fr.fn.blocks[fr.blk][fr.ix]
        op = ins[0]
        fr.ix += 1
        if op == "alloca":
            n = self.ev(st, fr, ins[3])
            a = st.new_region("local", max(1, ins[2] * n), fr.fn.name, st.cur)
            st.regions[a >> SHIFT].align = ins[4]
            fr.allocas.append(a >> SHIFT)
            fr.regs[ins[1]] = a
        elif op == "load":
            a = self.ev(st, fr, ins[3])
            if is_sym(a):
                self.env.aligned(st, a, ins[4])
            fr.regs[ins[1]] = st.load(a, ins[2])
        elif op == "store":
            a = self.ev(st, fr, ins[3])
            if is_sym(a):
                self.env.aligned(st, a, ins[4])
            st.store(a, ins[1], self.ev(st, fr, ins[2]))
        elif op == "gep":
            fr.regs[ins[1]] = self.gep(st, fr, ins[2], ins[3], ins[4])
        elif op == "call":
            return self.do_call(st, fr, ins)
        elif op == "br":
            self.goto(st, fr, ins[1])
        elif op == "brc":
            c = self.ev(st, fr, ins[1])
            if isinstance(c, int):
                self.goto(st, fr, ins[2] if c else ins[3])
            else:
                outs = self.branch(st, c)
                for b, s in outs:
                    self.goto(s, s.top(), ins[2] if b else ins[3])
                return [s for _, s in outs if s is not st]
        elif op == "ret":
            self.do_ret(st, ctx, fr, None if ins[1] is None else self.ev(st, fr, ins[1]))
        elif op == "bin":
            fr.regs[ins[1]] = self.bin(st, ins[2], self.ev(st, fr, ins[3]), self.ev(st, fr, ins[4]), ins[5][1])
        elif op == "icmp":
            w = ins[5][1] if ins[5][0] == "i" else 64
            fr.regs[ins[1]] = self.icmp(st, ins[2], self.ev(st, fr, ins[3]), self.ev(st, fr, ins[4]), w)
        elif op == "cast":
            v = self.ev(st, fr, ins[3])
            k = ins[2]
            if k == "trunc":
                if ins[4][1] == 64 and self.is_address(st, v) is not None:
                    v = self.numeric(st, v)
                v = st.trunc(v, ins[4][1], ins[5][1])
                if is_sym(v):
                    v = self.simp(v)
            elif k == "zext":
                v = st.zext(v, ins[4][1], ins[5][1])
            elif k == "sext":
                w0, w1 = ins[4][1], ins[5][1]
                if isinstance(v, int):
                    if v >> (w0 - 1) & 1:
                        v = (v - (1 << w0)) & MASK[w1]
                elif v is not UNDEF:
                    v = z3.If(v, z3.BitVecVal(MASK[w1], w1), z3.BitVecVal(0, w1)) if z3.is_bool(v) else z3.SignExt(w1 - w0, v)
            fr.regs[ins[1]] = v
        elif op == "landingpad":
            raise EngineError("landingpad reached by fallthrough")
        elif op == "resume":
            v = self.ev(st, fr, ins[1])
            return self.unwind(st, self.env.exn_of(st, v[0]))
        elif op == "phi":
            fr.regs[ins[1]] = self.ev(st, fr, ins[2][fr.prev])
        elif op == "select":
            c = self.ev(st, fr, ins[2])
            if isinstance(c, int):
                fr.regs[ins[1]] = self.ev(st, fr, ins[3] if c else ins[4])
            else:
                outs = self.branch(st, c)
                for b, s in outs:
                    f2 = s.top()
                    f2.regs[ins[1]] = self.ev(s, f2, ins[3] if b else ins[4])
                return [s for _, s in outs if s is not st]
        elif op == "extractvalue":
            v = self.ev(st, fr, ins[2])
            for i in ins[3]:
                v = UNDEF if v is UNDEF else v[i]
            fr.regs[ins[1]] = v
        elif op == "insertvalue":
            v = self.ev(st, fr, ins[2])
            fr.regs[ins[1]] = self.insert(v, self.ev(st, fr, ins[3]), ins[4], ins[5])
        elif op == "unreachable":
            self.fail(st, "ctl.unreachable", "unreachable code reached in %s" % self.dem.get(fr.fn.name, fr.fn.name))
            raise PathEnd
        elif op == "switch":
            v = self.ev(st, fr, ins[1])
            if isinstance(v, int):
                for c, b in ins[4]:
                    if c == v:
                        self.goto(st, fr, b)
                        break
                else:
                    self.goto(st, fr, ins[3])
            elif v is UNDEF:
                self.branch(st, UNDEF)
            else:
                w = ins[2][1]
                outs = []
                rest = []
                for c, b in ins[4]:
                    e = v == z3.BitVecVal(c, w)
                    if self.sat(self.path(st) + rest + [e]):
                        s2 = st.clone()
                        s2.pc += rest + [e]
                        self.goto(s2, s2.top(), b)
                        outs.append(s2)
                    rest.append(z3.Not(e))
                if self.sat(self.path(st) + rest):
                    s2 = st.clone()
                    s2.pc += rest
                    self.goto(s2, s2.top(), ins[3])
                    outs.append(s2)
                self.kill_path(st)
                return outs
        elif op == "freeze":
            v = self.ev(st, fr, ins[2])
            fr.regs[ins[1]] = v
        elif op == "rmw":
            a = self.ev(st, fr, ins[3])
            old = st.load(a, ins[5])
            v = self.ev(st, fr, ins[4])
            w = ins[5][1] if ins[5][0] == "i" else 64
            k = ins[2]
            nv = {0: lambda: v, 1: lambda: self.bin(st, "add", old, v, w), 2: lambda: self.bin(st, "sub", old, v, w),
                  3: lambda: self.bin(st, "and", old, v, w), 5: lambda: self.bin(st, "or", old, v, w),
                  6: lambda: self.bin(st, "xor", old, v, w)}.get(k)
            if nv is None:
                raise EngineError("atomicrmw %d" % k)
            st.store(a, ins[5], nv())
            fr.regs[ins[1]] = old
        elif op == "nop":
            pass
        else:
            raise EngineError("instruction %r in %s" % (ins, self.dem.get(fr.fn.name)))
        return None

    @staticmethod
    def kill_path(st):
        st.dead = True

    def insert(self, v, x, ix, ty):
        if v is UNDEF:
            v = self.undef(ty)
        v = list(v)
        if len(ix) == 1:
            v[ix[0]] = x
        else:
            v[ix[0]] = self.insert(v[ix[0]], x, ix[1:], ty[1][ix[0]] if ty[0] == "s" else ty[2])
        return tuple(v)

    def goto(self, st, fr, blk):
        fr.prev = fr.blk
        fr.blk = blk
        fr.ix = 0
        # evaluate phis simultaneously
        ins = fr.fn.blocks[blk]
        if ins[0][0] == "phi":
            vals = []
            i = 0
            while ins[i][0] == "phi":
                vals.append((ins[i][1], self.ev(st, fr, ins[i][2][fr.prev])))
                i += 1
            for r, v in vals:
                fr.regs[r] = v
            fr.ix = i

    def ret_to(self, st, ctx, call, v):
        """Delivers v as the result of `call` in the top frame of ctx."""
        fr = ctx.frames[-1]
        if fr.fn is None:
            st.stop = ("ret", v)
            st.cur = ctx.cid
            return
        if call is None:
            raise EngineError("return without call site")
        if call[5][0] != "v":
            fr.regs[call[1]] = v
        if call[6] is not None:
            self.goto(st, fr, call[6])

    def do_ret(self, st, ctx, fr, v):
        ctx.frames.pop()
        self.pop_frame(st, fr)
        self.ret_to(st, ctx, fr.call, v)

    def pop_frame(self, st, fr):
        if fr.allocas:
            self.env.frame_dies(st, fr)
            for rid in fr.allocas:
                st.kill_region(rid)

    def do_call(self, st, fr, ins):
        callee = ins[2]
        args = [self.ev(st, fr, a) for a, _ in ins[3]]
        if callee[0] == "f":
            name = callee[1]
        elif callee[0] == "asm":
            raise EngineError("inline asm")
        else:
            a = self.ev(st, fr, callee)
            if a is UNDEF or a not in self.fname:
                self.fail(st, "mem.wild-call", "call through %r" % (a,))
                raise PathEnd
            name = self.fname[a]
        name = self.mod.alias.get(name, name)
        return self.call_named(st, fr, ins, name, args)

    def call_named(self, st, fr, ins, name, args):
        h = self.env.handler(name)
        if h is not None:
            return h(st, fr, ins, args, name)
        fn = self.mod.funcs[name]
        if fn.decl:
            raise EngineError("no contract for external function %s" % self.dem.get(name, name))
        return self.call_body(st, ins, name, args)

    def call_body(self, st, ins, name, args):
        pre = self.env.precondition(name)
        if pre is not None:
            pre(st, args)
        # byval arguments get their own copy
        extra = []
        for i, n in enumerate(ins[4]):
            if n:
                a = st.new_region("local", n, name + ".byval", st.cur)
                st.memcpy(a, args[i], n)
                args[i] = a
                extra.append(a >> SHIFT)
        f = self.push_call(st, name, args, ins)
        f.allocas.extend(extra)
        return None

    def result(self, st, ins, v=None):
        """An environment function returns normally to the current frame."""
        self.ret_to(st, st.ctx(), ins, v)

    # exceptions ---------------------------------------------------------------
    def unwind(self, st, exn):
        """Propagates exn out of the current call in the top frame."""
        ctx = st.ctx()
        # the top frame is the one whose call instruction throws
        return self.unwind_from(st, ctx, exn)

    def throw_at(self, st, ctx, call, exn):
        """`call`, in the top frame of ctx, exits with exn."""
        while True:
            fr = ctx.frames[-1]
            if fr.fn is None:
                st.stop = ("throw", exn)
                st.cur = ctx.cid
                return None
            if call is not None and call[7] is not None:
                return self.landing(st, ctx, fr, call[7], exn)
            if call is not None and call[8] and call[2][0] == "f":
                pass
            if fr.fn.nounwind:
                self.fail(st, "exn.terminate", "exception %s leaves noexcept function %s" % (
                    self.env.exn_name(st, exn), self.dem.get(fr.fn.name, fr.fn.name)))
                raise PathEnd
            ctx.frames.pop()
            self.pop_frame(st, fr)
            call = fr.call
            if not ctx.frames:
                self.fail(st, "exn.terminate", "exception leaves the coroutine's entry function")
                raise PathEnd

    def unwind_from(self, st, ctx, exn):
        # 'resume' instruction: leave the current frame
        fr = ctx.frames[-1]
        if fr.fn.nounwind:
            self.fail(st, "exn.terminate", "exception leaves noexcept function " + self.dem.get(fr.fn.name, fr.fn.name))
            raise PathEnd
        ctx.frames.pop()
        self.pop_frame(st, fr)
        if not ctx.frames:
            self.fail(st, "exn.terminate", "exception leaves the coroutine's entry function")
            raise PathEnd
        return self.throw_at(st, ctx, fr.call, exn)

    def landing(self, st, ctx, fr, blk, exn):
        """Enters the landing pad if a clause matches or it has a cleanup;
        forks while the (user-defined) type of the exception is open."""
        fr.prev = fr.blk
        fr.blk = blk
        fr.ix = 0
        self.goto_pad(st, fr, blk)
        ins = fr.fn.blocks[blk][fr.ix]
        if ins[0] != "landingpad":
            raise EngineError("landing block without landingpad")
        forks = []
        sel = None
        for kind, c in ins[2]:
            if kind == "filter":
                elems = c[1] if c[0] == "agg" else []
                # dynamic exception specification: throw() is the empty filter
                if not elems:
                    self.fail(st, "exn.terminate", "exception violates an empty exception specification in " + self.dem.get(fr.fn.name, fr.fn.name))
                    raise PathEnd
                raise EngineError("exception filter")
            if c == ("c", 0):
                sel = (0, None)
                break
            ti = c[1] if c[0] == "g" else None
            if ti is None:
                raise EngineError("catch clause %r" % (c,))
            m = self.env.exn_is(st, exn, ti)
            if m is None:
                s2 = st.clone()
                self.env.exn_assume(s2, exn, ti, False)
                self.env.exn_assume(st, exn, ti, True)
                # re-dispatch the clone from the same pad
                c2 = s2.ctxs[ctx.cid]
                more = self.landing(s2, c2, c2.frames[-1], blk, exn)
                forks.append(s2)
                if more:
                    forks.extend(more)
                m = True
            if m:
                sel = (self.env.selector(ti), ti)
                break
        if sel is None:
            if not ins[3]:
                # no clause applies: the exception continues to the caller
                more = self.skip_frame(st, ctx, fr, exn)
                return forks + (more or [])
            sel = (0, None)
        fr.ix += 1
        fr.regs[ins[1]] = (self.env.exn_header(st, exn), sel[0])
        st.cur = ctx.cid
        return forks or None

    def skip_frame(self, st, ctx, fr, exn):
        if fr.fn.nounwind:
            self.fail(st, "exn.terminate", "exception leaves noexcept function " + self.dem.get(fr.fn.name, fr.fn.name))
            raise PathEnd
        ctx.frames.pop()
        self.pop_frame(st, fr)
        if not ctx.frames:
            self.fail(st, "exn.terminate", "exception leaves the coroutine's entry function")
            raise PathEnd
        return self.throw_at(st, ctx, fr.call, exn)

    def goto_pad(self, st, fr, blk):
        ins = fr.fn.blocks[blk]
        i = 0
        while ins[i][0] == "phi":
            fr.regs[ins[i][1]] = self.ev(st, fr, ins[i][2][fr.prev])
            i += 1
        fr.ix = i

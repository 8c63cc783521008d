"""Reads LLVM bitcode (produced by clang from /repo's headers on every run)
through the LLVM C API and turns it, function by function, into plain Python
tuples.  Nothing is dropped: an instruction this loader does not know becomes
an ('unsupported', text) instruction, which makes any path that reaches it an
engine error (never a pass)."""
import ctypes as C
import ctypes.util
import os
import subprocess

_CANDS = ["/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so.1",
          "/usr/lib/x86_64-linux-gnu/libLLVM-18.so", "libLLVM-18.so", "libLLVM-18.so.1"]


def _load():
    err = None
    for c in _CANDS:
        try:
            return C.CDLL(c)
        except OSError as e:
            err = e
    raise err


L = _load()
P = C.c_void_p


def _f(name, res, *args):
    fn = getattr(L, name)
    fn.restype = res
    fn.argtypes = list(args)
    return fn


ctx_create = _f("LLVMContextCreate", P)
memfile = _f("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
parse_bc = _f("LLVMParseIRInContext", C.c_int, P, P, C.POINTER(P), C.POINTER(C.c_char_p))
dl_get = _f("LLVMGetModuleDataLayout", P, P)
first_fn = _f("LLVMGetFirstFunction", P, P)
next_fn = _f("LLVMGetNextFunction", P, P)
first_gl = _f("LLVMGetFirstGlobal", P, P)
next_gl = _f("LLVMGetNextGlobal", P, P)
first_alias = _f("LLVMGetFirstGlobalAlias", P, P)
next_alias = _f("LLVMGetNextGlobalAlias", P, P)
aliasee = _f("LLVMAliasGetAliasee", P, P)
get_init = _f("LLVMGetInitializer", P, P)
is_const_gl = _f("LLVMIsGlobalConstant", C.c_int, P)
is_tls = _f("LLVMIsThreadLocal", C.c_int, P)
gl_vty = _f("LLVMGlobalGetValueType", P, P)
name2 = _f("LLVMGetValueName2", C.c_char_p, P, C.POINTER(C.c_size_t))
is_decl = _f("LLVMIsDeclaration", C.c_int, P)
first_bb = _f("LLVMGetFirstBasicBlock", P, P)
next_bb = _f("LLVMGetNextBasicBlock", P, P)
first_i = _f("LLVMGetFirstInstruction", P, P)
next_i = _f("LLVMGetNextInstruction", P, P)
opcode = _f("LLVMGetInstructionOpcode", C.c_int, P)
nops = _f("LLVMGetNumOperands", C.c_int, P)
op_at = _f("LLVMGetOperand", P, P, C.c_uint)
typeof = _f("LLVMTypeOf", P, P)
tkind = _f("LLVMGetTypeKind", C.c_int, P)
int_w = _f("LLVMGetIntTypeWidth", C.c_uint, P)
vkind = _f("LLVMGetValueKind", C.c_int, P)
cint_z = _f("LLVMConstIntGetZExtValue", C.c_ulonglong, P)
nparams = _f("LLVMCountParams", C.c_uint, P)
param = _f("LLVMGetParam", P, P, C.c_uint)
icmp_pred = _f("LLVMGetICmpPredicate", C.c_int, P)
alloc_ty = _f("LLVMGetAllocatedType", P, P)
gep_ty = _f("LLVMGetGEPSourceElementType", P, P)
n_idx = _f("LLVMGetNumIndices", C.c_uint, P)
idxs = _f("LLVMGetIndices", C.POINTER(C.c_uint), P)
called = _f("LLVMGetCalledValue", P, P)
called_fty = _f("LLVMGetCalledFunctionType", P, P)
is_vararg = _f("LLVMIsFunctionVarArg", C.c_int, P)
nargs = _f("LLVMGetNumArgOperands", C.c_uint, P)
normal_dest = _f("LLVMGetNormalDest", P, P)
unwind_dest = _f("LLVMGetUnwindDest", P, P)
n_clauses = _f("LLVMGetNumClauses", C.c_uint, P)
clause = _f("LLVMGetClause", P, P, C.c_uint)
is_cleanup = _f("LLVMIsCleanup", C.c_int, P)
abi_size = _f("LLVMABISizeOfType", C.c_ulonglong, P, P)
abi_align = _f("LLVMABIAlignmentOfType", C.c_uint, P, P)
off_of = _f("LLVMOffsetOfElement", C.c_ulonglong, P, P, C.c_uint)
n_elems = _f("LLVMCountStructElementTypes", C.c_uint, P)
elem_ty = _f("LLVMStructGetTypeAtIndex", P, P, C.c_uint)
sub_ty = _f("LLVMGetElementType", P, P)
arr_len = _f("LLVMGetArrayLength2", C.c_ulonglong, P)
vec_len = _f("LLVMGetVectorSize", C.c_uint, P)
struct_name = _f("LLVMGetStructName", C.c_char_p, P)
print_ty = _f("LLVMPrintTypeToString", P, P)
print_v = _f("LLVMPrintValueToString", P, P)
get_align = _f("LLVMGetAlignment", C.c_uint, P)
val_as_bb = _f("LLVMValueAsBasicBlock", P, P)
bb_as_val = _f("LLVMBasicBlockAsValue", P, P)
n_inc = _f("LLVMCountIncoming", C.c_uint, P)
inc_v = _f("LLVMGetIncomingValue", P, P, C.c_uint)
inc_b = _f("LLVMGetIncomingBlock", P, P, C.c_uint)
attr_kind = _f("LLVMGetEnumAttributeKindForName", C.c_uint, C.c_char_p, C.c_size_t)
fn_attr = _f("LLVMGetEnumAttributeAtIndex", P, P, C.c_uint, C.c_uint)
cs_attr = _f("LLVMGetCallSiteEnumAttribute", P, P, C.c_uint, C.c_uint)
attr_ty = _f("LLVMGetTypeAttributeValue", P, P)
ce_op = _f("LLVMGetConstOpcode", C.c_int, P)
cda_elem = _f("LLVMGetElementAsConstant", P, P, C.c_uint)
agg_elem = _f("LLVMGetAggregateElement", P, P, C.c_uint)
cfp = _f("LLVMConstRealGetDouble", C.c_double, P, C.POINTER(C.c_int))
is_cond = _f("LLVMIsConditional", C.c_int, P)
successor = _f("LLVMGetSuccessor", P, P, C.c_uint)
n_succ = _f("LLVMGetNumSuccessors", C.c_uint, P)
fn_cc_ret = _f("LLVMGetReturnType", P, P)
get_fn_ty = _f("LLVMGlobalGetValueType", P, P)
rmw_op = _f("LLVMGetAtomicRMWBinOp", C.c_int, P)

K_NOUNWIND = attr_kind(b"nounwind", 8)
K_BYVAL = attr_kind(b"byval", 5)
K_NORETURN = attr_kind(b"noreturn", 8)

BINOPS = {8: "add", 10: "sub", 12: "mul", 14: "udiv", 15: "sdiv", 17: "urem", 18: "srem",
          20: "shl", 21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor"}
FBIN = {9: "fadd", 11: "fsub", 13: "fmul", 16: "fdiv"}
CASTS = {30: "trunc", 31: "zext", 32: "sext", 39: "ptrtoint", 40: "inttoptr", 41: "bitcast"}
PREDS = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}


def _s(p):
    return C.string_at(p).decode(errors="replace")


def vname(v):
    n = C.c_size_t()
    s = name2(v, C.byref(n))
    return s.decode() if s else ""


first_use = _f("LLVMGetFirstUse", P, P)
next_use = _f("LLVMGetNextUse", P, P)
user_of = _f("LLVMGetUser", P, P)
i_parent = _f("LLVMGetInstructionParent", P, P)
bb_parent = _f("LLVMGetBasicBlockParent", P, P)


class Ty:
    """('i',w) ('p',) ('v',) ('s',[ty],[off],size,name) ('a',n,ty,esize) ('f',bits)"""


class Func:
    __slots__ = ("name", "ref", "mod", "decl", "params", "blocks", "entry", "nounwind", "_parsed", "ret", "pbyval")

    def __init__(self, mod, ref, name):
        self.mod, self.ref, self.name = mod, ref, name
        self.decl = bool(is_decl(ref))
        self.nounwind = bool(fn_attr(ref, 0xFFFFFFFF, K_NOUNWIND))
        n = nparams(ref)
        self.params = [param(ref, i) for i in range(n)]
        self.pbyval = [bool(fn_attr(ref, i + 1, K_BYVAL)) for i in range(n)]
        self._parsed = False
        self.blocks = None

    def parse(self):
        if self._parsed:
            return
        self._parsed = True
        self.blocks = {}
        b = first_bb(self.ref)
        self.entry = b
        while b:
            insts = []
            i = first_i(b)
            while i:
                insts.append(self.mod.inst(i))
                i = next_i(i)
            self.blocks[b] = insts
            b = next_bb(b)


class Module:
    def __init__(self, path):
        self.cx = ctx_create()
        buf, msg, mod = P(), C.c_char_p(), P()
        if memfile(path.encode(), C.byref(buf), C.byref(msg)):
            raise RuntimeError("cannot read %s" % path)
        if parse_bc(self.cx, buf, C.byref(mod), C.byref(msg)):
            raise RuntimeError("cannot parse %s: %s" % (path, msg.value))
        self.m = mod
        self.dl = dl_get(mod)
        self._ty, self._users = {}, {}
        self.funcs, self.globals, self.alias = {}, {}, {}
        f = first_fn(mod)
        while f:
            n = vname(f)
            self.funcs[n] = Func(self, f, n)
            f = next_fn(f)
        g = first_gl(mod)
        while g:
            self.globals[vname(g)] = g
            g = next_gl(g)
        a = first_alias(mod)
        while a:
            self.alias[vname(a)] = vname(aliasee(a))
            a = next_alias(a)
        names = sorted(set(self.funcs) | set(self.alias))
        out = subprocess.run(["llvm-cxxfilt-18"], input="\n".join(names), text=True,
                             stdout=subprocess.PIPE, check=True).stdout.split("\n")
        self.dem = dict(zip(names, out))
        self.structs = {}

    def users(self, name):
        """Names of the functions from which the global can be reached: those
        that mention it or mention, directly or not, such a function."""
        r = self._users.get(name)
        if r is None:
            r, seen, todo = set(), set(), [self.globals[name]]
            while todo:
                v = todo.pop()
                u = first_use(v)
                while u:
                    w = user_of(u)
                    u = next_use(u)
                    if vkind(w) == 24:
                        w = bb_parent(i_parent(w))
                    if w in seen:
                        continue
                    seen.add(w)
                    if vkind(w) == 5:
                        r.add(vname(w))
                    todo.append(w)
            self._users[name] = r
        return r

    # types -------------------------------------------------------------
    def ty(self, t):
        r = self._ty.get(t)
        if r is not None:
            return r
        k = tkind(t)
        if k == 8:
            r = ("i", int_w(t))
        elif k == 12:
            r = ("p",)
        elif k == 0:
            r = ("v",)
        elif k == 3:
            r = ("f", 64)
        elif k == 2:
            r = ("f", 32)
        elif k == 10:
            n = n_elems(t)
            nm = struct_name(t)
            r = ("s", [self.ty(elem_ty(t, i)) for i in range(n)], [off_of(self.dl, t, i) for i in range(n)],
                 abi_size(self.dl, t), nm.decode() if nm else None)
            if r[4]:
                self.structs[r[4]] = r
        elif k == 11:
            e = sub_ty(t)
            r = ("a", arr_len(t), self.ty(e), abi_size(self.dl, e))
        elif k == 13:
            e = sub_ty(t)
            r = ("vec", vec_len(t), self.ty(e), abi_size(self.dl, e))
        else:
            r = ("?", _s(print_ty(t)))
        self._ty[t] = r
        return r

    def size(self, t):
        return abi_size(self.dl, t)

    # operands ------------------------------------------------------------
    def opnd(self, v):
        k = vkind(v)
        if k == 18:
            w = int_w(typeof(v))
            if w > 64:
                return ("unsupported", "wide int")
            return ("c", cint_z(v))
        if k in (20,):
            return ("c", 0)
        if k in (0, 24):
            return ("l", v)
        if k == 5:
            return ("f", vname(v))
        if k == 8:
            return ("g", vname(v))
        if k == 6:
            return self.opnd(aliasee(v))
        if k in (14, 25):
            return ("undef", self.ty(typeof(v)))
        if k == 10:
            o = ce_op(v)
            if o == 29:
                return ("ce_gep",) + self.gep(v)
            if o in (39, 40, 41):
                return self.opnd(op_at(v, 0))
            if o in BINOPS:
                return ("ce_bin", BINOPS[o], self.opnd(op_at(v, 0)), self.opnd(op_at(v, 1)), self.ty(typeof(v)))
            return ("unsupported", _s(print_v(v)))
        if k == 15:
            return ("zero", self.ty(typeof(v)))
        if k in (11, 12, 13):
            return ("agg", [self.opnd(op_at(v, i)) for i in range(nops(v))], self.ty(typeof(v)))
        if k in (16, 17):
            t = typeof(v)
            n = arr_len(t) if k == 16 else vec_len(t)
            return ("agg", [self.opnd(cda_elem(v, i)) for i in range(n)], self.ty(t))
        if k == 19:
            import struct as S
            lost = C.c_int()
            d = cfp(v, C.byref(lost))
            if tkind(typeof(v)) == 3:
                return ("c", S.unpack("<Q", S.pack("<d", d))[0])
            return ("c", S.unpack("<I", S.pack("<f", d))[0])
        if k == 22:
            return ("meta",)
        if k == 1:
            return ("bb", val_as_bb(v))
        return ("unsupported", _s(print_v(v))[:200])

    def gep(self, v):
        """(base operand, const offset, [(operand, width, scale)])"""
        base = self.opnd(op_at(v, 0))
        t = gep_ty(v)
        off, dyn = 0, []
        n = nops(v)
        cur = t
        for i in range(1, n):
            o = op_at(v, i)
            oo = self.opnd(o)
            if i == 1:
                sz = self.size(cur)
                if oo[0] == "c":
                    off += _sx(oo[1], int_w(typeof(o))) * sz
                else:
                    dyn.append((oo, int_w(typeof(o)), sz))
                continue
            k = tkind(cur)
            if k == 10:
                idx = oo[1]
                off += off_of(self.dl, cur, idx)
                cur = elem_ty(cur, idx)
            elif k in (11, 13):
                e = sub_ty(cur)
                sz = self.size(e)
                if oo[0] == "c":
                    off += _sx(oo[1], int_w(typeof(o))) * sz
                else:
                    dyn.append((oo, int_w(typeof(o)), sz))
                cur = e
            else:
                raise RuntimeError("gep into " + str(k))
        return (base, off, dyn)

    # instructions ----------------------------------------------------------
    def inst(self, i):
        o = opcode(i)
        if o == 26:
            t = alloc_ty(i)
            cnt = self.opnd(op_at(i, 0))
            return ("alloca", i, self.size(t), cnt, max(get_align(i), 1), self.ty(t))
        if o == 27:
            return ("load", i, self.ty(typeof(i)), self.opnd(op_at(i, 0)), get_align(i))
        if o == 28:
            v = op_at(i, 0)
            return ("store", self.ty(typeof(v)), self.opnd(v), self.opnd(op_at(i, 1)), get_align(i))
        if o == 29:
            return ("gep", i) + self.gep(i)
        if o in (45, 5):
            cv = called(i)
            n = nargs(i)
            args = []
            byv = []
            for k in range(n):
                a = op_at(i, k)
                args.append((self.opnd(a), self.ty(typeof(a))))
                at = cs_attr(i, k + 1, K_BYVAL)
                byv.append(self.size(attr_ty(at)) if at else 0)
            nw = bool(cs_attr(i, 0xFFFFFFFF, K_NOUNWIND))
            rt = self.ty(typeof(i))
            callee = self.opnd(cv) if vkind(cv) != 23 else ("asm",)
            if o == 45:
                return ("call", i, callee, args, byv, rt, None, None, nw)
            return ("call", i, callee, args, byv, rt, normal_dest(i), unwind_dest(i), nw)
        if o == 1:
            return ("ret", self.opnd(op_at(i, 0)) if nops(i) else None)
        if o == 2:
            if is_cond(i):
                return ("brc", self.opnd(op_at(i, 0)), successor(i, 0), successor(i, 1))
            return ("br", successor(i, 0))
        if o == 3:
            cases = []
            n = nops(i)
            for k in range(2, n, 2):
                cases.append((self.opnd(op_at(i, k))[1], val_as_bb(op_at(i, k + 1))))
            return ("switch", self.opnd(op_at(i, 0)), self.ty(typeof(op_at(i, 0))), val_as_bb(op_at(i, 1)), cases)
        if o in BINOPS:
            return ("bin", i, BINOPS[o], self.opnd(op_at(i, 0)), self.opnd(op_at(i, 1)), self.ty(typeof(i)))
        if o in CASTS:
            a = op_at(i, 0)
            return ("cast", i, CASTS[o], self.opnd(a), self.ty(typeof(a)), self.ty(typeof(i)))
        if o == 42:
            a = op_at(i, 0)
            return ("icmp", i, PREDS[icmp_pred(i)], self.opnd(a), self.opnd(op_at(i, 1)), self.ty(typeof(a)))
        if o == 44:
            return ("phi", i, {inc_b(i, k): self.opnd(inc_v(i, k)) for k in range(n_inc(i))})
        if o == 46:
            return ("select", i, self.opnd(op_at(i, 0)), self.opnd(op_at(i, 1)), self.opnd(op_at(i, 2)), self.ty(typeof(i)))
        if o == 53:
            return ("extractvalue", i, self.opnd(op_at(i, 0)), [idxs(i)[k] for k in range(n_idx(i))])
        if o == 54:
            return ("insertvalue", i, self.opnd(op_at(i, 0)), self.opnd(op_at(i, 1)),
                    [idxs(i)[k] for k in range(n_idx(i))], self.ty(typeof(i)))
        if o == 58:
            return ("resume", self.opnd(op_at(i, 0)))
        if o == 59:
            cl = []
            for k in range(n_clauses(i)):
                c = clause(i, k)
                t = tkind(typeof(c))
                if t == 11:
                    cl.append(("filter", self.opnd(c)))
                else:
                    cl.append(("catch", self.opnd(c)))
            return ("landingpad", i, cl, bool(is_cleanup(i)))
        if o == 7:
            return ("unreachable",)
        if o == 68:
            return ("freeze", i, self.opnd(op_at(i, 0)), self.ty(typeof(i)))
        if o == 57:
            return ("rmw", i, rmw_op(i), self.opnd(op_at(i, 0)), self.opnd(op_at(i, 1)), self.ty(typeof(i)))
        if o == 55:
            return ("nop",)
        return ("unsupported", _s(print_v(i))[:300])


def _sx(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v

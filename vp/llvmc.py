"""Reads LLVM bitcode through the LLVM-C API (ctypes) into plain Python objects.

Nothing is interpreted here: the module is a faithful transcription of the IR
clang produced from /repo's sources."""
import ctypes as C
from fractions import Fraction
import glob

_paths = ['/usr/lib/llvm-18/lib/libLLVM.so', '/usr/lib/x86_64-linux-gnu/libLLVM-18.so',
          '/usr/lib/x86_64-linux-gnu/libLLVM.so.18.1'] + sorted(glob.glob('/usr/lib/llvm-18/lib/libLLVM*.so*'))
L = None
for _p in _paths:
    try:
        L = C.CDLL(_p)
        break
    except OSError:
        continue

P = C.c_void_p


def _f(name, res, *args):
    fn = getattr(L, name)
    fn.restype = res
    fn.argtypes = list(args)
    return fn


ctx_create = _f('LLVMContextCreate', P)
mem_file = _f('LLVMCreateMemoryBufferWithContentsOfFile', C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(P))
parse_ir = _f('LLVMParseIRInContext', C.c_int, P, P, C.POINTER(P), C.POINTER(C.c_char_p))
get_dl = _f('LLVMGetModuleDataLayout', P, P)
first_fn = _f('LLVMGetFirstFunction', P, P)
next_fn = _f('LLVMGetNextFunction', P, P)
first_gv = _f('LLVMGetFirstGlobal', P, P)
next_gv = _f('LLVMGetNextGlobal', P, P)
first_al = _f('LLVMGetFirstGlobalAlias', P, P)
next_al = _f('LLVMGetNextGlobalAlias', P, P)
alias_target = _f('LLVMAliasGetAliasee', P, P)
get_init = _f('LLVMGetInitializer', P, P)
global_vty = _f('LLVMGlobalGetValueType', P, P)
is_decl = _f('LLVMIsDeclaration', C.c_int, P)
is_const_gv = _f('LLVMIsGlobalConstant', C.c_int, P)
first_bb = _f('LLVMGetFirstBasicBlock', P, P)
next_bb = _f('LLVMGetNextBasicBlock', P, P)
first_in = _f('LLVMGetFirstInstruction', P, P)
next_in = _f('LLVMGetNextInstruction', P, P)
opcode = _f('LLVMGetInstructionOpcode', C.c_int, P)
nops = _f('LLVMGetNumOperands', C.c_int, P)
oper = _f('LLVMGetOperand', P, P, C.c_uint)
vname = _f('LLVMGetValueName2', C.c_char_p, P, C.POINTER(C.c_size_t))
typeof = _f('LLVMTypeOf', P, P)
tkind = _f('LLVMGetTypeKind', C.c_int, P)
iwidth = _f('LLVMGetIntTypeWidth', C.c_uint, P)
elty = _f('LLVMGetElementType', P, P)
arrlen = _f('LLVMGetArrayLength', C.c_uint, P)
veclen = _f('LLVMGetVectorSize', C.c_uint, P)
nstruct = _f('LLVMCountStructElementTypes', C.c_uint, P)
structel = _f('LLVMStructGetTypeAtIndex', P, P, C.c_uint)
abisize = _f('LLVMABISizeOfType', C.c_ulonglong, P, P)
offsetof = _f('LLVMOffsetOfElement', C.c_ulonglong, P, P, C.c_uint)
vkind = _f('LLVMGetValueKind', C.c_int, P)
zext_v = _f('LLVMConstIntGetZExtValue', C.c_ulonglong, P)
real_v = _f('LLVMConstRealGetDouble', C.c_double, P, C.POINTER(C.c_int))
agg_el = _f('LLVMGetAggregateElement', P, P, C.c_uint)
ce_opcode = _f('LLVMGetConstOpcode', C.c_int, P)
gep_srcty = _f('LLVMGetGEPSourceElementType', P, P)
alloca_ty = _f('LLVMGetAllocatedType', P, P)
icmp_pred = _f('LLVMGetICmpPredicate', C.c_int, P)
fcmp_pred = _f('LLVMGetFCmpPredicate', C.c_int, P)
phi_n = _f('LLVMCountIncoming', C.c_uint, P)
phi_v = _f('LLVMGetIncomingValue', P, P, C.c_uint)
phi_b = _f('LLVMGetIncomingBlock', P, P, C.c_uint)
is_cond = _f('LLVMIsConditional', C.c_int, P)
nsucc = _f('LLVMGetNumSuccessors', C.c_uint, P)
succ = _f('LLVMGetSuccessor', P, P, C.c_uint)
called = _f('LLVMGetCalledValue', P, P)
nargs = _f('LLVMGetNumArgOperands', C.c_uint, P)
nidx = _f('LLVMGetNumIndices', C.c_uint, P)
idxs = _f('LLVMGetIndices', C.POINTER(C.c_uint), P)
nmask = _f('LLVMGetNumMaskElements', C.c_uint, P)
maskv = _f('LLVMGetMaskValue', C.c_int, P, C.c_uint)
params_n = _f('LLVMCountParams', C.c_uint, P)
param = _f('LLVMGetParam', P, P, C.c_uint)
nuw_f = _f('LLVMGetNUW', C.c_int, P)
nsw_f = _f('LLVMGetNSW', C.c_int, P)
print_v = _f('LLVMPrintValueToString', C.c_void_p, P)

OPC = {1: 'ret', 2: 'br', 3: 'switch', 5: 'invoke', 7: 'unreachable', 8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub',
       12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv', 17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl',
       21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor', 26: 'alloca', 27: 'load', 28: 'store', 29: 'gep',
       30: 'trunc', 31: 'zext', 32: 'sext', 33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp', 37: 'fptrunc',
       38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr', 41: 'bitcast', 42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call',
       46: 'select', 50: 'extractelement', 51: 'insertelement', 52: 'shufflevector', 53: 'extractvalue',
       54: 'insertvalue', 66: 'fneg', 68: 'freeze', 58: 'resume', 59: 'landingpad', 57: 'atomicrmw', 56: 'atomiccmpxchg',
       55: 'fence'}
IPRED = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
FPRED = {0: 'false', 1: 'oeq', 2: 'ogt', 3: 'oge', 4: 'olt', 5: 'ole', 6: 'one', 7: 'ord', 8: 'uno', 9: 'ueq',
         10: 'ugt', 11: 'uge', 12: 'ult', 13: 'ule', 14: 'une', 15: 'true'}


class Ty:
    __slots__ = ('k', 'n', 'el', 'els', 'offs', 'size')

    def __repr__(self):
        return f"{self.k}{self.n if self.n is not None else ''}"


class Reg:          # SSA register
    __slots__ = ('i',)

    def __init__(self, i):
        self.i = i

    def __repr__(self):
        return f"%{self.i}"


class GRef:         # reference to global (variable or function)
    __slots__ = ('name', 'off')

    def __init__(self, name, off=0):
        self.name = name
        self.off = off

    def __repr__(self):
        return f"@{self.name}+{self.off}"


class Const:        # scalar constant (int in [0,2^N) or Fraction); null pointer is Const('null')
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f"c({self.v})"


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Agg:          # constant aggregate
    __slots__ = ('els',)

    def __init__(self, els):
        self.els = els


class Inst:
    __slots__ = ('op', 'd', 'ty', 'a', 'x', 'aty')

    def __repr__(self):
        return f"%{self.d} = {self.op} {self.a} {self.x}"


class Block:
    __slots__ = ('i', 'phis', 'ins', 'succ', 'name')


class Fn:
    __slots__ = ('name', 'params', 'ptys', 'blocks', 'ret', 'loops', 'ipdom', 'hdr', 'preds', 'idom')


def rationalise(x):
    """The simplest rational that rounds to the double x (assumption A-LIT in DESIGN.md)."""
    if x != x or x in (float('inf'), float('-inf')):
        return None
    fr = Fraction(x)
    if fr.denominator <= 4096 or abs(x) > 1e15:
        return fr
    for lim in (100, 10000, 1000000):
        c = fr.limit_denominator(lim)
        if float(c) == x and c.denominator * lim < 10 ** 13:
            return c
    return fr


class Module:
    def __init__(self, path):
        self.ctx = ctx_create()
        buf = P()
        msg = P()
        if mem_file(path.encode(), C.byref(buf), C.byref(msg)):
            raise RuntimeError('cannot read ' + path)
        m = P()
        em = C.c_char_p()
        if parse_ir(self.ctx, buf, C.byref(m), C.byref(em)):
            raise RuntimeError(f'cannot parse {path}: {em.value}')
        self.m = m
        self.dl = get_dl(m)
        self.tycache = {}
        self.fnraw = {}
        self.gvraw = {}
        self.alias = {}
        self.fns = {}
        f = first_fn(m)
        while f:
            self.fnraw[self.nm(f)] = f
            f = next_fn(f)
        g = first_gv(m)
        while g:
            self.gvraw[self.nm(g)] = g
            g = next_gv(g)
        a = first_al(m)
        while a:
            self.alias[self.nm(a)] = self.nm(alias_target(a))
            a = next_al(a)

    def nm(self, v):
        n = C.c_size_t()
        s = vname(v, C.byref(n))
        return s.decode(errors='replace') if s else ''

    def ty(self, t):
        r = self.tycache.get(t)
        if r is not None:
            return r
        k = tkind(t)
        r = Ty()
        self.tycache[t] = r
        r.n = r.el = r.els = r.offs = None
        r.size = None
        if k == 0:
            r.k = 'void'
            return r
        if k == 2:
            r.k, r.n = 'f', 32
        elif k == 3:
            r.k, r.n = 'f', 64
        elif k in (4, 5):
            r.k, r.n = 'f', 80
        elif k == 8:
            r.k, r.n = 'i', iwidth(t)
        elif k == 10:
            r.k = 's'
            n = nstruct(t)
            try:
                r.els = [self.ty(structel(t, i)) for i in range(n)]
                r.offs = [offsetof(self.dl, t, i) for i in range(n)]
            except Exception:
                pass
        elif k == 11:
            r.k, r.n = 'a', arrlen(t)
            r.el = self.ty(elty(t))
        elif k == 12:
            r.k = 'p'
        elif k == 13:
            r.k, r.n = 'v', veclen(t)
            r.el = self.ty(elty(t))
        elif k == 9:
            r.k = 'fn'
            return r
        else:
            r.k = 'other'
            return r
        try:
            r.size = abisize(self.dl, t)
        except Exception:
            r.size = None
        return r

    def const(self, v):
        k = vkind(v)
        # kinds: 5 Function? use checks by enum (LLVM 18)
        # LLVMArgument=0 BasicBlock=1 MemoryUse=2 MemoryDef=3 MemoryPhi=4 Function=5 GlobalAlias=6 GlobalIFunc=7
        # GlobalVariable=8 BlockAddress=9 ConstantExpr=10 ConstantArray=11 ConstantStruct=12 ConstantVector=13
        # Undef=14 ConstantAggregateZero=15 ConstantDataArray=16 ConstantDataVector=17 ConstantInt=18 ConstantFP=19
        # ConstantPointerNull=20 ConstantTokenNone=21 MetadataAsValue=22 InlineAsm=23 Instruction=24 Poison=25 TargetNone=26
        if k in (5, 8):
            return GRef(self.nm(v))
        if k == 6:
            return GRef(self.nm(alias_target(v)))
        if k == 18:
            w = iwidth(typeof(v))
            if w <= 64:
                return Const(zext_v(v))
            s = C.cast(print_v(v), C.c_char_p).value.decode()
            return Const(int(s.split()[-1]) % (1 << w))
        if k == 19:
            d = C.c_int()
            x = real_v(v, C.byref(d))
            if self.ty(typeof(v)).n == 32:
                # shortest rational for a float literal
                fr = Fraction(x)
                import struct
                for lim in (100, 10000):
                    c = fr.limit_denominator(lim)
                    if struct.unpack('f', struct.pack('f', float(c)))[0] == x:
                        return Const(c)
                return Const(fr)
            r = rationalise(x)
            if r is None:
                return Const(('nan', x))
            return Const(r)
        if k == 20:
            return Const('null')
        if k in (14, 25):
            return UNDEF
        if k in (11, 12, 13, 15, 16, 17):
            t = self.ty(typeof(v))
            n = t.n if t.k in ('a', 'v') else len(t.els)
            if k == 15 and n > 4096:
                return Agg(('zero', t))
            return Agg([self.const(agg_el(v, i)) for i in range(n)])
        if k == 10:
            oc = OPC.get(ce_opcode(v))
            if oc == 'gep':
                b = self.const(oper(v, 0))
                off = 0
                t = self.ty(gep_srcty(v))
                ix = [self.const(oper(v, i)) for i in range(1, nops(v))]
                for j, c in enumerate(ix):
                    iv = c.v
                    if iv >= 1 << 63:
                        iv -= 1 << 64
                    if j == 0:
                        off += iv * t.size
                    elif t.k == 's':
                        off += t.offs[iv]
                        t = t.els[iv]
                    else:
                        off += iv * t.el.size
                        t = t.el
                if isinstance(b, GRef):
                    return GRef(b.name, b.off + off)
                return Const(('nullptr+', off))
            if oc in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast'):
                return self.const(oper(v, 0))
            return Const(('cexpr', oc))
        return Const(('unk', k))

    def fn(self, name):
        name = self.alias.get(name, name)
        r = self.fns.get(name)
        if r is not None:
            return r
        raw = self.fnraw.get(name)
        if raw is None or is_decl(raw):
            return None
        r = self._fn(name, raw)
        self.fns[name] = r
        return r

    def _fn(self, name, raw):
        f = Fn()
        f.name = name
        regs = {}
        cnt = 0
        f.params = []
        f.ptys = []
        for i in range(params_n(raw)):
            p = param(raw, i)
            regs[p] = cnt
            f.params.append(cnt)
            f.ptys.append(self.ty(typeof(p)))
            cnt += 1
        bids = {}
        b = first_bb(raw)
        blist = []
        while b:
            bids[b] = len(blist)
            blist.append(b)
            i = first_in(b)
            while i:
                regs[i] = cnt
                cnt += 1
                i = next_in(i)
            b = next_bb(b)

        def val(v):
            if v in regs:
                return Reg(regs[v])
            return self.const(v)

        f.blocks = []
        for bi, b in enumerate(blist):
            B = Block()
            B.i = bi
            B.phis = []
            B.ins = []
            B.name = str(bi)
            B.succ = []
            i = first_in(b)
            while i:
                op = OPC.get(opcode(i), f'op{opcode(i)}')
                I = Inst()
                I.op = op
                I.d = regs[i]
                I.ty = self.ty(typeof(i))
                I.x = None
                I.a = None
                I.aty = None
                if op == 'phi':
                    I.a = {}
                    for j in range(phi_n(i)):
                        I.a[bids[phi_b(i, j)]] = val(phi_v(i, j))
                    B.phis.append(I)
                    i = next_in(i)
                    continue
                if op == 'br':
                    if is_cond(i):
                        I.a = [val(oper(i, 0))]
                        I.x = (bids[succ(i, 0)], bids[succ(i, 1)])
                    else:
                        I.a = []
                        I.x = (bids[succ(i, 0)],)
                    B.succ = list(dict.fromkeys(I.x))
                elif op == 'switch':
                    I.a = [val(oper(i, 0))]
                    cases = []
                    n = nops(i)
                    for j in range(2, n, 2):
                        cases.append((self.const(oper(i, j)).v, bids[succ(i, j // 2)]))
                    I.x = (cases, bids[succ(i, 0)])
                    B.succ = list(dict.fromkeys([c[1] for c in cases] + [bids[succ(i, 0)]]))
                    I.aty = [self.ty(typeof(oper(i, 0)))]
                elif op in ('call', 'invoke'):
                    n = nargs(i)
                    I.a = [val(oper(i, j)) if vkind(oper(i, j)) != 22 else None for j in range(n)]
                    I.aty = [self.ty(typeof(oper(i, j))) if vkind(oper(i, j)) != 22 else None for j in range(n)]
                    cv = called(i)
                    I.x = val(cv) if vkind(cv) != 23 else ('asm',)
                    if op == 'invoke':
                        B.succ = [bids[succ(i, 0)]]
                        I.x = (I.x, bids[succ(i, 0)])
                else:
                    n = nops(i)
                    I.a = [val(oper(i, j)) for j in range(n)]
                    I.aty = [self.ty(typeof(oper(i, j))) for j in range(n)]
                    if op == 'gep':
                        t = self.ty(gep_srcty(i))
                        steps = []
                        for j in range(1, n):
                            if j == 1:
                                steps.append(('m', t.size))
                            elif t.k == 's':
                                fi = self.const(oper(i, j)).v
                                steps.append(('c', t.offs[fi]))
                                t = t.els[fi]
                            else:
                                steps.append(('m', t.el.size))
                                t = t.el
                        I.x = steps
                    elif op == 'alloca':
                        I.x = self.ty(alloca_ty(i))
                    elif op == 'icmp':
                        I.x = IPRED[icmp_pred(i)]
                    elif op == 'fcmp':
                        I.x = FPRED[fcmp_pred(i)]
                    elif op in ('extractvalue', 'insertvalue'):
                        k = nidx(i)
                        p = idxs(i)
                        I.x = [p[j] for j in range(k)]
                    elif op == 'shufflevector':
                        I.x = [maskv(i, j) for j in range(nmask(i))]
                    elif op in ('add', 'sub', 'mul', 'shl'):
                        I.x = (bool(nuw_f(i)), bool(nsw_f(i)))
                B.ins.append(I)
                i = next_in(i)
            f.blocks.append(B)
        self._analyse(f)
        return f

    def _analyse(self, f):
        n = len(f.blocks)
        preds = [[] for _ in range(n)]
        for b in f.blocks:
            for s in b.succ:
                preds[s].append(b.i)
        f.preds = preds
        # reverse postorder
        seen = set()
        order = []

        def dfs(x):
            st = [(x, iter(f.blocks[x].succ))]
            seen.add(x)
            while st:
                u, it = st[-1]
                for w in it:
                    if w not in seen:
                        seen.add(w)
                        st.append((w, iter(f.blocks[w].succ)))
                        break
                else:
                    order.append(u)
                    st.pop()
        dfs(0)
        rpo = order[::-1]
        pos = {b: i for i, b in enumerate(rpo)}
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while pos[x] > pos[y]:
                                    x = idom[x]
                                while pos[y] > pos[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True
        f.idom = idom

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        # natural loops
        loops = {}
        for b in rpo:
            for s in f.blocks[b].succ:
                if dom(s, b):
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(preds[x])
        f.loops = loops
        # immediate postdominators (virtual exit n)
        rs = {i: list(f.blocks[i].succ) for i in range(n)}
        EX = n
        for i in range(n):
            t = f.blocks[i].ins[-1] if f.blocks[i].ins else None
            if not rs[i]:
                # unreachable blocks do not count as exits for postdominance
                if t is not None and t.op == 'unreachable':
                    rs[i] = []
                else:
                    rs[i] = [EX]
        # blocks which can reach EX
        rp = {i: [] for i in range(n + 1)}
        for i, ss in rs.items():
            for s in ss:
                rp[s].append(i)
        live = set()
        st = [EX]
        while st:
            x = st.pop()
            if x in live:
                continue
            live.add(x)
            st.extend(rp[x])
        rs = {i: [s for s in ss if s in live] for i, ss in rs.items() if i in live}
        # postorder on reverse graph
        seen2 = set()
        order2 = []
        st = [(EX, iter(rp[EX]))]
        seen2.add(EX)
        while st:
            u, it = st[-1]
            for w in it:
                if w not in seen2:
                    seen2.add(w)
                    st.append((w, iter(rp[w])))
                    break
            else:
                order2.append(u)
                st.pop()
        rpo2 = order2[::-1]
        pos2 = {b: i for i, b in enumerate(rpo2)}
        ip = {EX: EX}
        ch = True
        while ch:
            ch = False
            for b in rpo2[1:]:
                new = None
                for p in rs[b]:
                    if p in ip:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while pos2[x] > pos2[y]:
                                    x = ip[x]
                                while pos2[y] > pos2[x]:
                                    y = ip[y]
                            new = x
                if new is not None and ip.get(b) != new:
                    ip[b] = new
                    ch = True
        f.ipdom = [ip.get(i, None) for i in range(n)]

"""LLVM IR loader: reads bitcode of the real code through libLLVM's C API
(ctypes), normalises it with a fixed pass pipeline, and turns functions into
plain Python objects.  Nothing here knows about cista."""
import ctypes as C
import subprocess

_L = None


def lib():
    global _L
    if _L is None:
        _L = C.CDLL("/usr/lib/llvm-18/lib/libLLVM-18.so")
        P = C.c_void_p
        for n in """LLVMContextCreate LLVMGetFirstFunction LLVMGetNextFunction LLVMGetFirstGlobal
        LLVMGetNextGlobal LLVMGetFirstBasicBlock LLVMGetNextBasicBlock LLVMGetFirstInstruction
        LLVMGetNextInstruction LLVMTypeOf LLVMGetOperand LLVMGetCalledValue LLVMGetInitializer
        LLVMGetParam LLVMGetElementType LLVMGetGEPSourceElementType LLVMGetAllocatedType
        LLVMGlobalGetValueType LLVMStructGetTypeAtIndex LLVMGetIncomingValue LLVMGetIncomingBlock
        LLVMGetSuccessor LLVMBasicBlockAsValue LLVMValueAsBasicBlock LLVMGetModuleDataLayout
        LLVMGetReturnType LLVMGetAggregateElement LLVMGetNormalDest LLVMGetUnwindDest
        LLVMGetInstructionParent LLVMGetClause LLVMGetSwitchDefaultDest LLVMGetNamedFunction LLVMInstructionGetDebugLoc LLVMCreatePassBuilderOptions LLVMGetNamedGlobal LLVMAliasGetAliasee LLVMGetFirstGlobalAlias LLVMGetNextGlobalAlias""".split():
            getattr(_L, n).restype = P
        for n in """LLVMConstIntGetZExtValue LLVMABISizeOfType LLVMStoreSizeOfType LLVMOffsetOfElement
        LLVMGetArrayLength2 LLVMSizeOfTypeInBits""".split():
            getattr(_L, n).restype = C.c_ulonglong
        _L.LLVMGetValueName2.restype = C.c_char_p
        _L.LLVMPrintValueToString.restype = P
        _L.LLVMPrintTypeToString.restype = P
        _L.LLVMGetAsString.restype = P
        _L.LLVMGetErrorMessage.restype = P
        _L.LLVMRunPasses.restype = P
    return _L


OPC = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable', 67: 'callbr',
       66: 'fneg', 8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv',
       16: 'fdiv', 17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or',
       25: 'xor', 26: 'alloca', 27: 'load', 28: 'store', 29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext',
       33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp', 37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint',
       40: 'inttoptr', 41: 'bitcast', 60: 'addrspacecast', 42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call',
       46: 'select', 49: 'va_arg', 50: 'extractelement', 51: 'insertelement', 52: 'shufflevector',
       53: 'extractvalue', 54: 'insertvalue', 68: 'freeze', 55: 'fence', 56: 'cmpxchg', 57: 'atomicrmw',
       58: 'resume', 59: 'landingpad'}
ICMP = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
# LLVMValueKind
VK = {0: 'arg', 1: 'bb', 5: 'fn', 6: 'alias', 8: 'global', 9: 'blockaddr', 10: 'constexpr', 11: 'carray', 12: 'cstruct',
      13: 'cvector', 14: 'undef', 15: 'zeroagg', 16: 'cdataarray', 17: 'cdatavec', 18: 'int', 19: 'fp', 20: 'null',
      21: 'tokennone', 22: 'metadata', 23: 'asm', 24: 'inst', 25: 'poison'}


class Ty:
    __slots__ = ('k', 'bits', 'elts', 'n', 'size', 'name')

    def __repr__(self):
        return f"{self.k}{self.bits or ''}"


class V:
    """operand reference: kinds: int(val,bits) null undef arg(idx) inst(id) global(name) fn(name) expr agg zero"""
    __slots__ = ('k', 'v', 'ty', 'x')

    def __init__(self, k, v, ty, x=None):
        self.k, self.v, self.ty, self.x = k, v, ty, x

    def __repr__(self):
        return f"{self.k}:{self.v}"


class I:
    __slots__ = ('op', 'id', 'ty', 'ops', 'x', 'name', 'fn', 'loc')

    def __repr__(self):
        return f"%{self.id} = {self.op} {self.ops} {self.x or ''}"


class BB:
    __slots__ = ('idx', 'name', 'insts', 'succ', 'phis')


class Fn:
    pass


class Module:
    def __init__(self, path, passes="sroa,simplifycfg,mem2reg,instsimplify,simplifycfg,loop-simplify"):
        L = lib()
        self.L = L
        self.ctx = C.c_void_p(L.LLVMContextCreate())
        buf, msg, mod = C.c_void_p(), C.c_char_p(), C.c_void_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(msg)):
            raise RuntimeError(msg.value)
        if L.LLVMParseIRInContext(self.ctx, buf, C.byref(mod), C.byref(msg)):
            raise RuntimeError(msg.value)
        self.m = mod
        if passes:
            o = C.c_void_p(L.LLVMCreatePassBuilderOptions())
            e = L.LLVMRunPasses(mod, passes.encode(), None, o)
            if e:
                raise RuntimeError(C.string_at(L.LLVMGetErrorMessage(C.c_void_p(e))))
        self.td = C.c_void_p(L.LLVMGetModuleDataLayout(mod))
        self.tys = {}
        self.fnptr, self.fncache, self.gptr = {}, {}, {}
        f = L.LLVMGetFirstFunction(mod)
        while f:
            self.fnptr[self.vname(f)] = f
            f = L.LLVMGetNextFunction(C.c_void_p(f))
        g = L.LLVMGetFirstGlobal(mod)
        while g:
            self.gptr[self.vname(g)] = g
            g = L.LLVMGetNextGlobal(C.c_void_p(g))
        self.alias = {}
        a = L.LLVMGetFirstGlobalAlias(mod)
        while a:
            self.alias[self.vname(a)] = self.vname(L.LLVMAliasGetAliasee(C.c_void_p(a)))
            a = L.LLVMGetNextGlobalAlias(C.c_void_p(a))
        self.demangled = demangle(list(self.fnptr))

    def vname(self, v):
        n = C.c_size_t()
        return self.L.LLVMGetValueName2(C.c_void_p(v), C.byref(n)).decode()

    def printv(self, v):
        p = self.L.LLVMPrintValueToString(C.c_void_p(v))
        s = C.string_at(p).decode()
        return s

    def ty(self, t):
        r = self.tys.get(t)
        if r is not None:
            return r
        L = self.L
        p = C.c_void_p(t)
        k = L.LLVMGetTypeKind(p)
        r = Ty()
        r.bits = r.elts = r.n = r.name = None
        r.size = 0
        # LLVMTypeKind: 0 void 1 half 2 float 3 double 4.. 7 label 8 int 9 func 10 struct 11 array 12 ptr 13 vector 14 meta
        if k == 0:
            r.k = 'void'
        elif k in (1, 2, 3, 4, 5, 6):
            r.k = 'fp'
            r.bits = L.LLVMSizeOfTypeInBits(self.td, p)
            r.size = L.LLVMABISizeOfType(self.td, p)
        elif k == 8:
            r.k = 'int'
            r.bits = L.LLVMGetIntTypeWidth(p)
            r.size = L.LLVMABISizeOfType(self.td, p)
        elif k == 10:
            r.k = 'struct'
            n = L.LLVMCountStructElementTypes(p)
            sized = L.LLVMTypeIsSized(p)
            r.elts = []
            if sized:
                r.size = L.LLVMABISizeOfType(self.td, p)
                for i in range(n):
                    r.elts.append((L.LLVMOffsetOfElement(self.td, p, i),
                                   self.ty(L.LLVMStructGetTypeAtIndex(p, i))))
        elif k == 11:
            r.k = 'array'
            r.n = L.LLVMGetArrayLength2(p)
            e = self.ty(L.LLVMGetElementType(p))
            r.elts = e
            r.size = L.LLVMABISizeOfType(self.td, p)
        elif k == 12:
            r.k = 'ptr'
            r.bits = 64
            r.size = 8
        elif k == 13:
            r.k = 'vector'
            r.n = L.LLVMGetVectorSize(p)
            r.elts = self.ty(L.LLVMGetElementType(p))
            r.size = L.LLVMABISizeOfType(self.td, p)
            r.bits = r.size * 8
        else:
            r.k = {7: 'label', 9: 'func', 14: 'meta'}.get(k, f'other{k}')
        self.tys[t] = r
        return r

    def vty(self, v):
        return self.ty(self.L.LLVMTypeOf(C.c_void_p(v)))

    def bigint(self, v, bits):
        if bits <= 64:
            return self.L.LLVMConstIntGetZExtValue(C.c_void_p(v))
        s = self.printv(v).split()[-1]
        return int(s) % (1 << bits)

    def const(self, v):
        L = self.L
        p = C.c_void_p(v)
        k = VK[L.LLVMGetValueKind(p)]
        t = self.vty(v)
        if k == 'int':
            return V('int', self.bigint(v, t.bits), t)
        if k == 'null':
            return V('null', 0, t)
        if k in ('undef', 'poison'):
            return V('undef', k, t)
        if k == 'zeroagg':
            return V('zero', 0, t)
        if k == 'fn':
            return V('fn', self.vname(v), t)
        if k == 'global':
            return V('global', self.vname(v), t)
        if k == 'alias':
            return V('fn', self.alias[self.vname(v)], t)
        if k in ('cdataarray', 'cdatavec'):
            n = t.n
            return V('agg', [self.const(L.LLVMGetAggregateElement(p, i)) for i in range(n)], t)
        if k in ('carray', 'cstruct', 'cvector'):
            return V('agg', [self.const(L.LLVMGetOperand(p, i)) for i in range(L.LLVMGetNumOperands(p))], t)
        if k == 'fp':
            lose = C.c_int()
            L.LLVMConstRealGetDouble.restype = C.c_double
            return V('fp', L.LLVMConstRealGetDouble(p, C.byref(lose)), t)
        if k == 'constexpr':
            op = OPC[L.LLVMGetConstOpcode(p)]
            i = I()
            i.op, i.id, i.ty, i.name, i.fn, i.loc = op, None, t, '', None, None
            self._operands(i, v, lambda q: self.const(q))
            return V('expr', i, t)
        if k == 'tokennone':
            return V('undef', k, t)
        raise NotImplementedError(f"const kind {k}: {self.printv(v)[:80]}")

    def _gep(self, i, v, conv):
        """-> x = (const_off, [(operand index in i.ops, scale)], inbounds)"""
        L = self.L
        p = C.c_void_p(v)
        t = self.ty(L.LLVMGetGEPSourceElementType(p))
        n = L.LLVMGetNumOperands(p)
        ops = [conv(L.LLVMGetOperand(p, 0))]
        off, var = 0, []
        for j in range(1, n):
            o = conv(L.LLVMGetOperand(p, j))
            if j == 1:
                sz = t.size
            else:
                if t.k == 'struct':
                    o2, t2 = t.elts[o.v]
                    off += o2
                    t = t2
                    continue
                t = t.elts
                sz = t.size
            if o.k == 'int':
                val = o.v
                if val >= 1 << (o.ty.bits - 1):
                    val -= 1 << o.ty.bits
                off += val * sz
            else:
                var.append((len(ops), sz))
                ops.append(o)
        i.ops = ops
        i.x = (off, var, bool(L.LLVMIsInBounds(p)))

    def _operands(self, i, v, conv):
        L = self.L
        p = C.c_void_p(v)
        if i.op == 'gep':
            return self._gep(i, v, conv)
        i.x = None
        n = L.LLVMGetNumOperands(p)
        i.ops = [conv(L.LLVMGetOperand(p, j)) for j in range(n)]
        if i.op in ('add', 'sub', 'mul', 'shl'):
            if L.LLVMIsAInstruction(p):
                i.x = (bool(L.LLVMGetNSW(p)), bool(L.LLVMGetNUW(p)))
            else:
                i.x = (False, False)
        elif i.op in ('udiv', 'sdiv', 'lshr', 'ashr'):
            i.x = bool(L.LLVMGetExact(p)) if L.LLVMIsAInstruction(p) else False
        elif i.op == 'icmp':
            i.x = ICMP[L.LLVMGetICmpPredicate(p)]
        elif i.op == 'fcmp':
            i.x = L.LLVMGetFCmpPredicate(p)

    def function(self, name):
        f = self.fncache.get(name)
        if f is None:
            f = self.fncache[name] = self._load(name)
        return f

    def _load(self, name):
        L = self.L
        fv = self.fnptr[name]
        f = Fn()
        f.name = name
        f.dname = self.demangled.get(name, name)
        n = L.LLVMCountParams(C.c_void_p(fv))
        f.params = [self.vty(L.LLVMGetParam(C.c_void_p(fv), i)) for i in range(n)]
        f.pnames = [self.vname(L.LLVMGetParam(C.c_void_p(fv), i)) for i in range(n)]
        argidx = {L.LLVMGetParam(C.c_void_p(fv), i): i for i in range(n)}
        bbs = []
        b = L.LLVMGetFirstBasicBlock(C.c_void_p(fv))
        while b:
            bbs.append(b)
            b = L.LLVMGetNextBasicBlock(C.c_void_p(b))
        f.decl = not bbs
        f.blocks = []
        if f.decl:
            return f
        bidx = {L.LLVMBasicBlockAsValue(C.c_void_p(b)): i for i, b in enumerate(bbs)}
        ids = {}
        raw = []
        for b in bbs:
            lst = []
            i = L.LLVMGetFirstInstruction(C.c_void_p(b))
            while i:
                ids[i] = len(ids)
                lst.append(i)
                i = L.LLVMGetNextInstruction(C.c_void_p(i))
            raw.append(lst)

        def conv(v):
            p = C.c_void_p(v)
            k = VK[L.LLVMGetValueKind(p)]
            if k == 'inst':
                return V('inst', ids[v], self.vty(v))
            if k == 'arg':
                return V('arg', argidx[v], self.vty(v))
            if k == 'bb':
                return V('bb', bidx[v], None)
            if k == 'metadata':
                return V('meta', None, None)
            if k == 'asm':
                return V('asm', None, None)
            return self.const(v)
        for bi, b in enumerate(bbs):
            bb = BB()
            bb.idx = bi
            bb.name = self.vname(L.LLVMBasicBlockAsValue(C.c_void_p(b)))
            bb.insts, bb.phis, bb.succ = [], [], []
            for iv in raw[bi]:
                p = C.c_void_p(iv)
                i = I()
                i.op = OPC[L.LLVMGetInstructionOpcode(p)]
                i.id = ids[iv]
                i.ty = self.vty(iv)
                i.name = self.vname(iv)
                i.fn = f
                i.loc = None
                i.x = None
                if i.op == 'phi':
                    i.ops = []
                    m = L.LLVMCountIncoming(p)
                    i.x = {}
                    for j in range(m):
                        pb = bidx[L.LLVMBasicBlockAsValue(C.c_void_p(L.LLVMGetIncomingBlock(p, j)))]
                        i.x[pb] = conv(L.LLVMGetIncomingValue(p, j))
                    bb.phis.append(i)
                    continue
                if i.op in ('call', 'invoke'):
                    na = L.LLVMGetNumArgOperands(p)
                    i.ops = [conv(L.LLVMGetOperand(p, j)) for j in range(na)]
                    callee = conv(L.LLVMGetCalledValue(p))
                    nd = ud = None
                    if i.op == 'invoke':
                        nd = bidx[L.LLVMBasicBlockAsValue(C.c_void_p(L.LLVMGetNormalDest(p)))]
                        ud = bidx[L.LLVMBasicBlockAsValue(C.c_void_p(L.LLVMGetUnwindDest(p)))]
                        bb.succ += [nd, ud]
                    i.x = (callee, nd, ud)
                elif i.op == 'landingpad':
                    nc = L.LLVMGetNumClauses(p)
                    i.ops = [conv(L.LLVMGetClause(p, j)) for j in range(nc)]
                    i.x = bool(L.LLVMIsCleanup(p))
                elif i.op == 'alloca':
                    i.ops = [conv(L.LLVMGetOperand(p, 0))]
                    i.x = self.ty(L.LLVMGetAllocatedType(p))
                elif i.op in ('extractvalue', 'insertvalue'):
                    nn = L.LLVMGetNumIndices(p)
                    L.LLVMGetIndices.restype = C.POINTER(C.c_uint)
                    idx = L.LLVMGetIndices(p)
                    i.x = [idx[j] for j in range(nn)]
                    i.ops = [conv(L.LLVMGetOperand(p, j)) for j in range(L.LLVMGetNumOperands(p))]
                elif i.op == 'br':
                    ns = L.LLVMGetNumSuccessors(p)
                    s = [bidx[L.LLVMBasicBlockAsValue(C.c_void_p(L.LLVMGetSuccessor(p, j)))] for j in range(ns)]
                    bb.succ += s
                    i.ops = [conv(L.LLVMGetOperand(p, 0))] if ns == 2 else []
                    i.x = s
                elif i.op == 'switch':
                    no = L.LLVMGetNumOperands(p)
                    o = [conv(L.LLVMGetOperand(p, j)) for j in range(no)]
                    i.ops = [o[0]]
                    i.x = (o[1].v, [(o[j].v, o[j + 1].v) for j in range(2, no, 2)])
                    bb.succ += [o[1].v] + [t for _, t in i.x[1]]
                elif i.op == 'atomicrmw':
                    i.ops = [conv(L.LLVMGetOperand(p, j)) for j in range(2)]
                    i.x = L.LLVMGetAtomicRMWBinOp(p)
                else:
                    self._operands(i, iv, conv)
                bb.insts.append(i)
            f.blocks.append(bb)
        analyse_loops(f)
        return f

    def global_init(self, name):
        g = C.c_void_p(self.gptr[name])
        t = self.ty(self.L.LLVMGlobalGetValueType(g))
        i = self.L.LLVMGetInitializer(g)
        const = bool(self.L.LLVMIsGlobalConstant(g))
        return t, (self.const(i) if i else None), const


def analyse_loops(f):
    n = len(f.blocks)
    preds = [[] for _ in range(n)]
    for b in f.blocks:
        for s in b.succ:
            if b.idx not in preds[s]:
                preds[s].append(b.idx)
    f.preds = preds
    # reverse postorder
    seen, order = set(), []
    st = [(0, iter(f.blocks[0].succ))]
    seen.add(0)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(f.blocks[s].succ)))
                break
        else:
            order.append(b)
            st.pop()
    rpo = order[::-1]
    full = set(rpo)
    dom = {b: set(full) for b in rpo}
    dom[0] = {0}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [dom[p] for p in preds[b] if p in full]
            nd = set.intersection(*ps) | {b} if ps else {b}
            if nd != dom[b]:
                dom[b] = nd
                ch = True
    f.loops = {}
    for b in rpo:
        for s in f.blocks[b].succ:
            if s in dom[b]:
                body = f.loops.setdefault(s, {s})
                stack = [b]
                while stack:
                    x = stack.pop()
                    if x not in body:
                        body.add(x)
                        stack += preds[x]
    f.loop_order = [b for b in rpo if b in f.loops]


def demangle(names):
    if not names:
        return {}
    r = subprocess.run(["c++filt"], input="\n".join(names) + "\n", capture_output=True, text=True)
    return dict(zip(names, r.stdout.split("\n")))

"""Thin ctypes front end to libLLVM-18: loads bitcode, runs passes, decodes
functions into plain Python objects that engine.py interprets."""
import ctypes as C, os

_L = None
for _p in ("/usr/lib/llvm-18/lib/libLLVM.so.1", "libLLVM-18.so", "/usr/lib/x86_64-linux-gnu/libLLVM-18.so"):
    try:
        _L = C.CDLL(_p)
        break
    except OSError:
        pass
if _L is None:
    raise RuntimeError("libLLVM-18 not found")
P, S, U, I, U64 = C.c_void_p, C.c_char_p, C.c_uint, C.c_int, C.c_uint64


def _f(name, res, *args):
    fn = getattr(_L, name)
    fn.restype = res
    fn.argtypes = list(args)
    return fn


ContextCreate = _f("LLVMContextCreate", P)
MemBuf = _f("LLVMCreateMemoryBufferWithContentsOfFile", I, S, C.POINTER(P), C.POINTER(P))
ParseIR = _f("LLVMParseIRInContext", I, P, P, C.POINTER(P), C.POINTER(P))
LinkModules2 = _f("LLVMLinkModules2", I, P, P)
GetDataLayout = _f("LLVMGetModuleDataLayout", P, P)
FirstFunction = _f("LLVMGetFirstFunction", P, P)
NextFunction = _f("LLVMGetNextFunction", P, P)
FirstGlobal = _f("LLVMGetFirstGlobal", P, P)
NextGlobal = _f("LLVMGetNextGlobal", P, P)
FirstAlias = _f("LLVMGetFirstGlobalAlias", P, P)
NextAlias = _f("LLVMGetNextGlobalAlias", P, P)
AliasGetAliasee = _f("LLVMAliasGetAliasee", P, P)
ValueName2 = _f("LLVMGetValueName2", S, P, C.POINTER(C.c_size_t))
CountParams = _f("LLVMCountParams", U, P)
GetParam = _f("LLVMGetParam", P, P, U)
FirstBB = _f("LLVMGetFirstBasicBlock", P, P)
NextBB = _f("LLVMGetNextBasicBlock", P, P)
FirstInstr = _f("LLVMGetFirstInstruction", P, P)
NextInstr = _f("LLVMGetNextInstruction", P, P)
Opcode = _f("LLVMGetInstructionOpcode", I, P)
NumOperands = _f("LLVMGetNumOperands", I, P)
GetOperand = _f("LLVMGetOperand", P, P, U)
TypeOf = _f("LLVMTypeOf", P, P)
TypeKind = _f("LLVMGetTypeKind", I, P)
IntWidth = _f("LLVMGetIntTypeWidth", U, P)
ElementType = _f("LLVMGetElementType", P, P)
ArrayLength2 = _f("LLVMGetArrayLength2", U64, P)
VectorSize = _f("LLVMGetVectorSize", U, P)
StructElems = _f("LLVMCountStructElementTypes", U, P)
StructTypeAt = _f("LLVMStructGetTypeAtIndex", P, P, U)
ABISize = _f("LLVMABISizeOfType", U64, P, P)
ABIAlign = _f("LLVMABIAlignmentOfType", U, P, P)
OffsetOf = _f("LLVMOffsetOfElement", U64, P, P, U)
IsOpaqueStruct = _f("LLVMIsOpaqueStruct", I, P)
TypeIsSized = _f("LLVMTypeIsSized", I, P)
ICmpPred = _f("LLVMGetICmpPredicate", I, P)
FCmpPred = _f("LLVMGetFCmpPredicate", I, P)
ConstIntZ = _f("LLVMConstIntGetZExtValue", U64, P)
ConstReal = _f("LLVMConstRealGetDouble", C.c_double, P, C.POINTER(I))
IsConstant = _f("LLVMIsConstant", I, P)
ValueKind = _f("LLVMGetValueKind", I, P)
GetInitializer = _f("LLVMGetInitializer", P, P)
IsGlobalConstant = _f("LLVMIsGlobalConstant", I, P)
GlobalValueType = _f("LLVMGlobalGetValueType", P, P)
ConstOpcode = _f("LLVMGetConstOpcode", I, P)
NumIndices = _f("LLVMGetNumIndices", U, P)
GetIndices = _f("LLVMGetIndices", C.POINTER(U), P)
CountIncoming = _f("LLVMCountIncoming", U, P)
IncomingValue = _f("LLVMGetIncomingValue", P, P, U)
IncomingBlock = _f("LLVMGetIncomingBlock", P, P, U)
CalledValue = _f("LLVMGetCalledValue", P, P)
NumArgOperands = _f("LLVMGetNumArgOperands", U, P)
AllocatedType = _f("LLVMGetAllocatedType", P, P)
GEPSourceType = _f("LLVMGetGEPSourceElementType", P, P)
NumClauses = _f("LLVMGetNumClauses", U, P)
GetClause = _f("LLVMGetClause", P, P, U)
IsCleanup = _f("LLVMIsCleanup", I, P)
NormalDest = _f("LLVMGetNormalDest", P, P)
UnwindDest = _f("LLVMGetUnwindDest", P, P)
IsDeclaration = _f("LLVMIsDeclaration", I, P)
AsString = _f("LLVMGetAsString", P, P, C.POINTER(C.c_size_t))
ElementAsConstant = _f("LLVMGetElementAsConstant", P, P, U)
AggregateElement = _f("LLVMGetAggregateElement", P, P, U)
IsConstString = _f("LLVMIsConstantString", I, P)
PrintValue = _f("LLVMPrintValueToString", P, P)
PrintType = _f("LLVMPrintTypeToString", P, P)
DisposeMessage = _f("LLVMDisposeMessage", None, P)
DebugLine = _f("LLVMGetDebugLocLine", U, P)
DebugFile = _f("LLVMGetDebugLocFilename", P, P, C.POINTER(U))
CreatePBO = _f("LLVMCreatePassBuilderOptions", P)
RunPasses = _f("LLVMRunPasses", P, P, S, P, P)
GetErrorMessage = _f("LLVMGetErrorMessage", P, P)
SetLinkage = _f("LLVMSetLinkage", None, P, I)
GetLinkage = _f("LLVMGetLinkage", I, P)
NumSuccessors = _f("LLVMGetNumSuccessors", U, P)
Successor = _f("LLVMGetSuccessor", P, P, U)
AtomicRMWOp = _f("LLVMGetAtomicRMWBinOp", I, P)
AddAttr = _f("LLVMAddAttributeAtIndex", None, P, U, P)
RemoveEnumAttr = _f("LLVMRemoveEnumAttributeAtIndex", None, P, U, U)
AttrKind = _f("LLVMGetEnumAttributeKindForName", U, S, C.c_size_t)
CreateEnumAttr = _f("LLVMCreateEnumAttribute", P, P, U, U64)
DeleteFunctionBody = getattr(_L, "LLVMDeleteBasicBlock")
DeleteFunctionBody.argtypes = [P]
DeleteFunctionBody.restype = None
NamedFunction = _f("LLVMGetNamedFunction", P, P, S)
NamedGlobal = _f("LLVMGetNamedGlobal", P, P, S)
ReplaceAllUses = _f("LLVMReplaceAllUsesWith", None, P, P)
AddFunction = _f("LLVMAddFunction", P, P, S, P)
SetValueName2 = _f("LLVMSetValueName2", None, P, S, C.c_size_t)
DeleteFunction = _f("LLVMDeleteFunction", None, P)
SetPersonality = _f("LLVMSetPersonalityFn", None, P, P)
SetComdat = _f("LLVMSetComdat", None, P, P)
WriteBC = _f("LLVMWriteBitcodeToFile", I, P, S)
PrintModuleToFile = _f("LLVMPrintModuleToFile", I, P, S, C.POINTER(P))
ConstNull = _f("LLVMConstNull", P, P)
GetUndef = _f("LLVMGetUndef", P, P)
IsVarArg = _f("LLVMIsFunctionVarArg", I, P)
ReturnType = _f("LLVMGetReturnType", P, P)
BBTerminator = _f("LLVMGetBasicBlockTerminator", P, P)
EraseInstr = _f("LLVMInstructionEraseFromParent", None, P)
ValueAsBB = _f("LLVMValueAsBasicBlock", P, P)
GetMDKind = _f("LLVMGetMDKindIDInContext", U, P, S, U)

OPC = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable', 67: 'callbr', 66: 'fneg',
       8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv',
       17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor',
       26: 'alloca', 27: 'load', 28: 'store', 29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext', 33: 'fptoui',
       34: 'fptosi', 35: 'uitofp', 36: 'sitofp', 37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr',
       41: 'bitcast', 60: 'addrspacecast', 42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select',
       49: 'va_arg', 50: 'extractelement', 51: 'insertelement', 52: 'shufflevector', 53: 'extractvalue',
       54: 'insertvalue', 68: 'freeze', 55: 'fence', 56: 'cmpxchg', 57: 'atomicrmw', 58: 'resume',
       59: 'landingpad', 61: 'cleanupret', 62: 'catchret', 63: 'catchpad', 64: 'cleanuppad', 65: 'catchswitch'}
ICMP = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
FCMP = {0: 'false', 1: 'oeq', 2: 'ogt', 3: 'oge', 4: 'olt', 5: 'ole', 6: 'one', 7: 'ord', 8: 'uno', 9: 'ueq',
        10: 'ugt', 11: 'uge', 12: 'ult', 13: 'ule', 14: 'une', 15: 'true'}
TK = {0: 'void', 1: 'half', 2: 'float', 3: 'double', 4: 'fp80', 5: 'fp128', 7: 'label', 8: 'int', 9: 'func',
      10: 'struct', 11: 'array', 12: 'ptr', 13: 'vector', 14: 'metadata', 16: 'token'}
# LLVMValueKind
VK_ARG, VK_BB, VK_FUNC, VK_ALIAS, VK_GVAR, VK_CEXPR = 0, 1, 5, 6, 8, 10
VK_CARRAY, VK_CSTRUCT, VK_CVECTOR, VK_UNDEF, VK_AGGZERO, VK_CDARRAY, VK_CDVECTOR, VK_CINT, VK_CFP, VK_CNULL, VK_TOKNONE = 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21


class Ty:
    __slots__ = ('k', 'bits', 'size', 'align', 'elems', 'offs', 'n', 'el')

    def __repr__(self):
        if self.k == 'int':
            return 'i%d' % self.bits
        if self.k == 'array':
            return '[%d x %r]' % (self.n, self.el)
        if self.k == 'struct':
            return '{%s}' % ','.join(map(repr, self.elems))
        return self.k


class Loc:
    __slots__ = ('id',)

    def __init__(self, i):
        self.id = i


class Const:
    """constant operand; decoded lazily by the engine via Module.const"""
    __slots__ = ('ref', 'val', 'has')

    def __init__(self, ref):
        self.ref = ref
        self.has = False
        self.val = None


class Instr:
    __slots__ = ('op', 'id', 'ty', 'ops', 'x', 'ref', 'line', 'y')


class Block:
    __slots__ = ('ref', 'phis', 'instrs', 'idx', 'succs', 'fn')


class Func:
    __slots__ = ('ref', 'name', 'params', 'ptys', 'rty', 'blocks', 'bymap', 'entry', 'rpo', 'loops', 'loopof', 'decl', 'loaded', 'vararg', 'ipd', 'live')


class Module:
    def __init__(self, path):
        self.ctx = ContextCreate()
        self.mod = self._load(path)
        self._init()

    def _init(self):
        self.dl = None
        self.tcache = {}
        self.funcs = {}
        self.fbyref = {}

    def _load(self, path):
        mb, err = P(), P()
        if MemBuf(path.encode(), C.byref(mb), C.byref(err)):
            raise RuntimeError(C.cast(err, S).value)
        m = P()
        if ParseIR(self.ctx, mb, C.byref(m), C.byref(err)):
            raise RuntimeError(C.cast(err, S).value)
        return m

    def link(self, path):
        m = self._load(path)
        if LinkModules2(self.mod, m):
            raise RuntimeError("link failed: " + path)

    def passes(self, s):
        o = CreatePBO()
        e = RunPasses(self.mod, s.encode(), None, o)
        if e:
            raise RuntimeError("passes failed: " + (C.cast(GetErrorMessage(e), S).value or b'').decode())

    def all_functions(self):
        r = []
        f = FirstFunction(self.mod)
        while f:
            r.append(f)
            f = NextFunction(f)
        return r

    def all_globals(self):
        r = []
        f = FirstGlobal(self.mod)
        while f:
            r.append(f)
            f = NextGlobal(f)
        return r

    def all_aliases(self):
        r = []
        f = FirstAlias(self.mod)
        while f:
            r.append(f)
            f = NextAlias(f)
        return r

    def prepare(self, entries, strip, pipeline, noinline=()):
        """strip(name)->bool: replace body by a declaration.  entries: kept external."""
        entries = set(entries)
        for a in self.all_aliases():
            tgt = AliasGetAliasee(a)
            ReplaceAllUses(a, tgt)
        ni = AttrKind(b"noinline", 8)
        ai = AttrKind(b"alwaysinline", 12)
        on = AttrKind(b"optnone", 7)
        for f in self.all_functions():
            n = vname(f)
            if IsDeclaration(f):
                continue
            if n in entries:
                SetLinkage(f, 0)
                AddAttr(f, 0xffffffff, CreateEnumAttr(self.ctx, ni, 0))
                continue
            if strip(n):
                # replace by declaration: rename, declare, RAUW
                fty = GlobalValueType(f)
                nb = n.encode()
                tmp = nb + b".stripped"
                SetValueName2(f, tmp, len(tmp))
                d = AddFunction(self.mod, nb, fty)
                ReplaceAllUses(f, d)
                SetComdat(f, None)
                SetLinkage(f, 8)
                continue
            if noinline and noinline(n):
                AddAttr(f, 0xffffffff, CreateEnumAttr(self.ctx, ni, 0))
            SetComdat(f, None)
            SetLinkage(f, 8)
        for g in self.all_globals():
            if not IsDeclaration(g):
                n = vname(g)
                if n.startswith('llvm.'):
                    continue
                SetComdat(g, None)
                SetLinkage(g, 8)
        # drop llvm.used / global ctors so that globaldce can prune
        self.passes(pipeline)
        self._init()

    def type(self, ref):
        t = self.tcache.get(ref)
        if t is not None:
            return t
        if self.dl is None:
            self.dl = GetDataLayout(self.mod)
        t = Ty()
        self.tcache[ref] = t
        t.k = TK.get(TypeKind(ref), '?')
        t.bits = t.size = t.align = t.n = 0
        t.elems = t.offs = t.el = None
        if t.k == 'int':
            t.bits = IntWidth(ref)
        elif t.k == 'struct':
            if not IsOpaqueStruct(ref):
                n = StructElems(ref)
                t.elems = [self.type(StructTypeAt(ref, i)) for i in range(n)]
                if TypeIsSized(ref):
                    t.offs = [OffsetOf(self.dl, ref, i) for i in range(n)]
        elif t.k == 'array':
            t.n = ArrayLength2(ref)
            t.el = self.type(ElementType(ref))
        elif t.k == 'vector':
            t.n = VectorSize(ref)
            t.el = self.type(ElementType(ref))
        if t.k in ('int', 'ptr', 'float', 'double', 'fp80', 'array', 'vector') or (t.k == 'struct' and TypeIsSized(ref)):
            t.size = ABISize(self.dl, ref)
            t.align = ABIAlign(self.dl, ref)
        return t

    def func_by_ref(self, ref):
        f = self.fbyref.get(ref)
        if f is None:
            f = Func()
            f.ref = ref
            f.name = vname(ref)
            f.decl = bool(IsDeclaration(ref))
            f.loaded = False
            fty = GlobalValueType(ref)
            f.rty = self.type(ReturnType(fty))
            f.vararg = bool(IsVarArg(fty))
            f.params = [GetParam(ref, i) for i in range(CountParams(ref))]
            f.ptys = [self.type(TypeOf(p)) for p in f.params]
            self.fbyref[ref] = f
        return f

    def func(self, name):
        r = NamedFunction(self.mod, name.encode())
        return self.func_by_ref(r) if r else None

    def operand(self, ref):
        k = ValueKind(ref)
        if k == VK_ARG or k == 24 or (k not in (VK_FUNC, VK_ALIAS, VK_GVAR) and not IsConstant(ref)):
            return Loc(ref)
        return Const(ref)

    def load_func(self, f):
        if f.loaded:
            return f
        f.loaded = True
        f.blocks = []
        f.bymap = {}
        b = FirstBB(f.ref)
        while b:
            B = Block()
            B.ref = b
            B.idx = len(f.blocks)
            B.fn = f
            f.blocks.append(B)
            f.bymap[b] = B
            b = NextBB(b)
        for B in f.blocks:
            B.phis = []
            B.instrs = []
            i = FirstInstr(B.ref)
            while i:
                ins = self.decode(i, f)
                if ins is not None:
                    (B.phis if ins.op == 'phi' else B.instrs).append(ins)
                i = NextInstr(i)
            t = BBTerminator(B.ref)
            B.succs = []
            for s in range(NumSuccessors(t)):
                x = f.bymap[Successor(t, s)]
                if x not in B.succs:
                    B.succs.append(x)
        f.entry = f.blocks[0]
        self._cfg(f)
        return f

    def decode(self, ref, f):
        op = OPC.get(Opcode(ref), '?')
        ins = Instr()
        ins.op = op
        ins.ref = ref
        ins.id = ref
        ins.ty = self.type(TypeOf(ref))
        ins.line = None
        ins.x = ins.y = None
        n = NumOperands(ref)
        if op == 'phi':
            ins.ops = None
            ins.x = {}
            for k in range(CountIncoming(ref)):
                ins.x[IncomingBlock(ref, k)] = self.operand(IncomingValue(ref, k))
            return ins
        if op == 'br':
            if n == 1:
                ins.ops = []
                ins.x = [f.bymap[Successor(ref, 0)]]
            else:
                ins.ops = [self.operand(GetOperand(ref, 0))]
                ins.x = [f.bymap[Successor(ref, 0)], f.bymap[Successor(ref, 1)]]
            return ins
        if op == 'switch':
            ins.ops = [self.operand(GetOperand(ref, 0))]
            ins.x = f.bymap[Successor(ref, 0)]
            ins.y = []
            for k in range(1, NumSuccessors(ref)):
                ins.y.append((ConstIntZ(GetOperand(ref, 2 * k)), f.bymap[Successor(ref, k)]))
            return ins
        if op in ('call', 'invoke'):
            cv = CalledValue(ref)
            na = NumArgOperands(ref)
            if ValueKind(cv) == VK_FUNC:
                nm = vname(cv)
                if nm.startswith('llvm.dbg.') or nm.startswith('llvm.lifetime') or nm in (
                        'llvm.assume', 'llvm.experimental.noalias.scope.decl', 'llvm.donothing', 'llvm.stackrestore',
                        'llvm.prefetch', 'llvm.invariant.end', 'llvm.sideeffect') or nm.startswith('llvm.invariant.'):
                    return None
            ins.x = self.operand(cv)
            ins.ops = []
            ins.y = []
            for k in range(na):
                a = GetOperand(ref, k)
                ins.ops.append(self.operand(a) if self.type(TypeOf(a)).k != 'metadata' else None)
                ins.y.append(self.type(TypeOf(a)))
            if op == 'invoke':
                ins.y = (ins.y, f.bymap[NormalDest(ref)], f.bymap[UnwindDest(ref)])
            return ins
        ins.ops = [self.operand(GetOperand(ref, k)) for k in range(n)]
        if op == 'icmp':
            ins.x = ICMP[ICmpPred(ref)]
            ins.y = self.type(TypeOf(GetOperand(ref, 0)))
        elif op == 'fcmp':
            ins.x = FCMP[FCmpPred(ref)]
        elif op == 'alloca':
            ins.x = self.type(AllocatedType(ref))
        elif op == 'gep':
            ins.x = self.type(GEPSourceType(ref))
        elif op in ('extractvalue', 'insertvalue'):
            p = GetIndices(ref)
            ins.x = [p[k] for k in range(NumIndices(ref))]
        elif op == 'landingpad':
            ins.x = [self.operand(GetClause(ref, k)) for k in range(NumClauses(ref))]
            ins.y = bool(IsCleanup(ref))
        elif op == 'store':
            ins.x = self.type(TypeOf(GetOperand(ref, 0)))
        elif op == 'ret':
            pass
        elif op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'uitofp', 'sitofp', 'fptoui', 'fptosi',
                    'fpext', 'fptrunc'):
            ins.x = self.type(TypeOf(GetOperand(ref, 0)))
        elif op == 'atomicrmw':
            ins.x = AtomicRMWOp(ref)
            ins.y = self.type(TypeOf(GetOperand(ref, 1)))
        elif op == 'cmpxchg':
            ins.y = self.type(TypeOf(GetOperand(ref, 1)))
        return ins

    def _cfg(self, f):
        # reverse post order
        seen = set()
        order = []
        st = [(f.entry, iter(f.entry.succs))]
        seen.add(f.entry.idx)
        while st:
            b, it = st[-1]
            for s in it:
                if s.idx not in seen:
                    seen.add(s.idx)
                    st.append((s, iter(s.succs)))
                    break
            else:
                order.append(b)
                st.pop()
        order.reverse()
        f.rpo = {b.idx: k for k, b in enumerate(order)}
        preds = {b.idx: [] for b in order}
        for b in order:
            for s in b.succs:
                preds[s.idx].append(b)
        # dominators (iterative)
        idom = {f.entry.idx: f.entry}
        changed = True

        def inter(a, b):
            while a is not b:
                while f.rpo[a.idx] > f.rpo[b.idx]:
                    a = idom[a.idx]
                while f.rpo[b.idx] > f.rpo[a.idx]:
                    b = idom[b.idx]
            return a
        while changed:
            changed = False
            for b in order[1:]:
                new = None
                for p in preds[b.idx]:
                    if p.idx in idom:
                        new = p if new is None else inter(p, new)
                if idom.get(b.idx) is not new:
                    idom[b.idx] = new
                    changed = True

        def dom(a, b):
            while True:
                if a is b:
                    return True
                if b is f.entry:
                    return False
                b = idom[b.idx]
        f.loops = {}
        for b in order:
            for s in b.succs:
                if dom(s, b):
                    body = f.loops.setdefault(s.idx, {s.idx})
                    wl = [b]
                    while wl:
                        x = wl.pop()
                        if x.idx in body:
                            continue
                        body.add(x.idx)
                        wl.extend(preds[x.idx])

    def livein(self, f):
        """block index -> set of SSA values live on entry (phi results of the block count as live)"""
        if getattr(f, 'live', None) is not None:
            return f.live
        use, dfn, phiuse = {}, {}, {}
        for B in f.blocks:
            u, d = set(), set()
            i = FirstInstr(B.ref)
            while i:
                if OPC.get(Opcode(i)) == 'phi':
                    d.add(i)
                    for k in range(CountIncoming(i)):
                        v = IncomingValue(i, k)
                        if ValueKind(v) in (24, VK_ARG):
                            phiuse.setdefault(f.bymap[IncomingBlock(i, k)].idx, set()).add(v)
                else:
                    for k in range(NumOperands(i)):
                        v = GetOperand(i, k)
                        if ValueKind(v) in (24, VK_ARG) and v not in d:
                            u.add(v)
                    d.add(i)
                i = NextInstr(i)
            use[B.idx], dfn[B.idx] = u, d
        live = {B.idx: set(use[B.idx]) for B in f.blocks}
        ch = True
        while ch:
            ch = False
            for B in reversed(f.blocks):
                out = set(phiuse.get(B.idx, ()))
                for x in B.succs:
                    out |= live[x.idx]
                n = use[B.idx] | (out - dfn[B.idx])
                if n - live[B.idx]:
                    live[B.idx] |= n
                    ch = True
        f.live = live
        return live

    def line(self, ins):
        try:
            n = DebugLine(ins.ref)
            ln = U()
            p = DebugFile(ins.ref, C.byref(ln))
            fn = C.string_at(p, ln.value).decode() if p else '?'
            return "%s:%d" % (fn, n)
        except Exception:
            return "?"


def vname(ref):
    n = C.c_size_t()
    s = ValueName2(ref, C.byref(n))
    return s.decode('utf-8', 'replace') if s else ''


def pstr(ref):
    p = PrintValue(ref)
    s = C.cast(p, S).value.decode('utf-8', 'replace')
    DisposeMessage(p)
    return s

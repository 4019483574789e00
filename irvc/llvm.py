"""Reads LLVM bitcode through the LLVM-C API (ctypes) into plain Python objects.

Only functions that are asked for are converted.  Nothing is interpreted here: this is the front end of the
verification-condition generator.  The bitcode itself is produced on every run by clang++ from /repo's sources."""
import ctypes as C, os, functools

_paths = ['/usr/lib/llvm-18/lib/libLLVM.so.1', '/usr/lib/llvm-18/lib/libLLVM-18.so', '/usr/lib/x86_64-linux-gnu/libLLVM-18.so']
L = None
for _p in _paths:
    if os.path.exists(_p):
        L = C.CDLL(_p); break
V = C.c_void_p
def _f(name, res, *args):
    f = getattr(L, name); f.restype = res; f.argtypes = list(args); return f
I = C.c_int; U = C.c_uint; S = C.c_size_t
ContextCreate = _f('LLVMContextCreate', V)
MemBuf = _f('LLVMCreateMemoryBufferWithContentsOfFile', I, C.c_char_p, C.POINTER(V), C.POINTER(C.c_char_p))
ParseBC = _f('LLVMParseBitcodeInContext2', I, V, V, C.POINTER(V))
GetDL = _f('LLVMGetModuleDataLayout', V, V)
FirstFn = _f('LLVMGetFirstFunction', V, V); NextFn = _f('LLVMGetNextFunction', V, V)
FirstGl = _f('LLVMGetFirstGlobal', V, V); NextGl = _f('LLVMGetNextGlobal', V, V)
FirstGA = _f('LLVMGetFirstGlobalAlias', V, V); NextGA = _f('LLVMGetNextGlobalAlias', V, V); AliasGetAliasee=_f('LLVMAliasGetAliasee', V, V)
Name2 = _f('LLVMGetValueName2', C.POINTER(C.c_char), V, C.POINTER(S))
IsDecl = _f('LLVMIsDeclaration', I, V)
GlobalValueType = _f('LLVMGlobalGetValueType', V, V)
GetInit = _f('LLVMGetInitializer', V, V)
IsGlobalConst = _f('LLVMIsGlobalConstant', I, V)
Linkage = _f('LLVMGetLinkage', I, V); FirstUse = _f('LLVMGetFirstUse', V, V); NextUse = _f('LLVMGetNextUse', V, V); UseUser = _f('LLVMGetUser', V, V); IsConstE = _f('LLVMIsAConstantExpr', V, V); IsInstr = _f('LLVMIsAInstruction', V, V)
ASSUMED_CONST = {'_ZN5istat9intervalsE'}     # named in no header: other files cannot refer to it by accident
def only_read(g, seen=None):
    """a variable whose address only ever reaches loads and comparisons"""
    seen = seen if seen is not None else set()
    if g in seen: return True
    seen.add(g)
    if len(seen) > 200: return False
    u = FirstUse(g)
    while u:
        x = UseUser(u)
        if IsInstr(x):
            o = Opcode(x)
            if o in (27, 42): pass
            elif o in (29, 44, 46):
                if not only_read(x, seen): return False
            else: return False
        elif IsConstE(x):
            if ConstOp(x) != 29 or not only_read(x, seen): return False
        else: return False
        u = NextUse(u)
    return True
FirstBB = _f('LLVMGetFirstBasicBlock', V, V); NextBB = _f('LLVMGetNextBasicBlock', V, V)
FirstI = _f('LLVMGetFirstInstruction', V, V); NextI = _f('LLVMGetNextInstruction', V, V)
NParams = _f('LLVMCountParams', U, V); GetParam = _f('LLVMGetParam', V, V, U)
TypeOf = _f('LLVMTypeOf', V, V); TypeKind = _f('LLVMGetTypeKind', I, V); IntWidth = _f('LLVMGetIntTypeWidth', U, V)
NStruct = _f('LLVMCountStructElementTypes', U, V); StructAt = _f('LLVMStructGetTypeAtIndex', V, V, U)
StructName = _f('LLVMGetStructName', C.c_char_p, V)
ArrLen = _f('LLVMGetArrayLength', U, V); ElemType = _f('LLVMGetElementType', V, V)
ABISize = _f('LLVMABISizeOfType', C.c_ulonglong, V, V); OffsetOf = _f('LLVMOffsetOfElement', C.c_ulonglong, V, V, U)
IsSized = _f('LLVMTypeIsSized', I, V)
RetType = _f('LLVMGetReturnType', V, V)
Opcode = _f('LLVMGetInstructionOpcode', I, V); NOps = _f('LLVMGetNumOperands', I, V); Op = _f('LLVMGetOperand', V, V, U)
ICmpP = _f('LLVMGetICmpPredicate', I, V); FCmpP = _f('LLVMGetFCmpPredicate', I, V)
AllocTy = _f('LLVMGetAllocatedType', V, V); GEPTy = _f('LLVMGetGEPSourceElementType', V, V)
NInc = _f('LLVMCountIncoming', U, V); IncV = _f('LLVMGetIncomingValue', V, V, U); IncB = _f('LLVMGetIncomingBlock', V, V, U)
Called = _f('LLVMGetCalledValue', V, V); NArgs = _f('LLVMGetNumArgOperands', U, V)
NormalDest = _f('LLVMGetNormalDest', V, V); UnwindDest = _f('LLVMGetUnwindDest', V, V)
IsCond = _f('LLVMIsConditional', I, V); NSucc = _f('LLVMGetNumSuccessors', U, V); Succ = _f('LLVMGetSuccessor', V, V, U)
NIdx = _f('LLVMGetNumIndices', U, V); Idx = _f('LLVMGetIndices', C.POINTER(U), V)
ValueKind = _f('LLVMGetValueKind', I, V)
ZExt = _f('LLVMConstIntGetZExtValue', C.c_ulonglong, V)
RealD = _f('LLVMConstRealGetDouble', C.c_double, V, C.POINTER(I))
ConstOp = _f('LLVMGetConstOpcode', I, V)
IsStr = _f('LLVMIsConstantString', I, V); AsStr = _f('LLVMGetAsString', C.POINTER(C.c_char), V, C.POINTER(S))
AggElem = _f('LLVMGetAggregateElement', V, V, U)
NClauses = _f('LLVMGetNumClauses', U, V); Clause = _f('LLVMGetClause', V, V, U); IsCleanup = _f('LLVMIsCleanup', I, V)
RMWOp = _f('LLVMGetAtomicRMWBinOp', I, V)
BBAsV = _f('LLVMBasicBlockAsValue', V, V); VAsBB = _f('LLVMValueAsBasicBlock', V, V)
PrintV = _f('LLVMPrintValueToString', V, V)
DisposeMsg = _f('LLVMDisposeMessage', None, V)
NSW = _f('LLVMGetNSW', I, V); NUW = _f('LLVMGetNUW', I, V)

OPC = {1:'ret',2:'br',3:'switch',5:'invoke',7:'unreachable',8:'add',9:'fadd',10:'sub',11:'fsub',12:'mul',13:'fmul',14:'udiv',15:'sdiv',
 16:'fdiv',17:'urem',18:'srem',19:'frem',20:'shl',21:'lshr',22:'ashr',23:'and',24:'or',25:'xor',26:'alloca',27:'load',28:'store',29:'gep',
 30:'trunc',31:'zext',32:'sext',33:'fptoui',34:'fptosi',35:'uitofp',36:'sitofp',37:'fptrunc',38:'fpext',39:'ptrtoint',40:'inttoptr',
 41:'bitcast',42:'icmp',43:'fcmp',44:'phi',45:'call',46:'select',50:'extractelement',51:'insertelement',52:'shufflevector',53:'extractvalue',
 54:'insertvalue',55:'fence',56:'cmpxchg',57:'atomicrmw',58:'resume',59:'landingpad',66:'fneg',68:'freeze'}
ICMP = {32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}
FCMP = {0:'false',1:'oeq',2:'ogt',3:'oge',4:'olt',5:'ole',6:'one',7:'ord',8:'uno',9:'ueq',10:'ugt',11:'uge',12:'ult',13:'ule',14:'une',15:'true'}

class Type:
    __slots__ = ('kind','width','size','name','elems','offs','elem','n','ret')
    # kind: int ptr float double struct array void func label other
    def __repr__(self):
        if self.kind == 'int': return 'i%d' % self.width
        if self.kind == 'struct': return self.name or '{%s}' % ','.join(map(repr, self.elems or []))
        if self.kind == 'array': return '[%d x %r]' % (self.n, self.elem)
        return self.kind

class Value:      # operand reference
    __slots__ = ('k','ty','v','name','ops','op')
    # k: 'inst' 'arg' 'const' 'global' 'func' 'expr' 'undef' 'null' 'bb' 'agg' 'meta' 'asm'

class Inst:
    __slots__ = ('op','ty','ops','id','x','blk','nsw','nuw')

class Block:
    __slots__ = ('id','insts','preds','succs','idx')
    def __repr__(self): return 'bb%d' % self.idx

class Function:
    __slots__ = ('name','params','blocks','ret','dem','mod','loops','phis')

class Demangler:
    def __init__(self):
        self.lib = C.CDLL('libstdc++.so.6'); self.f = getattr(self.lib, '__cxa' + '_demangle')
        self.f.restype = C.c_void_p; self.f.argtypes = [C.c_char_p, V, V, C.POINTER(I)]
        self.free = C.CDLL('libc.so.6').free; self.free.argtypes = [V]
        self.cache = {}
    def __call__(self, n):
        r = self.cache.get(n)
        if r is None:
            st = I(0)
            p = self.f(n.encode(), None, None, C.byref(st))
            if p:
                r = C.string_at(p).decode('utf8', 'replace'); self.free(p)
            else: r = n
            self.cache[n] = r
        return r
demangle = Demangler()

class Module:
    def __init__(self, path):
        self.path = path
        self.ctx = ContextCreate()
        buf = V(); msg = C.c_char_p()
        if MemBuf(path.encode(), C.byref(buf), C.byref(msg)): raise IOError('%s: %s' % (path, msg.value))
        m = V()
        if ParseBC(self.ctx, buf, C.byref(m)): raise IOError('cannot parse ' + path)
        self.m = m
        self.dl = GetDL(m)
        self.fn_ref = {}; self.defined = set()
        f = FirstFn(m)
        while f:
            n = self._name(f); self.fn_ref[n] = f
            if not IsDecl(f): self.defined.add(n)
            f = NextFn(f)
        self.aliases = {}
        a = FirstGA(m)
        while a:
            self.aliases[self._name(a)] = self._name(AliasGetAliasee(a)); a = NextGA(a)
        self.gl_ref = {}
        g = FirstGl(m)
        while g:
            self.gl_ref[self._name(g)] = g; g = NextGl(g)
        self.types = {}; self.fns = {}
    def _name(self, v):
        n = S(0); p = Name2(v, C.byref(n)); return C.string_at(p, n.value).decode('utf8', 'replace')

    def type(self, t):
        r = self.types.get(t)
        if r is not None: return r
        r = Type(); self.types[t] = r
        k = TypeKind(t)
        r.width = r.size = r.name = r.elems = r.offs = r.elem = r.n = r.ret = None
        # LLVMTypeKind: void0 half1 float2 double3 x86fp80 4 fp128 5 ppc 6 label7 int8 func9 struct10 array11 ptr12 vector13 meta14
        if k == 0: r.kind = 'void'; return r
        if k == 2: r.kind = 'float'; r.width = 32
        elif k == 3: r.kind = 'double'; r.width = 64
        elif k == 7: r.kind = 'label'; return r
        elif k == 8: r.kind = 'int'; r.width = IntWidth(t)
        elif k == 9:
            r.kind = 'func'; r.ret = self.type(RetType(t)); return r
        elif k == 10:
            r.kind = 'struct'; nm = StructName(t); r.name = nm.decode() if nm else None
            if not IsSized(t): r.elems = None; return r
            n = NStruct(t)
            r.elems = [self.type(StructAt(t, i)) for i in range(n)]
            r.offs = [OffsetOf(self.dl, t, i) for i in range(n)]
        elif k == 11:
            r.kind = 'array'; r.n = ArrLen(t); r.elem = self.type(ElemType(t))
        elif k == 12: r.kind = 'ptr'; r.width = 64
        elif k == 13: r.kind = 'vector'; r.n = None
        else: r.kind = 'other'; return r
        r.size = ABISize(self.dl, t)
        return r

    def value(self, v, ids):
        if v in ids: return ids[v]
        k = ValueKind(v)
        r = Value(); r.v = r.name = r.ops = r.op = None
        # LLVMValueKind: Argument0 BasicBlock1 MemoryUse2 MemoryDef3 MemoryPhi4 Function5 GlobalAlias6 GlobalIFunc7 GlobalVariable8
        # BlockAddress9 ConstantExpr10 ConstantArray11 ConstantStruct12 ConstantVector13 Undef14 AggregateZero15 DataArray16 DataVector17
        # ConstantInt18 ConstantFP19 PointerNull20 TokenNone21 Metadata22 InlineAsm23 Instruction24 Poison25 TargetNone26
        if k in (22, 1): r.k = 'meta'; r.ty = None; return r
        r.ty = self.type(TypeOf(v))
        if k == 5: r.k = 'func'; r.name = self._name(v)
        elif k == 8 or k == 6 or k == 7:
            n = self._name(v)
            if n in self.aliases: r.k = 'func'; r.name = self.aliases[n]
            else: r.k = 'global'; r.name = n
        elif k == 18:
            r.k = 'const'
            w = r.ty.width
            if w <= 64: r.v = ZExt(v) & ((1 << w) - 1)
            else:
                p = PrintV(v); s = C.string_at(p).decode(); DisposeMsg(p); r.v = int(s.split()[-1]) & ((1 << w) - 1)
        elif k == 19:
            r.k = 'fconst'; lost = I(0); r.v = RealD(v, C.byref(lost))
        elif k == 20: r.k = 'null'
        elif k in (14, 25): r.k = 'undef'
        elif k == 15: r.k = 'zero'
        elif k in (11, 12, 13):
            r.k = 'agg'; r.ops = [self.value(Op(v, i), ids) for i in range(NOps(v))]
        elif k == 16:
            r.k = 'agg'
            r.ops = [self.value(AggElem(v, i), ids) for i in range(r.ty.n)]
        elif k == 10:
            r.k = 'expr'; r.op = OPC.get(ConstOp(v)); r.ops = [self.value(Op(v, i), ids) for i in range(NOps(v))]
            if r.op == 'gep': r.v = self.type(GEPTy(v))
        elif k == 23: r.k = 'asm'
        else: r.k = 'unknown%d' % k
        return r

    def global_info(self, name):
        g = self.gl_ref[name]
        ty = self.type(GlobalValueType(g))
        init = GetInit(g)
        return ty, (self.value(init, {}) if init else None), bool(IsGlobalConst(g)) or ((Linkage(g) in (8, 9) or name in ASSUMED_CONST) and only_read(g))

    def function(self, name):
        if name in self.fns: return self.fns[name]
        f = self.fn_ref[name]
        F = Function(); F.name = name; F.dem = demangle(name); F.mod = self; F.loops = None; F.phis = None
        ids = {}
        F.params = []
        for i in range(NParams(f)):
            p = GetParam(f, i); r = Value(); r.k = 'arg'; r.v = i; r.ty = self.type(TypeOf(p)); r.name = r.ops = r.op = None
            ids[p] = r; F.params.append(r)
        F.blocks = []; bbmap = {}
        b = FirstBB(f)
        while b:
            B = Block(); B.id = b; B.insts = []; B.preds = []; B.succs = []; B.idx = len(F.blocks); bbmap[b] = B; F.blocks.append(B)
            b = NextBB(b)
        n = 0; raw = []
        for B in F.blocks:
            i = FirstI(B.id)
            while i:
                r = Value(); r.k = 'inst'; r.v = n; r.ty = self.type(TypeOf(i)); r.name = r.ops = r.op = None
                ids[i] = r; raw.append((B, i, n)); n += 1
                i = NextI(i)
        for B, i, n in raw:
            X = Inst(); X.id = n; X.op = OPC.get(Opcode(i), 'op%d' % Opcode(i)); X.ty = self.type(TypeOf(i)); X.x = None; X.blk = B
            X.nsw = X.nuw = False
            if X.op in ('add','sub','mul','shl'): X.nsw = bool(NSW(i)); X.nuw = bool(NUW(i))
            val = lambda v: self.value(v, ids)
            if X.op == 'phi':
                X.ops = [(val(IncV(i, j)), bbmap[IncB(i, j)]) for j in range(NInc(i))]
            elif X.op == 'br':
                if IsCond(i): X.ops = [val(Op(i, 0))]; X.x = [bbmap[Succ(i, 0)], bbmap[Succ(i, 1)]]
                else: X.ops = []; X.x = [bbmap[Succ(i, 0)]]
            elif X.op == 'switch':
                ns = NSucc(i)
                X.ops = [val(Op(i, 0))] + [val(Op(i, 2 * j)) for j in range(1, ns)]
                X.x = [bbmap[Succ(i, j)] for j in range(ns)]
            elif X.op in ('call', 'invoke'):
                na = NArgs(i); X.ops = [val(Called(i))] + [val(Op(i, j)) for j in range(na)]
                X.x = [bbmap[NormalDest(i)], bbmap[UnwindDest(i)]] if X.op == 'invoke' else None
            elif X.op in ('extractvalue', 'insertvalue'):
                ix = Idx(i); nn = NIdx(i); X.x = [ix[j] for j in range(nn)]
                X.ops = [val(Op(i, j)) for j in range(NOps(i))]
            elif X.op == 'landingpad':
                X.x = (bool(IsCleanup(i)), [val(Clause(i, j)) for j in range(NClauses(i))]); X.ops = []
            else:
                X.ops = [val(Op(i, j)) for j in range(NOps(i))]
                if X.op == 'icmp': X.x = ICMP[ICmpP(i)]
                elif X.op == 'fcmp': X.x = FCMP[FCmpP(i)]
                elif X.op == 'alloca': X.x = self.type(AllocTy(i))
                elif X.op == 'gep': X.x = self.type(GEPTy(i))
                elif X.op == 'atomicrmw': X.x = RMWOp(i)
            B.insts.append(X)
        for B in F.blocks:
            t = B.insts[-1]
            if t.x and t.op in ('br', 'switch', 'invoke'):
                for s in t.x:
                    if s not in B.succs: B.succs.append(s); s.preds.append(B)
        self.fns[name] = F
        return F

def natural_loops(F):
    """header block -> set of blocks of its natural loop(s)"""
    if F.loops is not None: return F.loops
    order = []; seen = set()
    st = [(F.blocks[0], iter(F.blocks[0].succs))]; seen.add(F.blocks[0])
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s); st.append((s, iter(s.succs))); break
        else:
            order.append(b); st.pop()
    order.reverse(); num = {b: i for i, b in enumerate(order)}
    idom = {order[0]: order[0]}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            new = None
            for p in b.preds:
                if p in idom:
                    if new is None: new = p
                    else:
                        x, y = p, new
                        while x is not y:
                            while num[x] > num[y]: x = idom[x]
                            while num[y] > num[x]: y = idom[y]
                        new = x
            if idom.get(b) is not new: idom[b] = new; ch = True
    def dom(a, b):
        while True:
            if a is b: return True
            if idom[b] is b: return False
            b = idom[b]
    loops = {}
    for b in order:
        for s in b.succs:
            if dom(s, b):
                body = loops.setdefault(s, {s}); work = [b]
                while work:
                    x = work.pop()
                    if x not in body:
                        body.add(x); work += [p for p in x.preds if p in num]
    F.loops = loops
    return loops

class Program:
    """several modules, functions resolved by mangled name across them"""
    def __init__(self, paths):
        self.mods = [Module(p) for p in paths]
        self.dem_index = None
    def find(self, mangled):
        for m in self.mods:
            if mangled in m.defined: return m.function(mangled)
            if mangled in m.aliases and m.aliases[mangled] in m.defined: return m.function(m.aliases[mangled])
        # C1/C2, D1/D2 constructor variants are aliases of each other
        for a, b in (('C1E', 'C2E'), ('D1E', 'D2E'), ('C2E', 'C1E'), ('D2E', 'D1E')):
            if a in mangled:
                alt = b.join(mangled.rsplit(a, 1))
                for m in self.mods:
                    if alt in m.defined: return m.function(alt)
        return None
    def by_dem(self, pred):
        """all defined functions whose demangled name satisfies pred (str: exact or callable)"""
        if self.dem_index is None:
            self.dem_index = {}
            for m in self.mods:
                for n in m.defined: self.dem_index.setdefault(demangle(n), []).append((m, n))
        if isinstance(pred, str):
            hits = self.dem_index.get(pred, [])
        else:
            hits = [h for d, hs in self.dem_index.items() if pred(d) for h in hs]
        return [m.function(n) for m, n in hits]
    def function(self, dem):
        r = self.by_dem(dem)
        if not r: raise KeyError('no function ' + dem)
        # prefer C2/D2-insensitive first
        return r[0]
    def struct(self, name):
        for m in self.mods:
            for t in list(m.types.values()):
                if t.kind == 'struct' and t.name == name and t.elems is not None: return t
        return None

"""Symbolic execution of LLVM IR functions into verification conditions, discharged by z3.

A function under contract is executed once over symbolic inputs.  Every path ends in an outcome (return / throw); loops are either
unrolled completely (when the path condition bounds them) or cut at their header with an inductive invariant (loops.py part below);
calls are answered by a contract, by an assumed library contract, or by executing the callee's own body."""
import z3, time, itertools, struct, sys
from . import intabs
from . import llvm
from .llvm import demangle, natural_loops

sys.setrecursionlimit(20000)
BV64 = z3.BitVecSort(64); BV8 = z3.BitVecSort(8)
F32 = z3.FPSort(8, 24); F64 = z3.FPSort(11, 53); RNE = z3.RNE(); RTZ = z3.RTZ()
M64 = (1 << 64) - 1

class Unsupported(Exception): pass
class Budget(Exception): pass

# ------------------------------------------------------------------------------------------------ values
def isc(x): return isinstance(x, (int, bool))
def sgn(v, w): return v - (1 << w) if v >> (w - 1) else v
def bv(x, w):
    """python int or z3 -> z3 bitvector"""
    if isinstance(x, (PInt,)): return x.z3()
    if isinstance(x, bool): x = int(x)
    if isinstance(x, int): return z3.BitVecVal(x, w)
    return x
def bo(x):
    if isinstance(x, (bool, int)): return z3.BoolVal(bool(x))
    return x
def conc(e):
    """fold a z3 term to a python constant if it is one"""
    if isinstance(e, (int, bool)): return e
    if z3.is_bv_value(e): return e.as_long()
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    return e
def simp(e):
    if isinstance(e, (int, bool)): return e
    return conc(z3.simplify(e))

def lin(e):
    """64-bit term -> (const, {term: scale}) modulo 2^64, so that e = const + sum scale*term"""
    if isinstance(e, int): return e & M64, {}
    c = 0; d = {}
    work = [(1, e)]
    while work:
        s, x = work.pop()
        if z3.is_bv_value(x): c += s * x.as_long(); continue
        k = x.decl().kind() if z3.is_app(x) else None
        if k == z3.Z3_OP_BADD:
            work += [(s, y) for y in x.children()]; continue
        if k == z3.Z3_OP_BSUB:
            a, b = x.children(); work += [(s, a), (-s, b)]; continue
        if k == z3.Z3_OP_BNEG: work.append((-s, x.arg(0))); continue
        if k == z3.Z3_OP_BMUL and x.num_args() == 2 and (z3.is_bv_value(x.arg(0)) or z3.is_bv_value(x.arg(1))):
            a, b = x.arg(0), x.arg(1)
            if z3.is_bv_value(b): a, b = b, a
            m = a.as_long()
            if m >> 63: m -= 1 << 64
            work.append((s * m, b)); continue
        if k == z3.Z3_OP_BSHL and z3.is_bv_value(x.arg(1)) and x.arg(1).as_long() < 63:
            work.append((s << x.arg(1).as_long(), x.arg(0))); continue
        d[x] = d.get(x, 0) + s
    return c, {k: v for k, v in d.items() if v & M64}

class Off:
    """byte offset: const + sum scale*term"""
    __slots__ = ('c', 't')
    def __init__(self, c=0, t=None): self.c = c; self.t = t or {}
    def add(self, e, scale=1):
        if isinstance(e, PInt): e = e.z3()
        if isinstance(e, int):
            if e >> 63: e -= 1 << 64
            return Off(self.c + scale * e, self.t)
        c, d = lin(e)
        if c >> 63: c -= 1 << 64
        t = dict(self.t)
        for k, v in d.items():
            n = t.get(k, 0) + scale * v
            if n: t[k] = n
            else: t.pop(k, None)
        return Off(self.c + scale * c, t)
    def z3(self):
        r = z3.BitVecVal(self.c & M64, 64)
        for k, v in self.t.items(): r = r + (k if v == 1 else z3.BitVecVal(v & M64, 64) * k)
        return r
    def const(self): return None if self.t else self.c
    def sub(self, o):
        t = dict(self.t)
        for k, v in o.t.items():
            n = t.get(k, 0) - v
            if n: t[k] = n
            else: t.pop(k, None)
        return Off(self.c - o.c, t)
    def div(self, s):
        """index term if every part is a multiple of s"""
        if self.c % s or any(v % s for v in self.t.values()): return None
        return Off(self.c // s, {k: v // s for k, v in self.t.items()})
    def value(self):
        return self.c & M64 if not self.t else self.z3()

class Ptr:
    __slots__ = ('r', 'off', 'tag')
    def __init__(self, r, off=None, tag=None): self.r = r; self.off = off or Off(); self.tag = tag
    def plus(self, e, scale=1): return Ptr(self.r, self.off.add(e, scale), self.tag)
    def at(self, c): return Ptr(self.r, Off(self.off.c + c, self.off.t), self.tag)
    def __repr__(self): return 'Ptr(%s%s)' % (self.r.name if self.r else 'null', '+%d' % self.off.c if not self.off.t else '+...')
NULL = Ptr(None)

class FuncPtr:
    __slots__ = ('name', 'm')
    def __init__(self, name, m=None): self.name = name; self.m = m
    def __repr__(self): return 'Func(%s)' % self.name

class PInt:
    """integer that is (address of region r +) offset; difference of two pointers has r None"""
    __slots__ = ('r', 'off')
    def __init__(self, r, off): self.r = r; self.off = off
    def z3(self):
        if self.r is None: return self.off.z3()
        return self.r.base() + self.off.z3()

class Choice:
    """value of a cell that differs between cases; loading it forks the path"""
    def __init__(self, alts): self.alts = alts

class UndefV:
    pass
UNDEF = UndefV()

_ctr = itertools.count()
def fresh(name, sort):
    n = '%s!%d' % (name, next(_ctr))
    if isinstance(sort, int): return z3.Bool(n) if sort == 1 else z3.BitVec(n, sort)
    if sort == 'float': return z3.FP(n, F32)
    if sort == 'double': return z3.FP(n, F64)
    return z3.Const(n, sort)

# ------------------------------------------------------------------------------------------------ floating point
class FPOps:
    """mode 'uf': + - * / sqrt are uninterpreted functions (sound for proofs of equality and frames; commutative ones normalised);
    mode 'native': IEEE-754 terms of z3"""
    mode = 'uf'
    def __init__(self, mode='uf'):
        self.mode = mode; self.used = set(); self.uf = {}
    def srt(self, s): return 32 if s == F32 else 64
    def fn(self, op, s, n):
        k = (op, self.srt(s), n)
        if k not in self.uf: self.uf[k] = z3.Function('f%s%d' % (op, self.srt(s)), *([s] * (n + 1)))
        return self.uf[k]
    def bin(self, op, a, b):
        s = a.sort()
        if z3.is_fp_value(a) and z3.is_fp_value(b) or self.mode == 'native':
            r = {'add': z3.fpAdd, 'sub': z3.fpSub, 'mul': z3.fpMul, 'div': z3.fpDiv}[op](RNE, a, b)
            return z3.simplify(r) if z3.is_fp_value(a) and z3.is_fp_value(b) else r
        self.used.add(op)
        if op in ('add', 'mul') and not z3.eq(a, b):
            ha, hb = a.hash(), b.hash()          # structural, so that a rebuilt term is ordered alike
            if ha > hb or ha == hb and a.sexpr() > b.sexpr(): a, b = b, a
        return self.fn(op, s, 2)(a, b)
    def add(self, a, b): return self.bin('add', a, b)
    def sub(self, a, b): return self.bin('sub', a, b)
    def mul(self, a, b): return self.bin('mul', a, b)
    def div(self, a, b): return self.bin('div', a, b)
    def sqrt(self, a):
        if self.mode == 'native': return z3.fpSqrt(RNE, a)
        return self.fn('sqrt', a.sort(), 1)(a)
    def to32(self, a): return z3.simplify(z3.fpFPToFP(RNE, a, F32)) if z3.is_fp_value(a) else z3.fpFPToFP(RNE, a, F32)
    def to64(self, a): return z3.simplify(z3.fpFPToFP(RNE, a, F64)) if z3.is_fp_value(a) else z3.fpFPToFP(RNE, a, F64)
    def fromsint(self, a, s, w):
        a = bv(a, w)
        return z3.simplify(z3.fpSignedToFP(RNE, a, s)) if z3.is_bv_value(a) else z3.fpSignedToFP(RNE, a, s)
    def fromuint(self, a, s, w):
        a = bv(a, w)
        return z3.simplify(z3.fpUnsignedToFP(RNE, a, s)) if z3.is_bv_value(a) else z3.fpUnsignedToFP(RNE, a, s)

def fval(x, s=F64): return z3.FPVal(x, s)

# ------------------------------------------------------------------------------------------------ memory
def flatten(ty, base=0, out=None):
    """leaf list [(offset, Type or ('bytes', n))] of an IR type"""
    if out is None: out = []
    if ty.kind == 'struct':
        if ty.elems is None: raise Unsupported('opaque struct ' + str(ty.name))
        for e, o in zip(ty.elems, ty.offs): flatten(e, base + o, out)
    elif ty.kind == 'array':
        if ty.elem.kind == 'int' and ty.elem.width == 8 and ty.n > 32: out.append((base, ('bytes', ty.n)))
        else:
            for i in range(ty.n): flatten(ty.elem, base + i * ty.elem.size, out)
    else: out.append((base, ty))
    return out

class Region:
    _n = itertools.count()
    def __init__(self, name, size=None, ty=None, stride=0, count=None, lazy=False, kind='heap', null_zero=False, ptr_leaf=None, init=None):
        self.id = next(Region._n); self.name = name; self.ty = ty; self.stride = stride
        self.size = size            # bytes: int or z3 term (plain regions: int or None)
        self.count = count          # array regions: element count, z3 term / int / callable(state)
        self.lazy = lazy            # unknown initial content is symbolic (else indeterminate)
        self.kind = kind; self.null_zero = null_zero
        self.ptr_leaf = ptr_leaf or {}   # leaf offset -> (target region, scale)
        self.leaves = None
        self.init = init            # dict of leaf offset -> initial array / value
        if ty is not None: self.leaves = dict(flatten(ty))
        self._base = None; self.const = False; self.forward = None; self.vt = None
        self.on_write = None; self.on_ptr = None; self.rec = None
    def base(self):
        if self._base is None: self._base = z3.BitVec('addr_%s_%d' % (self.name, self.id), 64)
        return self._base
    def __repr__(self): return 'Region(%s#%d)' % (self.name, self.id)

def type_sort(ty):
    if ty.kind == 'int': return z3.BoolSort() if ty.width == 1 else z3.BitVecSort(ty.width)
    if ty.kind == 'float': return F32
    if ty.kind == 'double': return F64
    if ty.kind == 'ptr': return BV64
    raise Unsupported('sort of ' + repr(ty))

class IntTy:
    pass
def ity(w):
    t = llvm.Type(); t.kind = 'int'; t.width = w; t.size = max(1, w // 8); t.name = t.elems = t.offs = t.elem = t.n = t.ret = None
    return t
def fty(k):
    t = llvm.Type(); t.kind = k; t.width = {'float': 32, 'double': 64, 'ptr': 64}[k]; t.size = t.width // 8
    t.name = t.elems = t.offs = t.elem = t.n = t.ret = None
    return t
T8, T32, T64, TF, TD, TP = ity(8), ity(32), ity(64), fty('float'), fty('double'), fty('ptr')

def conv(v, ty, frm=None):
    """reinterpret a stored value as IR type ty (same size)"""
    if isinstance(v, (UndefV,)): return fresh_of('undef', ty)
    if ty.kind == 'ptr':
        if isinstance(v, (Ptr, FuncPtr, Choice)): return v
        if isinstance(v, PInt) and v.r is not None: return Ptr(v.r, v.off)
        if isinstance(v, int) and v == 0: return NULL
        if isinstance(v, PInt): v = v.z3()
        if z3.is_bv(v): return Ptr(RAWADDR, Off(0, {v: 1}))
        raise Unsupported('load pointer from %r' % (v,))
    if ty.kind == 'int':
        if isinstance(v, Ptr):
            return 0 if v.r is None else PInt(v.r, v.off)
        if isinstance(v, bool): v = int(v)
        if isinstance(v, int): return v if ty.width > 1 else bool(v & 1)
        if isinstance(v, PInt): return v
        if z3.is_fp(v): return z3.fpToIEEEBV(v)
        if z3.is_bool(v): return v if ty.width == 1 else z3.If(v, z3.BitVecVal(1, ty.width), z3.BitVecVal(0, ty.width))
        if ty.width == 1: return z3.Extract(0, 0, v) == 1
        return v
    if ty.kind in ('float', 'double'):
        s = F32 if ty.kind == 'float' else F64
        if isinstance(v, int):
            return z3.simplify(z3.fpBVToFP(z3.BitVecVal(v, ty.width), s))
        if z3.is_bv(v): return z3.fpBVToFP(v, s)
        return v
    raise Unsupported('conv to ' + repr(ty))

def fresh_of(name, ty):
    if ty.kind == 'int': return fresh(name, ty.width)
    if ty.kind in ('float', 'double'): return fresh(name, ty.kind)
    if ty.kind == 'ptr': return Ptr(RAWADDR, Off(0, {fresh(name, 64): 1}))
    raise Unsupported('fresh of ' + repr(ty))

RAWADDR = Region('rawaddr', kind='raw')

def val_size(v):
    if isinstance(v, (Ptr, FuncPtr, PInt, Choice)): return 8
    if z3.is_bv(v): return (v.size() + 7) // 8
    if z3.is_bool(v): return 1
    if z3.is_fp(v): return 4 if v.sort() == F32 else 8
    raise Unsupported('size of %r' % (v,))

class State:
    __slots__ = ('pc', 'mem', 'dead', 'ghost', 'trace', 'ex', 'own')
    def __init__(self, ex):
        self.pc = []; self.mem = {}; self.dead = set(); self.ghost = {}; self.trace = []; self.ex = ex; self.own = set()
    def clone(self):
        s = State(self.ex); s.pc = list(self.pc); s.mem = dict(self.mem); s.dead = set(self.dead); s.ghost = dict(self.ghost)
        s.trace = list(self.trace); self.own = set(); return s
    def assume(self, c):
        if c is True: return
        if c is False: c = z3.BoolVal(False)
        self.pc.append(c)
    def cells(self, r, write=False):
        d = self.mem.get(r.id)
        if d is None:
            d = dict(r.init) if r.init else {}
            self.mem[r.id] = d; self.own.add(r.id)
        elif write and r.id not in self.own:
            d = dict(d); self.mem[r.id] = d; self.own.add(r.id)
        return d
    # ---- array regions: leaf arrays
    def arr(self, r, leaf):
        d = self.cells(r)
        a = d.get(leaf)
        if a is None:
            ty = r.leaves[leaf]
            a = z3.Const('%s.%d.%d' % (r.name, r.id, leaf), z3.ArraySort(BV64, type_sort(ty)))
            d[leaf] = a        # initial symbolic content: same name in every state
        return a
    def setarr(self, r, leaf, a):
        self.cells(r, True)[leaf] = a
        if self.ex.wlog is not None: self.ex.wlog.add((r, leaf))
    def getg(self, k, default=None): return self.ghost.get(k, default)
    def setg(self, k, v):
        self.ghost[k] = v
        if self.ex.wlog is not None: self.ex.wlog.add(('ghost', k))

    # ---- field helpers for contracts (concrete offset in plain region)
    def get(self, p, off, ty): return self.ex.load(self, p.at(off), ty, check=False)
    def put(self, p, off, ty, v): self.ex.store(self, p.at(off), ty, v, check=False)

class Outcome:
    __slots__ = ('kind', 'st', 'val')
    def __init__(self, kind, st, val=None): self.kind = kind; self.st = st; self.val = val

class Exc:
    def __init__(self, tyname, what=None): self.ty = tyname; self.what = what
    def __repr__(self): return 'Exc(%s)' % self.ty

STD_BASES = {
 'std::runtime_error': ['std::exception'], 'std::logic_error': ['std::exception'],
 'std::range_error': ['std::runtime_error', 'std::exception'], 'std::out_of_range': ['std::logic_error', 'std::exception'],
 'std::invalid_argument': ['std::logic_error', 'std::exception'], 'std::length_error': ['std::logic_error', 'std::exception'],
 'std::bad_alloc': ['std::exception'], 'boost::bad_lexical_cast': ['std::bad_cast', 'std::exception'], 'boost::wrapexcept<boost::bad_lexical_cast>': ['boost::bad_lexical_cast','std::bad_cast','std::exception'],
}

# ------------------------------------------------------------------------------------------------ obligations
class Obligation:
    def __init__(self, name, fn, kind):
        self.name = name; self.fn = fn; self.kind = kind; self.status = None; self.backend = None; self.time = 0.0
        self.model = None; self.detail = None; self.count = 0

class Report:
    def __init__(self):
        self.obs = {}          # name -> Obligation (merged over paths: fails if any path fails)
        self.solver_time = 0.0; self.queries = 0; self.paths = 0; self.functions = []; self.inlined = set(); self.assumed = set()
        self.trivial = 0; self.loops = []; self.covers = {}
        self.failed_models = []
    def ob(self, name, fn, kind):
        o = self.obs.get(name)
        if o is None: o = self.obs[name] = Obligation(name, fn, kind)
        return o

HARD = {z3.Z3_OP_BSDIV: 'sdiv', z3.Z3_OP_BUDIV: 'udiv', z3.Z3_OP_BSREM: 'srem', z3.Z3_OP_BUREM: 'urem', z3.Z3_OP_BSDIV_I: 'sdiv', z3.Z3_OP_BUDIV_I: 'udiv', z3.Z3_OP_BSREM_I: 'srem', z3.Z3_OP_BUREM_I: 'urem', z3.Z3_OP_BMUL: 'mul'}
COMM = {'fadd32', 'fadd64', 'fmul32', 'fmul64'}
FPCONV = {z3.Z3_OP_FPA_TO_FP, z3.Z3_OP_FPA_TO_FP_UNSIGNED, z3.Z3_OP_FPA_TO_SBV, z3.Z3_OP_FPA_TO_UBV}
class Abstraction:
    """replaces division, remainder and multiplication of two symbolic bit-vectors by uninterpreted functions with simple bounds as axioms.
    Used for a first attempt only: unsat of the abstraction implies unsat; anything else is decided on the precise formula."""
    def __init__(self, precise=False): self.cache = {}; self.ufs = {}; self.keep = []; self.pairs = None; self.precise = precise      # precise: only collect axioms
    def uf(self, op, w):
        f = self.ufs.get((op, w))
        if f is None: f = self.ufs[(op, w)] = z3.Function('abs_%s%d' % (op, w), z3.BitVecSort(w), z3.BitVecSort(w), z3.BitVecSort(w))
        return f
    def apply(self, e):
        """(abstracted term, tuple of axioms)"""
        c = self.cache; stack = [(e, False)]
        while stack:
            x, done = stack.pop(); i = x.get_id()
            if i in c: continue
            if z3.is_quantifier(x) or z3.is_var(x): c[i] = (x, ()); self.keep.append(x); continue
            ch = x.children()
            if not done:
                if not ch: c[i] = (x, ()); self.keep.append(x); continue
                stack.append((x, True)); stack.extend((y, False) for y in ch if y.get_id() not in c); continue
            rs = [c[y.get_id()] for y in ch]; ax = {}
            for r in rs:
                for a in r[1]: ax[a.get_id()] = a
            k = x.decl().kind(); a = [r[0] for r in rs]
            if k == z3.Z3_OP_UNINTERPRETED and len(a) == 2 and x.decl().name() in COMM and not a[0].eq(a[1]):
                y = x.decl()(*a); n = y == x.decl()(a[1], a[0]); ax[n.get_id()] = n; self.keep.append(n); r = (y, tuple(ax.values()))
            elif not self.precise and k in HARD and sum(1 for y in a if not z3.is_bv_value(y)) >= 2 or not self.precise and k in HARD and HARD[k] != 'mul' and not z3.is_bv_value(a[1]):
                w = x.size(); op = HARD[k]
                if op == 'mul':
                    m = self.uf('mul', w); y = a[0]
                    for b in a[1:]:
                        n = m(y, b) == m(b, y); ax[n.get_id()] = n; self.keep.append(n); y = m(y, b)
                else:
                    y = self.uf(op, w)(a[0], a[1]); p, q = a; z = z3.BitVecVal(0, w)
                    if op == 'srem': n = z3.Implies(z3.And(q > 0), z3.And(z3.Implies(z3.And(p >= 0, p < q), y == p), y < q, y > -q, z3.Implies(p >= 0, z3.And(y >= 0, y <= p)), z3.Implies(p <= 0, z3.And(y <= 0, y >= p))))
                    elif op == 'sdiv': n = z3.Implies(q > 0, z3.And(z3.Implies(z3.And(p >= 0, p < q), y == 0), z3.Implies(p >= 0, z3.And(y >= 0, y <= p)), z3.Implies(p <= 0, z3.And(y <= 0, y >= p))))
                    elif op == 'urem': n = z3.Implies(q != 0, z3.And(z3.Implies(z3.ULT(p, q), y == p), z3.ULT(y, q), z3.ULE(y, p)))
                    else: n = z3.Implies(q != 0, z3.And(z3.ULE(y, p), z3.Implies(z3.ULT(p, q), y == 0)))
                    ax[n.get_id()] = n
                    if self.pairs is not None and op in ('srem', 'sdiv'):
                        for n in self.pair(p, q, w): ax[n.get_id()] = n; self.keep.append(n)
                r = (y, tuple(ax.values()))
            elif not self.precise and k in FPCONV and len(a) == 2 and not z3.is_bv_value(a[1]) and not z3.is_fp_value(a[1]):
                s0, s1 = a[1].sort(), x.sort(); key = (k, s0.sexpr(), s1.sexpr(), a[0].sexpr())
                f = self.ufs.get(key)
                if f is None: f = self.ufs[key] = z3.Function('abs_fp%d' % len(self.ufs), s0, s1)
                r = (f(a[1]), tuple(ax.values()))
            elif all(p is q or p.eq(q) for p, q in zip(a, ch)): r = (x, tuple(ax.values()))
            else: r = (x.decl()(*a) if not (k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_BADD, z3.Z3_OP_DISTINCT, z3.Z3_OP_CONCAT) or x.num_args() > 2) else rebuild(x, k, a), tuple(ax.values()))
            c[i] = r; self.keep.append(x)
        return c[e.get_id()]
    def pair(self, p, q, w):
        """facts relating the quotients and remainders of two dividends by the same divisor (valid for signed division of non-negative numbers)"""
        d, m = self.uf('sdiv', w), self.uf('srem', w); mul = self.uf('mul', w); out = []
        for pp, qq, o in self.pairs:
            if pp.eq(p) and qq.eq(q): return o
        nz = q != 0
        out.append(z3.Implies(nz, z3.And(mul(d(p, q), q) + m(p, q) == p, mul(q, d(p, q)) + m(p, q) == p)))
        out.append(z3.Implies(z3.And(q > 0, p >= 0), z3.And(m(p, q) >= 0, m(p, q) < q, m(p, q) <= p, d(p, q) >= 0, d(p, q) <= p)))
        for pp, qq, _ in self.pairs:
            if not qq.eq(q): continue
            for a, b in ((p, pp), (pp, p)):
                out.append(z3.Implies(z3.And(q > 0, a >= 0, b >= a, z3.ULT(m(a, q) + (b - a), q)), z3.And(m(b, q) == m(a, q) + (b - a), d(b, q) == d(a, q))))
        self.pairs.append((p, q, out)); return out
def rebuild(x, k, a):
    if k == z3.Z3_OP_AND: return z3.And(*a)
    if k == z3.Z3_OP_OR: return z3.Or(*a)
    if k == z3.Z3_OP_DISTINCT: return z3.Distinct(*a)
    if k == z3.Z3_OP_CONCAT: return z3.Concat(*a)
    if k == z3.Z3_OP_BADD:
        y = a[0]
        for b in a[1:]: y = y + b
        return y
    if k == z3.Z3_OP_ITE: return z3.If(*a)
    return z3.substitute(x, *[(p, q) for p, q in zip(x.children(), a) if not p.eq(q)])

class NoFP(Exception): pass
US = {32: z3.DeclareSort('U32'), 64: z3.DeclareSort('U64'), 'rm': z3.DeclareSort('Urm')}
class FpAbstraction:
    """on top of Abstraction: floating point values become elements of an uninterpreted sort, every operation on them an uninterpreted function"""
    def __init__(self, inner): self.inner = inner; self.cache = {}; self.keep = []; self.fns = {}; self.vals = {}
    def sort(self, s):
        if s == F32: return US[32]
        if s == F64: return US[64]
        if s.kind() == z3.Z3_ROUNDING_MODE_SORT: return US['rm']
        if s.kind() == z3.Z3_ARRAY_SORT: return z3.ArraySort(self.sort(s.domain()), self.sort(s.range()))
        if s.kind() == z3.Z3_FLOATING_POINT_SORT: raise NoFP()
        return s
    def fn(self, key, args, res):
        f = self.fns.get(key)
        if f is None: f = self.fns[key] = z3.Function('u!%d' % len(self.fns), *([a.sort() for a in args] + [res]))
        return f(*args)
    def apply(self, e):
        e, ax = self.inner.apply(e)
        return self.conv(e), tuple(self.conv(a) for a in ax)
    def conv(self, e):
        c = self.cache; stack = [(e, False)]
        while stack:
            x, done = stack.pop(); i = x.get_id()
            if i in c: continue
            if z3.is_quantifier(x) or z3.is_var(x): raise NoFP()
            ch = x.children()
            if not done and ch: stack.append((x, True)); stack.extend((y, False) for y in ch if y.get_id() not in c); continue
            a = [c[y.get_id()] for y in ch]; k = x.decl().kind(); self.keep.append(x)
            same = all(p is q or p.eq(q) for p, q in zip(a, ch)); so = x.sort(); ns = self.sort(so)
            if z3.is_fp_value(x) or (so.kind() == z3.Z3_ROUNDING_MODE_SORT and not ch):
                key = ('val', x.sexpr(), str(so)); r = self.vals.get(key)
                if r is None: r = self.vals[key] = z3.Const('v!%d' % len(self.vals), ns)
            elif same and ns.eq(so) and not any(not self.sort(y.sort()).eq(y.sort()) for y in ch): r = x
            elif not ch:
                r = z3.Const(x.decl().name() + '!u', ns)
            elif k == z3.Z3_OP_UNINTERPRETED: r = self.fn(('uf', x.decl().name(), x.decl().sexpr()), a, ns)
            elif k == z3.Z3_OP_SELECT: r = z3.Select(a[0], a[1])
            elif k == z3.Z3_OP_STORE: r = z3.Store(a[0], a[1], a[2])
            elif k == z3.Z3_OP_CONST_ARRAY: r = z3.K(so.domain(), a[0])
            elif k == z3.Z3_OP_ITE: r = z3.If(a[0], a[1], a[2])
            elif k == z3.Z3_OP_EQ: r = a[0] == a[1]
            elif k == z3.Z3_OP_DISTINCT: r = z3.Distinct(*a)
            elif k == z3.Z3_OP_AND: r = z3.And(*a)
            elif k == z3.Z3_OP_OR: r = z3.Or(*a)
            elif k == z3.Z3_OP_NOT: r = z3.Not(a[0])
            elif k == z3.Z3_OP_IMPLIES: r = z3.Implies(a[0], a[1])
            elif any(z3.is_fp(y) or y.sort().kind() == z3.Z3_ROUNDING_MODE_SORT for y in ch) or z3.is_fp(x):
                r = self.fn(('op', k, x.decl().sexpr()), a, ns)
            elif k in (z3.Z3_OP_BADD, z3.Z3_OP_BMUL, z3.Z3_OP_BAND, z3.Z3_OP_BOR, z3.Z3_OP_BXOR) and len(a) > 2:
                op = {z3.Z3_OP_BADD: lambda p, q: p + q, z3.Z3_OP_BMUL: lambda p, q: p * q, z3.Z3_OP_BAND: lambda p, q: p & q, z3.Z3_OP_BOR: lambda p, q: p | q, z3.Z3_OP_BXOR: lambda p, q: p ^ q}[k]
                r = a[0]
                for b in a[1:]: r = op(r, b)
            elif k == z3.Z3_OP_CONCAT: r = z3.Concat(*a)
            else:
                if any(not self.sort(y.sort()).eq(y.sort()) for y in ch): raise NoFP()
                r = z3.substitute(x, *[(p, q) for p, q in zip(ch, a) if not p.eq(q)]) if any(q.num_args() for q in ch) else x.decl()(*a)
            c[i] = r
        return c[e.get_id()]

class SolverStack:
    """one incremental solver; the path condition is kept as a stack and re-synchronised by common prefix"""
    def __init__(self, timeout=15000, logic=None, absn=None):
        self.s = z3.Solver(); self.stack = []; self.timeout = timeout; self.absn = absn; self.extra = None
        self.s.set('timeout', timeout)
    def sync(self, pc):
        n = 0; m = min(len(pc), len(self.stack))
        while n < m and self.stack[n] is pc[n]: n += 1
        if len(self.stack) > n:
            self.s.pop(len(self.stack) - n); del self.stack[n:]
        for c in pc[n:]:
            self.s.push(); self.put(c); self.stack.append(c)
    def put(self, c):
        if self.absn is None or not z3.is_expr(c): self.s.add(c); return
        try: e, ax = self.absn.apply(c)
        except NoFP:
            if c is self.extra: raise
            return                     # dropping an assumption is sound
        self.s.add(e)
        for a in ax: self.s.add(a)
    def terms(self, pc, extra):
        out = []
        for c in list(pc) + [extra]:
            if not z3.is_expr(c): continue
            try: e, ax = self.absn.apply(c)
            except NoFP:
                if c is extra: raise
                continue
            out.append(e); out.extend(ax)
        return out
    def check(self, pc, extra):
        self.sync(pc)
        self.s.push(); 
        try:
            if extra is not None: self.extra = extra; self.put(extra)
            r = self.s.check()
            m = self.s.model() if r == z3.sat else None
        finally:
            self.s.pop()
        return r, m

class Frame:
    __slots__ = ('F', 'regs', 'args', 'blk', 'prev', 'ip', 'visits', 'loopctx', 'depth', 'exc')
    def clone(self):
        f = Frame(); f.F = self.F; f.regs = dict(self.regs); f.args = self.args; f.blk = self.blk; f.prev = self.prev; f.ip = self.ip
        f.visits = dict(self.visits); f.loopctx = self.loopctx; f.depth = self.depth; f.exc = self.exc
        return f

class LoopSpec:
    """how to treat loops that cannot be unrolled: candidates(ctx) returns extra candidate invariants"""
    def __init__(self, candidates=None, unroll=64, decreases=None): self.candidates = candidates; self.unroll = unroll; self.decreases = decreases

def conjuncts(g, depth=0):
    """the goals whose conjunction is g"""
    if depth > 4: return [g]
    if z3.is_and(g): return [x for c in g.children() for x in conjuncts(c, depth + 1)]
    if z3.is_implies(g):
        r = conjuncts(g.arg(1), depth + 1)
        return [z3.Implies(g.arg(0), x) for x in r] if len(r) > 1 else [g]
    return [g]

class Executor:
    def __init__(self, prog, report=None, fpmode='uf', unroll=64, timeout=15000, deadline=None):
        self.prog = prog; self.rep = report or Report(); self.fp = FPOps(fpmode)
        self.unroll = unroll; self.absn = Abstraction(); self.pabs = Abstraction(True); self.solver = SolverStack(timeout, absn=self.pabs); self.asolver = SolverStack(timeout, absn=self.absn); self.usolver = SolverStack(1500, absn=FpAbstraction(self.absn)); self.usolver2 = SolverStack(8000, absn=self.usolver.absn); self.usolver2.s.set('smt.relevancy', 0); self.feas = SolverStack(3000, absn=self.absn)
        self.contracts = []      # (predicate on demangled name, handler(ex, st, args, inst, dem) -> [Outcome])
        self.cmap = {}
        self.wlog = None
        self.globals = {}
        self.fnname = '?'        # function under verification, for obligation names
        self.check_overflow = False
        self.check_ob = True
        self.mute = 0
        self.loopspec = LoopSpec()
        self.max_paths = 20000
        self.deadline = deadline
        self.max_depth = 40
        self.vtables = {}
        self.exact_feas = True
        self.string_consts = {}
        self.noinline = set()
        self.cut_on_unroll = False   # bounded mode: drop paths that exceed the unrolling bound (recorded)
        self.cut = 0
        self.force_inv = set()       # functions (demangled substrings) whose loops go straight to invariants
        self.step_hook = None; self.intfirst = False; self.autokeep = None; self.cheapms = 1500; self.scouting = False
        self.unroll_inv = True       # try invariants when the unroll cap is hit
        self.pathno = 0

    # ---------------------------------------------------------------- solver interface
    def feasible(self, st, cond=None):
        if cond is False: return False
        if self.deadline and time.time() > self.deadline: raise Budget('deadline')
        t = time.time()
        r, _ = self.feas.check(st.pc, None if cond is None or cond is True else cond)
        self.rep.solver_time += time.time() - t; self.rep.queries += 1
        return r != z3.unsat
    def prove(self, st, goal, cheap=False):
        """'ok' / 'fail', model / 'unknown'"""
        if goal is True: return 'ok', None
        g = goal
        if simp(goal) is True: return 'ok', None
        if self.deadline and time.time() > self.deadline: raise Budget('deadline')
        t = time.time()
        neg = z3.Not(bo(g))
        if cheap:
            if self.intfirst:
                r = self.intcheck(st.pc, neg, self.cheapms); self.rep.solver_time += time.time() - t; self.rep.queries += 1
                return ('ok', None) if r else ('unknown', None)
            try: r, m = self.usolver.check(st.pc, neg)
            except NoFP: r, m = self.asolver.check(st.pc, neg)
            if r == z3.unknown and self.intcheck(st.pc, neg, 2000): r = z3.unsat
            self.rep.solver_time += time.time() - t; self.rep.queries += 1
            return ('ok', None) if r == z3.unsat else ('unknown', None)
        if self.lightfirst and not has_div(neg):
            q = z3.Solver(); q.set('timeout', 500); q.add(*[bo(c) for c in st.pc if not isinstance(c, bool) and not has_div(c)]); q.add(neg)
            if q.check() == z3.unsat: self.rep.solver_time += time.time() - t; self.rep.queries += 1; return 'ok', None
        if self.intfirst and self.intcheck(st.pc, neg, 3000):
            self.rep.solver_time += time.time() - t; self.rep.queries += 1; return 'ok', None
        try:
            r, m = self.usolver.check(st.pc, neg)
            if r == z3.unknown and self.intcheck(st.pc, neg): r = z3.unsat
            if r == z3.unknown:
                r, m = self.usolver2.check(st.pc, neg)
                if r == z3.unknown and cvc5_check(self.usolver2.terms(st.pc, neg), 10000) == 'unsat':
                    r = z3.unsat; self.rep.backends = getattr(self.rep, 'backends', {}); self.rep.backends['cvc5'] = self.rep.backends.get('cvc5', 0) + 1
        except NoFP: r = z3.unknown
        if r != z3.unsat: r, m = self.asolver.check(st.pc, neg)
        if r != z3.unsat: r, m = self.solver.check(st.pc, neg)
        if r == z3.unknown:
            r, m = self.second_opinion(st.pc, neg)
        self.rep.solver_time += time.time() - t; self.rep.queries += 1
        return ('ok', None) if r == z3.unsat else ('fail', m) if r == z3.sat else ('unknown', None)
    hints = None; lightfirst = False
    def refuted(self, st, goal):
        """a counterexample to a candidate at one of the sample inputs given by the contract (only ever drops candidates)"""
        if not self.hints: return False
        for sub in self.hints(self):
            q = z3.Solver(); q.set('timeout', 400); sub = list(sub.items())
            q.add(*[z3.simplify(z3.substitute(bo(c), *sub)) for c in list(st.pc) + [z3.Not(bo(goal))] if not isinstance(c, bool)])
            if q.check() == z3.sat: return True
        return False
    def intcheck(self, pc, neg, ms=10000):
        try: T = intabs.terms(self.usolver.terms(pc, neg))
        except (ValueError, z3.Z3Exception): return False
        for rel, t in ((0, ms), (2, ms // 2)):
            q = z3.Solver(); q.set('timeout', t); q.set('smt.relevancy', rel); q.add(*T)
            if q.check() == z3.unsat:
                self.rep.backends = getattr(self.rep, 'backends', {}); self.rep.backends['z3 (integers)'] = self.rep.backends.get('z3 (integers)', 0) + 1; return True
        return False
    def second_opinion(self, pc, neg):
        s = z3.Solver(); s.set('timeout', min(self.solver.timeout, 15000))
        pc = list(pc) + [a for c in list(pc) + [neg] if z3.is_expr(c) for a in self.pabs.apply(c)[1]]; s.add(*[bo(c) for c in pc]); s.add(neg)
        r = s.check()
        if r != z3.unknown: return r, (s.model() if r == z3.sat else None)
        try:
            t = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'smt').solver(); t.set('timeout', min(self.solver.timeout, 15000))
            t.add(*[bo(c) for c in pc]); t.add(neg)
            r = t.check()
            if r != z3.unknown: return r, (t.model() if r == z3.sat else None)
        except z3.Z3Exception: pass
        r = cvc5_check(list(pc) + [neg], min(self.solver.timeout, 15000))
        if r == 'unsat':
            self.rep.backends = getattr(self.rep, 'backends', {}); self.rep.backends['cvc5'] = self.rep.backends.get('cvc5', 0) + 1
            return z3.unsat, None
        return z3.unknown, None

    def obligation(self, st, name, goal, kind='post', assume_after=True, detail=None):
        """record and discharge an obligation on this path"""
        if self.mute:
            if assume_after: st.assume(goal)
            return True
        if goal is True:
            o = self.rep.ob(self.fnname + ': ' + name, self.fnname, kind); o.count += 1
            if o.status is None: o.status = 'ok'; o.backend = 'simplifier'
            return True
        o = self.rep.ob(self.fnname + ': ' + name, self.fnname, kind); o.count += 1
        g = simp(goal)
        if g is True:
            if o.status is None: o.status = 'ok'; o.backend = 'simplifier'
            return True
        t = time.time()
        r = 'ok'; m = None
        for c in conjuncts(bo(goal)):
            r, m = self.prove(st, c)
            if r != 'ok': g = c; break
        if r == 'fail' and getattr(self, 'prefer', None) and (o.model is None or len(o.model) < 4):
            for pf in self.prefer(st):
                q = SolverStack(6000, absn=self.pabs); r2, m2 = q.check(list(st.pc) + [bo(c) for c in pf], z3.Not(bo(g)))
                if r2 == z3.sat: m = m2; break
        o.time += time.time() - t
        if r == 'ok':
            if o.status is None or o.status == 'ok': o.status = 'ok'; o.backend = 'z3'
        else:
            if o.status != 'fail':
                o.status = r; o.detail = detail or str(g)[:300]
            if r == 'fail':
                if o.model is None or len(o.model) < 4:
                    o.model = (o.model or []) + [(m, st, list(st.trace))]
        if assume_after and g is not False: st.assume(g)
        return r == 'ok'

    def obname(self, fr, inst, what):
        return what + ' in ' + short(fr.F.dem)

    # ---------------------------------------------------------------- memory access
    def resolve(self, st, p, n, fr=None, inst=None, check=True, write=False):
        if not isinstance(p, Ptr): raise Unsupported('access through %r' % (p,))
        if p.r is None or p.r.kind == 'raw':
            if check and not self.mute:
                self.obligation(st, self.obname(fr, inst, 'no null or wild pointer access'), False, 'safety') if fr else None
            raise PathEnd()
        r = p.r
        if r.forward is not None:
            p = r.forward(self, st, p, check, write); r = p.r
        if check and fr is not None:
            nm = short(fr.F.dem)
            if r.id in st.dead:
                self.obligation(st, 'no access to released memory (%s) in %s' % (r.name, nm), False, 'safety')
                raise PathEnd()
            if r.stride:
                if r.count is not None:
                    idx, rem = self.index(p, r)
                    cnt = r.count(st) if callable(r.count) else r.count
                    self.obligation(st, 'index inside %s in %s' % (r.name, nm), z3.ULT(bv(idx, 64), bv(cnt, 64)), 'safety')
                elif r.null_zero:
                    idx, rem = self.index(p, r)
                    self.obligation(st, 'no null object access (%s) in %s' % (r.name, nm), bv(idx, 64) != 0, 'safety')
            elif r.size is not None:
                c = p.off.const()
                if c is not None and isinstance(r.size, int):
                    if c < 0 or c + n > r.size:
                        self.obligation(st, 'access inside %s in %s' % (r.name, nm), False, 'safety'); raise PathEnd()
                elif isinstance(r.size, int):
                    o = p.off.z3(); self.obligation(st, 'access inside %s in %s' % (r.name, nm), z3.ULE(o, z3.BitVecVal(max(r.size - n, 0), 64)) if r.size >= n else False, 'safety')
        return p
    def index(self, p, r):
        """array region: (element index term, byte offset within element)"""
        rem = p.off.c % r.stride
        o = Off(p.off.c - rem, p.off.t).div(r.stride)
        if o is None:
            raise Unsupported('unaligned access to array %s stride %d: %r' % (r.name, r.stride, p.off.t))
        return o.value(), rem

    def load(self, st, p, ty, fr=None, inst=None, check=True):
        if ty.kind in ('struct', 'array'):
            if ty.kind == 'struct': return [self.load(st, p.at(o), e, fr, inst, check) for e, o in zip(ty.elems, ty.offs)]
            return [self.load(st, p.at(i * ty.elem.size), ty.elem, fr, inst, check) for i in range(ty.n)]
        n = ty.size
        p = self.resolve(st, p, n, fr, inst, check)
        r = p.r
        if r.vt is not None: return r.vt(self, st, p.off.const())
        if r.stride:
            idx, rem = self.index(p, r)
            if rem not in r.leaves: raise Unsupported('load inside leaf of %s at %d' % (r.name, rem))
            lt = r.leaves[rem]
            if isinstance(lt, tuple): raise Unsupported('bytes leaf')
            if lt.size != n: raise Unsupported('load size mismatch in array %s at %d (%d vs %d)' % (r.name, rem, lt.size, n))
            v = conc(z3.simplify(z3.Select(st.arr(r, rem), bv(idx, 64))))
            if lt.kind == 'ptr':
                tgt = r.ptr_leaf.get(rem)
                if tgt is None:
                    return Ptr(RAWADDR, Off(0, {bv(v, 64): 1}))
                return Ptr(tgt[0], Off(0).add(v, tgt[1]))
            return conv(v, ty)
        c = p.off.const()
        if c is None:
            return self.load_sym(st, p, ty)
        cells = st.cells(r)
        v = cells.get(c)
        if v is not None and v[0] == n:
            return conv(v[1], ty)
        return self.load_slow(st, r, c, n, ty, cells)

    def load_sym(self, st, p, ty):
        r = p.r
        if r.const and r.init is not None:
            # constant table indexed symbolically: decision over the matching cells
            items = [(o, v) for o, (sz, v) in sorted(st.cells(r).items()) if sz == ty.size]
            if len(items) <= 512:
                off = p.off.z3(); e = None
                for o, v in items:
                    v = conv(v, ty); 
                    if ty.kind == 'int': v = bv(v, ty.width)
                    e = v if e is None else z3.If(off == z3.BitVecVal(o, 64), v, e)
                if e is not None: return conc(e)
        # plain struct region with an array inside: case split over cells that can match
        cands = []
        lo = 0
        for o, lt in sorted((r.leaves or {}).items()):
            if isinstance(lt, tuple):
                if ty.size == 1:
                    b = self.bytes_leaf(st, r, o)
                    # only if provably inside
                    rel = p.off.add(-o & M64)
                    if not self.feasible(st, z3.Not(z3.ULT(rel.z3(), z3.BitVecVal(lt[1], 64)))):
                        return conc(z3.Select(b, rel.z3()))
                continue
            if lt.size == ty.size and self.feasible(st, p.off.z3() == o): cands.append(o)
        if cands and len(cands) <= 64 and not self.feasible(st, z3.And([p.off.z3() != o for o in cands])):
            return Choice([(p.off.z3() == o, self.load(st, Ptr(r, Off(o)), ty, check=False)) for o in cands])
        raise Unsupported('symbolic offset in %s' % r.name)

    def bytes_leaf(self, st, r, o):
        d = st.cells(r)
        v = d.get(('b', o))
        if v is None:
            v = z3.Const('%s.%d.b%d' % (r.name, r.id, o), z3.ArraySort(BV64, BV8)); d[('b', o)] = v
        return v

    def load_slow(self, st, r, c, n, ty, cells):
        # inside a 'bytes' leaf?
        for o, lt in (r.leaves or {}).items():
            if isinstance(lt, tuple) and o <= c and c + n <= o + lt[1]:
                b = self.bytes_leaf(st, r, o)
                parts = [z3.Select(b, z3.BitVecVal(c - o + i, 64)) for i in range(n)]
                v = parts[0] if n == 1 else z3.Concat(*reversed(parts))
                return conv(conc(z3.simplify(v)), ty)
        # exact cell of other size / bytes
        over = [(o, sv) for o, sv in cells.items() if isinstance(o, int) and o < c + n and c < o + sv[0]]
        if not over:
            if r.lazy:
                lt = (r.leaves or {}).get(c)
                if lt is None or isinstance(lt, tuple) or lt.size != n: lt = ty
                if ty.kind == 'ptr' or lt.kind == 'ptr':
                    if r.on_ptr is not None:
                        v = r.on_ptr(self, st, r, c)
                        cells2 = st.cells(r, True); cells2[c] = (n, v); return conv(v, ty)
                    v = Ptr(RAWADDR, Off(0, {z3.BitVec('%s.%d.p%d' % (r.name, r.id, c), 64): 1}))
                elif lt.kind == 'int': v = z3.Bool('%s.%d.%d' % (r.name, r.id, c)) if lt.width == 1 else z3.BitVec('%s.%d.%d' % (r.name, r.id, c), lt.width)
                else: v = z3.FP('%s.%d.%d' % (r.name, r.id, c), F32 if lt.kind == 'float' else F64)
                st.cells(r)[c] = (n, v)       # benign: same name in all states
                return conv(v, ty)
            return fresh_of('uninit', ty)
        if len(over) == 1:
            o, (sz, v) = over[0]
            if o <= c and c + n <= o + sz and ty.kind != 'ptr':
                b = self.as_bits(v, sz)
                if isinstance(b, int): return conv((b >> (8 * (c - o))) & ((1 << (8 * n)) - 1), ty)
                return conv(conc(z3.simplify(z3.Extract(8 * (c - o + n) - 1, 8 * (c - o), b))), ty)
        parts = []; pos = c
        while pos < c + n:
            hit = [(o, sv) for o, sv in over if o == pos]
            if hit and pos + hit[0][1][0] <= c + n:
                o, (sz, v) = hit[0]; parts.append((sz, self.as_bits(v, sz))); pos += sz
            else:
                hit = [(o, sv) for o, sv in over if o <= pos < o + sv[0]]
                if hit:
                    o, (sz, v) = hit[0]; b = self.as_bits(v, sz)
                    b = (b >> (8 * (pos - o))) & 255 if isinstance(b, int) else z3.Extract(8 * (pos - o) + 7, 8 * (pos - o), b)
                    parts.append((1, b)); pos += 1
                else:
                    if r.lazy: parts.append((1, self.as_bits(self.load(st, Ptr(r, Off(pos)), T8, check=False), 1)))
                    else: parts.append((1, fresh('uninit', 8)))
                    pos += 1
        if all(isinstance(b, int) for _, b in parts):
            v = 0; sh = 0
            for sz, b in parts: v |= b << sh; sh += 8 * sz
            return conv(v, ty)
        zs = [bv(b, 8 * sz) for sz, b in parts]
        v = zs[0] if len(zs) == 1 else z3.Concat(*reversed(zs))
        return conv(conc(z3.simplify(v)), ty)

    def as_bits(self, v, sz):
        if isinstance(v, bool): return int(v)
        if isinstance(v, int): return v
        if isinstance(v, UndefV): return fresh('undef', 8 * sz)
        if isinstance(v, Ptr): return 0 if v.r is None else PInt(v.r, v.off).z3()
        if isinstance(v, PInt): return v.z3()
        if z3.is_fp(v): return z3.fpToIEEEBV(v)
        if z3.is_bool(v): return z3.If(v, z3.BitVecVal(1, 8 * sz), z3.BitVecVal(0, 8 * sz))
        if z3.is_bv(v) and v.size() < 8 * sz: return z3.ZeroExt(8 * sz - v.size(), v)
        if isinstance(v, Choice): raise Unsupported('bits of a case-split value')
        return v

    def store(self, st, p, ty, v, fr=None, inst=None, check=True):
        if ty.kind in ('struct', 'array'):
            if ty.kind == 'struct':
                for i, (e, o) in enumerate(zip(ty.elems, ty.offs)): self.store(st, p.at(o), e, v[i] if not isinstance(v, UndefV) else UNDEF, fr, inst, check)
            else:
                for i in range(ty.n): self.store(st, p.at(i * ty.elem.size), ty.elem, v[i] if not isinstance(v, UndefV) else UNDEF, fr, inst, check)
            return
        n = ty.size
        p = self.resolve(st, p, n, fr, inst, check, write=True)
        r = p.r
        if r.const and check:
            self.obligation(st, 'no write to constant %s' % r.name, False, 'safety'); raise PathEnd()
        if r.stride:
            idx, rem = self.index(p, r)
            if rem not in r.leaves: raise Unsupported('store inside leaf of %s at %d' % (r.name, rem))
            lt = r.leaves[rem]
            if lt.size != n: raise Unsupported('store size mismatch in array %s' % r.name)
            if lt.kind == 'ptr':
                if isinstance(v, Ptr):
                    tgt = r.ptr_leaf.get(rem)
                    if v.r is None: b = 0
                    elif v.r is RAWADDR: b = v.off.value()
                    elif tgt and tgt[0] is v.r:
                        o = v.off.div(tgt[1])
                        if o is None: raise Unsupported('store of interior pointer')
                        b = o.value()
                    else: b = PInt(v.r, v.off).z3()
                    v = b
                elif isinstance(v, UndefV): v = fresh('undef', 64)
                v = bv(v, 64)
            else:
                v = conv(v, lt)
                v = bv(v, lt.width) if lt.kind == 'int' and lt.width > 1 else v
                if lt.kind == 'int' and lt.width == 1: v = bo(v)
            st.setarr(r, rem, z3.Store(st.arr(r, rem), bv(idx, 64), v))
            return
        c = p.off.const()
        if c is None: return self.store_sym(st, p, ty, v)
        self.put_cell(st, r, c, n, v)

    def put_cell(self, st, r, c, n, v):
        for o, lt in (r.leaves or {}).items():
            if isinstance(lt, tuple) and o <= c < o + lt[1]:
                b = self.bytes_leaf(st, r, o); bits = bv(self.as_bits(v, n), 8 * n)
                for i in range(n): b = z3.Store(b, z3.BitVecVal(c - o + i, 64), z3.Extract(8 * i + 7, 8 * i, bits) if n > 1 else bits)
                st.cells(r, True)[('b', o)] = b
                if self.wlog is not None: self.wlog.add((r, ('b', o)))
                return
        cells = st.cells(r, True)
        old = cells.get(c)
        if old is None or old[0] != n:
            for o in [o for o, sv in list(cells.items()) if isinstance(o, int) and o < c + n and c < o + sv[0] and o != c or o == c]:
                if not isinstance(o, int): continue
                sz, ov = cells.pop(o)
                if o >= c and o + sz <= c + n: continue
                b = self.as_bits(ov, sz)
                for i in range(sz):
                    if not (c <= o + i < c + n):
                        cells[o + i] = (1, (b >> (8 * i)) & 255 if isinstance(b, int) else conc(z3.simplify(z3.Extract(8 * i + 7, 8 * i, b))))
        cells[c] = (n, v)
        if self.wlog is not None: self.wlog.add((r, c))

    def store_sym(self, st, p, ty, v):
        r = p.r; off = p.off.z3()
        cands = [o for o, lt in sorted((r.leaves or {}).items()) if not isinstance(lt, tuple) and lt.size == ty.size]
        byt = [o for o, lt in (r.leaves or {}).items() if isinstance(lt, tuple)]
        if ty.size == 1:
            for o in byt:
                rel = p.off.add(-o & M64).z3()
                if not self.feasible(st, z3.Not(z3.ULT(rel, z3.BitVecVal(r.leaves[o][1], 64)))):
                    b = self.bytes_leaf(st, r, o)
                    st.cells(r, True)[('b', o)] = z3.Store(b, rel, bv(v, 8))
                    if self.wlog is not None: self.wlog.add((r, ('b', o)))
                    return
        cands = [o for o in cands if self.feasible(st, off == o)]
        if not cands or self.feasible(st, z3.And([off != o for o in cands])): raise Unsupported('symbolic store in ' + r.name)
        raise ForkOn([off == o for o in cands])

    # ---------------------------------------------------------------- block memory operations
    def leaf_types(self, r, c, n):
        """leaves of region r fully inside [c, c+n) ; None if not exactly tiled"""
        if r.leaves is None: return None
        out = []
        for o, lt in sorted(r.leaves.items()):
            sz = lt[1] if isinstance(lt, tuple) else lt.size
            if o >= c and o + sz <= c + n: out.append((o, lt))
            elif o < c + n and c < o + sz: return None
        return out

    def memset(self, st, p, val, n, fr, inst):
        if isinstance(p, Ptr) and p.r is not None and getattr(p.r, 'on_set', None) is not None and p.r.on_set(self, st, p, val, n): return
        n = simp(n) if not isinstance(n, int) else n
        val = val & 255 if isinstance(val, int) else val
        p = self.resolve(st, p, n if isinstance(n, int) else 1, fr, inst, True, write=True); r = p.r
        if r.stride:
            if not isinstance(n, int):
                # whole-array fill of a symbolic number of elements
                if r.stride == 1 and val == 0 or True:
                    raise Unsupported('symbolic memset')
            idx, rem = self.index(p, r)
            if rem == 0 and n % r.stride == 0:
                cnt = n // r.stride
                if cnt > 256: raise Unsupported('large memset')
                for leaf, lt in r.leaves.items():
                    a = st.arr(r, leaf)
                    for k in range(cnt):
                        fill = int.from_bytes(bytes([val]) * lt.size, 'little')
                        v = conv(fill, lt) if lt.kind != 'ptr' else fill
                        v = bv(v, lt.width) if lt.kind in ('int', 'ptr') and lt.width > 1 else bo(v) if lt.kind == 'int' else v
                        a = z3.Store(a, bv(self.addi(idx, k), 64), v)
                    st.setarr(r, leaf, a)
                return
            raise Unsupported('partial memset of array')
        c = p.off.const()
        if c is None or not isinstance(n, int): raise Unsupported('memset at symbolic place')
        lv = self.leaf_types(r, c, n)
        if lv is not None and lv:
            cells = st.cells(r, True)
            for o in [o for o, sv in list(cells.items()) if isinstance(o, int) and c <= o < c + n]: del cells[o]
            for o, lt in lv:
                if isinstance(lt, tuple):
                    cells[('b', o)] = z3.K(BV64, bv(val, 8)); key = ('b', o)
                else:
                    cells[o] = (lt.size, self.fill(val, lt)); key = o
                if self.wlog is not None: self.wlog.add((r, key))
            return
        if n > 4096: raise Unsupported('large memset on untyped memory')
        for i in range(n): self.put_cell(st, r, c + i, 1, val)
    def fill(self, val, lt):
        if not isinstance(val, int):
            raise Unsupported('memset with symbolic byte')
        f = int.from_bytes(bytes([val]) * lt.size, 'little')
        return f if lt.kind == 'int' else conv(f, lt)
    def addi(self, a, k):
        if isinstance(a, int): return (a + k) & M64
        return a if k == 0 else simp(a + k)

    def memcpy(self, st, d, s, n, fr, inst, move=False):
        if isinstance(d, Ptr) and d.r is not None and getattr(d.r, 'on_copy', None) is not None: return d.r.on_copy(self, st, d, s, n)
        n = simp(n) if not isinstance(n, int) else n
        if isinstance(n, int):
            if n == 0: return
            s = self.resolve(st, s, n, fr, inst); d = self.resolve(st, d, n, fr, inst, True, True)
            # bound of the last byte
            if fr is not None:
                for q, w in ((s, False), (d, True)):
                    if q.r.stride: self.resolve(st, q.at(n - 1), 1, fr, inst, True, w)
            items = self.read_items(st, s, n, d)
            self.write_items(st, d, items)
            return
        return self.memcpy_sym(st, d, s, n, fr, inst)

    def read_items(self, st, s, n, d):
        """[(relative offset, type, value)] covering n bytes"""
        r = s.r; out = []
        if r.stride:
            pos = 0
            while pos < n:
                q = s.at(pos); idx, rem = self.index(q, r)
                lt = r.leaves.get(rem)
                if lt is None:     # padding byte
                    pos += 1; continue
                if pos + lt.size > n: raise Unsupported('memcpy splits a leaf')
                out.append((pos, lt, self.load(st, q, lt, check=False))); pos += lt.size
            return out
        c = s.off.const()
        if c is None: raise Unsupported('memcpy from symbolic offset')
        # destination layout decides if it is typed and source is untyped/lazy
        lv = self.leaf_types(r, c, n)
        if lv is None or not lv:
            if d.r.leaves is not None and not d.r.stride and d.off.const() is not None:
                dl = self.leaf_types(d.r, d.off.const(), n)
                if dl: lv = [(o - d.off.const() + c, lt) for o, lt in dl]
            elif d.r.stride:
                lv = []; pos = 0
                while pos < n:
                    _, rem = self.index(d.at(pos), d.r); lt = d.r.leaves.get(rem)
                    if lt is None: pos += 1; continue
                    lv.append((c + pos, lt)); pos += lt.size
        cells = st.cells(r)
        if lv:
            for o, lt in lv:
                if isinstance(lt, tuple):
                    if r.leaves and isinstance(r.leaves.get(o), tuple): out.append((o - c, lt, self.bytes_leaf(st, r, o)))
                    else:
                        a = z3.K(BV64, z3.BitVecVal(0, 8))
                        for i in range(lt[1]): a = z3.Store(a, i, bv(self.load(st, Ptr(r, Off(o + i)), T8, check=False), 8))
                        out.append((o - c, lt, a))
                    continue
                cv = cells.get(o)
                if cv is not None and cv[0] == lt.size: out.append((o - c, lt, cv[1]))
                else: out.append((o - c, lt, self.load(st, Ptr(r, Off(o)), lt, check=False)))
            return out
        if n > 1024: raise Unsupported('memcpy of %d untyped bytes' % n)
        for i in range(n): out.append((i, T8, self.load(st, Ptr(r, Off(c + i)), T8, check=False)))
        return out
    def write_items(self, st, d, items):
        for o, lt, v in items:
            if isinstance(lt, tuple):
                c = d.off.const() + o
                if isinstance((d.r.leaves or {}).get(c), tuple):
                    st.cells(d.r, True)[('b', c)] = v
                    if self.wlog is not None: self.wlog.add((d.r, ('b', c)))
                else:
                    for i in range(lt[1]): self.put_cell(st, d.r, c + i, 1, conc(z3.simplify(z3.Select(v, i))))
                continue
            self.store(st, d.at(o), lt, v, check=False)

    def memcpy_sym(self, st, d, s, n, fr, inst):
        """copy of a symbolic number of whole elements between array regions of equal stride"""
        s = self.resolve(st, s, 1, fr=None, check=False); d = self.resolve(st, d, 1, fr=None, check=False, write=True)
        if not (s.r.stride and d.r.stride and s.r.stride == d.r.stride):
            raise Unsupported('symbolic memcpy between %s and %s' % (s.r.name, d.r.name))
        S = s.r.stride
        c, t = lin(n) if not isinstance(n, int) else (n, {})
        o = Off(c, t).div(S)
        if o is None:
            if S != 1: raise Unsupported('memcpy length not a multiple of the element size')
            cnt = n
        else: cnt = o.value()
        si, sr = self.index(s, s.r); di, dr = self.index(d, d.r)
        if sr or dr: raise Unsupported('memcpy not element aligned')
        cnt, si, di = bv(cnt, 64), bv(si, 64), bv(di, 64)
        for q, i0 in ((s, si), (d, di)):
            rc = q.r.count(st) if callable(q.r.count) else q.r.count
            if rc is not None:
                rc = bv(rc, 64)
                self.obligation(st, 'block copy inside %s in %s' % (q.r.name, short(fr.F.dem)), z3.Or(cnt == 0, z3.And(z3.ULT(i0, rc), z3.ULE(cnt, rc - i0))), 'safety')
        k = z3.BitVec('k!cp', 64)
        for leaf in d.r.leaves:
            a = st.arr(d.r, leaf); b = st.arr(s.r, leaf)
            st.setarr(d.r, leaf, z3.Lambda([k], z3.If(z3.ULT(k - di, cnt), z3.Select(b, k - di + si), z3.Select(a, k))))

    # ---------------------------------------------------------------- globals
    def global_ptr(self, m, name):
        for mod in ([m] if m is not None else []) + self.prog.mods:
            if name in mod.gl_ref:
                ty, init, const = mod.global_info(name)
                if init is not None: m = mod; break
        key = name if not name.startswith('.str') and not name.startswith('__const') and not name.startswith('.L') else (id(m), name)
        r = self.globals.get(key)
        if r is None:
            r = Region('@' + name, size=ty.size if ty.kind != 'func' else None, ty=ty if ty.size and ty.kind in ('struct', 'array') and ty.size <= 8192 else None, lazy=True, kind='global')
            self.globals[key] = r
            r.gname = name
            if init is not None and const:
                r.init = {}; r.const = True
                self.init_cells(m, ty, init, 0, r)
            r.mod = m
        return Ptr(r)
    def init_cells(self, m, ty, v, off, r):
        if v.k == 'zero':
            for o, lt in flatten(ty):
                if isinstance(lt, tuple): r.init[('b', off + o)] = z3.K(BV64, z3.BitVecVal(0, 8))
                else: r.init[off + o] = (lt.size, NULL if lt.kind == 'ptr' else conv(0, lt))
            return
        if v.k == 'agg':
            if ty.kind == 'struct':
                for e, o, x in zip(ty.elems, ty.offs, v.ops): self.init_cells(m, e, x, off + o, r)
            else:
                if ty.elem.kind == 'int' and ty.elem.width == 8 and ty.n > 32:
                    a = z3.K(BV64, z3.BitVecVal(0, 8))
                    r.init[('raw', off)] = bytes((x.v or 0) for x in v.ops)
                    for i, x in enumerate(v.ops):
                        if x.v: a = z3.Store(a, i, z3.BitVecVal(x.v, 8))
                    r.init[('b', off)] = a
                    return
                for i, x in enumerate(v.ops): self.init_cells(m, ty.elem, x, off + i * ty.elem.size, r)
            return
        r.init[off] = (ty.size, self.constval(m, v))
    def constval(self, m, v):
        k = v.k
        if k == 'const': return bool(v.v) if v.ty.width == 1 else v.v
        if k == 'fconst': return z3.FPVal(v.v, F32 if v.ty.kind == 'float' else F64)
        if k == 'null': return NULL
        if k == 'undef': return UNDEF
        if k == 'zero':
            if v.ty.kind == 'struct': return [self.zero_of(e) for e in v.ty.elems]
            if v.ty.kind == 'array': return [self.zero_of(v.ty.elem)] * v.ty.n
            return self.zero_of(v.ty)
        if k == 'agg': return [self.constval(m, x) for x in v.ops]
        if k == 'global': return self.global_ptr(m, v.name)
        if k == 'func': return FuncPtr(v.name, m)
        if k == 'expr':
            ops = [self.constval(m, x) for x in v.ops]
            if v.op == 'gep': return self.gep(v.v, ops, [x.ty for x in v.ops])
            if v.op == 'ptrtoint': return conv(ops[0], v.ty) if not isinstance(ops[0], FuncPtr) else ops[0]
            if v.op in ('inttoptr', 'bitcast', 'trunc'): return ops[0]
            if v.op in ('sub', 'add') and all(isinstance(x, int) for x in ops):
                return (ops[0] - ops[1] if v.op == 'sub' else ops[0] + ops[1]) & M64
            if v.op == 'sub' and isinstance(ops[0], PInt) and isinstance(ops[1], PInt) and ops[0].r is ops[1].r:
                return PInt(None, ops[0].off.sub(ops[1].off))
        raise Unsupported('constant ' + k + ' ' + str(v.op))
    def zero_of(self, ty):
        if ty.kind == 'struct': return [self.zero_of(e) for e in ty.elems]
        if ty.kind == 'array': return [self.zero_of(ty.elem) for _ in range(ty.n)]
        if ty.kind == 'ptr': return NULL
        if ty.kind == 'int' and ty.width == 1: return False
        return conv(0, ty)
    def global_bytes(self, p, maxn=65536):
        """bytes of a constant C string"""
        r = p.r; c = p.off.const()
        if r is None or not r.const or c is None: return None
        out = bytearray()
        raw = r.init.get(('raw', 0))
        if raw is not None:
            e = raw.find(b'\0', c); return bytes(raw[c:e]) if e >= 0 else None
        while True:
            v = r.init.get(c + len(out))
            if v is None or v[0] != 1: return None
            if not isinstance(v[1], int): return None
            if v[1] == 0: return bytes(out)
            out.append(v[1])

    def gep(self, ty, ops, tys):
        p = ops[0]
        if not isinstance(p, Ptr):
            if isinstance(p, Choice): raise Unsupported('gep on choice')
            raise Unsupported('gep on %r' % (p,))
        def ix(v, t):
            if isinstance(v, PInt): return v.z3()
            if isinstance(v, bool): v = int(v)
            if t.width < 64: return (sgn(v, t.width) & M64) if isinstance(v, int) else z3.SignExt(64 - t.width, v)
            return v
        p = p.plus(ix(ops[1], tys[1]), ty.size)
        for v, t in zip(ops[2:], tys[2:]):
            if ty.kind == 'struct':
                p = p.at(ty.offs[v]); ty = ty.elems[v]
            else:
                ty = ty.elem; p = p.plus(ix(v, t), ty.size)
        return p

    # ---------------------------------------------------------------- execution
    def val(self, fr, v):
        k = v.k
        if k == 'inst':
            x = fr.regs[v.v]
            return x
        if k == 'arg': return fr.args[v.v]
        if k == 'const': return bool(v.v) if v.ty.width == 1 else v.v
        r = self.constval(fr.F.mod, v)
        if isinstance(r, UndefV) and v.ty.kind not in ('struct', 'array'): return fresh_of('undef', v.ty)
        return r

    def run(self, F, args, st, depth=0):
        """all outcomes of calling F"""
        if depth > self.max_depth: raise Unsupported('call depth in ' + F.dem)
        fr = Frame(); fr.F = F; fr.regs = {}; fr.args = list(args); fr.blk = F.blocks[0]; fr.prev = None; fr.ip = 0; fr.visits = {}; fr.loopctx = None
        fr.depth = depth; fr.exc = None
        return self.explore([(fr, st)], F, None)

    def explore(self, work, F, stop_at):
        """run work items; when stop_at (loop header block, frame depth) is reached, collect ('back', ...)"""
        outs = []
        npaths = 0
        while work:
            fr, st = work.pop()
            npaths += 1
            if npaths > self.max_paths: raise Budget('too many paths in ' + F.dem)
            if self.deadline and time.time() > self.deadline: raise Budget('deadline')
            try:
                self.run_path(fr, st, work, outs, stop_at)
            except PathEnd:
                pass
        return outs

    def run_path(self, fr, st, work, outs, stop_at):
        while True:
            # at block start
            if fr.ip == 0:
                if stop_at is not None and fr.blk is stop_at and fr.prev is not None:
                    outs.append(Outcome('back', st, fr)); return
                loops = natural_loops(fr.F)
                if fr.blk in loops:
                    inside = fr.prev is not None and fr.prev in loops[fr.blk]
                    n = fr.visits.get(fr.blk, 0)
                    if not inside: n = 0
                    fr.visits[fr.blk] = n + 1
                    # reset inner loop counters is implicit: entering from outside resets
                    if n == 0 and self.want_inv(fr, st):
                        self.cut_loop(fr, st, work, outs, stop_at); return
                    if n > self.unroll:
                        if self.cut_on_unroll: self.cut += 1; raise PathEnd()
                        if self.unroll_inv: raise NeedInvariant(fr.F, fr.blk)
                        raise Unsupported('loop in %s exceeds unrolling bound' % fr.F.dem)
                # phis in parallel
                if fr.blk.insts[0].op == 'phi':
                    self.do_phis(fr)
            b = fr.blk; insts = b.insts
            while True:
                i = insts[fr.ip]
                op = i.op
                try:
                    r = self.step(fr, st, i, work, outs)
                except ForkOn as f:
                    for c in f.conds:
                        if self.feasible(st, c):
                            s2 = st.clone(); s2.assume(c)
                            f2 = fr.clone(); self.subst_offsets(f2, s2, c)
                            work.append((f2, s2))
                    return
                if r is None: fr.ip += 1; continue
                if r == 'jump': break
                if r == 'end': return
                raise AssertionError(r)

    def subst_offsets(self, fr, st, c):
        """after assuming 'offset == constant', rewrite pointers in registers whose offset is now constant"""
        l, r = c.arg(0), c.arg(1)
        if z3.is_bv_value(l): l, r = r, l
        if not z3.is_bv_value(r): return
        k = r.as_long()
        for key, v in list(fr.regs.items()):
            if isinstance(v, Ptr) and v.off.t and z3.eq(z3.simplify(v.off.z3()), z3.simplify(l)):
                fr.regs[key] = Ptr(v.r, Off(k), v.tag)

    def do_phis(self, fr):
        new = {}
        for i in fr.blk.insts:
            if i.op != 'phi': break
            for v, b in i.ops:
                if b is fr.prev:
                    new[i.id] = self.val(fr, v); break
            else: raise Unsupported('phi without predecessor')
            fr.ip += 1
        fr.regs.update(new)

    def goto(self, fr, b):
        fr.prev = fr.blk; fr.blk = b; fr.ip = 0

    def split(self, fr, st, cond, bt, bf, work):
        """conditional jump; continues with one side, queues the other"""
        cond = simp(cond)
        if cond is True: self.goto(fr, bt); return 'jump'
        if cond is False: self.goto(fr, bf); return 'jump'
        nc = z3.Not(cond)
        ft = self.feasible(st, cond); ff = self.feasible(st, nc) if ft else True
        if ft and ff:
            s2 = st.clone(); f2 = fr.clone(); s2.assume(nc); self.goto(f2, bf); work.append((f2, s2))
            st.assume(cond); self.goto(fr, bt); return 'jump'
        if ft: st.assume(cond); self.goto(fr, bt); return 'jump'
        st.assume(nc); self.goto(fr, bf); return 'jump'

    def fork_values(self, fr, st, i, alts, work):
        """set register i to each (cond, value)"""
        for c, v in alts:
            if c is False: continue
            if c is not True and not self.feasible(st, c): continue
            s2 = st.clone(); f2 = fr.clone(); s2.assume(c); f2.regs[i.id] = v; f2.ip += 1
            work.append((f2, s2))
        return 'end'

    def step(self, fr, st, i, work, outs):
        op = i.op; V = self.val
        if op in ('call', 'invoke'): return self.do_call(fr, st, i, work, outs)
        if op == 'load':
            p = V(fr, i.ops[0])
            v = self.load(st, p, i.ty, fr, i)
            if isinstance(v, Choice):
                alts = []
                key = p
                for c, x in v.alts:
                    alts.append((c, x))
                # remember the decision in the cell so that the case split happens once
                pp = p
                for c, x in alts:
                    if c is not True and not self.feasible(st, c): continue
                    s2 = st.clone(); f2 = fr.clone(); s2.assume(c); f2.regs[i.id] = conv(x, i.ty); f2.ip += 1
                    cc = pp.off.const()
                    if cc is not None and pp.r is not None and not pp.r.stride and pp.r.forward is None:
                        cl = s2.cells(pp.r, True); cl[cc] = (i.ty.size, x)
                    work.append((f2, s2))
                return 'end'
            fr.regs[i.id] = v; return None
        if op == 'store':
            self.store(st, V(fr, i.ops[1]), i.ops[0].ty, V(fr, i.ops[0]), fr, i); return None
        if op == 'gep':
            fr.regs[i.id] = self.gep(i.x, [V(fr, o) for o in i.ops], [o.ty for o in i.ops]); return None
        if op in BINOPS: fr.regs[i.id] = self.binop(fr, st, i, V(fr, i.ops[0]), V(fr, i.ops[1])); return None
        if op == 'icmp':
            fr.regs[i.id] = self.icmp(i.x, V(fr, i.ops[0]), V(fr, i.ops[1]), i.ops[0].ty, st); return None
        if op == 'br':
            if not i.ops: self.goto(fr, i.x[0]); return 'jump'
            c = V(fr, i.ops[0])
            return self.split(fr, st, c, i.x[0], i.x[1], work)
        if op == 'switch':
            v = V(fr, i.ops[0]); w = i.ops[0].ty.width
            if isinstance(v, int):
                for k, b in zip(i.ops[1:], i.x[1:]):
                    if k.v == v: self.goto(fr, b); return 'jump'
                self.goto(fr, i.x[0]); return 'jump'
            conds = {}
            for k, b in zip(i.ops[1:], i.x[1:]): conds.setdefault(b, []).append(bv(v, w) == z3.BitVecVal(k.v, w))
            rest = []
            for b, cs in conds.items():
                c = z3.Or(cs) if len(cs) > 1 else cs[0]
                rest.append(z3.Not(c))
                if self.feasible(st, c):
                    s2 = st.clone(); f2 = fr.clone(); s2.assume(c); self.goto(f2, b); work.append((f2, s2))
            c = z3.And(rest)
            if self.feasible(st, c):
                st.assume(c); self.goto(fr, i.x[0]); return 'jump'
            return 'end'
        if op == 'ret':
            outs.append(Outcome('ret', st, V(fr, i.ops[0]) if i.ops else None)); return 'end'
        if op == 'alloca':
            cnt = V(fr, i.ops[0])
            if cnt != 1: raise Unsupported('variable alloca')
            ty = i.x
            nm = 'local_' + short(fr.F.dem).split('(')[0].split('::')[-1] + '_%d' % i.id
            r = Region(nm, size=ty.size, ty=ty if ty.size and ty.kind in ('struct', 'array', 'int', 'ptr', 'float', 'double') and ty.size <= 65536 else None, kind='stack')
            fr.regs[i.id] = Ptr(r); return None
        if op in ('zext', 'sext', 'trunc'):
            v = V(fr, i.ops[0]); w0 = i.ops[0].ty.width; w = i.ty.width
            fr.regs[i.id] = self.cast(op, v, w0, w); return None
        if op == 'select':
            c = V(fr, i.ops[0]); a = V(fr, i.ops[1]); b = V(fr, i.ops[2])
            c = simp(c)
            if c is True: fr.regs[i.id] = a; return None
            if c is False: fr.regs[i.id] = b; return None
            if isinstance(a, (Ptr, FuncPtr)) or isinstance(b, (Ptr, FuncPtr)) or isinstance(a, PInt) or isinstance(b, PInt):
                if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r and a.r is not None and a.r.stride:
                    ra = a.off.c % a.r.stride; rb = b.off.c % b.r.stride
                    if ra == rb:
                        ia, _ = self.index(a, a.r); ib, _ = self.index(b, b.r)
                        fr.regs[i.id] = Ptr(a.r, Off(ra).add(z3.If(c, bv(ia, 64), bv(ib, 64)), a.r.stride), a.tag); return None
                return self.fork_values(fr, st, i, [(c, a), (z3.Not(c), b)], work)
            if i.ty.kind == 'int':
                w = i.ty.width
                fr.regs[i.id] = conc(z3.simplify(z3.If(c, bo(a), bo(b)))) if w == 1 else z3.If(c, bv(a, w), bv(b, w)); return None
            if i.ty.kind in ('float', 'double'): fr.regs[i.id] = z3.If(c, a, b); return None
            return self.fork_values(fr, st, i, [(c, a), (z3.Not(c), b)], work)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            fr.regs[i.id] = self.fp.bin(op[1:], V(fr, i.ops[0]), V(fr, i.ops[1])); return None
        if op == 'fneg': fr.regs[i.id] = z3.fpNeg(V(fr, i.ops[0])); return None
        if op == 'fcmp': fr.regs[i.id] = simp(fcmp(i.x, V(fr, i.ops[0]), V(fr, i.ops[1]))); return None
        if op == 'fptrunc': fr.regs[i.id] = self.fp.to32(V(fr, i.ops[0])); return None
        if op == 'fpext': fr.regs[i.id] = self.fp.to64(V(fr, i.ops[0])); return None
        if op in ('sitofp', 'uitofp'):
            s = F32 if i.ty.kind == 'float' else F64
            v = V(fr, i.ops[0])
            if i.ops[0].ty.width == 1: v = z3.If(bo(v), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)); 
            fr.regs[i.id] = (self.fp.fromsint if op[0] == 's' else self.fp.fromuint)(v, s, i.ops[0].ty.width if i.ops[0].ty.width > 1 else 8); return None
        if op in ('fptosi', 'fptoui'):
            v = V(fr, i.ops[0]); w = i.ty.width
            lo = -(1 << (w - 1)) if op == 'fptosi' else 0
            fr.regs[i.id] = conc(z3.fpToSBV(RTZ, v, z3.BitVecSort(w)) if op == 'fptosi' else z3.fpToUBV(RTZ, v, z3.BitVecSort(w))); return None
        if op == 'ptrtoint':
            v = V(fr, i.ops[0])
            fr.regs[i.id] = v if isinstance(v, FuncPtr) else conv(v, T64); return None
        if op == 'inttoptr':
            v = V(fr, i.ops[0])
            fr.regs[i.id] = v if isinstance(v, FuncPtr) else conv(v, TP); return None
        if op == 'bitcast': fr.regs[i.id] = conv(V(fr, i.ops[0]), i.ty); return None
        if op == 'freeze': fr.regs[i.id] = V(fr, i.ops[0]); return None
        if op == 'extractvalue':
            v = V(fr, i.ops[0])
            for k in i.x: v = v[k] if not isinstance(v, UndefV) else UNDEF
            fr.regs[i.id] = v; return None
        if op == 'insertvalue':
            v = V(fr, i.ops[0]); ty = i.ty
            v = self.insert(v, V(fr, i.ops[1]), i.x, ty); fr.regs[i.id] = v; return None
        if op == 'landingpad': return self.landingpad(fr, st, i)
        if op == 'resume':
            outs.append(Outcome('throw', st, fr.exc)); return 'end'
        if op == 'unreachable':
            self.obligation(st, self.obname(fr, i, 'unreachable code is not reached'), False, 'safety'); return 'end'
        if op == 'fence': return None
        if op == 'atomicrmw':
            p = V(fr, i.ops[0]); v = V(fr, i.ops[1]); old = self.load(st, p, i.ty, fr, i)
            w = i.ty.width
            f = {0: lambda a, b: b, 1: lambda a, b: a + b, 2: lambda a, b: a - b, 3: lambda a, b: a & b, 5: lambda a, b: a | b, 6: lambda a, b: a ^ b}.get(i.x)
            if f is None: raise Unsupported('atomicrmw %s' % i.x)
            new = f(bv(old, w), bv(v, w))
            self.store(st, p, i.ty, simp(new), fr, i); fr.regs[i.id] = old; return None
        if op == 'cmpxchg':
            p = V(fr, i.ops[0]); cmp = V(fr, i.ops[1]); new = V(fr, i.ops[2]); ty = i.ops[1].ty
            old = self.load(st, p, ty, fr, i)
            eq = self.icmp('eq', old, cmp, ty, st)
            if isinstance(eq, bool):
                if eq: self.store(st, p, ty, new, fr, i)
            elif ty.kind == 'int': self.store(st, p, ty, z3.If(eq, bv(new, ty.width), bv(old, ty.width)), fr, i)
            else: raise Unsupported('cmpxchg ptr')
            fr.regs[i.id] = [old, eq]; return None
        raise Unsupported('instruction ' + op + ' in ' + fr.F.dem)

    def insert(self, v, x, path, ty):
        if isinstance(v, UndefV): v = [UNDEF] * (len(ty.elems) if ty.kind == 'struct' else ty.n)
        v = list(v)
        if len(path) == 1: v[path[0]] = x
        else: v[path[0]] = self.insert(v[path[0]], x, path[1:], ty.elems[path[0]] if ty.kind == 'struct' else ty.elem)
        return v

    def cast(self, op, v, w0, w):
        if isinstance(v, PInt): v = v.z3() if op != 'trunc' or w != 64 else v
        if w0 == 1:
            if isinstance(v, (bool, int)): return (1 if v else 0) if op == 'zext' else ((1 << w) - 1 if v else 0)
            return z3.If(v, z3.BitVecVal(1 if op == 'zext' else -1, w), z3.BitVecVal(0, w))
        if isinstance(v, int):
            if op == 'zext': return v
            if op == 'sext': return sgn(v, w0) & ((1 << w) - 1)
            r = v & ((1 << w) - 1); return bool(r) if w == 1 else r
        if op == 'zext': return conc(z3.simplify(z3.ZeroExt(w - w0, v)))
        if op == 'sext': return conc(z3.simplify(z3.SignExt(w - w0, v)))
        r = z3.simplify(z3.Extract(w - 1, 0, v))
        return conc(z3.simplify(r == 1)) if w == 1 else conc(r)

    def icmp(self, pred, a, b, ty, st=None):
        if ty.kind == 'ptr': return self.ptrcmp(pred, a, b, st)
        w = ty.width
        if isinstance(a, PInt) or isinstance(b, PInt):
            if isinstance(a, PInt) and isinstance(b, PInt) and a.r is b.r:
                d = a.off.sub(b.off)
                if not d.t and pred in ('eq', 'ne'): return (d.c == 0) == (pred == 'eq')
                a, b = a.off.z3(), b.off.z3()
            a, b = bv(a, 64), bv(b, 64)
        if w == 1:
            if isinstance(a, (int, bool)) and isinstance(b, (int, bool)): return (bool(a) == bool(b)) == (pred == 'eq')
            r = bo(a) == bo(b)
            return simp(r if pred == 'eq' else z3.Not(r))
        if isinstance(a, int) and isinstance(b, int):
            if pred[0] == 's': a, b, p = sgn(a, w), sgn(b, w), pred[1:]
            elif pred[0] == 'u': p = pred[1:]
            else: p = pred
            return {'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[p]
        a, b = bv(a, w), bv(b, w)
        if pred == 'eq': r = a == b
        elif pred == 'ne': r = a != b
        else: r = {'ugt': z3.UGT, 'uge': z3.UGE, 'ult': z3.ULT, 'ule': z3.ULE, 'sgt': lambda x, y: x > y, 'sge': lambda x, y: x >= y, 'slt': lambda x, y: x < y, 'sle': lambda x, y: x <= y}[pred](a, b)
        return simp(r)

    def ptrcmp(self, pred, a, b, st=None):
        if isinstance(a, Choice) or isinstance(b, Choice): raise Unsupported('compare case-split pointers')
        if isinstance(a, FuncPtr) or isinstance(b, FuncPtr):
            eq = isinstance(a, FuncPtr) and isinstance(b, FuncPtr) and a.name == b.name
            return eq if pred == 'eq' else not eq
        if not isinstance(a, Ptr) or not isinstance(b, Ptr): raise Unsupported('pointer compare %r %r' % (a, b))
        def nullcond(p):
            if p.r is None: return True
            if p.r.null_zero:
                idx, rem = self.index(p, p.r); return simp(bv(idx, 64) == 0) if rem == 0 else False
            if p.r.kind == 'raw': return simp(p.off.z3() == 0)
            return False
        if a.r is b.r and a.r is not None:
            if pred in ('eq', 'ne'):
                d = a.off.sub(b.off)
                if not d.t: r = d.c == 0
                else:
                    g = 0
                    if a.r.stride:
                        o = d.div(a.r.stride)
                        if o is None: return simp((d.z3() == 0) if pred == 'eq' else (d.z3() != 0))
                        d = o
                    r = simp(d.z3() == 0)
            else:
                x, y = a.off, b.off
                if a.r.stride:
                    # compare element indices when both are aligned alike (offsets cannot wrap inside an object)
                    ra, rb = x.c % a.r.stride, y.c % a.r.stride
                    ox, oy = Off(x.c - ra, x.t).div(a.r.stride), Off(y.c - rb, y.t).div(a.r.stride)
                    if ox is not None and oy is not None and ra == rb: x, y = ox, oy
                return self.icmp(pred, x.value(), y.value(), T64)
        elif a.r is None or b.r is None:
            r = nullcond(b if a.r is None else a)
            if pred in ('ult', 'ule', 'ugt', 'uge'): raise Unsupported('ordered null compare')
        else:
            if pred not in ('eq', 'ne'): raise Unsupported('ordered compare of unrelated pointers %s %s' % (a.r.name, b.r.name))
            if a.r.kind == 'raw' or b.r.kind == 'raw':
                x = a.off.z3() if a.r.kind == 'raw' else PInt(a.r, a.off).z3(); y = b.off.z3() if b.r.kind == 'raw' else PInt(b.r, b.off).z3()
                r = simp(x == y)
            else: r = False
        if pred == 'eq': return r
        return (not r) if isinstance(r, bool) else simp(z3.Not(r))

    def binop(self, fr, st, i, a, b):
        op = i.op; w = i.ty.width
        if w == 1:
            a, b = simp(bo(a)), simp(bo(b))
            if op == 'and': return a and b if isinstance(a, bool) and isinstance(b, bool) else simp(z3.And(bo(a), bo(b)))
            if op == 'or': return simp(z3.Or(bo(a), bo(b)))
            if op in ('xor', 'add', 'sub'): return simp(z3.Xor(bo(a), bo(b)))
            raise Unsupported('i1 ' + op)
        if isinstance(a, PInt) or isinstance(b, PInt):
            r = self.pint_op(op, a, b, i)
            if r is not None: return r
            a, b = bv(a, w), bv(b, w)
        m = (1 << w) - 1
        if op in ('sdiv', 'srem', 'udiv', 'urem'):
            z = b == 0 if isinstance(b, int) else simp(b == 0)
            if z is True or not isinstance(z, bool):
                self.obligation(st, self.obname(fr, i, 'no division by zero'), simp(z3.Not(bo(z))), 'safety')
                if z is True: raise PathEnd()
            if op[0] == 's' and not (isinstance(b, int) and b != m) :
                mn = 1 << (w - 1)
                c = z3.And(bv(a, w) == mn, bv(b, w) == m)
                self.obligation(st, self.obname(fr, i, 'no overflow in division'), simp(z3.Not(c)), 'safety')
        if isinstance(a, int) and isinstance(b, int):
            sa, sb = sgn(a, w), sgn(b, w)
            if op == 'add': r = a + b
            elif op == 'sub': r = a - b
            elif op == 'mul': r = mul_div(a, b)
            elif op == 'and': r = a & b
            elif op == 'or': r = a | b
            elif op == 'xor': r = a ^ b
            elif op == 'shl': r = a << b if b < w else 0
            elif op == 'lshr': r = a >> b if b < w else 0
            elif op == 'ashr': r = sa >> min(b, w - 1)
            elif op == 'udiv': r = a // b
            elif op == 'urem': r = a % b
            elif op == 'sdiv': q = abs(sa) // abs(sb); r = q if (sa < 0) == (sb < 0) else -q
            elif op == 'srem': q = abs(sa) % abs(sb); r = q if sa >= 0 else -q
            return r & m
        if isinstance(b, int) and b == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'): return a
        if isinstance(a, int) and a == 0 and op in ('add', 'or', 'xor'): return b
        if isinstance(b, int) and b == 1 and op in ('mul', 'sdiv', 'udiv'): return a
        A, B = bv(a, w), bv(b, w)
        if self.check_overflow and i.nsw and op in ('add', 'sub', 'mul') and not self.mute:
            if op == 'add': g = z3.And(z3.BVAddNoOverflow(A, B, True), z3.BVAddNoUnderflow(A, B))
            elif op == 'sub': g = z3.And(z3.BVSubNoOverflow(A, B), z3.BVSubNoUnderflow(A, B, True))
            else: g = z3.And(z3.BVMulNoOverflow(A, B, True), z3.BVMulNoUnderflow(A, B))
            self.obligation(st, self.obname(fr, i, 'no signed overflow'), simp(g), 'overflow')
        if op == 'add': r = A + B
        elif op == 'sub': r = A - B
        elif op == 'mul': r = A * B
        elif op == 'and': r = A & B
        elif op == 'or': r = A | B
        elif op == 'xor': r = A ^ B
        elif op == 'shl': r = A << B
        elif op == 'lshr': r = z3.LShR(A, B)
        elif op == 'ashr': r = A >> B
        elif op == 'udiv': r = z3.UDiv(A, B)
        elif op == 'urem': r = z3.URem(A, B)
        elif op == 'sdiv': r = A / B
        elif op == 'srem': r = z3.SRem(A, B)
        return conc(z3.simplify(r)) if op in ('add', 'sub', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'mul') else r

    def pint_op(self, op, a, b, i):
        if op == 'sub' and isinstance(a, PInt) and isinstance(b, PInt) and a.r is b.r:
            return self.norm_pint(PInt(None, a.off.sub(b.off)))
        if op in ('add', 'sub'):
            if isinstance(a, PInt) and not (isinstance(b, PInt) and b.r is not None):
                bb = b.off.z3() if isinstance(b, PInt) else b
                return self.norm_pint(PInt(a.r, a.off.add(bb, 1 if op == 'add' else -1)))
            if op == 'add' and isinstance(b, PInt): return self.norm_pint(PInt(b.r, b.off.add(a)))
        if op in ('sdiv', 'ashr', 'lshr', 'udiv') and isinstance(a, PInt) and a.r is None and isinstance(b, int):
            d = b if op in ('sdiv', 'udiv') else 1 << b
            o = a.off.div(d)
            if o is not None: return self.norm_pint(PInt(None, o))
        return None
    def norm_pint(self, p):
        if p.r is None and not p.off.t: return p.off.c & M64
        return p

    # ---------------------------------------------------------------- calls
    def do_call(self, fr, st, i, work, outs):
        cv = i.ops[0]
        if cv.k == 'asm': raise Unsupported('inline asm')
        args = None
        if cv.k == 'func': name = cv.name; fp = None
        else:
            fp = self.val(fr, cv)
            if isinstance(fp, FuncPtr): name = fp.name
            else: raise Unsupported('indirect call through %r in %s' % (fp, fr.F.dem))
        if name.startswith('llvm.'):
            r = self.intrinsic(fr, st, i, name)
            if r is not NotImplemented:
                if r == 'end': return r
                if i.op == 'invoke': self.goto(fr, i.x[0]); return 'jump'
                return None
        args = [self.val(fr, o) for o in i.ops[1:]]
        outs2 = self.call(fr, st, name, args, i)
        return self.after_call(fr, i, outs2, work, outs)

    def after_call(self, fr, i, outs2, work, outs):
        if len(outs2) == 1 and outs2[0].kind == 'ret':
            # common case: continue in place is not possible (state object may differ), queue it
            pass
        for o in outs2:
            f2 = fr.clone() if len(outs2) > 1 else fr
            if o.kind == 'ret':
                f2.regs[i.id] = o.val
                if i.op == 'invoke': self.goto(f2, i.x[0])
                else: f2.ip += 1
                work.append((f2, o.st))
            elif o.kind == 'throw':
                if i.op == 'invoke':
                    f2.exc = o.val; self.goto(f2, i.x[1]); work.append((f2, o.st))
                else:
                    outs.append(Outcome('throw', o.st, o.val))
        return 'end'

    def call(self, fr, st, name, args, i):
        dem = demangle(name)
        h = self.lookup(name, dem)
        if h is not None:
            r = h(self, st, args, CallCtx(fr, i, name, dem))
            if r is not NotImplemented:
                if isinstance(r, list): return r
                if isinstance(r, Outcome): return [r]
                return [Outcome('ret', st, r)]
        F = self.prog.find(name)
        if F is None:
            raise Unsupported('external function ' + dem)
        self.rep.inlined.add(dem)
        return self.run(F, args, st, fr.depth + 1)

    def lookup(self, name, dem):
        k = name
        if k in self.cmap: return self.cmap[k]
        h = None
        for pred, hd in self.contracts:
            if pred(dem):
                h = hd; break
        self.cmap[k] = h
        return h
    def add_contract(self, pred, h):
        if isinstance(pred, str):
            s = pred; pred = lambda d, s=s: d == s
        self.contracts.insert(0, (pred, h)); self.cmap = {}
    def add_lib(self, pred, h):
        if isinstance(pred, str):
            s = pred; pred = lambda d, s=s: d == s
        self.contracts.append((pred, h)); self.cmap = {}

    def intrinsic(self, fr, st, i, name):
        V = lambda k: self.val(fr, i.ops[k + 1])
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            self.memcpy(st, V(0), V(1), V(2), fr, i); return None
        if name.startswith('llvm.memset'):
            self.memset(st, V(0), V(1), V(2), fr, i); return None
        if name.startswith('llvm.trap'):
            self.obligation(st, self.obname(fr, i, 'no trap'), False, 'safety'); return 'end'
        if name.startswith('llvm.eh.typeid.for'):
            g = i.ops[1]; fr.regs[i.id] = self.typeid(g.name or (self.val(fr, g).r.gname)); return None
        if name.startswith(('llvm.smax', 'llvm.smin', 'llvm.umax', 'llvm.umin')):
            a, b = V(0), V(1); w = i.ty.width
            p = {'smax': 'sgt', 'smin': 'slt', 'umax': 'ugt', 'umin': 'ult'}[name[5:9]]
            c = self.icmp(p, a, b, i.ty); fr.regs[i.id] = a if c is True else b if c is False else z3.If(c, bv(a, w), bv(b, w)); return None
        if name.startswith('llvm.abs'):
            a = bv(V(0), i.ty.width); fr.regs[i.id] = conc(z3.simplify(z3.If(a < 0, -a, a))); return None
        if name.startswith('llvm.fabs'): fr.regs[i.id] = z3.fpAbs(V(0)); return None
        if name.startswith('llvm.fmuladd'): fr.regs[i.id] = self.fp.add(self.fp.mul(V(0), V(1)), V(2)); return None
        if name.startswith('llvm.sqrt'): fr.regs[i.id] = self.fp.sqrt(V(0)); return None
        if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.stacksave', 'llvm.stackrestore', 'llvm.prefetch', 'llvm.donothing')):
            fr.regs[i.id] = NULL; return None
        if name.startswith('llvm.expect'): fr.regs[i.id] = V(0); return None
        if name.startswith('llvm.objectsize'): fr.regs[i.id] = M64; return None
        if name.startswith(('llvm.sadd.with', 'llvm.uadd.with', 'llvm.umul.with', 'llvm.smul.with', 'llvm.ssub.with', 'llvm.usub.with')):
            a, b = V(0), V(1); w = i.ops[1].ty.width; A, B = bv(a, w), bv(b, w); k = name[5:9]
            r = {'add': A + B, 'mul': A * B, 'sub': A - B}[k[1:]]
            s = k[0] == 's'
            if k[1:] == 'add': ov = z3.Not(z3.And(z3.BVAddNoOverflow(A, B, s), z3.BVAddNoUnderflow(A, B) if s else True))
            elif k[1:] == 'mul': ov = z3.Not(z3.And(z3.BVMulNoOverflow(A, B, s), z3.BVMulNoUnderflow(A, B) if s else True))
            else: ov = z3.Not(z3.And(z3.BVSubNoOverflow(A, B) if s else True, z3.BVSubNoUnderflow(A, B, s)))
            fr.regs[i.id] = [simp(r), simp(ov)]; return None
        return NotImplemented

    # ---------------------------------------------------------------- exceptions
    def typeid(self, gname):
        if not hasattr(self, '_tid'): self._tid = {}
        return self._tid.setdefault(gname, len(self._tid) + 1)
    def landingpad(self, fr, st, i):
        cleanup, clauses = i.x
        e = fr.exc; sel = 0
        for c in clauses:
            if c.k == 'null': sel = self.typeid('catch-all'); break
            if c.k in ('global',):
                cn = demangle('_Z' + c.name[4:]) if False else ti_name(c.name)
                if e is not None and (e.ty == cn or cn in STD_BASES.get(e.ty, []) or (e.ty == 'any' and cn == 'std::exception') or cn in getattr(e, 'bases', ())):
                    sel = self.typeid(c.name); break
        r = Region('exception', size=None, lazy=True)
        r.exc = e
        fr.regs[i.id] = [Ptr(r), sel]
        return None

    # ---------------------------------------------------------------- loops with invariants
    def want_inv(self, fr, st):
        key = (fr.F.name, fr.blk.idx)
        return key in self.force_inv

    def cut_loop(self, fr, st, work, outs, stop_at):
        """Cut the loop at header fr.blk: infer/verify an inductive invariant, then continue from an arbitrary iteration."""
        F = fr.F; H = fr.blk
        body = natural_loops(F)[H]
        phis = [p for p in H.insts if p.op == 'phi']
        entry = {}
        for p in phis:
            for v, b in p.ops:
                if b is fr.prev: entry[p.id] = self.val(fr, v)
        # 1. which memory does the body write?  (fixpoint of executions from havocked states, obligations muted)
        modified = set()
        saved_w = self.wlog
        for rnd in range(8):
            self.mute += 1
            self.wlog = set()
            pn = self.max_paths
            try:
                s2 = st.clone(); f2 = fr.clone()
                self.havoc(f2, s2, phis, entry, modified)
                f2.prev = None; f2.ip = len(phis)
                self.explore_from_header(f2, s2, H)
                w = self.wlog
            finally:
                self.wlog = saved_w; self.mute -= 1
            w = {x for x in w if self.preexisting(x, st)}
            if w <= modified: break
            modified |= w
        else: raise Unsupported('loop frame does not stabilise in ' + F.dem)
        if saved_w is not None: saved_w |= modified
        # 2. candidates
        ctx = LoopCtx(self, fr, st, phis, entry, modified)
        cands = self.auto_candidates(ctx)
        for c in cands: c.auto = True
        if self.autokeep is not None: cands = [c for c in cands if any(k in c.name for k in self.autokeep)]
        cands = cands + list((self.loopspec.candidates or (lambda c: []))(ctx) or [])
        # entry check
        alive = []
        vals0 = dict(entry)
        for c in cands:
            try: f = c.at(self, st, vals0)
            except Unsupported: continue
            r, _ = self.prove(st, f, cheap=c.auto)
            if DROPLOG: print('ENTRY', F.blocks.index(H) if H in F.blocks else 0, c.name, r, str(f)[:80].replace(chr(10),' '))
            if r == 'ok': alive.append(c)
            elif getattr(c, 'required', False):
                self.obligation(st, 'loop invariant holds on entry: %s in %s' % (c.name, short(F.dem)), f, 'invariant')
        # 3. Houdini
        for rnd in range(30):
            s2 = st.clone(); f2 = fr.clone()
            vals = self.havoc(f2, s2, phis, entry, modified)
            for c in alive: s2.assume(bo(c.at(self, s2, vals)))
            f2.prev = None; f2.ip = len(phis)
            self.mute += 1
            try: bouts = self.explore_from_header(f2, s2, H)
            finally: self.mute -= 1
            drop = []
            for c in alive:
                if getattr(c, 'required', False): continue          # assumed here, proved as an obligation below
                if self.hints and any(self.refuted(o.st, c.at(self, o.st, {p.id: self.back_val(o.val, p) for p in phis})) for o in bouts): drop.append(c); continue
                for o in bouts:
                    nv = {p.id: self.back_val(o.val, p) for p in phis}
                    f = c.at(self, o.st, nv)
                    r = 'fail' if self.refuted(o.st, f) else self.prove(o.st, f, cheap=c.auto)[0]
                    if r != 'ok':
                        drop.append(c); break
            if DROPLOG: print('ROUND', short(F.dem), 'alive', [c.name for c in alive], 'drop', [c.name for c in drop], len(bouts), flush=True)
            if not drop: break
            for c in drop:
                if getattr(c, 'required', False):
                    pass
            alive = [c for c in alive if c not in drop]
        else: raise Unsupported('invariant inference does not converge')
        self.rep.loops.append((short(F.dem), [c.name for c in alive]))
        lost = [c for c in cands if getattr(c, 'required', False) and c not in alive]
        for c in lost:
            o = self.rep.ob(self.fnname + ': loop invariant preserved: ' + c.name + ' in ' + short(F.dem), self.fnname, 'invariant'); o.count += 1; o.status = 'unknown'; o.detail = 'not inductive'
        # 4. final run with obligations: back edges stop here, other paths go on
        s2 = st.clone(); f2 = fr.clone()
        vals = self.havoc(f2, s2, phis, entry, modified)
        for c in alive: s2.assume(bo(c.at(self, s2, vals)))
        f2.prev = None; f2.ip = len(phis)
        f2.loopctx = (f2.loopctx, H)
        sub = [(f2, s2)]
        bouts = []
        # exits of the loop continue in the caller's worklist; run whole continuation here
        res = self.explore_loop_final(sub, F, H, stop_at)
        nback = 0
        for o in res:
            if o.kind == 'back' and o.val.blk is H:
                nback += 1
                for c in alive:
                    nv = {p.id: self.back_val(o.val, p) for p in phis}
                    self.obligation(o.st, 'loop invariant preserved: %s in %s' % (c.name, short(F.dem)), c.at(self, o.st, nv), 'invariant', assume_after=False)
                if self.loopspec.decreases:
                    d = self.loopspec.decreases(ctx, vals, {p.id: self.back_val(o.val, p) for p in phis}, s2, o.st)
                    if d is not None: self.obligation(o.st, 'loop terminates in ' + short(F.dem), d, 'termination', assume_after=False)
            else: outs.append(o)

    def explore_from_header(self, f2, s2, H):
        """paths from the (havocked) header back to it; exits are cut"""
        body = natural_loops(f2.F)[H]
        outs = []; work = [(f2, s2)]
        n = 0
        while work:
            fr, st = work.pop(); n += 1
            if n > 3000: raise Budget('too many paths in loop body')
            try: self.run_path_in(fr, st, work, outs, H, body)
            except PathEnd: pass
        return [o for o in outs if o.kind == 'back' and o.val.blk is H]

    def run_path_in(self, fr, st, work, outs, H, body):
        # like run_path but leaves when control leaves the loop body
        while True:
            if fr.ip == 0 and not (fr.prev is None and fr.blk is H):
                if fr.blk is H: outs.append(Outcome('back', st, fr)); return
                if fr.blk not in body: return
                loops = natural_loops(fr.F)
                if fr.blk in loops:
                    inside = fr.prev is not None and fr.prev in loops[fr.blk]
                    n = fr.visits.get(fr.blk, 0) if inside else 0
                    fr.visits[fr.blk] = n + 1
                    if n == 0 and self.want_inv(fr, st):
                        o2 = []
                        self.cut_loop(fr, st, work, o2, H)
                        outs += o2; return
                    if n > self.unroll: raise NeedInvariant(fr.F, fr.blk)
                if fr.blk.insts[0].op == 'phi': self.do_phis(fr)
            while True:
                i = fr.blk.insts[fr.ip]
                try: r = self.step(fr, st, i, work, outs)
                except ForkOn as f:
                    for c in f.conds:
                        if self.feasible(st, c):
                            s2 = st.clone(); s2.assume(c); f2 = fr.clone(); self.subst_offsets(f2, s2, c); work.append((f2, s2))
                    return
                if r is None: fr.ip += 1; continue
                if r == 'jump': break
                return

    def explore_loop_final(self, work, F, H, outer_stop):
        """explore everything after the cut: stops at H (back edge) and at outer_stop"""
        outs = []; n = 0
        while work:
            fr, st = work.pop(); n += 1
            if n > self.max_paths: raise Budget('too many paths')
            try: self.run_path_stops(fr, st, work, outs, H, outer_stop)
            except PathEnd: pass
        return outs
    def run_path_stops(self, fr, st, work, outs, H, outer_stop):
        while True:
            if fr.ip == 0 and not (fr.prev is None and fr.blk is H):
                if fr.blk is H and fr.prev is not None:
                    outs.append(Outcome('back', st, fr)); return
                if outer_stop is not None and fr.blk is outer_stop and fr.prev is not None:
                    outs.append(Outcome('back', st, fr)); return
                loops = natural_loops(fr.F)
                if fr.blk in loops:
                    inside = fr.prev is not None and fr.prev in loops[fr.blk]
                    n = fr.visits.get(fr.blk, 0) if inside else 0
                    fr.visits[fr.blk] = n + 1
                    if n == 0 and self.want_inv(fr, st):
                        self.cut_loop(fr, st, work, outs, H if H in natural_loops(fr.F) and fr.blk in natural_loops(fr.F)[H] else outer_stop); return
                    if n > self.unroll:
                        if self.cut_on_unroll: self.cut += 1; raise PathEnd()
                        raise NeedInvariant(fr.F, fr.blk)
                if fr.blk.insts[0].op == 'phi': self.do_phis(fr)
            while True:
                i = fr.blk.insts[fr.ip]
                try: r = self.step(fr, st, i, work, outs)
                except ForkOn as f:
                    for c in f.conds:
                        if self.feasible(st, c):
                            s2 = st.clone(); s2.assume(c); f2 = fr.clone(); self.subst_offsets(f2, s2, c); work.append((f2, s2))
                    return
                if r is None: fr.ip += 1; continue
                if r == 'jump': break
                return

    def preexisting(self, x, st):
        if x[0] == 'ghost':
            o = self.__dict__.get('_strowner', {}).get(x[1])
            return o is None or x[1] in st.ghost or o.kind not in ('stack', 'temp')
        r = x[0]
        if r.kind == 'stack' and r.id not in st.mem: return False
        if r.kind == 'temp' and r.id not in st.mem: return False
        return True

    def back_val(self, fr, phi):
        for v, b in phi.ops:
            if b is fr.prev: return self.val(fr, v)
        raise Unsupported('phi')

    def havoc(self, fr, st, phis, entry, modified):
        vals = {}
        for p in phis:
            e = entry[p.id]
            if isinstance(e, Ptr):
                if e.r is None: raise Unsupported('loop-carried null pointer')
                if e.r.stride: v = Ptr(e.r, Off(e.off.c % e.r.stride).add(fresh('lp%d' % p.id, 64), e.r.stride), e.tag)
                else:
                    v = Ptr(e.r, Off(0).add(fresh('lp%d' % p.id, 64)), e.tag)
            elif isinstance(e, PInt): v = fresh('lp%d' % p.id, 64)
            else: v = fresh_of('lp%d' % p.id, p.ty)
            vals[p.id] = v; fr.regs[p.id] = v
        for x in modified:
            if x[0] == 'ghost':
                g = st.ghost.get(x[1])
                if isinstance(g, Ghost): st.ghost[x[1]] = g.havoc(self, st)
                elif g is None and str(x[1]).startswith('str:'): st.ghost[x[1]] = (z3.FreshConst(BV64, 'len'), z3.FreshConst(BV64, 'watch'))
                elif z3.is_expr(g): st.ghost[x[1]] = z3.FreshConst(g.sort(), 'g')
                elif isinstance(g, tuple) and g and all(z3.is_expr(q) for q in g): st.ghost[x[1]] = tuple(z3.FreshConst(q.sort(), 'g') for q in g)
                elif isinstance(g, bool): st.ghost[x[1]] = z3.FreshConst(z3.BoolSort(), 'g')
                elif isinstance(g, int): st.ghost[x[1]] = z3.FreshConst(BV64, 'g')
                else: raise Unsupported('havoc of ghost %r' % (x[1],))
                continue
            r, key = x
            if r.stride:
                ty = r.leaves[key]
                st.cells(r, True)[key] = z3.FreshConst(z3.ArraySort(BV64, type_sort(ty)), r.name)
            elif isinstance(key, tuple):
                st.cells(r, True)[key] = z3.FreshConst(z3.ArraySort(BV64, BV8), r.name)
            else:
                c = st.cells(r, True); old = c.get(key)
                if old is None:
                    if r.lazy:
                        lt = (r.leaves or {}).get(key)
                        if lt is None: raise Unsupported('havoc of unknown cell')
                        self.load(st, Ptr(r, Off(key)), lt, check=False); old = st.cells(r)[key]; c = st.cells(r, True)
                    else: continue
                sz, v = old
                if isinstance(v, Ptr):
                    if v.r is None: raise Unsupported('havoc of null pointer cell in ' + r.name)
                    nv = Ptr(v.r, Off(v.off.c % v.r.stride).add(fresh('hp', 64), v.r.stride) if v.r.stride else Off(0).add(fresh('hp', 64)), v.tag)
                elif isinstance(v, (FuncPtr, Choice)): raise Unsupported('havoc of %r' % (v,))
                elif z3.is_fp(v): nv = fresh('h', 'float' if v.sort() == F32 else 'double')
                elif isinstance(v, bool) or (z3.is_expr(v) and z3.is_bool(v)): nv = fresh('h', 1)
                else: nv = fresh('h', 8 * sz)
                c[key] = (sz, nv)
        return vals

    def auto_candidates(self, ctx):
        """generic relational candidates over loop-carried integers and pointer indices; Houdini keeps the inductive ones"""
        cs = []
        nums = ctx.numeric()
        for n, g in nums:
            e = ctx.entry_num(n)
            if e is None: continue
            cs.append(Cand('%s >=u entry' % n, lambda ex, st, vs, g=g, e=e: z3.UGE(g(ex, st, vs), e)))
            cs.append(Cand('%s <=u entry' % n, lambda ex, st, vs, g=g, e=e: z3.ULE(g(ex, st, vs), e)))
            cs.append(Cand('%s >=s entry' % n, lambda ex, st, vs, g=g, e=e: g(ex, st, vs) >= e))
            cs.append(Cand('%s <=s entry' % n, lambda ex, st, vs, g=g, e=e: g(ex, st, vs) <= e))
        for (n1, g1), (n2, g2) in itertools.permutations(nums, 2):
            cs.append(Cand('%s <=u %s' % (n1, n2), lambda ex, st, vs, g1=g1, g2=g2: z3.ULE(g1(ex, st, vs), g2(ex, st, vs))))
        for (n1, g1), (n2, g2) in itertools.combinations(nums, 2):
            e1, e2 = ctx.entry_num(n1), ctx.entry_num(n2)
            if e1 is None or e2 is None: continue
            cs.append(Cand('%s - %s const' % (n1, n2), lambda ex, st, vs, g1=g1, g2=g2, e1=e1, e2=e2: g1(ex, st, vs) - e1 == g2(ex, st, vs) - e2))
            cs.append(Cand('%s + %s const' % (n1, n2), lambda ex, st, vs, g1=g1, g2=g2, e1=e1, e2=e2: g1(ex, st, vs) + g2(ex, st, vs) == e1 + e2))
        for bn, bt in ctx.bounds():
            for n, g in nums:
                cs.append(Cand('%s <=u %s' % (n, bn), lambda ex, st, vs, g=g, bt=bt: z3.ULE(g(ex, st, vs), bt)))
                cs.append(Cand('%s <=s %s' % (n, bn), lambda ex, st, vs, g=g, bt=bt: g(ex, st, vs) <= bt))
                cs.append(Cand('%s >=s %s' % (n, bn), lambda ex, st, vs, g=g, bt=bt: g(ex, st, vs) >= bt))
        return cs

class Ghost:
    def havoc(self, ex, st): raise Unsupported('ghost havoc')

_hd = {}
def has_div(t):
    if isinstance(t, bool): return False
    k = t.get_id(); v = _hd.get(k)
    if v is None or not v[0].eq(t):
        v = (t, z3.is_app(t) and (t.decl().kind() in (z3.Z3_OP_BSREM, z3.Z3_OP_BUREM, z3.Z3_OP_BSDIV, z3.Z3_OP_BUDIV, z3.Z3_OP_BSREM_I, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BUREM_I, z3.Z3_OP_BUDIV_I) or any(has_div(c) for c in t.children()))); _hd[k] = v
    return v[1]
DROPLOG = False
class Cand:
    auto = False
    def __init__(self, name, f, required=False): self.name = name; self.f = f; self.required = required
    def at(self, ex, st, vals): return self.f(ex, st, vals)
    def __repr__(self): return self.name

class LoopCtx:
    """what a candidate generator may talk about: loop-carried values (by index, not by source name) and modified memory"""
    def __init__(self, ex, fr, st, phis, entry, modified):
        self.ex = ex; self.fr = fr; self.st = st; self.phis = phis; self.entry = entry; self.modified = modified
        self.F = fr.F
    def flags(self):
        """[(name, getter)] truth values: one-bit and one-byte integer phis, modified one-byte cells"""
        out = []
        for k, p in enumerate(self.phis):
            if p.ty.kind == 'int' and p.ty.width == 1: out.append(('phi%d' % k, lambda ex, st, vs, p=p: bo(vs[p.id])))
            elif p.ty.kind == 'int' and p.ty.width == 8: out.append(('phi%d' % k, lambda ex, st, vs, p=p: z3.Extract(0, 0, bv(vs[p.id], 8)) == 1))
        for r, key in sorted([m for m in self.modified if m[0] != 'ghost'], key=lambda m: (m[0].id, str(m[1]))):
            if r.stride or isinstance(key, tuple): continue
            c = self.st.cells(r).get(key)
            if c is not None and c[0] == 1 and (isinstance(c[1], int) or z3.is_expr(c[1])): out.append(('%s+%d' % (r.name, key), lambda ex, st, vs, r=r, key=key: z3.Extract(0, 0, bv(st.cells(r)[key][1], 8)) == 1))
        return out
    def numeric(self):
        """[(name, getter)] 64-bit terms: integer phis, pointer phis as element index, modified integer cells"""
        out = []
        for k, p in enumerate(self.phis):
            e = self.entry[p.id]
            if isinstance(e, Ptr) and e.r is not None:
                out.append(('phi%d' % k, lambda ex, st, vs, p=p: pidx(ex, vs[p.id])))
            elif p.ty.kind == 'int' and p.ty.width in (32, 64):
                w = p.ty.width
                out.append(('phi%d' % k, lambda ex, st, vs, p=p, w=w: (bv(vs[p.id], w) if w == 64 else z3.SignExt(32, bv(vs[p.id], 32)))))
        for r, key in sorted([m for m in self.modified if m[0] != 'ghost'], key=lambda m: (m[0].id, str(m[1]))):
            if r.stride or isinstance(key, tuple): continue
            c = self.st.cells(r).get(key)
            if c is None: continue
            v = c[1]
            if isinstance(v, Ptr) and v.r is not None:
                out.append(('%s+%d' % (r.name, key), lambda ex, st, vs, r=r, key=key: pidx(ex, st.cells(r)[key][1])))
            elif c[0] in (4, 8) and (isinstance(v, int) or (z3.is_expr(v) and z3.is_bv(v))):
                w = 8 * c[0]
                out.append(('%s+%d' % (r.name, key), lambda ex, st, vs, r=r, key=key, w=w: (bv(st.cells(r)[key][1], w) if w == 64 else z3.SignExt(32, bv(st.cells(r)[key][1], 32)))))
        for x in self.modified:
            if x[0] == 'ghost':
                g = self.st.ghost.get(x[1])
                if z3.is_expr(g) and z3.is_bv(g) and g.size() == 64: out.append(('ghost %s' % x[1], lambda ex, st, vs, k=x[1]: bv(st.ghost[k], 64)))
                elif isinstance(g, Ghost) and hasattr(g, 'nums'):
                    for nm, f in g.nums(): out.append(('%s.%s' % (x[1], nm), lambda ex, st, vs, k=x[1], f=f: bv(f(st.ghost[k]), 64)))
        return out
    def entry_num(self, name):
        for n, g in self.numeric():
            if n == name:
                try: return g(self.ex, self.st, self.entry)
                except Unsupported: return None
        return None
    def bounds(self):
        """loop-invariant integer terms that the loop compares with (array counts, lengths, arguments)"""
        out = []; seen = set()
        def add(n, t):
            t = bv(t, 64)
            k = t.get_id() if True else None
            if k not in seen: seen.add(k); out.append((n, t))
        for k, a in enumerate(self.fr.args):
            ty = self.F.params[k].ty
            if ty.kind == 'int' and ty.width == 64 and not isinstance(a, PInt): add('arg%d' % k, a)
            if isinstance(a, Ptr) and a.r is not None and a.r.stride: add('arg%d' % k, pidx(self.ex, a))
        body = natural_loops(self.F)[self.fr.blk]
        for b in body:
            for i in b.insts:
                if i.op == 'icmp':
                    for o in i.ops:
                        v = None
                        if o.k == 'inst' and o.v in self.fr.regs: v = self.fr.regs[o.v]
                        elif o.k == 'arg': v = self.fr.args[o.v]
                        elif o.k == 'const' and o.ty.kind == 'int' and o.ty.width in (32, 64): v = sgn(o.v, o.ty.width) & M64
                        if isinstance(v, Ptr) and v.r is not None: add('cmp%d' % i.id, pidx(self.ex, v))
                        elif isinstance(v, int) and not isinstance(v, bool): add('cmp%d' % i.id, v)
                        elif v is not None and z3.is_expr(v) and z3.is_bv(v):
                            if v.size() == 64: add('cmp%d' % i.id, v)
                            elif v.size() == 32: add('cmp%d' % i.id, z3.SignExt(32, v))
        extra = self.st.ghost.get('bounds')
        for n, t in (extra or {}).items(): add(n, t)
        return out[:12]

def pidx(ex, p):
    if not isinstance(p, Ptr): return bv(p, 64)
    if p.r is not None and p.r.stride:
        rem = p.off.c % p.r.stride
        o = Off(p.off.c - rem, p.off.t).div(p.r.stride)
        if o is None: raise Unsupported('index of unaligned pointer')
        return bv(o.value(), 64)
    return bv(p.off.value(), 64)

class CallCtx:
    __slots__ = ('fr', 'inst', 'name', 'dem')
    def __init__(self, fr, inst, name, dem): self.fr = fr; self.inst = inst; self.name = name; self.dem = dem

class PathEnd(Exception): pass
class ForkOn(Exception):
    def __init__(self, conds): self.conds = conds
class NeedInvariant(Exception):
    def __init__(self, F, H): self.F = F; self.H = H

BINOPS = {'add','sub','mul','and','or','xor','shl','lshr','ashr','udiv','urem','sdiv','srem'}

def fcmp(p, a, b):
    nan = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
    if p == 'false': return z3.BoolVal(False)
    if p == 'true': return z3.BoolVal(True)
    if p == 'ord': return z3.Not(nan)
    if p == 'uno': return nan
    f = {'eq': z3.fpEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ}
    if p == 'one': return z3.And(z3.Not(nan), z3.Not(z3.fpEQ(a, b)))
    if p == 'une': return z3.Not(z3.fpEQ(a, b))
    if p[0] == 'o': return f[p[1:]](a, b)
    if p == 'ueq': return z3.Or(nan, z3.fpEQ(a, b))
    return z3.Or(nan, f[p[1:]](a, b))

def ti_name(g):
    d = demangle(g)
    return d.replace('typeinfo for ', '')

def mul_div(a, b):
    """a * b, with (x / y) * y written as x - x rem y (the same value, and easier to reason about)"""
    for p, q in ((a, b), (b, a)):
        if z3.is_app(p) and p.decl().kind() in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I) and z3.is_expr(q) and p.arg(1).eq(q): return p.arg(0) - z3.SRem(p.arg(0), q)
        if z3.is_app(p) and p.decl().kind() in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) and z3.is_expr(q) and p.arg(1).eq(q): return p.arg(0) - z3.URem(p.arg(0), q)
    return a * b
def short(dem):
    """demangled name without arguments' noise"""
    d = dem.replace('std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >', 'string').replace('(anonymous namespace)::', '')
    i = d.find('(')
    return d[:i] if i > 0 else d

def cvc5_check(assertions, timeout_ms):
    """last resort on a query z3 gives up on; only an 'unsat' answer is used"""
    try:
        import subprocess, tempfile, os
        s = z3.Solver()
        for a in assertions: s.add(bo(a))
        txt = '(set-logic ALL)\n' + s.to_smt2()
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f: f.write(txt); fn = f.name
        try:
            r = subprocess.run(['cvc5', '--tlimit=%d' % timeout_ms, fn], capture_output=True, text=True, timeout=timeout_ms / 1000 + 10)
            return r.stdout.strip().split('\n')[0] if r.stdout else 'unknown'
        finally: os.unlink(fn)
    except Exception: return 'unknown'

def run_with_invariants(ex, thunk):
    """run thunk(); whenever a loop cannot be unrolled, switch that loop to invariants and start again"""
    while True:
        try: return thunk()
        except NeedInvariant as e:
            k = (e.F.name, e.H.idx)
            if k in ex.force_inv: raise Unsupported('loop in %s: neither unrolling nor invariants' % e.F.dem)
            ex.force_inv.add(k)

"""Contracts of istat::Bucket (lib/Bucket.cpp)"""
import z3
from irvc.spec import *
from irvc import lib
TUS = ['lib/Bucket.cpp']
BK = 'istat::Bucket'
FIELDS = ('time_', 'sum_', 'sumSq_', 'min_', 'max_', 'count_')

def bvals(ob, st): return {f: ob.z(st, f) for f in FIELDS}
def same(a, b): return z3.And([a[f] == b[f] for f in FIELDS])
FMAX = z3.FPVal(3.4028234663852886e38, F32)
def stab(ex, f):
    """what a client is told: the value, or the largest finite value of the same sign"""
    return z3.If(z3.fpIsInf(f), z3.If(z3.fpIsNegative(f), z3.fpNeg(FMAX), FMAX), f)
def minmax(r, a, b, mx):
    nan = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
    c = (lambda x, y: z3.fpGEQ(x, y)) if mx else (lambda x, y: z3.fpLEQ(x, y))
    return z3.And(z3.Or(r == a, r == b), z3.Implies(z3.Not(nan), z3.And(c(r, a), c(r, b))))

def fps(v): return repr(v) if v == v and abs(v) != float('inf') else ('nan' if v != v else '-inf' if v < 0 else 'inf')
def bparams(ex, m, ob, pre):
    st = ex.fc_old; o = {}
    for f in FIELDS:
        v = mval(m, ob.z(st, f)); n = pre + f.rstrip('_')
        if isinstance(v, float): o[n] = fps(v)
        else: o[n] = sgn(v, 64 if f == 'time_' else 32)
    return o

class BC(FC):
    libs = (lib.base, lib.opaque_strings); kind = None; alias = False; other = False
    def setup(self, ex):
        st = State(ex); self.r = rec_region(self.L, BK, 'this'); ex.b = Obj(ex, self.L, BK, Ptr(self.r)); ex.objects = [self.r]
        a = [Ptr(self.r)]
        if self.other:
            if self.alias: ex.o = ex.b
            else:
                self.ro = rec_region(self.L, BK, 'other'); ex.o = Obj(ex, self.L, BK, Ptr(self.ro)); ex.objects.append(self.ro)
            a.append(ex.o.p)
        return st, a + self.mkargs(ex, st)
    def mkargs(self, ex, st): return []
    def objs(self, ex, a):
        b = Obj(ex, self.L, BK, a[0]); o = Obj(ex, self.L, BK, a[1]) if self.other else None
        return b, o
    fields = FIELDS      # members the function may change, when it changes any
    def havoc(self, ex, st, a):
        if type(self).modifies is FC.modifies: return
        b = Obj(ex, self.L, BK, a[0])
        for f in self.fields: b.set(st, f, fresh_of('b_' + f, b.ty(f)[1]))
    def apply(self, ex, st, args, ctx):
        for p in args[:2 if self.other else 1]: ex.resolve(st, p, 8, ctx.fr, ctx.inst, True)
        return FC.apply(self, ex, st, args, ctx)
    def to_replay(self, ex, m, st):
        d = dict(kind=self.kind, alias=int(self.alias), **bparams(ex, m, ex.b, 'a_'))
        if self.other: d.update(bparams(ex, m, ex.o, 'b_'))
        for k, (n, t) in self.params.items(): v = mval(m, t); d[n] = fps(v) if isinstance(v, float) else sgn(v, 64)
        return d
    params = {}

class Update(BC):
    dem = 'istat::Bucket::update(istat::Bucket const&)'; kind = 'update'; other = True
    def modifies(self, ex, st, a):
        b = Obj(ex, self.L, BK, a[0]); return {b.key(f) for f in FIELDS}
    def ensures(self, ex, o, st, a, ret):
        b, x = self.objs(ex, a); A, X, N = bvals(b, o), bvals(x, o), bvals(b, st); fp = ex.fp
        em = A['count_'] == 0
        return [('an empty bucket becomes an exact copy of what is folded in', z3.Implies(em, same(N, X))),
                ('the sum is the sum of both', z3.Implies(z3.Not(em), N['sum_'] == fp.add(A['sum_'], X['sum_']))),
                ('the sum of squares is the sum of both', z3.Implies(z3.Not(em), N['sumSq_'] == fp.add(A['sumSq_'], X['sumSq_']))),
                ('min is the smaller of both', z3.Implies(z3.Not(em), minmax(N['min_'], A['min_'], X['min_'], False))),
                ('max is the larger of both', z3.Implies(z3.Not(em), minmax(N['max_'], A['max_'], X['max_'], True))),
                ('counts add up', z3.Implies(z3.Not(em), N['count_'] == A['count_'] + X['count_'])),
                ('a non-empty bucket keeps its time', z3.Implies(z3.Not(em), N['time_'] == A['time_']))]
class UpdateAlias(Update):
    name = 'istat::Bucket::update (with itself)'; alias = True

LAM = z3.FP('lambda', F64)
class ExpUpdate(BC):
    dem = 'istat::Bucket::expUpdate(istat::Bucket const&, double)'; kind = 'exp'; other = True; params = {'l': ('lambda', LAM)}
    def mkargs(self, ex, st): return [LAM]
    def requires(self, ex, st, a):
        return [('the blend lies in (0,1]', z3.And(z3.fpGT(a[2], fval(0.0)), z3.fpLEQ(a[2], fval(1.0))))]
    modifies = Update.modifies
    def ensures(self, ex, o, st, a, ret):
        b, x = self.objs(ex, a); A, X, N = bvals(b, o), bvals(x, o), bvals(b, st); fp = ex.fp
        em = A['count_'] == 0; me = a[2]; you = fp.sub(fval(1.0), me)
        w = lambda p, q: fp.add(fp.mul(p, me), fp.mul(q, you))
        f = lambda n: fp.to32(w(fp.to64(A[n]), fp.to64(X[n])))
        cnt = fp.add(w(fp.fromsint(A['count_'], F64, 32), fp.fromsint(X['count_'], F64, 32)), fval(0.5))
        ci = z3.fpToSBV(RTZ, cnt, z3.BitVecSort(32))
        ne = z3.Not(em)
        return [('an empty bucket becomes an exact copy', z3.Implies(em, same(N, X))),
                ('sum is history*old + (1-history)*new', z3.Implies(ne, N['sum_'] == w(A['sum_'], X['sum_'])))] + \
               [('%s is history*old + (1-history)*new' % n, z3.Implies(ne, N[n] == f(n))) for n in ('sumSq_', 'min_', 'max_')] + \
               [('count is the blend rounded to nearest, at least 1', z3.Implies(ne, N['count_'] == z3.If(ci < 1, z3.BitVecVal(1, 32), ci))),
                ('the time is that of the new sample', z3.Implies(ne, N['time_'] == X['time_']))]

VV = z3.FP('v', F64); TT = z3.BitVec('t', 64)
class CollatedUpdate(BC):
    dem = 'istat::Bucket::collatedUpdate(double, long)'; kind = 'coll'; params = {'v': ('v', VV), 't': ('t', TT)}
    def mkargs(self, ex, st): return [VV, TT]
    modifies = Update.modifies
    def ensures(self, ex, o, st, a, ret):
        b, _ = self.objs(ex, a); A, N = bvals(b, o), bvals(b, st); fp = ex.fp
        s = fp.add(A['sum_'], a[1]); s32 = fp.to32(s)
        return [('the value is added to the sum', N['sum_'] == s), ('min = max = the sum', z3.And(N['min_'] == s32, N['max_'] == s32)),
                ('sum of squares is the square of the sum', N['sumSq_'] == fp.to32(fp.mul(s, s))), ('count is 1', N['count_'] == 1),
                ('an empty bucket takes the time, others keep theirs', N['time_'] == z3.If(A['count_'] == 0, bv(a[2], 64), A['time_']))]

class CopyTime(BC):
    dem = 'istat::Bucket::Bucket(istat::Bucket const&, long)'; kind = 'copytime'; other = True; params = {'t': ('t', TT)}
    def mkargs(self, ex, st): return [TT]
    modifies = Update.modifies
    def ensures(self, ex, o, st, a, ret):
        b, x = self.objs(ex, a); X, N = bvals(x, o), bvals(b, st)
        return [('everything but the time is copied', z3.And([N[f] == X[f] for f in FIELDS if f != 'time_'])), ('the time is the one given', N['time_'] == bv(a[2], 64))]

class Make(BC):
    dem = 'istat::Bucket::Bucket(double, float, float, float, int, long)'; kind = 'make'
    P = [z3.FP('s', F64), z3.FP('sq', F32), z3.FP('mi', F32), z3.FP('ma', F32), z3.BitVec('c', 32), TT]
    params = {k: (k, v) for k, v in zip(('s', 'sq', 'mi', 'ma', 'c', 't'), P)}
    def mkargs(self, ex, st): return list(self.P)
    modifies = Update.modifies
    def ensures(self, ex, o, st, a, ret):
        b, _ = self.objs(ex, a); N = bvals(b, st)
        return [('%s is the one given' % f, N[f] == (v if z3.is_fp(v) else bv(v, 32 if f == 'count_' else 64))) for f, v in zip(('sum_', 'sumSq_', 'min_', 'max_', 'count_', 'time_'), a[1:])]

class Clear(BC):
    dem = 'istat::Bucket::Bucket(bool)'; kind = 'clear'; params = {'z': ('clear', z3.BitVec('clear', 8))}
    def mkargs(self, ex, st): return [z3.Bool('clr')]
    def to_replay(self, ex, m, st): return dict(kind='clear', clear=int(bool(mval(m, z3.Bool('clr')))), **bparams(ex, m, ex.b, 'a_'))
    modifies = Update.modifies
    def ensures(self, ex, o, st, a, ret):
        b, _ = self.objs(ex, a); A, N = bvals(b, o), bvals(b, st)
        z = z3.And([N[f] == (z3.FPVal(0.0, N[f].sort()) if z3.is_fp(N[f]) else 0) for f in FIELDS])
        return [('clearing gives an empty bucket', z3.Implies(bo(a[1]), z)), ('otherwise memory is left alone', z3.Implies(z3.Not(bo(a[1])), same(A, N)))]

def getter(nm, fld, kind):
    class G(BC):
        dem = 'istat::Bucket::%s() const' % nm
        def ensures(self, ex, o, st, a, ret):
            b, _ = self.objs(ex, a); v = b.z(o, fld)
            if nm == 'sum': return [('sum is reported in single precision, never infinite', ret == ex.fp.to64(stab(ex, ex.fp.to32(v)))), ('never infinite', z3.Not(z3.fpIsInf(ret)))]
            if z3.is_fp(v): return [('%s is reported unchanged, never infinite' % nm, z3.And(ret == stab(ex, v), z3.Not(z3.fpIsInf(ret))))]
            return [('%s is reported unchanged' % nm, bv(ret, v.size()) == v)]
    G.kind = kind; G.__name__ = 'Get_' + nm; return G
GetTime, GetSum, GetSumSq, GetMin, GetMax, GetCount = [getter(n, n + '_', 'get') for n in ('time', 'sum', 'sumSq', 'min', 'max', 'count')]

CNT = z3.BitVec('c', 32)
class SetCount(BC):
    dem = 'istat::Bucket::setCount(int)'; kind = 'setcount'; fields = ('count_',); params = {'c': ('c', CNT)}
    def mkargs(self, ex, st): return [CNT]
    def modifies(self, ex, st, a): return {Obj(ex, self.L, BK, a[0]).key('count_')}
    def ensures(self, ex, o, st, a, ret):
        b, _ = self.objs(ex, a); return [('the count is the one given', b.z(st, 'count_') == bv(a[1], 32))]

class Avg(BC):
    dem = 'istat::Bucket::avg() const'; kind = 'get'
    def ensures(self, ex, o, st, a, ret):
        b, _ = self.objs(ex, a); A = bvals(b, o); fp = ex.fp
        q = z3.If(A['count_'] > 0, fp.div(A['sum_'], fp.fromsint(A['count_'], F64, 32)), fval(0.0))
        return [('average = sum / count (0 when empty), single precision, clamped', ret == fp.to64(stab(ex, fp.to32(q)))), ('never infinite', z3.Not(z3.fpIsInf(ret)))]

class Sdev(BC):
    dem = 'istat::Bucket::sdev() const'; kind = 'get'
    def setup(self, ex):
        # IEEE fact used for the uninterpreted square root: the result is NaN or not negative
        base = ex.fp.sqrt
        def sq(x):
            r = base(x)
            if ex.fp.mode == 'uf': self.facts.append(z3.Or(z3.fpIsNaN(r), z3.fpGEQ(r, z3.FPVal(0.0, r.sort())))); ex.rep.assumed.add('IEEE-754 square root returns NaN or a non-negative number')
            return r
        self.facts = []; ex.fp.sqrt = sq
        return BC.setup(self, ex)
    def ensures(self, ex, o, st, a, ret):
        b, _ = self.objs(ex, a); A = bvals(b, o); fp = ex.fp
        n = fp.fromsint(A['count_'], F64, 32); d = fp.sub(fp.mul(n, fp.to64(A['sumSq_'])), fp.mul(A['sum_'], A['sum_']))
        d = z3.If(z3.fpLT(d, fval(0.0)), fval(0.0), d)
        want = stab(ex, fp.to32(fp.sqrt(fp.div(d, fp.mul(n, fp.sub(n, fval(1.0)))))))
        few = A['count_'] < 2
        for f in self.facts: st.assume(f)
        return [('0 for fewer than two samples', z3.Implies(few, z3.fpIsZero(ret))),
                ('otherwise sqrt(max(0, n*sumSq - sum^2) / (n*(n-1)))', z3.Implies(z3.Not(few), ret == want)),
                ('never negative', z3.Or(z3.fpIsNaN(ret), z3.fpGEQ(ret, z3.FPVal(0.0, F32)))), ('never infinite', z3.Not(z3.fpIsInf(ret)))]

ALL = (Update, ExpUpdate, CollatedUpdate, CopyTime, Make, Clear, GetTime, GetSum, GetSumSq, GetMin, GetMax, GetCount, SetCount, Avg)

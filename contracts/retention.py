"""Contracts of RetentionPolicy (daemon/Retention.cpp)."""
import z3
from irvc.spec import *
from irvc import lib
from .statfile import B
TUS = ['daemon/Retention.cpp']
RP = 'RetentionPolicy'; RI = 'RetentionInterval'; NI = z3.BitVec('n_levels', 64)
IVS = z3.BitVec('secs_interval', 64); RTS = z3.BitVec('secs_retention', 64); NF = z3.BitVec('n_fields', 32); LAMV = z3.FP('lambda_value', F64); LLEN = z3.BitVec('lambda_length', 64)
def h_push(ex, st, a, ctx):
    w = ex.world; ex.obligation(st, 'the level is added to this policy', z3.BoolVal(isinstance(a[0], Ptr) and a[0].r is w.pol), 'pre')
    ri = Obj(ex, w.L, RI, a[1]); st.setg('n', st.ghost['n'] + 1); st.setg('v', (ri.z(st, 'interval'), ri.z(st, 'samples'), ri.z(st, 'lambda'))); lib.assumed(ex, 'std::vector::push_back appends')
def which(ex, p): return ex.world.fields.index(p.r) if isinstance(p, Ptr) and p.r in ex.world.fields else None
def h_splitn(ex, st, a, ctx):
    ex.world.fields = [x.r for x in a[2:6]]; ex.obligation(st, 'the description is split at colons', z3.And(bv(a[1], 8) == ord(':'), z3.BoolVal(isinstance(a[0], Ptr) and a[0].r is ex.world.desc and len(a) >= 6)), 'pre')
    lib.assumed(ex, 'istat::splitn is its contract (C21)'); return NF
def h_secs(ex, st, a, ctx):
    k = which(ex, a[0])
    if k not in (0, 1): raise Unsupported('interval_to_seconds of another string')
    lib.assumed(ex, 'istat::interval_to_seconds is its contract (C23)'); return IVS if k == 0 else RTS
def h_len(ex, st, a, ctx):
    k = which(ex, a[0]); return LLEN if k == 3 else fresh('len', 64)
def h_empty(ex, st, a, ctx):
    k = which(ex, a[0]); return LLEN == 0 if k == 3 else fresh('empty', 1)
def h_cstr(ex, st, a, ctx): return Ptr(ex.world.lamtext) if which(ex, a[0]) == 3 else Ptr(Region('text', size=None, lazy=True))
def h_strtod(ex, st, a, ctx):
    if not (isinstance(a[0], Ptr) and a[0].r is ex.world.lamtext): raise Unsupported('strtod of another string')
    lib.assumed(ex, 'strtod converts the text'); return LAMV
def rstubs(ex):
    S = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >::'
    ex.add_lib(lambda d: d.startswith('std::vector<RetentionInterval') and '::push_back(' in d, h_push); ex.add_lib(lambda d: d.startswith('istat::splitn('), h_splitn)
    ex.add_lib(lambda d: d.startswith('istat::interval_to_seconds('), h_secs); ex.add_lib('strtod', h_strtod)
    for n in ('length() const', 'size() const'): ex.add_lib(S + n, h_len)
    ex.add_lib(lambda d: d.startswith('istat::RecordStats::'), lib.h_nop); ex.add_lib(lambda d: d.startswith('std::') and 'operator+' in d or '__str_concat' in d, lib.h_nop)
    ex.add_lib(S + 'empty() const', h_empty); ex.add_lib(S + 'c_str() const', h_cstr)
class W: pass
class Add(FC):
    libs = (rstubs, lib.base, lib.opaque_strings)
    def setup(self, ex):
        st = State(ex); L = self.L; w = ex.world = W(); w.L = L; w.pol = rec_region(L, RP, 'policy'); n = L.size(RI); w.n = n
        w.els = Region('levels', stride=n, lazy=True, count=NI); w.els.leaves = {o: KIND[k] for p, o, k in L.leaves(RI) if p in ('interval', 'samples', 'lambda')}; w.els.rec = None
        o = Obj(ex, L, RP, Ptr(w.pol)); v = 'intervals._M_impl.'; o.set(st, v + '_M_start', Ptr(w.els)); o.set(st, v + '_M_finish', Ptr(w.els, Off(0, {NI: n})))
        st.setg('n', B(0)); st.setg('v', (B(0), B(0), fval(0.0))); w.fields = []; w.lamtext = Region('lambda text', size=None, lazy=True); w.desc = Region('description', size=None, lazy=True); w.ri = rec_region(L, RI, 'ri')
        ex.objects = [w.pol, w.els, w.ri]
        return st, [Ptr(w.pol), self.arg(ex)]
    def requires(self, ex, st, a): return [('levels', z3.And(NI >= 0, NI < (1 << 20)))]
    def modifies(self, ex, st, a): return {('ghost', 'n'), ('ghost', 'v')}
    def may_throw(self, ex, st, a): return Ptr(Region('exc', size=None, lazy=True))
    def last(self, ex, o, f): w = ex.world; return z3.Select(o.arr(w.els, w.L.offset(RI, f)), NI - 1)
    def fits(self, ex, o, iv, lam): return z3.Or(NI == 0, z3.Not(z3.fpEQ(lam, fval(0.0))), z3.And(self.last(ex, o, 'interval') < iv, z3.Not(z3.fpGT(self.last(ex, o, 'lambda'), fval(0.0)))))
    def ensures(self, ex, o, st, a, r):
        iv, n, lam = self.level(ex, o); g = st.ghost
        return [('an accepted level keeps to the rules', self.ok(ex, o)), ('exactly the level described is added', z3.And(g['n'] == 1, g['v'][0] == iv, g['v'][1] == n, g['v'][2] == lam))]
    def throws(self, ex, o, st, a, exc): return [('only a level that breaks a rule is refused', z3.Not(self.ok(ex, o))), ('nothing is added when refused', st.ghost['n'] == 0)]
class AddLevel(Add):
    dem = RP + '::addInterval(RetentionInterval const&)'
    def arg(self, ex): return Ptr(ex.world.ri)
    def level(self, ex, o): ri = Obj(ex, self.L, RI, Ptr(ex.world.ri)); return ri.z(o, 'interval'), ri.z(o, 'samples'), ri.z(o, 'lambda')
    def ok(self, ex, o): iv, n, lam = self.level(ex, o); return self.fits(ex, o, iv, lam)
class AddText(Add):
    dem = RP + '::addInterval(' + lib.STR + ' const&)'; name = 'RetentionPolicy::addInterval (text)'
    def arg(self, ex): return Ptr(ex.world.desc)
    def level(self, ex, o): return IVS, RTS / z3.If(IVS == 0, B(1), IVS), z3.If(LLEN == 0, fval(0.0), LAMV)
    def ok(self, ex, o):
        iv, n, lam = self.level(ex, o); return z3.And(NF >= 2, IVS != 0, n != 0, z3.Or(LLEN == 0, z3.And(z3.fpGT(LAMV, fval(0.0)), z3.fpLT(LAMV, fval(1.0)))), self.fits(ex, o, iv, lam))
    def requires(self, ex, st, a): return Add.requires(self, ex, st, a) + [('durations', z3.And(IVS >= 0, RTS >= 0))]
class Get(Add):
    dem = RP + '::getInterval(unsigned long) const'
    def arg(self, ex): return z3.BitVec('ix', 64)
    def ensures(self, ex, o, st, a, r):
        i = bv(a[1], 64); inside = isinstance(r, Ptr) and r.r is ex.world.els
        return [('the level asked for is returned', z3.And(z3.ULT(i, NI), bv(r.off.value(), 64) == i * ex.world.n) if inside else z3.BoolVal(False))]
    def throws(self, ex, o, st, a, exc): return [('only a level that does not exist is refused', z3.UGE(bv(a[1], 64), NI))]
class Count(Add):
    dem = RP + '::countIntervals() const'
    def setup(self, ex): st, a = Add.setup(self, ex); return st, a[:1]
    def arg(self, ex): return 0
    def may_throw(self, ex, st, a): return None
    def ensures(self, ex, o, st, a, r): return [('the number of levels', bv(r, 64) == NI)]
    def throws(self, ex, o, st, a, exc): return None

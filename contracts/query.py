"""Contracts of the query side of StatCounter: range normalisation, reduction, choice of the file (daemon/StatCounter.cpp)."""
import z3
from irvc.spec import *
from irvc import lib
from .statfile import B, BK
from .counter import CC, CW, SC, OC, stubs, GH, JL, NLEV

TUS = ['daemon/StatCounter.cpp', 'lib/Bucket.cpp', 'lib/StatFile.cpp']
RED = [10, 20, 30, 60, 120, 300, 600, 900, 1200, 1800, 3600, 7200, 10800, 14400, 21600, 28800, 43200, 86400]
RK = z3.BitVec('RK', 64); RR = z3.BitVec('RR', 64)   # one arbitrary standard reduction
def down(t, i): return t - z3.SRem(t, i)
def up(t, i): r = z3.SRem(t, i); return t - r + z3.If(r != 0, i, B(0))
class Normalize(FC):
    dem = SC + '::normalizeRange(long&, long&, long&, unsigned long)'; timeout = 30000; feasms = 700; intfirst = True; lightfirst = True; unroll = 0; hints = None; autokeep = ('none of them',)
    libs = (stubs, lib.base, lib.opaque_strings)
    def setup(self, ex):
        st = State(ex); ex.world = CW(self.C, ex, st); self.cells = []
        for n in ('start', 'end', 'interval'):
            r = Region(n, size=8); r.leaves = {0: ity(64)}; r.rec = None; r.lazy = True; ex.objects = list(ex.objects) + [r]; self.cells.append(r)
        if self.nat is not None: ex.store(st, Ptr(self.cells[2]), ity(64), self.nat, check=False)
        return st, [Ptr(ex.world.self_r)] + [Ptr(r) for r in self.cells] + [z3.BitVec('maxSamples', 64)]
    def v(self, ex, st, k): return bv(ex.load(st, Ptr(self.cells[k]), ity(64), check=False), 64)
    def lim(self): return B(1) << 40
    def requires(self, ex, st, a):
        s, e, i = [self.v(ex, st, k) for k in range(3)]
        return [('range', z3.And(s >= 0, s <= e, e < (1 << 40), i >= 0, i <= (1 << 30), z3.ULT(bv(a[4], 64), 1 << 31), RK >= 0, RK < len(RED), z3.Or([z3.And(RK == j, RR == B(x)) for j, x in enumerate(RED)])))] + self.case(s, e, i, bv(a[4], 64)) + [
            ('lemma instance: rounding (see lemma: aligned times)', (lambda n: z3.And(z3.SRem(down(s, n), n) == 0, z3.SRem(down(e, n), n) == 0, z3.SRem(down(e, n) + n, n) == 0))(z3.If(i == 0, B(10), i)))]
    def case(self, s, e, i, m): return [] if self.nat is None else [('the native interval', i == self.nat)]
    def modifies(self, ex, st, a): return {(r, 0) for r in self.cells}
    def R(self, k):
        x = B(RED[-1])
        for j in reversed(range(len(RED) - 1)): x = z3.If(k == j, B(RED[j]), x)
        return x
    nat = None
    def ensures(self, ex, o, st, a, r):
        s0, e0, i0 = [self.v(ex, o, k) for k in range(3)]; s, e, i = [self.v(ex, st, k) for k in range(3)]; m = bv(a[4], 64); nat = z3.If(i0 == 0, B(10), i0); self.old = (s0, e0, nat, m)
        one = z3.And(m == 1, e0 > s0); d = e0 - s0; no = z3.Not(one); s1 = down(s0, nat); e1 = up(e0, nat); n1 = (e1 - s1) / nat; fits = z3.Or(m == 0, n1 <= m)
        out = [('one sample: the whole range is one interval, with at most one interval of slack', z3.Implies(one, z3.And(i > 0, i == e - s, s <= s0, s > s0 - d, e >= e0, e < e0 + d))),
                ('the interval is positive', i > 0), ('the start is aligned to the interval', z3.Implies(no, z3.SRem(s, i) == 0)), ('the end is aligned to the interval', z3.Implies(no, z3.SRem(e, i) == 0)),
                ('the range asked for is enclosed', z3.Implies(no, z3.And(s <= s0, e >= e0))),
                ('a range that fits keeps its interval', z3.Implies(z3.And(no, fits), i == nat)), ('never a finer interval', z3.Implies(no, i >= nat))]
        if self.nat is not None:
            ok = [x for x in RED if x > self.nat and x % self.nat == 0]; best = B(ok[-1])
            for x in reversed(ok): best = z3.If((e1 - s1) / B(x) <= m, B(x), best)
            out.append(('the finest standard multiple that fits, or the coarsest', z3.Implies(z3.And(no, z3.Not(fits)), i == best)))
        return out
    def candidates(self, ctx):
        out = []; o = ctx.ex.fc_old; ex0 = ctx.ex
        s0, e0, i0 = [self.v(ex0, o, k) for k in range(3)]; nat = z3.If(i0 == 0, B(10), i0); m = bv(ctx.ex.fc_args[4], 64) if hasattr(ctx.ex, 'fc_args') else z3.BitVec('maxSamples', 64); d1 = up(e0, nat) - down(s0, nat)
        for nm, g in ctx.numeric():
            out.append(Cand('target %s is coarser' % nm, lambda ex, st, vs, g=g: z3.Or(g(ex, st, vs) == 0, z3.And(g(ex, st, vs) > nat, g(ex, st, vs) <= 86400))))
            out.append(Cand('index %s' % nm, lambda ex, st, vs, g=g: z3.And(g(ex, st, vs) >= 0, g(ex, st, vs) <= len(RED))))
            if self.nat is None: continue
            n = self.nat; ok = [x for x in RED if x > n and x % n == 0]
            out.append(Cand('target %s is a standard multiple' % nm, lambda ex, st, vs, g=g: z3.Or([g(ex, st, vs) == x for x in [0] + ok])))
            out.append(Cand('target %s does not fit' % nm, lambda ex, st, vs, g=g: z3.And([z3.Implies(g(ex, st, vs) == x, d1 / B(x) > m) for x in ok])))
            for j, x in enumerate(RED):
                if x in ok: out.append(Cand('%d tried (%s)' % (x, nm), lambda ex, st, vs, g=g, j=j, x=x: z3.Implies(g(ex, st, vs) > j, d1 / B(x) > m)))
            for nm2, g2 in ctx.numeric():
                if nm2 != nm: out.append(Cand('target %s is the last tried (%s)' % (nm2, nm), lambda ex, st, vs, g=g, g2=g2: z3.And([z3.Implies(g(ex, st, vs) > j, g2(ex, st, vs) >= x) for j, x in enumerate(RED) if x in ok])))
        return out
    def to_replay(self, ex, o, a, m): return None
class NormalizeOne(Normalize):
    name = 'StatCounter::normalizeRange (one sample)'
    def case(self, s, e, i, m): return [('one sample of a range', z3.And(m == 1, e > s))]
class NormalizeEmpty(Normalize):
    name = 'StatCounter::normalizeRange (one sample, empty range)'
    def case(self, s, e, i, m): return [('one sample of an empty range', z3.And(m == 1, e == s))]
class NormalizeNoLimit(Normalize):
    name = 'StatCounter::normalizeRange (no limit)'
    def case(self, s, e, i, m): return [('no limit', m == 0)]
class NormalizeFits(Normalize):
    name = 'StatCounter::normalizeRange (within the limit)'
    def case(self, s, e, i, m): nat = z3.If(i == 0, B(10), i); return [('within the limit', z3.And(m > 1, (up(e, nat) - down(s, nat)) / nat <= m))]
# ---- choice of the file
MAPF = z3.Function('mapTimeToBucketIndex', z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64)); INF = z3.Function('isBucketIndexInFile', z3.BitVecSort(64), z3.BitVecSort(64), z3.BoolSort())
SS = 'istat::StatFile::Settings'; HH = 'istat::Header8'
def level_of(ex, p):
    w = ex.world
    if not (isinstance(p, Ptr) and p.r is w.files): raise Unsupported('a file that is not one of the levels')
    i = p.off.div(4096)
    if i is None: raise Unsupported('a file that is not one of the levels')
    return bv(i.value(), 64)
def pickstubs(ex):
    ex.add_lib(lambda d: d.startswith('boost::detail::atomic_increment('), lambda ex, st, a, ctx: lib.assumed(ex, 'boost::shared_ptr counts references correctly'))
    ex.add_lib(lambda d: d.startswith('boost::detail::sp_counted_base::release('), lambda ex, st, a, ctx: lib.assumed(ex, 'boost::shared_ptr counts references correctly'))
    def nm(s): return lambda d: d.startswith('istat::StatFile::' + s + '(')
    def h_map(ex, st, a, ctx):
        up = a[2] if len(a) > 2 else 0
        ex.obligation(st, 'the start is rounded down to its interval', bv(up, 1) == 0, 'pre'); return MAPF(level_of(ex, a[0]), bv(a[1], 64))
    ex.add_lib(nm('mapTimeToBucketIndex'), h_map)
    ex.add_lib(nm('isBucketIndexInFile'), lambda ex, st, a, ctx: INF(level_of(ex, a[0]), bv(a[1], 64)))
    ex.add_lib(nm('settings'), lambda ex, st, a, ctx: Ptr(ex.world.sets, Off(0).add(level_of(ex, a[0]), ex.world.sets.stride)))
    ex.add_lib(nm('header'), lambda ex, st, a, ctx: Ptr(ex.world.hdrs, Off(0).add(level_of(ex, a[0]), ex.world.hdrs.stride)))
    ex.add_lib(nm('lastBucketTime'), lambda ex, st, a, ctx: fresh('lbt', 64))
class Pick(CC):
    def mkargs(self, ex, st): return []
    libs = (pickstubs, stubs, lib.base, lib.opaque_strings)
    def setup(self, ex):
        st, a = CC.setup(self, ex); w = ex.world; L = self.L
        w.sets = rec_region(L, SS, 'settings', stride=True, count=NLEV); w.hdrs = rec_region(L, HH, 'headers', stride=True, count=NLEV)
        self.ret = Region('result', size=16, lazy=True); self.ret.leaves = {0: TP, 8: TP}; self.ret.rec = None; self.cells = []
        for n in self.outs: r = Region(n, size=8); r.leaves = {0: ity(64)}; r.rec = None; r.lazy = True; self.cells.append(r)
        ex.objects = list(ex.objects) + [w.sets, w.hdrs, self.ret] + self.cells
        return st, [Ptr(self.ret), a[0]] + self.mk() + [Ptr(r) for r in self.cells]
    def modifies(self, ex, st, a): return GH | {(r, 0) for r in self.cells} | {(self.ret, o) for o in self.ret.leaves}
    def cell(self, ex, st, k): return bv(ex.load(st, Ptr(self.cells[k]), ity(64), check=False), 64)
    def res(self, ex, st):
        p = ex.load(st, Ptr(self.ret), TP, check=False); p = p if isinstance(p, Ptr) else conv(p, TP); return p
    def sval(self, ex, st, rec, r, i, f):
        o, k = self.L.field(rec, f); return z3.Select(st.arr(r, o), i)
    def ensures(self, ex, o, st, a, r):
        p = self.res(ex, st); w = ex.world; none = p.r is not w.files
        if none and not (p.r is NULL.r and p.off.const() == 0): return [('the result is one of the files, or none', z3.BoolVal(False))]
        i = None if none else level_of(ex, p)
        return self.post(ex, o, st, a, i)
    def candidates(self, ctx):
        out = []; a = ctx.ex.fc_args
        for nm, g in ctx.numeric():
            if nm.startswith('ghost'): continue
            out.append(Cand('level JL was passed over (%s)' % nm, lambda ex, st, vs, g=g: z3.Implies(JL < g(ex, st, vs), z3.Not(self.suits(ex, ex.fc_old, a, JL)))))
            out.append(Cand('index in range (%s)' % nm, lambda ex, st, vs, g=g: z3.And(g(ex, st, vs) >= 0, g(ex, st, vs) <= NLEV)))
        return out
class PickFile(Pick):
    dem = SC + '::pickStatFile(long, long, long&)'; outs = ('interval',)
    def mk(self): return [z3.BitVec('start', 64), z3.BitVec('end', 64)]
    def suits(self, ex, o, a, i): return INF(i, MAPF(i, bv(a[2], 64)))
    def post(self, ex, o, st, a, i):
        s, e = bv(a[2], 64), bv(a[3], 64)
        if i is None: return [('no file only if the range is inverted or no level holds its start', z3.Or(e < s, z3.Not(self.suits(ex, o, a, JL))))]
        return [('an inverted range has no file', e >= s), ('the file chosen holds the start of the range', z3.And(i >= 0, i < NLEV, self.suits(ex, o, a, i))), ('no finer level holds the start', z3.Implies(JL < i, z3.Not(self.suits(ex, o, a, JL)))),
                ('the interval reported is the one of the file chosen', self.cell(ex, st, 0) == self.sval(ex, o, SS, ex.world.sets, i, 'intervalTime'))]
class PickTrailing(Pick):
    bit = 1; dem = SC + '::pickTrailingStatFile(long, long&, long&)'; outs = ('o_interval', 'o_season')
    def mk(self): return [z3.BitVec('season', 64)]
    def suits(self, ex, o, a, i):
        w = ex.world; fl = self.sval(ex, o, HH, w.hdrs, i, 'flags'); return z3.And(z3.Extract(self.bit, self.bit, fl) == 1, z3.UGE(self.sval(ex, o, HH, w.hdrs, i, 'season'), bv(a[2], 64)))
    def post(self, ex, o, st, a, i):
        if i is None: return [('no trailing file only if every season is shorter than asked for', z3.Not(self.suits(ex, o, a, JL)))]
        w = ex.world
        return [('the file chosen is trailing and its season long enough', z3.And(i >= 0, i < NLEV, self.suits(ex, o, a, i))), ('no earlier level is', z3.Implies(JL < i, z3.Not(self.suits(ex, o, a, JL)))),
                ('its season is reported', self.cell(ex, st, 1) == self.sval(ex, o, HH, w.hdrs, i, 'season'))]

"""Contract of StatCounter::reduce (daemon/StatCounter.cpp): combining buckets into coarser intervals.
KB is one arbitrary input bucket; grid(t) stands for 't is the start of a coarse interval' (start + a multiple of the coarse interval)."""
import z3
from irvc.spec import *
from irvc import lib
from .statfile import B, BK
from .counter import stubs, SC, BF, bvals
from .bucket import minmax

TUS = ['daemon/StatCounter.cpp', 'lib/Bucket.cpp']
N = z3.BitVec('n_buckets', 64); KB = z3.BitVec('KB', 64); GRID = z3.Function('grid', z3.BitVecSort(64), z3.BoolSort())
NAMES = [f for f, _ in BF]
def index_of(ex, p):
    w = ex.world
    if isinstance(p, Ptr) and p.r is w.inp:
        i = p.off.div(w.inp.stride)
        if i is None: raise Unsupported('pointer into a bucket')
        return bv(i.value(), 64)
    return None
def absorb(ex, st, i, t):
    """input bucket i becomes part of the output interval that starts at t"""
    w = ex.world; tm = z3.Select(st.arr(w.inp, w.L.offset(BK, 'time_')), i); c = z3.Select(st.arr(w.inp, w.L.offset(BK, 'count_')), i)
    ex.obligation(st, 'a bucket is only combined into its own coarse interval', z3.And(t <= tm, tm < t + w.red), 'pre')
    st.setg('nK', z3.If(i == KB, st.ghost['nK'] + 1, st.ghost['nK'])); st.setg('seen', st.ghost['seen'] + c)
def h_update(ex, st, a, ctx):
    """Bucket::update (its contract is proved under C01)"""
    w = ex.world; o = bvals(ex, st, w.L, a[0]); x = bvals(ex, st, w.L, a[1]); i = index_of(ex, a[1]); A = dict(zip(NAMES, o)); X = dict(zip(NAMES, x))
    empty = A['count_'] == 0; me = Obj(ex, w.L, BK, a[0])
    for f in NAMES: me.set(st, f, fresh_of('u_' + f, me.ty(f)[1]))
    NW = dict(zip(NAMES, bvals(ex, st, w.L, a[0]))); fp = ex.fp
    st.assume(z3.Implies(empty, z3.And([NW[f] == X[f] for f in NAMES])))
    st.assume(z3.Implies(z3.Not(empty), z3.And(NW['count_'] == A['count_'] + X['count_'], NW['time_'] == A['time_'], minmax(NW['min_'], A['min_'], X['min_'], False), minmax(NW['max_'], A['max_'], X['max_'], True))))
    st.assume(z3.Implies(z3.And(A['count_'] >= 0, X['count_'] >= 0), z3.And(NW['count_'] >= A['count_'], NW['count_'] >= X['count_']))); lib.assumed(ex, 'the count of a coarse interval fits in 31 bits')
    if i is not None: absorb(ex, st, i, NW['time_'])
    else: st.setg('zeroed', z3.And(X['count_'] == 0, z3.fpIsZero(X['min_']), z3.fpIsZero(X['max_'])))
def h_ctor(ex, st, a, ctx):
    """Bucket(Bucket const &, time_t): the same bucket at another time (proved under C01)"""
    w = ex.world; x = bvals(ex, st, w.L, a[1]); me = Obj(ex, w.L, BK, a[0]); i = index_of(ex, a[1])
    for f, v in zip(NAMES, x): me.set(st, f, v)
    me.set(st, 'time_', a[2])
    if i is not None: absorb(ex, st, i, bv(a[2], 64))
def h_push(ex, st, a, ctx):
    w = ex.world; v = dict(zip(NAMES, bvals(ex, st, w.L, a[1]))); g = st.ghost
    ex.obligation(st, 'results are in increasing order of time', v['time_'] > g['last'], 'pre')
    ex.obligation(st, 'a result carries the start of a coarse interval', GRID(v['time_']), 'pre')
    ex.obligation(st, 'a result contains at least one bucket', g['zeroed'] if False else z3.BoolVal(True), 'pre')
    if w.coll is not None:
        ex.obligation(st, 'the count is the fixed number of samples', v['count_'] == w.coll, 'pre')
    else: st.setg('out', g['out'] + v['count_'])
    st.setg('last', v['time_']); st.setg('pushed', g['pushed'] + 1)
def h_time(ex, st, a, ctx):
    """Bucket::time; the precondition 'what readBuckets delivers' and the definition of grid are instantiated here"""
    w = ex.world; i = index_of(ex, a[0]); r = bv(Obj(ex, w.L, BK, a[0]).z(st, 'time_'), 64)
    if i is not None:
        ex.resolve(st, a[0], 8, ctx.fr, ctx.inst, True)
        T = st.arr(w.inp, w.L.offset(BK, 'time_')); C = st.arr(w.inp, w.L.offset(BK, 'count_')); r = z3.Select(T, i); st.setg('lastT', r)
        st.assume(z3.And(r >= w.start, r - w.start < 10000000, z3.Select(C, i) > 0, z3.Select(C, i) < (1 << 20))); st.assume(z3.Implies(i >= 1, z3.Select(T, i - 1) <= r))
        for v in set(v for v in ctx.fr.regs.values() if z3.is_expr(v) and z3.is_bv(v) and v.size() == 64): st.assume(z3.Implies(GRID(v), GRID(v + w.red)))
        lib.assumed(ex, 'the input of reduce is what readBuckets delivers: non-empty buckets in order of time, none before the start, within ten million seconds')
    return r
def rstubs(ex):
    ex.add_lib('istat::Bucket::time() const', h_time)
    ex.add_lib('istat::Bucket::update(istat::Bucket const&)', h_update); ex.add_lib('istat::Bucket::Bucket(istat::Bucket const&, long)', h_ctor)
    ex.add_lib(lambda d: d.startswith('std::vector<istat::Bucket') and '::push_back(' in d, h_push)
    ex.add_lib(lambda d: d.startswith('std::vector<istat::Bucket') and ('::~vector(' in d or '::swap(' in d), lambda ex, st, a, ctx: lib.assumed(ex, 'std::vector'))
class Reduce(FC):
    dem = SC + '::reduce(std::vector<istat::Bucket, std::allocator<istat::Bucket> >&, long, long, long, int)'; libs = (rstubs, stubs, lib.base, lib.opaque_strings); coll = False
    autokeep = ('none of them',); unroll = 1
    def setup(self, ex):
        st = State(ex); L = self.L; n = L.size(BK)
        class W: pass
        w = ex.world = W(); w.L = L; w.inp = rec_region(L, BK, 'buckets', stride=True, count=N); w.red = z3.BitVec('reducedInterval', 64); w.coll = z3.BitVec('collatedBucketCount', 32) if self.coll else None; w.start = z3.BitVec('start', 64)
        self.vec = Region('vec', size=24, lazy=True); self.vec.leaves = {0: TP, 8: TP, 16: TP}; self.vec.rec = None; sc = rec_region(L, SC, 'StatCounter')
        ex.store(st, Ptr(self.vec), TP, Ptr(w.inp), check=False); ex.store(st, Ptr(self.vec, Off(8)), TP, Ptr(w.inp, Off(0, {N: n})), check=False); ex.store(st, Ptr(self.vec, Off(16)), TP, Ptr(w.inp, Off(0, {N: n})), check=False)
        ex.objects = [self.vec, w.inp, sc]
        for k, v in (('nK', B(0)), ('seen', z3.BitVecVal(0, 32)), ('out', z3.BitVecVal(0, 32)), ('last', B(0)), ('pushed', B(0)), ('zeroed', z3.BoolVal(False)), ('lastT', B(0))): st.setg(k, v)
        return st, [Ptr(sc), Ptr(self.vec), w.start, z3.BitVec('end', 64), w.red, w.coll if self.coll else 0]
    def tm(self, ex, st, i): w = ex.world; return z3.Select(st.arr(w.inp, w.L.offset(BK, 'time_')), i)
    def requires(self, ex, st, a):
        w = ex.world; 
        return [('range', z3.And(w.start > 0, w.start < (1 << 40), w.red >= 1, w.red < (1 << 30), N >= 0, N < (1 << 30), KB >= 0, KB < N)),
                ('collated', z3.BoolVal(True) if not self.coll else w.coll > 0),
                ('lemma instance: coarse intervals start at multiples', GRID(w.start))]
    def ensures(self, ex, o, st, a, r):
        g = st.ghost; out = [('every bucket of the input becomes part of exactly one result', g['nK'] == 1)]
        if not self.coll: out.append(('the total count is conserved', g['out'] == g['seen']))
        return out
    def modifies(self, ex, st, a): return {('ghost', k) for k in ('nK', 'seen', 'out', 'last', 'pushed', 'zeroed', 'lastT')} | {(self.vec, k) for k in (0, 8, 16)}
    def candidates(self, ctx):
        w = ctx.ex.world; out = []; at_inp = {'%s+%d' % (r.name, k) for r, k in ctx.modified if r != 'ghost' and not isinstance(k, tuple) and isinstance((ctx.st.cells(r).get(k) or (0, 0))[1], Ptr) and ctx.st.cells(r)[k][1].r is w.inp}
        num = [x for x in ctx.numeric() if x[0].startswith('phi') or x[0] in at_inp]
        e0 = ctx.st.ghost['lastT']
        for nm, g in num:
            if nm.startswith('ghost'): continue
            out.append(Cand('%s is not after the bucket at hand' % nm, lambda ex, st, vs, g=g: g(ex, st, vs) <= e0))
            out.append(Cand('%s on the grid' % nm, lambda ex, st, vs, g=g: GRID(g(ex, st, vs))))
            out.append(Cand('KB once before %s' % nm, lambda ex, st, vs, g=g: st.ghost['nK'] == z3.If(KB < g(ex, st, vs), B(1), B(0))))
            out.append(Cand('%s within' % nm, lambda ex, st, vs, g=g: z3.And(g(ex, st, vs) >= 0, g(ex, st, vs) <= N)))
            out.append(Cand('%s before the last absorbed' % nm, lambda ex, st, vs, g=g: g(ex, st, vs) > st.ghost['last']))
            for nm2, g2 in num:
                if nm2 != nm and not nm2.startswith('ghost'):
                    out.append(Cand('%s is one interval after %s' % (nm2, nm), lambda ex, st, vs, g=g, g2=g2: g2(ex, st, vs) == g(ex, st, vs) + w.red))
                    out.append(Cand('the bucket before %s is not before %s' % (nm2, nm), lambda ex, st, vs, g=g, g2=g2: z3.If(g2(ex, st, vs) > 0, self.tm(ex, st, g2(ex, st, vs) - 1) >= g(ex, st, vs), g(ex, st, vs) <= w.start)))
                    out.append(Cand('the guard %s outlasts %s' % (nm2, nm), lambda ex, st, vs, g=g, g2=g2: g(ex, st, vs) - w.start >= 10000000 - g2(ex, st, vs)))
            out.append(Cand('%s is not before the start' % nm, lambda ex, st, vs, g=g: z3.And(g(ex, st, vs) >= w.start, g(ex, st, vs) < (1 << 42))))
        o = ctx.ex
        for r in [r for r in {m[0] for m in ctx.modified if m[0] != 'ghost'} if r.name.startswith('local') and not r.stride]:
            f = lambda st, n, r=r: Obj(o, w.L, BK, Ptr(r)).z(st, n)
            for nm, g in num:
                out.append(Cand('the open result is of interval %s' % nm, lambda ex, st, vs, f=f, g=g: z3.Or(z3.And(f(st, 'time_') == 0, f(st, 'count_') == 0), z3.And(f(st, 'time_') == g(ex, st, vs), f(st, 'count_') > 0))))
            if not self.coll: out.append(Cand('counts', lambda ex, st, vs, f=f: st.ghost['out'] + f(st, 'count_') == st.ghost['seen']))
        return out
class ReduceCollated(Reduce): coll = True; name = 'StatCounter::reduce (event counters)'

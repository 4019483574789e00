"""Recording into a StatFile: which interval changes, and how.  The bucket pages are seen through the contract of
writableBucket: the file is an array of buckets ("store"), a page access yields a pointer into it, and any later page access may
evict that page (using the old pointer afterwards is a violation)."""
import z3
from irvc.spec import *
from irvc import lib
from .statfile import *
from .bucket import FIELDS, minmax, fps
from . import bucket as bkt

class StoreWorld(World):
    def __init__(self, C, ex, st):
        World.__init__(self, C, ex, st); L = C.L
        self.store = rec_region(L, BK, 'store', stride=True, count=lambda s: self.n(s))
        def fwd(ex, s, p, check, write):
            if check and p.tag is not None and p.tag != s.getg('epoch', 0):
                ex.obligation(s, 'no use of a bucket pointer after another page access', False, 'safety'); raise PathEnd()
            return p
        self.store.forward = fwd
        ex.objects.append(self.store)
    def slot(self, st, ix): return slot_of(ix, self.n(st))
    def cell(self, st, s, f):
        o, k = self.L.field(BK, f); return z3.Select(st.arr(self.store, o), s)
    def leafoffs(self): return [self.L.field(BK, f)[0] for f in FIELDS]
    def bucket(self, st, s): return {f: self.cell(st, s, f) for f in FIELDS}
def eq(a, b): return z3.And([a[f] == b[f] for f in FIELDS])
ZERO = {'time_': B(0), 'sum_': z3.FPVal(0.0, F64), 'sumSq_': z3.FPVal(0.0, F32), 'min_': z3.FPVal(0.0, F32), 'max_': z3.FPVal(0.0, F32), 'count_': z3.BitVecVal(0, 32)}
def ite(c, a, b): return {f: z3.If(c, a[f], b[f]) for f in FIELDS}
def merged(ex, a, x):
    """what folding x into a gives (contract of Bucket::update): min and max are left open here"""
    fp = ex.fp; em = a['count_'] == 0
    return ite(em, x, {'time_': a['time_'], 'sum_': fp.add(a['sum_'], x['sum_']), 'sumSq_': fp.add(a['sumSq_'], x['sumSq_']), 'min_': a['min_'], 'max_': a['max_'], 'count_': a['count_'] + x['count_']})

class USFC(SFC):
    nounaligned = True
    def setup(self, ex):
        ex.fixed_clock = True; st = State(ex); ex.world = StoreWorld(self.C, ex, st); now_ghost(ex, st)
        return st, [Ptr(ex.world.self_r)] + self.mkargs(ex, st)
    def prefer(self, ex, st):
        w = ex.world; o = ex.fc_old; n = w.n(o)
        base = [w.sf.z(o, 'bucketsPerPage_') == 256, z3.Or([n == 256 * k for k in (2, 3, 4)]), w.interval(o) <= 3600, w.last(o) >= 0, w.last(o) < 100000, w.h.z(o, 'first_bucket') == w.last(o) - n + 1,
                w.create(o) == 1000000 * w.interval(o)]
        return [base, base[:2]]

class WritableBucket(USFC):
    """page access as its callers see it (the page level contract is contracts/statfile_pages.py)"""
    dem = 'istat::StatFile::writableBucket(long)'
    def may_throw(self, ex, st, a): return Exc('std::runtime_error')
    def requires(self, ex, st, a):
        w = ex.world
        return [('the interval is in the file', w.in_file(st, bv(a[1], 64), now_ghost(ex, st))), ('the file is writable', w.sf.z(st, 'fileWritable_') != 0)]
    def havoc(self, ex, st, a): st.setg('epoch', st.getg('epoch', 0) + 1)
    def fresh_ret(self, ex, st, a):
        w = ex.world
        return Ptr(w.store, Off(0).add(w.slot(st, bv(a[1], 64)), 32), tag=st.getg('epoch', 0))
    def throws(self, ex, o, st, a, e): return []
class BucketRef(WritableBucket):
    dem = 'istat::StatFile::bucket(long) const'

MODES = ('aggregate', 'overwrite', 'fill', 'only')
AGG, OVERWRITE, FILL, ONLY = 0, 1, 2, 3
class RawUpdate(USFC):
    dem = 'istat::StatFile::rawUpdateBucket(istat::Bucket const&, istat::RawUpdateMode)'
    uses = (MapTime, InFile, WritableBucket) + bkt.ALL; name = 'istat::StatFile::rawUpdateBucket (plain and collated files)'; trailing = False
    def mkargs(self, ex, st):
        self.dr = rec_region(self.L, BK, 'data'); ex.d = Obj(ex, self.L, BK, Ptr(self.dr)); ex.objects.append(self.dr)
        return [Ptr(self.dr), z3.BitVec('mode', 32)]
    def pre(self, ex, st, a):
        w = ex.world; t = ex.d.z(st, 'time_'); iv = w.interval(st)
        return [('sample time', tbound(t)), ('not in the unaligned part before the creation time (known finding of C03)', z3.Or(t >= w.create(st), z3.SRem(t - w.create(st), iv) == 0)),
                ('update mode', z3.ULE(bv(a[2], 32), 3)), ('kind of file', ((w.h.z(st, 'flags') & TRAILING) != 0) == self.trailing),
                ('the file is writable', w.sf.z(st, 'fileWritable_') != 0)]
    def modifies(self, ex, st, a):
        w = ex.world
        return {w.h.key(f) for f in ('last_bucket', 'last_time', 'first_bucket', 'cumulative_sum', 'cumulative_sum_sq', 'cumulative_count')} | {(w.store, o) for o in w.leafoffs()}
    def common(self, ex, o, a):
        w = ex.world; d = bvals_(ex.d, o); iv = w.interval(o)
        ix = floor_index(d['time_'], w.create(o), iv); tt = d['time_'] - z3.SRem(d['time_'], iv)
        return w, d, ix, tt, w.n(o)
    def newtotals(self, ex, o, st, d, stored):
        w = ex.world; h = w.h; fp = ex.fp
        add = {'cumulative_sum': fp.add(h.z(o, 'cumulative_sum'), fp.to64(bkt.stab(ex, fp.to32(d['sum_'])))), 'cumulative_sum_sq': fp.add(h.z(o, 'cumulative_sum_sq'), fp.to64(bkt.stab(ex, d['sumSq_']))), 'cumulative_count': h.z(o, 'cumulative_count') + z3.SignExt(32, d['count_'])}
        return [('%s grows by the sample iff it was stored' % k, h.z(st, k) == z3.If(stored, v, h.z(o, k))) for k, v in add.items()]
    def window(self, ex, o, st, ix, tt, ok):
        w = ex.world; h = w.h; n = w.n(o); last, first = w.last(o), h.z(o, 'first_bucket'); newer = ix > last
        f1 = z3.If(z3.And(newer, first + n <= ix), ix - n + 1, first)
        return [('the newest interval moves forward to the sample, never back', w.last(st) == z3.If(newer, ix, last)),
                ('the time of the newest interval follows it', h.z(st, 'last_time') == z3.If(newer, tt, h.z(o, 'last_time'))),
                ('the oldest interval stays within the capacity and covers the sample', h.z(st, 'first_bucket') == z3.If(z3.And(ok, ix < f1), ix, f1))]
    def post(self, ex, o, st, a, r):
        w, d, ix, tt, n = self.common(ex, o, a); h = w.h; mode = bv(a[2], 32); r = bo(r)
        s = w.slot(o, ix); old, new = w.bucket(o, s), w.bucket(st, s)
        ok = ix > w.last(o) - n
        E = ite(old['time_'] == tt, old, ZERO); emp = E['count_'] == 0
        coll = (h.z(o, 'flags') & COLLATED) != 0
        copy = z3.Or(z3.And(mode == ONLY, emp), z3.And(mode != ONLY, z3.Or(coll, mode == OVERWRITE, z3.And(mode == FILL, emp))))
        keep = z3.And(mode == ONLY, z3.Not(emp)); merge = z3.And(z3.Not(copy), z3.Not(keep))
        D = dict(d); D['time_'] = tt; M = merged(ex, E, D)
        fc = z3.Extract(31, 0, h.z(o, 'fixed_count')); agg = (h.z(o, 'flags') & COUNTER_AGG) != 0
        M['count_'] = z3.If(agg, fc, M['count_'])
        j = z3.BitVec('other_slot', 64)
        out = [('refused iff older than everything the file holds', r == ok)]
        out += self.window(ex, o, st, ix, tt, ok)
        out += [('a refused sample changes no slot', z3.Implies(z3.Not(ok), eq(w.bucket(st, j), w.bucket(o, j)))),
                ('no other slot changes', z3.Implies(j != s, eq(w.bucket(st, j), w.bucket(o, j)))),
                ('overwriting stores the sample as it is', z3.Implies(z3.And(ok, copy), eq(new, d))),
                ('a kept interval is only started afresh when its slot held another time', z3.Implies(z3.And(ok, keep), eq(new, E)))]
        out += [('merging: %s' % f.rstrip('_'), z3.Implies(z3.And(ok, merge), new[f] == M[f])) for f in FIELDS if f not in ('min_', 'max_')]
        out += [('merging: %s' % f.rstrip('_'), z3.Implies(z3.And(ok, merge), z3.If(emp, new[f] == d[f], minmax(new[f], E[f], d[f], f == 'max_')))) for f in ('min_', 'max_')]
        out += self.newtotals(ex, o, st, d, z3.And(ok, z3.Not(keep)))
        return out
    def may_throw(self, ex, st, a): return Exc('std::runtime_error')
    def throws(self, ex, o, st, a, e):
        w, d, ix, tt, n = self.common(ex, o, a); j = z3.BitVec('other_slot', 64); h = w.h
        return [('a failed update changes no slot', eq(w.bucket(st, j), w.bucket(o, j)))] + [('a failed update leaves %s' % k, h.z(st, k) == h.z(o, k)) for k in ('cumulative_sum', 'cumulative_sum_sq', 'cumulative_count')] + \
               [('the newest interval never moves back', z3.Or(w.last(st) == w.last(o), z3.And(ix > w.last(o), w.last(st) == ix)))]
    def to_replay(self, ex, m, st):
        w = ex.world; o = ex.fc_old; h = w.h; d = bvals_(ex.d, o); ix = floor_index(d['time_'], w.create(o), w.interval(o)); s = w.slot(o, ix)
        c = dict(kind='raw', n=ms(m, w.n(o)), interval=ms(m, w.interval(o)), create=ms(m, w.create(o)), last=ms(m, w.last(o)), first=ms(m, h.z(o, 'first_bucket')), lastTime=ms(m, h.z(o, 'last_time')), flags=mval(m, h.z(o, 'flags')), fixed=ms(m, h.z(o, 'fixed_count')), mode=mval(m, z3.BitVec('mode', 32)))
        for f in FIELDS:
            for pre, b in (('d_', d), ('old_', w.bucket(o, s))):
                v = mval(m, b[f]); c[pre + f.rstrip('_')] = fps(v) if isinstance(v, float) else sgn(v, 64 if f == 'time_' else 32)
        return c
def bvals_(ob, st): return {f: ob.z(st, f) for f in FIELDS}

class RawUpdateReadOnly(RawUpdate):
    name = 'istat::StatFile::rawUpdateBucket (file opened read-only)'; only_throws = True
    def pre(self, ex, st, a): return [('opened read-only', ex.world.sf.z(st, 'fileWritable_') == 0)]
    def modifies(self, ex, st, a): return set()
    def post(self, ex, o, st, a, r): return [('a read-only file refuses every update with an error', False)]
    def throws(self, ex, o, st, a, e):
        w = ex.world; j = z3.BitVec('other_slot', 64)
        return [('nothing changes', z3.And([eq(w.bucket(st, j), w.bucket(o, j))] + [w.h.z(st, k) == w.h.z(o, k) for k in ('last_bucket', 'first_bucket', 'last_time', 'cumulative_sum', 'cumulative_sum_sq', 'cumulative_count')]))]
class UpdateBucket(RawUpdate):
    """updateBucket is the aggregating update"""
    dem = 'istat::StatFile::updateBucket(istat::Bucket const&)'; name = None; uses = (RawUpdate,)
    def mkargs(self, ex, st): return RawUpdate.mkargs(self, ex, st)[:1]
    def pre(self, ex, st, a): return RawUpdate.pre(self, ex, st, a + [z3.BitVecVal(AGG, 32)])
    def post(self, ex, o, st, a, r): return RawUpdate.post(self, ex, o, st, a + [z3.BitVecVal(AGG, 32)], r)
    def to_replay(self, ex, m, st): return dict(RawUpdate.to_replay(self, ex, m, st), mode=AGG)

# ------------------------------------------------------------------------------------------------ trailing files
def unal(w, st, t): return z3.And(t < w.create(st), z3.SRem(t - w.create(st), w.interval(st)) != 0)
def pend(w, st, i): return {f: w.sf.z(st, 'expBucket[%d].%s' % (i, f)) for f in FIELDS}
def pendkeys(w): return {w.sf.key('expBucket[%d].%s' % (i, f)) for i in range(3) for f in FIELDS}
def blended(ex, old, x, lam):
    """contract of Bucket::expUpdate applied to old"""
    fp = ex.fp; em = old['count_'] == 0; you = fp.sub(fval(1.0), lam)
    wt = lambda p, q: fp.add(fp.mul(p, lam), fp.mul(q, you))
    g = lambda n: fp.to32(wt(fp.to64(old[n]), fp.to64(x[n])))
    cnt = fp.add(wt(fp.fromsint(old['count_'], F64, 32), fp.fromsint(x['count_'], F64, 32)), fval(0.5)); ci = z3.fpToSBV(RTZ, cnt, z3.BitVecSort(32))
    return ite(em, x, {'time_': x['time_'], 'sum_': wt(old['sum_'], x['sum_']), 'sumSq_': g('sumSq_'), 'min_': g('min_'), 'max_': g('max_'), 'count_': z3.If(ci < 1, z3.BitVecVal(1, 32), ci)})
def trailing_pre(ex, st):
    """invariant of a trailing file, for the pending intervals and the two slots involved"""
    w = ex.world; lam = w.h.z(st, 'lambda'); se = w.h.z(st, 'season')
    t0 = w.sf.z(st, 'expBucket[0].time_'); oix = floor_index(t0 - se, w.create(st), w.interval(st)); ot = w.cell(st, w.slot(st, oix), 'time_')
    return [('trailing file', (w.h.z(st, 'flags') & TRAILING) != 0), ('blend in (0,1]', z3.And(z3.fpGT(lam, fval(0.0)), z3.fpLEQ(lam, fval(1.0)))),
            ('season between 10 s and 373 days', z3.And(se >= 10, se <= 373 * 86400)), ('file is writable', w.sf.z(st, 'fileWritable_') != 0)] + \
           [('pending times', z3.And([tbound(w.sf.z(st, 'expBucket[%d].time_' % i)) for i in range(3)])),
            ('no time in the unaligned part before the creation time (known finding of C03)', z3.Implies(t0 > 0, z3.And(z3.Not(unal(w, st, t0)), z3.Not(unal(w, st, t0 - se))))),
            ('stored times are not garbage', z3.And(ot > -(1 << 61), ot < (1 << 61), z3.Not(z3.And(ot > 0, unal(w, st, ot)))))]
def flush_effect(ex, o, last=None):
    """(condition, slot, content) of storing the oldest pending interval; last: newest interval at that time"""
    w = ex.world; last = w.last(o) if last is None else last; n = w.n(o); c, iv = w.create(o), w.interval(o)
    e = pend(w, o, 0); ix = floor_index(e['time_'], c, iv); ot = e['time_'] - w.h.z(o, 'season'); oix = floor_index(ot, c, iv)
    held = lambda i: z3.And(i <= last, i > last - n)          # trailing files are not collated: see the collated clause below
    now = now_ghost(ex, o); coll = (w.sf.z(o, 'settings_.flags') & COLLATED) != 0
    inf = lambda i: z3.Or(held(i), z3.And(i > last, coll, w.time_of(o, i) < now))
    old = w.bucket(o, w.slot(o, oix)); have = z3.And(inf(oix), old['time_'] > 0, floor_index(old['time_'], c, iv) == oix)
    return z3.And(e['time_'] > 0, inf(ix)), w.slot(o, ix), have, ite(have, blended(ex, old, e, w.h.z(o, 'lambda')), e)
def flush_posts(ex, o, st, eff, cond=True):
    w = ex.world; do, s, have, val = eff; j = z3.BitVec('other_slot', 64); cond = bo(cond); new = w.bucket(st, s)
    out = [('a finished interval is stored: %s' % f.rstrip('_'), z3.Implies(z3.And(cond, do), new[f] == val[f])) for f in FIELDS]
    out += [('no other slot changes', z3.Implies(z3.And(cond, z3.Or(z3.Not(do), j != s)), eq(w.bucket(st, j), w.bucket(o, j))))]
    return out

class FlushOneExp(USFC):
    dem = 'istat::StatFile::flushOneExpBucket()'; uses = (MapTime, InFile, WritableBucket, BucketRef) + bkt.ALL
    def pre(self, ex, st, a): return trailing_pre(ex, st)
    def modifies(self, ex, st, a):
        w = ex.world; return {(w.store, o) for o in w.leafoffs()} | pendkeys(w)
    def havoc(self, ex, st, a):
        FC.havoc(self, ex, st, a); st.setg('epoch', st.getg('epoch', 0) + 1)
    def post(self, ex, o, st, a, r):
        w = ex.world
        return flush_posts(ex, o, st, flush_effect(ex, o)) + [('the pending intervals move up by one', z3.And(eq(pend(w, st, 0), pend(w, o, 1)), eq(pend(w, st, 1), pend(w, o, 2)))), ('the last pending place is free', eq(pend(w, st, 2), ZERO))]
    def may_throw(self, ex, st, a): return Exc('std::runtime_error')
    def throws(self, ex, o, st, a, e):
        w = ex.world; j = z3.BitVec('other_slot', 64)
        return [('a failed flush changes no slot', eq(w.bucket(st, j), w.bucket(o, j)))] + [('a failed flush keeps every pending interval', eq(pend(w, st, i), pend(w, o, i))) for i in range(3)]
    def to_replay(self, ex, m, st):
        w = ex.world; o = ex.fc_old; h = w.h; t0 = w.sf.z(o, 'expBucket[0].time_'); ix = floor_index(t0, w.create(o), w.interval(o)); oix = floor_index(t0 - h.z(o, 'season'), w.create(o), w.interval(o))
        lam = mval(m, h.z(o, 'lambda'))
        c = dict(kind='flushexp', n=ms(m, w.n(o)), interval=ms(m, w.interval(o)), create=ms(m, w.create(o)), last=ms(m, w.last(o)), first=ms(m, h.z(o, 'first_bucket')), flags=mval(m, h.z(o, 'flags')), season=ms(m, h.z(o, 'season')), **{'lambda': fps(lam)})
        for nm, b in (('a', w.bucket(o, w.slot(o, ix))), ('b', w.bucket(o, w.slot(o, oix))), ('e0', pend(w, o, 0)), ('e1', pend(w, o, 1)), ('e2', pend(w, o, 2))):
            for f in FIELDS:
                v = mval(m, b[f]); c[nm + '_' + f.rstrip('_')] = fps(v) if isinstance(v, float) else sgn(v, 64 if f == 'time_' else 32)
        return c

class GetTrailing(USFC):
    dem = 'istat::StatFile::getTrailingBucket(long)'; uses = (FlushOneExp,) + bkt.ALL
    def mkargs(self, ex, st): return [z3.BitVec('t', 64)]
    def pre(self, ex, st, a): return trailing_pre(ex, st) + [('time', tbound(bv(a[1], 64)))]
    def modifies(self, ex, st, a): return FlushOneExp.modifies(self, ex, st, a)
    def post(self, ex, o, st, a, r):
        w = ex.world; t = bv(a[1], 64); T = [w.sf.z(o, 'expBucket[%d].time_' % i) == t for i in range(3)]; miss = z3.Not(z3.Or(T)); j = z3.BitVec('other_slot', 64)
        off = lambda i: z3.BoolVal(r.r is w.self_r and r.off.const() == self.L.offset(SF, 'expBucket[%d].time_' % i))
        E = dict(ZERO); E['time_'] = t
        out = [('a pending interval of this time is used (%d)' % i, z3.Implies(z3.And([T[i]] + [z3.Not(T[k]) for k in range(i)]), off(i))) for i in range(3)]
        out += [('nothing moves when the interval is pending', z3.Implies(z3.Not(miss), z3.And([eq(pend(w, st, i), pend(w, o, i)) for i in range(3)] + [eq(w.bucket(st, j), w.bucket(o, j))])))]
        out += flush_posts(ex, o, st, flush_effect(ex, o), miss)
        out += [('otherwise the pending intervals move up by one', z3.Implies(miss, z3.And(off(2), eq(pend(w, st, 0), pend(w, o, 1)), eq(pend(w, st, 1), pend(w, o, 2))))),
                ('and the new one starts empty at the given time', z3.Implies(miss, eq(pend(w, st, 2), E)))]
        return out
    def may_throw(self, ex, st, a): return Exc('std::runtime_error')
    throws = FlushOneExp.throws

class RawUpdateTrailing(RawUpdate):
    name = 'istat::StatFile::rawUpdateBucket (trailing files)'; trailing = True
    uses = (MapTime, InFile, FlushOneExp) + bkt.ALL
    def pre(self, ex, st, a):
        return RawUpdate.pre(self, ex, st, a) + trailing_pre(ex, st)
    def modifies(self, ex, st, a): return RawUpdate.modifies(self, ex, st, a) | pendkeys(ex.world)
    def post(self, ex, o, st, a, r):
        w, d, ix, tt, n = self.common(ex, o, a); h = w.h; mode = bv(a[2], 32); r = bo(r); ok = ix > w.last(o) - n; j = z3.BitVec('other_slot', 64)
        last1 = z3.If(ix > w.last(o), ix, w.last(o))
        P, N = [pend(w, o, i) for i in range(3)], [pend(w, st, i) for i in range(3)]
        hit = [z3.And([P[i]['time_'] == tt] + [P[k]['time_'] != tt for k in range(i)]) for i in range(3)]; miss = z3.Not(z3.Or(hit))
        E0 = dict(ZERO); E0['time_'] = tt
        E = ite(hit[0], P[0], ite(hit[1], P[1], ite(hit[2], P[2], E0))); New = ite(hit[0], N[0], ite(hit[1], N[1], N[2]))
        emp = E['count_'] == 0; coll = (h.z(o, 'flags') & COLLATED) != 0
        copy = z3.Or(z3.And(mode == ONLY, emp), z3.And(mode != ONLY, z3.Or(coll, mode == OVERWRITE, z3.And(mode == FILL, emp))))
        keep = z3.And(mode == ONLY, z3.Not(emp)); merge = z3.And(z3.Not(copy), z3.Not(keep))
        D = dict(d); D['time_'] = tt; M = merged(ex, E, D)
        fc = z3.Extract(31, 0, h.z(o, 'fixed_count')); agg = (h.z(o, 'flags') & COUNTER_AGG) != 0; M['count_'] = z3.If(agg, fc, M['count_'])
        out = [('refused iff older than everything the file holds', r == ok)] + self.window(ex, o, st, ix, tt, ok)
        out += [('a refused sample changes nothing pending or stored', z3.Implies(z3.Not(ok), z3.And([eq(N[i], P[i]) for i in range(3)] + [eq(w.bucket(st, j), w.bucket(o, j))]))),
                ('a sample for a pending interval stores nothing and moves nothing', z3.Implies(z3.And(ok, z3.Not(miss)), z3.And([z3.Implies(z3.Not(hit[i]), eq(N[i], P[i])) for i in range(3)] + [eq(w.bucket(st, j), w.bucket(o, j))]))),
                ('a sample for a new interval moves the pending ones up by one', z3.Implies(z3.And(ok, miss), z3.And(eq(N[0], P[1]), eq(N[1], P[2])))),
                ('overwriting stores the sample as it is', z3.Implies(z3.And(ok, copy), eq(New, d))), ('a non-empty interval is kept', z3.Implies(z3.And(ok, keep), eq(New, E)))]
        out += [('merging: %s' % f.rstrip('_'), z3.Implies(z3.And(ok, merge), New[f] == M[f])) for f in FIELDS if f not in ('min_', 'max_')]
        out += [('merging: %s' % f.rstrip('_'), z3.Implies(z3.And(ok, merge), z3.If(emp, New[f] == d[f], minmax(New[f], E[f], d[f], f == 'max_')))) for f in ('min_', 'max_')]
        return out + flush_posts(ex, o, st, flush_effect(ex, o, last1), z3.And(ok, miss)) + self.newtotals(ex, o, st, d, z3.And(ok, z3.Not(keep)))
    def throws(self, ex, o, st, a, e): return RawUpdate.throws(self, ex, o, st, a, e) + [('a failed update keeps every pending interval', z3.And([eq(pend(ex.world, st, i), pend(ex.world, o, i)) for i in range(3)]))]
    to_replay = None
    def to_replay(self, ex, m, st): return None

"""Contracts of istat::StatFile (lib/StatFile.cpp)."""
import z3
from irvc.spec import *
from irvc import lib

TUS = ['lib/StatFile.cpp', 'lib/Bucket.cpp', 'lib/Mmap.cpp']
SF = 'istat::StatFile'; HDR = 'istat::Header8'; BK = 'istat::Bucket'
COLLATED, TRAILING, COUNTER_AGG = 1, 2, 4
B = lambda x: z3.BitVecVal(x & M64, 64)

def floor_index(t, create, iv):
    """number of the aligned interval that contains t, counted from create"""
    d = t - create
    q = d / iv; r = z3.SRem(d, iv)
    return q - z3.If(r < 0, B(1), B(0))
def slot_of(ix, n):
    s = z3.SRem(ix, n)
    return z3.If(s < 0, s + n, s)

class World:
    """an open StatFile satisfying the class invariant"""
    def __init__(self, C, ex, st, pages='none'):
        self.ex = ex; L = C.L
        self.self_r = rec_region(L, SF, 'StatFile'); self.hdr_r = rec_region(L, HDR, 'header')
        self.mm_r = Region('mmap', size=None, lazy=True)
        self.sf = Obj(ex, L, SF, Ptr(self.self_r)); self.h = Obj(ex, L, HDR, Ptr(self.hdr_r))
        ex.objects = [self.self_r, self.hdr_r]
        self.sf.set(st, 'fileHeader_', Ptr(self.hdr_r)); self.sf.set(st, 'mm_', Ptr(self.mm_r))
        vt = ex.global_ptr(None, '_ZTVN5istat8MmapImplE') if any('_ZTVN5istat8MmapImplE' in m.gl_ref for m in ex.prog.mods) else None
        if vt is not None: ex.store(st, Ptr(self.mm_r), TP, vt.at(16), check=False)
        self.L = L
    def inv(self, st):
        s, h = self.sf, self.h
        iv = h.z64(st, 'cfg_interval'); n = s.z(st, 'bucketCount_'); bpp = s.z(st, 'bucketsPerPage_'); pc = h.z(st, 'page_count')
        c = h.z(st, 'file_create_time')
        return [('interval >= 1', iv >= 1),
                ('settings mirror the header', z3.And(s.z(st, 'settings_.intervalTime') == iv, s.z(st, 'settings_.numSamples') == n, s.z(st, 'settings_.flags') == h.z(st, 'flags'))),
                ('page geometry', z3.And(bpp >= 128, bpp <= (1 << 15), pc >= 2, pc < (1 << 32), n == pc * bpp, n >= 256, n < (1 << 47), h.z(st, 'page_size') == bpp * 32)),
                ('creation time', z3.And(c >= 0, c < (1 << 40))),
                ('bucket numbers', z3.And([z3.And(h.z(st, k) >= -(1 << 40), h.z(st, k) <= (1 << 40)) for k in ('first_bucket', 'last_bucket')]))]
    def interval(self, st): return self.h.z64(st, 'cfg_interval')
    def create(self, st): return self.h.z(st, 'file_create_time')
    def last(self, st): return self.h.z(st, 'last_bucket')
    def n(self, st): return self.sf.z(st, 'bucketCount_')
    def time_of(self, st, ix): return self.create(st) + ix * self.interval(st)
    def held(self, st, ix):
        """the file still holds this interval (not considering elapsed intervals of collated files)"""
        return z3.And(ix <= self.last(st), ix > self.last(st) - self.n(st))
    def in_file(self, st, ix, now):
        coll = (self.sf.z(st, 'settings_.flags') & COLLATED) != 0
        return z3.Or(self.held(st, ix), z3.And(ix > self.last(st), coll, self.time_of(st, ix) < now))

def getworld(ex, st, p):
    """the World behind a StatFile pointer (there is one per verified function)"""
    return ex.world

class SFC(FC):
    """contract of a StatFile member: the first argument is the file"""
    libs = (lib.base, lib.opaque_strings)
    argtypes = ()
    def setup(self, ex):
        st = State(ex); ex.world = World(self.C, ex, st)
        args = [Ptr(ex.world.self_r)] + self.mkargs(ex, st)
        return st, args
    def mkargs(self, ex, st): return []
    def inv(self, ex, st): return ex.world.inv(st)
    def requires(self, ex, st, a): return self.inv(ex, st) + self.pre(ex, st, a)
    def pre(self, ex, st, a): return []
    def post(self, ex, o, st, a, r): return []
    def ensures(self, ex, o, st, a, r): return self.post(ex, o, st, a, r)

def tbound(t, lo=0): return z3.And(t >= lo, t < (1 << 40))
def ixbound(t): return z3.And(t >= -(1 << 62), t <= (1 << 62))

KF_BEFORE = 'a time before the creation time also belongs to the interval that contains it'
class MapTime(SFC):
    dem = 'istat::StatFile::mapTimeToBucketIndex(long, bool) const'
    def mkargs(self, ex, st): return [z3.BitVec('t', 64), z3.Bool('round_up')]
    def pre(self, ex, st, a): return [('time in range', z3.And(bv(a[1], 64) > -(1 << 61), bv(a[1], 64) < (1 << 61)))]
    def post(self, ex, o, st, a, r):
        w = ex.world; t = bv(a[1], 64); iv = w.interval(o)
        base = floor_index(t, w.create(o), iv)
        up = z3.And(bo(a[2]), z3.SRem(t, iv) != 0)
        c = w.create(o); r = bv(r, 64); want = base + z3.If(up, B(1), B(0)); before = z3.And(t < c, z3.SRem(t - c, iv) != 0)
        return [('returns the number of the interval containing the time (the next one when rounding up an unaligned time)', z3.Implies(z3.Not(before), r == want)),
                ('a time before the creation time is put at most one interval too late', z3.Implies(before, z3.Or(r == want, r == want + 1))),
                (KF_BEFORE, z3.Implies(before, r == want))]
    not_assumed = (KF_BEFORE,)
    def to_replay(self, ex, m, st):
        return dict(kind='maptime', t=ms(m, z3.BitVec('t', 64)), up=int(mval(m, z3.Bool('round_up'))), **file_params(ex, m))

class MapIndexToTime(SFC):
    dem = 'istat::StatFile::mapBucketIndexToTime(long) const'
    def mkargs(self, ex, st): return [z3.BitVec('ix', 64)]
    def pre(self, ex, st, a): return [('index in range', ixbound(bv(a[1], 64)))]
    def post(self, ex, o, st, a, r):
        return [('returns the start of the interval', bv(r, 64) == ex.world.time_of(o, bv(a[1], 64)))]
    def to_replay(self, ex, m, st):
        return dict(kind='mapindex', ix=ms(m, z3.BitVec('ix', 64)), **file_params(ex, m))

class InFile(SFC):
    dem = 'istat::StatFile::isBucketIndexInFile(long) const'
    def mkargs(self, ex, st): return [z3.BitVec('ix', 64)]
    def pre(self, ex, st, a): return [('index in range', ixbound(bv(a[1], 64)))]
    def setup(self, ex):
        ex.fixed_clock = True; st, a = SFC.setup(self, ex); now_ghost(ex, st); return st, a
    def post(self, ex, o, st, a, r):
        now = now_ghost(ex, o)
        return [('an interval is held iff not older than the capacity back from the newest and not newer than the newest (collated: nor newer than now)',
                 bo(r) == ex.world.in_file(o, bv(a[1], 64), now))]
    def to_replay(self, ex, m, st):
        return dict(kind='infile', ix=ms(m, z3.BitVec('ix', 64)), **file_params(ex, m))

def now_ghost(ex, st):
    n = st.ghost.get('now')
    if n is None:
        n = st.ghost['now'] = z3.BitVec('now', 64); st.assume(lib.now_bounds(n))
    return n

class ToSlot(SFC):
    dem = 'istat::StatFile::mapBucketIndexToFileIndex(long) const'
    uses = (InFile,)
    def mkargs(self, ex, st): return [z3.BitVec('ix', 64)]
    def setup(self, ex):
        ex.fixed_clock = True; st, a = SFC.setup(self, ex); now_ghost(ex, st); return st, a
    def pre(self, ex, st, a): return [('index in range', ixbound(bv(a[1], 64)))]
    def post(self, ex, o, st, a, r):
        w = ex.world; ix = bv(a[1], 64); inf = w.in_file(o, ix, now_ghost(ex, o)); n = w.n(o); r = bv(r, 64)
        return [('a held interval maps to slot (number mod capacity), anything else to -1', r == z3.If(inf, slot_of(ix, n), B(-1))),
                ('the slot lies inside the file', z3.Implies(inf, z3.And(r >= 0, r < n)))]
    def to_replay(self, ex, m, st):
        return dict(kind='slot', ix=ms(m, z3.BitVec('ix', 64)), **file_params(ex, m))

def file_params(ex, m):
    w = ex.world; o = State(ex)
    st = ex.fc_old
    return dict(interval=mval(m, w.h.z(st, 'cfg_interval')), create=ms(m, w.create(st)), last=ms(m, w.last(st)), n=ms(m, w.n(st)), flags=mval(m, w.h.z(st, 'flags')), pages=ms(m, w.h.z(st,'page_count')))

class SlotLemma:
    """over the integers: slots of two different held intervals differ, and interval -> time -> interval is the identity"""
    name = 'lemma: distinct held intervals have distinct slots'; dem = None; fpmode = 'uf'; unroll = 1; timeout = 30000; check_overflow = False; candidates = None; decreases = None; uses = (); libs = ()
    def __init__(self, C): pass
    def label(self): return self.name
    def run(self, ex, res):
        st = State(ex)
        a, b, n, last, c, iv, t = z3.Ints('a b n last c iv t')
        base = [n >= 1, a <= last, b <= last, a > last - n, b > last - n, a != b]
        for x in base: st.assume(x)
        # z3's Int mod with positive divisor is the Euclidean one = slot_of
        ex.obligation(st, 'a != b, both within (last-n, last] => a mod n != b mod n', a % n != b % n, 'lemma')
        s2 = State(ex); s2.assume(iv >= 1)
        q = (c + a * iv - c) / iv
        ex.obligation(s2, 'index(time(a)) = a', q == a, 'lemma')
        s3 = State(ex); s3.assume(iv >= 1); k = (t - c) / iv
        ex.obligation(s3, 'time(index(t)) <= t < time(index(t)+1)', z3.And(c + k * iv <= t, t < c + (k + 1) * iv), 'lemma')

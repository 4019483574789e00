"""Range reads: entry k of the caller's buffer is the current content of the slot of interval start + k.
One arbitrary entry K is followed through the reads and copies; the file and the cached pages are ghost arrays of buckets by byte position."""
import z3
from irvc.spec import *
from irvc import lib
from .statfile import *
from .statfile_pages import STR, PageWorld, recorders, A

K = z3.BitVec('K', 64)            # an arbitrary entry of the caller's buffer
class ReadWorld(PageWorld):
    def __init__(self, C, ex, st):
        PageWorld.__init__(self, C, ex, st)
        self.cnt = z3.BitVec('cnt', 32)
        self.out = Region('out', size=None, lazy=True, stride=32); self.out.leaves = {0: T64}; self.out.count = lambda s: z3.SignExt(32, self.cnt)      # whole buckets: one value per bucket
        self.out.on_copy = self.copied; ex.objects.append(self.out)
        self.F = A('disk', BV64)       # bucket in the file, by position
        self.M = A('page', BV64)       # bucket in a mapped page, by handle and position
        st.setg('pos', z3.BitVec('pos0', 64)); st.setg('filled', B(0)); st.setg('short', z3.BoolVal(False))
    def index(self, p):
        o = p.off.div(32)
        if p.r is not self.out or o is None: raise Unsupported('not an entry of the buffer')
        return bv(o.value(), 64)
    def at(self, st, s):
        bpp = self.sf.z(st, 'bucketsPerPage_'); pg = s / bpp; return pg, (s - pg * bpp) * 32
    def put(self, ex, st, i, n, src, what):
        """n bytes are written from entry i on; src(f, k) is the value of entry k"""
        c = z3.SignExt(32, self.cnt)
        ex.obligation(st, 'at most the requested entries of the buffer are written (%s)' % what, z3.Or(n == 0, z3.And(i >= 0, i < c, z3.ULE(n, (c - i) * 32))), 'safety')
        d = (K - i) * 32
        full = z3.And(K >= i, K < c, z3.ULE(d + 32, n)); part = z3.And(K >= i, K < c, z3.ULT(d, n), z3.Not(full))
        a = st.arr(self.out, 0); b = z3.FreshConst(a.sort(), 'out')
        st.assume(z3.Implies(z3.Not(part), z3.Select(b, K) == z3.If(full, src(d), z3.Select(a, K))))
        st.setarr(self.out, 0, b)
    def copied(self, ex, st, d, s, n):
        n = bv(n, 64)
        if not (isinstance(s, Ptr) and s.r is self.pm): raise Unsupported('copy into the buffer from something that is not a page')
        h = Off(0, {t: k for t, k in s.off.t.items() if k % STR == 0}); rest = Off(s.off.c, {t: k for t, k in s.off.t.items() if k % STR != 0}).z3(); hv = bv(h.div(STR).value(), 64)
        ex.obligation(st, 'copied from a page that is mapped, inside it', z3.And(z3.Select(st.ghost['live'], hv), rest >= 0, rest <= self.ps, z3.ULE(n, self.ps - rest)), 'safety')
        self.put(ex, st, self.index(d), n, lambda x: z3.Select(self.M, hv * STR + rest + x), 'copy from a cached page')
    def slotval(self, st, s):
        """current content of a slot: in the cached page if there is one, else in the file"""
        bpp = self.sf.z(st, 'bucketsPerPage_'); pg = s / bpp; off = (s - pg * bpp) * 32
        v = z3.Select(self.F, (pg + 1) * self.ps + off)
        for i in range(3): v = z3.If(z3.And(self.handle(st, i) != 0, self.page(st, i) == pg + 1), z3.Select(self.M, self.handle(st, i) * STR + off), v)
        return v

def quotients(e):
    out = {}; seen = set(); stack = [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id()); stack += x.children()
        if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I): out[x.get_id()] = x
    return list(out.values())
class RC(FC):
    def apply(self, ex, st, a, ctx): ex.rep.used_contracts.add(self.what); return self.go(ex, st, ex.world, a)
class MmapSeek(RC):
    dem = 'istat::MmapImpl::seek(int, long, int)'; what = 'Mmap::seek'
    def go(self, ex, st, w, a):
        ex.obligation(st, 'seek in the file of this object, from its start', z3.And(bv(a[1], 32) == w.sf.z(st, 'fd_'), bv(a[3], 32) == 0), 'pre')
        st.setg('pos', bv(a[2], 64)); return [Outcome('ret', st, bv(a[2], 64))]
class MmapRead(RC):
    dem = 'istat::MmapImpl::read(int, void*, long)'; what = 'Mmap::read'
    def go(self, ex, st, w, a):
        n = fresh('nread', 64); i = w.index(a[2]); pos = st.ghost['pos']; q = bv(a[3], 64)
        ex.obligation(st, 'read from the file of this object', z3.And(bv(a[1], 32) == w.sf.z(st, 'fd_'), q >= 0), 'pre')
        st.assume(z3.And(n >= -1, n <= q)); got = z3.If(n < 0, B(0), n)
        pg, off = w.at(st, ex.wanted); inr = z3.And(n > 0, K >= i, K < i + z3.LShR(q, 5))
        n0, bpp, W = w.n(st), w.sf.z(st, 'bucketsPerPage_'), ex.wanted
        for t in quotients(pos):          # instances of the lemmas of SlotSteps for the slots the code computes with
            if not t.arg(1).eq(bpp) or t.eq(pg): continue
            f = t.arg(0)
            st.assume(z3.Implies(z3.And(f >= 0, f < n0), z3.And(t >= 0, t < w.h.z(st, 'page_count'), t * bpp + bpp <= n0, t * bpp <= f, f < t * bpp + bpp)))
            st.assume(z3.Implies(z3.And(f >= 0, f < n0, f <= W, W < n0, W < t * bpp + bpp), pg == t))
            if f.decl().kind() in (z3.Z3_OP_BSREM, z3.Z3_OP_BSREM_I) and f.arg(1).eq(n0):
                x, y = f.arg(0), ex.wanted_arg
                st.assume(z3.Implies(z3.And(x >= 0, x <= y, y < (1 << 60), f + (y - x) < n0), W == f + (y - x)))
            h = z3.Implies(inr, z3.And(t == pg, t.arg(0) - t * t.arg(1) + (K - i) == ex.wanted - pg * t.arg(1)))
            if not ex.scouting and ex.prove(st, h, cheap=True)[0] == 'ok': st.assume(h)
        ex.obligation(st, 'entry k is read from the position of the slot of interval start + k', z3.Implies(inr, pos + 32 * (K - i) == (pg + 1) * w.ps + off), 'pre')
        w.put(ex, st, i, got, lambda x: z3.Select(w.F, pos + x), 'read from the file')
        st.setg('filled', i + z3.LShR(got, 5)); st.setg('short', z3.Or(st.ghost['short'], n != q)); st.setg('pos', pos + got)
        return [Outcome('ret', st, n)]

class CopyAliased(SFC):
    dem = 'istat::StatFile::copyAliasedBuckets(istat::Bucket*, unsigned long, long, long) const'; libs = (lib.base, lib.opaque_strings, recorders); intfirst = True
    def setup(self, ex):
        st = State(ex); w = ex.world = ReadWorld(self.C, ex, st)
        for i in range(3): w.sf.get(st, 'pages[%d].ptr' % i)
        return st, [Ptr(w.self_r), Ptr(w.out, Off(0).add(z3.BitVec('at', 64), 32)), z3.BitVec('n', 64), z3.BitVec('page', 64), z3.BitVec('off', 64)]
    def parts(self, ex, a): return (ex.world.index(a[1]),) + tuple(bv(x, 64) for x in a[2:5])
    def pre(self, ex, st, a):
        w = ex.world; i, n, pg, off = self.parts(ex, a); c = z3.SignExt(32, w.cnt)
        return [(x, y) for x, y in w.cinv(st)] + [('inside the buffer', z3.And(w.cnt >= 0, i >= 0, n >= 0, i <= c, n <= c - i)), ('inside the page', z3.And(pg >= 0, pg < w.h.z(st, 'page_count'), off >= 0, off <= w.sf.z(st, 'bucketsPerPage_'), n <= w.sf.z(st, 'bucketsPerPage_') - off)), ('K', z3.And(K >= 0, K < (1 << 31)))]
    def modifies(self, ex, st, a): return {(ex.world.out, 0)}
    def post(self, ex, o, st, a, r):
        w = ex.world; i, n, pg, off = self.parts(ex, a); old = z3.Select(o.arr(w.out, 0), K); v = old
        for k in range(3): v = z3.If(z3.And(w.handle(o, k) != 0, w.page(o, k) == pg + 1), z3.Select(w.M, w.handle(o, k) * STR + (off + (K - i)) * 32), v)
        return [('entry k is the cached bucket of its slot, if its page is cached, and unchanged otherwise', z3.Select(st.arr(w.out, 0), K) == z3.If(z3.And(K >= i, K - i < n), v, old))]
class ReadBuckets(SFC):
    intfirst = True; autokeep = ('const',); cheapms = 4000
    dem = 'istat::StatFile::readBuckets(istat::Bucket*, int, long) const'
    uses = (ToSlot, MmapSeek, MmapRead, CopyAliased); libs = (lib.base, lib.opaque_strings, recorders); unroll = 4
    def setup(self, ex):
        ex.fixed_clock = True; st = State(ex); w = ex.world = ReadWorld(self.C, ex, st); now_ghost(ex, st)
        for i in range(3): w.sf.get(st, 'pages[%d].ptr' % i)
        ex.frame0 = dict(st.ghost)
        return st, [Ptr(w.self_r), Ptr(w.out), w.cnt, z3.BitVec('first', 64)]
    def start(self, ex, o, a):
        w = ex.world; f = bv(a[3], 64); old = w.last(o) - w.n(o) + 1; return z3.If(f < old, old, f), z3.If(f < old, z3.SignExt(32, w.cnt) - (old - f), z3.SignExt(32, w.cnt))
    def pre(self, ex, st, a):
        w = ex.world; s, _ = self.start(ex, st, a); n = w.n(st); bpp = w.sf.z(st, 'bucketsPerPage_')
        ex.wanted = slot_of(s + K, n); ex.wanted_arg = slot_of(s, n) + K
        return w.cinv(st) + [('count', z3.And(w.cnt >= 0, K >= 0, K < (1 << 31))), ('start', z3.And(bv(a[3], 64) >= -(1 << 61), bv(a[3], 64) <= (1 << 61))),
            ('lemma instances', z3.And(slot_of(s + K, n) == z3.SRem(slot_of(s, n) + K, n), slot_of(s + K, n) >= 0, slot_of(s + K, n) < n))]
    def cases(self, ex, st, a):
        w = ex.world; f = bv(a[3], 64); old = w.last(st) - w.n(st) + 1; c = z3.SignExt(32, w.cnt); d = old - f; n = w.n(st)
        return z3.And(f >= old, c <= n), z3.And(f >= old, c > n), z3.And(f < old, c - d <= n), z3.And(f < old, c - d > n)
    def modifies(self, ex, st, a): return {(ex.world.out, 0)}
    def eqold(self, ex, o, st): w = ex.world; return z3.Select(st.arr(w.out, 0), K) == z3.Select(o.arr(w.out, 0), K)
    def eqslot(self, ex, o, st, a):
        w = ex.world; s, _ = self.start(ex, o, a); v = slot_of(s + K, w.n(o))
        return z3.Select(st.arr(w.out, 0), K) == w.slotval(o, v)
    def candidates(self, ctx):
        ex = ctx.ex; o = ex.fc_old; a = ex.fc_args; n = ex.world.n(o); from irvc.core import Cand
        return [Cand('no short read so far', lambda ex, st, vs: z3.Not(st.ghost['short']), True), Cand('filled >= 0', lambda ex, st, vs: z3.And(st.ghost['filled'] >= 0, st.ghost['filled'] <= (1 << 32)), True),
                Cand('filled entries are the slots of their intervals', lambda ex, st, vs: z3.Implies(K < st.ghost['filled'], self.eqslot(ex, o, st, a)), True),
                Cand('other entries are untouched', lambda ex, st, vs: z3.Implies(K >= st.ghost['filled'], self.eqold(ex, o, st)), True)]
    def post(self, ex, o, st, a, r):
        w = ex.world; r = bv(r, 64); s, c = self.start(ex, o, a); n = w.n(o); now = now_ghost(ex, o); inf = w.in_file(o, s, now)
        want = z3.If(z3.And(c > 0, inf), z3.If(c > n, n, c), B(0))
        return [('the number of entries returned fits the request', z3.And(r >= 0, r <= z3.SignExt(32, w.cnt), r <= n)),
                ('without a short read every requested entry that exists is returned, from the oldest interval on', z3.Implies(z3.Not(st.ghost['short']), r == want)),
                ('never more than requested from the oldest interval on', r <= want),
                ('entry k is the current content of the slot of interval start + k', z3.Implies(K < r, self.eqslot(ex, o, st, a))),
                ('without a short read entries that are not returned are not written', z3.Implies(z3.And(K >= r, z3.Not(st.ghost['short'])), self.eqold(ex, o, st)))]
class Case(ReadBuckets):
    """the contract of readBuckets is proved separately for four cases of its arguments, which cover them all (last obligation of SlotSteps)"""
    def pre(self, ex, st, a): return ReadBuckets.pre(self, ex, st, a) + [('case', self.cases(ex, st, a)[self.case])]
class ReadCase0(Case): case = 0
class ReadCase1(Case): case = 1
class ReadCase2(Case): case = 2
class ReadCase3(Case): case = 3
class SlotSteps(SlotLemma):
    name = 'lemma: stepping through slots'
    def run(self, ex, res):
        st = State(ex); i, k, n, p, b = z3.Ints('i k n p b')
        for x in (n >= 1, k >= 0): st.assume(x)
        ex.obligation(st, 'slot(i + k) = (slot(i) + k) mod n', (i + k) % n == (i % n + k) % n, 'lemma')
        s2 = State(ex)
        for x in (b >= 1, p >= 0): s2.assume(x)
        f, w, pc, x, y = z3.Ints('f w pc x y')
        for e in (f >= 0, f < pc * b, pc >= 1): s2.assume(e)
        ex.obligation(s2, 'the page of a slot, whole, is in the file', z3.And(f / b >= 0, f / b < pc, (f / b) * b + b <= pc * b, (f / b) * b <= f, f < (f / b) * b + b), 'lemma')
        s2.assume(f <= w); s2.assume(w < (f / b) * b + b)
        ex.obligation(s2, 'slots up to the end of a page are in that page', w / b == f / b, 'lemma')
        s4 = State(ex)
        for e in (n >= 1, x >= 0, x <= y, x % n + (y - x) < n): s4.assume(e)
        ex.obligation(s4, 'steps that stay below the capacity do not wrap', y % n == x % n + (y - x), 'lemma')
        s3 = State(ex); s3.assume(n >= 1)
        ex.obligation(s3, '0 <= slot(i) < n', z3.And(i % n >= 0, i % n < n), 'lemma')

"""The page cache of StatFile against the mapping layer: which page is where, what the file holds, and that nothing written is lost.
A mapped page is a handle; ghost arrays give, per handle, whether it is mapped, where it belongs in the file, whether it may be written
and what it currently contains; another ghost array gives the content of the file per offset."""
import z3
from irvc.spec import *
from irvc import lib
from .statfile import *

STR = 1 << 40                     # address space reserved per mapping, in the model
BOOL = z3.BoolSort()
A = lambda n, s: z3.Const(n, z3.ArraySort(BV64, s))
Q = z3.BitVec('any_page', 64)     # an arbitrary page of the file
class PageWorld(World):
    def __init__(self, C, ex, st):
        World.__init__(self, C, ex, st); L = C.L
        self.pm = Region('page', size=None, lazy=True, stride=STR, null_zero=True); self.pm.leaves = {}
        self.handles = [z3.BitVec('handle%d' % i, 64) for i in range(3)]
        offs = [L.field(SF, 'pages[%d].ptr' % i)[0] for i in range(3)]
        self.hdr_handle = z3.BitVec('header_handle', 64)
        def on_ptr(ex, s, r, c):
            if c in offs: return Ptr(self.pm, Off(0).add(self.handles[offs.index(c)], STR))
            return Ptr(RAWADDR, Off(0, {z3.BitVec('StatFile.p%d' % c, 64): 1}))
        self.self_r.on_ptr = on_ptr
        g = st.ghost
        g['live'] = A('live', BOOL); g['moff'] = A('moff', BV64); g['wr'] = A('wr', BOOL); g['content'] = A('content', BV64); g['file'] = A('file', BV64); g['flushed'] = (); g['unmapped'] = ()
        self.ps = self.h.z(st, 'page_size')
    def handle(self, st, i):
        p = self.sf.get(st, 'pages[%d].ptr' % i)
        if p.r is None: return B(0)
        o = p.off.div(STR)
        if p.r is not self.pm or o is None: raise Unsupported('pages[%d].ptr is not a page' % i)
        return bv(o.value(), 64)
    def page(self, st, i): return self.sf.z(st, 'pages[%d].page' % i)
    def cinv(self, st):
        out = []; h = [self.handle(st, i) for i in range(3)]; p = [self.page(st, i) for i in range(3)]; g = st.ghost; pc = self.h.z(st, 'page_count')
        for i in range(3):
            out.append(('cached page %d is mapped, at its own place, writable' % i, z3.Implies(h[i] != 0, z3.And(z3.Select(g['live'], h[i]), z3.Select(g['moff'], h[i]) == p[i] * self.ps, z3.Select(g['wr'], h[i]), z3.Extract(0, 0, self.sf.z(st, 'pages[%d].writable' % i)) == 1, p[i] >= 1, p[i] <= pc))))
            for k in range(i): out.append(('no page is cached twice (%d, %d)' % (k, i), z3.Implies(z3.And(h[i] != 0, h[k] != 0), z3.And(p[i] != p[k], h[i] != h[k]))))
        out.append(('next victim', z3.And(self.sf.z(st, 'lruNextPage_') >= 0, self.sf.z(st, 'lruNextPage_') <= 2)))
        out.append(('no mapping at the null address', z3.Not(z3.Select(g['live'], B(0)))))
        return out
    def logical(self, st, q):
        """what the file holds for page q, seen through the cache"""
        v = z3.Select(st.ghost['file'], q * self.ps)
        for i in range(3): v = z3.If(z3.And(self.handle(st, i) != 0, self.page(st, i) == q), z3.Select(st.ghost['content'], self.handle(st, i)), v)
        return v
    def offsets_distinct(self, st, pages):
        """instances of the lemma of PageOffsets: different pages have different offsets"""
        ps = self.ps; ok = lambda x: z3.And(x >= 0, x <= (1 << 33))
        return z3.And([z3.Implies(z3.And(ok(a), ok(b), a != b), a * ps != b * ps) for k, a in enumerate(pages) for b in pages[:k]])

class PageOffsets(SlotLemma):
    name = 'lemma: different pages have different file offsets'
    def run(self, ex, res):
        st = State(ex); a, b, p = z3.Ints('a b p')
        for x in (a >= 0, b >= 0, a <= (1 << 33), b <= (1 << 33), p >= 4096, p <= (1 << 20), a != b): st.assume(x)
        ex.obligation(st, 'a != b => a * page_size != b * page_size', a * p != b * p, 'lemma')
        s2 = State(ex)
        for x in (a >= 0, a <= (1 << 33), p >= 4096, p <= (1 << 20)): s2.assume(x)
        ex.obligation(s2, 'no overflow: a * page_size < 2^63', z3.And(a * p >= 0, a * p <= (1 << 33) * (1 << 20)), 'lemma')

class MmapC(FC):
    """what StatFile relies on from the mapping layer (for MmapImpl: contracts/mmap.py)"""
    def hd(self, ex, p):
        w = ex.world
        if isinstance(p, Ptr) and p.r is w.pm:
            o = p.off.div(STR); return None if o is None else bv(o.value(), 64)
        return None
class MmapMap(MmapC):
    dem = 'istat::MmapImpl::map(int, long, unsigned long, bool)'
    def apply(self, ex, st, a, ctx):
        ex.rep.used_contracts.add('Mmap::map'); w = ex.world; g = st.ghost
        ex.obligation(st, 'pages are mapped with the page size from the file of this object', z3.And(bv(a[3], 64) == w.ps, bv(a[1], 32) == w.sf.z(st, 'fd_')), 'pre')
        s2 = st.clone(); outs = [Outcome('ret', s2, NULL)]
        h = fresh('newpage', 64); off = bv(a[2], 64)
        st.assume(z3.And(h != 0, z3.Not(z3.Select(g['live'], h))))
        st.setg('live', z3.Store(g['live'], h, True)); st.setg('moff', z3.Store(g['moff'], h, off)); st.setg('wr', z3.Store(g['wr'], h, bo(a[4])))
        st.setg('content', z3.Store(g['content'], h, z3.Select(g['file'], off)))
        outs.append(Outcome('ret', st, Ptr(w.pm, Off(0).add(h, STR)))); return outs
def write_back(st, h):
    g = st.ghost; off = z3.Select(g['moff'], h)
    st.setg('file', z3.Store(g['file'], off, z3.If(z3.Or(z3.Select(g['wr'], h), fresh('ro_written', 1)), z3.Select(g['content'], h), z3.Select(g['file'], off))))
class MmapUnmap(MmapC):
    dem = 'istat::MmapImpl::unmap(void const*, unsigned long)'
    def apply(self, ex, st, a, ctx):
        ex.rep.used_contracts.add('Mmap::unmap'); w = ex.world; g = st.ghost; h = self.hd(ex, a[1])
        if h is None:
            ex.obligation(st, 'only mapped memory is unmapped', isinstance(a[1], Ptr) and a[1].r is w.hdr_r, 'pre')
            ex.obligation(st, 'the header is unmapped with its own size', bv(a[2], 64) == self.L.size(HDR), 'pre')
            st.setg('unmapped', g['unmapped'] + ('header',)); st.dead = set(st.dead) | {w.hdr_r.id}; ex.hdr_unmapped = True
        else:
            ex.obligation(st, 'only a mapped page is unmapped, once, with the page size', z3.And(z3.Select(g['live'], h), bv(a[2], 64) == w.ps), 'pre')
            write_back(st, h); st.setg('live', z3.Store(g['live'], h, False)); st.setg('unmapped', g['unmapped'] + (h,))
        return [Outcome('ret', st, fresh('unmap', 1))]
class MmapFlush(MmapC):
    dem = 'istat::MmapImpl::flush(void const*, unsigned long, bool)'
    def apply(self, ex, st, a, ctx):
        ex.rep.used_contracts.add('Mmap::flush'); w = ex.world; g = st.ghost; h = self.hd(ex, a[1])
        if h is None:
            ex.obligation(st, 'only mapped memory is flushed', isinstance(a[1], Ptr) and a[1].r is w.hdr_r, 'pre')
            ex.obligation(st, 'the whole header is flushed', bv(a[2], 64) == self.L.size(HDR), 'pre')
            st.setg('flushed', g['flushed'] + ('header',))
        else:
            ex.obligation(st, 'only a mapped page is flushed, completely', z3.And(z3.Select(g['live'], h), bv(a[2], 64) == w.ps), 'pre')
            write_back(st, h); st.setg('flushed', g['flushed'] + (h,))
        return [Outcome('ret', st, fresh('flush', 1))]
MM = (MmapMap, MmapUnmap, MmapFlush)
def recorders(ex):
    for n in ('recordPageHit', 'recordPageMiss'): ex.add_lib('istat::StatFile::%s()' % n, lib.h_nop)

class PC_(SFC):
    libs = (lib.base, lib.opaque_strings, recorders); uses = MM; assumption = 'the page statistics recorders do not touch the file'
    def setup(self, ex):
        ex.fixed_clock = True; st = State(ex); ex.world = PageWorld(self.C, ex, st); now_ghost(ex, st)
        ex.world.sf.get(st, 'pages[0].ptr'); ex.world.sf.get(st, 'pages[1].ptr'); ex.world.sf.get(st, 'pages[2].ptr')
        return st, [Ptr(ex.world.self_r)] + self.mkargs(ex, st)
    def facts(self, ex, st, a): return []
    def requires(self, ex, st, a):
        w = ex.world
        return self.inv(ex, st) + w.cinv(st) + [('lemma instances', w.offsets_distinct(st, [Q] + [w.page(st, i) for i in range(3)] + self.facts(ex, st, a))), ('any page', z3.And(Q >= 0, Q <= w.h.z(st, 'page_count')))] + self.pre(ex, st, a)
    def modifies(self, ex, st, a):
        w = ex.world; return {w.sf.key('pages[%d].%s' % (i, f)) for i in range(3) for f in ('page', 'ptr', 'writable')} | {w.sf.key('lruNextPage_')}
    def kept(self, ex, o, st):
        w = ex.world
        return w.cinv(st) + [('no page of the file loses or changes its content', w.logical(st, Q) == w.logical(o, Q))] + \
               [('a page that is no longer cached is no longer mapped (%d)' % i, z3.Implies(z3.And(w.handle(o, i) != 0, z3.And([w.handle(st, k) != w.handle(o, i) for k in range(3)])), z3.Not(z3.Select(st.ghost['live'], w.handle(o, i))))) for i in range(3)]
    def fresh_ret(self, ex, st, a): return Ptr(ex.world.pm, Off(0).add(fresh('pageh', 64), STR))
    def havoc(self, ex, st, a):
        w = ex.world
        for i in range(3):
            w.sf.set(st, 'pages[%d].page' % i, fresh('page', 64)); w.sf.set(st, 'pages[%d].writable' % i, fresh('wr', 8)); w.sf.set(st, 'pages[%d].ptr' % i, Ptr(w.pm, Off(0).add(fresh('handle', 64), STR)))
        w.sf.set(st, 'lruNextPage_', fresh('lru', 32))
        for k in ('live', 'moff', 'wr', 'content', 'file'): st.setg(k, z3.FreshConst(st.ghost[k].sort(), k))
    def may_throw(self, ex, st, a): return Exc('std::runtime_error')
    def throws(self, ex, o, st, a, e): return self.kept(ex, o, st)
    def got(self, ex, o, st, r, page):
        """the returned pointer is the mapping of this page"""
        w = ex.world; g = st.ghost; h = handle_of(ex, r)
        return [('the returned memory is the mapping of the page asked for, writable and alive', z3.And(h != 0, z3.Select(g['live'], h), z3.Select(g['wr'], h), z3.Select(g['moff'], h) == page * w.ps)),
                ('it stays reachable through the cache', z3.Or([z3.And(w.handle(st, i) == h, w.page(st, i) == page) for i in range(3)]))]
def handle_of(ex, r):
    if r.r is None: return B(0)
    o = r.off.div(STR); return bv(o.value(), 64) if o is not None else B(0)

PG = z3.BitVec('pg', 64)
class ReplaceMap(PC_):
    dem = 'istat::StatFile::replaceMap(int, long, bool)'
    def mkargs(self, ex, st): return [z3.BitVec('ci', 32), PG, True]
    def facts(self, ex, st, a): return [bv(a[2], 64)]
    def pre(self, ex, st, a):
        w = ex.world; p = bv(a[2], 64); c = bv(a[1], 32)
        return [('cache index', z3.And(c >= 0, c <= 2)), ('a page of the file', z3.And(p >= 1, p <= w.h.z(st, 'page_count'))), ('for writing', bo(a[3])), ('the page is not cached elsewhere', z3.And([z3.Not(z3.And(w.handle(st, i) != 0, w.page(st, i) == p, c != i)) for i in range(3)]))]
    def post(self, ex, o, st, a, r):
        w = ex.world; c = bv(a[1], 32)
        return self.kept(ex, o, st) + self.got(ex, o, st, r, bv(a[2], 64)) + [('only one cache entry is replaced', z3.And([z3.Implies(c != i, z3.And(w.handle(st, i) == w.handle(o, i), w.page(st, i) == w.page(o, i))) for i in range(3)])), ('next victim is not changed', w.sf.z(st, 'lruNextPage_') == w.sf.z(o, 'lruNextPage_'))]
class MapSinglePage(PC_):
    dem = 'istat::StatFile::mapSinglePage(long, bool)'; uses = (ReplaceMap,)
    def mkargs(self, ex, st): return [PG, True]
    def facts(self, ex, st, a): return [bv(a[1], 64)]
    def pre(self, ex, st, a):
        p = bv(a[1], 64); return [('a page of the file', z3.And(p >= 1, p <= ex.world.h.z(st, 'page_count'))), ('for writing', bo(a[2]))]
    def post(self, ex, o, st, a, r): return self.kept(ex, o, st) + self.got(ex, o, st, r, bv(a[1], 64))
class MapBucketPage(PC_):
    dem = 'istat::StatFile::mapBucketPage(long, bool)'; uses = (MapSinglePage,)
    def mkargs(self, ex, st): return [PG, True]
    def facts(self, ex, st, a): return [bv(a[1], 64) + 1]
    def pre(self, ex, st, a): return [('for writing', bo(a[2])), ('page below the page count', bv(a[1], 64) < ex.world.h.z(st, 'page_count'))]
    def post(self, ex, o, st, a, r):
        w = ex.world; p = bv(a[1], 64)
        return self.kept(ex, o, st) + self.got(ex, o, st, r, p + 1) + [('a negative page or a read-only file is refused', z3.And(p >= 0, w.sf.z(o, 'fileWritable_') != 0))]
class WritableBucketLow(PC_):
    dem = 'istat::StatFile::writableBucket(long)'; uses = (ToSlot, MapBucketPage); name = 'istat::StatFile::writableBucket (page level)'
    def mkargs(self, ex, st): return [z3.BitVec('ix', 64)]
    def facts(self, ex, st, a):
        w = ex.world; return [slot_of(bv(a[1], 64), w.n(st)) / w.sf.z(st, 'bucketsPerPage_') + 1]
    def pre(self, ex, st, a): 
        w = ex.world; s = slot_of(bv(a[1], 64), w.n(st)); b = w.sf.z(st, 'bucketsPerPage_'); pc = w.h.z(st, 'page_count')
        return [('index in range', ixbound(bv(a[1], 64))), ('the interval is in the file (every caller asks first: the contract of writableBucket in statfile_upd.py demands it)', w.in_file(st, bv(a[1], 64), now_ghost(ex, st))), ('lemma instance: slot / buckets per page is a page of the file', z3.Implies(z3.And(s >= 0, s < w.n(st)), z3.And(s / b >= 0, s / b < pc, s - s / b * b >= 0, s - s / b * b < b)))]
    def post(self, ex, o, st, a, r):
        w = ex.world; ix = bv(a[1], 64); s = slot_of(ix, w.n(o)); b = w.sf.z(o, 'bucketsPerPage_'); pg = s / b
        # r = handle * STR + offset
        h = None; rest = r.off.c; base = Off(r.off.c, {t: k for t, k in r.off.t.items() if k % STR != 0}); hp = Off(0, {t: k for t, k in r.off.t.items() if k % STR == 0})
        return self.kept(ex, o, st) + self.got(ex, o, st, Ptr(r.r, hp), pg + 1) + [('the pointer is to the bucket of the interval\'s slot inside its page', base.z3() == (s - pg * b) * 32)]
class PageOfSlot(SlotLemma):
    name = 'lemma: the page of a slot exists and the rest is inside the page'
    def run(self, ex, res):
        st = State(ex); s, b, pc = z3.Ints('s b pc')
        for x in (s >= 0, b >= 1, pc >= 1, s < pc * b): st.assume(x)
        ex.obligation(st, 's / b < page_count', z3.And(s / b >= 0, s / b < pc), 'lemma')
        s2 = State(ex)
        for x in (s >= 0, b >= 1): s2.assume(x)
        ex.obligation(s2, '0 <= s - s / b * b < b', z3.And(s - s / b * b >= 0, s - s / b * b < b), 'lemma')

class FlushOneExpPages(PC_):
    """what moving one pending interval into the file (contracts FlushOneExp, WritableBucketLow) means for the page cache: pages may be replaced, and contents of pages change, nothing else"""
    dem = 'istat::StatFile::flushOneExpBucket()'
    def apply(self, ex, st, a, ctx):
        w = ex.world; ex.rep.used_contracts.add('istat::StatFile::flushOneExpBucket (page cache view)')
        ex.obligation(st, 'a pending interval is moved only in trailing files', (w.h.z(st, 'flags') & TRAILING) != 0, 'pre')
        self.havoc(ex, st, a); st.setg('pending_moved', st.ghost['pending_moved'] + (1,))
        for n, c in w.cinv(st) + [('lemma instances', w.offsets_distinct(st, [Q] + [w.page(st, i) for i in range(3)]))]: st.assume(c)
        s2 = st.clone(); return [Outcome('ret', st, None), Outcome('throw', s2, Exc('std::runtime_error'))]
class FlushPages(PC_):
    dem = 'istat::StatFile::flush()'; uses = MM + (FlushOneExpPages,)
    def setup(self, ex):
        st, a = PC_.setup(self, ex); st.ghost['pending_moved'] = (); return st, a
    def throws(self, ex, o, st, a, e): return ex.world.cinv(st)
    def modifies(self, ex, st, a):
        return PC_.modifies(self, ex, st, a)
    def post(self, ex, o, st, a, r):
        w = ex.world; f = st.ghost['flushed']; tr = (w.h.z(o, 'flags') & TRAILING) != 0
        hs = [x for x in f if not isinstance(x, str)]
        same = z3.And([z3.And(w.handle(st, i) == w.handle(o, i), w.page(st, i) == w.page(o, i)) for i in range(3)])
        return w.cinv(st) + [('the header is handed to the file', 'header' in f), ('exactly one pending interval is moved, in trailing files only', tr == (len(st.ghost['pending_moved']) == 1)), ('never more than one pending interval', len(st.ghost['pending_moved']) <= 1),
             ('no page of a file that is not trailing changes', z3.Implies(z3.Not(tr), z3.And(same, w.logical(st, Q) == w.logical(o, Q))))] + \
            [('cached page %d is handed to the file' % i, z3.Implies(w.handle(st, i) != 0, z3.Or([h == w.handle(st, i) for h in hs]))) for i in range(3)] + \
            [('after a flush the file itself holds every page', z3.Select(st.ghost['file'], Q * w.ps) == w.logical(st, Q))]
class Destroy(PC_):
    dem = 'istat::StatFile::~StatFile()'; uses = MM
    libs = (lib.base, lib.opaque_strings, recorders, lambda ex: ex.add_lib('istat::StatFile::closefd()', closing))
    def may_throw(self, ex, st, a): return None
    def throws(self, ex, o, st, a, e): return None
    def modifies(self, ex, st, a): return PC_.modifies(self, ex, st, a) | {(ex.world.hdr_r, 'free')}
    def post(self, ex, o, st, a, r):
        w = ex.world; g = st.ghost; u = g['unmapped']; names = [x for x in u if isinstance(x, str)]
        return [('the header is unmapped, once, and the file is closed after that', names == ['header', 'closed']), ('nothing is unmapped after the file is closed', isinstance(u[-1], str) and u[-1] == 'closed')] + \
               [('cached page %d is unmapped' % i, z3.Implies(w.handle(o, i) != 0, z3.Not(z3.Select(g['live'], w.handle(o, i))))) for i in range(3)] + \
               [('after closing the file itself holds every page', z3.Select(g['file'], Q * w.ps) == w.logical(o, Q))]
def closing(ex, st, args, ctx):
    st.setg('unmapped', st.ghost['unmapped'] + ('closed',)); return None

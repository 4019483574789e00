"""Creating and opening files: the header that is written, and what is accepted.
The file is a ghost: its length, and the number and content of the header writes made through the mapping layer."""
import z3
from irvc.spec import *
from irvc import lib
from .statfile import *

SET = 'istat::StatFile::Settings'
class FW:
    """a StatFile that is being created or opened"""
    def __init__(self, C, ex, st):
        L = self.L = C.L
        self.self_r = rec_region(L, SF, 'StatFile'); self.init_r = rec_region(L, SET, 'init'); self.mm_r = Region('mmap', size=None, lazy=True); self.path = Region('path', size=None, lazy=True); self.hdr_r = rec_region(L, HDR, 'header')
        self.sf = Obj(ex, L, SF, Ptr(self.self_r)); self.i = Obj(ex, L, SET, Ptr(self.init_r)); self.h = Obj(ex, L, HDR, Ptr(self.hdr_r))
        ex.objects = [self.self_r, self.init_r, self.hdr_r]
        self.sf.set(st, 'mm_', Ptr(self.mm_r))
        ex.store(st, Ptr(self.mm_r), TP, ex.global_ptr(None, '_ZTVN5istat8MmapImplE').at(16), check=False)
        st.setg('len', z3.BitVec('len0', 64)); st.setg('cut', z3.BoolVal(False)); st.setg('written', ()); st.setg('pos', z3.BitVec('pos0', 64)); st.setg('failed', z3.BoolVal(False)); st.setg('closed', 0); st.setg('opened', z3.BoolVal(False)); st.setg('mapped', ())
class FWC(FC):
    def apply(self, ex, st, a, ctx): ex.rep.used_contracts.add(self.what); return self.go(ex, st, ex.world, a)
    def own(self, ex, st, w, a): ex.obligation(st, self.what + ' is applied to the file of this object', bv(a[1], 32) == w.sf.z(st, 'fd_'), 'pre')
class Truncate(FWC):
    dem = 'istat::MmapImpl::truncate(int, long)'; what = 'Mmap::truncate'
    def go(self, ex, st, w, a):
        self.own(ex, st, w, a); n = bv(a[2], 64); r = fresh('truncate', 32); st.setg('cut', z3.Or(st.ghost['cut'], z3.ULT(n, st.ghost['len']))); st.setg('touched', True)
        st.setg('failed', z3.Or(st.ghost['failed'], r < 0)); st.setg('len', z3.If(r >= 0, n, st.ghost['len'])); return [Outcome('ret', st, r)]
class Seek(FWC):
    dem = 'istat::MmapImpl::seek(int, long, int)'; what = 'Mmap::seek'
    def go(self, ex, st, w, a):
        self.own(ex, st, w, a); wh = bv(a[3], 32); ex.obligation(st, 'seeks from the start or the end', z3.Or(wh == 0, wh == 2), 'pre')
        p = z3.If(wh == 0, bv(a[2], 64), st.ghost['len'] + bv(a[2], 64)); st.setg('pos', p); return [Outcome('ret', st, p)]
class Write(FWC):
    dem = 'istat::MmapImpl::write(int, void*, long)'; what = 'Mmap::write'
    def go(self, ex, st, w, a):
        self.own(ex, st, w, a); n = bv(a[3], 64); r = fresh('write', 64); h = Obj(ex, w.L, HDR, a[2])
        ex.obligation(st, 'a whole header is written at the start of the file', z3.And(n == w.L.size(HDR), st.ghost['pos'] == 0), 'pre')
        st.setg('failed', z3.Or(st.ghost['failed'], r != n)); st.setg('written', st.ghost['written'] + ((h, dict(st.ghost)),)); st.setg('touched', True); return [Outcome('ret', st, r)]
class Close(FWC):
    dem = 'istat::MmapImpl::close(int)'; what = 'Mmap::close'
    def go(self, ex, st, w, a): self.own(ex, st, w, a); st.setg('closed', st.ghost['closed'] + 1); return [Outcome('ret', st, fresh('close', 32))]

class WriteNewHeader(FC):
    dem = 'istat::StatFile::writeNewHeader(istat::StatFile::Settings const&, ' + lib.STR + ' const&)'
    uses = (Truncate, Seek, Write); libs = (lib.base, lib.opaque_strings); intfirst = True; sz = 4096
    def setup(self, ex):
        ex.fixed_clock = True; st = State(ex); w = ex.world = FW(self.C, ex, st); now_ghost(ex, st); lib.assumed(ex, 'sysconf(_SC_PAGE_SIZE) is 4096, 8192, 16384, 32768 or 65536'); st.ghost['pagesz'] = self.sz
        return st, [Ptr(w.self_r), Ptr(w.init_r), Ptr(w.path)]
    def requires(self, ex, st, a):
        i = ex.world.i; z = lambda f: i.z(st, f)
        return [('sizes that are representable', z3.And(z('numSamples') >= 0, z('numSamples') < (1 << 32), z('intervalTime') >= -(1 << 30), z('intervalTime') < (1 << 30), z('zeroTime') >= 0, z('zeroTime') < (1 << 40)))]
    def bad(self, ex, o):
        i = ex.world.i; f = i.z(o, 'flags'); l = i.get(o, 'lambda'); s = i.z(o, 'season'); F = lambda v: z3.FPVal(v, F64)
        return z3.Or(f & ~7 != 0, z3.And(f & TRAILING != 0, z3.Or(z3.Not(z3.And(z3.fpGT(l, F(0.0)), z3.fpLEQ(l, F(1.0)))), s < 10, s > 373 * 86400)))
    def season_lemma(self, s, bpp, iv):       # SeasonLemma
        return z3.Implies(z3.And(z3.ULT(s, 1 << 30), iv >= 1, iv < (1 << 30), bpp >= 1, bpp < (1 << 16)), z3.And(z3.ULT(s, (z3.UDiv(z3.UDiv(s, bpp), iv) + 1) * bpp * iv), z3.ULE(z3.UDiv(z3.UDiv(s, bpp), iv), s)))
    def modifies(self, ex, st, a): return {('ghost', k) for k in ('len', 'cut', 'written', 'pos', 'failed', 'touched')}
    def ensures(self, ex, o, st, a, r):
        w = ex.world; i = w.i; g = st.ghost; z = lambda f: i.z(o, f); out = [('bad flags and trailing parameters are refused', z3.Not(self.bad(ex, o))), ('a failure to size or write the file is an error', z3.Not(g['failed'])), ('exactly one header is written', len(g['written']) == 1)]
        if len(g['written']) != 1: return out
        h = g['written'][0][0]; H = lambda f: h.z(st, f)
        iv = z3.If(z('intervalTime') < 1, B(1), z('intervalTime')); now = st.ghost['now']; base = z3.If(z('zeroTime') == 0, now, z('zeroTime')); c = H('file_create_time')
        ps, pc, hiv = H('page_size'), H('page_count'), z3.SignExt(32, H('cfg_interval')) if H('cfg_interval').size() == 32 else H('cfg_interval'); bpp = z3.simplify(z3.LShR(ps, 5)); tr = z('flags') & TRAILING != 0; hiv = z3.simplify(hiv); st.assume(pc * bpp * hiv == bpp * (pc * hiv)); st.assume(z3.Implies(pc == 2, pc * bpp * hiv == z3.simplify(2 * bpp) * hiv)); sz = st.ghost['pagesz']
        st.assume(self.season_lemma(z('season'), bpp, hiv)); np = z3.UDiv(z('numSamples') + bpp - 1, bpp); p = np * bpp * hiv; st.assume(p == bpp * (np * hiv))
        st.assume(z3.Implies(z3.And(z3.ULT(z('season'), 1 << 30), hiv >= 1, hiv < (1 << 30)), z3.And(z3.Implies(z3.ULT(p, z('season')), z3.ULE(np, z3.UDiv(z3.UDiv(z('season'), bpp), hiv))), z3.Implies(np == 0, p == 0), z3.Implies(np == 1, p == bpp * hiv), z3.Implies(z3.UDiv(z3.UDiv(z('season'), bpp), hiv) == 0, (z3.UDiv(z3.UDiv(z('season'), bpp), hiv) + 1) * bpp * hiv == bpp * hiv))))      # also SeasonLemma
        magic = z3.And([bv(ex.load(st, h.p.plus(k), T8), 8) == bv(ex.load(st, ex.global_ptr(None, "_ZN5istat10file_magicE").plus(k), T8), 8) for k in range(16)])
        out += [('the interval asked for, at least one second', hiv == iv), ('creation time is aligned to the interval', c == base - z3.SRem(base, hiv)), ('creation time lies in the interval of the time asked for', z3.And(c <= base, base - c < hiv)),
                ('totals are counted from the creation time', H('last_cumulative_clear_time') == c), ('page size holds whole buckets and is at least the system page and 8 KB', z3.And(ps >= 8192, ps >= sz, ps & 31 == 0, z3.Or(ps == 8192, ps == sz))),
                ('at least two pages', pc >= 2), ('capacity is at least what was asked for', pc * bpp >= z('numSamples')), ('a trailing file holds at least a season', z3.Implies(tr, z3.UGE(pc * bpp * hiv, z('season')))),
                ('the file holds the header and all pages', g['len'] == ps * (pc + 1)), ('flags, blend, season, fixed count as asked for', z3.And(H('flags') == z('flags'), H('season') == z('season'), H('fixed_count') == z('fixed_count'), z3.Or(h.get(st, 'lambda') == i.get(o, 'lambda'), z3.fpEQ(h.get(st, 'lambda'), i.get(o, 'lambda'))))),
                ('magic, header size and versions', z3.And(magic, H('hdr_size') == w.L.size(HDR), H('rd_version') <= H('cr_version'), H('rd_version') >= 1)),
                ('everything else starts at zero', z3.And([H(f) == 0 for f in ('first_bucket', 'last_bucket', 'last_time', 'cumulative_count')] + [z3.fpIsZero(h.get(st, f)) for f in ('cumulative_sum', 'cumulative_sum_sq')]))]
        return out
    def throws(self, ex, o, st, a, e):
        g = st.ghost; return [('only bad parameters or a file that cannot be sized or written are refused', z3.Or(self.bad(ex, o), g['failed'])), ('nothing was done to the file when the parameters are bad', z3.Implies(self.bad(ex, o), z3.BoolVal(not g.get('touched'))))]
    def to_replay(self, ex, m, st):
        o = ex.fc_old; i = ex.world.i
        return dict(kind="create", interval=ms(m, i.z(o, 'intervalTime')), samples=ms(m, i.z(o, 'numSamples')), zero=ms(m, i.z(o, 'zeroTime')), flags=mval(m, i.z(o, 'flags')), season=ms(m, i.z(o, 'season')), lambda_bits=mval(m, z3.fpToIEEEBV(i.get(o, 'lambda'))))
class WriteNewHeader8K(WriteNewHeader): sz = 8192
class WriteNewHeader16K(WriteNewHeader): sz = 16384
class WriteNewHeader32K(WriteNewHeader): sz = 32768
class WriteNewHeader64K(WriteNewHeader): sz = 65536
class SeasonLemma(SlotLemma):
    name = 'lemma: rounding the season up to whole pages'
    def run(self, ex, res):
        st = State(ex); s, b, i, a, q = z3.Ints('s b i a q')
        for e in (s >= 0, b >= 1, i >= 1, a >= 0, q >= 0, a * b <= s, s < a * b + b, q * i <= a, a < q * i + i): st.assume(e)          # a = s / b, q = a / i
        ex.obligation(st, 'a + 1 <= (q + 1) * i', a + 1 <= q * i + i, 'lemma')
        ex.obligation(st, 's < (s / b / i + 1) * b * i', s < (q * i + i) * b, 'lemma')
        ex.obligation(st, 's / b / i <= s', z3.And(q <= a, a <= s), 'lemma')
        s3 = State(ex); n = z3.Int('n')
        for e in (s >= 0, b >= 1, i >= 1, n >= 0, a >= 0, q >= 0, a * b <= s, s < a * b + b, q * i <= a, a < q * i + i, n * b * i < s): s3.assume(e)
        ex.obligation(s3, 'n * i <= s / b', n * i <= a, 'lemma'); ex.obligation(s3, 'n * b * i < s => n <= s / b / i', n <= q, 'lemma')
        s2 = State(ex)
        for e in (b >= 1, i >= 1, b < (1 << 16), i < (1 << 30), q >= 0, q < (1 << 30), (q * i) <= (1 << 30)): s2.assume(e)
        ex.obligation(s2, 'no overflow', (q * i + i) * b < (1 << 62), 'lemma')
class MmOpen(FWC):
    dem = 'istat::MmapImpl::open(char const*, int)'; what = 'Mmap::open'
    def go(self, ex, st, w, a): r = fresh('fd', 32); st.setg('opened', r >= 0); st.setg('oflags', bv(a[2], 32)); return [Outcome('ret', st, r)]
class MmMap(FWC):
    dem = 'istat::MmapImpl::map(int, long, unsigned long, bool)'; what = 'Mmap::map'
    def go(self, ex, st, w, a):
        self.own(ex, st, w, a); ex.obligation(st, 'the header is mapped, whole, from the start of the file', z3.And(bv(a[2], 64) == 0, bv(a[3], 64) == w.L.size(HDR)), 'pre')
        s2 = st.clone(); s2.setg('nomap', True); st.setg('hdrmapped', True); return [Outcome('ret', s2, NULL), Outcome('ret', st, Ptr(w.hdr_r))]
class NewHeader(FWC):
    """writeNewHeader seen from open: replaces the content of the file (its own contract says by what), or fails"""
    dem = WriteNewHeader.dem; what = 'StatFile::writeNewHeader'
    def go(self, ex, st, w, a):
        ex.obligation(st, 'a new header is only written into an empty file, or when creation is forced', z3.Or(st.ghost['len'] == 0, ex.force), 'pre')
        s2 = st.clone(); s2.setg('newhdr', 'failed'); n = fresh('newlen', 64); st.assume(z3.And(n >= 0, n < (1 << 60))); st.setg('newhdr', 'written'); st.setg('len', n); s2.setg('len', fresh('newlen', 64))
        return [Outcome('ret', st, None), Outcome('throw', s2, Exc('std::runtime_error'))]
OLD = [f for f in 'flags cfg_interval hdr_size page_size page_count first_bucket last_bucket last_time cumulative_count last_cumulative_clear_time file_create_time fixed_count rd_version'.split()]
class OpenExisting(FC):
    dem = 'istat::StatFile::open(' + lib.STR + ' const&, istat::StatFile::Settings const*, bool, bool)'
    uses = (Truncate, Seek, Write, Close, MmOpen, MmMap, NewHeader); libs = (lib.base, lib.opaque_strings); intfirst = True; create = False
    def setup(self, ex):
        ex.fixed_clock = True; st = State(ex); w = ex.world = FW(self.C, ex, st); now_ghost(ex, st); lib.h_sysconf(ex, st, [], None)
        w.h.get(st, 'lambda'); w.h.get(st, 'season'); ex.force = z3.Bool('forceCreate')
        return st, [Ptr(w.self_r), Ptr(w.path), Ptr(w.init_r) if self.create else NULL, z3.Bool('forUpdate'), ex.force]
    def requires(self, ex, st, a): return [('the file has a length', z3.And(st.ghost['len'] >= 0, st.ghost['len'] < (1 << 60)))]
    def bad(self, ex, o):
        w = ex.world; H = lambda f: w.h.z(o, f); cur = B(8)
        magic = z3.And([bv(ex.load(o, w.h.p.plus(k), T8), 8) == bv(ex.load(o, ex.global_ptr(None, "_ZN5istat10file_magicE").plus(k), T8), 8) for k in range(16)])
        return z3.Or(z3.Not(magic), H('rd_version') > 8, H('page_size') < o.ghost['pagesz'], z3.And(H('hdr_size') != w.L.size(HDR), H('cr_version') == 8))
    def modifies(self, ex, st, a):
        w = ex.world; return {(w.self_r, o) for p, o, k in self.L.leaves(SF) if p.split('.')[0].split('[')[0] in ('settings_', 'fileHeader_', 'fd_', 'fileWritable_', 'pages', 'expBucket', 'lruNextPage_', 'bucketsPerPage_', 'bucketCount_')} | {('ghost', k) for k in st.ghost} | {('ghost', k) for k in ('hdrmapped', 'nomap', 'newhdr', 'touched', 'oflags')} | {w.h.key(f) for f in ('name', 'lambda', 'season', 'cr_version')}
    def same(self, ex, o, st, fs): w = ex.world; return z3.And([w.h.z(st, f) == w.h.z(o, f) for f in fs])
    def fsame(self, ex, o, st): w = ex.world; return z3.And(w.h.z(st, 'season') == w.h.z(o, 'season'), z3.Or(w.h.get(st, 'lambda') == w.h.get(o, 'lambda')))
    def ensures(self, ex, o, st, a, r):
        w = ex.world; g = st.ghost; H = lambda f: w.h.z(st, f); s = lambda f: w.sf.z(st, f); bad = self.bad(ex, o); v = w.h.z(o, 'cr_version'); ps, pc = H('page_size'), H('page_count')
        out = [('a file that could not be opened or mapped is refused', z3.And(g['opened'], z3.BoolVal(bool(g.get('hdrmapped'))))), ('foreign or incompatible content is refused', z3.Not(bad)), ('the file is long enough for all pages', z3.Or(g['len'] >= ps * (pc + 1), g['failed'])),
               ('a failure to extend the file is an error', z3.Not(g['failed'])), ('the file stays open', z3.BoolVal(g['closed'] == 0)), ('nothing that is stored changes', self.same(ex, o, st, OLD)),
               ('versions from 5 on keep their blend and season', z3.Implies(v >= 5, self.fsame(ex, o, st))), ('older versions get the default blend and season', z3.Implies(v < 5, z3.And(H('season') == 86400, w.h.get(st, 'lambda') == z3.FPVal(0.9, F64)))),
               ('the settings are those of the file', z3.And(s('settings_.intervalTime') == w.h.z64(st, 'cfg_interval'), s('settings_.flags') == H('flags'), s('settings_.season') == H('season'), s('settings_.fixed_count') == H('fixed_count'), s('settings_.numSamples') == s('bucketCount_'), s('bucketsPerPage_') == z3.UDiv(ps, B(32)), s('bucketCount_') == pc * s('bucketsPerPage_'))),
               ('the file is only ever extended', z3.Or(z3.Not(g['cut']), z3.BoolVal(g.get('newhdr') is not None)))] + [('nothing is cached yet', z3.And([z3.BoolVal(self.isnull(w.sf.get(st, 'pages[%d].ptr' % i))) for i in range(3)] + [w.sf.z(st, 'expBucket[%d].count_' % i) == 0 for i in range(3)]))]
        return out
    def isnull(self, p): return p == 0 or isinstance(p, Ptr) and p.r is None
    def throws(self, ex, o, st, a, e):
        w = ex.world; g = st.ghost; new = g.get('newhdr') is not None
        ext = z3.Or(g['failed'])
        return [('only a file that cannot be opened, mapped or extended, or with foreign or incompatible content, is refused', z3.Or(z3.Not(g['opened']), z3.BoolVal(bool(g.get('nomap'))), self.bad(ex, o), ext, z3.BoolVal(g.get('newhdr') == 'failed'))),
                ('the file is not changed by refusing it', z3.And(ext if self.extended(g) else z3.BoolVal(True), self.same(ex, o, st, OLD + ['cr_version']), self.fsame(ex, o, st)))]
    def extended(self, g): return bool(g.get('touched')) and g.get('newhdr') is None
class OpenOrCreate(OpenExisting): create = True

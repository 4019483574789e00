"""Contracts of the mapping layer (lib/Mmap.cpp, class istat::MmapImpl).
The operating system's file is a ghost: a byte array by position, and a current position.  One arbitrary byte KB of a mapping is followed."""
import z3
from irvc.spec import *
from irvc import lib
from .statfile import TUS, B

MI = 'istat::MmapImpl'; INFO = 'istat::MmapInfo'; FDBIT = 0x40000000
KB = z3.BitVec('KB', 64); DISK = z3.Array('disk_bytes', BV64, BV8)
class MW:
    def __init__(self, C, ex, st):
        self.L = C.L; self.r = rec_region(C.L, MI, 'MmapImpl'); self.o = Obj(ex, C.L, MI, Ptr(self.r)); ex.objects = [self.r]; self.ex = ex
        self.hs = C.L.size(INFO); ex.store(st, Ptr(self.r), TP, ex.global_ptr(None, '_ZTVN5istat8MmapImplE').at(16), check=False)
        st.setg('pos', z3.BitVec('pos0', 64)); st.setg('io', ()); st.setg('freed', ()); st.setg('byte', z3.BitVec('byte0', 8)); st.setg('sized', ())
    def block(self, name, size):
        r = Region(name, size=None, lazy=True, kind='heap'); r.symsize = size; r.leaves = None; r.on_set = self.on_set; self.blk = r
        self.b = Obj(self.ex, self.L, INFO, Ptr(r)); return r
    def dataoff(self, p):
        """offset of a pointer into the data part of the block"""
        if not (isinstance(p, Ptr) and p.r is getattr(self, 'blk', None)): return None
        return p.off.z3() - self.hs
    def on_set(self, ex, st, p, val, n):
        o = self.dataoff(p); n = bv(n, 64)
        if o is None: return False
        ex.obligation(st, 'filling stays inside the mapping', z3.And(o >= 0, n >= 0, o <= st.ghost['bsize'] - n, n <= st.ghost['bsize']), 'safety')
        st.setg('byte', z3.If(z3.And(KB >= o, KB - o < n), bv(val, 8), st.ghost['byte'])); return True
def sysfd(ex): return ex.fdv & ~FDBIT
def h_malloc(ex, st, a, ctx):
    w = ex.world; n = bv(a[0], 64); r = w.block('mapping', n); lib.assumed(ex, 'malloc succeeds')
    st.setg('bsize', n - w.hs); st.setg('byte', z3.FreshConst(BV8, 'heapjunk')); return Ptr(r)
def h_free(ex, st, a, ctx):
    w = ex.world; ok = isinstance(a[0], Ptr) and a[0].r is w.blk and a[0].off.const() == 0
    ex.obligation(st, 'the block that was allocated is freed, once', z3.BoolVal(ok and not st.ghost['freed']), 'safety'); st.setg('freed', st.ghost['freed'] + (1,)); return None
def h_lseek(ex, st, a, ctx):
    w = ex.world; lib.assumed(ex, 'lseek64/read/write/ftruncate of the C library behave as documented'); wh = bv(a[2], 32); ex.obligation(st, 'the right descriptor, without the marker bit, is used', bv(a[0], 32) == sysfd(ex), 'pre')
    r = fresh('lseek', 64); st.assume(z3.Implies(z3.And(wh == 0, bv(a[1], 64) >= 0), r == bv(a[1], 64))); st.setg('pos', r); st.setg('sought', st.ghost.get('sought', ()) + ((wh, bv(a[1], 64)),)); return r
def h_read(ex, st, a, ctx):
    w = ex.world; n = bv(a[2], 64); ex.obligation(st, 'the right descriptor, without the marker bit, is used', bv(a[0], 32) == sysfd(ex), 'pre')
    r = fresh('read', 64); st.assume(z3.And(r >= -1, z3.Implies(n >= 0, r <= n), z3.Implies(n < 0, r == -1))); o = w.dataoff(a[1])
    if o is None: st.setg('io', st.ghost['io'] + (('read', a[1], n, st.ghost['pos']),)); return r
    ex.obligation(st, 'reading stays inside the mapping', z3.And(o >= 0, n >= 0, o <= st.ghost['bsize'] - n, n <= st.ghost['bsize']), 'safety')
    got = z3.If(r < 0, B(0), r)
    st.setg('byte', z3.If(z3.And(KB >= o, KB - o < got), z3.Select(DISK, st.ghost['pos'] + KB - o), st.ghost['byte'])); st.setg('io', st.ghost['io'] + (('readmap', o, n, st.ghost['pos'], r),)); return r
def h_write(ex, st, a, ctx):
    n = bv(a[2], 64); ex.obligation(st, 'the right descriptor, without the marker bit, is used', bv(a[0], 32) == sysfd(ex), 'pre')
    st.setg('io', st.ghost['io'] + (('write', a[1], n, st.ghost['pos']),)); r = fresh('write', 64); st.assume(z3.And(r >= -1, z3.Implies(n >= 0, r <= n))); return r
def h_ftruncate(ex, st, a, ctx):
    ex.obligation(st, 'the right descriptor, without the marker bit, is used', bv(a[0], 32) == sysfd(ex), 'pre'); r = fresh('ftruncate', 32); st.setg('sized', st.ghost['sized'] + (('ftruncate', bv(a[1], 64), r),)); return r
def h_falloc(ex, st, a, ctx):
    ex.obligation(st, 'the right descriptor, without the marker bit, is used', bv(a[0], 32) == sysfd(ex), 'pre'); r = fresh('fallocate', 32); st.setg('sized', st.ghost['sized'] + (('fallocate', bv(a[1], 64), bv(a[2], 64), r),)); return r
def h_closefd(ex, st, a, ctx):
    ex.obligation(st, 'the right descriptor, without the marker bit, is used', bv(a[0], 32) == sysfd(ex), 'pre'); st.setg('io', st.ghost['io'] + (('close',),)); return fresh('close', 32)
def h_open(ex, st, a, ctx):
    r = fresh('open', 32); st.assume(z3.And(r >= -1, r < FDBIT)); st.setg('io', st.ghost['io'] + (('open', a[0], bv(a[1], 32), r),)); return r
def posix(ex):
    for n, h in (('malloc', h_malloc), ('free', h_free), ('lseek64', h_lseek), ('lseek', h_lseek), ('read', h_read), ('write', h_write), ('ftruncate64', h_ftruncate), ('ftruncate', h_ftruncate), ('posix_fallocate64', h_falloc), ('posix_fallocate', h_falloc), ('close', h_closefd), ('open64', h_open), ('open', h_open)): ex.add_lib(n, h)
class MC(FC):
    libs = (posix, lib.base, lib.opaque_strings); G = ('pos', 'io', 'freed', 'byte', 'sized', 'bsize', 'sought'); counters = ()
    def setup(self, ex):
        st = State(ex); w = ex.world = MW(self.C, ex, st); ex.fdv = z3.BitVec('fd', 32); return st, [Ptr(w.r)] + self.mkargs(ex, st)
    def badfd(self, ex): return z3.Or(ex.fdv < 0, ex.fdv & FDBIT == 0)
    def modifies(self, ex, st, a): return {('ghost', k) for k in self.G} | {ex.world.o.key(k) for k in self.counters}
    def count(self, ex, o, st): w = ex.world; return [('the operation is counted (%s)' % k, w.o.z(st, k) == w.o.z(o, k) + 1) for k in self.counters if k != 'hint_']
    def throws(self, ex, o, st, a, e): return [('only a bad descriptor is refused, before anything is done', z3.And(self.badfd(ex), z3.BoolVal(not st.ghost['io'] and not st.ghost['freed'] and not st.ghost['sized'])))]
    def ensures(self, ex, o, st, a, r): return [('a bad descriptor is refused', z3.Not(self.badfd(ex)))] + self.count(ex, o, st) + self.post(ex, o, st, a, r)
class Map(MC):
    dem = MI + '::map(int, long, unsigned long, bool)'; counters = ('nMaps_',)
    def mkargs(self, ex, st): return [ex.fdv, z3.BitVec('off', 64), z3.BitVec('size', 64), z3.Bool('writable')]
    def requires(self, ex, st, a): return [('sizes', z3.And(a[2] >= 0, a[2] < (1 << 50), a[3] > 0, a[3] < (1 << 40), KB >= 0, KB < a[3]))]
    def post(self, ex, o, st, a, r):
        w = ex.world; b = getattr(w, 'blk', None); rd = [x for x in st.ghost['io'] if x[0] == 'readmap']
        if b is None or len(rd) != 1 or not isinstance(r, Ptr) or r.r is not b: return [('a block is allocated and filled by one read', False)]
        _, o0, n, pos, got = rd[0]
        return [('the caller gets the data after the bookkeeping', w.dataoff(r) == 0), ('the block has room for the mapping', st.ghost['bsize'] >= a[3]), ('position, size and descriptor are remembered', z3.And(w.b.z(st, 'offset') == a[2], w.b.z(st, 'size') == a[3], w.b.z(st, 'fd') == ex.fdv)),
                ('the mapping holds the bytes of the file at its position, and zeroes where the file has none', st.ghost['byte'] == z3.If(KB < z3.If(got < 0, B(0), got), z3.Select(DISK, a[2] + KB), z3.BitVecVal(0, 8))), ('the whole mapping is read', z3.And(o0 == 0, n == a[3], pos == a[2]))]
class WB(MC):
    frees = False
    def setup(self, ex):
        self.mkargs = lambda ex, st: []; st, a = MC.setup(self, ex); w = ex.world; n = z3.BitVec('bsize', 64); w.block('mapping', n + w.hs); st.setg('bsize', n); st.setg('byte', z3.BitVec('byte', 8))
        for f in ('offset', 'size', 'fd'): w.b.get(st, f)
        w.b.set(st, 'fd', ex.fdv); return st, [Ptr(w.r), Ptr(w.blk, Off(w.hs)), z3.BitVec('size', 64)] + self.more()
    def more(self): return []
    def requires(self, ex, st, a):
        w = ex.world; return [('a mapping made by map', z3.And(w.b.z(st, 'offset') >= 0, w.b.z(st, 'offset') < (1 << 50), w.b.z(st, 'size') > 0, w.b.z(st, 'size') == st.ghost['bsize'], st.ghost['bsize'] < (1 << 40)))]
    def post(self, ex, o, st, a, r):
        w = ex.world; wr = [x for x in st.ghost['io'] if x[0] == 'write']
        if len(wr) != 1 or len(st.ghost['io']) != 1: return [('the mapping is written exactly once', False)]
        _, p, n, pos = wr[0]; d = w.dataoff(p)
        return [('all its bytes are written at its own position', z3.And(d == 0, n == w.b.z(o, 'size'), pos == w.b.z(o, 'offset')) if d is not None else False), ('its bytes are written as they are', st.ghost['byte'] == o.ghost['byte']), ('the memory is released exactly when unmapping', z3.BoolVal(len(st.ghost['freed']) == (1 if self.frees else 0))), ('reports success', bo(r))]
class Unmap(WB):
    dem = MI + '::unmap(void const*, unsigned long)'; counters = ('nUnmaps_',); frees = True
class Flush(WB):
    dem = MI + '::flush(void const*, unsigned long, bool)'
    def more(self): return [z3.Bool('immediate')]
class Truncate(MC):
    dem = MI + '::truncate(int, long)'
    def mkargs(self, ex, st): return [ex.fdv, z3.BitVec('size', 64)]
    def post(self, ex, o, st, a, r):
        s = st.ghost['sized']; ft = [x for x in s if x[0] == 'ftruncate']; fa = [x for x in s if x[0] == 'fallocate']; r = bv(r, 32); w = ex.world
        if len(ft) != 1: return [('the file is resized once', False)]
        return [('the file gets the size asked for', ft[0][1] == a[2]), ('a failure is reported', z3.Implies(ft[0][2] < 0, r < 0)), ('space is reserved only for the whole file, when asked', z3.And([z3.And(x[1] == 0, x[2] == a[2], w.o.z(o, 'allocationStrategy_') == 1, r == x[3]) for x in fa] + [z3.BoolVal(True)])), ('without reserving, success is reported', z3.Implies(z3.BoolVal(not fa), r == ft[0][2]))]
class Close(MC):
    dem = MI + '::close(int)'; counters = ('nCloses_',)
    def mkargs(self, ex, st): return [ex.fdv]
    def post(self, ex, o, st, a, r): return [('the descriptor is closed once', z3.BoolVal(st.ghost['io'] == (('close',),)))]
class OpenFd(MC):
    dem = MI + '::open(char const*, int)'; counters = ('nOpens_',)
    def mkargs(self, ex, st): return [Ptr(Region('name', size=None, lazy=True)), z3.BitVec('flags', 32)]
    def count(self, ex, o, st): return []
    def ensures(self, ex, o, st, a, r):
        w = ex.world; io = st.ghost['io']; r = bv(r, 32)
        if len(io) != 1 or io[0][0] != 'open': return [('the file is opened once', False)]
        fd = io[0][3]; return [('a descriptor is marked, a failure is reported as such', z3.If(fd >= 0, r == fd | FDBIT, r < 0)), ('opens are counted', w.o.z(st, 'nOpens_') == w.o.z(o, 'nOpens_') + z3.If(fd >= 0, B(1), B(0))), ('opened with the flags asked for', io[0][2] == a[2])]
class ReadFd(MC):
    dem = MI + '::read(int, void*, long)'
    def mkargs(self, ex, st): return [ex.fdv, Ptr(Region('buf', size=None, lazy=True)), z3.BitVec('amt', 64)]
    def post(self, ex, o, st, a, r):
        io = st.ghost['io']; return [('one read of what was asked', z3.And(z3.BoolVal(len(io) == 1 and io[0][0] in ('read', 'write') and io[0][0] == self.what and io[0][1].r is a[2].r), io[0][2] == a[3], io[0][1].off.z3() == 0) if len(io) == 1 else False)]
    what = 'read'
class WriteFd(ReadFd): dem = MI + '::write(int, void*, long)'; what = 'write'
class SeekFd(MC):
    dem = MI + '::seek(int, long, int)'
    def mkargs(self, ex, st): return [ex.fdv, z3.BitVec('offset', 64), z3.BitVec('whence', 32)]
    def post(self, ex, o, st, a, r):
        s = st.ghost.get('sought', ()); return [('one seek to where was asked', z3.And(s[0][0] == a[3], s[0][1] == a[2], bv(r, 64) == st.ghost['pos']) if len(s) == 1 else False)]

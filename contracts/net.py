"""Contracts of the delays between attempts (daemon/EagerConnection.cpp, daemon/StatServer.cpp), the ten-second window (daemon/Bucketizer.cpp) and flush requests (daemon/StatServer.cpp)."""
import z3
from irvc.spec import *
from irvc import lib
from irvc import strings as S
from .statfile import B, BK
TUS = ['daemon/EagerConnection.cpp', 'daemon/StatServer.cpp', 'daemon/Bucketizer.cpp', 'lib/Bucket.cpp']
EC = 'EagerConnection'
class W: pass
def boosted(ex):
    """boost objects (timers, binders, shared pointers) as far as delays are concerned"""
    def dur(mul):
        def h(ex, st, a, ctx):
            p = a[1]; v = bv(ex.load(st, p, T32, ctx.fr, ctx.inst), 32) if isinstance(p, Ptr) else bv(p, 64) if not (z3.is_expr(p) and p.size() == 32) else p
            v = v if v.size() == 64 else z3.SignExt(32, v); st.setg('duration', v * mul)
        return h
    ex.add_lib(lambda d: 'boost::posix_time::seconds::seconds<' in d, dur(1000)); ex.add_lib(lambda d: '::subsecond_duration<' in d and '1000l>::' in d.replace('1000L>', '1000l>'), dur(1))
    def expires(ex, st, a, ctx): lib.assumed(ex, 'boost timers wait for the duration given'); st.setg('expires', st.ghost['duration']); return None if ctx.inst.ty.kind == 'void' else fresh_of('n', ctx.inst.ty)
    def wait(ex, st, a, ctx):
        st.setg('waits', st.ghost['waits'] + 1); st.setg('waited', st.ghost['expires'])
        return None if ctx.inst.ty.kind == 'void' else fresh_of('n', ctx.inst.ty)
    ex.add_lib(lambda d: '::expires_from_now(' in d, expires); ex.add_lib(lambda d: '::async_wait<' in d, wait)
    ex.add_lib('rand', lambda ex, st, a, ctx: (lambda v: (st.assume(v >= 0), v)[1])(fresh('rand', 32)))
    ex.add_lib(lambda d: 'boost::' in d, lib.h_nop)
class TryLater(FC):
    dem = EC + '::tryLater()'; fpmode = 'native'; libs = (S.strings, boosted, lib.base, lib.opaque_strings)
    rec = EC
    def setup(self, ex):
        st = State(ex); w = ex.world = W(); self.r = rec_region(self.L, self.rec, 'conn'); self.o = Obj(ex, self.L, self.rec, Ptr(self.r)); ex.objects = [self.r]
        for k in ('duration', 'expires', 'waits', 'waited'): st.setg(k, B(0))
        return st, self.args(ex)
    def args(self, ex): return [Ptr(self.r)]
    def b(self, st): return self.o.z(st, 'backoff_')
    def requires(self, ex, st, a): return [('the delay is within its bounds', z3.And(self.b(st) >= 1, self.b(st) <= 195))]
    def modifies(self, ex, st, a): return {self.o.key(k) for k in ('backoff_', 'successfulWritesDuringBackoff_', 'tryLaterTime_', 'tryingLater_')} | {('ghost', k) for k in ('duration', 'expires', 'waits', 'waited')}
    def ensures(self, ex, o, st, a, r):
        g = st.ghost; host = [S.length(ex, o, self.o.ptr(k)) for k in ('resolveHost_._M_dataplus._M_p', 'resolvePort_._M_dataplus._M_p')]; known = z3.And(host[0] != 0, host[1] != 0); was = z3.Extract(0, 0, self.o.z(o, 'tryingLater_')) == 1; b0 = self.b(o); b1 = self.b(st)
        go = z3.And(known, z3.Not(was)); base = z3.If(b0 + 1 + (b0 + 1) / 2 > 180, z3.BitVecVal(180, 32), b0 + 1 + (b0 + 1) / 2)
        return [('the delay stays within its bounds', z3.And(b1 >= 1, b1 <= 195)), ('the delay grows by half, up to three minutes, and a random part below sixteen seconds', z3.If(go, z3.And(b1 >= base, b1 <= base + z3.If(base < 30, z3.BitVecVal(3, 32), z3.BitVecVal(15, 32))), b1 == b0)),
                ('one attempt is scheduled after the delay, unless one is pending', z3.If(go, z3.And(g['waits'] == 1, g['waited'] == z3.SignExt(32, b1) * 1000), g['waits'] == 0)), ('an attempt is pending from then on', z3.Implies(known, z3.Extract(0, 0, self.o.z(st, 'tryingLater_')) == 1)),
                ('a failure restarts the count of successful writes', self.o.z(st, 'successfulWritesDuringBackoff_') == 1)]
class ResetBackoff(TryLater):
    dem = EC + '::resetBackoffOnSuccessfulWrites()'
    def requires(self, ex, st, a): return TryLater.requires(self, ex, st, a) + [('writes counted', z3.And(self.w(st) >= 1, self.w(st) < (1 << 30)))]
    def w(self, st): return self.o.z(st, 'successfulWritesDuringBackoff_')
    def ensures(self, ex, o, st, a, r):
        b0, b1, w0, w1 = self.b(o), self.b(st), self.w(o), self.w(st)
        return [('only the third successful write in a row brings the delay back to its start', b1 == z3.If(z3.And(b0 != 1, w0 >= 3), z3.BitVecVal(1, 32), b0)), ('a successful write is counted while the delay is raised', z3.Implies(b0 != 1, w1 == w0 + 1)), ('nothing is scheduled', st.ghost['waits'] == 0)]
class UdpBackoff(TryLater):
    dem = 'StatServer::reschedule_udp_recv(bool, %s const&)' % lib.STR; rec = 'StatServer'
    def args(self, ex):
        def again(ex, st, a, ctx): st.setg('again', st.ghost['again'] + 1)
        ex.add_contract('StatServer::recvOneUdp()', lambda ex, st, a, ctx: (again(ex, st, a, ctx), [Outcome('ret', st, None)])[1])
        return [Ptr(self.r), z3.Bool('success'), Ptr(Region('reason', size=32, lazy=True))]
    def setup(self, ex): st, a = TryLater.setup(self, ex); st.setg('again', B(0)); return st, a
    def b(self, st): return self.o.z(st, 'udpBackoffMs_')
    def requires(self, ex, st, a): return [('the delay is within its bounds', z3.And(self.b(st) >= 5, self.b(st) <= 2000))]
    def modifies(self, ex, st, a): return {self.o.key('udpBackoffMs_')} | {('ghost', k) for k in ('duration', 'expires', 'waits', 'waited', 'again')}
    def ensures(self, ex, o, st, a, r):
        ok = bo(a[1]); b0, b1 = self.b(o), self.b(st); g = st.ghost; d = z3.If(b0 * 2 > 2000, z3.BitVecVal(2000, 32), b0 * 2)
        return [('the delay stays within its bounds', z3.And(b1 >= 5, b1 <= 2000)), ('after an error the delay doubles up to two seconds, and receiving goes on after it', z3.Implies(z3.Not(ok), z3.And(b1 == d, g['waits'] == 1, g['waited'] == z3.SignExt(32, d), g['again'] == 0))),
                ('after a datagram receiving goes on at once with the shortest delay', z3.Implies(ok, z3.And(b1 == 5, g['waits'] == 0, g['again'] == 1)))]
# ------------------------------------------------------------------------------------------------ the ten-second window of an agent (C30)
BZ = 'Bucketizer'
def h_update(ex, st, a, ctx):
    w = ex.world; ex.obligation(st, 'what is added is the bucket given', z3.BoolVal(isinstance(a[1], Ptr) and a[1].r is w.given), 'pre')
    if not (isinstance(a[0], Ptr) and a[0].r is w.bz): raise Unsupported('another bucket')
    st.setg('n', st.ghost['n'] + 1); st.setg('at', bv(a[0].off.value(), 64)); lib.assumed(ex, 'Bucket::update is its contract (C01)'); return []
class BzUpdate(FC):
    dem = BZ + '::update(istat::Bucket const&)'; lightfirst = True; libs = (S.strings, lib.base, lib.opaque_strings)
    def setup(self, ex):
        st = State(ex); w = ex.world = W(); w.bz = rec_region(self.L, BZ, 'window'); w.given = rec_region(self.L, BK, 'given'); self.o = Obj(ex, self.L, BZ, Ptr(w.bz)); ex.objects = [w.bz, w.given]; st.setg('n', B(0)); st.setg('at', B(0))
        def upd(ex, st, a, ctx): h_update(ex, st, a, ctx); return [Outcome('ret', st, None)]
        ex.add_contract('istat::Bucket::update(istat::Bucket const&)', upd)
        w.q = z3.BitVec('tq', 64), z3.BitVec('tr', 64), z3.BitVec('nq', 64); tq, tr, nq = w.q
        self.o.set(st, 'now', nq * 10); Obj(ex, self.L, BK, Ptr(w.given)).set(st, 'time_', tq * 10 + tr); return st, [Ptr(w.bz), Ptr(w.given)]
    def t(self, ex, st): return Obj(ex, self.L, BK, Ptr(ex.world.given)).z(st, 'time_')
    def requires(self, ex, st, a):
        tq, tr, nq = ex.world.q; lim = 1 << 57; return [('times', z3.And(nq >= 0, nq < lim, tq >= 0, tq < lim, tr >= 0, tr < 10)), ('lemma instance', z3.SRem(tq * 10 + tr, B(10)) == tr), ('lemma instance: division', (tq * 10 + tr - z3.SRem(tq * 10 + tr, B(10)) - nq * 10) / B(10) == tq - nq)]
    def modifies(self, ex, st, a): m = self.o.ptr('update_err_msg_._M_dataplus._M_p'); return {('ghost', 'n'), ('ghost', 'at'), ('ghost', S.key(m)), (S.chars(ex, m), 0)}
    def ensures(self, ex, o, st, a, r):
        now = self.o.z(o, 'now'); t = self.t(ex, o); tq, tr, nq = ex.world.q; d = (tq - nq) * 10 + tr; base = self.L.offset(BZ, 'buckets[0].' + 'sum_' if False else 'buckets[0].s_sum_') if False else self.base(); n = self.L.size(BK); g = st.ghost
        k = tq - nq + 3; inside = z3.And(tq - nq >= -3, tq - nq <= 1)
        return [('a bucket within the window goes into its own ten seconds, once', z3.Implies(inside, z3.And(g['n'] == 1, g['at'] == base + k * n))), ('a bucket outside the window goes nowhere', z3.Implies(z3.Not(inside), g['n'] == 0)),
                ('an accepted bucket leaves no error message', z3.Implies(inside, S.length(ex, st, self.o.ptr('update_err_msg_._M_dataplus._M_p')) == 0))]
    def base(self): return min(off for p, off, k in self.L.leaves(BZ) if p.startswith('buckets'))
class BzMake(BzUpdate):
    dem = BZ + '::Bucketizer(long&)'; name = 'Bucketizer::Bucketizer'
    def setup(self, ex):
        st, a = BzUpdate.setup(self, ex); w = ex.world; w.t = Region('time', size=8, lazy=True); w.t.leaves = {0: T64}; w.t.rec = None; return st, [a[0], Ptr(w.t)]
    def tm(self, ex, st): return bv(ex.load(st, Ptr(ex.world.t), T64, check=False), 64)
    def requires(self, ex, st, a): return [('time', z3.And(self.tm(ex, st) >= 0, self.tm(ex, st) < (1 << 61)))]
    def modifies(self, ex, st, a): return BzUpdate.modifies(self, ex, st, a) | {(ex.world.bz, off) for p, off, k in self.L.leaves(BZ) if not p.startswith('update_err')}
    def ensures(self, ex, o, st, a, r):
        t = self.tm(ex, o); out = [('the window is that of the time given, in whole ten seconds', self.o.z(st, 'now') == t - z3.SRem(t, B(10)))]; n = self.L.size(BK)
        for k in range(5):
            b = Obj(ex, self.L, BK, Ptr(ex.world.bz, Off(self.base() + k * n))); out.append(('bucket %d starts empty' % k, z3.And(b.z(st, 'count_') == 0, z3.fpIsZero(b.z(st, 'min_')), z3.fpIsZero(b.z(st, 'max_')))))
        return out
class BzMakeWith(BzMake):
    dem = BZ + '::Bucketizer(long&, istat::Bucket const&)'; name = 'Bucketizer::Bucketizer (with a first sample)'
    def setup(self, ex):
        st, a = BzMake.setup(self, ex); w = ex.world; st.setg('firsts', B(0)); st.setg('window', B(0))
        def first(ex, st, a, ctx):
            if not (isinstance(a[0], Ptr) and a[0].r is w.bz): raise Unsupported('another window')
            ex.obligation(st, 'what is added is the sample given', z3.BoolVal(isinstance(a[1], Ptr) and a[1].r is w.given), 'pre'); st.setg('firsts', st.ghost['firsts'] + 1); st.setg('window', self.o.z(st, 'now')); return [Outcome('ret', st, None)]
        ex.add_contract(BZ + '::update(istat::Bucket const&)', first); return st, a + [Ptr(w.given)]
    def modifies(self, ex, st, a): return BzMake.modifies(self, ex, st, a) | {('ghost', 'firsts'), ('ghost', 'window')}
    def ensures(self, ex, o, st, a, r): t = self.tm(ex, o); return BzMake.ensures(self, ex, o, st, a, r) + [('the first sample is added once, to the window in whole ten seconds', z3.And(st.ghost['firsts'] == 1, st.ghost['window'] == t - z3.SRem(t, B(10))))]
class BzGet(BzUpdate):
    dem = BZ + '::get(int)'
    def setup(self, ex): st, a = BzUpdate.setup(self, ex); return st, [a[0], z3.BitVec('i', 32)]
    def requires(self, ex, st, a): return [('index', z3.And(a[1] >= 0, a[1] < 5))]
    def ensures(self, ex, o, st, a, r): return [('the bucket asked for', bv(r.off.value(), 64) == self.base() + z3.SignExt(32, a[1]) * self.L.size(BK) if isinstance(r, Ptr) and r.r is ex.world.bz else z3.BoolVal(False))]
# ------------------------------------------------------------------------------------------------ flush requests of an agent (C29): what is still to be written on each connection
AF = 'AgentFlushRequest'; NS = z3.BitVec('n_connections', 64); KC = z3.BitVec('KC', 64)
class Afr(FC):
    libs = (lib.base, lib.opaque_strings); autokeep = ('none of them',); unroll = 1
    def setup(self, ex):
        st = State(ex); w = ex.world = W(); w.n = NS; self.r = rec_region(self.L, AF, 'request'); self.o = Obj(ex, self.L, AF, Ptr(self.r)); w.sz = Region('sizes', stride=8, lazy=True); w.sz.leaves = {0: T64}; w.sz.rec = None
        v = 'sizes_._M_impl.'; self.v = v; self.o.set(st, v + '_M_start', Ptr(w.sz)); self.o.set(st, v + '_M_finish', Ptr(w.sz, Off(0, {NS: 8}))); ex.objects = [self.r, w.sz]
        def resize(ex, st, a, ctx):
            lib.assumed(ex, 'std::vector::resize appends copies of the value'); n = bv(a[1], 64); val = bv(ex.load(st, a[2], T64, ctx.fr, ctx.inst) if isinstance(a[2], Ptr) else a[2], 64); A = st.arr(w.sz, 0); old = self.len(ex, st); k = z3.BitVec('k!rs', 64)
            st.setarr(w.sz, 0, z3.Lambda([k], z3.If(z3.And(z3.UGE(k, old), z3.ULT(k, n)), val, z3.Select(A, k)))); self.o.set(st, v + '_M_finish', Ptr(w.sz, Off(0).add(n, 8)))
        ex.add_lib(lambda d: d.startswith('std::vector<unsigned long') and '::resize(' in d, resize); return st, self.args(ex)
    def len(self, ex, st): return bv(self.o.get(st, self.v + '_M_finish').off.div(8).value(), 64)
    def at(self, ex, st, i): return z3.Select(st.arr(ex.world.sz, 0), i)
    def requires(self, ex, st, a): return [('connections', z3.And(NS >= 0, NS < (1 << 20)))]
    def modifies(self, ex, st, a): return {(ex.world.sz, 0), self.o.key(self.v + '_M_finish')}
class AfrAdd(Afr):
    dem = AF + '::add(unsigned long, unsigned long)'
    def args(self, ex): return [Ptr(self.r), z3.BitVec('index', 64), z3.BitVec('n', 64)]
    def requires(self, ex, st, a): return Afr.requires(self, ex, st, a) + [('a connection', z3.ULT(a[1], 1 << 20))]
    def ensures(self, ex, o, st, a, r):
        i, n = bv(a[1], 64), bv(a[2], 64); m = self.len(ex, st)
        return [('the connection has so much to write', self.at(ex, st, i) == n), ('other connections are as before, new ones have nothing to write', z3.Implies(z3.And(z3.ULT(KC, m), KC != i), self.at(ex, st, KC) == z3.If(z3.ULT(KC, NS), self.at(ex, o, KC), B(0)))), ('every connection is kept', m == z3.If(z3.ULT(i, NS), NS, i + 1))]
class AfrDone(Afr):
    dem = AF + '::completed() const'; name = 'AgentFlushRequest::completed (asked)'
    def args(self, ex): return [Ptr(self.r)]
    def modifies(self, ex, st, a): return set()
    def ensures(self, ex, o, st, a, r):
        k = z3.BitVec('k!q', 64); r = bo(r)
        return [('complete only when nothing is left on any connection', z3.Implies(z3.And(r, z3.ULT(KC, NS)), self.at(ex, o, KC) == 0)), ('incomplete only when something is left', z3.Implies(z3.Not(r), z3.Exists([k], z3.And(z3.ULT(k, NS), self.at(ex, o, k) != 0))))]
    def candidates(self, ctx):
        out = [Cand('nothing is left up to %s' % nm, lambda ex, st, vs, g=g: z3.And(z3.ULE(g(ex, st, vs), NS), z3.Implies(z3.ULT(KC, g(ex, st, vs)), self.at(ex, st, KC) == 0))) for nm, g in ctx.numeric()]
        for fn, f in ctx.flags():
            for nm, g in ctx.numeric():
                for pol in (True, False):
                    out.append(Cand('%s tells whether the one before %s is open' % (fn, nm), lambda ex, st, vs, f=f, g=g, pol=pol: (lambda i, x: z3.And(z3.ULE(i, NS), z3.Implies(x, z3.And(i != 0, self.at(ex, st, i - 1) != 0)), z3.Implies(z3.And(z3.Not(x), z3.ULT(KC, i)), self.at(ex, st, KC) == 0)))(g(ex, st, vs), f(ex, st, vs) == pol)))
        return out
class AfrWritten(Afr):
    dem = AF + '::completed(unsigned long, unsigned long)'; name = 'AgentFlushRequest::completed (written)'
    def args(self, ex):
        def done(ex, st, a, ctx):
            r = z3.FreshConst(z3.BoolSort(), 'done'); k = z3.BitVec('k!q', 64); st.assume(z3.Implies(z3.And(r, z3.ULT(KC, NS)), self.at(ex, st, KC) == 0)); st.assume(z3.Implies(z3.Not(r), z3.Exists([k], z3.And(z3.ULT(k, NS), self.at(ex, st, k) != 0)))); ex.rep.used_contracts.add('AgentFlushRequest::completed (asked)')
            return [Outcome('ret', st, r)]
        ex.add_contract(AF + '::completed() const', done); return [Ptr(self.r), z3.BitVec('index', 64), z3.BitVec('n', 64)]
    def ensures(self, ex, o, st, a, r):
        i, n = bv(a[1], 64), bv(a[2], 64); old = self.at(ex, o, i); k = z3.BitVec('k!q', 64); r = bo(r)
        return [('the connection has so much less to write', z3.Implies(z3.ULT(i, NS), self.at(ex, st, i) == z3.If(z3.UGE(n, old), B(0), old - n))), ('other connections are as before', z3.Implies(z3.And(KC != i, z3.ULT(KC, NS)), self.at(ex, st, KC) == self.at(ex, o, KC))),
                ('complete only when nothing is left on any connection', z3.Implies(z3.And(r, z3.ULT(KC, NS)), self.at(ex, st, KC) == 0)), ('incomplete only when something is left', z3.Implies(z3.Not(r), z3.Exists([k], z3.And(z3.ULT(k, NS), self.at(ex, st, k) != 0))))]
class BzLemma:
    """over the integers: the quotients and remainders used as lemma instances in Bucketizer::update"""
    name = 'lemma: ten-second intervals'; dem = None; fpmode = 'uf'; unroll = 1; timeout = 30000; check_overflow = False; candidates = None; decreases = None; uses = (); libs = ()
    def __init__(self, C): pass
    def label(self): return self.name
    def run(self, ex, res):
        q, r, n = z3.Ints('q r n'); st = State(ex)
        for x in (r >= 0, r < 10, q >= 0, n >= 0): st.assume(x)
        ex.obligation(st, '(10 q + r) rem 10 = r', (10 * q + r) % 10 == r, 'lemma'); ex.obligation(st, '(10 q + r - r - 10 n) / 10 = q - n, exactly', z3.And(10 * q + r - r - 10 * n == 10 * (q - n), (10 * (q - n)) / 10 == q - n), 'lemma')

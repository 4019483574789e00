"""Contracts of the framing of stat input (daemon/StatServer.cpp).  K is one arbitrary index of the input."""
import z3
from irvc.spec import *
from irvc import lib
from irvc import strings as S
from .statfile import B
from .strs import Str, STR, W
TUS = ['daemon/StatServer.cpp']
NL = 10; BLACK = z3.BitVec('status_blacklisted', 32)
def line(ex, st, p, m, wt, X, n, K, A, what):
    """a line handed to the handler: p..p+m of the input"""
    g = st.ghost; q = g['th'] + m
    ex.obligation(st, 'the handler gets the next line, whole', z3.And(wt == K - g['th'], z3.ULE(m, n), z3.ULT(q, n), z3.Implies(K == q, S.at(A, K) == NL), z3.Implies(z3.And(z3.UGE(K, g['th']), z3.ULT(K, q)), z3.And(S.at(A, K) != NL, S.at(X, wt) == S.at(A, K)))), 'pre')
    ex.obligation(st, 'no line is handled once the peer is known to be blacklisted', g['black'] == 0, 'pre')
class InputData(Str):
    dem = None; names = ('s',); outs = (); unroll = 1; BL = 2
    name = 'handle_inputData'
    @property
    def dem(self):
        F = self.C.P.by_dem(lambda d: d.startswith('void handle_inputData<boost::_bi::bind_t<void,'))
        if not F: raise KeyError('no handle_inputData for connections')
        return F[0].dem
    def args(self, ex):
        w = ex.world; s = self.p['s']; self.c = Region('consume', size=64, lazy=True); self.h = Region('handle', size=64, lazy=True)
        def consume(ex, st, a, ctx):
            if not (isinstance(a[0], Ptr) and a[0].r is self.c): raise Unsupported('another callback')
            n = bv(ex.load(st, a[1], T64, ctx.fr, ctx.inst), 64) if isinstance(a[1], Ptr) else bv(a[1], 64); m = self.v(ex, st, 's')[0]
            ex.obligation(st, 'no more is consumed than there is', z3.And(z3.ULE(n, m), z3.ULE(st.ghost['tc'] + n, m)), 'pre'); st.setg('tc', st.ghost['tc'] + n); return None
        def handle(ex, st, a, ctx):
            if not (isinstance(a[0], Ptr) and a[0].r is self.h): raise Unsupported('another callback')
            n, K, A = self.v(ex, st, 's'); m, wt, X = S.value(ex, st, a[1]); line(ex, st, None, m, wt, X, n, K, A, '')
            r = fresh('status', 32); st.setg('th', st.ghost['th'] + m + 1); st.setg('black', z3.If(r == self.BL, B(1), B(0))); return r
        ex.add_lib(lambda d: 'bind_t<void, boost::_mfi::mf1<void, ConnectionInfo, unsigned long>' in d and '::operator()' in d, consume)
        ex.add_lib(lambda d: 'bind_t<StatServer::HandleStatus' in d and '::operator()' in d, handle)
        return [s, Ptr(self.c), Ptr(self.h)]
    def setup(self, ex):
        st, a = Str.setup(self, ex)
        for k in ('tc', 'th', 'black'): st.setg(k, B(0))
        return st, a
    def bind(self, a): pass
    def modifies(self, ex, st, a): return {('ghost', k) for k in ('tc', 'th', 'black')}
    def ensures(self, ex, o, st, a, r):
        n, K, A = self.v(ex, o, 's'); g = st.ghost; rest = lambda t: z3.Implies(z3.And(z3.UGE(K, t), z3.ULT(K, n)), S.at(A, K) != NL)
        return [('every line is handled unless the peer is blacklisted', z3.Or(g['black'] == 1, rest(g['th']))), ('everything up to the last line end is consumed', z3.And(z3.ULE(g['tc'], n), rest(g['tc']))),
                ('nothing after the last line end is consumed', z3.Or(g['tc'] == 0, S.at(A, g['tc'] - 1) == NL))]
    def candidates(self, ctx):
        out = []; F = lambda st: self.v(ctx.ex, st, 's')
        out.append(Cand('consumed to a line end', lambda ex, st, vs: (lambda n, K, A, t: z3.And(z3.ULE(t, n), z3.Or(t == 0, S.at(A, t - 1) == NL)))(*F(st), st.ghost['tc'])))
        out.append(Cand('handled as far as consumed', lambda ex, st, vs: z3.Or(st.ghost['black'] == 1, st.ghost['th'] == st.ghost['tc'])))
        out.append(Cand('black is a flag', lambda ex, st, vs: z3.ULE(st.ghost['black'], 1)))
        for nm, g in ctx.numeric():
            if nm.startswith('ghost'): continue
            def c(t, f): out.append(Cand('%s %s' % (nm, t), lambda ex, st, vs, g=g: f(g(ex, st, vs), *F(st), st.ghost)))
            c('is what is consumed', lambda i, n, K, A, G: G['tc'] == i)
            c('is the status', lambda i, n, K, A, G: (i == self.BL) == (G['black'] == 1))
            c('next line end', lambda i, n, K, A, G: z3.If(i == z3.BitVecVal(S.NPOS, 64), z3.Implies(z3.And(z3.UGE(K, G['tc']), z3.ULT(K, n)), S.at(A, K) != NL), z3.And(z3.UGE(i, G['tc']), z3.ULT(i, n), S.at(A, i) == NL, z3.Implies(z3.And(z3.UGE(K, G['tc']), z3.ULT(K, i)), S.at(A, K) != NL))))
            c('looked at', lambda i, n, K, A, G: z3.And(z3.ULE(G['tc'], i), z3.ULE(i, n), z3.Implies(z3.And(z3.UGE(K, G['tc']), z3.ULT(K, i)), S.at(A, K) != NL)))
        return out
UK = z3.BitVec('K in the datagram', 64)
CONN = Region('connection', size=None, lazy=True); CVT = Region('vtable', size=None, lazy=True); CONN.on_ptr = lambda ex, st, r, c: Ptr(CVT); CVT.vt = lambda ex, st, c: FuncPtr('endpointName', None)
def quiet(ex):
    def any_(ex, st, a, ctx):
        t = ctx.inst.ty
        if t.kind == 'void': return None
        if t.kind == 'ptr' and ('operator->' in ctx.dem or '::get() const' in ctx.dem): return Ptr(CONN)
        if t.kind == 'ptr': return a[0] if a and isinstance(a[0], Ptr) else Ptr(Region('object', size=None, lazy=True))
        return fresh_of('any', t)
    ex.add_lib('endpointName', lambda ex, st, a, ctx: Ptr(Region('endpoint name', size=32, lazy=True)))
    ex.add_lib(lambda d: d.startswith('boost::') or ' boost::' in d.split('(')[0] or d.startswith('LogInstance') or d.startswith('DebugOption') or 'ConnectionInfo' in d.split('(')[0] or d.startswith('istat::Log') or ' operator<< ' in d or d.startswith('Log'), any_)
class UdpRecv(FC):
    """a datagram; UK is one arbitrary index of it"""
    dem = 'StatServer::on_udp_recv(boost::system::error_code const&, unsigned long)'; libs = (S.strings, quiet, lib.base, lib.opaque_strings); unroll = 1; autokeep = ('none of them',)
    def setup(self, ex):
        st = State(ex); w = ex.world = W(); self.r = rec_region(self.L, 'StatServer', 'server'); self.o = Obj(ex, self.L, 'StatServer', Ptr(self.r)); ex.objects = [self.r]; self.err = Region('err', size=None, lazy=True)
        self.off, k = [(o, k) for p, o, k in self.L.leaves('StatServer') if p == 'udpBuffer_'][0]; self.size = k[1]
        for k in ('th', 'again', 'cK', 'ok'): st.setg(k, B(0))
        ex.range_ctor = self.ctor
        ex.add_contract('StatServer::handleCmd(%s const&, boost::shared_ptr<ConnectionInfo> const&)' % STR, self.cmd); ex.add_contract('StatServer::reschedule_udp_recv(bool, %s const&)' % STR, self.again)
        w.n = z3.BitVec('bytes', 64); return st, [Ptr(self.r), Ptr(self.err), w.n]
    def buf(self, ex, st): return ex.bytes_leaf(st, self.r, self.off)
    def ctor(self, ex, st, a, ctx):
        p, q = a[1], a[2]
        if not isinstance(p, Ptr) or p.r is not self.r: raise Unsupported('string over another buffer')
        i = z3.simplify(p.off.z3() - self.off)
        if isinstance(q, Ptr):
            if q.r is not self.r: raise Unsupported('string over another buffer')
            n = z3.simplify(q.off.z3() - p.off.z3())
        else: n = bv(q, 64)
        A = self.buf(ex, st); N = ex.world.n
        ex.obligation(st, 'the text lies in the datagram', z3.And(z3.ULE(i, N), z3.ULE(n, N), z3.ULE(i + n, N)), 'safety')
        S.put(ex, st, a[0], (n, UK - i, z3.Lambda([S.KX], z3.Select(A, S.KX + i)))); return None
    def cmd(self, ex, st, a, ctx):
        m, wt, X = S.value(ex, st, a[1]); p = UK - wt; q = p + m; g = st.ghost; n = ex.world.n; A = self.buf(ex, st)
        ex.obligation(st, 'a command is one whole line of the datagram', z3.And(z3.ULE(p, n), z3.ULE(m, n), z3.ULT(q, n), S.at(A, q) == NL, z3.Or(p == 0, S.at(A, p - 1) == NL), z3.Implies(z3.And(z3.UGE(UK, p), z3.ULT(UK, q)), z3.And(S.at(A, UK) != NL, S.at(X, wt) == S.at(A, UK)))), 'pre')
        ex.obligation(st, 'lines are handled in order, each once', z3.UGE(p, g['th']), 'pre'); ex.obligation(st, 'short lines are not handled', z3.UGE(m, 2), 'pre')
        st.setg('cK', g['cK'] + z3.If(z3.And(z3.UGE(UK, p), z3.ULT(UK, q)), B(1), B(0))); st.setg('th', q + 1)
        return [Outcome('ret', st, fresh('status', 32))]
    def again(self, ex, st, a, ctx):
        st.setg('again', st.ghost['again'] + 1); st.setg('ok', z3.If(bo(a[1]), B(1), B(0))); return [Outcome('ret', st, None)]
    def modifies(self, ex, st, a): return {('ghost', k) for k in ('th', 'again', 'ok', 'cK')}
    def long(self, ex, st, i):
        """byte i is part of a line of at least two characters"""
        A = self.buf(ex, st); return z3.And(S.at(A, i) != NL, z3.Or(z3.And(z3.UGT(i, 0), S.at(A, i - 1) != NL), S.at(A, i + 1) != NL))
    def ensures(self, ex, o, st, a, r):
        n = ex.world.n; A = self.buf(ex, st); g = st.ghost; good = z3.And(g['ok'] == 1)
        return [('one more datagram is asked for', g['again'] == 1), ('only a datagram of five bytes or more that ends with a line end is accepted', z3.Implies(good, z3.And(z3.UGE(n, 5), z3.ULE(n, self.size), S.at(A, n - 1) == NL))),
                ('every byte of every line of an accepted datagram is handled exactly once', z3.Implies(z3.ULT(UK, n), g['cK'] == z3.If(z3.And(good, self.long(ex, st, UK)), B(1), B(0)))), ('nothing of a refused datagram is handled', z3.Or(good, g['th'] == 0))]
    def candidates(self, ctx):
        out = []; ex = ctx.ex; n = ex.world.n
        for nm, g in ctx.numeric():
            if nm.startswith('ghost'): continue
            def c(t, f): out.append(Cand('%s %s' % (nm, t), lambda ex, st, vs, g=g: f(g(ex, st, vs), self.buf(ex, st), st.ghost, ex, st)))
            c('starts a line', lambda i, A, G, ex, st: z3.And(z3.ULE(i, n), z3.UGE(i, G['th']), z3.Or(i == 0, S.at(A, i - 1) == NL)))
            c('handled before', lambda i, A, G, ex, st: G['cK'] == z3.If(z3.And(z3.ULT(UK, i), self.long(ex, st, UK)), B(1), B(0)))
            for nm2, g2 in ctx.numeric():
                if nm2 == nm or nm2.startswith('ghost'): continue
                out.append(Cand('no line end from %s to %s' % (nm, nm2), lambda ex, st, vs, g=g, g2=g2: (lambda i, j, A: z3.And(z3.ULE(i, j), z3.ULE(j, n), *[z3.Implies(z3.And(z3.UGE(x, i), z3.ULT(x, j)), S.at(A, x) != NL) for x in (UK, UK - 1, UK + 1, i, i + 1, n - 1)]))(g(ex, st, vs), g2(ex, st, vs), self.buf(ex, st))))
        return out
CLASSES = [InputData, UdpRecv]

"""Contracts of StatCounter (daemon/StatCounter.cpp).
The retention levels are a vector of arbitrary length NLEV; level i's file is identified by i (one file per level).  JL is one arbitrary level."""
import z3
from irvc.spec import *
from irvc import lib
from .statfile import B, BK

TUS = ['daemon/StatCounter.cpp', 'lib/Bucket.cpp']
SC = 'StatCounter'; OC = 'StatCounter::OneCounter'; CI = 'StatCounter::CollationInfo'; NW = 5
NLEV = z3.BitVec('NLEV', 64); JL = z3.BitVec('JL', 64)
BF = [('time_', 64), ('sum_', 'd'), ('min_', 'f'), ('max_', 'f'), ('count_', 32), ('sumSq_', 'f')]
def bvals(ex, st, L, p):
    o = Obj(ex, L, BK, p); return tuple(o.z(st, f) for f, _ in BF)
def vsame(x, y): return z3.And([a == b for a, b in zip(x, y)])
def vif(c, x, y): return tuple(z3.If(c, a, b) for a, b in zip(x, y))
BSORTS = [z3.BitVecSort(64), F64, F32, F32, z3.BitVecSort(32), F32]

class CW:
    """a StatCounter with its levels"""
    def __init__(self, C, ex, st):
        L = self.L = C.L; self.ex = ex
        self.self_r = rec_region(L, SC, 'StatCounter'); self.o = Obj(ex, L, SC, Ptr(self.self_r)); n = L.size(OC); self.n = n
        self.files = Region('file', stride=4096, lazy=True, count=NLEV); self.files.leaves = {}; self.files.rec = None
        self.ocs = Region('levels', stride=n, lazy=True, count=NLEV); self.ocs.leaves = {o: KIND[k] for p, o, k in L.leaves(OC) if p in ('file.px', 'file.pn.pi_', 'suffix._M_dataplus._M_p', 'suffix._M_string_length')}
        k = z3.BitVec('k!id', 64); self.px = L.offset(OC, 'file.px'); self.ocs.ptr_leaf = {self.px: (self.files, 4096)}; self.ocs.init = {self.px: z3.Lambda([k], k)}
        ex.objects = [self.self_r, self.ocs]
        v = 'counters_._M_impl.'; self.o.set(st, v + '_M_start', Ptr(self.ocs)); self.o.set(st, v + '_M_finish', Ptr(self.ocs, Off(0, {NLEV: n}))); 
        st.setg('nJ', B(0)); st.setg('vJ', tuple(z3.Const('none%d' % i, s) for i, s in enumerate(BSORTS))); st.setg('n0', B(0)); st.setg('ok0', z3.BoolVal(True))
        vt = '_ZTV11StatCounter'
        if any(vt in m.gl_ref for m in ex.prog.mods): self.o.set(st, 'vptr', ex.global_ptr(None, vt).at(16))
    def ci(self, st): return self.o.z(st, 'collationInterval_')
    def coll(self, st): return self.o.z(st, 'isCollated_') != 0
    def slot(self, i): return Obj(self.ex, self.L, CI, Ptr(self.self_r, Off(self.L.offset(SC, 'collations_[%d].bucket.time_' % i))))
    def time(self, st, i): return self.slot(i).z(st, 'time')
    def writes(self, st, i): return self.slot(i).z(st, 'writes')
    def bucket(self, st, i): return bvals(self.ex, st, self.L, self.slot(i).ptr())
    def slotkeys(self): return {(self.self_r, self.L.offset(SC, 'collations_[%d].%s' % (i, f))) for i in range(NW) for f in ['bucket.' + x for x, _ in BF] + ['writes', 'time']}
    def base(self, st): return [('levels', z3.And(NLEV >= 1, NLEV < (1 << 20), JL >= 0, JL < NLEV)), ('collation interval', z3.And(self.ci(st) >= 1, self.ci(st) < (1 << 30))), ('flag', z3.ULE(self.o.z(st, 'isCollated_'), 1))]
    def window(self, st, may_be_empty=True):
        """the five slots cover consecutive intervals of one length"""
        c0 = self.time(st, 0); w = z3.And([c0 > 0, c0 < (1 << 41)] + [self.time(st, i) == c0 + i * self.ci(st) for i in range(1, NW)])
        return z3.Or(c0 == 0, w) if may_be_empty else w
    def empty_bucket(self, t): return (t, fval(0.0), fval(0.0, F32), fval(0.0, F32), z3.BitVecVal(0, 32), fval(0.0, F32))
GH = {('ghost', k) for k in ('nJ', 'vJ', 'n0', 'ok0', 'now')}

def h_update(ex, st, a, ctx):
    """StatFile::updateBucket: what is handed to the file of which level"""
    w = ex.world; p = a[0]
    if not (isinstance(p, Ptr) and p.r is w.files): raise Unsupported('updateBucket on an unknown file')
    i = p.off.div(4096)
    if i is None: raise Unsupported('updateBucket on an unknown file')
    i = bv(i.value(), 64); v = bvals(ex, st, w.L, a[1]); isJ = i == JL
    ex.obligation(st, 'samples only go to levels that exist', z3.And(i >= 0, i < NLEV), 'safety')
    want = getattr(ex, 'expect', None)
    if want is not None: want(ex, st, i, v)
    is0 = i == 0; n0 = st.ghost['n0']; old = ex.fc_old
    st.setg('nJ', z3.If(isJ, st.ghost['nJ'] + 1, st.ghost['nJ'])); st.setg('vJ', vif(isJ, v, st.ghost['vJ']))
    st.setg('ok0', z3.simplify(z3.If(is0, z3.And(st.ghost['ok0'], z3.Or([z3.And(n0 == k, vsame(v, w.bucket(old, k))) for k in range(NW)])), st.ghost['ok0']))); st.setg('n0', z3.simplify(z3.If(is0, n0 + 1, n0)))
    lib.assumed(ex, 'StatFile::updateBucket is its contract (C04); what it refuses is logged'); return fresh('upd', 1)
def h_debug(ex, st, a, ctx):
    lib.assumed(ex, 'debug options and the self-monitoring counters have no effect on the data'); return lib.h_nop(ex, st, a, ctx)
def stubs(ex):
    ex.add_lib('istat::StatFile::updateBucket(istat::Bucket const&)', h_update)
    ex.add_lib(lambda d: d.startswith('LoopbackCounter::') or d.startswith('DebugOption::'), h_debug)
    ex.add_lib(lambda d: d.startswith('istat::StatFile::header('), lambda ex, st, a, ctx: Ptr(Region('hdr', size=None, lazy=True, kind='temp')))
    ex.add_lib('StatCounter::shouldLog(long const&)', h_debug); ex.add_lib('boost::this_thread::get_id()', lambda ex, st, a, ctx: None); ex.add_lib('pthread_self', lambda ex, st, a, ctx: fresh('tid', 64)); ex.add_lib('boost::this_thread::get_id[abi:cxx11]()', lambda ex, st, a, ctx: fresh('tid', 64))
class CC(FC):
    libs = (stubs, lib.base, lib.opaque_strings); fixed_clock = True
    def setup(self, ex): st = State(ex); ex.world = CW(self.C, ex, st); ex.fixed_clock = True; return st, [Ptr(ex.world.self_r)] + self.mkargs(ex, st)
    def requires(self, ex, st, a): return ex.world.base(st) + self.pre(ex, st, a)
    def pre(self, ex, st, a): return []
    def frames(self, ex): return set()
    def modifies(self, ex, st, a): return GH | self.frames(ex)
    def ensures(self, ex, o, st, a, r): return self.post(ex, o, st, a, r)
    def candidates(self, ctx):
        n0 = ctx.st.ghost['nJ']; out = []
        for nm, g in ctx.numeric():
            if nm.startswith('ghost'): continue
            out.append(Cand('level JL is served when passed (%s)' % nm, lambda ex, st, vs, g=g: st.ghost['nJ'] == n0 + z3.If(JL < g(ex, st, vs), B(1), B(0))))
            out.append(Cand('levels other than the first (%s)' % nm, lambda ex, st, vs, g=g: st.ghost['nJ'] == n0 + z3.If(z3.And(JL < g(ex, st, vs), JL != 0), B(1), B(0))))
            out.append(Cand('index in range (%s)' % nm, lambda ex, st, vs, g=g: z3.And(g(ex, st, vs) >= 0, g(ex, st, vs) <= NLEV)))
        n00 = ctx.st.ghost['n0']; out.append(Cand('no more for the first', lambda ex, st, vs: st.ghost['n0'] == n00))
        out.append(Cand('first ok', lambda ex, st, vs: st.ghost['ok0'])); v0 = ctx.st.ghost['vJ']
        w = ctx.ex.world; out.append(Cand('what level JL got is the oldest slot', lambda ex, st, vs: z3.Implies(z3.And(JL != 0, st.ghost['nJ'] != n0), vsame(st.ghost['vJ'], w.bucket(ex.fc_old, 0)))))
        return out

class FindCollation(CC):
    dem = SC + '::findCollationIndex(long)'
    def apply(self, ex, st, args, ctx):
        outs = []
        for o in CC.apply(self, ex, st, args, ctx):
            for k in range(NW + 1):          # one path per answer
                s = o.st.clone(); s.assume(bv(o.val, 64) == k)
                if ex.feasible(s): outs.append(Outcome('ret', s, k))
        return outs
    def modifies(self, ex, st, a): return set()
    def mkargs(self, ex, st): return [z3.BitVec('t', 64)]
    def pre(self, ex, st, a): w = ex.world; return [('the slots cover consecutive intervals, or none', w.window(st)), ('time', z3.And(a[1] >= 0, a[1] < (1 << 42))), ('empty slots', z3.Implies(w.time(st, 0) == 0, z3.And([z3.And(w.time(st, i) >= 0, w.time(st, i) < (1 << 41)) for i in range(NW)])))]
    def post(self, ex, o, st, a, r):
        w = ex.world; r = bv(r, 64); inn = [z3.And(w.time(o, i) <= a[1], a[1] - w.time(o, i) < w.ci(o)) for i in range(NW)]
        return [('the slot whose interval contains the time', z3.Or(r == NW, z3.Or([z3.And(r == i, inn[i]) for i in range(NW)]))), ('a slot is found when one contains the time', z3.Implies(z3.Or(inn), r != NW))]
class Shift(CC):
    dem = SC + '::shiftCollated(long)'
    def mkargs(self, ex, st): return [z3.BitVec('t', 64)]
    def pre(self, ex, st, a): return [('the slots cover consecutive intervals, or none', ex.world.window(st))]
    def frames(self, ex): return ex.world.slotkeys()
    def apply(self, ex, st, args, ctx): return CC.apply(self, ex, st, args, ctx)
    def havoc(self, ex, st, a):
        w = ex.world
        for r, k in w.slotkeys(): havoc_cell(ex, st, r, k)
        st.setg('nJ', fresh('nJ', 64)); st.setg('vJ', tuple(z3.FreshConst(s, 'vJ') for s in BSORTS)); st.setg('n0', fresh('n0', 64)); st.setg('ok0', fresh('ok0', 1))
    def post(self, ex, o, st, a, r):
        w = ex.world; some = w.time(o, 0) != 0; ret = bo(r)
        same = z3.And([z3.And(w.time(st, i) == w.time(o, i), w.writes(st, i) == w.writes(o, i), vsame(w.bucket(st, i), w.bucket(o, i))) for i in range(NW)])
        moved = z3.And([z3.And(w.time(st, i) == w.time(o, i + 1), w.writes(st, i) == w.writes(o, i + 1), vsame(w.bucket(st, i), w.bucket(o, i + 1))) for i in range(NW - 1)]); nt = w.time(o, NW - 1) + w.ci(o)
        return [('reports whether there was anything to shift', ret == some), ('nothing is flushed and nothing moves while the window is empty', z3.Implies(z3.Not(some), z3.And(same, st.ghost['nJ'] == o.ghost['nJ'], st.ghost['n0'] == o.ghost['n0']))),
                ('every other slot moves down by one, with its events', z3.Implies(some, moved)), ('the newest slot starts empty, one interval later', z3.Implies(some, z3.And(w.time(st, NW - 1) == nt, w.writes(st, NW - 1) == 0, vsame(w.bucket(st, NW - 1), w.empty_bucket(nt))))),
                ('each coarser level receives the oldest slot exactly once', z3.Implies(z3.And(some, JL != 0), z3.And(st.ghost['nJ'] == o.ghost['nJ'] + 1, vsame(st.ghost['vJ'], w.bucket(o, 0))))),
                ('the finest level receives every slot once, oldest first', z3.Implies(some, z3.And(st.ghost['n0'] == o.ghost['n0'] + NW, z3.Implies(o.ghost['n0'] == 0, st.ghost['ok0']) if self.top else z3.BoolVal(True))))]
    top = True
class RecordPlain(CC):
    """samples of ordinary (not event) counters"""
    dem = SC + '::record(long, double, double, double, double, unsigned long)'; name = 'StatCounter::record (samples)'
    def mkargs(self, ex, st): return [z3.BitVec('time', 64)] + [z3.FP(n, F64) for n in ('value', 'valueSq', 'min', 'max')] + [z3.BitVec('cnt', 64)]
    def pre(self, ex, st, a): w = ex.world; return [('an ordinary counter', z3.Not(w.coll(st))), ('time', z3.And(a[1] > -(1 << 42), a[1] < (1 << 42)))]
    def setup(self, ex):
        st, a = CC.setup(self, ex); now = z3.BitVec('now', 64); st.assume(lib.now_bounds(now)); st.setg('now', now); self.a = a
        want = (a[1], a[2], ex.fp.to32(a[3]), ex.fp.to32(a[4]), None, ex.fp.to32(a[3])); 
        def expect(ex, st, i, v): ex.obligation(st, 'a level receives the sample as it was given', z3.And(v[0] == a[1], v[1] == a[2], v[2] == ex.fp.to32(a[4]), v[3] == ex.fp.to32(a[5]), v[4] == z3.Extract(31, 0, a[6]), v[5] == ex.fp.to32(a[3])), 'post')
        ex.expect = expect; return st, a
    def accepted(self, ex, o, a):
        _, t, v, sq, mi, ma, cnt = a; fp = ex.fp; eps = fval(0.0001); avg = fp.div(v, fp.fromuint(cnt, F64, 64)); up = lambda x: fp.add(x, fp.mul(z3.fpAbs(x), eps))
        return z3.And(t <= o.ghost['now'] + 60, cnt != 0, z3.Not(z3.fpGT(mi, up(ma))), z3.Not(z3.fpLT(up(avg), mi)), z3.Not(z3.fpGT(avg, up(ma))))
    def post(self, ex, o, st, a, r):
        ok = self.accepted(ex, o, a); return [('an acceptable sample reaches every level exactly once', z3.Implies(ok, st.ghost['nJ'] == 1)), ('a refused sample reaches no level', z3.Implies(z3.Not(ok), st.ghost['nJ'] == 0))]

# ------------------------------------------------------------------------------------------------ the collation window over many intervals
MS = z3.BitVec('MS', 64)          # an arbitrary shift: the MS-th interval (counted from the oldest slot) that leaves the window
def align_facts(c, ci):
    """instances of AlignLemma"""
    return [z3.Implies(z3.And(c >= 0, c < (1 << 43), z3.SRem(c, ci) == 0), z3.SRem(c + ci, ci) == 0)]
def floor_facts(t, c, ci):
    a = t - z3.SRem(t, ci); g = z3.And(c >= 0, t >= 0, z3.SRem(c, ci) == 0)
    return [z3.Implies(z3.And(g, t >= c), a >= c), z3.Implies(z3.And(g, a >= c, a - c < ci), a == c), z3.Implies(t >= 0, z3.SRem(a, ci) == 0)]
class AlignLemma:
    name = 'lemma: aligned times'; dem = None; fpmode = 'uf'; unroll = 1; timeout = 30000; check_overflow = False; candidates = None; decreases = None; uses = (); libs = ()
    def __init__(self, C): pass
    def label(self): return self.name
    def run(self, ex, res):
        c, t, i = z3.Ints('c t ci'); base = [i >= 1, c >= 0, t >= 0, c % i == 0]
        def case(n, g, *h):
            st = State(ex)
            for x in base + list(h): st.assume(x)
            ex.obligation(st, n, g, 'lemma')
        k, q, r = z3.Ints('k q r'); h = [c == k * i, t == q * i + r, r >= 0, r < i, t % i == r]
        case('the next interval is aligned', (c + i) % i == 0)
        case('a time at or after an aligned time rounds down to no less', q * i >= c, t >= c, q >= k, *h)
        st = State(ex)
        for x in (i >= 1, q * i + r >= k * i, r < i): st.assume(x)
        ex.obligation(st, 'quotients follow the order of the times', z3.Or(q >= k, False), 'lemma')
        st = State(ex)
        for x in (i >= 1, (q - k) * i >= 0, (q - k) * i < i): st.assume(x)
        ex.obligation(st, 'aligned times less than an interval apart are equal', q == k, 'lemma')
        case('a time inside the window rounds down to the start of a slot', z3.Or([q == k + j for j in range(NW)]), t >= c, q * i < c + NW * i, q >= k, (q - k) * i < NW * i, *h)
        case('rounding down aligns', (q * i) % i == 0, *h)
class MaybeShift(CC):
    dem = SC + '::maybeShiftCollated(long)'; autokeep = ('none of them',)
    def mkargs(self, ex, st): ex.nrun = 0; return [z3.BitVec('t', 64)]
    def pre(self, ex, st, a): w = ex.world; return [('the slots cover consecutive intervals, or none', w.window(st)), ('time', z3.And(a[1] >= 0, a[1] < (1 << 41), JL != 0, MS >= 0)), ('aligned', z3.SRem(w.time(st, 0), w.ci(st)) == 0)]
    def setup(self, ex):
        st, a = CC.setup(self, ex); st.setg('k', B(0)); st.setg('adv', B(0)); st.setg('vM', tuple(z3.Const('vM%d' % i, s) for i, s in enumerate(BSORTS))); return st, a
    class Hooked(Shift):
        def apply(self, ex, st, args, ctx):
            w = ex.world; c0 = w.time(st, 0); ci = w.ci(st); n = st.ghost['nJ']; outs = Shift.apply(self, ex, st, args, ctx)
            for o in outs:
                s = o.st; did = c0 != 0
                s.setg('vM', vif(z3.And(did, s.ghost['k'] == MS), s.ghost['vJ'], s.ghost['vM'])); s.setg('k', z3.If(did, s.ghost['k'] + 1, s.ghost['k'])); s.setg('adv', z3.If(did, s.ghost['adv'] + ci, s.ghost['adv']))
                for f in align_facts(c0, ci): s.assume(f)
            return outs
    uses = (Hooked,)
    def frames(self, ex): return ex.world.slotkeys() | {('ghost', k) for k in ('k', 'adv', 'vM')}
    def havoc(self, ex, st, a):
        Shift.havoc(self, ex, st, a); st.setg('k', fresh('k', 64)); st.setg('adv', fresh('adv', 64)); st.setg('vM', tuple(z3.FreshConst(s, 'vM') for s in BSORTS))
    def shape(self, ex, o, st):
        """the window after k shifts"""
        w = ex.world; k, adv = st.ghost['k'], st.ghost['adv']; ci = w.ci(o); c0 = w.time(o, 0); ne = c0 != 0; out = []
        out.append(('the window moves by whole intervals', z3.And(w.time(st, 0) == c0 + adv, k >= 0, adv >= k, z3.SRem(w.time(st, 0), ci) == 0, z3.Or([z3.And(k == j, adv == j * ci) for j in range(6)] + [z3.And(k >= 6, adv >= 6 * ci)]))))
        out.append(('the slots cover consecutive intervals', z3.Implies(ne, z3.And([w.time(st, i) == w.time(st, 0) + i * ci for i in range(1, NW)]))))
        for i in range(NW):
            out.append(('intervals that stay in the window keep their events (slot %d)' % i, z3.And([z3.Implies(z3.And(ne, k == j), z3.And(vsame(w.bucket(st, i), w.bucket(o, i + j)), w.writes(st, i) == w.writes(o, i + j))) for j in range(NW - i)])))
            out.append(('intervals that enter the window start empty (slot %d)' % i, z3.Implies(z3.And(ne, k + i >= NW), z3.And(w.writes(st, i) == 0, vsame(w.bucket(st, i), w.empty_bucket(w.time(st, i)))))))
        out.append(('each interval that leaves the window reaches every coarser level exactly once', st.ghost['nJ'] == o.ghost['nJ'] + k))
        out.append(('with the events it held', z3.Implies(z3.And(ne, k > MS), z3.And([z3.Implies(MS == j, vsame(st.ghost['vM'], w.bucket(o, j))) for j in range(NW)] + [z3.Implies(MS >= NW, st.ghost['vM'][4] == 0)]))))
        out.append(('an empty window stays as it is', z3.Implies(z3.Not(ne), z3.And(k == 0, adv == 0, z3.And([z3.And(w.time(st, i) == w.time(o, i), w.writes(st, i) == w.writes(o, i), vsame(w.bucket(st, i), w.bucket(o, i))) for i in range(NW)])))))
        return out
    def candidates(self, ctx):
        w = ctx.ex.world; o = ctx.ex.fc_old; t = ctx.ex.fc_args[1]; out = []
        for n, _ in self.shape(ctx.ex, o, ctx.st): out.append(Cand(n, lambda ex, st, vs, n=n: dict(self.shape(ex, o, st))[n], True))
        out.append(Cand('only as far as needed', lambda ex, st, vs: z3.Implies(st.ghost['k'] > 0, t >= w.time(st, NW - 1)), True))
        out.append(Cand('bound', lambda ex, st, vs: z3.And(w.time(st, 0) < (1 << 41), w.time(st, 0) >= 0, st.ghost['k'] < (1 << 43)), True))
        return out
    def post(self, ex, o, st, a, r):
        w = ex.world; t = a[1]; ev = w.coll(o)
        return [(n, z3.Implies(ev, f)) for n, f in self.shape(ex, o, st)] + [('the window reaches the time', z3.Implies(z3.And(ev, w.time(o, 0) != 0), t < w.time(st, NW - 1) + w.ci(o))), ('the window moves no further than needed', z3.Implies(z3.And(ev, st.ghost['k'] > 0), t >= w.time(st, NW - 1))),
            ('ordinary counters are left alone', z3.Implies(z3.Not(ev), z3.And(st.ghost['k'] == 0, z3.And([z3.And(w.time(st, i) == w.time(o, i), w.writes(st, i) == w.writes(o, i), vsame(w.bucket(st, i), w.bucket(o, i))) for i in range(NW)]))))]
class MaybeShiftC(MaybeShift):
    """the contract of maybeShiftCollated at its calls"""
    uses = ()
    def fresh_ret(self, ex, st, a): return None
    def apply(self, ex, st, args, ctx):
        w = ex.world; ci = w.ci(st); outs = MaybeShift.apply(self, ex, st, args, ctx)
        for o in outs:
            for i in range(NW):
                c = w.time(o.st, i)
                for f in align_facts(c, ci) + (floor_facts(ex.evtime, c, ci) if getattr(ex, 'evtime', None) is not None else []): o.st.assume(f)
        return outs
    def pre(self, ex, st, a): return [x for x in MaybeShift.pre(self, ex, st, a)]
    def ensures(self, ex, o, st, a, r):
        # relative to this call: shifts are counted from the state at the call
        return self.post(ex, o, st, a, r)
class EV(CC):
    def setup(self, ex):
        st, a = CC.setup(self, ex); st.setg('k', B(0)); st.setg('adv', B(0)); st.setg('vM', tuple(z3.Const('vM%d' % i, s) for i, s in enumerate(BSORTS))); now = z3.BitVec('now', 64); st.assume(lib.now_bounds(now)); st.setg('now', now); return st, a
    def frames(self, ex): return ex.world.slotkeys() | {('ghost', k) for k in ('k', 'adv', 'vM', 'now')}
class RecordEvents(EV):
    """events of collated counters"""
    feasms = 150; dem = RecordPlain.dem; name = 'StatCounter::record (events)'; uses = (MaybeShiftC, FindCollation); autokeep = ('none of them',); candidates = None
    mkargs = RecordPlain.mkargs
    def pre(self, ex, st, a):
        w = ex.world; ci = w.ci(st); t = a[1]; ex.evtime = t; inst = []
        for i in range(NW): inst += align_facts(w.time(st, i), ci) + floor_facts(t, w.time(st, i), ci)
        return [('case', self.case(ex, st, a)), ('time', z3.And(t > 8 * ci, t < (1 << 40))), ('the slots cover consecutive intervals, or none', z3.And(w.window(st), z3.Implies(w.time(st, 0) == 0, z3.And([w.time(st, i) == 0 for i in range(1, NW)])))), ('aligned', z3.SRem(w.time(st, 0), ci) == 0), ('a coarser level, any shift', z3.And(JL != 0, MS >= 0)),
                ('lemma instance: rounding down, next interval', z3.And(inst + [z3.SRem(t - z3.SRem(t, ci) - 4 * ci, ci) == 0]))]
    def setup(self, ex):
        st, a = EV.setup(self, ex); w = ex.world; w.o.set(st, 'isCollated_', 1)
        def expect(ex, st, i, v): ex.obligation(st, 'a single event only updates the finest level, with the events of one slot', z3.And(i == 0, z3.Or([vsame(v, w.bucket(st, k)) for k in range(NW)])), 'post')
        ex.expect = expect; return st, a
    def post(self, ex, o, st, a, r):
        w = ex.world; ci = w.ci(o); t, v = a[1], a[2]; now = st.ghost['now']; c0 = w.time(o, 0); fp = ex.fp; k = st.ghost['k']
        ok = z3.And(t <= now + ci, t >= c0); at = t - z3.SRem(t, ci); dv = fp.div(v, fp.fromsint(ci, F64, 64)); out = []
        same = z3.And([z3.And(w.time(st, i) == w.time(o, i), w.writes(st, i) == w.writes(o, i), vsame(w.bucket(st, i), w.bucket(o, i))) for i in range(NW)])
        out.append(('events from the future, or older than the window, change nothing', z3.Implies(z3.Not(ok), z3.And(same, st.ghost['nJ'] == o.ghost['nJ'], st.ghost['n0'] == o.ghost['n0']))))
        out.append(('the event has a slot of its own interval', z3.Implies(ok, z3.And(z3.Or([w.time(st, i) == at for i in range(NW)]), w.window(st, False)))))
        for i in range(NW):
            empty = w.empty_bucket(w.time(st, i)); prev = empty; pw = B(0)
            for j in reversed(range(NW - i)): prev = vif(k == j, w.bucket(o, i + j), prev); pw = z3.If(k == j, w.writes(o, i + j), pw)
            prev = vif(c0 == 0, empty, prev); pw = z3.If(c0 == 0, B(0), pw)
            s = fp.add(prev[1], dv); upd = (z3.If(prev[4] == 0, at, prev[0]), s, fp.to32(s), fp.to32(s), z3.BitVecVal(1, 32), fp.to32(fp.mul(s, s)))
            hit = w.time(st, i) == at
            out.append(('its slot grows by the event divided by the interval (slot %d)' % i, z3.Implies(z3.And(ok, hit), z3.And(vsame(w.bucket(st, i), upd), w.writes(st, i) == pw + 1))))
            out.append(('no other slot changes (slot %d)' % i, z3.Implies(z3.And(ok, z3.Not(hit)), z3.And(vsame(w.bucket(st, i), prev), w.writes(st, i) == pw))))
        out.append(('the window moves only forward, by whole intervals', z3.Implies(z3.And(ok, c0 != 0), z3.And(w.time(st, 0) == c0 + st.ghost['adv'], st.ghost['adv'] >= 0, z3.SRem(w.time(st, 0), ci) == 0))))
        out.append(('each interval that left reached every coarser level once', z3.Implies(ok, st.ghost['nJ'] == o.ghost['nJ'] + k)))
        return out
class FullyShift(EV):
    dem = SC + '::fullyShiftCollated()'; uses = (MaybeShiftC,); candidates = None; autokeep = ('none of them',)
    def mkargs(self, ex, st): return []
    def pre(self, ex, st, a): w = ex.world; return [('the slots cover consecutive intervals', z3.And(w.coll(st), w.window(st, False), w.time(st, 0) < (1 << 40), z3.SRem(w.time(st, 0), w.ci(st)) == 0, JL != 0, MS >= 0))]
    def post(self, ex, o, st, a, r):
        w = ex.world; return [('exactly the intervals of the window leave it', st.ghost['k'] == NW), ('and reach every coarser level once each', st.ghost['nJ'] == o.ghost['nJ'] + NW), ('with the events they held', z3.And([z3.Implies(MS == j, vsame(st.ghost['vM'], w.bucket(o, j))) for j in range(NW)]))]
class RecordEventsFirst(RecordEvents):
    name = 'StatCounter::record (first event)'
    def case(self, ex, st, a): return ex.world.time(st, 0) == 0
class RecordEventsPast(RecordEvents):
    name = 'StatCounter::record (event older than the window)'
    def case(self, ex, st, a): w = ex.world; return z3.And(w.time(st, 0) != 0, a[1] < w.time(st, 0))
class RecordEventsAfter(RecordEvents):
    name = 'StatCounter::record (event after the window)'
    def case(self, ex, st, a): w = ex.world; return z3.And(w.time(st, 0) != 0, a[1] - z3.SRem(a[1], w.ci(st)) >= w.time(st, NW - 1) + w.ci(st))
class RecordEventsSlot(RecordEvents):
    slot = 0
    def __init__(self, C): RecordEvents.__init__(self, C); self.name = 'StatCounter::record (event of slot %d)' % self.slot
    def case(self, ex, st, a): w = ex.world; return z3.And(w.time(st, 0) != 0, a[1] - z3.SRem(a[1], w.ci(st)) == w.time(st, self.slot))
class RecordEventsSlot0(RecordEventsSlot): slot = 0
class RecordEventsSlot1(RecordEventsSlot): slot = 1
class RecordEventsSlot2(RecordEventsSlot): slot = 2
class RecordEventsSlot3(RecordEventsSlot): slot = 3
class RecordEventsSlot4(RecordEventsSlot): slot = 4
EVENTCASES = ['RecordEventsFirst', 'RecordEventsPast', 'RecordEventsAfter'] + ['RecordEventsSlot%d' % i for i in range(NW)]

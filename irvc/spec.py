"""Function contracts over the executor of core.py: requires / modifies / ensures, verified per function and applied at call sites."""
import z3, time, os, sys, traceback, multiprocessing as mp
from . import llvm, build
from .core import *

KIND = {'i8': ity(8), 'i16': ity(16), 'i32': ity(32), 'i64': ity(64), 'float': TF, 'double': TD, 'ptr': TP}

def rec_region(L, rec, name, lazy=True, kind='heap', stride=False, count=None, null_zero=False):
    """memory region laid out as C++ record rec"""
    leaves = {}
    end = 0
    for p, o, k in L.leaves(rec):
        if o in leaves or o < end: continue
        leaves[o] = k if isinstance(k, tuple) else KIND[k]
        end = o + (k[1] if isinstance(k, tuple) else KIND[k].size)
    size = L.size(rec)
    r = Region(name, size=None if stride else size, stride=size if stride else 0, lazy=lazy, kind=kind, count=count, null_zero=null_zero)
    r.leaves = leaves; r.rec = rec
    return r

class Obj:
    """named access to the members of a record object (plain region, or element idx of an array region)"""
    def __init__(self, ex, L, rec, ptr): self.ex = ex; self.L = L; self.rec = rec; self.p = ptr
    def ptr(self, path=None): return self.p.at(self.L.offset(self.rec, path)) if path else self.p
    def ty(self, path):
        o, k = self.L.field(self.rec, path); return o, KIND[k]
    def get(self, st, path):
        o, t = self.ty(path); return self.ex.load(st, self.p.at(o), t, check=False)
    def z(self, st, path, w=None):
        o, t = self.ty(path); v = self.ex.load(st, self.p.at(o), t, check=False)
        if t.kind == 'int': v = bv(v, t.width)
        return v
    def z64(self, st, path):
        """sign-extended to 64 bits"""
        v = self.z(st, path); return z3.SignExt(64 - v.size(), v) if v.size() < 64 else v
    def b(self, st, path): return self.z(st, path) != 0
    def set(self, st, path, v):
        o, t = self.ty(path); self.ex.store(st, self.p.at(o), t, v, check=False)
    def key(self, path): return (self.p.r, self.L.offset(self.rec, path))
    def leafkeys(self, prefix):
        return {(self.p.r, o) for p, o, k in self.L.leaves(self.rec) if p == prefix or p.startswith(prefix + '.') or p.startswith(prefix + '[')}

class FC:
    """a function contract.  Subclasses define dem (exact demangled name) and setup/requires/modifies/ensures/throws."""
    dem = None; name = None; fpmode = 'uf'; unroll = 40; timeout = 20000; check_overflow = False; candidates = None; decreases = None
    uses = ()            # other contracts applied at calls
    libs = ()            # library model installers
    bounded = False
    not_assumed = ()     # names of postconditions that are known not to hold (known findings): checked, never relied on
    def __init__(self, C): self.C = C; self.L = C.L
    # -- to define
    def setup(self, ex): raise NotImplementedError     # -> (st, args)
    def requires(self, ex, st, a): return []
    def modifies(self, ex, st, a): return set()
    def ensures(self, ex, o, st, a, ret): return []
    def throws(self, ex, o, st, a, exc): return None   # None: must not throw; list: conditions that hold when it throws
    def fresh_ret(self, ex, st, a):
        ty = self.C.ret_type(self.dem)
        return None if ty is None or ty.kind == 'void' else fresh_of('ret_' + self.label().split('::')[-1], ty)
    def havoc(self, ex, st, a):
        for r, key in self.modifies(ex, st, a):
            havoc_cell(ex, st, r, key)
    # --
    def label(self): return self.name or short(self.dem)
    def apply(self, ex, st, args, ctx):
        a = list(args)
        for n, c in self.requires(ex, st, a):
            if n.startswith('lemma instance'): st.assume(bo(c)); continue      # proved separately, for all values
            ex.obligation(st, 'precondition of %s at its call in %s: %s' % (self.label(), short(ctx.fr.F.dem), n), c, 'pre')
        old = st.clone()
        outs = []
        th = self.may_throw(ex, st, a)
        if th is not None:
            s2 = st.clone(); self.havoc(ex, s2, a)
            for n, c in self.throws(ex, old, s2, a, th) or []: s2.assume(bo(c) if not isinstance(c, bool) else c)
            if ex.feasible(s2): outs.append(Outcome('throw', s2, th))
        self.havoc(ex, st, a)
        ret = self.fresh_ret(ex, st, a)
        for n, c in self.ensures(ex, old, st, a, ret):
            if c is True or n in self.not_assumed: continue
            st.assume(bo(c))
        outs.append(Outcome('ret', st, ret))
        ex.rep.used_contracts.add(self.label())
        return outs
    def may_throw(self, ex, st, a): return None
    def install(self, ex): ex.add_contract(self.dem, self.apply)

def havoc_cell(ex, st, r, key):
    if isinstance(key, tuple):
        st.cells(r, True)[key] = z3.FreshConst(z3.ArraySort(BV64, BV8), r.name)
    elif r.stride:
        st.setarr(r, key, z3.FreshConst(z3.ArraySort(BV64, type_sort(r.leaves[key])), r.name))
        return
    else:
        lt = r.leaves[key]
        if isinstance(lt, tuple):
            st.cells(r, True)[('b', key)] = z3.FreshConst(z3.ArraySort(BV64, BV8), r.name); key = ('b', key)
        else: st.cells(r, True)[key] = (lt.size, fresh_of('m_%s_%d' % (r.name, key), lt))
    if ex.wlog is not None: ex.wlog.add((r, key))

def same_val(ex, x, y):
    """equality term of two cell values"""
    if x is y: return True
    if isinstance(x, (Ptr, FuncPtr)) or isinstance(y, (Ptr, FuncPtr)):
        if isinstance(x, (int,)) or z3.is_expr(x) and z3.is_bv(x): x = conv(x, TP)
        if isinstance(y, (int,)) or z3.is_expr(y) and z3.is_bv(y): y = conv(y, TP)
        return ex.ptrcmp('eq', x, y)
    if isinstance(x, UndefV) or isinstance(y, UndefV): return False
    if isinstance(x, PInt): x = x.z3()
    if isinstance(y, PInt): y = y.z3()
    if isinstance(x, (int, bool)) and isinstance(y, (int, bool)): return int(x) == int(y)
    if z3.is_expr(x) and z3.is_fp(x) or z3.is_expr(y) and z3.is_fp(y):
        if not (z3.is_expr(x) and z3.is_fp(x)): x = conv(x, TD if y.sort() == F64 else TF)
        if not (z3.is_expr(y) and z3.is_fp(y)): y = conv(y, TD if x.sort() == F64 else TF)
        return simp(x == y)
    w = x.size() if z3.is_expr(x) and z3.is_bv(x) else y.size() if z3.is_expr(y) and z3.is_bv(y) else None
    if w is None: return simp(bo(x) == bo(y))
    return simp(bv(x, w) == bv(y, w))

def frame_goals(ex, old, st, allowed, regions=None):
    """[(name, goal)]: every memory cell that existed before and is not in `allowed` has its old value"""
    out = []
    ids = {}
    for r in (regions or ex.frame_regions): ids[r.id] = r
    for rid, r in ids.items():
        if rid in st.dead and rid not in old.dead:
            if (r, 'free') not in allowed: out.append(('%s stays allocated' % r.name, False))
            continue
        co, cn = old.mem.get(rid), st.mem.get(rid)
        if cn is None or co is cn: continue
        co = co or dict(r.init or {})
        if r.stride:
            for leaf, a in cn.items():
                if (r, leaf) in allowed: continue
                b = co.get(leaf)
                if b is None: b = old.arr(r, leaf)
                if a is b: continue
                out.append(('unchanged: %s+%s' % (r.name, leaf), a == b))
            continue
        seen = set()
        for key, v in list(cn.items()):
            if isinstance(key, tuple):
                if (r, key) in allowed or (r, key[1]) in allowed: continue
                b = co.get(key)
                if b is None: b = ex.bytes_leaf(old, r, key[1])
                if b is v[1] if isinstance(v, tuple) and not z3.is_expr(v) else b is v: continue
                out.append(('unchanged: %s.%s' % (r.name, member_name(ex, r, key[1])), v == b)); continue
            if any((r, o) in allowed and o <= key < o + (lt[1] if isinstance(lt, tuple) else lt.size) for o, lt in (r.leaves or {}).items()) or (r, key) in allowed: continue
            c0 = co.get(key)
            if c0 is not None and c0[0] == v[0]: ov = c0[1]
            else:
                if not r.lazy: continue
                lt = (r.leaves or {}).get(key)
                if lt is None or isinstance(lt, tuple) or lt.size != v[0]: lt = ity(8 * v[0])
                ov = ex.load(old, Ptr(r, Off(key)), lt, check=False)
            g = same_val(ex, ov, v[1])
            if g is True: continue
            out.append(('unchanged: %s.%s' % (r.name, member_name(ex, r, key)), g))
    return out

def member_name(ex, r, off):
    rec = getattr(r, 'rec', None)
    if rec:
        for p, o, k in ex.C.L.leaves(rec):
            if o == off: return p
    return '+%s' % off

class Result:
    """what one verified function (or lemma) produced; picklable"""
    def __init__(self, name): self.name = name; self.obs = []; self.status = 'ok'; self.why = None; self.time = 0; self.solver = 0; self.queries = 0; self.paths = 0
    # obs: list of dict(name, kind, status, time, count, backend, detail, model)

class Checker:
    """verifies a list of contracts against the program; one process per contract"""
    def __init__(self, tus, deadline=None):
        self.tus = tus; self.bcs = build.bitcodes(tus); self.P = llvm.Program(self.bcs); self.L = build.Layouts(self.bcs)
        self.deadline = deadline
    def ret_type(self, dem):
        f = self.P.function(dem)
        for b in f.blocks:
            t = b.insts[-1]
            if t.op == 'ret': return t.ops[0].ty if t.ops else None
        return None
    def obj(self, ex, rec, ptr): return Obj(ex, self.L, rec, ptr)

    def new_ex(self, fc, deadline):
        ex = Executor(self.P, None, fpmode=fc.fpmode, unroll=fc.unroll, timeout=fc.timeout, deadline=deadline)
        ex.C = self; ex.L = self.L; ex.rep.used_contracts = set(); ex.fnname = fc.label(); ex.check_overflow = fc.check_overflow
        ex.frame_regions = []; ex.intfirst = getattr(fc, 'intfirst', False); ex.autokeep = getattr(fc, 'autokeep', None); ex.cheapms = getattr(fc, 'cheapms', 1500)
        if getattr(fc, 'divpairs', False):
            for ab in {id(x): x for x in (ex.absn, getattr(ex.usolver.absn, 'inner', None)) if x is not None}.values(): ab.pairs = []
            ex.feas.absn = type(ex.absn)()
        if fc.candidates: ex.loopspec = LoopSpec(fc.candidates, decreases=fc.decreases)
        elif fc.decreases: ex.loopspec = LoopSpec(None, decreases=fc.decreases)
        if getattr(fc, 'feasms', None): ex.feas.s.set('timeout', fc.feasms)
        if hasattr(fc, 'prefer'): ex.prefer = lambda st: fc.prefer(ex, st)
        for lib in fc.libs: lib(ex)
        for u in fc.uses:
            c = u(self) if isinstance(u, type) else u
            if c.dem != fc.dem and self.P.by_dem(c.dem): c.install(ex)
        return ex

    def verify_one(self, fc, fpmode=None, budget=None, bounded_unroll=None):
        t0 = time.time(); res = Result(fc.label()); ex = None
        dl = time.time() + (budget or 240)
        if self.deadline: dl = min(dl, self.deadline)
        if fpmode: fc.fpmode = fpmode
        ex_box = {}
        force = set(); scout = [1] if fc.candidates and not hasattr(fc, 'run') else []      # a first run without proofs finds the loops that need invariants
        def attempt():
            ex = self.new_ex(fc, dl); ex_box['ex'] = ex; ex.force_inv = force
            if bounded_unroll: ex.unroll = bounded_unroll; ex.cut_on_unroll = True
            ex.scouting = bool(scout)
            if scout: ex.mute = 1; ex.feas.s.set('timeout', 100)
            fc.run(ex, res) if hasattr(fc, 'run') else self.run_fc(fc, ex)
            return ex
        try:
            while True:
                try:
                    ex = attempt()
                    if scout: scout.clear(); continue
                    break
                except NeedInvariant as e:
                    k = (e.F.name, e.H.idx)
                    if k in force: raise Unsupported('loop in %s: neither unrolling nor invariants' % e.F.dem)
                    force.add(k)
        except (Unsupported, Budget, KeyError, IndexError, TypeError, AttributeError, AssertionError, z3.Z3Exception, RecursionError, NotImplementedError) as e:
            res.status = 'undecided'; res.why = '%s: %s' % (type(e).__name__, e)
            if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
            ex = ex_box.get('ex')
        if ex is not None:
            for o in ex.rep.obs.values():
                d = dict(name=o.name, kind=o.kind, status=o.status, time=round(o.time, 3), count=o.count, backend=o.backend, detail=o.detail, model=None)
                if o.status == 'fail' and o.model:
                    for m, st, tr in o.model:
                        try: d['model'] = fc.to_replay(ex, m, st) if hasattr(fc, 'to_replay') else None
                        except Exception as e: d['model_error'] = repr(e)
                        try: d['text'] = model_text(m)
                        except Exception: pass
                        if d['model']: break
                res.obs.append(d)
            res.solver = round(ex.rep.solver_time, 3); res.queries = ex.rep.queries
            res.loops = ex.rep.loops; res.inlined = sorted(short(x) for x in ex.rep.inlined); res.assumed = sorted(ex.rep.assumed)
            res.used = sorted(ex.rep.used_contracts); res.cut = ex.cut; res.fpuf = sorted(ex.fp.used) if ex.fp.mode == 'uf' else []
            res.backends = getattr(ex.rep, 'backends', {})
        res.outcomes = getattr(fc, '_outcomes', None)
        if res.status == 'ok':
            st = {d['status'] for d in res.obs}
            if 'fail' in st: res.status = 'fail'
            elif 'unknown' in st: res.status = 'undecided'; res.why = 'solver gave up on an obligation'
            elif not res.obs: res.status = 'undecided'; res.why = 'no obligation was generated'
        elif any(d['status'] == 'fail' for d in res.obs): res.status = 'fail'
        res.time = round(time.time() - t0, 2)
        return res

    def run_fc(self, fc, ex):
        F = self.P.function(fc.dem)
        st, a = fc.setup(ex)
        for n, c in fc.requires(ex, st, a):
            if c is not True: st.assume(bo(c))
        # the precondition must be satisfiable (else every postcondition would hold vacuously)
        if ex.feas.check(st.pc, None)[0] != z3.sat:
            r, m = ex.solver.check(st.pc, None)
            ex.obligation(st, 'precondition is satisfiable', r != z3.unsat, 'cover', assume_after=False)
        else: ex.obligation(st, 'precondition is satisfiable', True, 'cover')
        old = st.clone(); fc._old = old; fc._args = a; ex.fc_old = old; ex.fc_args = a
        if getattr(fc, 'hints', None): ex.hints = fc.hints
        ex.lightfirst = getattr(fc, 'lightfirst', False)
        ex.frame_regions = [r for r in getattr(ex, 'objects', [])]
        outs = ex.run(F, a, st)
        nret = nthrow = 0
        for o in outs:
            if o.kind == 'ret':
                nret += 1
                for n, c in fc.ensures(ex, old, o.st, a, o.val):
                    ex.obligation(o.st, n, c, 'post', assume_after=False)
                for n, c in frame_goals(ex, old, o.st, fc.modifies(ex, old, a)): ex.obligation(o.st, 'frame: ' + n, c, 'frame', assume_after=False)
            elif o.kind == 'throw':
                nthrow += 1
                g = fc.throws(ex, old, o.st, a, o.val)
                if g is None: ex.obligation(o.st, 'no exception leaves the function', False, 'throw', assume_after=False)
                else:
                    for n, c in g: ex.obligation(o.st, 'on exception: ' + n, c, 'post', assume_after=False)
        ex.obligation(st, 'some normal return is reachable', nret > 0 or getattr(fc, 'only_throws', False), 'cover', assume_after=False)
        fc._outcomes = (nret, nthrow)

    def verify(self, fcs, jobs=8, **kw):
        fcs = [f(self) if isinstance(f, type) else f for f in fcs]
        if jobs == 1 or len(fcs) == 1: return [self.verify_one(f, **kw) for f in fcs]
        global _FCS, _CHK, _KW
        _FCS, _CHK, _KW = fcs, self, kw
        with mp.get_context('fork').Pool(min(jobs, len(fcs)), maxtasksperchild=1) as pool:
            return pool.map(_work, range(len(fcs)), chunksize=1)

def _work(k):
    try: return _CHK.verify_one(_FCS[k], **_KW)
    except Exception as e:
        r = Result(_FCS[k].label()); r.status = 'undecided'; r.why = 'internal: ' + repr(e) + traceback.format_exc()[-600:]; r.loops = r.inlined = r.assumed = r.used = []; r.fpuf = []; r.cut = 0; r.backends = {}
        return r

def model_text(m):
    out = []
    for d in m.decls():
        if d.arity() == 0 and not isinstance(m[d], z3.FuncInterp):
            s = '%s = %s' % (d.name(), m[d])
            if len(s) < 200: out.append(s)
    return '\n'.join(sorted(out)[:200])

def mval(m, e):
    """python value of a term in a model"""
    if isinstance(e, (int, bool)): return e
    v = m.eval(e, model_completion=True)
    if z3.is_bv_value(v): return v.as_long()
    if z3.is_true(v): return True
    if z3.is_false(v): return False
    if z3.is_fp(v):
        b = z3.simplify(z3.fpToIEEEBV(v))
        import struct as S
        if z3.is_bv_value(b):
            return S.unpack('<d', S.pack('<Q', b.as_long()))[0] if v.sort() == F64 else S.unpack('<f', S.pack('<I', b.as_long()))[0]
        return float('nan')
    return None
def ms(m, e, w=64):
    v = mval(m, e); return sgn(v, w) if isinstance(v, int) and not isinstance(v, bool) else v

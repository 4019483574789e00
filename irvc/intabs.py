"""Bit-vectors as integers: every bit-vector term becomes its signed value; wrap-around is an explicit integer multiple of 2^w.
unsat of the translation implies unsat of the original (operations without a rule become fresh values within their range)."""
import z3
class IntAbs:
    def __init__(self): self.cache = {}; self.keep = []; self.fns = {}; self.n = 0
    def fresh(self, p='k'): self.n += 1; return z3.Int('i!%s%d' % (p, self.n))
    def sort(self, s):
        if s.kind() == z3.Z3_BV_SORT: return z3.IntSort()
        if s.kind() == z3.Z3_ARRAY_SORT: return z3.ArraySort(self.sort(s.domain()), self.sort(s.range()))
        return s
    def rng(self, v, w): return z3.And(v >= -(1 << (w - 1)), v < (1 << (w - 1)))
    def u(self, v, w): return z3.If(v < 0, v + (1 << w), v)
    def wrap(self, e, w, ax, lo=-1, hi=1):
        """the signed value of e modulo 2^w, where e / 2^w is known to lie in [lo, hi]"""
        r = self.fresh('r'); k = self.fresh('k')
        ax.append(z3.And(r == e - k * (1 << w), k >= lo, k <= hi, self.rng(r, w))); return r
    def apply(self, e):
        c = self.cache; stack = [(e, False)]
        while stack:
            x, done = stack.pop(); i = x.get_id()
            if i in c: continue
            ch = x.children()
            if z3.is_quantifier(x) or z3.is_var(x): raise ValueError('quantifier')
            if not done and ch: stack.append((x, True)); stack.extend((y, False) for y in ch if y.get_id() not in c); continue
            self.keep.append(x); axd = {}
            for y in ch:
                for a in c[y.get_id()][1]: axd[a.get_id()] = a
            new = []; r = self.conv(x, [c[y.get_id()][0] for y in ch], ch, new)
            for a in new: axd[a.get_id()] = a; self.keep.append(a)
            c[i] = (r, tuple(axd.values()))
        return c[e.get_id()]
    def conv(self, x, a, ch, ax):
        k = x.decl().kind(); so = x.sort(); w = so.size() if z3.is_bv(x) else None
        cw = ch[0].size() if ch and z3.is_bv(ch[0]) else None
        if z3.is_bv_value(x): return z3.IntVal(x.as_signed_long())
        if not ch:
            s = self.sort(so)
            if s.eq(so): return x
            v = z3.Const(x.decl().name() + '!i', s)
            if w: ax.append(self.rng(v, w))
            return v
        if w and k == z3.Z3_OP_BADD: return self.wrap(z3.Sum(a), w, ax, -len(a) + 1, len(a) - 1)
        if w and k == z3.Z3_OP_BSUB: return self.wrap(a[0] - a[1], w, ax)
        if w and k == z3.Z3_OP_BNEG: return self.wrap(-a[0], w, ax)
        if w and k == z3.Z3_OP_BMUL and len(a) == 2:
            for p, q in ((0, 1), (1, 0)):
                if z3.is_bv_value(ch[p]):
                    m = ch[p].as_signed_long(); return self.wrap(m * a[q], w, ax, -abs(m), abs(m))
        if k == z3.Z3_OP_SLEQ: return a[0] <= a[1]
        if k == z3.Z3_OP_SLT: return a[0] < a[1]
        if k == z3.Z3_OP_SGEQ: return a[0] >= a[1]
        if k == z3.Z3_OP_SGT: return a[0] > a[1]
        if k in (z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT):
            p, q = self.u(a[0], cw), self.u(a[1], cw)
            return {z3.Z3_OP_ULEQ: p <= q, z3.Z3_OP_ULT: p < q, z3.Z3_OP_UGEQ: p >= q, z3.Z3_OP_UGT: p > q}[k]
        if k == z3.Z3_OP_SIGN_EXT: return a[0]
        if k == z3.Z3_OP_ZERO_EXT: return self.u(a[0], cw)
        if k == z3.Z3_OP_BLSHR and z3.is_bv_value(ch[1]):
            s = ch[1].as_long()
            if 0 < s < w:
                r, m = self.fresh('sh'), self.fresh('rem'); ax.append(z3.And(self.u(a[0], w) == r * (1 << s) + m, m >= 0, m < (1 << s), r >= 0, r < (1 << (w - s)))); return r
        if k == z3.Z3_OP_BSHL and z3.is_bv_value(ch[1]) and ch[1].as_long() < w: m = 1 << ch[1].as_long(); return self.wrap(m * a[0], w, ax, -m, m)
        if k == z3.Z3_OP_EXTRACT:
            hi, lo = x.params()
            q = self.fresh('x'); m = self.fresh('xm'); h = self.fresh('xh')      # unsigned value = h*2^(hi+1) + q*2^lo + m
            ax.append(z3.And(self.u(a[0], cw) == h * (1 << (hi + 1)) + self.u(q, w) * (1 << lo) + m, m >= 0, m < (1 << lo), self.rng(q, w), h >= 0, h < (1 << (cw - hi - 1)))); return q
        if k == z3.Z3_OP_CONCAT:
            t = z3.IntVal(0)
            for v, y in zip(a, ch): t = t * (1 << y.size()) + self.u(v, y.size())
            r = self.fresh('c'); ax.append(z3.And(self.rng(r, w), self.u(r, w) == t)); return r
        if k == z3.Z3_OP_EQ: return a[0] == a[1]
        if k == z3.Z3_OP_DISTINCT: return z3.Distinct(*a)
        if k == z3.Z3_OP_AND: return z3.And(*a)
        if k == z3.Z3_OP_OR: return z3.Or(*a)
        if k == z3.Z3_OP_NOT: return z3.Not(a[0])
        if k == z3.Z3_OP_IMPLIES: return z3.Implies(*a)
        if k == z3.Z3_OP_XOR: return z3.Xor(*a)
        if k == z3.Z3_OP_ITE: return z3.If(*a)
        if k == z3.Z3_OP_SELECT:
            r = z3.Select(a[0], a[1])
            if w: ax.append(self.rng(r, w))
            return r
        if k == z3.Z3_OP_STORE: return z3.Store(*a)
        if k == z3.Z3_OP_UNINTERPRETED:
            key = x.decl().sexpr()
            f = self.fns.get(key)
            if f is None: f = self.fns[key] = z3.Function('i!f%d' % len(self.fns), *([y.sort() for y in a] + [self.sort(so)]))
            r = f(*a)
            if w: ax.append(self.rng(r, w))
            return r
        if k == z3.Z3_OP_CONST_ARRAY: return z3.K(self.sort(so.domain()), a[0])
        # anything else: an uninterpreted function of its operands
        key = (k, x.decl().sexpr(), str(x.params()) if hasattr(x, 'params') else '')
        f = self.fns.get(key)
        if f is None: f = self.fns[key] = z3.Function('i!f%d' % len(self.fns), *([y.sort() for y in a] + [self.sort(so)]))
        r = f(*a)
        if w: ax.append(self.rng(r, w))
        return r
def terms(assertions):
    t = IntAbs(); out = []; seen = set()
    for e in assertions:
        r, ax = t.apply(e)
        for a in ax:
            if a.get_id() not in seen: seen.add(a.get_id()); out.append(a)
        out.append(r)
    return out

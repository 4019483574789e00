"""Contracts of the string helpers (lib/strfunc.cpp).  K is one arbitrary index of the input: what is proved at K holds at every index."""
import z3
from irvc.spec import *
from irvc import lib
from irvc import strings as S
from .statfile import B
TUS = ['lib/strfunc.cpp']
STR = lib.STR; CH = z3.BitVec('ch', 8)
class W: pass
class Str(FC):
    libs = (S.strings, lib.base); names = ('s',); alias = {}
    autokeep = ('none of them',)
    def setup(self, ex):
        st = State(ex); w = ex.world = W(); self.p = {}
        for n in self.names: self.p[n] = self.p[self.alias[n]] if n in self.alias else S.given(ex, st, n)
        ex.objects = [p.r for p in self.p.values()]; ps = {id(p): p for p in self.p.values()}.values()
        for p in ps: ex.objects.append(S.chars(ex, p))
        self.st0 = st; return st, self.args(ex)
    def modifies(self, ex, st, a):
        self.bind(a); out = set()
        for p in self.out(): out |= {(S.chars(ex, p), 0), ('ghost', S.key(p))}
        return out
    def out(self): return [self.p[n] for n in self.outs]
    def bind(self, a):
        ps = [x for x in a if isinstance(x, Ptr)]; self.p = dict(zip(self.order or self.names, ps))
    order = None
    def havoc(self, ex, st, a):
        for r, k in self.modifies(ex, st, a):
            if r == 'ghost': st.setg(k, (z3.FreshConst(BV64, 'len'), z3.FreshConst(BV64, 'watch')))
            else: havoc_cell(ex, st, r, k)
    def v(self, ex, st, n): return S.value(ex, st, self.p[n])
    outs = ()
class Split(Str):
    """(names of source and targets, which of them are the same object)"""
    dem = 'istat::split(%s const&, char, %s&, %s&)' % (STR, STR, STR); names = ('s', 'left', 'right'); outs = ('left', 'right')
    def args(self, ex): return [self.p['s'], CH, self.p['left'], self.p['right']]
    def requires(self, ex, st, a): self.bind(a); k = [S.key(self.p[n]) for n in self.names]; return [('the left target is neither the source nor the right target', z3.BoolVal(k[1] not in (k[0], k[2])))]
    def ensures(self, ex, o, st, a, r):
        self.bind(a); n, K, A = self.v(ex, o, 's'); ln, _, LA = self.v(ex, st, 'left'); rn, _, RA = self.v(ex, st, 'right'); r = bv(r, 32); c = bv(a[1], 8)
        wl = S.watch(ex, st, self.p['left']) == K
        two = z3.And(r == 2, wl, S.watch(ex, st, self.p['right']) == K - ln - 1, z3.ULT(ln, n), z3.Implies(K == ln, S.at(A, ln) == c), rn == n - ln - 1, z3.Implies(z3.ULT(K, ln), z3.And(S.at(LA, K) == S.at(A, K), S.at(A, K) != c)), z3.Implies(z3.And(z3.UGT(K, ln), z3.ULT(K, n)), S.at(RA, K - ln - 1) == S.at(A, K)))
        one = z3.And(r == 1, wl, ln == n, rn == 0, z3.Implies(z3.ULT(K, n), z3.And(S.at(A, K) != c, S.at(LA, K) == S.at(A, K))))
        return [('nothing gives no part', (n == 0) == (r == 0)), ('no part when there is nothing', z3.Implies(r == 0, z3.And(ln == 0, rn == 0))), ('one part without the separator, or the two parts around the first one', z3.Or(r == 0, one, two))]
class SplitRight(Split): alias = {'right': 's'}; names = ('s', 'left', 'right'); name = 'istat::split (target right is the source)'
class Splitn(Str):
    N = 2; fits = ()
    @property
    def dem(self): return 'istat::splitn(%s const&, char%s)' % (STR, (', %s&' % STR) * self.N)
    @property
    def name(self): return 'istat::splitn (%d parts%s)' % (self.N, ', first part over the source' if self.alias else '')
    @property
    def names(self): return ('s',) + tuple('o%d' % i for i in range(1, self.N + 1))
    @property
    def outs(self): return self.names[1:]
    def args(self, ex): return [self.p['s'], CH] + [self.p[n] for n in self.outs]
    def requires(self, ex, st, a):
        self.bind(a); ids = [S.key(self.p[n]) for n in self.outs]
        return [('the targets are different objects, and only the first may be the source', z3.BoolVal(len(set(ids)) == len(ids) and S.key(self.p['s']) not in ids[1:]))]
    def ensures(self, ex, o, st, a, r):
        self.bind(a); n, K, A = self.v(ex, o, 's'); c = bv(a[1], 8); r = bv(r, 32); parts = [self.v(ex, st, x) for x in self.outs]; out = [('between one and %d parts' % self.N, z3.And(r >= 1, r <= self.N))]
        start = [B(0)]
        for ln, _, _ in parts: start.append(start[-1] + ln + 1)
        for k in range(1, self.N + 1):
            last = k == self.N; cs = [start[k] - 1 == n] + [S.watch(ex, st, self.p[self.outs[i]]) == K - start[i] for i in range(k)]
            for i in range(k):
                ln, _, PA = parts[i]; inside = z3.And(z3.UGE(K, start[i]), z3.ULT(K, start[i] + ln)); same = S.at(PA, K - start[i]) == S.at(A, K)
                sep = S.at(A, K) != c if i + 1 < k or not last else z3.BoolVal(True)
                cs.append(z3.ULE(ln, n)); cs.append(z3.Implies(inside, z3.And(same, sep)))
                if i + 1 < k: cs.append(z3.Implies(K == start[i] + ln, S.at(A, K) == c))
            out.append(('%d parts, joined by separators, are the text; no part but the last of all holds a separator' % k, z3.Implies(r == k, z3.And(cs))))
        return out
class Splitn2(Splitn): N = 2
class Splitn3(Splitn): N = 3; uses = (Splitn2,)
class Splitn4(Splitn): N = 4; uses = (Splitn2, Splitn3)
class Splitn5(Splitn): N = 5; uses = (Splitn2, Splitn4)
class Splitn6(Splitn): N = 6; uses = (Splitn2, Splitn5)
class Splitn2Alias(Splitn): alias = {'o1': 's'}
class Splitn3Alias(Splitn): N = 3; uses = (Splitn2,); alias = {'o1': 's'}
class Combine(Str):
    dem = 'istat::combine_paths(%s const&, %s const&)' % (STR, STR); names = ('l', 'r', 'ret'); order = ('ret', 'l', 'r'); outs = ('ret',)
    def args(self, ex): return [self.p['ret'], self.p['l'], self.p['r']]
    def ensures(self, ex, o, st, a, r):
        self.bind(a); ln, K, A = self.v(ex, o, 'l'); rn, KR, R = self.v(ex, o, 'r'); n, _, X = self.v(ex, st, 'ret'); SL = z3.BitVecVal(ord('/'), 8)
        absolute = z3.And(rn != 0, S.at(R, B(0)) == SL); whole = z3.Or(absolute, ln == 0); slash = z3.And(ln != 0, S.at(A, ln - 1) == SL); off = z3.If(whole, B(0), z3.If(slash, ln, ln + 1))
        return [('the length', n == off + rn), ('the right side is kept', z3.Implies(z3.ULT(KR, rn), S.at(X, KR + off) == S.at(R, KR))),
                ('the left side comes first unless the right is absolute', z3.Implies(z3.And(z3.Not(whole), z3.ULT(K, ln)), S.at(X, K) == S.at(A, K))),
                ('one slash joins them', z3.Implies(z3.And(z3.Not(whole), z3.Not(slash)), S.at(X, ln) == SL))]
SP = z3.Function('isspace', BV8, z3.BoolSort())
def h_isspace(ex, st, a, ctx):
    lib.assumed(ex, 'isspace, tolower, isdigit, isalnum are those of the C locale'); c = z3.Extract(7, 0, bv(a[0], 32)); return z3.If(SP(c), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))
def ctype(ex): ex.add_lib('isspace', h_isspace)
class Trim(Str):
    dem = 'istat::trim(%s&)' % STR; outs = ('s',); libs = (ctype,) + Str.libs
    def args(self, ex): ex.world.s = self.p['s']; return [self.p['s']]
    def ensures(self, ex, o, st, a, r):
        self.bind(a); n, K, A = self.v(ex, o, 's'); m, wt, X = self.v(ex, st, 's'); start = K - wt; end = start + m
        return [('a piece of the text remains', z3.And(z3.ULE(start, n), z3.ULE(m, n), z3.ULE(end, n), z3.Implies(z3.ULT(wt, m), S.at(X, wt) == S.at(A, K)))),
                ('only white space is removed', z3.Implies(z3.And(z3.ULT(K, n), z3.Not(z3.And(z3.UGE(K, start), z3.ULT(K, end)))), SP(S.at(A, K)))),
                ('no white space remains at either end', z3.Implies(m != 0, z3.And(z3.Not(SP(S.at(X, B(0)))), z3.Not(SP(S.at(X, m - 1))))))]
    def candidates(self, ctx):
        ex = ctx.ex; p = ex.world.s; out = []
        for nm, g in ctx.numeric():
            f = lambda ex, st, vs, g=g: (g(ex, st, vs), *S.value(ex, st, p))
            out.append(Cand('%s within' % nm, lambda ex, st, vs, f=f: (lambda i, n, K, A: z3.ULE(i, n))(*f(ex, st, vs))))
            out.append(Cand('white space from %s' % nm, lambda ex, st, vs, f=f: (lambda i, n, K, A: z3.Implies(z3.And(z3.UGE(K, i), z3.ULT(K, n)), SP(S.at(A, K))))(*f(ex, st, vs))))
            out.append(Cand('white space up to %s' % nm, lambda ex, st, vs, f=f: (lambda i, n, K, A: z3.Implies(z3.ULT(K, i), SP(S.at(A, K))))(*f(ex, st, vs))))
        for nm, g in ctx.numeric():
            for bn, bt in ctx.bounds(): out.append(Cand('%s up to %s' % (nm, bn), lambda ex, st, vs, g=g, bt=bt: z3.ULE(g(ex, st, vs), bt)))
        for nm, g in ctx.numeric():
            for bn, bt in ctx.bounds(): out.append(Cand('%s at least %s' % (nm, bn), lambda ex, st, vs, g=g, bt=bt: z3.UGE(g(ex, st, vs), bt)))
        return out
class Stripext(Str):
    dem = 'istat::stripext(%s&)' % STR; outs = ('s',)
    def args(self, ex): ex.world.s = self.p['s']; return [self.p['s']]
    def ensures(self, ex, o, st, a, r):
        self.bind(a); n, K, A = self.v(ex, o, 's'); m, wt, X = self.v(ex, st, 's'); DOT = z3.BitVecVal(ord('.'), 8); r = bo(r)
        return [('with an extension, exactly what follows the last dot and the dot go', z3.Implies(r, z3.And(z3.ULT(m, n), S.at(A, m) == DOT, z3.Implies(z3.And(z3.UGT(K, m), z3.ULT(K, n)), S.at(A, K) != DOT)))),
                ('without one, there is no dot and nothing goes', z3.Implies(z3.Not(r), z3.And(m == n, z3.Implies(z3.ULT(K, n), S.at(A, K) != DOT)))),
                ('what remains is unchanged', z3.Implies(z3.ULT(K, m), S.at(X, K) == S.at(A, K)))]
    def candidates(self, ctx):
        p = ctx.ex.world.s; out = []
        for nm, g in ctx.numeric():
            out.append(Cand('%s within' % nm, lambda ex, st, vs, g=g: z3.ULE(g(ex, st, vs), S.length(ex, st, p))))
            out.append(Cand('no dot from %s' % nm, lambda ex, st, vs, g=g: (lambda n, K, A: z3.Implies(z3.And(z3.UGE(K, g(ex, st, vs)), z3.ULT(K, n)), S.at(A, K) != ord('.')))(*S.value(ex, st, p))))
        return out
class PromChar(FC):
    dem = 'istat::prom_munge_char(char)'; libs = (lib.base,)
    def setup(self, ex):
        st = State(ex); ex.objects = []; ex.add_lib('tolower', h_tolower); return st, [z3.BitVec('c', 8)]
    def rule(self, c):
        al = lambda x, y: z3.And(z3.UGE(c, ord(x)), z3.ULE(c, ord(y))); return z3.If(al('A', 'Z'), c + 32, z3.If(z3.Or(al('a', 'z'), al('0', '9'), c == ord('_')), c, z3.BitVecVal(ord('_'), 8)))
    def ensures(self, ex, o, st, a, r): return [('the character rule', bv(r, 8) == self.rule(bv(a[0], 8)))]
class MungeChar(PromChar):
    dem = 'istat::munge_char(char)'
    def rule(self, c): return z3.If(z3.Or(z3.ULT(c, 33), z3.UGT(c, 126), *[c == ord(x) for x in '/:\\"\'']), z3.BitVecVal(ord('_'), 8), z3.If(z3.And(z3.UGE(c, 65), z3.ULE(c, 90)), c + 32, c))
def h_tolower(ex, st, a, ctx):
    lib.assumed(ex, 'isspace, tolower, isdigit, isalnum are those of the C locale'); c = bv(a[0], 32); return z3.If(z3.And(c >= 65, c <= 90), c + 32, c)
# ------------------------------------------------------------------------------------------------ names (C19): every character of the text, one by one
class Munge(Str):
    dem = 'istat::munge(%s&)' % STR; outs = ('s',); table = MungeChar; uses = (MungeChar,)
    def args(self, ex): ex.world.s = self.p['s']; ex.world.A0 = None; return [self.p['s']]
    def rule(self, c): return MungeChar.rule(self, c)
    def ensures(self, ex, o, st, a, r):
        self.bind(a); n, K, A = self.v(ex, o, 's'); m, _, X = self.v(ex, st, 's')
        return [('the length is kept', m == n), ('every character follows the rule', z3.Implies(z3.ULT(K, n), S.at(X, K) == self.rule(S.at(A, K))))]
    def candidates(self, ctx):
        ex = ctx.ex; p = ex.world.s; A0 = ex.fc_old; out = []
        def c(nm, g):
            def body(ex, st, vs):
                i = g(ex, st, vs); n, K0, A = S.value(ex, ex.fc_old, p); X = S.arr(ex, st, p)
                return z3.And([z3.And(z3.Implies(z3.And(z3.ULT(K, i), z3.ULT(K, n)), S.at(X, K) == self.rule(S.at(A, K))), z3.Implies(z3.And(z3.UGE(K, i), z3.ULT(K, n)), S.at(X, K) == S.at(A, K))) for K in (K0, B(0))])
            return body
        for nm, g in ctx.numeric():
            for nm2, g2 in ctx.numeric():
                if nm2 > nm: out.append(Cand('%s is %s' % (nm, nm2), lambda ex, st, vs, g=g, g2=g2: g(ex, st, vs) == g2(ex, st, vs)))
            out.append(Cand('characters up to %s follow the rule' % nm, c(nm, g))); out.append(Cand('%s within' % nm, lambda ex, st, vs, g=g: z3.ULE(g(ex, st, vs), S.length(ex, st, p))))
        return out
class PromMunge(Munge):
    dem = 'istat::prom_munge(%s&)' % STR; uses = (PromChar,)
    def rule(self, c): return PromChar.rule(self, c)
    def ensures(self, ex, o, st, a, r):
        self.bind(a); n, K, A = self.v(ex, o, 's'); m, _, X = self.v(ex, st, 's'); c0 = S.at(A, B(0)); d = z3.If(z3.And(n != 0, z3.UGE(c0, 48), z3.ULE(c0, 57)), B(1), B(0))
        return [('one underscore goes in front of a digit', z3.And(m == n + d, z3.Implies(z3.And(d == 1, K == 0), S.at(X, K) == ord('_')))), ('every character follows the rule', z3.Implies(z3.ULT(K, n), S.at(X, K + d) == self.rule(S.at(A, K))))]
class FileName(Munge):
    dem = 'istat::counter_filename(%s const&)' % STR; names = ('s', 'ret'); order = ('ret', 's'); outs = ('ret',); uses = ()
    def rule(self, c): return z3.If(c == ord('.'), z3.BitVecVal(ord('/'), 8), c)
    def args(self, ex): ex.world.s = self.p['ret']; return [self.p['ret'], self.p['s']]
    def ensures(self, ex, o, st, a, r):
        self.bind(a); n, K, A = self.v(ex, o, 's'); m, _, X = self.v(ex, st, 'ret')
        return [('the length is kept', m == n), ('dots become slashes, the rest is kept', z3.Implies(z3.ULT(K, n), S.at(X, K) == self.rule(S.at(A, K))))]
    def candidates(self, ctx):
        ex = ctx.ex; p = self.p['ret']; out = []
        def body(ex, st, vs, g):
            i = g(ex, st, vs); n, K, A = S.value(ex, ex.fc_old, self.p['s']); X = S.arr(ex, st, p)
            return z3.And(z3.Implies(z3.And(z3.ULT(K, i), z3.ULT(K, n)), S.at(X, K) == self.rule(S.at(A, K))), z3.Implies(z3.And(z3.UGE(K, i), z3.ULT(K, n)), S.at(X, K) == S.at(A, K)))
        for nm, g in ctx.numeric():
            out.append(Cand('characters up to %s follow the rule' % nm, lambda ex, st, vs, g=g: body(ex, st, vs, g))); out.append(Cand('%s within' % nm, lambda ex, st, vs, g=g: z3.ULE(g(ex, st, vs), S.length(ex, st, p))))
        return out
# ------------------------------------------------------------------------------------------------ hierarchical names (C18)
CARET = z3.BitVecVal(ord('^'), 8)
def note_find(ex, st, s, ch, r): 
    w = ex.world
    if getattr(w, 'src', None) is not None and s.r is w.src.r and not z3.is_expr(st.ghost.get('p0')): st.setg('p0', r)
class ExtractCtrs(Str):
    dem = 'istat::extract_ctrs(%s const&, std::vector<%s, std::allocator<%s > >&, %s&)' % (STR, STR, STR, STR); names = ('s', 'prombase'); outs = ('prombase',); unroll = 1
    def args(self, ex):
        w = ex.world; w.src = self.p['s']; self.vec = Region('subs', size=24, lazy=True); ex.note_find = note_find
        def push(ex, st, a, ctx):
            if not (isinstance(a[0], Ptr) and a[0].r is self.vec): raise Unsupported('another vector')
            lib.assumed(ex, 'std::vector::push_back appends'); p0 = st.ghost.get('p0')
            if not z3.is_expr(p0): raise Unsupported('a name before the first caret is looked for')
            n, K, A = S.value(ex, st, w.src); m, wt, X = S.value(ex, st, a[1]); whole = p0 == S.NPOS; trail = z3.And(z3.Not(whole), m == p0)
            b = z3.If(p0 == 0, B(0), p0 + 1); p = K - wt + b; q = p + (m - b); inP = z3.And(z3.UGE(K, p), z3.ULT(K, q)); wt2 = wt
            ob = lambda nm, c: ex.obligation(st, nm, c, 'pre')
            ob('a name without carets is used as it is', z3.Implies(whole, z3.And(m == n, n != 0, z3.Implies(z3.ULT(K, n), z3.And(S.at(A, K) != CARET, S.at(X, K) == S.at(A, K))))))
            ob('only a trailing caret yields the base itself', z3.Implies(trail, z3.And(p0 != 0, S.at(A, n - 1) == CARET, z3.Implies(z3.ULT(K, p0), S.at(X, K) == S.at(A, K)))))
            piece = z3.And(z3.Not(whole), z3.Not(trail))
            ob('a name is the base, a dot, and one part', z3.Implies(piece, z3.And(z3.UGT(m, b), z3.UGT(p, p0), z3.ULE(q, n), z3.ULE(m, n + 1), z3.Implies(z3.ULT(K, p0), z3.And(S.at(A, K) != CARET, S.at(X, K) == S.at(A, K))), z3.Implies(p0 != 0, S.at(X, p0) == ord('.')),
                z3.Implies(inP, z3.And(S.at(A, K) != CARET, S.at(X, K - p + b) == S.at(A, K))))))
            ob('a part lies between carets', z3.Implies(piece, z3.And(S.at(A, p - 1) == CARET, z3.Or(q == n, S.at(A, q) == CARET))))
            st.setg('cK', st.ghost['cK'] + z3.If(z3.Or(z3.And(whole, z3.ULT(K, n)), z3.And(piece, inP)), B(1), B(0))); st.setg('tr', st.ghost['tr'] + z3.If(trail, B(1), B(0))); st.setg('names', st.ghost['names'] + 1)
        ex.add_lib(lambda d: d.startswith('std::vector<' + STR) and '::push_back(' in d, push)
        return [self.p['s'], Ptr(self.vec), self.p['prombase']]
    def setup(self, ex):
        st, a = Str.setup(self, ex); st.setg('cK', B(0)); st.setg('tr', B(0)); st.setg('names', B(0)); return st, a
    def bind(self, a): pass
    def modifies(self, ex, st, a): return Str.modifies(self, ex, st, a) | {('ghost', k) for k in ('cK', 'tr', 'p0', 'names')}
    def ensures(self, ex, o, st, a, r):
        n, K, A = self.v(ex, o, 's'); m, _, X = self.v(ex, st, 'prombase'); p0 = st.ghost.get('p0'); on, _, OX = self.v(ex, o, 'prombase')
        if not z3.is_expr(p0): p0 = z3.BitVecVal(S.NPOS, 64)
        no = p0 == S.NPOS; g = st.ghost
        return [('the first caret ends the base', z3.Implies(z3.Not(no), z3.And(z3.ULT(p0, n), S.at(A, p0) == CARET))),
                ('every character after the base is part of exactly one name', z3.Implies(z3.And(z3.ULT(K, n), S.at(A, K) != CARET, z3.Or(no, z3.UGT(K, p0))), g['cK'] == 1)),
                ('the base itself is a name exactly with a trailing caret', z3.Implies(z3.Not(no), g['tr'] == z3.If(z3.And(p0 != 0, S.at(A, n - 1) == CARET), B(1), B(0)))),
                ('the Prometheus base is what precedes the first caret', z3.If(n == 0, m == on, z3.And(m == z3.If(no, n, p0), z3.Implies(z3.ULT(K, m), S.at(X, K) == S.at(A, K))))),
                ('a name without carets gives one name, nothing gives none', z3.Implies(no, g['names'] == z3.If(n == 0, B(0), B(1))))]
    def candidates(self, ctx):
        out = []; src = self.p['s']
        for nm, g in ctx.numeric():
            if nm.startswith('ghost'): continue
            def c(f): return lambda ex, st, vs, g=g: f(g(ex, st, vs), *S.value(ex, st, src), st.ghost)
            out.append(Cand('caret at %s' % nm, c(lambda i, n, K, A, G: z3.And(z3.ULT(i, n), S.at(A, i) == CARET, z3.UGE(i, G['p0'])))))
            out.append(Cand('parts up to %s are named' % nm, c(lambda i, n, K, A, G: G['cK'] == z3.If(z3.And(z3.UGT(K, G['p0']), z3.ULT(K, i), S.at(A, K) != CARET), B(1), B(0)))))
        out.append(Cand('no trailing name yet', lambda ex, st, vs: st.ghost['tr'] == 0))
        return out
# ------------------------------------------------------------------------------------------------ explode
class Explode(Str):
    dem = 'istat::explode(%s const&, char, std::vector<%s, std::allocator<%s > >&)' % (STR, STR, STR); names = ('s',); outs = (); unroll = 1; uses = (Split,)
    def args(self, ex):
        w = ex.world; self.vec = Region('parts', size=24, lazy=True)
        def push(ex, st, a, ctx):
            lib.assumed(ex, 'std::vector::push_back appends'); n, K, A = S.value(ex, st, self.p['s']); m, wt, X = S.value(ex, st, a[1]); p = K - wt; q = p + m; inP = z3.And(z3.UGE(K, p), z3.ULT(K, q))
            ex.obligation(st, 'a part is a piece of the text without separators', z3.And(z3.ULE(p, n), z3.ULE(m, n), z3.ULE(q, n), z3.Implies(inP, z3.And(S.at(A, K) != CH, S.at(X, wt) == S.at(A, K)))), 'pre')
            ex.obligation(st, 'a part ends at a separator or at the end', z3.Or(z3.And(q == n, m != 0), z3.Implies(K == q, S.at(A, K) == CH)), 'pre')
            ex.obligation(st, 'a part starts where the one before ended', p == st.ghost['end'], 'pre')
            st.setg('cK', st.ghost['cK'] + z3.If(inP, B(1), B(0))); st.setg('eK', st.ghost['eK'] + z3.If(z3.And(q == K, z3.ULT(K, n)), B(1), B(0))); st.setg('end', q + 1)
        ex.add_lib(lambda d: d.startswith('std::vector<' + STR) and '::push_back(' in d, push)
        return [self.p['s'], CH, Ptr(self.vec)]
    def setup(self, ex):
        st, a = Str.setup(self, ex)
        for k in ('cK', 'eK', 'end'): st.setg(k, B(0))
        return st, a
    def bind(self, a): pass
    def modifies(self, ex, st, a): return {('ghost', k) for k in ('cK', 'eK', 'end')}
    def ensures(self, ex, o, st, a, r):
        n, K, A = self.v(ex, o, 's'); g = st.ghost
        return [('every character is in exactly one part', z3.Implies(z3.ULT(K, n), z3.If(S.at(A, K) != CH, z3.And(g['cK'] == 1, g['eK'] == 0), z3.And(g['cK'] == 0, g['eK'] == 1)))), ('the parts reach the end of the text', z3.UGE(g['end'], n))]
    def candidates(self, ctx):
        out = []; ex = ctx.ex; src = self.p['s']
        for r, key in [m for m in ctx.modified if m[0] != 'ghost']:
            p = ex.__dict__.get('_strchars', {}).get(('of', r.id))
            if p is None: continue
            def f(ex, st, vs, p=p):
                n, K, A = S.value(ex, st, src); m, wt, X = S.value(ex, st, p); g = st.ghost; q = g['end']; done = z3.And(z3.ULT(K, q), z3.ULT(K, n))
                return z3.And(z3.Or(z3.And(m == 0, z3.UGE(q, n)), z3.And(q + m == n, z3.ULE(q, n), wt == K - q, z3.Implies(z3.And(z3.UGE(K, q), z3.ULT(K, n)), S.at(X, wt) == S.at(A, K)))),
                              z3.ULE(q, n + 1), g['cK'] == z3.If(z3.And(done, S.at(A, K) != CH), B(1), B(0)), g['eK'] == z3.If(z3.And(done, S.at(A, K) == CH), B(1), B(0)))
            out.append(Cand('what is left of %s' % r.name, f))
        return out
# ------------------------------------------------------------------------------------------------ quoting (C22)
# OFF(i): where character i of the text starts in the quoted text: OFF(0) = 0, OFF(i+1) = OFF(i) + the length of its escape (1 or 2).  Instances are used at the positions the loop is at.
OFF = z3.Function('OFF', BV64, BV64)
SQL = {92: 92, 39: 39, 34: 34, 37: 37, 95: 95, 0: 48, 8: 98, 9: 116, 10: 110, 13: 114, 26: 90}; JS = {k: v for k, v in SQL.items() if k not in (37, 95, 26)}
def special(T, c): return z3.Or([c == k for k in T])
def escaped(T, c):
    e = z3.BitVecVal(0, 8)
    for k, v in T.items(): e = z3.If(c == k, z3.BitVecVal(v, 8), e)
    return e
def ss(p):
    if not isinstance(p, Ptr) or p.r is None or p.r.stride: raise Unsupported('stream')
    return Ptr(p.r)
def streams(ex):
    """std::stringstream as the string written so far"""
    O = 'std::basic_ostream<char, std::char_traits<char> >& std::operator<< <std::char_traits<char> >(std::basic_ostream<char, std::char_traits<char> >&, '
    def out(kind):
        def h(ex, st, a, ctx):
            lib.assumed(ex, 'std::stringstream collects what is written to it'); s = ss(a[0]); hook = ex.__dict__.get('before_write')
            if hook: hook(ex, st, s, ctx)
            put = S.literal(ex, st, a[1]) if kind == 'text' else (B(1), B(0), z3.Store(z3.K(BV64, z3.BitVecVal(0, 8)), B(0), bv(a[1], 8)))
            v = S.value(ex, st, s)
            if z3.is_bv_value(put[0]) and put[0].as_long() <= 4:
                A = v[2]
                for i in range(put[0].as_long()): A = z3.Store(A, v[0] + i, z3.simplify(z3.Select(put[2], B(i))))
                S.put(ex, st, s, (z3.simplify(v[0] + put[0]), v[1], A))
            else: S.put(ex, st, s, S.cat(v, put))
            return a[0]
        return h
    ex.add_lib(lambda d: d.startswith(O + 'char const*)'), out('text')); ex.add_lib(lambda d: d.startswith(O + 'char)'), out('char'))
    def ctor(ex, st, a, ctx): S.put(ex, st, ss(a[0]), S.EMPTY())
    def text(ex, st, a, ctx): S.put(ex, st, a[0], S.value(ex, st, ss(a[1])))
    SSN = 'std::__cxx11::basic_stringstream<char, std::char_traits<char>, std::allocator<char> >::'
    ex.add_lib(lambda d: re.sub(r'\[abi:\w+\]', '', d).startswith(SSN + 'basic_stringstream()'), ctor); ex.add_lib(lambda d: d.startswith(SSN + '~'), lib.h_nop); ex.add_lib(lambda d: d.startswith(SSN + 'str() const'), text)
import re
def indices(ex, st, r):
    """positions that pointers held in local variables have in region r"""
    out = {}
    for rid, cells in st.mem.items():
        for k, c in cells.items():
            v = c[1] if isinstance(c, tuple) and len(c) == 2 else None
            if isinstance(v, Ptr) and v.r is r: t = bv(v.off.value(), 64); out[t.get_id()] = t
    return list(out.values())[:6]
class Quote(Str):
    T = SQL; fn = 'sql_quote'; names = ('s', 'ret'); order = ('ret', 's'); outs = ('ret',); libs = (streams,) + Str.libs; unroll = 1
    @property
    def dem(self): return 'istat::%s(%s const&)' % (self.fn, STR)
    def args(self, ex):
        w = ex.world; src = self.p['s']; n, K, A = S.value(ex, self.st0, src); T = self.T
        self.nxt = lambda i: OFF(i + 1) == OFF(i) + z3.If(special(T, S.at(A, i)), B(2), B(1))
        def hook(ex, st, s, ctx):
            w.stream = s
            for i in indices(ex, st, S.chars(ex, src)): st.assume(z3.Implies(z3.ULT(i, n), z3.And(self.nxt(i), z3.ULE(OFF(i), i + i))))
        ex.before_write = hook
        return [self.p['ret'], src]
    def setup(self, ex):
        st, a = Str.setup(self, ex); n, K, A = self.v(ex, st, 's'); st.assume(OFF(B(0)) == 0); st.assume(z3.Implies(z3.ULT(K, n), self.nxt(K))); return st, a
    def enc(self, X, i, c): return z3.If(special(self.T, c), z3.And(S.at(X, OFF(i)) == 92, S.at(X, OFF(i) + 1) == escaped(self.T, c)), S.at(X, OFF(i)) == c)
    def ensures(self, ex, o, st, a, r):
        self.bind(a); n, K, A = self.v(ex, o, 's'); m, _, X = self.v(ex, st, 'ret')
        return [('the quoted text is the escapes one after the other', m == OFF(n)), ('every character has its escape in its place', z3.Implies(z3.ULT(K, n), z3.And(self.enc(X, K, S.at(A, K)), z3.ULE(OFF(K + 1), m))))]
    def candidates(self, ctx):
        out = []; ex = ctx.ex
        for nm, g in ctx.numeric():
            if nm.startswith('ghost'): continue
            for r in [m[0] for m in ctx.modified if m[0] != 'ghost' and ex.__dict__.get('_strchars', {}).get(('of', m[0].id)) is not None]:
                p = ex._strchars[('of', r.id)]
                def f(ex, st, vs, g=g, p=p):
                    i = g(ex, st, vs); n, K, A = S.value(ex, ex.fc_old, self.p['s']); m, _, X = S.value(ex, st, p)
                    if not indices(ex, st, S.chars(ex, self.p['s'])): st.assume(z3.Implies(z3.ULT(i, n), z3.And(self.nxt(i), z3.ULE(OFF(i), i + i))))  # an instance of the definition of OFF
                    return z3.And(z3.ULE(i, n), m == OFF(i), z3.ULE(OFF(i), i + i), z3.Implies(z3.ULT(K, i), z3.And(self.enc(X, K, S.at(A, K)), z3.ULE(OFF(K + 1), OFF(i)), z3.ULE(OFF(K), K + K))))
                out.append(Cand('%s quoted up to %s' % (r.name, nm), f))
        return out
class QuoteJs(Quote): T = JS; fn = 'js_quote'
class Unquote(Quote):
    """given the quoted form of a text A (as the contract of quote states it), the result is A"""
    fn = 'sql_unquote'
    def setup(self, ex):
        st, a = Quote.setup(self, ex); return st, a
    def args(self, ex):
        w = ex.world; src = self.p['s']; T = self.T; n, K, I = S.value(ex, self.st0, src); w.A = z3.Array('characters of the original', BV64, BV8); w.N = z3.BitVec('length of the original', 64); self.I = I
        self.nxt = lambda i: z3.Implies(z3.ULT(i, w.N), z3.And(OFF(i + 1) == OFF(i) + z3.If(special(T, S.at(w.A, i)), B(2), B(1)), self.enc(I, i, S.at(w.A, i)), z3.ULE(OFF(i), i + i), z3.ULE(OFF(i + 1), n)))
        def hook(ex, st, s, ctx):
            m = S.length(ex, st, s)
            for i in (m, m + 1, K): st.assume(self.nxt(i))
        ex.before_write = hook
        return [self.p['ret'], src]
    def requires(self, ex, st, a): w = ex.world; n, K, I = self.v(ex, st, 's'); return [('the text is a quoted text', z3.And(z3.ULT(w.N, 1 << 39), n == OFF(w.N), self.nxt(B(0)), self.nxt(K)))]
    def ensures(self, ex, o, st, a, r):
        w = ex.world; self.bind(a); n, K, I = self.v(ex, o, 's'); m, _, X = self.v(ex, st, 'ret'); return [('the original length', m == w.N), ('the original characters', z3.Implies(z3.ULT(K, w.N), S.at(X, K) == S.at(w.A, K)))]
    def candidates(self, ctx):
        out = []; ex = ctx.ex; w = ex.world
        for nm, g in ctx.numeric():
            if nm.startswith('ghost'): continue
            for r in [m[0] for m in ctx.modified if m[0] != 'ghost' and ex.__dict__.get('_strchars', {}).get(('of', m[0].id)) is not None]:
                p = ex._strchars[('of', r.id)]
                flags = [(q, k) for q, k in ctx.modified if q != 'ghost' and not q.stride and not isinstance(k, tuple) and ctx.st.cells(q).get(k, (0,))[0] == 1]
                for kind in range(len(ctx.phis) + len(flags)):
                    def f(ex, st, vs, g=g, p=p, kind=kind, part=0):
                        if kind < len(ctx.phis):
                            ph = ctx.phis[kind]
                            if ph.ty.kind != 'int' or ph.ty.width > 8: return z3.BoolVal(False)
                            q = z3.Extract(0, 0, bv(vs[ph.id], ph.ty.width)) == 1
                        else: c = flags[kind - len(ctx.phis)]; q = z3.Extract(0, 0, bv(st.cells(c[0])[c[1]][1], 8)) == 1
                        i = g(ex, st, vs); n, K, I = S.value(ex, ex.fc_old, self.p['s']); m, _, X = S.value(ex, st, p)
                        return [z3.ULE(i, n), z3.ULE(m, w.N), self.nxt(m), z3.If(q, z3.And(z3.ULT(m, w.N), i == OFF(m) + 1, S.at(self.I, OFF(m)) == 92), i == OFF(m)), z3.Implies(z3.ULT(K, m), S.at(X, K) == S.at(w.A, K)), z3.ULE(OFF(m), m + m)][part]
                    for part in range(6): out.append(Cand('%s unquoted up to %s (%d.%d)' % (r.name, nm, kind, part), lambda ex, st, vs, f=f, part=part: f(ex, st, vs, part=part)))
        return out
class UnquoteJs(Unquote): T = JS; fn = 'js_unquote'
# ------------------------------------------------------------------------------------------------ durations (C23)
UNITS = (('s', 1), ('m', 60), ('h', 3600), ('d', 86400), ('y', 31536000))
class ToInterval(Str):
    """every group written is a count and a unit; the groups are in descending order of unit and add up to the duration"""
    dem = 'istat::seconds_to_interval[abi:cxx11](long)'; names = ('ret',); outs = ('ret',); SECS = z3.BitVec('seconds', 64); unroll = 40; lightfirst = True
    def libinst(self, ex):
        O = 'std::basic_ostream<char, std::char_traits<char> >& std::operator<< <std::char_traits<char> >(std::basic_ostream<char, std::char_traits<char> >&, char const*)'
        def num(ex, st, a, ctx):
            if st.ghost['digits'] is not False and z3.is_true(st.ghost['digits']): ex.obligation(st, 'a count is followed by its unit', False, 'pre')
            lib.assumed(ex, 'std::stringstream writes numbers in decimal'); n = bv(a[1], 64); st.setg('n', n)
            if z3.is_app(n) and n.decl().kind() in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I):
                x, d = n.arg(0), n.arg(1); ex.obligation(st, 'each count is taken from what remains', x == self.SECS - st.ghost['sum'], 'pre'); st.assume(z3.Implies(z3.And(x >= 0, d > 0), z3.And(x - d * n >= 0, x - d * n < d)))
            st.setg('digits', z3.BoolVal(True)); return a[0]
        def unit(ex, st, a, ctx):
            n, _, A = S.literal(ex, st, a[1]); u = ''.join(chr(z3.simplify(z3.Select(A, B(i))).as_long()) for i in range(n.as_long())); g = st.ghost
            if u not in dict(UNITS): ex.obligation(st, 'a unit is one of s, m, h, d, y', False, 'pre'); return a[0]
            size = dict(UNITS)[u]; ex.obligation(st, 'a unit follows a count', g['digits'], 'pre'); ex.obligation(st, 'units are in descending order', z3.ULT(B(size), g['last']), 'pre')
            ex.obligation(st, 'a count is positive', g['n'] > 0, 'pre')
            st.setg('sum', g['sum'] + g['n'] * size); st.setg('last', B(size)); st.setg('digits', z3.BoolVal(False)); st.setg('groups', g['groups'] + 1); return a[0]
        ex.add_lib(lambda d: d == O, unit); ex.add_lib(lambda d: re.sub(r'\[abi:\w+\]', '', d).startswith(('std::ostream::operator<<(unsigned long)', 'std::ostream::operator<<(long)')), num)
        SSN = 'std::__cxx11::basic_stringstream<char, std::char_traits<char>, std::allocator<char> >::'
        ex.add_lib(lambda d: re.sub(r'\[abi:\w+\]', '', d).startswith(SSN) and ('basic_stringstream()' in d or '::~' in d), lib.h_nop)
        def text(ex, st, a, ctx):
            n = z3.FreshConst(BV64, 'len'); st.assume((n == 0) == (st.ghost['groups'] == 0)); st.assume(z3.ULT(n, 1 << 10)); S.put(ex, st, a[0], (n, B(0), z3.FreshConst(z3.ArraySort(BV64, BV8), 'text')))
        ex.add_lib(lambda d: re.sub(r'\[abi:\w+\]', '', d).startswith(SSN + 'str() const'), text)
    def args(self, ex): self.libinst(ex); return [self.p['ret'], self.SECS]
    def setup(self, ex):
        st, a = Str.setup(self, ex)
        for k, v in (('n', B(0)), ('sum', B(0)), ('last', B(1 << 40)), ('groups', B(0)), ('digits', z3.BoolVal(False))): st.setg(k, v)
        return st, a
    def requires(self, ex, st, a): return [('a duration', z3.And(self.SECS >= 0, self.SECS < (1 << 47)))]
    def modifies(self, ex, st, a): return Str.modifies(self, ex, st, a) | {('ghost', k) for k in ('n', 'sum', 'last', 'groups', 'digits')}
    def ensures(self, ex, o, st, a, r):
        n, _, X = self.v(ex, st, 'ret'); g = st.ghost
        return [('the groups add up to the duration', g['sum'] == self.SECS), ('every count has its unit', z3.Not(g['digits'])), ('no time at all is written 0s', z3.Implies(g['groups'] == 0, z3.And(n == 2, S.at(X, B(0)) == ord('0'), S.at(X, B(1)) == ord('s'))))]
NG = z3.BitVec('n_groups', 64); UNIT = z3.Function('unit', BV64, BV8); SUM = z3.Function('SUM', BV64, BV64)
def usize(u):
    e = B(0)
    for x, n in UNITS: e = z3.If(u == ord(x), B(n), e)
    return e
class FromInterval(FC):
    """the value of a duration is the sum of its groups; SUM(i) is the sum of the first i groups"""
    dem = 'istat::interval_to_seconds(%s const&)' % STR; unroll = 12; autokeep = ('none of them',)
    @property
    def libs(self): return (self.own, lib.base, lib.opaque_strings)
    def own(self, ex):
        w = ex.world = W(); w.els = Region('groups', stride=40, lazy=True, count=NG); w.els.leaves = {0: T64, 8: T64}; w.els.rec = None; ex.objects = []; w.src = Region('s', size=32, lazy=True)
        def split(ex, st, a, ctx):
            if ctx.inst.ty.kind != 'void': raise Unsupported('another split')
            lib.assumed(ex, 'the static parser split() of strfunc.cpp delivers the groups of the text, or throws (bounded search)'); p = a[1]; s2 = st.clone(); ex.store(st, p, TP, Ptr(w.els), check=False); ex.store(st, p.plus(8), TP, Ptr(w.els, Off(0, {NG: 40})), check=False); ex.store(st, p.plus(16), TP, Ptr(w.els, Off(0, {NG: 40})), check=False)
            return [Outcome('ret', st, None), Outcome('throw', s2, Exc('std::runtime_error'))]
        def eq(ex, st, a, ctx):
            p = a[0]
            if not (isinstance(p, Ptr) and p.r is w.els): raise Unsupported('another comparison')
            i = Off(p.off.c - 8, p.off.t).div(40); i = bv(i.value(), 64); n, _, A = S.literal(ex, st, a[1])
            ok = UNIT(i) == z3.simplify(z3.Select(A, B(0))) if n.as_long() == 1 else z3.BoolVal(False)
            c = z3.Select(st.arr(w.els, 0), i); st.assume(z3.And([z3.Implies(UNIT(i) == ord(u), SUM(i + 1) == SUM(i) + c * n) for u, n in UNITS]))
            return ok
        V = 'std::vector<std::pair<long, ' + STR
        self.lib = [(lambda d: d.startswith('istat::split(') and 'std::vector<std::pair' in d, split), (lambda d: 'operator==' in d and d.rstrip().endswith('char const*)'), eq)]
        for q, h in self.lib: ex.add_lib(q, h)
        def vctor(ex, st, a, ctx):
            for k in (0, 8, 16): ex.store(st, a[0].plus(k), TP, NULL, check=False)
        ex.add_lib(lambda d: d.startswith(V) and '::vector()' in d, vctor); ex.add_lib(lambda d: d.startswith(V) and '::~vector()' in d, lib.h_nop)
    def setup(self, ex):
        st = State(ex); w = ex.world; st.assume(SUM(B(0)) == 0); return st, [Ptr(w.src)]
    def requires(self, ex, st, a): return [('groups', z3.And(NG >= 0, NG < (1 << 30)))]
    def ensures(self, ex, o, st, a, r): return [('the duration is the sum of its groups', bv(r, 64) == SUM(NG)), ('every unit is known', z3.Implies(z3.ULT(z3.BitVec('KG', 64), NG), usize(UNIT(z3.BitVec('KG', 64))) != 0))]
    def throws(self, ex, o, st, a, exc): return []
    def candidates(self, ctx):
        out = []; KG = z3.BitVec('KG', 64)
        num = [x for x in ctx.numeric() if not x[0].startswith('ghost')]
        for nm, g in num:
            out.append(Cand('%s within' % nm, lambda ex, st, vs, g=g: z3.ULE(g(ex, st, vs), NG))); out.append(Cand('units up to %s known' % nm, lambda ex, st, vs, g=g: z3.Implies(z3.ULT(KG, g(ex, st, vs)), usize(UNIT(KG)) != 0)))
            for nm2, g2 in num:
                if nm2 != nm: out.append(Cand('%s is the sum up to %s' % (nm2, nm), lambda ex, st, vs, g=g, g2=g2: g2(ex, st, vs) == SUM(g(ex, st, vs))))
        return out

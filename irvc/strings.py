"""A model of std::string: the length is ghost state of the string object, the characters are an array that belongs to it.
Facts about all characters (what find_first_of skipped) are used at one arbitrary watched index per string, so that a postcondition about that index holds for every index.
Every operation is an assumed contract of the standard library."""
import z3, re
from .core import *
from . import lib
STR = lib.STR; NPOS = M64
def w64(v): return bv(v, 64)
def sid(p):
    if not isinstance(p, Ptr) or p.r is None: raise Unsupported('string at an unknown address')
    c = p.off.const()
    if c is None or p.r.stride: raise Unsupported('string inside an array')
    return p.r, c
def chars(ex, p):
    r, c = sid(p); box = ex.__dict__.setdefault('_strchars', {})
    k = (r.id, c)
    if k not in box:
        n = box[k] = Region('chars of %s%s' % (r.name, '+%d' % c if c else ''), stride=1, lazy=True, kind='temp' if r.kind in ('stack', 'temp') else 'heap'); n.leaves = {0: T8}; n.rec = None; box[('of', n.id)] = p
    return box[k]
def key(p): r, c = sid(p); return 'str:%d_%d' % (r.id, c)
def raw(ex, st, p):
    g = st.ghost.get(key(p))
    if g is None:
        k = key(p); g = (z3.BitVec('len_' + k, 64), z3.BitVec('watch_' + k, 64)); st.ghost[k] = g
    return g
def length(ex, st, p):
    n = raw(ex, st, p)[0]
    if not z3.is_bv_value(n): st.assume(z3.ULT(n, 1 << 40))
    return n
def watch(ex, st, p): return raw(ex, st, p)[1]
def arr(ex, st, p): return st.arr(chars(ex, p), 0)
def value(ex, st, p): return length(ex, st, p), watch(ex, st, p), arr(ex, st, p)
def put(ex, st, p, v):
    n, wt, a = v; ex.__dict__.setdefault('_strowner', {})[key(p)] = p.r; st.setg(key(p), (w64(n), w64(wt))); st.setarr(chars(ex, p), 0, a)
def at(a, i): return z3.simplify(z3.Select(a, w64(i))) if False else z3.Select(a, w64(i))
KX = z3.BitVec('k!str', 64)
def sub(v, p, n):
    ln, wt, a = v; p = w64(p); n = w64(n); rest = ln - p; m = z3.If(z3.ULT(rest, n), rest, n)
    return z3.simplify(m), z3.simplify(wt - p), a if z3.is_bv_value(z3.simplify(p)) and z3.simplify(p).as_long() == 0 else z3.Lambda([KX], z3.Select(a, KX + p))
def cat(x, y): return z3.simplify(x[0] + y[0]), y[1] + x[0], z3.Lambda([KX], z3.If(z3.ULT(KX, x[0]), z3.Select(x[2], KX), z3.Select(y[2], KX - x[0])))
def literal(ex, st, p):
    out = []
    if not isinstance(p, Ptr) or p.r is None or not p.r.const: raise Unsupported('text that is not a constant')
    for i in range(300):
        c = ex.load(st, p.plus(i), T8)
        c = z3.simplify(bv(c, 8))
        if not z3.is_bv_value(c): raise Unsupported('text that is not a constant')
        if c.as_long() == 0: break
        out.append(c.as_long())
    a = z3.K(BV64, z3.BitVecVal(0, 8))
    for i, c in enumerate(out): a = z3.Store(a, w64(i), z3.BitVecVal(c, 8))
    return w64(len(out)), w64(0), a
EMPTY = lambda: (w64(0), w64(0), z3.K(BV64, z3.BitVecVal(0, 8)))
def find(ex, st, s, ch, frm, after=True):
    """the first (from frm) position of ch in s, or npos"""
    n, wt, a = value(ex, st, s); r = fresh('pos', 64); ch = bv(ch, 8); frm = w64(frm)
    found = z3.And(z3.ULE(frm, r), z3.ULT(r, n), z3.Select(a, r) == ch)
    skip = lambda i: z3.Implies(z3.And(z3.ULE(frm, i), z3.ULT(i, n), z3.Or(r == NPOS, z3.ULT(i, r))), z3.Select(a, i) != ch)
    st.assume(z3.Or(r == NPOS, found)); st.assume(skip(wt)); st.assume(skip(frm)); st.assume(skip(n - 1))
    for i in ex.__dict__.get('watched', lambda *x: ())(ex, st, s): st.assume(skip(w64(i)))
    h = ex.__dict__.get('note_find')
    if h and z3.is_bv_value(frm) and frm.as_long() == 0: h(ex, st, s, ch, r)
    return r
def sig(dem): return re.sub(r'\[abi:\w+\]', '', dem).replace(STR, 'S')
def h_str(ex, st, a, ctx):
    lib.assumed(ex, 'std::string behaves as documented (length, characters, find_first_of, substr, assignment, concatenation; strings shorter than 2^40)')
    d = sig(ctx.dem); m = lib.method(ctx.dem); P = lambda i: a[i]
    if d.startswith('S::'):
        d = d[3:]
        if d in ('length() const', 'size() const'): return length(ex, st, a[0])
        if d == 'empty() const': return length(ex, st, a[0]) == 0
        if d == 'max_size() const': return w64(1 << 40)
        if d.startswith('operator[]('):
            n = length(ex, st, a[0]); ex.obligation(st, 'character index is inside the string', z3.ULE(w64(a[1]), n), 'safety'); r = chars(ex, a[0]); A = st.arr(r, 0)
            st.assume(z3.Select(A, n) == 0)
            return Ptr(r, ex_off(a[1]))
        if d in ('begin()', 'begin() const'): return Ptr(chars(ex, a[0]))
        if d in ('end()', 'end() const'): return Ptr(chars(ex, a[0]), ex_off(length(ex, st, a[0])))
        if d in ('clear()',): put(ex, st, a[0], EMPTY()); return None
        if d.startswith('push_back(char)'):
            v = value(ex, st, a[0]); put(ex, st, a[0], (v[0] + 1, v[1], z3.Store(v[2], v[0], bv(a[1], 8)))); return None
        if d.startswith('resize(unsigned long)'):
            v = value(ex, st, a[0]); n = w64(a[1]); o = v[2]; put(ex, st, a[0], (n, v[1], z3.Lambda([KX], z3.If(z3.And(z3.ULE(v[0], KX), z3.ULT(KX, n)), z3.BitVecVal(0, 8), z3.Select(o, KX))))); return None
        if d.startswith('find_first_of(char, unsigned long) const') or d.startswith('find(char, unsigned long) const'): return find(ex, st, a[0], a[1], a[2])
        if d.startswith('substr('):
            v = value(ex, st, a[1]); ex.obligation(st, 'substr starts inside the string', z3.ULE(w64(a[2]), v[0]), 'safety'); put(ex, st, a[0], sub(v, a[2], a[3])); return None
        if d.startswith('operator=(S const&)') or d.startswith('operator=(S&&)'): put(ex, st, a[0], value(ex, st, a[1])); return a[0]
        if d.startswith('operator=(char const*)') or d.startswith('assign(char const*)'): put(ex, st, a[0], literal(ex, st, a[1])); return a[0]
        if d.startswith('operator+=(S const&)') or d.startswith('append(S const&)'): put(ex, st, a[0], cat(value(ex, st, a[0]), value(ex, st, a[1]))); return a[0]
        if d.startswith('operator+=(char const*)') or d.startswith('append(char const*)'): put(ex, st, a[0], cat(value(ex, st, a[0]), literal(ex, st, a[1]))); return a[0]
        if d.startswith('operator+=(char)'):
            v = value(ex, st, a[0]); put(ex, st, a[0], (v[0] + 1, v[1], z3.Store(v[2], v[0], bv(a[1], 8)))); return a[0]
        if d.startswith('insert(') and 'iterator' in d and d.rstrip(')').endswith('char'):
            p = a[1] if isinstance(a[1], Ptr) else None; r = chars(ex, a[0])
            if p is None or p.r is not r: raise Unsupported('insert position')
            i = w64(p.off.value()); v = value(ex, st, a[0]); o = v[2]; put(ex, st, a[0], (v[0] + 1, v[1], z3.Lambda([KX], z3.If(z3.ULT(KX, i), z3.Select(o, KX), z3.If(KX == i, bv(a[2], 8), z3.Select(o, KX - 1)))))); return p
        if d.startswith('swap('): x, y = value(ex, st, a[0]), value(ex, st, a[1]); put(ex, st, a[0], y); put(ex, st, a[1], x); return None
        if m.startswith('basic_string'):
            if '(S const&)' in d or '(S&&)' in d: put(ex, st, a[0], value(ex, st, a[1])); return None
            if d.endswith('::basic_string()') or d == 'basic_string()': put(ex, st, a[0], EMPTY()); return None
            if '(char const*' in d and 'unsigned long' not in d: put(ex, st, a[0], literal(ex, st, a[1])); return None
            if '(S const&, unsigned long, unsigned long)' in d: put(ex, st, a[0], sub(value(ex, st, a[1]), a[2], a[3])); return None
            h = getattr(ex, 'range_ctor', None)
            if h and ('iterator' in d or 'char*, char*' in d or '(char const*, unsigned long' in d or '(char*, char*' in d or '(char const*, char const*' in d): return h(ex, st, a, ctx)
        if m.startswith('~basic_string'): return None
        raise Unsupported('std::string::' + d[:60])
    if 'operator+' in d:
        o = a[0]; x = value(ex, st, a[1]) if not isinstance(a[1], Ptr) or is_str(d, 0) else literal(ex, st, a[1])
        t = d[d.rindex('('):] if False else d
        args = t[t.index('>(') + 2:] if '>(' in t else t
        ch = lambda c: (w64(1), w64(0), z3.Store(z3.K(BV64, z3.BitVecVal(0, 8)), w64(0), bv(c, 8)))
        parts = [s.strip() for s in split_args(args)]
        vals = [value(ex, st, v) if p.startswith('S') else literal(ex, st, v) if p.startswith('char const*') else ch(v) for p, v in zip(parts, a[1:3])]
        put(ex, st, o, cat(*vals)); return None
    raise Unsupported('string operation ' + d[:80])
def is_str(d, i): return True
def split_args(s):
    out = []; depth = 0; cur = ''
    for c in s:
        if c in '<(': depth += 1
        if c == ')' and depth == 0: break
        if c in '>)': depth -= 1
        if c == ',' and depth == 0: out.append(cur); cur = ''
        else: cur += c
    return out + [cur]
def ex_off(i): return Off(0).add(i)
def is_s(d):
    d = sig(d)
    return d.startswith('S::') or d.startswith('S std::operator+<')
def strings(ex):
    ex.add_lib(is_s, h_str)
    ex.add_lib(lambda d: d.startswith('std::allocator<char>::') or 'std::__new_allocator<char>' in d, lib.h_nop)
def given(ex, st, name, w=None):
    """a string with arbitrary content; its watched index is one arbitrary number"""
    r = Region(name, size=32, kind='heap'); p = Ptr(r); n = z3.BitVec('length of ' + name, 64); A = z3.Array('characters of ' + name, BV64, BV8)
    st.assume(z3.ULT(n, 1 << 40)); st.assume(z3.Select(A, n) == 0)
    st.ghost[key(p)] = (n, w if w is not None else z3.BitVec('K in ' + name, 64)); st.setarr(chars(ex, p), 0, A); return p

"""Assumed contracts of library functions (each one is listed in the evidence as an assumption when it is used)."""
import z3, re
from .core import *

STR = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >'
SS = 'std::__cxx11::basic_stringstream<char'

def assumed(ex, what): ex.rep.assumed.add(what)

def method(dem):
    """name of the member function in a demangled name (last component before the parameter list)"""
    d = re.sub(r'\[abi:\w+\]', '', dem.replace('(anonymous namespace)', 'anon'))
    depth = 0; cut = None; i = 0
    # 'operator()' and 'operator<<' handling: find the parameter list opening parenthesis at template depth 0
    if 'operator()' in d: return 'operator()'
    k = d.find('operator')
    if k >= 0 and (k == 0 or d[k - 1] in ': '):
        m = re.match(r'operator(<<=?|>>=?|->\*?|<=|>=|==|!=|\+\+|--|\+=|-=|\[\]|<|>|\+|-|\*|=|!|&|/|%| ?new\[\]| ?delete\[\]| ?new| ?delete| [\w:<>\*, ]+)', d[k:])
        if m: return 'operator' + m.group(1).strip()
    for i, c in enumerate(d):
        if c == '<': depth += 1
        elif c == '>': depth -= 1
        elif c == '(' and depth == 0: cut = i; break
    head = d[:cut] if cut is not None else d
    depth = 0; j = len(head)
    while j > 0:
        c = head[j - 1]
        if c == '>': depth += 1
        elif c == '<': depth -= 1
        elif c == ':' and depth == 0: break
        j -= 1
    return re.sub(r'\[abi:\w+\]', '', head[j:])

# ------------------------------------------------------------------------------------------------ logging, exceptions, clock, C library
def h_log(ex, st, args, ctx):
    assumed(ex, 'logging (istat::Log, LogFormatterLog, LogConfig) has no effect on program state and does not throw')
    m = method(ctx.dem)
    if m == 'levelEnabled': return fresh('log', 1)
    ty = ctx.inst.ty
    if ty.kind == 'ptr': return args[0]
    if ty.kind == 'void': return None
    return fresh_of('log', ty)
def is_log(d): return 'istat::Log::' in d or 'istat::LogFormatterLog' in d or 'istat::LogConfig' in d or 'istat::LogInstance' in d

def h_throw(ex, st, args, ctx):
    ti = ctx.inst.ops[2]
    nm = ti_name(ti.name) if ti.k == 'global' else 'any'
    e = Exc(nm)
    if isinstance(args[0], Ptr): e.obj = args[0]
    return Outcome('throw', st, e)
def h_alloc_exc(ex, st, args, ctx):
    return Ptr(Region('exception', size=None, lazy=True, kind='temp'))
def h_begin_catch(ex, st, args, ctx):
    p = args[0]; e = getattr(p.r, 'exc', None) if isinstance(p, Ptr) and p.r is not None else None
    st.ghost['caught'] = (e,) + (st.ghost.get('caught') or ())
    o = getattr(e, 'obj', None)
    return o if o is not None else p
def h_end_catch(ex, st, args, ctx):
    c = st.ghost.get('caught') or ()
    st.ghost['caught'] = c[1:]
    return None
def h_rethrow(ex, st, args, ctx):
    c = st.ghost.get('caught') or ()
    return Outcome('throw', st, c[0] if c else Exc('any'))
def h_assert(ex, st, args, ctx):
    ex.obligation(st, 'assert() holds in ' + short(ctx.fr.F.dem), False, 'safety'); raise PathEnd()
def h_terminate(ex, st, args, ctx):
    ex.obligation(st, 'terminate() is not reached in ' + short(ctx.fr.F.dem), False, 'safety'); raise PathEnd()

def now_bounds(t): return z3.And(t >= 0, t < (1 << 40))
def h_time(ex, st, args, ctx):
    assumed(ex, 'the clock (istattime/time) returns a non-negative, non-decreasing time below 2^40')
    prev = st.ghost.get('now')
    if getattr(ex, 'fixed_clock', False) and prev is not None: t = prev
    else:
        t = fresh('now', 64); st.assume(now_bounds(t))
        if prev is not None: st.assume(t >= prev)
        st.ghost['now'] = t
    p = args[0]
    if isinstance(p, Ptr) and p.r is not None: ex.store(st, p, T64, t, ctx.fr, ctx.inst)
    return t
def h_sysconf(ex, st, args, ctx):
    assumed(ex, 'sysconf(_SC_PAGE_SIZE) is a power of two between 4096 and 65536, always the same')
    t = st.ghost.get('pagesz')
    if t is None:
        t = z3.BitVec('sysconf_pagesize', 64)
        st.ghost['pagesz'] = t; st.assume(z3.Or([t == (1 << k) for k in range(12, 17)]))
    return t
def h_strncpy(ex, st, args, ctx):
    assumed(ex, 'strncpy(d, s, n) writes exactly the n bytes d[0..n)')
    d, s, n = args
    if not isinstance(n, int): raise Unsupported('strncpy length')
    p = ex.resolve(st, d, n, ctx.fr, ctx.inst, True, True); r = p.r; c = p.off.const()
    if c is None: raise Unsupported('strncpy target')
    lt = (r.leaves or {}).get(c)
    if isinstance(lt, tuple):
        if n > lt[1]: ex.obligation(st, 'strncpy stays inside its buffer', False, 'safety')
        old = ex.bytes_leaf(st, r, c); new = z3.FreshConst(z3.ArraySort(BV64, BV8), 'strncpy'); k = z3.BitVec('k!sc', 64)
        st.cells(r, True)[('b', c)] = new if n == lt[1] else z3.Lambda([k], z3.If(z3.ULT(k, n), z3.Select(new, k), z3.Select(old, k)))
        if ex.wlog is not None: ex.wlog.add((r, ('b', c)))
    else:
        for i in range(n): ex.put_cell(st, r, c + i, 1, fresh('sc', 8))
    return d
def h_memcmp(ex, st, args, ctx):
    a, b, n = args
    if not isinstance(n, int) or n > 64: raise Unsupported('memcmp length')
    eqs = []
    for i in range(n):
        x = ex.load(st, a.plus(i), T8, ctx.fr, ctx.inst); y = ex.load(st, b.plus(i), T8, ctx.fr, ctx.inst)
        eqs.append(bv(x, 8) == bv(y, 8))
    r = fresh('memcmp', 32); st.assume((r == 0) == z3.And(eqs)); return r
def h_new(ex, st, args, ctx):
    assumed(ex, 'operator new / malloc succeed and return fresh memory')
    n = args[0]
    k = ex.newcount = getattr(ex, 'newcount', 0) + 1
    r = Region('new%d' % k, size=n if isinstance(n, int) else None, kind='heap')
    if not isinstance(n, int): r.symsize = n
    return Ptr(r)
def h_delete(ex, st, args, ctx):
    p = args[0]
    if not isinstance(p, Ptr) or p.r is None: return None
    if p.r.id in st.dead: ex.obligation(st, 'no double free in ' + short(ctx.fr.F.dem), False, 'safety'); raise PathEnd()
    st.dead = set(st.dead) | {p.r.id}
    return None
def h_nop(ex, st, args, ctx):
    ty = ctx.inst.ty
    if ty.kind == 'void': return None
    if ty.kind == 'ptr': return args[0] if args else NULL
    return fresh_of('lib', ty)
def h_zero(ex, st, args, ctx): return 0
def h_errno(ex, st, args, ctx): return Ptr(Region('errno', size=4, ty=T32, lazy=True, kind='temp'))

def base(ex):
    L = ex.add_lib
    L(is_log, h_log)
    L('__cxa_throw', h_throw); L('__cxa_allocate_exception', h_alloc_exc); L('__cxa_begin_catch', h_begin_catch)
    L('__cxa_end_catch', h_end_catch); L('__cxa_rethrow', h_rethrow); L('__cxa_free_exception', h_nop)
    L('__assert_fail', h_assert); L('std::terminate()', h_terminate); L('__clang_call_terminate', h_terminate)
    L('__gxx_personality_v0', h_nop)
    L('istat::istattime(long*)', h_time); L('time', h_time); L('sysconf', h_sysconf)
    L('strncpy', h_strncpy); L('memcmp', h_memcmp); L('__errno_location', h_errno)
    L('operator new(unsigned long)', h_new); L('operator new[](unsigned long)', h_new); L('malloc', h_new)
    L(lambda d: d.startswith('operator delete'), h_delete); L('free', h_delete)
    L(lambda d: d.startswith('pthread_mutex') or d.startswith('pthread_cond') , h_zero)
    L(lambda d: re.match(r'std::(runtime_error|logic_error|range_error|out_of_range|bad_cast|exception|invalid_argument|length_error)::', d) is not None, h_nop)
    L('sqrt', lambda ex, st, args, ctx: ex.fp.sqrt(args[0]))
    L('__dso_handle', h_nop)

# ------------------------------------------------------------------------------------------------ strings whose content does not matter
def h_str_opaque(ex, st, args, ctx):
    assumed(ex, 'std::string / iostream operations used for messages and paths only touch the string objects themselves')
    m = method(ctx.dem); ty = ctx.inst.ty
    if m in ('c_str', 'data', 'what'): 
        r = getattr(ex, '_opaque_chars', None)
        if r is None: r = ex._opaque_chars = Region('chars', size=None, lazy=True, kind='temp')
        return Ptr(r)
    if ty.kind == 'void': return None
    if ty.kind == 'ptr':
        if m in ('operator[]', 'at', 'begin', 'end', 'front', 'back', 'strerror'): return Ptr(Region('chars', size=None, lazy=True, kind='temp'))
        return args[0] if args else NULL
    v = fresh_of('str', ty)
    if m in ('size', 'length') and ty.kind == 'int' and ty.width == 64: st.assume(z3.ULT(v, 1 << 32))
    return v
def is_strish(d):
    return (d.startswith(STR + '::') or 'std::operator+<char' in d or ' std::operator+<' in d or 'std::operator==<char' in d or SS in d or 'std::ostream::' in d or 'std::basic_ostream<' in d
            or 'boost::lexical_cast<' in d or d in ('strlen', 'strerror') or d.startswith('std::allocator<char>::') or 'std::__new_allocator<char>' in d or 'std::basic_string<char' in d or 'std::basic_ios' in d or 'std::operator<< <' in d)
def opaque_strings(ex):
    ex.add_lib(is_strish, h_str_opaque)

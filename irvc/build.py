"""Compile /repo's translation units to LLVM bitcode (clean SSA), every run, from the current working tree."""
import os, subprocess, hashlib, sys, time, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(ROOT, 'build')
CLANG = '/usr/bin/clang++-18' if os.path.exists('/usr/bin/clang++-18') else '/usr/lib/llvm-18/bin/clang++'
OPT = '/usr/bin/opt-18' if os.path.exists('/usr/bin/opt-18') else '/usr/lib/llvm-18/bin/opt'
CFLAGS = ['-std=gnu++98', '-O0', '-Xclang', '-disable-O0-optnone', '-g0', '-ffp-contract=off', '-I.', '-Iinclude', '-D_LARGEFILE64_SOURCE', '-Wno-everything']
PASSES = 'function(sroa,early-cse,simplifycfg)'

class BuildError(Exception): pass

def src_path(tu):
    return os.path.join(REPO, tu)

def preprocess(tu):
    r = subprocess.run([CLANG] + CFLAGS + ['-E', '-P', tu], cwd=REPO, capture_output=True)
    if r.returncode: raise BuildError('%s does not preprocess:\n%s' % (tu, r.stderr.decode()[-2000:]))
    return r.stdout

def bitcode(tu):
    """tu: path relative to /repo, e.g. lib/Bucket.cpp.  The result is keyed by the preprocessed text (a cache never hides a change)."""
    os.makedirs(os.path.join(BUILD, 'bc'), exist_ok=True)
    pp = preprocess(tu)
    h = hashlib.sha256(pp + repr((CFLAGS, PASSES)).encode()).hexdigest()[:24]
    out = os.path.join(BUILD, 'bc', os.path.basename(tu)[:-4] + '-' + h + '.bc')
    if os.path.exists(out) and os.path.exists(out[:-3] + '.lay'): return out
    tmp = out + '.%d' % os.getpid()
    # compiled from the preprocessed text itself: what was hashed is what is verified
    c = subprocess.run([CLANG] + CFLAGS + ['-x', 'c++-cpp-output', '-Xclang', '-fdump-record-layouts', '-emit-llvm', '-c', '-o', tmp + '.raw', '-'], cwd=REPO, input=pp, capture_output=True)
    if c.returncode: raise BuildError('%s does not compile:\n%s' % (tu, c.stderr.decode()[-2000:]))
    o = subprocess.run([OPT, '-passes=' + PASSES, '-o', tmp, tmp + '.raw'], capture_output=True)
    if o.returncode: raise BuildError('opt failed on %s: %s' % (tu, o.stderr.decode()[-1000:]))
    with open(tmp + '.lay', 'wb') as f: f.write(c.stdout)
    os.unlink(tmp + '.raw'); os.rename(tmp + '.lay', out[:-3] + '.lay'); os.rename(tmp, out)
    return out

def bitcodes(tus):
    with cf.ThreadPoolExecutor(8) as ex: return list(ex.map(bitcode, tus))

# ---------------------------------------------------------------------------------------- record layouts (member names and offsets)
import re
class Record:
    """members of a C++ record as the compiler laid it out: path -> (offset, type text)"""
    def __init__(self, name): self.name = name; self.items = []; self.size = None; self.fields = {}

class Layouts:
    def __init__(self, bcs):
        self.rec = {}
        for b in bcs: self.parse(b[:-3] + '.lay')
        self.types = {}
    def parse(self, path):
        cur = None; stack = []
        for line in open(path, errors='replace'):
            if line.startswith('*** Dumping'): cur = None; stack = []; continue
            m = re.match(r'^ *(\d+)(?::[\d-]+)? \| ( *)(.*)$', line)
            if m:
                off = int(m.group(1)); ind = len(m.group(2)) // 2; txt = m.group(3).rstrip()
                if cur is None:
                    nm = re.sub(r'^(class|struct|union) ', '', txt)
                    nm = nm.replace(' (empty)', '')
                    if nm in self.rec: cur = Record(nm)      # parsed already: ignore
                    else: cur = self.rec[nm] = Record(nm)
                    cur.union = txt.startswith('union '); stack = []; continue
                cur.items.append((ind, off, txt)); continue
            m = re.match(r'^ *\| *\[sizeof=(\d+)', line)
            if m and cur is not None: cur.size = int(m.group(1))
    def record(self, name):
        if name in self.rec: return self.rec[name]
        # tolerate inline-namespace and qualification differences
        for k in self.rec:
            if k.endswith('::' + name): return self.rec[k]
        raise KeyError('no record layout of ' + name)
    def leaves(self, name):
        """[(path, offset, kind)]: kind 'i8'..'i64', 'float', 'double', 'ptr', ('bytes', n), ('vptr',)"""
        r = self.record(name)
        if getattr(r, '_leaves', None) is not None: return r._leaves
        out = []; path = []
        items = r.items
        for k, (ind, off, txt) in enumerate(items):
            path = path[:ind - 1]
            nested = k + 1 < len(items) and items[k + 1][0] > ind
            base = re.match(r'^(.*) \((primary |virtual )?(virtual )?base\)( \(empty\))?$', txt)
            if base: path.append(''); 
            else:
                m = re.match(r'^(.*?)([A-Za-z_]\w*)?( \(empty\))?$', txt)
                path.append((m.group(2) or '') if not txt.endswith(')') else '')
            nm = '.'.join(x for x in path if x)
            if txt.endswith('vtable pointer)'): out.append(('vptr', off, 'ptr')); continue
            if nested or '(empty)' in txt or base and not nested: continue
            ct = txt[:len(txt) - len(path[-1])].strip() if path[-1] else txt
            self.ctype(out, nm, off, ct, r.name)
        # a union inside: overlapping leaves are dropped (kept untyped)
        r._leaves = out
        return out
    PRIM = {'time_t': 'i64', 'int64_t': 'i64', 'uint64_t': 'i64', 'ptrdiff_t': 'i64', 'size_t': 'i64', 'ssize_t': 'i64', 'long': 'i64', 'unsigned long': 'i64', 'size_type': 'i64', 'long long': 'i64',
            'int': 'i32', 'unsigned int': 'i32', 'int32_t': 'i32', 'uint32_t': 'i32', 'bool': 'i8', '_Bool': 'i8', 'char': 'i8', 'unsigned char': 'i8', 'uint8_t': 'i8', 'int8_t': 'i8', 'short': 'i16', 'uint16_t': 'i16', 'int16_t': 'i16', 'unsigned short': 'i16',
            'double': 'double', 'float': 'float', 'pointer': 'ptr'}
    def ctype(self, out, nm, off, ct, ctx):
        m = re.match(r'^(.*)\[(\d+)\]$', ct)
        if m:
            el, n = m.group(1).strip(), int(m.group(2))
            if el in ('char', 'unsigned char') and n > 32: out.append((nm, off, ('bytes', n))); return
            if el in self.PRIM or el.endswith('*'):
                k = 'ptr' if el.endswith('*') else self.PRIM[el]
                sz = {'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'float': 4, 'double': 8, 'ptr': 8}[k]
                for i in range(n): out.append(('%s[%d]' % (nm, i), off + i * sz, k))
                return
            rn = re.sub(r'^(class|struct|union) ', '', el)
            try: sub = self.record(ctx + '::' + rn) if ctx + '::' + rn in self.rec else self.record(rn)
            except KeyError: return
            for i in range(n):
                for p, o, k in self.leaves(sub.name): out.append(('%s[%d].%s' % (nm, i, p), off + i * sub.size + o, k))
            return
        ct = re.sub(r'^const ', '', ct)
        if ct.endswith('*') or ct.endswith('&') or ct.endswith('*const'): out.append((nm, off, 'ptr')); return
        if '(*' in ct: out.append((nm, off, 'ptr')); return
        if ct in self.PRIM: out.append((nm, off, self.PRIM[ct])); return
        out.append((nm, off, 'i32'))        # enumeration
    def field(self, name, path):
        r = self.record(name)
        for p, o, k in self.leaves(name):
            if p == path: return o, k
        raise KeyError('no member %s of %s' % (path, name))
    def offset(self, name, path):
        """offset of a member (also of record type)"""
        for p, o, k in self.leaves(name):
            if p == path: return o
        best = None
        for p, o, k in self.leaves(name):
            if p.startswith(path + '.') or p.startswith(path + '['): best = o if best is None else min(best, o)
        if best is None: raise KeyError('no member %s of %s' % (path, name))
        return best
    def size(self, name): return self.record(name).size

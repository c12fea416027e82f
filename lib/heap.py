"""Interpretation of runtime functions on heap skeletons: structures whose size is known and whose contents are opaque.

Every value in the structure is an unknown, so one run covers all contents; sizes 0..N are enumerated by the
caller and the loops are separately required not to stop at a fixed count (cfg.truncated_loops)."""
import ir
from shape import *
from report import ToolError

def elem(I, name='x', tag=None): return I.new('in', name, tag)
def lst(I, xs, tail=None):
    r = tail if tail is not None else I.sp('minim_null')
    for k, x in reversed(list(enumerate(xs))):
        o = I.new('in', 'pair%d' % k, PAIR); o.f[8] = x; o.f[16] = r; r = o
    return r
def vec(I, xs):
    o = I.new('in', 'vec', VECTOR); o.f[8] = len(xs)
    for k, x in enumerate(xs): o.f[16 + 8 * k] = x
    return o
def fix(I, n):
    o = I.new('in', 'fix', FIXNUM); o.f[8] = n; return o
def chr_(I, c):
    o = I.new('in', 'char', CHAR); o.f[4] = c; return o
def buf(I, cs):
    b = I.new('in', 'chars'); b.info['size'] = len(cs) + 1
    for k, c in enumerate(cs): b.f[k] = c
    b.f[len(cs)] = 0; return b
def str_(I, cs, tag=STRING):
    o = I.new('in', 'str', tag); o.f[8] = buf(I, cs); return o
def sch(I, k):
    c = S('ch', k); I.facts[('rng', c)] = (None, None, frozenset({0})); return c
def box(I, x):
    o = I.new('in', 'box', BOX); o.f[8] = x; return o

class Problem(Exception): pass
def cells(I, p, what, ins, run):
    p = I.res(p)
    if isinstance(p, Str): return list(p.b.rstrip(b'\0')) 
    if isinstance(p, O): p = P(p, 0)
    if not isinstance(p, P) or p.idx: return None
    out = []; o = I.res(p.o); k = p.off
    while True:
        if k not in o.f:
            if o.info.get('zero') and k < o.info['size']: return out
            if (o.kind == 'new' or 'size' in o.info) and not o.info.get('opaque'): run.problem(ins, '%s reads characters that were never written' % what)
            return None
        v = o.f[k]
        if v == 0: return out
        out.append(v); k += 1
        if k > 4096: return None
def h_strlen(I, a, ins):
    c = cells(I, a[0], 'strlen', ins, I.heaprun)
    return len(c) if c is not None else S('strlen', I.res(a[0]))
def wr(I, p, k, v, ins):
    I.store(I.padd(I.res(p), k, ()), v, 'i8', ins)
def h_strcpy(I, a, ins):
    c = cells(I, a[1], 'strcpy', ins, I.heaprun)
    if c is None: I.heaprun.opaque_write(I, a[0], ins); return a[0]
    for k, v in enumerate(c + [0]): wr(I, a[0], k, v, ins)
    return a[0]
def h_strncpy(I, a, ins):
    c = cells(I, a[1], 'strncpy', ins, I.heaprun); n = I.res(a[2])
    if c is None or not isinstance(n, int): I.heaprun.opaque_write(I, a[0], ins, n); return a[0]
    for k in range(n): wr(I, a[0], k, c[k] if k < len(c) else 0, ins)
    return a[0]
def h_memcpy(I, a, ins):
    n = I.res(a[2]); d = I.res(a[0]); p = I.res(a[1])
    if isinstance(p, O): p = P(p, 0)
    if isinstance(d, O): d = P(d, 0)
    if isinstance(p, Str) and isinstance(n, int):
        bs = p.b + b'\0' * max(0, n - len(p.b))
        for k in range(n): wr(I, a[0], k, bs[k], ins)
        return a[0]
    if not isinstance(n, int) or not isinstance(p, P) or p.idx or not isinstance(d, P) or d.idx or not isinstance(I.res(p.o), O): I.heaprun.opaque_write(I, a[0], ins, n); return a[0]
    o = I.res(p.o); end = p.off + n
    ks = sorted(k for k in o.f if isinstance(k, int) and p.off <= k < end)
    chars = any(k % 4 for k in ks) or n < 4
    if o.info.get('zero'):
        ks = sorted(set(ks) | {k for k in (range(p.off, end) if chars else range(p.off, end, 8)) if k not in o.f})
    for j, k in enumerate(ks):
        w = (ks[j + 1] if j + 1 < len(ks) else end) - k
        I.store(P(d.o, d.off + k - p.off), o.f.get(k, 0), 'i8' if chars or w == 1 else 'i32' if w < 8 else 'ptr', ins)
    return a[0]
def h_memset(I, a, ins):
    n = I.res(a[2]); 
    if not isinstance(n, int): I.heaprun.opaque_write(I, a[0], ins, n); return a[0]
    for k in range(n): wr(I, a[0], k, a[1], ins)
    return a[0]
def h_alloc(zero, atomic):
    def h(I, a, ins):
        o = I.new('new', 'block'); n = I.res(a[0])
        if len(a) == 2: n = I.arith('mul', n, I.res(a[1]), 'i64')
        o.info['size'] = n; o.info['zero'] = zero; o.info['atomic'] = atomic; o.info['at'] = ins
        I.events.append(('alloc', o, ins)); return o
    return h
ALLOC = {'GC_alloc': h_alloc(False, False), 'GC_malloc': h_alloc(False, False), 'GC_alloc_atomic': h_alloc(False, True), 'GC_malloc_atomic': h_alloc(False, True),
         'GC_calloc': h_alloc(True, False), 'GC_calloc_atomic': h_alloc(True, True), 'GC_realloc': None}
ALLOC = {k: v for k, v in ALLOC.items() if v}
SIZE = {'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'ptr': 8}
LEN = {VECTOR: (8, 16), RECORD: (4, 16)}

def self_lob(I, x):
    """lower bound of an unknown size, from the facts of the state"""
    if isinstance(x, S) and x.k[0] == 'mul' and isinstance(x.k[2], int) and x.k[2] > 0: return x.k[2] * self_lob(I, x.k[1])
    return max([0] + [r[0] - (q[1].k[2] if q[1] != x else 0) for q, r in I.facts.items() if q[0] == 'rng' and r[0] is not None and (q[1] == x or isinstance(q[1], S) and q[1].k[0] == 'add' and q[1].k[1] == x and isinstance(q[1].k[2], int))])
class HeapRun:
    """interpret one function; collect problems: access outside an object, reads of uninitialised fields, writes to inputs"""
    def __init__(s, mod, fn, maxvisits=12, hooks=None, inline=None, maxpaths=20000):
        s.mod = mod; s.fn = fn; s.bad = {}; s.loads = s.stores = 0
        f = mod.funcs.get(fn)
        if f is None or f.decl: raise ToolError('%s not found' % fn)
        hk = dict(ALLOC); hk.update({'strlen': h_strlen, 'strcpy': h_strcpy, 'strncpy': h_strncpy, 'memcpy': h_memcpy, 'memmove': h_memcpy, 'memset': h_memset, 'llvm.memcpy.p0.p0.i64': h_memcpy, 'llvm.memset.p0.i64': h_memset, 'llvm.memmove.p0.p0.i64': h_memcpy})
        hk.update(hooks or {})
        s.I = Interp(mod, inline=inline or (lambda n: True), hooks=hk, maxvisits=maxvisits, maxpaths=maxpaths)
        for b in ('list_append2', 'list_set_tail', 'list_reverse', 'list_length', 'Mstring', 'Mstring2', 'Msymbol', 'Mgensym', 'make_list', 'minim_listp'):
            if hooks is None or b not in hooks: s.I.hooks.pop(b, None)
        if fn in s.I.hooks: s.I.hooks.pop(fn)
        s.I.what = fn; s.I.heaprun = s; s.I.on_load = s.on_load; s.I.on_store = s.on_store; s.I.gty_load = s.missing
    def problem(s, ins, msg, key=None): s.bad.setdefault(key or msg, (ins.loc if ins is not None else s.mod.funcs[s.fn].file, msg))
    def opaque_write(s, I, p, ins, n=None):
        p = I.res(p); o = p.o if isinstance(p, P) else p
        if isinstance(o, O): o.info['opaque'] = True
        I.events.append(('copy', p, n, ins))
        if isinstance(o, O) and o.kind in ('in', 'special', 'glob'): s.writes.append((o, '?', None, ins))
    def bounds(s, I, o, off, idx, ty, ins, what):
        w = SIZE.get(ty, 8); n = o.info.get('size')
        if n is None and o.tag in LEN and o.kind in ('in', 'new'):
            lo, base = LEN[o.tag]; c = o.f.get(lo)
            if isinstance(c, int) and off >= base: n = base + 8 * c
        if n is None: return
        n = I.res(n)
        if not idx:
            ok = isinstance(n, int) and 0 <= off and off + w <= n
            if not isinstance(n, int):
                # a + b*x with x >= 0
                x, b = (n.k[1], n.k[2]) if isinstance(n, S) and n.k[0] == 'add' and isinstance(n.k[2], int) else (n, 0)
                b += self_lob(I, x)
                ok = 0 <= off and off + w <= b
            if not ok: s.problem(ins, '%s %d bytes at offset %s of a block of %s bytes' % (what, w, off, n if isinstance(n, int) else 'computed'), 'bounds %s' % what); raise Cut()
        elif isinstance(n, int) or True:
            ok = s.index_ok(I, o, n, off, idx, w) if s.index_ok else False
            if not ok: s.problem(ins, '%s at an index not known to lie inside the block' % what, 'bounds index %s' % what)
    index_ok = None
    def on_load(s, I, o, off, idx, ty, ins):
        if not isinstance(o, O): return
        s.loads += 1
        if o.kind in ('new', 'in'): s.bounds(I, o, off, idx, ty, ins, 'reads')
    def on_store(s, I, o, off, idx, v, ty, ins):
        if not isinstance(o, O): return
        s.stores += 1
        if o.kind in ('new', 'in'): s.bounds(I, o, off, idx, ty, ins, 'writes')
        if o.kind in ('in', 'special', 'glob'): s.writes.append((o, off if not idx else ('i', off, idx), v, ins))
    def missing(s, I, o, k, ty, ins):
        if o.kind == 'new' and not o.info.get('opaque') and ('size' in o.info):
            if o.info.get('zero'): return 0
            off = k if isinstance(k, int) else k[1]
            if isinstance(k, int): s.problem(ins, 'reads a field that was never given a value', 'uninitialised')
        return None
    def run(s, build, maxpaths=None):
        """build(I) -> args; yields (path, args)"""
        f = s.mod.funcs[s.fn]; box = {}
        def setup(I):
            s.writes = []
            a = build(I); box['a'] = a; s.nborn = I.nid
            return I.exec(f, a)
        for p in s.I.run(setup, maxpaths):
            p.writes = list(s.writes); p.args = box['a']; yield p

def match(I, v, t, where=''):
    """does value v have the shape t?  returns None or a description of the difference"""
    v = I.res(v)
    if isinstance(t, (O, P)): 
        t = I.res(t); return None if v is t or v == t else 'is not the expected object'
    if callable(t): return t(I, v)
    k = t[0]
    if k == 'sp': return None if isinstance(v, O) and v.name == t[1] else 'is not %s' % t[1]
    if k == 'cell':
        if isinstance(v, O) and v.info.get('of') == (t[1], t[2]): return None
        if isinstance(v, S) and v.k[:3] == ('ld', t[1], t[2]): return None
        return 'is not the component at offset %s of the argument' % (t[2],)
    if k == 'scalar': return None if v == t[1] else 'is not the expected number'
    if not isinstance(v, O): return 'is not an object'
    def fld(off): return v.f.get(off)
    if k == 'fix':
        if v.tag != FIXNUM: return 'is not a fixnum'
        x = I.res(fld(8))
        return None if x == t[1] else ('cell' in str(t[1]) and 'x' or 'is not the expected number (%r)' % (x,))
    if k == 'fixcell': return match(I, I.res(fld(8)), ('cell', t[1], t[2])) if v.tag == FIXNUM else 'is not a fixnum'
    if k == 'char':
        if v.tag != CHAR: return 'is not a character'
        return None if I.res(fld(4)) == t[1] else 'is not the expected character'
    if k == 'charcell': return match(I, I.res(fld(4)), ('cell', t[1], t[2])) if v.tag == CHAR else 'is not a character'
    if k in ('list', 'nlist'):
        n = 0
        for x in t[1]:
            if v.tag != PAIR: return 'is a list of %d elements instead of %d' % (n, len(t[1]))
            if k == 'nlist' and v.kind != 'new': return 'shares its pairs with an argument'
            d = match(I, v.f[8], x)
            if d: return 'has an element %d that %s' % (n, d)
            n += 1; v = I.res(v.f[16])
            if not isinstance(v, O): return 'ends in something that is not an object'
        tail = t[2] if len(t) > 2 else ('sp', 'minim_null')
        d = match(I, v, tail); return None if d is None else 'has a tail after %d elements that %s' % (n, d)
    if k == 'vec':
        if not t[1] and v.name == 'minim_empty_vec': return None
        if v.tag != VECTOR: return 'is not a vector'
        if I.res(fld(8)) != len(t[1]): return 'is a vector of length %s instead of %d' % (fld(8), len(t[1]))
        for j, x in enumerate(t[1]):
            if 16 + 8 * j not in v.f: return 'has an element %d that was never set' % j
            d = match(I, v.f[16 + 8 * j], x)
            if d: return 'has an element %d that %s' % (j, d)
        return None
    if k == 'rec':
        if v.tag != RECORD: return 'is not a record'
        if I.res(fld(4)) != len(t[2]): return 'has %s fields instead of %d' % (fld(4), len(t[2]))
        d = match(I, fld(8), t[1])
        if d: return 'has a record type that %s' % d
        for j, x in enumerate(t[2]):
            if 16 + 8 * j not in v.f: return 'has a field %d that was never set' % j
            d = match(I, v.f[16 + 8 * j], x)
            if d: return 'has a field %d that %s' % (j, d)
        return None
    if k in ('str', 'sym'):
        if v.tag != (STRING if k == 'str' else SYMBOL): return 'is not a %s' % ('string' if k == 'str' else 'symbol')
        c = cells(I, fld(8), 'the result', None, I.heaprun)
        if c is None: return 'has unknown characters'
        if len(c) != len(t[1]): return 'has %d characters instead of %d' % (len(c), len(t[1]))
        for j, (x, y) in enumerate(zip(c, t[1])):
            if x != y: return 'has a character %d that is not the expected one' % j
        return None
    if k == 'flds':      # ('flds', tag, {off: term})
        if v.tag != t[1]: return 'is not a %s' % TAGNAME[t[1]]
        for off, x in t[2].items():
            if off not in v.f: return 'has no value at offset %d' % off
            d = match(I, v.f[off], x) if not isinstance(x, (int, S)) else (None if I.res(v.f[off]) == x else 'is %r' % (v.f[off],))
            if d: return 'has a component (offset %d) that %s' % (off, d)
        return None
    if k == 'any': return None
    raise ToolError('match %s' % k)

"""C23: the bundled collector.  Abstract interpretation on small block tables: which blocks there are, how they refer to each
other and what the stack holds is enumerated; where each block hashes to, and whether the table counts as full, is left open
and split into cases."""
import re, os, sys, pickle, time
from rules import reg
from report import ToolError
import ir, cfg
from shape import *

NEXT, SIZE, DTOR, MRK, PAY = 0, 8, 16, 24, 32
G = dict(buckets=0, stack=8, allocp=16, alloc=24, size=32, allocs=40, dirty=48, flags=56)
MARK, ROOT = 1, 2
SIZES = [2, 3, 9, 20, 47]

class GI(Interp):
    """addresses carry their low bits; distinct blocks are distinct addresses; heap blocks lie between code and stack"""
    def heap(s, v):
        v = s.res(v); o = v.o if isinstance(v, P) else v
        return isinstance(o, O) and o.kind in ('rec', 'new', 'gc')
    def base(s, v):
        v = s.res(v); return v.o if isinstance(v, P) else v
    def same(s, a, b):
        a = s.res(a); b = s.res(b)
        x, y = (P(a, 0) if isinstance(a, O) else a), (P(b, 0) if isinstance(b, O) else b)
        if isinstance(x, P) and isinstance(y, P) and not x.idx and not y.idx: return x.o is y.o and x.off == y.off
        if isinstance(x, P) or isinstance(y, P):
            o = y if isinstance(x, P) else x
            if isinstance(o, (int, Fn, Str)) or isinstance(o, S) and o.k[0] in ('junk', 'reg'): return False
        return Interp.same(s, a, b)
    def cmp(s, pred, a, b, ty):
        if pred not in ('eq', 'ne'):
            def rank(v):
                v = s.res(v)
                if isinstance(v, Fn): return 1
                if isinstance(v, (O, P)):
                    o = v.o if isinstance(v, P) else v
                    return 3 if o.kind == 'stk' else 2 if o.kind in ('rec', 'new', 'gc') else None
                if isinstance(v, int) and 0 <= v < 4096: return 0
                if isinstance(v, S) and v.k[0] == 'junk': return 2 if v.k[1] == 'near' else 0        # an address in the heap that is no block / no address
            x, y = rank(a), rank(b)
            if x is not None and y is not None and x != y: return {'l': x < y, 'g': x > y}[pred[1]]
            if x == 2 and not (isinstance(s.res(a), (O, P)) and isinstance(s.res(b), (O, P)) and s.base(a) is s.base(b)): return s.fact(('order', pred, s.res(a), s.res(b)))
            a1, b1 = s.res(a), s.res(b)
            a1 = P(a1, 0) if isinstance(a1, O) else a1; b1 = P(b1, 0) if isinstance(b1, O) else b1
            if isinstance(a1, P) and isinstance(b1, P) and a1.o is b1.o and not a1.idx and not b1.idx: return Interp.cmp(s, 's' + pred[1:], a1.off, b1.off, 'i64')
        return Interp.cmp(s, pred, a, b, ty)
    def arith1(s, op, a, b, ty):
        a = s.res(a); b = s.res(b)
        if isinstance(a, int) and isinstance(b, (O, P)): a, b = b, a
        if isinstance(a, (O, P)) and isinstance(b, int):
            p = a if isinstance(a, P) else P(a, 0)
            if op == 'and':
                if 0 <= b < 8: return p.off & b
                if -8 <= b < 0:
                    off = p.off & b; return p.o if off == 0 and not p.idx else P(p.o, off, p.idx)
            if op == 'or' and 0 <= b < 8: 
                off = p.off | b; return p.o if off == 0 else P(p.o, off, p.idx)
            if op == 'xor' and 0 <= b < 8: return P(p.o, p.off ^ b, p.idx)
            if op in ('lshr', 'udiv', 'ashr'): return S('hash', op, p.o.id, p.off, b)
            if op in ('urem', 'srem'): return s.on_rem(s, S('hash', op, p.o.id, p.off, 0), b)
        if op == 'or' and isinstance(a, (O, P)) and isinstance(b, (O, P)): raise ToolError('two addresses combined')
        return Interp.arith1(s, op, a, b, ty)
    def new(s, kind, name, tag=None):
        if kind == 'stack' and name == 'local' and s.stk is not None:
            f = s.mod.funcs.get(s.stack[-1]); n = s.sizeof(s.last.ty) if s.last is not None and s.last.op == 'alloca' else 8
            s.spoff -= (n + 15) // 16 * 16
            return P(s.stk, s.spoff)
        return Interp.new(s, kind, name, tag)
    def truth(s, v):
        if s.roomy and isinstance(v, S) and v.k[0] == 'fcmp': return False            # the table does not count as full
        return Interp.truth(s, v)
    stk = None; spoff = 0; roomy = False

def residue(I, a, n):
    if len(a.k) > 2 and a.k[2] == I.stk.id: return 0          # an address on the stack is no block, wherever it hashes to
    k = ('bucket', a, n)
    if k not in I.facts: I.facts[k] = I.choose(n, k)
    return I.facts[k]

def pieces(n):
    """the words a run of n bytes consists of, and the odd bytes at its end"""
    k = 0
    while n - k >= 8: yield k, 'ptr'; k += 8
    while n - k >= 4: yield k, 'i32'; k += 4
    while n - k >= 1: yield k, 'i8'; k += 1

class Wrong(Exception): pass

class Heap:
    """one scenario: blocks {name: dict(size, words, root, mrk, dtor)}, stack words, register words, index of the table size"""
    def __init__(s, mod, sc, oom=0):
        s.mod = mod; s.sc = sc; s.oom = oom
        hk = {'malloc': s.malloc, 'calloc': s.calloc, 'realloc': s.realloc, 'free': s.free, '_setjmp': s.setjmp, 'setjmp': s.setjmp, '__sigsetjmp': s.setjmp, 'sigsetjmp': s.setjmp, 'memset': s.memset, 'llvm.memset.p0.i64': s.memset,
              'memcpy': s.memcpy, 'llvm.memcpy.p0.p0.i64': s.memcpy, 'memmove': s.memcpy, 'llvm.memmove.p0.p0.i64': s.memcpy}
        s.I = GI(mod, inline=lambda n: True, hooks=hk, maxvisits=200, maxdepth=80, maxpaths=60000); s.I.reclimit = 30; [s.I.hooks.pop(n) for n in list(s.I.hooks) if n in mod.funcs and not mod.funcs[n].decl]; s.I.on_rem = residue
        s.I.on_load = s.ld; s.I.on_store = s.st; s.I.on_call = s.oncall; s.I.on_badptr = s.nowhere; s.I.gty_load = s.missing; s.I.what = 'minim-gc'; s.problem = None
    # -- the C library
    def block(s, I, n, zero, ins):
        o = I.new('new', 'block'); o.info['size'] = I.res(n); o.info['zero'] = zero; s.blocks.append(o); return o
    def failing(s):
        s.mallocs += 1
        return s.mallocs <= s.oom
    def malloc(s, I, a, ins):
        if s.failing(): return 0
        return s.block(I, a[0], False, ins)
    def calloc(s, I, a, ins):
        n = I.arith('mul', I.res(a[0]), I.res(a[1]), 'i64')
        if s.watch_calloc and s.failing(): return 0
        return s.block(I, n, True, ins)
    def realloc(s, I, a, ins):
        p = I.res(a[0])
        if s.failing(): return 0
        if p == 0: return s.block(I, a[1], False, ins)
        if isinstance(p, P) or p.info.get('freed'): s.wrong(ins, 'reallocates an address that is not the start of a live block')
        o = s.block(I, a[1], False, ins); o.f = dict(p.f); o.info['was'] = p; o.kind = 'new'
        p.info['freed'] = True; s.moved[p] = o
        return o
    def free(s, I, a, ins):
        p = I.res(a[0])
        if p == 0: return None
        if not isinstance(p, O): s.wrong(ins, 'frees an address that is not the start of a block'); return None
        if p.info.get('freed'): s.wrong(ins, 'frees a block twice')
        p.info['freed'] = True; s.freed.append(p); return None
    def setjmp(s, I, a, ins):
        p = I.res(a[0])
        for k, w in enumerate(s.regs): s.I.store(I.padd(p, 8 * k, ()), w, 'ptr', ins)
        return 0
    def memset(s, I, a, ins):
        p = I.res(a[0]); n = I.res(a[2])
        if not isinstance(n, int): raise ToolError('memset of unknown size in the collector')
        if a[1] != 0: raise ToolError('memset in the collector')
        o = p.o if isinstance(p, P) else p; off = p.off if isinstance(p, P) else 0
        for k in [k for k in o.f if isinstance(k, int) and off <= k < off + n]: del o.f[k]
        for k, ty in pieces(n): I.store(I.padd(p, k, ()), 0, ty, ins)
        return a[0]
    def memcpy(s, I, a, ins):
        p = I.res(a[0]); q = I.res(a[1]); n = I.res(a[2])
        if not isinstance(n, int) or not isinstance(p, (O, P)) or not isinstance(q, (O, P)): raise ToolError('memcpy in the collector')
        for k, ty in pieces(n): I.store(I.padd(p, k, ()), I.load(I.padd(q, k, ()), ty, ins), ty, ins)
        return a[0]
    # -- accesses
    def wrong(s, ins, msg): s.problem = s.problem or (ins.loc if ins is not None else '', msg); raise Wrong(msg)
    def ld(s, I, o, off, idx, ty, ins): s.acc(I, o, off, idx, ty, ins, 'reads')
    def st(s, I, o, off, idx, v, ty, ins): s.acc(I, o, off, idx, ty, ins, 'writes')
    def nowhere(s, I, p, ins, what):
        p = I.res(p)
        if isinstance(p, int) or isinstance(p, S) and p.k[0] in ('junk', 'reg'): s.wrong(ins, '%s at an address that is no block' % ('reads' if what in ('load', 'reads') else 'writes'))
    def acc(s, I, o, off, idx, ty, ins, what):
        if not isinstance(o, O): return s.nowhere(I, o, ins, what)
        if o.kind not in ('new', 'rec', 'gc'): return
        if o.info.get('freed'): s.wrong(ins, '%s a block after it was freed' % what)
        n = o.info.get('size'); w = {'i8': 1, 'i16': 2, 'i32': 4}.get(ty, 8)
        if idx: raise ToolError('index left open in the collector')
        if w == 8 and o.kind != 'gc' and isinstance(off, int) and off % 8: s.wrong(ins, '%s a word at offset %d of a block, where no word begins' % (what, off))
        if isinstance(n, int) and not (0 <= off and off + w <= n): s.wrong(ins, '%s %d bytes at offset %d of a block of %d bytes' % (what, w, off, n))
    def missing(s, I, o, k, ty, ins):
        if o.kind == 'new':
            if o.info.get('zero'): return 0
            if isinstance(k, int) and k < PAY: s.wrong(ins, 'reads a field of a block that was never given a value')
            return S('junk', o.id, k)
        if o.kind == 'stk': return S('junk', 'stack', k)
        return None
    def oncall(s, I, name, args, ins):
        n = name
        if n in s.userfn:
            s.called.append((n, [I.res(x) for x in args]))
            if n.startswith('mark') and len(args) == 3:
                f = I.res(args[0]); b = I.res(args[2])
                if not (isinstance(b, P) and b.off == PAY and b.o.f.get(MRK) == Fn(n)): s.wrong(ins, 'the marker of a block is not called with the address of the block')
                if not isinstance(f, Fn): s.wrong(ins, 'the marker of a block is not given a function to mark with')
                for w in s.custom: I.call(f.name, [args[1], s.ref(w)], ins)
            return (None,)
        return None
    # -- building
    def ref(s, w):
        """value of a word: the name of a block, 0, or something that is no address"""
        if w in s.rec: return P(s.rec[w], PAY)
        if w == 0: return 0
        return S('junk', w)
    def build(s, I):
        sc = s.sc; s.blocks = []; s.freed = []; s.called = []; s.moved = {}; s.mallocs = 0; s.watch_calloc = False; s.rec = {}; s.problem = None
        s.userfn = {'dtorA', 'dtorB', 'markA'}; s.custom = sc.get('custom', ())
        I.roomy = sc.get('roomy', False); I.stk = I.new('stk', 'stack'); I.spoff = 0; I.stk.nonnull = True
        for b, d in sc['blocks'].items():
            o = s.rec[b] = I.new('rec', b); o.info['size'] = PAY + d.get('size', 8 * len(d.get('words', ())))
        for b, d in sc['blocks'].items():
            o = s.rec[b]; o.f[SIZE] = o.info['size'] - PAY
            o.f[DTOR] = Fn(d['dtor']) if 'dtor' in d else 0
            o.f[MRK] = Fn(d['mrk']) if d.get('mrk') else 0
            for k, w in enumerate(d.get('words', ())): o.f[PAY + 8 * k] = s.ref(w)
            for k in range(len(d.get('words', ())), (o.info['size'] - PAY) // 8): o.f[PAY + 8 * k] = S('junk', b, k)
        stack = sc.get('stack', ())
        for k, w in enumerate(stack): I.stk.f[8 * k] = s.ref(w)
        s.regs = [s.ref(w) for w in sc.get('regs', ())]
        gc = s.gc = I.new('gc', 'gc'); gc.info['size'] = 64
        # the table of sizes, in a small version
        for g in s.mod.gdefs:
            m = re.search(r'\[(\d+) x i64\] \[i64 (\d+), i64 (\d+)', s.mod.gdefs[g][1])
            if m and int(m.group(1)) > 10:
                b = s.sizes = I.new('sizes', g); 
                for k in range(int(m.group(1))): b.f[8 * k] = SIZES[k] if k < len(SIZES) else (47 * (k + 1) if k < int(m.group(1)) - 1 else 0)
                I.special['&' + g[1:]] = b
        k = sc.get('table', 0); n = SIZES[k]
        bk = I.new('new', 'buckets'); bk.info['size'] = 8 * n; bk.info['zero'] = True; s.buckets0 = bk
        gc.f.update({G['buckets']: bk, G['stack']: P(I.stk, 8 * (len(stack) - 1)) if stack else P(I.stk, -8), G['allocp']: P(s.sizes, 8 * k) if k else s.sizes, G['alloc']: n,
                     G['size']: len(s.rec), G['allocs']: sum(o.f[SIZE] for o in s.rec.values()), G['dirty']: sc.get('dirty', 100), G['flags']: sc.get('flags', 1)})
        for j in range(n): bk.f[8 * j] = 0
        for b, o in s.rec.items():
            i = s.bucket(I, o, n)
            h = bk.f[8 * i]; fl = ROOT if sc['blocks'][b].get('root') else 0
            o.f[NEXT] = I.arith('or', h, fl, 'i64') if fl else h
            bk.f[8 * i] = o
        for g in s.mod.gdefs:
            if re.search(r'\bglobal ptr null\b', s.mod.gdefs[g][1]): I.globmem[g[1:]] = gc
    def bucket(s, I, o, n): return residue(I, s.hashed(I, o), n)
    def hashed(s, I, o): return I.arith('lshr', P(o, PAY), 3, 'i64')
    # -- the table afterwards
    def table(s, I):
        """{block: flags} as chained in the table, each in the right bucket"""
        gc = s.gc; bk = I.res(gc.f[G['buckets']]); n = I.res(gc.f[G['alloc']]); out = {}
        if not isinstance(bk, O) or bk.info.get('freed'): return None, 'the table of blocks is gone'
        if not isinstance(n, int) or bk.info.get('size') != 8 * n: return None, 'the table of blocks has %s entries but its length is recorded as %s' % (bk.info.get('size', 0) // 8 if isinstance(bk.info.get('size'), int) else '?', n)
        if I.load(I.res(gc.f[G['allocp']]), 'i64', None) != n: return None, 'the table of blocks does not have the size it is recorded to have'
        for i in range(n):
            p = I.res(bk.f.get(8 * i, 0)); k = 0
            while p != 0:
                if isinstance(p, P) and p.off in (1, 2, 3) or isinstance(p, int) and p in (1, 2, 3): return None, 'a flag is stored in the head of a chain'
                if not isinstance(p, O): return None, 'a chain of the table is damaged'
                if p.info.get('freed'): return None, 'a freed block is still in the table'
                if p in out: return None, 'a block is in the table twice'
                if s.bucket(I, p, n) != i: return None, 'a block is in a chain it does not belong to'
                nx = I.res(p.f.get(NEXT, 0)); fl = nx & 7 if isinstance(nx, int) else (nx.off & 7 if isinstance(nx, P) else 0)
                out[p] = fl; k += 1
                p = I.res(I.arith('and', nx, -8, 'i64'))
        return out, None
    def reach(s, I, extra=()):
        """what must survive"""
        live = set(); st = []
        def w2b(w): 
            return s.rec.get(w)
        roots = [s.rec[b] for b, d in s.sc['blocks'].items() if d.get('root')] + [w2b(w) for w in s.sc.get('stack', ())] + [w2b(w) for w in s.sc.get('regs', ())] + list(extra)
        st = [o for o in roots if o is not None]
        name = {o: b for b, o in s.rec.items()}
        while st:
            o = st.pop()
            if o in live: continue
            live.add(o); d = s.sc['blocks'][name[o]]
            if d.get('mrk') == 'markA': st += [s.rec[w] for w in s.custom]
            elif d.get('mrk'): continue
            else: st += [w2b(w) for k, w in enumerate(d.get('words', ())) if w in s.rec and 8 * k + 8 <= o.f[SIZE]]
        return live

def B(*words, **k): return dict(words=words, **k)
def scenarios(atomic):
    yield 'no block', dict(blocks={})
    yield 'chain', dict(blocks=dict(a=B('b'), b=B('c'), c=B(0)), stack=['a', 0])
    yield 'reversed chain', dict(blocks=dict(a=B('junk'), b=B('a'), c=B('b')), stack=['c'])
    yield 'garbage', dict(blocks=dict(a=B('b'), b=B('a'), c=B(0)), stack=['near'])
    yield 'cycle and garbage', dict(blocks=dict(a=B('b'), b=B('a'), c=B('a')), stack=[0, 'a'])
    yield 'self', dict(blocks=dict(a=B('a'), b=B('b')), stack=['junk', 'b', 'junk'])
    yield 'root', dict(blocks=dict(a=B('b', root=True), b=B('c'), c=B('a')))
    yield 'root and garbage', dict(blocks=dict(a=B('b', root=True), b=B(0), c=B('b')))
    yield 'garbage behind a root', dict(blocks=dict(c=B('b'), b=B(0), a=B('b', root=True)))
    yield 'garbage between roots', dict(blocks=dict(a=B(0, root=True), c=B('a'), b=B(0, root=True)))
    yield 'nothing new', dict(blocks=dict(a=B('b', root=True), b=B(0), c=B('a')), dirty=0)
    yield 'two roots', dict(blocks=dict(a=B('b', root=True), b=B('c', root=True), c=B(0)))
    yield 'root reached', dict(blocks=dict(a=B('b'), b=B('c', root=True), c=B(0)), stack=['a'])
    yield 'words', dict(blocks=dict(a=B('b', 'near', 'c'), b=B(), c=B(0, 'd'), d=B()), stack=['a'])
    yield 'odd size', dict(blocks=dict(a=B('b', size=12), b=B('c', size=15), c=B(size=7)), stack=['a'])
    yield 'register', dict(blocks=dict(a=B('b'), b=B(), c=B()), regs=[0, 'a', 'junk'], stack=['junk'])
    yield 'last register', dict(blocks=dict(a=B('b'), b=B(), c=B()), regs=['junk'] * 7 + ['a'], stack=['junk'])
    yield 'bottom of the stack', dict(blocks=dict(a=B('b'), b=B(), c=B()), stack=['junk', 0, 'c', 'a'])
    yield 'pointer-free', dict(blocks=dict(a=B('b', mrk=atomic), b=B('c'), c=B()), stack=['a'])
    yield 'pointer-free root', dict(blocks=dict(a=B('b', mrk=atomic, root=True), b=B(), c=B('a')), stack=['c'])
    yield 'marker', dict(blocks=dict(a=B('c', mrk='markA'), b=B('d'), c=B(), d=B()), stack=['a'], custom=['b'])
    yield 'root with a marker', dict(blocks=dict(a=B('c', mrk='markA', root=True), b=B(0), c=B()), custom=['b'])
    yield 'destructors', dict(blocks=dict(a=B('b', dtor='dtorA'), b=B(dtor='dtorB'), c=B('a', dtor='dtorA')), stack=['a'])
    yield 'larger table', dict(blocks=dict(a=B('b', root=True), b=B()), table=1)
    yield 'shrinking table', dict(blocks=dict(a=B(root=True), b=B('a')), table=2)

def after(h, I, live, gone, roots, res, allocs=None, dirty=None, moved=False):
    """None, or what is wrong with the collector's state"""
    t, why = h.table(I)
    if why: return why
    for o in live:
        if o not in t: return 'a block that is in use has left the table' if not o.info.get('freed') else 'a block that is in use was freed'
    for o in t:
        if o not in live: return 'a block that should be gone is still in the table'
    for o in gone:
        if not o.info.get('freed'): return 'a block has left the table but was not freed'
    for o, fl in t.items():
        if fl & MARK: return 'a block stays marked'
        if bool(fl & ROOT) != (o in roots): return 'a root is no longer a root' if o in roots else 'a block became a root'
        if fl & 4: return 'a link is damaged'
    gc = h.gc
    if I.res(gc.f[G['size']]) != len(live): return 'the number of blocks is recorded as %s where it is %d' % (I.res(gc.f[G['size']]), len(live))
    tot = sum(I.res(o.f[SIZE]) for o in live)
    if I.res(gc.f[G['allocs']]) != tot: return 'the bytes allocated are recorded as %s where they are %d' % (I.res(gc.f[G['allocs']]), tot)
    if dirty is not None and I.res(gc.f[G['dirty']]) != dirty: return 'the bytes allocated since the last collection are recorded as %s where they are %s' % (I.res(gc.f[G['dirty']]), dirty)
    for o in live:
        if o.info.get('was') is None and o.kind == 'rec':
            b = [n for n, x in h.rec.items() if x is o][0]; d = h.sc['blocks'][b]
            for k, w in enumerate(d.get('words', ())):
                if h.I.res(o.f.get(PAY + 8 * k)) != h.ref(w): return 'the contents of a block changed'
            if o.f[SIZE] != o.info['size'] - PAY: return 'the size of a block changed'
    n = {}
    for o in gone:
        b = [n for n, x in h.rec.items() if x is o]
        d = h.sc['blocks'][b[0]] if b else {}
        c = [x for x in h.called if x[0] == d.get('dtor') and x[1] and x[1][0] == P(o, PAY)]
        if 'dtor' in d and len(c) != 1: return 'the destructor of a freed block is called %d times with its address' % len(c)
    for x in h.called:
        if x[0].startswith('dtor') and not any(x[1] and x[1][0] == P(o, PAY) for o in gone): return 'a destructor is called for a block that is not freed'
    return None

JOBS = []
def wait(j):
    """the answer of a forked analysis"""
    if j[1] is None:
        with os.fdopen(j[2], 'rb') as f: d = f.read()
        os.waitpid(j[0], 0); j[1] = pickle.loads(d) if d else ToolError('an analysis of the collector ended without an answer')
    return j[1]
def operation(*a, **k):
    """perform(...) in a process of its own, at most eight at a time"""
    run = [j for j in JOBS if j[1] is None]
    if len(run) >= 8:
        import select
        r = select.select([j[2] for j in run], [], [])[0]
        for j in run:
            if j[2] in r: wait(j)
    rd, wr = os.pipe(); sys.stdout.flush(); sys.stderr.flush(); pid = os.fork()
    if pid == 0:
        os.close(rd)
        try:
            try: d = perform(*a, **k)
            except ToolError as e: d = e
            except BaseException as e: d = ToolError('%s: %s' % (type(e).__name__, e))
            with os.fdopen(wr, 'wb') as f: f.write(pickle.dumps(d))
        finally: os._exit(0)
    os.close(wr); JOBS.append([pid, None, rd]); return 0
def perform(res, mod, rule, fn, sc, name, args, check, oom=0, calloc=False):
    """run fn on the scenario; check(h, I, result) -> None or what is wrong"""
    f = mod.funcs.get(fn)
    if f is None or f.decl: raise ToolError('%s not found' % fn)
    h = Heap(mod, sc, oom); n = 0; bad = None; t0 = time.time()
    def setup(I):
        h.build(I); h.watch_calloc = calloc
        a = args(h, I)
        try: r = I.call(fn, a)
        except Wrong as w: return ('wrong', str(w))
        return ('ok', check(h, I, r))
    for p in h.I.run(setup):
        n += 1
        if p.end != 'return': bad = bad or (f.file, 'does not return (%s)' % p.end); continue
        k, m = p.result
        if m and bad is None: bad = (h.problem[0] if k == 'wrong' and h.problem else '%s:%d' % (f.file, f.line), m)
    if h.I.overrun: bad = bad or ('%s:%s' % (mod.funcs[h.I.overrun[0]].file, h.I.overrun[1]), 'a loop of %s does not end' % h.I.overrun[0])
    if n == 0 and bad is None: raise ToolError('%s: no state of the collector analysed' % fn)
    if os.environ.get("GCT"): sys.stderr.write("%s %s %d %.1f\n" % (fn, name, n, time.time() - t0))
    return n, rule, bad is None, '%s: %s' % (fn, name), bad[0] if bad else f.file, '%s (%s): %s' % (fn, name, bad[1] if bad else '')
@reg('C23', 'abstract interpretation of the collector on enumerated block graphs, with hash positions and table occupancy left open and split into cases, against an independent definition of reachability and of a well-formed block table',
     'Every interface function of the bundled collector is analysed on tables of up to four blocks with every distribution over the chains. After a collection exactly the blocks not reachable from a root, the stack or a register have been freed, once, after their destructor; the others are in the chain they hash to, unmarked, with their root flag and contents; the counters describe the table. Allocation, reallocation, removal, registration and resizing keep the table well-formed.')
def c23(res, tier):
    mod = ir.compile_units(ir.units()['gc']); del JOBS[:]
    for st, n in (('%struct.gc_t', 8), ('%struct.gc_record_t', 4)):
        if len(mod.structs.get(st, ())) != n: raise ToolError('the layout of %s changed' % st)
    at = [n for n in mod.funcs if n == 'GC_atomic_mrk']
    if not at: raise ToolError('the marker of pointer-free blocks is gone')
    N = 0
    sc = list(scenarios(at[0])); D = dict(sc)
    res.rule('collection', 'a collection frees exactly the blocks that cannot be reached, once, and leaves a well-formed table of the others')
    for name, c in sc:
        def chk(h, I, r):
            live = h.reach(I); roots = {h.rec[b] for b, d in c['blocks'].items() if d.get('root')}
            for o in live:
                if o.info.get('freed'): return 'a block that is in use was freed'
            return after(h, I, live, set(h.rec.values()) - live, roots, res, dirty=0)
        N += operation(res, mod, 'collection', 'GC_collect', c, name, lambda h, I: [], chk)
    res.rule('accounting', 'what is reported as allocated, reachable and collectable is so, and asking changes nothing')
    for name, c in sc:
        roots = lambda h: {h.rec[b] for b, d in c['blocks'].items() if d.get('root')}
        def same(h, I, r): return after(h, I, set(h.rec.values()), set(), roots(h), res, dirty=c.get('dirty', 100))
        def rea(h, I, r):
            w = sum(o.f[SIZE] for o in h.reach(I))
            return same(h, I, r) or (None if I.res(r) == w else 'reports %s reachable bytes where there are %d' % (I.res(r), w))
        def col(h, I, r):
            w = sum(o.f[SIZE] for o in set(h.rec.values()) - h.reach(I))
            return same(h, I, r) or (None if I.res(r) == w else 'reports %s collectable bytes where there are %d' % (I.res(r), w))
        def alc(h, I, r):
            w = sum(o.f[SIZE] for o in h.rec.values())
            return same(h, I, r) or (None if I.res(r) == w else 'reports %s allocated bytes where there are %d' % (I.res(r), w))
        if name in ('chain', 'cycle and garbage', 'root and garbage', 'two roots', 'pointer-free', 'words', 'no block') or tier != 'quick':
            N += operation(res, mod, 'accounting', 'GC_get_reachable', c, name, lambda h, I: [], rea)
            N += operation(res, mod, 'accounting', 'GC_get_collectable', c, name, lambda h, I: [], col)
            N += operation(res, mod, 'accounting', 'GC_get_allocated', c, name, lambda h, I: [], alc)
    # -- allocation
    res.rule('allocation', 'a new block is entered in the table with the size, destructor and marker asked for, beside the others; nothing is lost if there is no memory')
    base = {'empty': dict(blocks={}), 'some': dict(blocks=dict(a=B('b', root=True), b=B()), stack=[0]), 'three': dict(blocks=dict(a=B(root=True), b=B(), c=B(root=True)), stack=['b'], table=0), 'larger': dict(blocks=dict(a=B('a', root=True)), stack=[0], table=1)}
    BIG = 1 << 40
    def made(size, dtor, mrk, zero, collect, dirty0, oom):
        def chk(h, I, r):
            r = I.res(r); sc = h.sc
            live = set(h.rec.values()); gone = set()
            if collect: live = h.reach(I); gone = set(h.rec.values()) - live
            roots = {h.rec[b] for b, d in sc['blocks'].items() if d.get('root')}
            if oom > 1:
                if r != 0: return 'returns a block although there is no memory'
                return after(h, I, live, gone, roots, res)
            if not isinstance(r, P) or r.off != PAY or r.idx: return 'does not return the address of the block'
            o = r.o
            if o.info.get('freed'): return 'returns a freed block'
            if not isinstance(o.info['size'], int) or o.info['size'] < PAY + size: return 'the block has %s bytes of the %d needed' % (o.info['size'], PAY + size)
            if I.res(o.f.get(SIZE)) != size: return 'the size of the new block is recorded as %s where it is %d' % (I.res(o.f.get(SIZE)), size)
            if I.res(o.f.get(DTOR)) != dtor: return 'the new block does not have the destructor asked for'
            if I.res(o.f.get(MRK)) != mrk: return 'the new block does not have the marker asked for'
            if zero:
                for k in range(0, size, 8):
                    if I.res(o.f.get(PAY + k, 0 if o.info['zero'] else None)) != 0: return 'the new block is not cleared'
            return after(h, I, live | {o}, gone, roots, res, dirty=(0 if collect else dirty0) + size)
        return chk
    for bn, c in base.items():
        AT = Fn(at[0])
        for fn, args, size, dtor, mrk, zero in (('GC_alloc', [24], 24, 0, 0, False), ('GC_alloc_atomic', [24], 24, 0, AT, False), ('GC_calloc', [3, 8], 24, 0, 0, True), ('GC_calloc_atomic', [5, 4], 20, 0, AT, True),
                                                ('GC_alloc_opt', [16, Fn('dtorA'), Fn('markA')], 16, Fn('dtorA'), Fn('markA'), False), ('GC_calloc_opt', [2, 8, Fn('dtorB'), Fn('markA')], 16, Fn('dtorB'), Fn('markA'), True),
                                                ('GC_realloc', [0, 24], 24, 0, 0, False), ('GC_realloc_atomic', [0, 24], 24, 0, AT, False)):
            N += operation(res, mod, 'allocation', fn, c, bn, lambda h, I, args=args: list(args), made(size, dtor, mrk, zero, False, 100, 0))
            if fn in ('GC_alloc', 'GC_calloc', 'GC_alloc_opt') and bn in ('some', 'three'):
                N += operation(res, mod, 'allocation', fn, dict(c, dirty=BIG), bn + ', due for a collection', lambda h, I, args=args: list(args), made(size, dtor, mrk, zero, True, 0, 0))
                N += operation(res, mod, 'allocation', fn, dict(c, dirty=BIG, flags=0), bn + ', collection paused', lambda h, I, args=args: list(args), made(size, dtor, mrk, zero, False, BIG, 0))
                for oom in (1, 2): N += operation(res, mod, 'allocation', fn, c, bn + ', no memory %s' % ('at first' if oom == 1 else 'at all'), lambda h, I, args=args: list(args), made(size, dtor, mrk, zero, True, 0, oom), oom=oom, calloc=fn == 'GC_calloc')
    # -- removal
    res.rule('removal', 'a block freed by hand leaves the table before it is freed, and the others keep their links and flags')
    rm = {'three': dict(blocks=dict(a=B(root=True), b=B(dtor='dtorA'), c=B(root=True)), stack=[0]), 'with roots': dict(blocks=dict(a=B(), b=B(root=True, dtor='dtorA'), c=B()), table=0), 'one': dict(blocks=dict(a=B(dtor='dtorB')))}
    for bn, c in rm.items():
        for v in c['blocks']:
            def gone1(h, I, r):
                o = h.rec[v]
                return after(h, I, set(h.rec.values()) - {o}, {o}, {h.rec[b] for b, d in c['blocks'].items() if d.get('root') and b != v}, res)
            N += operation(res, mod, 'removal', 'GC_free', c, '%s, %s' % (bn, v), lambda h, I, v=v: [P(h.rec[v], PAY)], gone1)
            def gone2(h, I, r): return gone1(h, I, r) or (None if I.res(r) == 0 else 'returns a block of no bytes')
            N += operation(res, mod, 'removal', 'GC_realloc', c, '%s, %s to nothing' % (bn, v), lambda h, I, v=v: [P(h.rec[v], PAY), 0], gone2)
        def none(h, I, r): return after(h, I, set(h.rec.values()), set(), {h.rec[b] for b, d in c['blocks'].items() if d.get('root')}, res)
        for what, val in (('nothing', lambda h, I: [0]), ('an unknown address', lambda h, I: [P(I.new('new', 'foreign'), PAY)])):
            N += operation(res, mod, 'removal', 'GC_free', c, '%s, %s' % (bn, what), val, none)
    # -- reallocation
    res.rule('reallocation', 'a reallocated block replaces the old one in the table, keeps its contents and stays a root if it was one')
    ra = {'three': dict(blocks=dict(a=B('b', 'junk', root=True), b=B('c', 0), c=B(0, 'b')), stack=[0]), 'one': dict(blocks=dict(a=B('a', 'x'))), 'in use': dict(blocks=dict(a=B('b', 0), b=B(0)), stack=['a'], roomy=True)}
    for bn, c in ra.items():
        for v in c['blocks']:
            for fn, size, oom in (('GC_realloc', 24, 0), ('GC_realloc', 8, 0), ('GC_realloc_atomic', 32, 0), ('GC_realloc', 40, 1), ('GC_realloc', 40, 2)):
                if oom and (bn != 'in use' or v != 'a'): continue
                if 16 > 8 * len(c['blocks'][v]['words']): continue
                def chk(h, I, r, fn=fn, size=size, oom=oom, v=v):
                    r = I.res(r); old = h.rec[v]; isroot = c['blocks'][v].get('root')
                    roots = {h.rec[b] for b, d in c['blocks'].items() if d.get('root')}
                    if oom > 1:
                        if r != 0: return 'returns a block although there is no memory'
                        return after(h, I, set(h.rec.values()), set(), roots, res)
                    if not isinstance(r, P) or r.off != PAY: return 'does not return the address of the block'
                    o = r.o
                    if o.info.get('freed'): return 'returns a freed block'
                    if o.info['size'] < PAY + size: return 'the block has %s bytes of the %d needed' % (o.info['size'], PAY + size)
                    for k in range(0, min(16, size), 8):
                        if I.res(o.f.get(PAY + k)) != h.ref(c['blocks'][v]['words'][k // 8]): return 'the contents of the block are lost'
                    if I.res(o.f.get(SIZE)) != size: return 'the size of the block is recorded as %s where it is %d' % (I.res(o.f.get(SIZE)), size)
                    if I.res(o.f.get(MRK)) != (Fn(at[0]) if 'atomic' in fn else 0): return 'the block does not have the marker asked for'
                    if o is not old and not old.info.get('freed'): return 'the old block was not given back'
                    return after(h, I, (set(h.rec.values()) - {old}) | {o}, set(), (roots - {old}) | ({o} if isroot else set()), res)
                N += operation(res, mod, 'reallocation', fn, c, '%s, %s to %d bytes%s' % (bn, v, size, ('', ', no memory at first', ', no memory')[oom]), lambda h, I, v=v, size=size: [P(h.rec[v], PAY), size], chk, oom=oom)
    # -- registration
    res.rule('registration', 'registering a root, destructor or marker changes that block only')
    c = D['words']
    for v in c['blocks']:
        def root(h, I, r, v=v): return after(h, I, set(h.rec.values()), set(), {h.rec[v]}, res)
        N += operation(res, mod, 'registration', 'GC_register_root', c, v, lambda h, I, v=v: [P(h.rec[v], PAY)], root)
        for fn, off, val in (('GC_register_dtor', DTOR, Fn('dtorA')), ('GC_register_mrk', MRK, Fn('markA'))):
            def reg1(h, I, r, v=v, off=off, val=val):
                for b, o in h.rec.items():
                    for x in (DTOR, MRK):
                        if I.res(o.f[x]) != (val if b == v and x == off else 0): return 'the %s of a block is not what was registered' % ('destructor' if x == DTOR else 'marker')
                return after(h, I, set(h.rec.values()), set(), set(), res)
            N += operation(res, mod, 'registration', fn, c, v, lambda h, I, v=v, val=val: [P(h.rec[v], PAY), val], reg1)
    for v in D['two roots']['blocks']:
        N += operation(res, mod, 'registration', 'GC_register_root', D['two roots'], 'among roots, %s' % v, lambda h, I, v=v: [P(h.rec[v], PAY)],
                       lambda h, I, r, v=v: after(h, I, set(h.rec.values()), set(), {h.rec[x] for x in ('a', 'b', v)}, res))
    def unch(h, I, r): return after(h, I, set(h.rec.values()), set(), set(), res)
    for fn, extra in (('GC_register_root', []), ('GC_register_dtor', [Fn('dtorA')]), ('GC_register_mrk', [Fn('markA')])):
        N += operation(res, mod, 'registration', fn, c, 'an unknown address', lambda h, I, e=extra: [P(I.new('new', 'foreign'), PAY)] + e, unch)
    res.rule('pausing', 'collection can be paused and resumed, and starting and ending the collector leaves no block')
    for fn, fl, w in (('GC_pause', 1, 0), ('GC_pause', 0, 0), ('GC_resume', 0, 1), ('GC_resume', 1, 1)):
        N += operation(res, mod, 'pausing', fn, dict(D['chain'], flags=fl), 'flags %d' % fl, lambda h, I: [], lambda h, I, r, w=w: after(h, I, set(h.rec.values()), set(), set(), res) or (None if I.res(h.gc.f[G['flags']]) == w else 'leaves the flags at %s' % (I.res(h.gc.f[G['flags']]),)))
    for name in ('chain', 'two roots', 'destructors', 'pointer-free root'):
        def fin(h, I, r):
            for o in h.rec.values():
                if not o.info.get('freed'): return 'a block is not freed'
            if not h.gc.info.get('freed') or not I.res(h.gc.f[G['buckets']]).info.get('freed'): return 'the collector itself is not freed'
            for b, d in h.sc['blocks'].items():
                n = len([x for x in h.called if x[0].startswith('dtor') and x[1] and x[1][0] == P(h.rec[b], PAY)])
                if n != (1 if 'dtor' in d else 0): return 'the destructor of a block is called %d times' % n
        N += operation(res, mod, 'pausing', 'GC_finalize', D[name], name, lambda h, I: [], fin)
    def ini(h, I, r):
        g = [v for v in I.globmem.values() if isinstance(v, O) and v is not h.gc]
        if len(g) != 1: return 'the collector is not kept'
        h.gc = g[0]; h.rec = {}
        if I.res(h.gc.f.get(G['stack'])) != P(I.stk, 40): return 'the bottom of the stack is not what was given'
        if I.res(h.gc.f.get(G['flags'])) != 1: return 'collection is not enabled'
        return after(h, I, set(), set(), set(), res, dirty=0)
    N += operation(res, mod, 'pausing', 'GC_init', D['no block'], 'start', lambda h, I: [P(I.stk, 40)], ini)
    for j in JOBS:
        d = wait(j)
        if isinstance(d, ToolError): raise d
        n, rule, ok, key, where, msg = d; N += n; res.ob(ok, key, where, msg, rule=rule)
    cfg.truncated_loops(res, mod, [n for n in mod.funcs if not mod.funcs[n].decl])
    res.cov['states of the collector analysed'] = N

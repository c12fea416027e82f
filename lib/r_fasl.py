"""C16: the FASL reader consumes exactly what the FASL writer emits."""
from rules import reg
from report import ToolError
import ir
from shape import *
from heap import *
from bits import Bits

def stream(I): return I.facts.setdefault('fasl', {'out': [], 'pos': 0, 'end': None})
def h_fputc(I, a, ins):
    v = I.res(a[0]); s = stream(I)
    s['out'].append(I.bits.cast('trunc', v, 'i32', 'i8') if isinstance(v, S) else (v & 255)); return v
def h_fputs(I, a, ins):
    s = stream(I); c = cells(I, a[0], 'fputs', ins, I.heaprun)
    if c is None: raise ToolError('fputs of unknown text')
    s['out'] += c; return 1
def h_fwrite(I, a, ins):
    n = I.res(a[1]); m = I.res(a[2])
    if not isinstance(n, int) or not isinstance(m, int): raise ToolError('fwrite of unknown size')
    for k in range(n * m): 
        v = I.load(I.padd(I.res(a[0]), k, ()), 'i8', ins); stream(I)['out'].append(v)
    return m
def h_fgetc(I, a, ins):
    s = stream(I); k = s['pos']
    if k >= len(s['out']) or s['end'] is not None and k >= s['end']:
        s['over'] = True; return -1
    s['pos'] = k + 1; v = s['out'][k]
    if isinstance(v, int): return v & 255
    return I.bits.cast('zext', v, 'i8', 'i32')
def h_fread(I, a, ins):
    n = I.res(a[1]); m = I.res(a[2])
    if not isinstance(n, int) or not isinstance(m, int): raise ToolError('fread of unknown size')
    for k in range(n * m):
        v = h_fgetc(I, a[3:], ins)
        if v == -1: return k // n
        I.store(I.padd(I.res(a[0]), k, ()), I.bits.cast('trunc', v, 'i32', 'i8') if isinstance(v, S) else v, 'i8', ins)
    return m
def h_intern(I, a, ins):
    c = cells(I, a[-1], 'intern', ins, I.heaprun)
    if c is None: o = elem(I, 'symbol', SYMBOL); o.f[8] = elem(I, 'unknown'); o.f[8].info['opaque'] = True; return o
    return str_(I, c, SYMBOL)
def quit_(I, a, ins): raise Done('noreturn', ('exit', a), ins)
HOOKS = {'fputc': h_fputc, 'putc': h_fputc, 'fputs': h_fputs, 'fwrite': h_fwrite, 'fgetc': h_fgetc, 'getc': h_fgetc, 'fread': h_fread, 'intern_symbol': h_intern, 'intern': h_intern,
         'exit': quit_, 'minim_error': quit_, 'minim_error1': quit_, 'minim_error2': quit_, 'write_object': lambda I, a, ins: None, 'fprintf': lambda I, a, ins: 0, 'feof': lambda I, a, ins: 1 if stream(I).get('over') else 0,
         'fflush': lambda I, a, ins: 0}

def leaf(I, k):
    c = S('byte', k); I.bits.width[c] = 8; return chr_(I, c)
def uch(I, k):
    c = sch(I, k); I.bits.width[c] = 8; return c
def vec(I, xs):
    o = I.new('new', 'vec', VECTOR); o.f[8] = len(xs)
    for k, x in enumerate(xs): o.f[16 + 8 * k] = x
    return o
def rec(I, rtd, xs):
    o = I.new('new', 'rec', RECORD); o.f[4] = len(xs); o.f[8] = rtd
    for k, x in enumerate(xs): o.f[16 + 8 * k] = x
    return o
def fixu(I, k):
    v = S('v', k); I.bits.width[v] = 64; return fix(I, v)
def brtd(I):
    o = I.sp('minim_base_rtd'); return o

def skeletons(N):
    """(what, builder): every kind of value the format has, of all small sizes, contents opaque"""
    out = []
    for nm in ('minim_null', 'minim_true', 'minim_false', 'minim_eof', 'minim_void'): out.append((nm[6:], lambda I, nm=nm: I.sp(nm), nm[6:]))
    out.append(('empty vector', lambda I: I.sp('minim_empty_vec'), 'vector'))
    out.append(('base record type', brtd, 'record'))
    out.append(('fixnum', lambda I: fixu(I, 0), 'fixnum'))
    out.append(('character', lambda I: leaf(I, 0), 'character'))
    for n in list(range(N + 1)) + [63, 64, 127, 128, 129, 200, 255, 256, 300]:
        out.append(('symbol of %d characters' % n, lambda I, n=n: str_(I, [uch(I, k) for k in range(n)], SYMBOL), 'symbol'))
        out.append(('string of %d characters' % n, lambda I, n=n: str_(I, [uch(I, k) for k in range(n)]), 'string'))
    for n in list(range(1, N + 1)) + [127, 128, 256, 300]:
        out.append(('list of %d' % n, lambda I, n=n: lst(I, [leaf(I, k) for k in range(n)]), 'pair'))
        out.append(('improper list of %d' % n, lambda I, n=n: lst(I, [leaf(I, k) for k in range(n)], leaf(I, n)), 'pair'))
        out.append(('vector of %d' % n, lambda I, n=n: vec(I, [leaf(I, k) for k in range(n)]), 'vector'))
    for n in list(range(N + 1)) + [127, 128, 256]:
        out.append(('record of %d fields' % n, lambda I, n=n: rec(I, rec(I, brtd(I), [leaf(I, 900 + k) for k in range(6)]), [leaf(I, k) for k in range(n)]), 'record'))
        out.append(('record type with %d fields' % n, lambda I, n=n: rec(I, brtd(I), [leaf(I, k) for k in range(n + 6)]), 'record'))
    nest = {'list': lambda I, xs: lst(I, xs), 'dotted pair': lambda I, xs: lst(I, xs[:-1], xs[-1]) if len(xs) > 1 else lst(I, xs), 'vector': vec, 'record': lambda I, xs: rec(I, rec(I, brtd(I), [leaf(I, 900)]), xs)}
    for a, f in nest.items():
        for b, g in nest.items():
            out.append(('%s inside a %s' % (b, a), lambda I, f=f, g=g: f(I, [leaf(I, 0), g(I, [leaf(I, 1), leaf(I, 2)]), leaf(I, 3)]), {'list': 'pair', 'dotted pair': 'pair'}.get(a, a)))
            out.append(('%s at the end of a %s' % (b, a), lambda I, f=f, g=g: f(I, [leaf(I, 0), g(I, [leaf(I, 1), leaf(I, 2)])]), {'list': 'pair', 'dotted pair': 'pair'}.get(a, a)))
        for nm, g in (('string', lambda I: str_(I, [uch(I, 50)])), ('symbol', lambda I: str_(I, [uch(I, 51)], SYMBOL)), ('empty list', lambda I: I.sp('minim_null')), ('empty vector', lambda I: I.sp('minim_empty_vec')), ('#f', lambda I: I.sp('minim_false'))):
            out.append(('%s inside a %s' % (nm, a), lambda I, f=f, g=g: f(I, [leaf(I, 0), g(I), leaf(I, 3)]), {'list': 'pair', 'dotted pair': 'pair'}.get(a, a)))
        out.append(('fixnum inside a %s' % a, lambda I, f=f: f(I, [fixu(I, 7), leaf(I, 3)]), {'list': 'pair', 'dotted pair': 'pair'}.get(a, a)))
    return out

def same(I, a, b, where=''):
    """structural difference between the value written and the value read"""
    a = I.res(a); b = I.res(b)
    if a is b: return None
    if not isinstance(b, O): return 'not an object'
    if a.tag != b.tag: return 'a %s comes back as a %s' % (TAGNAME[a.tag], TAGNAME[b.tag] if b.tag is not None else 'nothing')
    if a.kind == 'special' and a.tag == SPECIAL: return 'a constant comes back as another object'
    if a.tag in (STRING, SYMBOL):
        x = cells(I, a.f[8], 'value', None, I.heaprun); y = cells(I, b.f.get(8), 'value', None, I.heaprun)
        if y is None or len(x) != len(y): return 'a %s of %d characters comes back with %s' % (TAGNAME[a.tag], len(x), 'unknown characters' if y is None else len(y))
        for k, (p, q) in enumerate(zip(x, y)):
            if not bits_eq(I, p, q, 8): return 'character %d of a %s is not the one written' % (k, TAGNAME[a.tag])
        return None
    if a.tag == FIXNUM: return None if bits_eq(I, a.f[8], b.f.get(8), 64) else 'a fixnum comes back with another value'
    if a.tag == CHAR: return None if bits_eq(I, a.f[4], b.f.get(4), 8) else 'a character comes back changed'
    if a.tag == PAIR:
        while True:
            d = same(I, a.f[8], b.f.get(8))
            if d: return d
            a = I.res(a.f[16]); b = I.res(b.f.get(16))
            if not (isinstance(a, O) and isinstance(b, O) and a.tag == PAIR and b.tag == PAIR): return same(I, a, b)
    if a.tag == VECTOR:
        n = a.f[8]
        if I.res(b.f.get(8)) != n: return 'a vector of %d elements comes back with %s' % (n, b.f.get(8))
        for k in range(n):
            d = same(I, a.f[16 + 8 * k], b.f.get(16 + 8 * k))
            if d: return 'element %d of a vector: %s' % (k, d)
        return None
    if a.tag == RECORD:
        if I.res(b.f.get(4)) != a.f[4]: return 'a record of %d fields comes back with %s' % (a.f[4], b.f.get(4))
        d = same(I, a.f[8], b.f.get(8))
        if d: return 'record type: %s' % d
        for k in range(a.f[4]):
            d = same(I, a.f[16 + 8 * k], b.f.get(16 + 8 * k))
            if d: return 'field %d of a record: %s' % (k, d)
        return None
    raise ToolError('same: %s' % TAGNAME[a.tag])
def bits_eq(I, x, y, w):
    x = I.res(x); y = I.res(y)
    p = I.bits.of(x, w); q = I.bits.of(y, w)
    return x == y or p is not None and q is not None and p == q

def runner(mod, visits):
    h = HeapRun(mod, 'write_fasl', maxvisits=visits, hooks=HOOKS); I = h.I; I.reclimit = 12; I.maxdepth = 60; Bits(I)
    return h, I
def go(mod, b, end=None, visits=700):
    """yield (path, written, encoding, result, over) for one value"""
    h, I = runner(mod, visits); w, r = mod.funcs['write_fasl'], mod.funcs['read_fasl']; out = []
    def setup(I):
        h.writes = []; st = stream(I); v = b(I); st['v'] = v
        I.exec(w, [I.new('in', 'out'), v]); st['n'] = len(st['out']); st['written'] = True
        if end is not None:
            if end >= st['n']: raise Cut()
            st['end'] = end
        st['r'] = I.exec(r, [I.new('in', 'in')]); st['read'] = True
        return st['r']
    for p in I.run(setup, 4000):
        st = p.facts['fasl']
        d = None
        if end is None:
            if p.end != 'return': d = 'stops with an error while %s' % ('reading it back' if st.get('written') else 'writing it')
            elif st['pos'] != st['n']: d = 'leaves %d of the %d bytes written unread' % (st['n'] - st['pos'], st['n'])
            else: d = same(I, st['v'], st['r'])
        elif p.end == 'return': d = 'returns a value from the first %d of %d bytes' % (end, st['n'])
        elif p.end != 'noreturn': d = 'does not report the end of the input after %d of %d bytes' % (end, st['n'])
        out.append((p, d, st['n'] if 'n' in st else 0, st['out'][0] if st['out'] else None))
    if I.overrun and end is None: out.append((None, 'does not finish (%s:%s)' % I.overrun, 0, None))
    return out, h

def decode(I, bs):
    """the word whose encoding starts a byte sequence; None if the continuation bits are unknown"""
    out = ()
    for b in bs:
        t = I.bits.of(b, 8)
        if t is None or not isinstance(t[0], int): return None
        out += t[1:]
        if t[0] == 0: return (out + (0,) * 64)[:64]
    return None
def nrm(I, x):
    x = I.res(x)
    if isinstance(x, S) and x.k[0] == 'add' and isinstance(x.k[2], int): return I.arith('add', nrm(I, x.k[1]), x.k[2], 'i64')
    t = I.bits.of(x, 64) if isinstance(x, S) else None
    return x if t is None else I.bits.mk(t)
def lengths(mod, res, loc):
    """the length of a value of any size is written and read in full"""
    res.rule('length', 'the number of elements is written and read in full, whatever it is')
    def mkL(I): 
        x = S('v', 'len'); I.bits.width[x] = 31; return S('bits', tuple((x, i) for i in range(31)) + (0,) * 33)
    def some(I, o, tag):
        def g(I, q, k, ty, ins):
            if q is o and ty == 'ptr' and k != 8: return leaf(I, k if isinstance(k, int) else 0)
            return h0(I, q, k, ty, ins)
        h0 = I.heaprun.missing; I.gty_load = g
    def one(fn, build, visits, check, hooks):
        hk = dict(HOOKS); hk.update(hooks); h = HeapRun(mod, fn, maxvisits=visits, hooks=hk); I = h.I; I.reclimit = 12; I.maxdepth = 60; Bits(I); n = 0; bad = None; h.index_ok = lambda *a: True
        def setup(I):
            nonlocal n, bad
            h.writes = []; a, L = build(I)
            try: I.exec(mod.funcs[fn], a)
            except Cut: pass
            d = check(I, L); n += 1
            bad = bad or d
        for p in I.run(setup, 4000): pass
        return n, bad
    def wcheck(I, L):
        o = stream(I)['out']; w = decode(I, o[1:])
        return None if w is not None and w == I.bits.of(L, 64) else 'the length written is not the length of the value'
    for kind in ('vector', 'record', 'string', 'symbol', 'pair'):
        hooks = {}; LL = {}
        def b(I):
            L = mkL(I); LL['L'] = L
            if kind == 'vector': o = elem(I, 'vec', VECTOR); o.f[8] = L; some(I, o, VECTOR)
            elif kind == 'record': o = elem(I, 'rec', RECORD); o.f[4] = S('bits', I.bits.of(L, 32)); o.f[8] = leaf(I, 1); some(I, o, RECORD)
            elif kind == 'pair': o = lst(I, [leaf(I, 0), leaf(I, 1)])
            else: o = elem(I, 'str', STRING if kind == 'string' else SYMBOL); o.f[8] = buf(I, [uch(I, 0)])
            o.kind = 'new'      # not one of the constants
            return [elem(I, 'out'), o], L
        if kind in ('string', 'symbol'): hooks['strlen'] = lambda I, a, ins: LL['L']
        if kind == 'pair': hooks['list_length'] = lambda I, a, ins: LL['L']
        n, bad = one('write_fasl', b, 8, wcheck, hooks)
        if not n: raise ToolError('length of a %s: nothing analysed' % kind)
        res.ob(not bad, 'write ' + kind, loc('write_fasl'), '%s: %s' % (kind, bad))
    def rcheck(kind):
        def c(I, L):
            for e in I.events:
                if e[0] != 'alloc': continue
                o = e[1]; sz = I.res(o.info['size'])
                if kind in ('vector', 'record') and o.tag == (VECTOR if kind == 'vector' else RECORD):
                    w = 64 if kind == 'vector' else 32; t = I.bits.of(I.res(o.f.get(8 if kind == 'vector' else 4)), w)
                    return None if t == I.bits.of(L, w) else 'the length recorded in the object is not the length read'
                if kind in ('string', 'symbol') and o.tag is None and o.info['atomic']:
                    want = I.arith('add', L, 1, 'i64'); return None if nrm(I, sz) == want else 'the buffer is not made for the length read'
            return None
        return c
    T = {}
    for what, b, kind in skeletons(2):
        if kind in ('vector', 'record', 'string', 'symbol') and what.split()[-2:-1] != ['empty'] and ('of 2' in what):
            out, h = go(mod, b); T.setdefault(kind, out[0][3])
    for kind, t in sorted(T.items()):
        def b(I):
            x = S('v', 'len'); I.bits.width[x] = 31; bs = [(x, i) for i in range(31)] + [0] * 4; st = stream(I); out = [t]
            for k in range(5): out.append(S('bits', tuple([1 if k < 4 else 0] + bs[7 * k:7 * k + 7])))
            out += [0] * 40; st['out'] = out
            return [elem(I, 'in')], mkL(I)
        n, bad = one('read_fasl', b, 6, rcheck(kind), {})
        res.ob(not bad, 'read ' + kind, loc('read_fasl'), '%s: %s' % (kind, bad))

@reg('C16', 'abstract interpretation of the FASL writer followed by the reader on the bytes it produced, over value skeletons with opaque contents (words as bit slices, so the variable-length integer encoding is exact for every 64-bit value)',
     'For every kind of value of the format, of all small sizes and of sizes around the boundaries of the length encoding, and for every pair of nested containers, the writer is interpreted on a value with unknown contents, the reader on exactly the bytes produced; the value read must be the value written and every byte must be used. Every proper prefix must end in an error, every tag byte must be either written and read or rejected, and values outside the format must be refused.')
def c16(res, tier):
    mod = ir.core(); N = 3 if tier == 'quick' else 6
    for fn in ('write_fasl', 'read_fasl'):
        if fn not in mod.funcs: raise ToolError('%s not found' % fn)
    loc = lambda fn: '%s:%s' % (mod.funcs[fn].file, mod.funcs[fn].line)
    res.rule('round trip', 'reading what was written gives back an equal value and uses every byte')
    tags = {}; per = {}; npaths = 0; nsk = 0; enc = {}
    for what, b, kind in skeletons(N):
        out, h = go(mod, b); nsk += 1
        if not out: raise ToolError('%s: nothing analysed' % what)
        bad = per.setdefault(kind, [])
        for p, d, n, t in out:
            npaths += 1
            if isinstance(t, int): tags[t] = kind
            if d: bad.append('%s: %s' % (what, d))
            elif n <= 20 and 'of %d' % (N + 1) not in what: enc[what] = (b, max(n, enc.get(what, (b, 0))[1]), kind)
        for l, m in h.bad.values(): bad.append('%s: %s (%s)' % (what, m, l))
    for kind, bad in per.items(): res.ob(not bad, kind, loc('write_fasl'), bad[0] if bad else '')
    res.cov['value skeletons'] = nsk; res.cov['write/read paths'] = npaths; res.need(npaths, 100, 'write/read paths')
    res.rule('truncated input', 'the reader reports an error when the input ends inside a value')
    pt = {}; np = 0
    for what, (b, n, kind) in enc.items():
        for e in range(n):
            out, h = go(mod, b, e)
            for p, d, *_ in out:
                np += 1
                if d: pt.setdefault(kind, []).append('%s: the reader %s' % (what, d))
        pt.setdefault(kind, [])
    for kind, bad in pt.items(): res.ob(not bad, kind, loc('read_fasl'), bad[0] if bad else '')
    res.cov['truncated encodings'] = np; res.need(np, 60, 'truncated encodings')
    res.rule('type byte', 'the reader accepts exactly the type bytes the writer produces and reports an error for every other byte')
    acc = set()
    for t in range(256):
        h, I = runner(mod, 60); 
        def setup(I, t=t):
            h.writes = []; st = stream(I); st['out'] = [t] + [0] * 40
            return I.exec(mod.funcs['read_fasl'], [I.new('in', 'in')])
        for p in I.run(setup, 400):
            if p.end == 'return': acc.add(t)
            elif p.end != 'noreturn': res.ob(False, 'byte %d' % t, loc('read_fasl'), 'type byte %d makes the reader stop without reporting an error' % t)
    for t in sorted(acc | set(tags)): res.ob(t in acc and t in tags, 'byte %d' % t, loc('read_fasl'), 'type byte %d (%s) is %s' % (t, tags.get(t, 'unknown'), 'read but never written' if t in acc else 'written but not read'))
    res.cov['type bytes decided'] = 256
    res.rule('unsupported', 'a value outside the format is refused')
    for tag in range(17):
        if tag in (SPECIAL, CHAR, FIXNUM, SYMBOL, STRING, PAIR, VECTOR, RECORD): continue
        out, h = go(mod, lambda I: elem(I, 'x', tag)); bad = [1 for p, d, n, t in out if p.end != 'noreturn' or n]
        res.ob(not bad, TAGNAME[tag], loc('write_fasl'), 'a %s is written although the format has no such value' % TAGNAME[tag])
    lengths(mod, res, loc)

"""C09: printing, comparison and hashing agree about every type of value."""
from rules import reg
from report import ToolError
import ir
from shape import *
from heap import *
from bits import Bits

OPS = ('minim_equalp', 'minim_eqp', 'eq_hash', 'equal_hash_proc', 'write_object')
BITW = {'i64': 64, 'i8': 8}
def keep(I, o, k, ty, ins):
    """parts of input objects are opaque; a byte of a pointer or of an integer is a value of its own"""
    off = k if isinstance(k, int) else None
    if off is None: return None
    if o.tag in (STRING, SYMBOL) and off == 8 and ty == 'ptr': return buf(I, [sch(I, ('of', o.id))])
    if (o.tag, off, ty) in ((FIXNUM, 8, 'i64'), (CHAR, 4, 'i8')):
        v = S('ld', o, off); I.bits.width[v] = BITW[ty]; return v
    if ty == 'ptr' and o.id in I.partner:
        q = I.partner[o.id]; v = I.new('in', '%s.%d' % (o.name, off)); v.nonnull = True
        w = I.res(q.f.get(off))
        if isinstance(w, O):
            # the component of the other value: the same object, or another one
            if I.choose(2, ('shared', o, off)) == 0: return w
            I.partner[v.id] = w; I.partner[w.id] = v; I.facts[('same', min(v.id, w.id), max(v.id, w.id))] = False; I.apart.append((v, w))
        return v
    if ty != 'i8' or o.tag == CHAR: return None
    for base in range(off - off % 8, off + 1):
        v = I.res(o.f.get(base))
        if isinstance(v, (O, P)) or isinstance(v, S) and off < base + 8 and base != off: return S('byteof', v, off - base)
    return None
def cmpbuf(I, a, b, n, ins, stop0=True):
    x = cells(I, a, 'string comparison', ins, I.heaprun); y = cells(I, b, 'string comparison', ins, I.heaprun)
    if x is None or y is None: raise ToolError('comparison of unknown text')
    for k in range(n if n is not None else max(len(x), len(y)) + 1):
        p = x[k] if k < len(x) else 0; q = y[k] if k < len(y) else 0
        if not I.cmp('eq', p, q, 'i8'): return S('order', len(I.events), k)
        if p == 0 and q == 0: break
    return 0
def h_strcmp(I, a, ins):
    r = cmpbuf(I, a[0], a[1], None, ins)
    if r != 0: I.facts[('rng', r)] = (None, None, frozenset({0}))
    return r
def h_strncmp(I, a, ins):
    n = I.res(a[2])
    if not isinstance(n, int): raise ToolError('comparison of an unknown number of characters')
    r = cmpbuf(I, a[0], a[1], n, ins)
    if r != 0: I.facts[('rng', r)] = (None, None, frozenset({0}))
    return r
HK = {'strcmp': h_strcmp, 'strncmp': h_strncmp, 'memcmp': h_strncmp}

def eqkey(x, y): return ('equalp', min(x.id, y.id), max(x.id, y.id))
def fresh(o):
    """a value no other argument refers to"""
    o.kind = 'new'; return o
def apart(I, a, b):
    """two values known to be different objects are not both the same constant"""
    for v, w in I.apart:
        if v is a and I.res(w) is b or w is a and I.res(v) is b: raise Cut()
def runner(mod, fn, visits, hooks=None):
    h = HeapRun(mod, fn, maxvisits=visits, hooks=dict(HK, **(hooks or {})), maxpaths=60000)
    h.I.maxdepth = 60; h.I.reclimit = 12; h.I.gty_load = keep; Bits(h.I); h.I.partner = {}; h.I.apart = []; h.I.on_same = apart; return h

# ---- equality
def oracle(I, a, b, deep, known):
    """eq? / equal? as documented, decided with the facts of the path (undecided facts split it)"""
    a = I.res(a); b = I.res(b)
    if I.same(a, b): return True
    if not isinstance(a, O) or not isinstance(b, O): return False
    if deep and not known(a) and not known(b): return I.truth(S('eqv', *eqkey(a, b)))
    for t in sorted(set(range(17)) & I.possible(a)):
        if not I.tag_is(a, t): continue
        if not I.tag_is(b, t): return False
        if t == CHAR: return I.cmp('eq', I.load(P(a, 4), 'i8', None), I.load(P(b, 4), 'i8', None), 'i8')
        if t == FIXNUM: return I.cmp('eq', I.load(P(a, 8), 'i64', None), I.load(P(b, 8), 'i64', None), 'i64')
        if not deep: return False
        if t == STRING: return cmpbuf(I, I.load(P(a, 8), 'ptr', None), I.load(P(b, 8), 'ptr', None), None, None) == 0
        if t == PAIR: return all(oracle(I, I.load(P(a, o), 'ptr', None), I.load(P(b, o), 'ptr', None), deep, known) for o in (8, 16))
        if t == BOX: return oracle(I, I.load(P(a, 8), 'ptr', None), I.load(P(b, 8), 'ptr', None), deep, known)
        if t == VECTOR:
            n = I.res(a.f.get(8)); m = I.res(b.f.get(8))
            if not isinstance(n, int) or not isinstance(m, int): raise Cut()
            return n == m and all(oracle(I, a.f[16 + 8 * k], b.f[16 + 8 * k], deep, known) for k in range(n))
        return False
    return False
def equality(mod, res, fn, deep, tier):
    """every pair of types with opaque contents, and sized skeletons of the containers"""
    jobs = []
    def typed(t):
        def b(I, w):
            o = I.new('in', w, t)
            if t == STRING: o.f[8] = buf(I, [sch(I, w + str(k)) for k in range(2)])
            if t == VECTOR: o.f[8] = 1; o.f[16] = elem(I, w + '0')
            return o
        return b
    for t in range(17):
        if t == SPECIAL: continue
        for u in range(17):
            if u == SPECIAL: jobs.append(('a %s and a constant' % TAGNAME[t], typed(t), lambda I, w: I.sp('minim_null'), (t, u))); jobs.append(('a constant and a %s' % TAGNAME[t], lambda I, w: I.sp('minim_false'), typed(t), (u, t)))
            else: jobs.append(('a %s and a %s' % (TAGNAME[t], TAGNAME[u]), typed(t), typed(u), (t, u)))
    sp = ['minim_null', 'minim_true', 'minim_false', 'minim_eof', 'minim_void', 'minim_unbound']
    for x in sp:
        for y in sp: jobs.append(('%s and %s' % (x[6:], y[6:]), lambda I, w, x=x: I.sp(x), lambda I, w, y=y: I.sp(y), (SPECIAL, SPECIAL)))
    if deep:
        for n in range(4):
            for m in range(4):
                f = lambda n: lambda I, w: vec(I, [elem(I, w + str(k)) for k in range(n)])
                jobs.append(('vectors of %d and %d elements' % (n, m), f(n), f(m), (VECTOR, VECTOR)))
                f = lambda n: lambda I, w: str_(I, [sch(I, w + str(k)) for k in range(n)])
                jobs.append(('strings of %d and %d characters' % (n, m), f(n), f(m), (STRING, STRING)))
        for n in (20, 130, 300):
            for pos in (0, n // 2, n - 1):
                f = lambda n=n, pos=pos: lambda I, w: str_(I, [sch(I, w if k == pos else 'c%d' % k) for k in range(n)])
                jobs.append(('strings of %d characters that differ at most at character %d' % (n, pos), f(), f(), (STRING, STRING)))
                f = lambda n=n, pos=pos: lambda I, w: vec(I, [fresh(chr_(I, S('ch', w if k == pos else 'c%d' % k))) for k in range(n)])
                jobs.append(('vectors of %d elements that differ at most at element %d' % (n, pos), f(), f(), (VECTOR, VECTOR)))
        f = lambda I, w: fresh(vec(I, [fresh(vec(I, [fresh(chr_(I, S('ch', 1)))])), fresh(lst(I, [fresh(box(I, fresh(str_(I, [sch(I, 2)]))))], fresh(chr_(I, S('ch', w)))))]))
        jobs.append(('nested containers that differ at most in one character', f, f, (VECTOR, VECTOR)))
    rule = 'equal?' if deep else 'eq?'
    res.rule(rule, {'eq?': 'two values are eq? exactly when they are the same object, or fixnums or characters of equal value', 'equal?': 'two values are equal? exactly when they are eq?, strings of equal text, or pairs, vectors or boxes of equal? components'}[rule])
    bad = {}; states = 0
    for what, ba, bb, key in jobs:
        hk = {}
        if deep:
            def sub(I, a, ins):
                x, y = I.res(a[0]), I.res(a[1])
                if not isinstance(x, O) or not isinstance(y, O): raise ToolError('%s on something that is no object' % fn)
                if x.tag is not None and y.tag is not None and (x.f or x.tag == SPECIAL or y.tag == SPECIAL): return I.exec(mod.funcs[fn], a)
                if I.same(x, y): return 1
                if not I.possible(x) & I.possible(y): return 0
                return 1 if I.truth(S('eqv', *eqkey(x, y))) else 0
            hk[fn] = sub
        h = runner(mod, fn, 320 if ' of ' in what or 'nested' in what else 3, hk); I = h.I
        if deep: I.hooks[fn] = hk[fn]
        def setup(I):
            I.partner = {}; I.apart = []; a, b = ba(I, 'a'), bb(I, 'b')
            if I.same(a, b): b = a
            elif a.kind != 'special' and b.kind != 'special': I.partner[a.id] = b; I.partner[b.id] = a
            lim = I.nid
            r = I.exec(mod.funcs[fn], [a, b]); t = I.truth(r) if not isinstance(r, int) else r != 0
            return t, oracle(I, a, b, deep, lambda o: o.tag is not None)
        n = 0
        for p in I.run(setup):
            if p.end != 'return': continue
            n += 1; t, w = p.result
            if t != w: bad.setdefault(key, '%s answers %s for %s where it must answer %s' % (fn, 'yes' if t else 'no', what, 'yes' if w else 'no'))
        states += n
        for loc, m in h.bad.values(): bad.setdefault(key, m)
        if not n and key not in bad: raise ToolError('%s: nothing analysed for %s' % (fn, what))
    f = mod.funcs[fn]; loc = '%s:%s' % (f.file, f.line)
    for key in sorted({k[3] for k in jobs}): res.ob(key not in bad, '%s %s/%s' % (fn, TAGNAME[key[0]], TAGNAME[key[1]]), loc, bad.get(key, ''))
    return states, len(jobs)

# ---- hashing
def hashing(mod, res, fn, content, tier):
    """content: types hashed by content"""
    res.rule(fn, 'the hash of a value is the same for every value it is %s to, whatever happens to its mutable contents' % ('eq?' if content == {CHAR, FIXNUM} else 'equal? (for the types this operation is used on)'))
    f = mod.funcs[fn]; loc = '%s:%s' % (f.file, f.line); states = 0
    def value(r, I):
        r = I.res(r)
        if isinstance(r, O): return I.res(r.f.get(8)) if r.tag == FIXNUM else None
        return r
    builders = {CHAR: [lambda I: chr_(I, S('ch', 0))], FIXNUM: [lambda I: fix(I, S('v', 0))]}
    for t in (STRING, SYMBOL): builders[t] = [lambda I, n=n, t=t: str_(I, [sch(I, k) for k in range(n)], t) for n in (0, 1, 3, 17, 130)]
    for t in range(17):
        bad = None
        if t in content:
            for b in builders[t]:
                h = runner(mod, fn, 400); I = h.I
                def setup(I):
                    x, y = b(I), b(I); return value(I.exec(f, [x]), I), value(I.exec(f, [y]), I)
                n = 0
                for p in I.run(setup):
                    if p.end != 'return': continue
                    n += 1
                    if p.result[0] is None or p.result[0] != p.result[1]: bad = 'two %ss of equal value get different hashes' % TAGNAME[t]
                states += n
                for l, m in h.bad.values(): bad = bad or m
                if not n and not bad: raise ToolError('%s: nothing analysed' % fn)
        elif t != SPECIAL:
            h = runner(mod, fn, 80); I = h.I
            def setup(I):
                x = I.new('in', 'x', t)
                for k in sorted({8, 16, 24}): x.f[k] = I.new('in', 'was%d' % k) if t not in (SYMBOL,) else buf(I, [sch(I, k)])
                if t == STRING: x.f[8] = buf(I, [sch(I, 0)])
                if t == VECTOR: x.f[8] = 2
                a = value(I.exec(f, [x]), I)
                if t != SYMBOL:
                    for k in (16, 24) if t == VECTOR else (8, 16, 24): x.f[k] = I.new('in', 'now%d' % k)
                    if t == STRING: x.f[8] = buf(I, [sch(I, 'now')])
                return a, value(I.exec(f, [x]), I)
            n = 0
            for p in I.run(setup):
                if p.end != 'return': continue
                n += 1
                if p.result[0] is None or p.result[0] != p.result[1]: bad = 'the hash of a %s changes with its contents although eq? does not look at them' % TAGNAME[t]
            states += n
            for l, m in h.bad.values(): bad = bad or m
            if not n and not bad: raise ToolError('%s: nothing analysed' % fn)
        else: continue
        res.ob(bad is None, '%s %s' % (fn, TAGNAME[t]), loc, '%s: %s' % (fn, bad))
    return states

# ---- printing
def h_put(I, a, ins):
    v = I.res(a[0]); I.out.append(chr(v) if isinstance(v, int) and 0 < v < 256 else v); return v
def h_puts(I, a, ins):
    c = cells(I, a[0], 'fputs', ins, I.heaprun)
    I.out.extend([chr(x & 255) if isinstance(x, int) else x for x in c] if c is not None else [('text', I.res(a[0]))]); return 1
def h_write(I, a, ins):
    n = I.res(a[1]); m = I.res(a[2])
    if not isinstance(n, int) or not isinstance(m, int): raise ToolError('output of unknown size')
    c = cells(I, a[0], 'fwrite', ins, I.heaprun)
    if c is None or len(c) < n * m: raise ToolError('output of unknown text')
    I.out.extend(chr(x & 255) if isinstance(x, int) else x for x in c[:n * m]); return m
def h_fprintf(I, a, ins):
    f = I.res(a[1])
    if not isinstance(f, Str): raise ToolError('unknown format')
    t = f.b.rstrip(b'\0').decode('latin1'); k = 0; i = 2
    while k < len(t):
        if t[k] != '%': I.out.append(t[k]); k += 1; continue
        e = k + 1
        while t[e] in '0123456789.-+ #lhzjt': e += 1
        sp = t[k:e + 1]; k = e + 1
        if sp[-1] == '%': I.out.append('%'); continue
        v = I.res(a[i]); i += 1
        if sp == '%s': h_puts(I, [v], ins)
        elif sp == '%c': I.out.append(chr(v) if isinstance(v, int) else v)
        elif sp in ('%ld', '%li', '%zd'): I.out.append(('number', v) if not isinstance(v, int) else ('number', v))
        else: I.out.append((sp, v))
    return 1
def printing(mod, res, tier):
    res.rule('printer', 'every type of value has a representation of its own, and the elements of lists, vectors and boxes are all printed, in order')
    f = mod.funcs['write_object']; loc = '%s:%s' % (f.file, f.line); states = 0
    def leaf(I, k): o = elem(I, 'e%d' % k); o.info['leaf'] = True; return o
    def show(build):
        def wo(I, a, ins):
            o = I.res(a[1])
            if isinstance(o, O) and o.info.get('leaf'): I.out.append(('obj', o)); return None
            return I.exec(f, a)
        h = runner(mod, 'write_object', 400, {'write_object': wo, 'fputc': h_put, 'putc': h_put, 'fputs': h_puts, 'fwrite': h_write, 'fprintf': h_fprintf}); I = h.I; I.hooks['write_object'] = wo
        def setup(I):
            I.out = []; x = build(I); I.exec(f, [I.new('in', 'FILE'), x])
            return x, [y if not isinstance(y, tuple) or y[0] != 'obj' else ('obj', y[1].name) for y in I.out]
        outs = [p.result[1] for p in I.run(setup) if p.end == 'return']
        if not outs: raise ToolError('write_object: nothing analysed')
        return outs
    def text(o): return ''.join(x if isinstance(x, str) else '\x00' for x in o)
    seen = {}
    def kind(name, build, group=None):
        nonlocal states
        outs = show(build); states += len(outs); bad = None
        for o in outs:
            t = text(o)
            if not t: bad = 'prints nothing'
            elif 'garbage' in t: bad = 'is printed as garbage'
            else:
                q = seen.setdefault(t, group or name)
                if q != (group or name): bad = 'is printed like a %s (%s)' % (q, t)
        res.ob(bad is None, 'kind %s' % name, loc, 'a %s %s' % (name, bad))
    for nm in ('minim_null', 'minim_true', 'minim_false', 'minim_eof', 'minim_void', 'minim_unbound', 'minim_base_rtd'): kind(nm[6:], lambda I, nm=nm: I.sp(nm))
    def port(fl):
        def b(I):
            o = I.new('in', 'port', PORT); o.f[1] = fl; return o
        return b
    def sym(I, s): return str_(I, [ord(c) for c in s], SYMBOL)
    def clo(named):
        def b(I):
            o = I.new('in', 'proc', CLOSURE); o.f[24] = sym(I, 'qq') if named else I.sp('minim_false'); return o
        return b
    def rtd(I):
        o = I.new('in', 'rtd', RECORD); o.f[8] = I.sp('minim_base_rtd'); o.f[16] = sym(I, 'qq'); o.f[4] = 6; return o
    def rec(I):
        o = I.new('in', 'rec', RECORD); o.f[8] = rtd(I); return o
    for nm, t in (('hashtable', HASHTABLE), ('syntax object', SYNTAX), ('continuation', CONT), ('code object', CODE)): kind(nm, lambda I, t=t: I.new('in', 'x', t))
    for nm, t in (('environment', ENV), ('top-level environment', TOPENV)): kind(nm, lambda I, t=t: I.new('in', 'x', t), 'environment')
    for o in (0, 1):
        kind('%s input port' % ('closed', 'open')[o], port(2 | o), 'input port'); kind('%s output port' % ('closed', 'open')[o], port(o), 'output port')
    kind('procedure without a name', clo(False)); kind('named procedure', clo(True)); kind('record type', lambda I: fresh(rtd(I))); kind('record', lambda I: fresh(rec(I)))
    kind('empty vector', lambda I: vec(I, [])); kind('empty string', lambda I: str_(I, [])); kind('fixnum', lambda I: fix(I, S('v', 0)), 'fixnum'); kind('symbol', lambda I: sym(I, 'qq'))
    def expect(what, build, want):
        nonlocal states
        outs = show(build); bad = None; states += len(outs)
        for o in outs:
            if o != want: bad = 'prints %s instead of %s' % (render(o), render(want))
        res.ob(bad is None, what, loc, '%s: the printer %s' % (what, bad))
    def render(o): return ''.join(x if isinstance(x, str) else '<%s>' % (x[1] if isinstance(x, tuple) and x[0] == 'obj' else '?') for x in o)
    E = lambda k: ('obj', 'e%d' % k)
    def sep(n): 
        r = []
        for k in range(n): r += ([' '] if k else []) + [E(k)]
        return r
    for n in (1, 2, 3, 4, 60):
        expect('list of %d' % n, lambda I: lst(I, [leaf(I, k) for k in range(n)]), ['('] + sep(n) + [')'])
        expect('improper list of %d' % n, lambda I: lst(I, [leaf(I, k) for k in range(n)], box(I, leaf(I, 99))), ['('] + sep(n) + [' ', '.', ' ', '#', '&', E(99), ')'])
    for n in (0, 1, 2, 3, 60): expect('vector of %d' % n, lambda I: vec(I, [leaf(I, k) for k in range(n)]), ['#', '('] + sep(n) + [')'])
    expect('box', lambda I: box(I, leaf(I, 0)), ['#', '&', E(0)])
    expect('list ending in a vector', lambda I: lst(I, [leaf(I, 0)], vec(I, [leaf(I, 1)])), ['(', E(0), ' ', '.', ' ', '#', '(', E(1), ')', ')'])
    expect('list in a list', lambda I: lst(I, [lst(I, [leaf(I, 0), leaf(I, 1)]), leaf(I, 2)]), ['(', '(', E(0), ' ', E(1), ')', ' ', E(2), ')'])
    for n in (0, 1, 3, 40):
        cs = [S('ch', k) for k in range(n)]
        expect('symbol of %d characters' % n, lambda I: str_(I, [sch(I, k) for k in range(n)], SYMBOL), cs)
        expect('string of %d characters' % n, lambda I: str_(I, [sch(I, k) for k in range(n)]), ['"'] + cs + ['"'])
    expect('fixnum', lambda I: fix(I, S('v', 0)), [('number', S('v', 0))])
    # characters: every one has its own name
    names = {}; bad = None
    for c in range(-128, 128):
        for o in show(lambda I: chr_(I, c)):
            states += 1; t = tuple(o)
            if t[:2] != ('#', '\\') or len(t) < 3: bad = bad or 'character %d is not printed as a character' % (c & 255)
            if names.setdefault(t, c) != c: bad = bad or 'characters %d and %d are printed alike' % (names[t] & 255, c & 255)
    res.ob(bad is None, 'characters', loc, 'the printer: %s' % bad)
    return states

def c09(res, tier):
    mod = ir.core(); n = 0
    for f in OPS:
        if f not in mod.funcs or mod.funcs[f].decl: raise ToolError('%s not found' % f)
    a, j1 = equality(mod, res, 'minim_eqp', False, tier); n += a
    a, j2 = equality(mod, res, 'minim_equalp', True, tier); n += a
    n += hashing(mod, res, 'eq_hash', {CHAR, FIXNUM}, tier)
    n += hashing(mod, res, 'equal_hash_proc', {CHAR, FIXNUM, STRING, SYMBOL}, tier)
    n += printing(mod, res, tier)
    res.cov['abstract states'] = n; res.cov['pairs of shapes compared'] = j1 + j2
    res.need(n, 500, 'abstract states')
reg('C09', 'abstract interpretation (path-partitioned, opaque contents) of the C comparison, hashing and printing operations on every pair of types and on container skeletons, compared with the structural definition evaluated over the same abstract values',
    'eq?, equal?, their hash functions and the printer of the C runtime are interpreted on values of every type with opaque contents; the answer on each abstract path must be the one the definition gives under the facts of that path, hashes of equal values must be the same abstract value and independent of mutable contents, and the printed token sequence must contain every element in order under a representation unique to the type.')(c09)

"""C26: the reader gives every text the datum it denotes, and what is written reads back as the same value."""
from rules import reg
from report import ToolError
import ir, itertools
from shape import *
from heap import *
from r_reader import reader, start, lit, shown, ALL, Fun

# ---- what texts denote.  Data: ('sym', t) ('str', t) ('chr', c) ('num', n) ('cons', a, d) ('vec', xs) ('box', x) 'nil' 'true' 'false'; EOF at the end; None: not a text the syntax defines
EOF = 'eof'
SPACE = frozenset(b' \t\n\v\f\r'); DELIM = SPACE | frozenset(b'()[]{}";'); DIG = frozenset(b'0123456789'); HEX = DIG | frozenset(b'abcdefABCDEF')
CLOSE = {40: 41, 91: 93, 123: 125}
NAMES = {b'alarm': 7, b'backspace': 8, b'delete': 127, b'esc': 27, b'linefeed': 10, b'newline': 10, b'nul': 0, b'page': 12, b'return': 13, b'space': 32, b'tab': 9, b'vtab': 11}
ESC = {b'n'[0]: 10, b't'[0]: 9, b'a'[0]: 7, b'b'[0]: 8, b'f'[0]: 12, b'r'[0]: 13, b'v'[0]: 11, b'\\'[0]: 92, b"'"[0]: 39, b'"'[0]: 34}
class Undefined(Exception): pass
class Ref:
    def __init__(s, t): s.t = bytes(t); s.i = 0
    def peek(s, k=0): return s.t[s.i + k] if s.i + k < len(s.t) else None
    def skip(s):
        s.hash = False
        while True:
            c = s.peek()
            if c is None: return
            if c in SPACE: s.i += 1
            elif c == 59:
                while s.peek() is not None and s.peek() != 10: s.i += 1
            elif c == 35 and s.peek(1) == 124:
                s.i += 2; d = 1
                while d:
                    c, e = s.peek(), s.peek(1)
                    if c is None: raise Undefined
                    if c in (35, 124):
                        if e is None or e == c: raise Undefined
                        if (c, e) == (35, 124): d += 1; s.i += 2
                        elif (c, e) == (124, 35): d -= 1; s.i += 2
                        else: s.i += 2
                    else: s.i += 1
                s.hash = True
            elif c == 35 and s.peek(1) == 59: s.i += 2; s.datum(); s.hash = True
            else: return
    def token(s):
        b = s.i
        while s.peek() is not None and s.peek() not in DELIM: s.i += 1
        return s.t[b:s.i]
    def datum(s):
        s.skip(); r = s.read()
        if r == EOF: raise Undefined
        return r
    def read(s):
        c = s.peek()
        if c is None: return EOF
        if c in CLOSE: s.i += 1; return s.rest(CLOSE[c], True)
        if c in (41, 93, 125): raise Undefined
        if c == 39: s.i += 1; return ('cons', ('sym', (b'quote')), ('cons', s.datum(), 'nil'))
        if c == 34: return s.string()
        if c == 35: return s.special()
        t = s.token()
        if t in (b'.',) or 0 in t: raise Undefined
        u = t[1:] if t[0] in b'+-' else t
        if u and all(x in DIG for x in u): return ('num', s.small(int(t)))
        return ('sym', t)
    def small(s, n):
        if abs(n) >= 1 << 63: raise Undefined
        return n
    def rest(s, close, first):
        s.skip(); c = s.peek()
        if c is None: raise Undefined
        if s.hash and c in b').]}': raise Undefined      # #; and #| |# stand before a datum
        if c == close: s.i += 1; return 'nil'
        if c == 46 and not first:
            if s.peek(1) in SPACE:
                s.i += 1; d = s.datum(); s.skip()
                if s.hash or s.peek() != close: raise Undefined
                s.i += 1; return d
        a = s.datum(); return ('cons', a, s.rest(close, False))
    def string(s):
        s.i += 1; out = []
        while True:
            c = s.peek()
            if c is None or c == 0: raise Undefined
            s.i += 1
            if c == 34: return ('str', bytes(out))
            if c == 92:
                if s.peek() not in ESC: raise Undefined
                c = ESC[s.peek()]; s.i += 1
            out.append(c)
    def special(s):
        c = s.peek(1)
        if c is None: raise Undefined
        if c == 37:
            t = s.token()
            if 0 in t: raise Undefined
            return ('sym', t)
        if c in b'tf':
            if s.peek(2) is not None and s.peek(2) not in DELIM: raise Undefined
            s.i += 2; return 'true' if c == 116 else 'false'
        if c == 92:
            if s.peek(2) is None: raise Undefined
            s.i += 3
            if s.t[s.i - 1] in DELIM:
                if s.peek() is not None and s.peek() not in DELIM: raise Undefined
                return ('chr', s.t[s.i - 1])
            s.i -= 1; t = s.token()
            if len(t) == 1: return ('chr', t[0])
            if t in NAMES: return ('chr', NAMES[t])
            raise Undefined
        if c == 39: s.i += 2; return ('cons', ('sym', b'quote-syntax'), ('cons', s.datum(), 'nil'))
        if c == 40:
            s.i += 2; xs = []
            while True:
                s.skip()
                if s.peek() is None or s.hash and s.peek() == 41: raise Undefined
                if s.peek() == 41: s.i += 1; return ('vec', tuple(xs))
                xs.append(s.datum())
        if c == 38: s.i += 2; return ('box', s.datum())
        if c == 120:
            s.i += 2; t = s.token(); u = t[1:] if t[:1] in (b'+', b'-') else t
            if not u or not all(x in HEX for x in u): raise Undefined
            return ('num', s.small(int(t, 16)))
        raise Undefined
def denotes(t):
    r = Ref(t)
    try: r.skip(); d = r.read(); return d, r.i
    except Undefined: return None, 0

# ---- what the code gives
class Val:
    def __init__(s, I, e): s.I = I; s.e = e
    def n(s, x, w=64):
        x = s.I.res(x); m = 1 << w
        if isinstance(x, bool): x = int(x)
        if isinstance(x, int): v = x
        elif isinstance(x, S):
            k = x.k
            if k[0] == 'in': v = s.e[x]
            elif k[0] == 'fn': v = k[2].f(s.e[k[1]])
            elif k[0] in OPS and len(k) == 3: v = OPS[k[0]](s.n(k[1]), s.n(k[2]))
            else: raise ToolError('a value the reader computes has no known form: %s' % k[0])
        else: raise ToolError('a value the reader computes is not a number')
        return (v + m // 2) % m - m // 2
    def datum(s, o):
        o = s.I.res(o)
        if isinstance(o, int): return EOF if o == 0 else None
        if isinstance(o, P) and o.off == 0 and not o.idx: o = s.I.res(o.o)
        for a, b in (('minim_null', 'nil'), ('minim_true', 'true'), ('minim_false', 'false')):
            if s.I.special.get(a) is o: return b
        if s.I.special.get('minim_empty_vec') is o: return ('vec', ())
        f = o.f
        if o.name in s.I.h.globsym: return ('sym', s.I.h.globsym[o.name])
        if o.tag == PAIR: 
            xs = []
            while isinstance(o, O) and o.tag == PAIR: xs.append(s.datum(o.f[8])); o = s.I.res(o.f[16])
            r = s.datum(o)
            for x in reversed(xs): r = ('cons', x, r)
            return r
        if o.tag == VECTOR: return ('vec', tuple(s.datum(f.get(16 + 8 * k, 0)) for k in range(s.n(f[8]))))
        if o.tag == BOX: return ('box', s.datum(f[8]))
        if o.tag == CHAR: return ('chr', s.n(f[4], 32) & 255)
        if o.tag == FIXNUM: return ('num', s.n(f[8]))
        if o.tag in (SYMBOL, STRING):
            t = o.info.get('text')
            if t is None: return ('text that cannot be followed',)
            b = bytes(s.n(c) & 255 for c in t)
            return ('sym' if o.tag == SYMBOL else 'str', b.split(b'\0')[0])
        return ('other',)
OPS = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b, 'and': lambda a, b: a & b, 'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b, 'shl': lambda a, b: a << (b & 63)}
def show(d):
    if d == EOF: return 'the end of the input'
    if d is None: return 'an error'
    if isinstance(d, str): return {'nil': '()', 'true': '#t', 'false': '#f'}.get(d, d)
    if d[0] in ('sym', 'str'): return '%s %r' % ({'sym': 'symbol', 'str': 'string'}[d[0]], d[1].decode('latin-1') if len(d[1]) < 60 else d[1][:30].decode('latin-1') + '... (%d characters)' % len(d[1]))
    if d[0] == 'chr': return 'character %d' % d[1]
    if d[0] == 'num': return str(d[1])
    if d[0] == 'cons': return '(%s . %s)' % (show(d[1]), show(d[2]))
    if d[0] == 'vec': return '#(%s)' % ' '.join(map(show, d[1]))
    if d[0] == 'box': return '#&%s' % show(d[1])
    return d[0]
SAMPLE = frozenset(b'\0\x07\x08\t\n\v\f\r\x1b !"#$%&\'()*+,-./0159:;<=>?@AFGXZ[\\]^_`abcdefghlnprstuvxz{|}~\x7f\x80\x9f\xa0\xff')

def compare(h, I, f, text, pre=None, only=None):
    """[(concrete text, denoted, given, where)] for one representative of every way a path can disagree; n of texts compared"""
    bad = []; n = 0; vs = [x for x in dict.fromkeys(text) if isinstance(x, S)]
    def setup(I):
        start(I, text)
        for k, v in (pre or {}).items(): I.facts[('set', k)] = v
        return I.exec(f, [I.new('in', 'FILE')])
    for p in I.run(setup):
        sets = [sorted(I.bits.set(v)) for v in vs]
        if len(vs) > 1: sets = [[c for c in x if c in SAMPLE] or x[:1] for x in sets]
        for cs in itertools.product(*sets):
            e = dict(zip(vs, cs)); t = [e[x] if isinstance(x, S) else x for x in text]
            want, used = only(t) if only else denotes(t)
            if want is None: continue
            n += 1; got = Val(I, e).datum(p.result) if p.end == 'return' else None
            took = I.at - len(I.back)
            if got != want: bad.append((t, show(want), show(got) if p.end in ('return', 'noreturn') else 'no result', p.ins.loc if p.ins else None)); break
            if want != EOF and took != used: bad.append((t, show(want) + ' leaving %d characters' % (len(t) - used), 'the same datum leaving %d characters' % (len(t) - took), p.ins.loc if p.ins else None)); break
    return bad, n

TEXTS = ['?', '??', '#?', "#\\?", '#\\?)', '#\\? a', '(?)', '(? ?)', '(a ?b)', '(a .?b)', '(a . ?)', '(a ?. b)', '[? b]', '{?}', '[(a) ?]', '#(?)', '#(? b ?)', '#(a?b)', '#&?', '#&(?)', "'?", "'(?)", "#'?", "#'(a ?)", '"?"', '"??"', '"\\?"', '"a\\?b" c', '"a\\\\?"', '"?\\"?" ', '""?', '; ?\na', ';\n?', ';?', '#| ? |# a', '#|a|#?', '#|#|?|#|#b', '#|#|#|?|#|#|# b', '#;? b', '#;a ?', '#;(a ?) b', '#; #\\? b', '?1', '-?', '+?', '1?', '12? ', '-1?', '+1?', '-?2', '1?3 ', '#x?', '#x1?', '#x-?', '#x?F ', '#x+?a)', '#xaB?', '#x?? ', '?? ', '#t?', '#f?', '#%?', '#%a? b', 'a?', 'a?b c', '.?', '..?', 'abc?(', '? b', ' ?', '\n\t?', '(?', '((a ?) . b)', '(a b . (? c))', '(#t ?)', '(#\\a ?)', '("a" ?)', '#((a) ? "b")',
         '#\\alarm', '#\\backspace ', '#\\delete)', '#\\esc', '#\\linefeed', '#\\newline ', '#\\nul', '#\\page', '#\\return', '#\\space', '#\\tab', '#\\vtab', '#\\n?', '#\\ne?', '#\\s?', '#\\spac?', '#\\space?', '#\\tab? ', '#\\nu? ', '#\\newlin?', '#\\retur?', '#\\pag? ', '#\\vta? ', '#\\es? ', '#\\alar? ', '#\\backspac? ', '#\\delet? ', '#\\linefee? ', '(#\\space?)', '#\\x? ', '(a;?\nb)', '(a #|?|# b)', '(a . b ?', '(a #;? b)', '#(a #;? b)', '(a . b #;? )', '(a ;?\n . b)', '9223372036854775?', '-922337203685477580?', '#x7fffffffffffff? ', 'x?y|z', "a'?", "(quote ?)", '(1 ?2)', '(-?)', '(+ ?)', '#&"?"', "''?", '(()?)', '[]?', '#()?', '{a . ?}', '+?a ', '-a? ', '1?a b']
def c26(res, tier):
    mod = ir.core(); f = mod.funcs.get('read_object')
    if f is None or f.decl: raise ToolError('read_object is not defined')
    h, I = reader(mod, maxreads=9000); h.globsym = globsyms(mod)
    total = shapes = 0
    res.rule('datum', 'reading a well-formed text gives the datum the text denotes and consumes the text of that datum only')
    def one(name, text, **k):
        nonlocal total, shapes
        bad, n = compare(h, I, f, text, **k); total += n; shapes += 1
        if not bad: res.ob(True, 'text %s' % name, '%s:%s' % (f.file, f.line), '')
        for t, w, g, l in bad[:1]: res.ob(False, 'text %s' % name, l or '%s:%s' % (f.file, f.line), 'the text %r denotes %s but is read as %s' % (shown(t) if len(t) < 60 else shown(t)[:30] + '...', w, g))
    for w in TEXTS:
        k = itertools.count(); one(repr(w), [S('in', next(k)) if c == '?' else ord(c) for c in w])
    for nm, fn in (('symbol', lambda n: lit('a' * n) + [S('in', 0)]), ('string', lambda n: lit('"' + 'a' * n) + [S('in', 0)] + lit('" b')), ('list', lambda n: lit('(') + lit('a ' * n) + [S('in', 0)] + lit(')')), ('vector', lambda n: lit('#(') + lit('a ' * n) + [S('in', 0)] + lit(')'))):
        for n in ((300, 4090) if nm in ('symbol', 'string') else (30,)): one('%s of %d' % (nm, n), fn(n))
    res.cov['texts with opaque characters'] = shapes; res.cov['texts compared with their datum'] = total
    written(res, tier, mod, h, I, f)
    res.need(total, 5000, 'texts compared')
def globsyms(mod):
    """names of the global symbols, from the calls that initialise them"""
    out = {}
    for g in mod.funcs.values():
        if g.decl: continue
        d = {i.res: i for i in g.instrs() if i.op == 'call' and i.res and ir.callee(i) in ('intern', 'intern_symbol')}
        for i in g.instrs():
            if i.op == 'store' and isinstance(i.ops[0], str) and i.ops[0] in d and str(i.ops[1]).startswith('@'):
                a = str(d[i.ops[0]].ops[-1]).lstrip('@'); s = mod.strings.get(a) or mod.strings.get('@' + a)
                if s is not None: out[str(i.ops[1]).lstrip('@')] = bytes(s).rstrip(b'\0')
    return out
# ---- writers
def data():
    """data whose written form must read back: (name, datum); characters and strings are dealt with apart"""
    a, b, c = ('sym', b'a'), ('num', 12), ('num', -7); l = lambda xs, t='nil': t if not xs else ('cons', xs[0], l(xs[1:], t))
    return [a, b, c, ('num', 0), 'nil', 'true', 'false', l([a]), l([a, b]), l([a, b, c]), l([a], b), l([a, b], c), l([l([a])]), l([l([a]), b]), l([a, l([b])]), ('vec', ()), ('vec', (a,)), ('vec', (a, b)), ('vec', (a, b, c)), ('vec', (('vec', ()), l([a], b))), ('vec', (l([]), 'true')),
            ('box', a), ('box', l([a, b])), ('box', ('box', b)), ('box', ('vec', (a,))), l([('box', a), ('vec', (b,))]), l(['true', 'false', 'nil']), l(['nil'], 'true'), ('num', 1 << 40), ('num', -(1 << 62)), ('sym', b'a-long/symbol?'), ('sym', b'+'), ('sym', b'...'), l([l([a], b)], l([c])), l([('chr', 97)]), l([('chr', 32), ('chr', 10)], ('chr', 0)), ('vec', (('chr', 40), a)), ('box', ('chr', 41)), l([('str', b'a'), b], ('str', b'')), ('vec', (('str', b'x y'), a))]
def build(I, d):
    if isinstance(d, str): return I.sp({'nil': 'minim_null', 'true': 'minim_true', 'false': 'minim_false'}[d])
    if d[0] in ('sym', 'str'): return str_(I, list(d[1]), SYMBOL if d[0] == 'sym' else STRING)
    if d[0] == 'num': return fix(I, d[1])
    if d[0] == 'chr': return chr_(I, d[1])
    if d[0] == 'cons': o = I.new('in', 'pair', PAIR); o.f[8] = build(I, d[1]); o.f[16] = build(I, d[2]); return o
    if d[0] == 'vec': return vec(I, [build(I, x) for x in d[1]]) if d[1] else I.sp('minim_empty_vec')
    return box(I, build(I, d[1]))
def writer(mod, h, I):
    def put(v): I.out.append(v)
    def cs(a, what, ins):
        c = cells(I, a, what, ins, h)
        if c is None: raise ToolError('%s writes text that cannot be followed' % what)
        return c
    def fputs(I, a, ins):
        for c in cs(a[0], 'fputs', ins): put(c)
        return 1
    def fputc(I, a, ins): put(I.res(a[0])); return 1
    def fmt(t, a, ins):
        k = 0; i = 0; t = bytes(t)
        while i < len(t):
            if t[i] != 37: put(t[i]); i += 1; continue
            j = i + 1
            while j < len(t) and chr(t[j]) in '-+ #0123456789.lhzjt': j += 1
            d = chr(t[j]) if j < len(t) else ''
            if d == '%': put(37)
            elif d == 's':
                for c in cs(a[k], 'fprintf', ins): put(c)
                k += 1
            elif d == 'c': put(I.res(a[k])); k += 1
            elif d in 'di' and d:
                v = I.res(a[k]); k += 1
                if not isinstance(v, int): raise ToolError('a number written cannot be followed')
                w = 64 if b'l' in t[i:j] or b'z' in t[i:j] or b'j' in t[i:j] else 32
                v = (v + (1 << w - 1)) % (1 << w) - (1 << w - 1)
                for c in str(v).encode(): put(c)
            else: raise ToolError('format %r' % t)
            i = j + 1
        return 1
    def fprintf(I, a, ins): return fmt(cs(a[1], 'fprintf', ins), a[2:], ins)
    def fwrite(I, a, ins):
        n = I.res(a[1]) * I.res(a[2]); c = cs(a[0], 'fwrite', ins)
        for x in (c + [0])[:n]: put(x)
        return n
    I.hooks.update({'fputs': fputs, 'fputc': fputc, 'putc': fputc, 'fputc_unlocked': fputc, 'fprintf': fprintf, 'fwrite': fwrite})
def fits(want, bs):
    d, used = denotes(bs)
    return d is not None and d == want and used == len(bs)
def written(res, tier, mod, h, I, f):
    res.rule('C writer', 'what the C writer emits for a character or a structure denotes that value')
    g = mod.funcs.get('write_object')
    if g is None or g.decl: raise ToolError('write_object is not defined')
    writer(mod, h, I); x = S('in', 'char'); n = 0; bad = {}
    def setup(I):
        I.out = []; start(I, []); o = chr_(I, x); return I.exec(g, [I.new('in', 'FILE'), o])
    seen = set()
    for p in I.run(setup):
        for c in sorted(I.bits.set(x)):
            seen.add(c)
            if p.end == 'return':
                n += 1; bs = [Val(I, {x: c}).n(v) & 255 for v in I.out]
                if not fits(('chr', c), bs): bad[c] = bytes(bs)
    for c in range(256): res.ob(c in seen and c not in bad, 'character %d' % c, '%s:%s' % (g.file, g.line), 'the character %d is written as %r, which denotes %s' % (c, bad.get(c, b'').decode('latin-1'), show(denotes(list(bad.get(c, b'')))[0])))
    for d in data():
        outs = []
        def setup(I, d=d):
            I.out = []; start(I, []); return I.exec(g, [I.new('in', 'FILE'), build(I, d)])
        for p in I.run(setup): outs.append([Val(I, {}).n(v) & 255 for v in I.out] if p.end == 'return' else None)
        n += 1; ok = bool(outs) and all(o is not None and fits(d, o) for o in outs)
        res.ob(ok, 'C writer %s' % show(d), '%s:%s' % (g.file, g.line), 'the value %s is written as %r' % (show(d), bytes(outs[0] or []).decode('latin-1') if outs else ''))
    res.cov['values written by the C writer'] = n
    prelude_writer(res)
def prelude_writer(res):
    import r_terms, termeval as T
    res.rule('writer', 'what write emits for a character, string or structure denotes that value, for every character and every string of up to two characters')
    t = r_terms.evaluator()[0]; t.maxsteps = 200000; v = t.byname('write')
    if v is None: raise ToolError('write is not defined')
    at = r_terms.where(t, v); CH = lambda c: ('k', ('Chr', c))
    def val(d):
        if isinstance(d, str): return {'nil': T.NIL, 'true': T.T, 'false': T.F}[d]
        if d[0] == 'sym': return ('k', T.Sym(d[1].decode()))
        if d[0] == 'num': return T.num(d[1])
        if d[0] == 'chr': return CH(chr(d[1]))
        if d[0] == 'str': return T.Obj('string', [CH(chr(c)) for c in d[1]])
        if d[0] == 'cons': return T.Obj('pair', [val(d[1]), val(d[2])])
        if d[0] == 'vec': return T.Obj('vector', [val(x) for x in d[1]])
        return T.Obj('box', [val(d[1])])
    def chars(x):
        if isinstance(x, T.Obj) and x.kind == 'string': return list(x.f)
        if isinstance(x, tuple) and x[0] == 'k' and isinstance(x[1], tuple) and x[1][0] == 'Str': return [CH(c) for c in x[1][1]]
        return None
    def hook(n, a):
        x = a[0] if a else None
        if n in ('output-port?',): return T.T
        if n in ('input-port?', '$input-port?') and x == ('k', 'port'): return T.F
        if n == 'current-output-port': return ('k', 'port')
        if n == '$put-char': t.out.append(a[1]); return T.VOID
        if n == '$put-string':
            c = chars(a[1])
            if c is None: raise ToolError('write: text that cannot be followed')
            b, k = a[2][1], a[3][1]; t.out.extend(c[b:b + k]); return T.VOID
        if n in ('$string-length', 'string-length'):
            c = chars(x)
            if c is not None: return T.num(len(c))
        if n in ('$string-ref', 'string-ref') and chars(x) is not None and isinstance(a[1][1], int): return chars(x)[a[1][1]]
        if n in ('symbol->string', '$symbol->string') and isinstance(x, tuple) and x[0] == 'k' and isinstance(x[1], T.Sym): return T.Obj('string', [CH(c) for c in x[1]])
        if n in ('number->string', '$number->string') and isinstance(x, tuple) and x[0] == 'k' and isinstance(x[1], int): return T.Obj('string', [CH(c) for c in str(x[1])])
        if n in ('$vector-length', 'vector-length') and isinstance(x, T.Obj) and x.kind == 'vector': return T.num(len(x.f))
        if n in ('$vector-ref', 'vector-ref') and isinstance(x, T.Obj) and x.kind == 'vector': return x.f[a[1][1]]
        if n in ('$unbox', 'unbox') and isinstance(x, T.Obj) and x.kind == 'box': return x.f[0]
        if n in ('number?', 'integer?') and t.kind(x) is not None: return t.bool(t.kind(x) == 'fixnum')
        if n == 'char?' and isinstance(x, tuple) and x[0] == 'char': return T.T
        if n in t.TYPES and isinstance(x, tuple) and x[0] == 'char': return T.F
        return None
    t.on_prim = hook; n = 0
    def run(x):
        def th(tt): t.out = []; return tt.apply(tt.glob(v), [x, ('k', 'port')])
        for end, r, facts in t.paths(th): yield end, r, facts, list(t.out)
    def code(c): return ord(c) if isinstance(c, str) else c
    def sets(facts, x):
        yes = [code(k[2][1][1] if k[1] == x else k[1][1][1]) for k, b in facts.items() if k[0] == 'eq' and x in k[1:] and b]
        no = {code(k[2][1][1] if k[1] == x else k[1][1][1]) for k, b in facts.items() if k[0] == 'eq' and x in k[1:] and not b}
        return [c for c in range(256) if c not in no and all(c == y for y in yes)]
    def emitted(out, e):
        bs = []
        for o in out:
            if o in e: bs.append(e[o])
            elif isinstance(o, tuple) and o[0] == 'k' and isinstance(o[1], tuple) and o[1][0] == 'Chr': bs.append(code(o[1][1]))
            else: raise ToolError('write: a character that cannot be followed (%r)' % (o,))
        return bs
    A, B = ('char', 'A'), ('char', 'B')
    for nm, x, mk in (('character', A, lambda e: ('chr', e[A])), ('string of one character', T.Obj('string', [A]), lambda e: ('str', bytes([e[A]]))), ('string of two characters', T.Obj('string', [A, B]), lambda e: ('str', bytes([e[A], e[B]])))):
        bad = {}; seen = set()
        for end, r, facts, out in run(x):
            sa = sets(facts, A); sb = sets(facts, B) if nm.endswith('two characters') else [None]
            if sb != [None]: sa = [c for c in sa if c in SAMPLE]; sb = [c for c in sb if c in SAMPLE]
            for a in sa:
                for b in sb:
                    if a == 0 and nm != 'character' or b == 0: continue
                    e = {A: a, B: b}; n += 1; seen.add(a); bs = emitted(out, e) if end == 'return' else []
                    if end != 'return' or not fits(mk(e), bs): bad.setdefault(a, bytes(bs))
        for c in sorted(seen): res.ob(c not in bad, 'write %s %d' % (nm, c), at, 'a %s with character %d is written as %r, which denotes %s' % (nm, c, bad.get(c, b'').decode('latin-1'), show(denotes(list(bad.get(c, b'')))[0])))
        if not seen: raise ToolError('write: no path')
    for d in data():
        outs = [(end, emitted(out, {})) for end, r, facts, out in run(val(d))]; n += 1
        ok = bool(outs) and all(e == 'return' and fits(d, o) for e, o in outs)
        res.ob(ok, 'write %s' % show(d), at, 'the value %s is written as %r' % (show(d), bytes(outs[0][1]).decode('latin-1') if outs else ''))
    res.cov['values written by write'] = n; res.need(n, 1000, 'written values compared')
reg('C26', 'path-partitioned abstract interpretation of the reader over sets of characters, each path compared with the datum its texts denote, composed with the text the writers emit',
    'The reader is interpreted on about 150 shapes of text whose characters are opaque; on every path the datum built is compared, for every character the path admits, with the datum the text denotes, and so is the amount of text consumed. The texts the C writer and the prelude\'s write emit for every character, for strings of up to two characters and for structures must denote the value written. The token loops are covered for tokens of 300 and 4090 characters.')(c26)

"""C17: reading text never overruns a buffer and always notices the end of the input."""
import string, re
from rules import reg
from report import ToolError
import ir, ival, cfg
from shape import *
from heap import *
from bits import Bits

# glibc's character classes (little endian): the bit a class test looks at
CT = {'upper': 0, 'lower': 1, 'alpha': 2, 'digit': 3, 'xdigit': 4, 'space': 5, 'print': 6, 'graph': 7, 'blank': 8, 'cntrl': 9, 'punct': 10, 'alnum': 11}
def ctype(c):
    if not 0 <= c < 128: return 0
    h = chr(c); v = 0
    def on(n, b):
        nonlocal v
        if b: v |= 1 << (CT[n] + 8 if CT[n] < 8 else CT[n] - 8)
    on('upper', h in string.ascii_uppercase); on('lower', h in string.ascii_lowercase); on('alpha', h in string.ascii_letters); on('digit', h in string.digits); on('xdigit', h in string.hexdigits)
    on('space', h in ' \t\n\r\v\f'); on('print', 32 <= c < 127); on('graph', 32 < c < 127); on('blank', h in ' \t'); on('cntrl', c < 32 or c == 127); on('punct', h in string.punctuation); on('alnum', h in string.ascii_letters + string.digits)
    return v
ALL = frozenset(range(256))
class Chars:
    """input characters as sets: a test splits the set, so a path stands for every text of that shape"""
    def __init__(s, I): s.I = I; I.bits = s; s.width = {}
    def of_set(s, x):
        """(symbol, function on bytes) when x is computed from one input character"""
        if isinstance(x, S):
            if x.k[0] == 'in': return x, lambda c: c
            if x.k[0] == 'fn': return x.k[1], x.k[2].f
        return None
    def set(s, sym): return s.I.facts.get(('set', sym), ALL)
    def mk(s, sym, f, ty='i32'):
        vals = {f(c) for c in s.set(sym)}
        if len(vals) == 1: return vals.pop()
        return S('fn', sym, Fun(f))
    def split(s, sym, pred):
        cur = s.set(sym); y = frozenset(c for c in cur if pred(c)); n = cur - y
        if not n: return True
        if not y: return False
        if s.I.choose(2, ('set', sym)) == 0: s.I.facts[('set', sym)] = y; return True
        s.I.facts[('set', sym)] = n; return False
    def wrap(s, v, ty):
        w = BITS.get(ty, 64); m = 1 << w; return (v + m // 2) % m - m // 2
    def arith(s, op, a, b, ty):
        for x, y, sw in ((a, b, False), (b, a, True)):
            q = s.of_set(x)
            if q is not None and isinstance(y, int):
                I = s.I; sym, f = q
                def g(c, f=f, y=y, sw=sw):
                    p, r = (y, f(c)) if sw else (f(c), y); w = BITS.get(ty, 64); m = 1 << w
                    return s.wrap({'add': lambda: p + r, 'sub': lambda: p - r, 'mul': lambda: p * r, 'and': lambda: p & r, 'or': lambda: p | r, 'xor': lambda: p ^ r, 'shl': lambda: p << (r & 63), 'lshr': lambda: (p % m) >> (r & 63), 'ashr': lambda: p >> (r & 63)}[op](), ty)
                if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'): return s.mk(sym, g)
        return None
    def cast(s, op, v, fr, to):
        q = s.of_set(v)
        if q is None:
            if BITS.get(fr) == 1 and isinstance(v, S): t = s.I.truth(v); return (1 if op != 'sext' else -1) if t else 0
            return v
        sym, f = q
        def g(c, f=f):
            x = f(c); w = BITS.get(fr, 64)
            if op == 'zext': x %= 1 << w
            elif op == 'sext': x = s.wrap(x, fr)
            return s.wrap(x, to)
        return s.mk(sym, g)
    def cmp(s, pred, a, b, ty):
        w = BITS.get(ty, 64); m = 1 << w
        P = {'eq': lambda p, q: p == q, 'ne': lambda p, q: p != q, 'slt': lambda p, q: p < q, 'sle': lambda p, q: p <= q, 'sgt': lambda p, q: p > q, 'sge': lambda p, q: p >= q,
             'ult': lambda p, q: p % m < q % m, 'ule': lambda p, q: p % m <= q % m, 'ugt': lambda p, q: p % m > q % m, 'uge': lambda p, q: p % m >= q % m}[pred]
        qa, qb = s.of_set(a), s.of_set(b)
        if qa and isinstance(b, int): return s.split(qa[0], lambda c: P(qa[1](c), b))
        if qb and isinstance(a, int): return s.split(qb[0], lambda c: P(a, qb[1](c)))
        if qa and qb and qa[0] == qb[0]: return s.split(qa[0], lambda c: P(qa[1](c), qb[1](c)))
        return None
    def of(s, x, w): return None
class Fun:
    """a function on bytes, compared by its graph"""
    def __init__(s, f): s.f = f; s.t = tuple(f(c) for c in range(256))
    def __eq__(s, o): return isinstance(o, Fun) and s.t == o.t
    def __hash__(s): return hash(s.t)
    def __repr__(s): return '<fn>'

def reader(mod, fn='read_object', maxreads=400):
    """an Interp whose input is I.text: a list of characters (constants or opaque), then the end of the input"""
    def quit_(I, a, ins): raise Done('noreturn', ('error', a), ins)
    def getc(I, a, ins):
        I.reads += 1
        if I.reads > maxreads: raise Done('endless', (), ins)
        if I.back: v = I.back.pop(); I.took += 1; return v
        if I.at >= len(I.text): I.eofs += 1; I.took += 1; return -1
        v = I.text[I.at]; I.at += 1; I.took += 1
        return v if isinstance(v, int) else I.bits.mk(v, lambda c: c)
    def ungetc(I, a, ins):
        v = I.res(a[0])
        if v == -1: return -1
        q = I.bits.of_set(v)
        if isinstance(v, int): v &= 255
        elif q: v = I.bits.cast('zext', I.bits.cast('trunc', v, 'i32', 'i8'), 'i8', 'i32')
        I.back.append(v); I.took -= 1; return v
    def cls(n):
        def h(I, a, ins):
            v = I.res(a[0]); b = 1 << (CT[n] + 8 if CT[n] < 8 else CT[n] - 8)
            if isinstance(v, int): return 1 if ctype(v) & b else 0
            q = I.bits.of_set(v)
            if q is None: raise ToolError('character class of an unknown value')
            return 1 if I.bits.split(q[0], lambda c: bool(ctype(q[1](c)) & b)) else 0
        return h
    def cased(f):
        def h(I, a, ins):
            v = I.res(a[0]); g = lambda c: ord(f(chr(c))) if 0 <= c < 128 else c
            if isinstance(v, int): return g(v)
            q = I.bits.of_set(v); return I.bits.mk(q[0], lambda c: g(q[1](c)))
        return h
    hk = {'getc': getc, 'fgetc': getc, 'getc_unlocked': getc, 'ungetc': ungetc, 'feof': lambda I, a, ins: 1 if I.eofs else 0, 'ferror': lambda I, a, ins: 0, 'minim_error': quit_, 'minim_error1': quit_, 'minim_error2': quit_, 'exit': quit_, 'longjmp': quit_,
          'toupper': cased(str.upper), 'tolower': cased(str.lower)}
    for n in CT: hk['is' + n] = cls(n)
    def table(I, a, ins):
        o = I.new('in', 'ctype**'); o.f[0] = I.special.setdefault('&ctype', I.new('glob', 'ctype')); return o
    hk['__ctype_b_loc'] = table
    def sym(I, a, ins):
        c = cells(I, a[-1], 'intern', ins, I.heaprun); o = I.new('new', 'symbol', SYMBOL); o.info['text'] = tuple(c) if c is not None else None; return o
    def mstr(I, a, ins):
        c = cells(I, a[-1], 'Mstring', ins, I.heaprun); o = I.new('new', 'string', STRING); o.info['text'] = tuple(c) if c is not None else None; return o
    hk['intern'] = hk['intern_symbol'] = sym; hk['Mstring'] = mstr
    h = HeapRun(mod, fn, maxvisits=2 * maxreads, hooks=hk, maxpaths=200000); I = h.I; I.reclimit = 40; I.maxdepth = 120
    for b in ('list_reverse', 'list_to_vector'): I.hooks.pop(b, None)
    Chars(I)
    base = I.gty_load
    def missing(I, o, k, ty, ins):
        if o.name == 'ctype':
            off, idx = (k, ()) if isinstance(k, int) else (k[1], k[2])
            if isinstance(k, int): return ctype(off // 2)
            (v, sz), = idx
            q = I.bits.of_set(v)
            if q is None: raise ToolError('character class of an unknown value')
            return I.bits.mk(q[0], lambda c: ctype(q[1](c) + off // 2))
        return base(I, o, k, ty, ins) if base else None
    I.gty_load = missing; I.h = h
    return h, I
def start(I, text): I.text = text; I.at = 0; I.back = []; I.reads = I.eofs = I.took = 0

# ---- C17
# (text, closers): an opaque character after the text may only complete a datum if it is one of the closers
OPEN = [('(', ')'), ('[', ']'), ('{', '}'), ('"', '"'), ('#(', ')'), ('"a', '"'), ('"\\', ''), ('#|', ''), ('#||', ''), ('#|a|', ''), ("'(", ')'), ('(1', ')'), ('(a ', ')'), ('(1 . ', ''), ('(1 . 2', ')'), ('(1 . 2 ', ')'), ('(#;', ''), ('(#|', ''), ('(;', ''), ('("', ''), ('#(1 ', ')'), ('#&(', ')'),
        ("#'(", ')'), ('#;1 (', ')'), ('((', ''), ('[(', ''), ('(a . (b ', ''), ('(#\\', ''), ('#(#(', ''), ('("a" ', ')'), ('#;(', ''), ('#;"', ''), ('#|#|', ''), ('#|#||#', '')]
# texts that hold no complete datum and are not just blanks
CUT = ['(', '[', '{', '#(', '"', '"a', '"\\', '#|', '#|a', '#||', '#|#|a|#', "'", "#'", '#&', '#;', '#\\', '(1', '(1 ', '(1 .', '(1 . ', '(1 . 2', '(1 . 2 ', '(a (b)', '((', '#(1', '#(1 (2)', '#&(', "'(", '(;a', '(#|a', '(#;', '(#;1', '("', '( "a\\', '(#\\a', "'#;1", '(a . #;b', "(quote '", '#\\new', '#\\spac', '#\\nu', '#\\dele', '#;(a', '#;#|a|#', '(#;#|a|#', '#;', '#;;a']
BLANK = ['', ' ', '\n', ' \t\n', ';', '; a', ';a\n', '; a\n ;b', '#|a|#', '#||#', ' #| #| |# |# ', '#|a|# ;b', '\n\n;a\n\n']
# the beginnings of tokens of every kind: one or two opaque characters follow
STEMS = ['#', '#\\', '#\\n', '#\\ne', '#\\newlin', '#\\newline', '#\\a', '#\\al', '#\\b', '#\\ba', '#\\d', '#\\de', '#\\e', '#\\es', '#\\l', '#\\li', '#\\n', '#\\nu', '#\\p', '#\\pa', '#\\r', '#\\re', '#\\s', '#\\sp', '#\\t', '#\\ta', '#\\v', '#\\vt', '#x', '#x1', '#xf', '#x-', '#x-f', '#xA', '#%', '#%a', '#&', "'", "#'", '#;', '#;a ',
         '+', '-', '1', '12', '-1', '+1', '1a', 'a', 'ab', '.', '..', 'a.', '|', '"ab\\n', '"\\\\', '; a', ' ', '(a .', '(a . b', '(a b', '#(a b', '#(a) ', '#|a', '#|a#', '#|a|', '#| |', '#| #', '(a "b" #\\c', '#&1', '#t', '#f', '(#t', "('", '(1 2 3 4', '[a (b) {c', '-', '+a', '1 ', '1)', 'a;', 'a"']
def lit(s): return [ord(c) for c in s]
def shown(t): return ''.join(chr(c) if isinstance(c, int) else '\u25a1' for c in t)

def c17(res, tier):
    mod = ir.core()
    res.rule('arrays', 'every access of a stack array in the runtime is inside the array, for every value its index can have there')
    arrs = 0; acc = 0
    for f in mod.funcs.values():
        if f.decl: continue
        al = [i for i in f.instrs() if i.op == 'alloca' and i.ty and re.match(r'\[\d+ x (i\d+|ptr)\]', i.ty)]
        if not al: continue
        thr = ival.constants(f) | {0}
        for i in al:
            n = int(re.match(r'\[(\d+)', i.ty).group(1)); thr |= {n - 1, n, n + 1}

        I = ival.Ival(mod, thr); I.run(f); arrs += len(al); acc += I.accesses
        for i in al: res.ob(not I.bad, '%s %s' % (f.name, i.ty), '%s:%s' % (f.file, f.line), '; '.join('%s: %s' % (l, m) for l, m in list(I.bad.values())[:3]) if I.bad else '')
    res.cov['stack arrays'] = arrs; res.cov['array accesses bounded'] = acc
    f = mod.funcs.get('read_object')
    if f is None or f.decl: raise ToolError('read_object is not defined')
    h, I = reader(mod); paths = 0; most = 0; texts = 0; sites = set(); special = {}
    def read(text):
        nonlocal paths, most, texts
        texts += 1; out = []; c0 = I.cut; last = None
        def setup(I):
            start(I, text); return I.exec(f, [I.new('in', 'FILE')])
        for p in I.run(setup):
            paths += 1; most = max(most, I.reads); sites.add(p.ins.loc if p.ins else None)
            for t in text:
                if isinstance(t, S) and I.bits.set(t) == frozenset({255}): special.setdefault(p.ins.loc if p.ins else '', text)
            out.append((p, [I.bits.set(t) if isinstance(t, S) else None for t in text], I.at))
        if I.cut > c0: out.append((None, [], 0))
        return out
    def stops(text, rs):
        bad = [p for p, _, _ in rs if p is None or p.end not in ('return', 'noreturn')]
        loc = next((p.ins.loc for p in bad if p is not None and p.ins), '%s:%s' % (f.file, f.line))
        res.ob(not bad and bool(rs), 'text %r' % shown(text), loc, 'reading the text %r followed by the end of the input does not stop: the reader keeps reading after the end' % shown(text), 'stops')
    res.rule('stops', 'reading any text of the shape, followed by the end of the input, ends with a result or an error')
    res.rule('incomplete', 'a text that ends before its datum is complete is an error, never a value')
    res.rule('blank', 'a text of blanks and comments gives the end of the input and no error')
    any_ = [S('in', k) for k in range(4)]
    for n in range(0, 4 if tier == 'thorough' else 3):
        t = any_[:n]; stops(t, read(t))
    for w in STEMS:
        for n in ((0, 1, 2) if tier == 'thorough' else (0, 1)):
            t = lit(w) + any_[:n]; stops(t, read(t))

    for w in CUT:
        t = lit(w); rs = read(t); stops(t, rs)
        bad = [p for p, _, _ in rs if p is not None and p.end == 'return']
        res.ob(not bad, 'text %r' % w, bad[0].ins.loc if bad and bad[0].ins else '%s:%s' % (f.file, f.line), 'the text %r ends before its datum is complete, yet it is read as a value' % w, 'incomplete')
    for w, cl in OPEN:
        t = lit(w) + any_[:1]; rs = read(t); stops(t, rs)
        bad = [(p, ss) for p, ss, _ in rs if p is not None and p.end == 'return' and not (ss[-1] <= frozenset(map(ord, cl))) and not (p.result == 0 and w.startswith(('#|', '#;')))]
        res.ob(not bad, 'text %r and one character' % w, bad[0][0].ins.loc if bad and bad[0][0].ins else '%s:%s' % (f.file, f.line), 'the text %r followed by one of %s and the end of the input is read as a value although its datum is not complete' % (w, ''.join(repr(chr(c)) for c in sorted(bad[0][1][-1])[:8]) if bad else ''), 'incomplete')
    for w in BLANK:
        t = lit(w); rs = read(t); stops(t, rs)
        bad = [p for p, _, _ in rs if p is None or p.end != 'return' or p.result != 0]
        res.ob(not bad, 'text %r' % w, bad[0].ins.loc if bad and bad[0] is not None and bad[0].ins else '%s:%s' % (f.file, f.line), 'the text %r holds no datum but reading it does not report the end of the input' % w, 'blank')
    res.rule('byte 255', 'no byte of the text is taken for the end of the input')
    res.ob(not special, 'read_object', next(iter(special), '') or '%s:%s' % (f.file, f.line), 'the byte 255 in a text such as %r is told apart from every other byte: it is taken for the end of the input' % (shown(next(iter(special.values()))) if special else ''))
    res.rule('undefined', 'the reader uses only characters it has stored')
    res.ob(not h.bad, 'read_object', next(iter(h.bad.values()))[0] if h.bad else '%s:%s' % (f.file, f.line), '; '.join('%s: %s' % (k, v) for k, v in list(h.bad.items())[:2]))
    res.cov['shapes of text'] = texts; res.cov['paths'] = paths; res.cov['most reads on a path'] = most
    res.need(arrs, 1, 'stack arrays found'); res.need(paths, 300, 'reader paths')
reg('C17', 'interval analysis of every stack array (value-numbered, context-sensitive) and path-partitioned abstract interpretation of the reader over sets of characters, each text shape ending in the end of the input',
    'Array indices are bounded by an interval fixpoint over all loop iterations, so the result covers tokens of any length. Termination at the end of the input is decided on texts whose characters are sets that each test of the reader splits: all texts of up to two (thorough: three) arbitrary characters, and the beginning of every kind of token followed by arbitrary characters, must end in a value or an error, an incomplete datum always in an error.')(c17)

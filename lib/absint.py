"""Abstract interpretation of the core AST (mnm.py): type sets, linear facts, list-element facts.

No program is run and no solver is called: every value is an abstract term, conditions split the
abstract state, recursive procedures are generalised to a fixpoint.  The interpreter logs
  * every call of a `$` primitive with the facts that hold there (obligations),
  * every call with the wrong number of arguments,
  * every raised contract error with its arguments,
and leaves the judging of those logs to the rules."""
import sys
from mnm import *
sys.setrecursionlimit(20000)

ATOMS = frozenset('null lpair opair fix char string symbol vector box proc ips ipf ops opf rtd rec rawht env stx true false void eof other'.split())
def fs(*a): return frozenset(a)
PAIR = fs('lpair', 'opair'); LIST = fs('null', 'lpair'); BOOL = fs('true', 'false'); PORT = fs('ips', 'ipf', 'ops', 'opf')
INP = fs('ips', 'ipf'); OUTP = fs('ops', 'opf')
PREDS = {'pair?': PAIR, 'null?': fs('null'), 'list?': LIST, 'fixnum?': fs('fix'), 'char?': fs('char'), 'string?': fs('string'),
         'symbol?': fs('symbol'), 'vector?': fs('vector'), 'box?': fs('box'), 'procedure?': fs('proc'), 'input-port?': INP,
         'output-port?': OUTP, 'string-port?': fs('ips', 'ops'), 'boolean?': BOOL, 'void?': fs('void'), 'eof-object?': fs('eof'),
         'syntax?': fs('stx'), 'environment?': fs('env'), 'record-type-descriptor?': fs('rtd'), '$record-value?': fs('rec'),
         '$hashtable?': fs('rawht'), 'not': fs('false')}
NORETURN = {'error', 'errorf', 'raise', 'raise-argument-error', 'raise-arity-error', 'raise-range-error', 'raise-missing-error',
            'raise-syntax-error', '$exit', '$boot-error'}
A = ATOMS
VOID = fs('void'); FIX = fs('fix')
# result types of primitives (anything not listed: unknown)
RESULT = {'$length': FIX, '$reverse': LIST, '$make-list': LIST, '$vector-length': FIX, '$list->vector': fs('vector'),
          '$vector->list': LIST, '$make-vector': fs('vector'), '$fxneg': FIX, '$fx2+': FIX, '$fx2-': FIX, '$fx2*': FIX, '$fx2/': FIX,
          '$fxremainder': FIX, '$fxmodulo': FIX, '$make-string': fs('string'), '$string-length': FIX, '$string-ref': fs('char'),
          '$number->string': fs('string'), '$string->number': FIX, '$symbol->string': fs('string'), '$string->symbol': fs('symbol'),
          '$list->string': fs('string'), '$string->list': LIST, '$make-record-type-descriptor': fs('rtd'), '$record-type-parent': fs('rtd', 'false'),
          '$record-type-sealed?': BOOL, '$record-type-opaque?': BOOL, '$record-type-length': FIX, '$record-type-field-names': fs('vector'),
          '$record-type-field-mutable?': BOOL, '$make-record': fs('rec'), '$record-rtd': fs('rtd'), 'box': fs('box'), '$make-hashtable': fs('rawht'),
          '$hashtable-copy': fs('rawht'), '$hashtable-cells': LIST, '$hashtable-size': FIX, '$hashtable-length': FIX, '$hashtable-ref': LIST,
          'eq?': BOOL, '$equal?': BOOL, 'eq-hash': FIX, '$equal-hash': FIX, 'datum->syntax': fs('stx'), '$syntax->list': LIST | fs('false'),
          'make-empty-environment': fs('env'), 'make-base-environment': fs('env'), '$copy-environment': fs('env'), '$environment-symbols': LIST,
          '$current-environment': fs('env'), '$procedure-rename': fs('proc'), 'current-input-port': INP, 'current-output-port': OUTP,
          'current-error-port': OUTP, '$open-input-file': fs('ipf'), '$open-output-file': fs('opf'), '$open-input-string': fs('ips'),
          'open-output-string': fs('ops'), '$get-output-string': fs('string'), '$read-char': fs('char', 'eof'), '$peek-char': fs('char', 'eof'),
          '$char-ready?': BOOL, 'version': fs('string'), 'command-line': LIST, '$current-directory': fs('string'),
          '$default-record-equal-procedure': fs('proc', 'false', 'void'), '$default-record-hash-procedure': fs('proc', 'false', 'void'),
          '$record-type-name': fs('symbol'), '$procedure-name': fs('symbol', 'false'), '$char->integer': FIX, '$integer->char': fs('char'), '$append2': LIST, 'cons': PAIR}
for p in '$set-car! $set-cdr! $vector-set! $vector-fill! $string-set! $record-set! $set-box! $hashtable-size-set! $hashtable-set! $hashtable-clear! $environment-set! $current-environment-set! $close-input-port $close-output-port $put-char $put-string $flush-output-port $newline $fasl-write $current-directory-set! $c-error-handler $current-error-handler-set! void $default-record-equal-procedure-set! $default-record-hash-procedure-set!'.split():
    RESULT[p] = VOID
# element types of lists produced by primitives
ELEM = {'$hashtable-cells': PAIR, '$hashtable-ref': PAIR, '$environment-symbols': fs('symbol'), '$string->list': fs('char'), 'command-line': fs('string')}
CMPS = {'$fx2=': '=', '$fx2>': '>', '$fx2<': '<', '$fx2>=': '>=', '$fx2<=': '<='}
# primitives whose value depends only on the (immutable part of the) argument
FUNCTIONAL = {'$car', '$cdr', '$vector-length', '$string-length', '$length', '$fx2+', '$fx2-', '$fx2*', '$fx2/', '$fxremainder', '$fxmodulo', '$fxneg', '$record-type-parent', '$record-type-length',
              '$record-type-name', '$record-rtd', '$record-type-field-names', '$procedure-name', '$procedure-arity', '$string-ref', '$vector-ref',
              '$char->integer', '$symbol->string', '$syntax-e', '$syntax->datum', '$syntax->list', 'eq-hash', '$equal-hash', '$record-type-uid',
              '$record-type-sealed?', '$record-type-opaque?', '$unbox', '$record-ref'}
NONNEG = {'$vector-length', '$string-length', '$length', '$record-type-length', '$hashtable-size', '$hashtable-length'}

class Clo:
    __slots__ = ('lam', 'env', 'id', 'names', 'glob')
    def __init__(s, lam, env, id): s.lam = lam; s.env = env; s.id = id; s.names = []; s.glob = False

class Env:
    __slots__ = ('m', 'p')
    def __init__(s, m, p): s.m = m; s.p = p
    def get(s, v):
        e = s
        while e is not None:
            if v in e.m: return e.m[v]
            e = e.p
        return None

class State:
    __slots__ = ('types', 'lin', 'elem', 'isa', 'tests', 'ev', 'neq')
    def __init__(s): s.types = {}; s.lin = (); s.elem = {}; s.isa = frozenset(); s.tests = None; s.ev = None; s.neq = ()
    def copy(s):
        t = State.__new__(State)
        t.types = dict(s.types); t.lin = s.lin; t.elem = dict(s.elem); t.isa = s.isa; t.tests = s.tests; t.ev = s.ev; t.neq = s.neq
        return t
    def event(s, e):
        t = s.copy(); t.ev = (e, s.ev); return t
    def events(s):
        out = []; e = s.ev
        while e is not None: out.append(e[0]); e = e[1]
        out.reverse(); return out
    def testlist(s):
        out = []; e = s.tests
        while e is not None: out.append(e[0]); e = e[1]
        return out          # most recent first

class NeedLoop(Exception):
    def __init__(s, frame): s.frame = frame
class Budget(Exception): pass

def k(kind, val=None): return ('k', kind, val)
TRUE = k('true'); FALSE = k('false'); NULL = k('null'); VOIDV = k('void')

def show(t):
    """readable form of an abstract value"""
    if t is None: return '?'
    if t[0] == 'k':
        return {'true': '#t', 'false': '#f', 'null': "'()", 'void': '#<void>'}.get(t[1]) or (("'" + t[2]) if t[1] == 'symbol' else repr(t[2]))
    if t[0] == 'x': return t[2]
    if t[0] == 'ap': return '(%s %s)' % (t[1], ' '.join(map(show, t[2:])))
    if t[0] == 'cons': return '(cons %s %s)' % (show(t[1]), show(t[2]))
    if t[0] == 'prim': return t[1]
    if t[0] == 'clo': return '#<procedure>'
    if t[0] == 'rec': return '#<loop result>'
    return '#<%s>' % t[0]

class Frame:
    __slots__ = ('lam', 'key', 'args', 'loop', 'calls', 'params', 'clo', 'clause', 'rets')
    def __init__(s, lam, key, args, clo, clause): s.lam = lam; s.key = key; s.args = args; s.loop = False; s.calls = []; s.params = None; s.clo = clo; s.clause = clause; s.rets = set()

class Interp:
    def __init__(self, inline_limit=140, max_depth=40):
        self.globals = {}          # Var -> value
        self.byname = {}
        self.clos = []
        self.n = 0
        self.log = []              # obligations / raises / arity records
        self.frames = []
        self.inline_limit = inline_limit
        self.max_depth = max_depth
        self.sizes = {}
        self.summ = {}
        self.insum = set()
        self.owner = []            # stack of public names
        self.escaped = {}
        self.pending = []
        self.steps = 0
        self.undefined_ok = True
        self.field_inv = {('hashtable', 0): fs('rawht')}
        self.cells = {}
        self.loading = False
        self.skipped = []          # top-level forms whose value was not computed
        self.noinline = set('fprintf printf eprintf format write display print put-datum equal? equal-hash default-error-handler string-append'.split())

    # ---------------------------------------------------------- terms
    def fresh(self, hint, deps=()):
        self.n += 1; return ('x', self.n, hint, tuple(deps))
    def newclo(self, lam, env):
        c = Clo(lam, env, len(self.clos)); self.clos.append(c); return ('clo', c.id)
    def deps(self, t, out=None):
        if out is None: out = set()
        if t in out: return out
        out.add(t)
        if t[0] == 'x':
            for d in t[3]: self.deps(d, out)
        elif t[0] == 'ap':
            for d in t[2:]: self.deps(d, out)
        elif t[0] == 'cons': self.deps(t[1], out); self.deps(t[2], out)
        return out
    def mk(self, name, args):
        """value of a functional primitive"""
        if name in ('$car', '$cdr') and args[0][0] == 'cons': return args[0][1 if name == '$car' else 2]
        if name == '$vector-length' and args[0][0] == 'mkvec': return args[0][2]
        if name == '$vector-length' and args[0][0] == 'ap' and args[0][1] == '$record-type-field-names': return ('ap', '$record-type-length', args[0][2])
        if name == '$string-length' and args[0][0] == 'mkstr': return args[0][2]
        if name == '$string-length' and args[0][:2] == ('k', 'string'): return k('fix', len(args[0][2]))
        if name == '$length':
            n = self.chain(args[0])
            if n is not None: return k('fix', n)
        if name == '$length' and args[0][0] == 'iota': return args[0][2]
        if name in ('$fx2+', '$fx2-', '$fx2*') and all(a[:2] == ('k', 'fix') for a in args):
            x, y = args[0][2], args[1][2]
            return k('fix', x + y if name == '$fx2+' else x - y if name == '$fx2-' else x * y)
        return ('ap', name) + tuple(args)
    def chain(self, t):
        n = 0
        while t[0] == 'cons': n += 1; t = t[2]
        return n if t == NULL else None
    def types(self, st, t):
        f = t[0]
        if f == 'k': base = fs({'fix': 'fix', 'true': 'true', 'false': 'false', 'null': 'null', 'void': 'void', 'string': 'string', 'char': 'char', 'symbol': 'symbol', 'vector': 'vector', 'eof': 'eof'}.get(t[1], 'other'))
        elif f in ('clo', 'prim', 'acc', 'mut', 'ctor', 'rpred'): base = fs('proc')
        elif f == 'cons':
            tt = self.types(st, t[2])
            base = fs('lpair') if tt <= LIST else PAIR if tt & LIST else fs('opair')
        elif f == 'mkvec': base = fs('vector')
        elif f == 'mkstr': base = fs('string')
        elif f == 'rtdc': base = fs('rtd')
        elif f == 'inst': base = fs('rec')
        elif f == 'iota': base = LIST
        elif f in ('pred', 'cmp', 'isa', 'not', 'eq'): base = BOOL
        elif f == 'ap':
            base = RESULT.get(t[1], A)
            if t[1] == '$cdr':
                ct = self.types(st, t[2])
                if ct <= fs('lpair'): base = LIST
                elif ct <= fs('opair'): base = A - LIST
            elif t[1] == '$car':
                e = self.elem(st, t[2])
                if e is not None: base = e[0]
        elif f == 'x': base = A
        else: base = A
        s = st.types.get(t)
        return base & s if s is not None else base
    def elem(self, st, t):
        e = st.elem.get(t)
        if e is not None: return e
        if t[0] == 'ap' and t[1] == '$cdr': return self.elem(st, t[2])
        if t[0] == 'ap' and t[1] in ELEM: return (ELEM[t[1]], None)
        if t[0] == 'ap' and t[1] == '$reverse': return self.elem(st, t[2])
        if t[0] == 'iota': return (FIX, t[2])
        if t == NULL: return (frozenset(), None)
        if t[0] == 'cons':
            r = self.elem(st, t[2])
            if r is None: return None
            ts = self.types(st, t[1]) | r[0]
            return (ts, None)
        return None
    def refine(self, st, t, ts):
        """state with types(t) restricted to ts, or None"""
        cur = self.types(st, t)
        n = cur & ts
        if not n: return None
        if n == cur: return st
        s = st.copy(); s.types[t] = n
        if t[0] == 'ap' and t[1] == '$cdr' and n <= LIST: pass
        return s

    # ---------------------------------------------------------- linear facts
    def lin(self, t):
        """term -> (dict, const)"""
        if t[0] == 'k' and t[1] == 'fix': return {}, t[2]
        if t[0] == 'ap' and t[1] in ('$fx2+', '$fx2-') and len(t) == 4:
            d1, c1 = self.lin(t[2]); d2, c2 = self.lin(t[3]); sg = 1 if t[1] == '$fx2+' else -1
            d = dict(d1)
            for v, x in d2.items():
                d[v] = d.get(v, 0) + sg * x
                if d[v] == 0: del d[v]
            return d, c1 + sg * c2
        return {t: 1}, 0
    def sub(self, a, b, add=0):
        """lin(a) - lin(b) + add"""
        d1, c1 = self.lin(a); d2, c2 = self.lin(b)
        d = dict(d1)
        for v, x in d2.items():
            d[v] = d.get(v, 0) - x
            if d[v] == 0: del d[v]
        return d, c1 - c2 + add
    def addlin(self, st, L):
        d, c = L
        if not d: return st if c <= 0 else None
        f = (frozenset(d.items()), c)
        if f in st.lin: return st
        # contradiction?
        neg = ({v: -x for v, x in d.items()}, -c + 1)
        if self.prove(st, neg, 3): return None
        s = st.copy(); s.lin = st.lin + (f,)
        return s
    def prove(self, st, L, depth=4):
        """L = (dict,const): is L <= 0 implied?"""
        d, c = L
        if not d: return c <= 0
        if depth == 0: return False
        # implicit: non-negative lengths
        facts = []
        for v, x in d.items():
            if x < 0 and self.nonneg(st, v): facts.append(({v: -1}, 0))
            if x > 0 and v[0] == 'ap' and v[1] == '$car':
                e = self.elem(st, v[2])
                if e is not None and e[1] is not None:
                    dd, cc = self.sub(v, e[1], 1); facts.append((dd, cc))
        for f, fc in st.lin: facts.append((dict(f), fc))
        for fd, fc in facts:
            for v, x in d.items():
                y = fd.get(v)
                if y and (x > 0) == (y > 0) and x % y == 0:
                    q = x // y
                    nd = dict(d)
                    for w, z in fd.items():
                        nd[w] = nd.get(w, 0) - q * z
                        if nd[w] == 0: del nd[w]
                    if len(nd) <= 4 and self.prove(st, (nd, c - q * fc), depth - 1): return True
                    break
        return False
    def nonneg(self, st, v):
        if v[0] == 'ap' and v[1] in NONNEG: return True
        if v[0] == 'ap' and v[1] == '$car':
            e = self.elem(st, v[2])
            return e is not None and e[1] is not None
        return False
    def ge0(self, st, t):
        d, c = self.lin(t); return self.prove(st, ({v: -x for v, x in d.items()}, -c))
    def lt(self, st, a, b): return self.prove(st, self.sub(a, b, 1))
    def le(self, st, a, b): return self.prove(st, self.sub(a, b))

    # ---------------------------------------------------------- truth
    def note(self, st, pred, term, val):
        s = st.copy(); s.tests = ((pred, term, val), st.tests); return s
    def split(self, st, v):
        """-> (state if true or None, state if false or None)"""
        f = v[0]
        if f == 'pred':
            name, t = v[1], v[2]
            ts = PREDS[name]
            a = self.refine(st, t, ts); b = self.refine(st, t, A - ts)
            return (self.note(a, name, t, True) if a else None, self.note(b, name, t, False) if b else None)
        if f == 'isa':
            r, t = v[1], v[2]
            a = self.refine(st, t, fs('rec'))
            if a and ('not', r, t) in st.isa: a = None
            if a: a = self.note(a, ('isa', r), t, True); a.isa = a.isa | {(r, t)}
            b = st if (r, t) not in st.isa else None
            if b: b = self.note(b, ('isa', r), t, False); b.isa = b.isa | {('not', r, t)}
            return a, b
        if f == 'cmp':
            op, x, y = v[1:]
            if op == '>': op, x, y = '<', y, x
            elif op == '>=': op, x, y = '<=', y, x
            if op == '<': a = self.addlin(st, self.sub(x, y, 1)); b = self.addlin(st, self.sub(y, x))
            elif op == '<=': a = self.addlin(st, self.sub(x, y)); b = self.addlin(st, self.sub(y, x, 1))
            else:
                a = self.addlin(st, self.sub(x, y))
                if a: a = self.addlin(a, self.sub(y, x))
                b = st
                if self.le(st, x, y): b = self.addlin(st, self.sub(x, y, 1))
                elif self.le(st, y, x): b = self.addlin(st, self.sub(y, x, 1))
                if b:
                    b = b.copy(); b.neq = b.neq + ((x, y),)
                for (p, q) in st.neq:
                    if (p, q) == (x, y) or (q, p) == (x, y): a = None
            vv = ('cmp',) + v[1:]
            return (self.note(a, vv, v[2], True) if a else None, self.note(b, vv, v[2], False) if b else None)
        if f == 'eq':
            x, y = v[1], v[2]
            a = st; b = st
            tx, ty = self.types(st, x), self.types(st, y)
            if not (tx & ty): a = None
            elif x == y: b = None
            elif x[0] == 'k' and y[0] == 'k' and x[1] in ('symbol', 'char', 'true', 'false', 'null', 'fix'): a = None
            if a is not None:
                a = self.refine(a, x, ty)
                if a is not None: a = self.refine(a, y, tx)
            if b is not None:
                for p, q in ((x, y), (y, x)):
                    if p[0] == 'k' and p[1] in ('true', 'false', 'null', 'void', 'eof'): b = self.refine(b, q, A - fs(p[1])) if b else None
            if a is not None:
                for (p, q) in st.neq:
                    if (p, q) == (x, y) or (q, p) == (x, y): a = None
            if b is not None: b = b.copy(); b.neq = b.neq + ((x, y),)
            return (self.note(a, v, x, True) if a else None, self.note(b, v, x, False) if b else None)
        if f == 'not':
            a, b = self.split(st, v[1]); return b, a
        a = self.refine(st, v, A - fs('false')); b = self.refine(st, v, fs('false'))
        if v[0] in ('x', 'ap') and a and b: a = self.note(a, 'truthy', v, True); b = self.note(b, 'truthy', v, False)
        return a, b

    # ---------------------------------------------------------- logging
    def rec(self, kind, pos, **kw):
        kw['kind'] = kind; kw['pos'] = pos; kw['owner'] = list(self.owner); self.log.append(kw)

    # ---------------------------------------------------------- eval
    def size(self, lam):
        s = self.sizes.get(id(lam))
        if s is None:
            n = [0]
            walk(lam, lambda e: n.__setitem__(0, n[0] + 1)); s = n[0]; self.sizes[id(lam)] = s
        return s
    def cap(self, outs, limit=60):
        if len(outs) <= limit: return outs
        # join all into one
        states = [s for s, _ in outs]
        j = State(); s0 = states[0]
        for t, ts in s0.types.items():
            u = ts
            for s in states[1:]:
                x = s.types.get(t)
                if x is None: u = None; break
                u = u | x
            if u is not None: j.types[t] = u
        j.lin = tuple(f for f in s0.lin if all(f in s.lin for s in states[1:]))
        j.elem = {t: e for t, e in s0.elem.items() if all(s.elem.get(t) == e for s in states[1:])}
        j.isa = s0.isa
        for s in states[1:]: j.isa = j.isa & s.isa
        j.ev = s0.ev; j.tests = s0.tests
        v = self.fresh('joined')
        ts = frozenset()
        for s, x in outs: ts |= self.types(s, x) if x[0] != 'vals' else A
        j.types[v] = ts
        return [(j, v)]
    def eval_list(self, es, env, st):
        """-> [(state, [values])]"""
        outs = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in outs:
                for s2, v in self.ev(e, env, s):
                    nxt.append((s2, vs + [v]))
            if len(nxt) > 80:
                nxt = nxt[:80]
            outs = nxt
        return outs
    def constant(self, x):
        if x is None: return VOIDV
        if isinstance(x, tuple) and x[0] == 'quote': return self.quoted(x[1])
        if isinstance(x, Num): return k('fix', x.val)
        if isinstance(x, Str): return k('string', x.val)
        if isinstance(x, Chr): return k('char', x.val)
        if isinstance(x, Bool): return TRUE if x.val else FALSE
        if isinstance(x, V): return k('vector', repr(x))
        return self.quoted(x)
    def quoted(self, d):
        if isinstance(d, S): return k('symbol', d.name)
        if isinstance(d, L):
            t = NULL if d.tail is None else self.quoted(d.tail)
            for i in reversed(d.items): t = ('cons', self.quoted(i), t)
            return t
        return self.constant(d)
    def lookup(self, var, env):
        v = env.get(var) if env is not None else None
        if v is not None: return v
        if var.kind == 'prim':
            return {'null': NULL, 'true': TRUE, 'false': FALSE, 'eof': k('eof')}.get(var.name) or ('prim', var.name)
        v = self.globals.get(var)
        if v is not None: return v
        return None
    def ev(self, e, env, st):
        self.steps += 1
        if self.steps > self.budget: raise Budget()
        if e is None: return [(st, VOIDV)]
        if isinstance(e, Const): return [(st, self.constant(e.val))]
        if isinstance(e, Ref):
            v = self.lookup(e.var, env)
            if v is None or v[0] == 'cell':
                if v is None and self.loading and e.var.kind == 'global': self.rec('early', e.pos, name=e.var.name)
                v = self.fresh(e.var.name)
            return [(st, v)]
        if isinstance(e, SetE):
            outs = []
            for s, v in self.ev(e.val, env, st):
                self.escape(v, s, e.pos)
                if self.loading and not self.frames and e.var.name in NORETURN and v[0] == 'clo':
                    self.globals[e.var] = v
                    old = self.clos[v[1]]; old.names = [e.var.name]; old.glob = True
                outs.append((s.event(('set!', e.var.name, v, e.pos)), VOIDV))
            return outs
        if isinstance(e, If):
            outs = []
            for s, v in self.ev(e.c, env, st):
                a, b = self.split(s, v)
                if a is not None: outs += self.ev(e.t, env, a)
                if b is not None: outs += self.ev(e.e, env, b)
            return self.cap(outs)
        if isinstance(e, Seq):
            outs = [(st, VOIDV)]
            for x in e.es:
                nxt = []
                for s, _ in outs: nxt += self.ev(x, env, s)
                outs = self.cap(nxt)
            return outs
        if isinstance(e, Lam): return [(st, self.newclo(e, env))]
        if isinstance(e, LetV):
            outs = []
            def go(i, s, m):
                if i == len(e.binds):
                    outs.extend(self.ev(e.body, Env(m, env), s)); return
                vs, val = e.binds[i]
                for s2, v in self.ev(val, env, s):
                    m2 = dict(m)
                    if self.bindvals(vs, v, m2, s2, val.pos if val is not None else e.pos): go(i + 1, s2, m2)
            go(0, st, {})
            return self.cap(outs)
        if isinstance(e, LetrecV):
            # values bound so far are visible to later ones and to every closure (env map is shared per path)
            outs = []
            def go(i, s, m, en):
                if i == len(e.binds):
                    outs.extend(self.ev(e.body, en, s)); return
                vs, val = e.binds[i]
                res = self.ev(val, en, s)
                for j, (s2, v) in enumerate(res):
                    if len(res) == 1: m2, en2 = m, en
                    else: m2 = dict(m); en2 = Env(m2, env)
                    if self.bindvals(vs, v, m2, s2, e.pos): go(i + 1, s2, m2, en2)
            m = {}
            # closures first, so that mutual recursion works whatever the order
            en = Env(m, env)
            for vs, val in e.binds:
                if isinstance(val, Lam) and len(vs) == 1: m[vs[0]] = self.newclo(val, en)
            def go2(i, s, m, en):
                if i == len(e.binds):
                    outs.extend(self.ev(e.body, en, s)); return
                vs, val = e.binds[i]
                if isinstance(val, Lam) and len(vs) == 1:
                    if vs[0].assigned: m[vs[0]] = ('cell', vs[0])
                    go2(i + 1, s, m, en); return
                res = self.ev(val, en, s)
                for s2, v in res:
                    if len(res) == 1: m2, en2 = m, en
                    else:
                        m2 = dict(m); en2 = Env(m2, env)
                        for w, x in list(m2.items()):
                            if x[0] == 'clo' and self.clos[x[1]].env is en: m2[w] = self.newclo(self.clos[x[1]].lam, en2)
                    if self.bindvals(vs, v, m2, s2, e.pos): go2(i + 1, s2, m2, en2)
            go2(0, st, m, en)
            return self.cap(outs)
        if isinstance(e, App): return self.app(e, env, st)
        if isinstance(e, DefV):
            return [(s, VOIDV) for s, v in self.ev(e.val, env, st)]
        if isinstance(e, Opaque):
            for sub in e.subs:
                self.ev(sub, env, st)
            return [(st, self.fresh(e.what))]
        raise TypeError(e)
    def bindvals(self, vs, v, m, st, pos):
        if len(vs) == 1 and v[0] != 'vals': vals = [v]
        elif v[0] == 'vals':
            vals = list(v[1:])
            if len(vals) != len(vs):
                self.rec('values', pos, want=len(vs), got=len(vals)); return False
        elif v[0] in ('x', 'rec', 'ap'): vals = [self.fresh(w.name, (v,)) for w in vs]
        else:
            if len(vs) != 1: self.rec('values', pos, want=len(vs), got=1); return False
            vals = [v]
        for w, x in zip(vs, vals):
            if w.assigned: self.escape(x, st, pos); m[w] = ('cell', w)
            else: m[w] = x
        return True

    def app(self, e, env, st):
        outs = []
        for s, fv in self.ev(e.f, env, st):
            for s2, args in self.eval_list(e.args, env, s):
                outs += self.call(fv, args, s2, e.pos, e)
        return self.cap(outs)

    # ---------------------------------------------------------- calls
    def call(self, fv, args, st, pos, e=None):
        f = fv[0]
        if f == 'clo': return self.call_clo(self.clos[fv[1]], args, st, pos)
        if f == 'prim': return self.call_prim(fv[1], args, st, pos)
        if f == 'rpred':
            if len(args) != 1: self.rec('arity', pos, callee='record predicate', got=len(args), want='1'); return []
            return [(st, ('isa', fv[1], args[0]))]
        if f == 'acc':
            if len(args) != 1: self.rec('arity', pos, callee='record accessor', got=len(args), want='1'); return []
            t = ('fld', fv[1], fv[2], args[0])
            v = self.fresh('field%s' % (fv[2],), (args[0],))
            s = st.copy(); s.isa = s.isa | {(fv[1], args[0])}
            r = self.refine(s, args[0], fs('rec'))
            if r is None: return []
            inv = self.field_inv.get((fv[1][1] if fv[1][0] == 'rtdc' else None, fv[2]))
            if inv: r = r.copy(); r.types[v] = inv
            return [(r.event(('acc', fv[1], fv[2], args[0], v, pos)), v)]
        if f == 'mut':
            if len(args) != 2: self.rec('arity', pos, callee='record mutator', got=len(args), want='2'); return []
            inv = self.field_inv.get((fv[1][1] if fv[1][0] == 'rtdc' else None, fv[2]))
            if inv: self.rec('prim', pos, name='record-field %s' % fv[1][1], args=args, st=st, ok=self.types(st, args[1]) <= inv, why='field %d of %s must hold %s' % (fv[2], fv[1][1], '/'.join(inv)))
            self.escape(args[1], st, pos)
            return [(st.event(('mut', fv[1], fv[2], args[0], args[1], pos)), VOIDV)]
        if f == 'ctor':
            r = fv[1]
            for a in args: self.escape(a, st, pos)
            if r[0] == 'rtdc':
                if r[3] is not None and len(args) != r[3]: self.rec('arity', pos, callee='record constructor of ' + r[1], got=len(args), want=str(r[3])); return []
                for i, a in enumerate(args):
                    inv = self.field_inv.get((r[1], i))
                    if inv: self.rec('prim', pos, name='record-field ' + r[1], args=args, st=st, ok=self.types(st, a) <= inv, why='field %d of %s must hold %s' % (i, r[1], '/'.join(inv)))
            self.n += 1
            v = ('inst', self.n, r)
            s = st.copy(); s.isa = s.isa | {(r, v)}
            return [(s.event(('new', v, pos, tuple(args))), v)]
        # unknown procedure
        if f in ('k', 'cons', 'mkvec', 'mkstr', 'inst', 'rtdc', 'iota', 'pred', 'cmp', 'eq', 'isa'):
            self.rec('notproc', pos, value=fv); return []
        for a in args: self.escape(a, st, pos)
        v = self.fresh('result', (fv,) + tuple(args))
        s = st.event(('call', fv, tuple(args), v, pos))
        return [(s, v)]
    def escape(self, v, st, pos):
        """v flows to code we do not follow: analyse closures with unknown arguments"""
        if self.loading: return
        if v[0] == 'clo':
            c = self.clos[v[1]]
            if c.glob: return
            n = self.escaped.get(id(c.lam), 0)
            if n >= 4 or any(f.lam is c.lam for f in self.frames): return
            self.escaped[id(c.lam)] = n + 1
            self.entry(c, st)
        elif v[0] == 'cons': self.escape(v[1], st, pos); self.escape(v[2], st, pos)
        elif v[0] == 'vals':
            for x in v[1:]: self.escape(x, st, pos)
    def entry(self, c, st):
        """analyse all clauses of a closure with unconstrained parameters; returns [(clause, params, outcomes)]"""
        res = []
        for cl in c.lam.clauses:
            ps = [self.fresh(p.name) for p in cl.params]
            s = st
            rest = None
            if cl.rest is not None:
                rest = self.fresh(cl.rest.name); s = s.copy(); s.types[rest] = LIST
            outs = self.activate(c, cl, ps, rest, s, cl.pos)
            res.append((cl, ps, rest, outs))
        return res
    def select(self, lam, n):
        for cl in lam.clauses:
            if len(cl.params) == n or (cl.rest is not None and len(cl.params) <= n): return cl
        return None
    def arities(self, lam): return ', '.join('%d%s' % (len(c.params), '+' if c.rest is not None else '') for c in lam.clauses)
    def call_clo(self, c, args, st, pos, tail=None):
        """tail: abstract list of further arguments (from apply)"""
        if c.glob:
            nm = c.names[0] if c.names else None
            if nm in NORETURN:
                cl = self.select(c.lam, len(args)) if tail is None else True
                if cl is None: self.rec('arity', pos, callee=nm, got=len(args), want=self.arities(c.lam)); return []
                return self.noreturn(nm, args, st, pos, tail)
            if nm is not None and tail is None:
                b = getattr(self, 'b_' + nm.replace('-', '_').replace('!', 'B').replace('?', 'P').replace('>', 'G'), None)
                if b is not None and self.select(c.lam, len(args)) is not None:
                    r = b(args, st, pos)
                    if r is not None: return r
        rest = None
        if tail is not None:
            ch = self.chain(tail)
            if ch is not None:
                t = tail; args = list(args)
                while t != NULL: args.append(t[1]); t = t[2]
                tail = None
        if tail is None:
            cl = self.select(c.lam, len(args))
            if cl is None:
                self.rec('arity', pos, callee=(c.names[0] if c.names else c.lam.name) or 'lambda', got=len(args), want=self.arities(c.lam)); return []
            ps = args[:len(cl.params)]
            if cl.rest is not None:
                rest = NULL
                for a in reversed(args[len(cl.params):]): rest = ('cons', a, rest)
        else:
            # unknown number of arguments: only a clause with enough rest is followed
            outs = []
            hit = False
            for cl in c.lam.clauses:
                if cl.rest is not None and len(cl.params) <= len(args):
                    r = tail
                    for a in reversed(args[len(cl.params):]): r = ('cons', a, r)
                    outs += self.enter(c, cl, list(args[:len(cl.params)]), r, st, pos); hit = True; break
            if hit: return outs
            for a in args: self.escape(a, st, pos)
            return [(st, self.fresh('apply', tuple(args) + (tail,)))]
        return self.enter(c, cl, ps, rest, st, pos)
    def enter(self, c, cl, ps, rest, st, pos):
        argv = list(ps) + ([rest] if cl.rest is not None else [])
        fnargs = tuple(a for a in argv if a[0] in ('clo', 'prim', 'rpred', 'acc'))
        key = (id(cl),) + tuple((self.clos[a[1]].lam.pos if a[0] == 'clo' and False else a) for a in fnargs)
        # recursion?
        for fr in reversed(self.frames):
            if fr.lam is cl and fr.key == key:
                if fr.loop:
                    return self.recursive(fr, argv, st, pos)
                # unrolling of a known list?
                cnt = sum(1 for g in self.frames if g.lam is cl)
                if cnt < 10 and any(self.chain(a) is not None and self.chain(b) is not None and self.chain(a) < self.chain(b) for a, b in zip(argv, fr.args)):
                    break
                raise NeedLoop(fr)
        if sum(1 for g in self.frames if g.lam is cl) > 3 + (10 if any(self.chain(a) is not None for a in argv) else 0) or len(self.frames) > self.max_depth:
            for a in argv: self.escape(a, st, pos)
            return [(st, self.fresh('deep', tuple(argv)))]
        if c.glob and (self.frames or self.loading) and self.size(c.lam) > self.inline_limit and not any(a[0] == 'clo' for a in argv) or (c.names and c.names[0] in self.noinline):
            return self.summary(c, argv, st, pos)
        return self.activate(c, cl, ps, rest, st, pos, key)
    def summary(self, c, argv, st, pos):
        """call of a large public procedure from elsewhere: result types only"""
        for a in argv: self.escape(a, st, pos)
        if self.loading: return [(st, self.fresh('result', tuple(argv)))]
        ts = self.summ.get(c.id)
        if ts is None:
            if c.id in self.insum: ts = A
            else:
                self.insum.add(c.id)
                fr, ow, lg, es = self.frames, self.owner, len(self.log), dict(self.escaped)
                self.frames = []; self.owner = []
                try:
                    ts = frozenset()
                    for _, _, _, outs in self.entry(c, State()):
                        for s, v in outs: ts |= self.types(s, v) if v[0] not in ('vals', 'rec') else A
                except NeedLoop: ts = A
                finally:
                    self.frames = fr; self.owner = ow; del self.log[lg:]; self.escaped = es
                    self.insum.discard(c.id)
                self.summ[c.id] = ts
        if not ts: return []
        v = self.fresh('result', tuple(argv)); s = st.event(('gcall', c.names[0] if c.names else '?', tuple(argv), v, pos)); s.types[v] = ts
        return [(s, v)]

    def activate(self, c, cl, ps, rest, st, pos, key=None):
        argv = list(ps) + ([rest] if cl.rest is not None else [])
        if key is None:
            fnargs = tuple(a for a in argv if a[0] in ('clo', 'prim', 'rpred', 'acc')); key = (id(cl),) + fnargs
        fr = Frame(cl, key, argv, c, cl)
        pub = c.glob and c.names
        mark = len(self.log); esc = dict(self.escaped)
        depth = len(self.frames); od = len(self.owner)
        self.frames.append(fr)
        if pub: self.owner.append(c)
        try:
            try:
                st2 = st
                if cl.rest is not None and rest[0] == 'x': st2 = st.copy(); st2.types[rest] = self.types(st, rest) & LIST
                return self.run(c, cl, argv, st2)
            except NeedLoop as n:
                if n.frame is not fr: raise
                del self.frames[depth + 1:]; del self.owner[od + (1 if pub else 0):]
                del self.log[mark:]; self.escaped = esc
                return self.loop(fr, c, cl, argv, st)
        finally:
            del self.frames[depth:]; del self.owner[od:]
    def run(self, c, cl, argv, st):
        m = {}
        allp = list(cl.params) + ([cl.rest] if cl.rest is not None else [])
        for p, a in zip(allp, argv):
            if p.assigned: m[p] = ('cell', p)
            else: m[p] = a
        return self.ev(cl.body, Env(m, c.env), st)

    def recursive(self, fr, argv, st, pos):
        for b, a in zip(fr.params, argv):
            if a[0] == 'clo' and a != b: self.escape(a, st, pos)
        i = len(fr.calls)
        self.n += 1
        v = ('rec', self.n, id(fr))
        fr.calls.append((st, argv, v, pos))
        s = st.event(('rcall', v, pos))
        return [(s, v)]
    def loop(self, fr, c, cl, argv, st):
        fr.loop = True
        n = len(argv)
        inv = [True] * n
        ty = [self.types(st, a) if a[0] != 'vals' else A for a in argv]
        el = [self.elem(st, a) for a in argv]
        lo = ['fix' in t and self.ge0(st, a) for t, a in zip(ty, argv)]
        isas = [frozenset(r for (r, t) in [x for x in st.isa if len(x) == 2] if t == a) for a in argv]
        for it in range(12):
            mark = len(self.log); esc = dict(self.escaped)
            s = st.copy(); params = []
            for i, a in enumerate(argv):
                if inv[i]: params.append(a); continue
                p = self.fresh((list(cl.params) + [cl.rest])[i].name, (a,)); params.append(p)
                s.types[p] = ty[i]
                if el[i] is not None: s.elem[p] = el[i]
                if lo[i]: s.lin = s.lin + ((frozenset({(p, -1)}), 0),)
                for r in isas[i]: s.isa = s.isa | {(r, p)}
            fr.params = params; fr.calls = []
            outs = self.run(c, cl, params, s)
            changed = False
            for cs, ca, cv, cp in fr.calls:
                for i in range(n):
                    a = ca[i]
                    if inv[i]:
                        if a != params[i]: inv[i] = False; changed = True; continue
                    t = self.types(cs, a) if a[0] not in ('vals',) else A
                    if not t <= ty[i]: ty[i] = ty[i] | t; changed = True
                    ee = self.elem(cs, a)
                    if el[i] is not None and t - fs('null'):
                        if ee is None: el[i] = None; changed = True
                        elif not ee[0] <= el[i][0] or (el[i][1] is not None and ee[1] != el[i][1]):
                            el[i] = (ee[0] | el[i][0], el[i][1] if ee[1] == el[i][1] else None); changed = True
                    if lo[i] and not self.ge0(cs, a): lo[i] = False; changed = True
                    ni = frozenset(r for r in isas[i] if (r, a) in cs.isa)
                    if ni != isas[i]: isas[i] = ni; changed = True
            if not changed: break
            del self.log[mark:]; self.escaped = esc
        # result
        res = []
        recvals = {cv for _, _, cv, _ in fr.calls}
        # list parameters that every recursive call advances by cdr
        adv = {}
        for i in range(n):
            if not inv[i] and fr.calls and all(ca[i] == ('ap', '$cdr', params[i]) for _, ca, _, _ in fr.calls):
                T = frozenset()
                for cs, ca, _, _ in fr.calls: T |= self.types(cs, ('ap', '$car', params[i]))
                adv[i] = T
        fr.rets = frozenset()
        for s, v in outs:
            if v in recvals: continue
            v2 = v
            s2 = s
            if adv:
                for i, T in adv.items():
                    if self.types(s, params[i]) <= fs('null') and T != A:
                        s2 = s2.copy(); old = self.elem(s2, argv[i])
                        s2.elem[argv[i]] = (T if old is None else old[0] & T, old[1] if old is not None else None)
            if self.mentions(v, recvals):
                if v[0] == 'cons': w = self.fresh('list', tuple(argv)); s2 = s2.copy(); s2.types[w] = PAIR; v2 = w
                elif v[0] == 'vals': v2 = v
                else:
                    w = self.fresh('result', tuple(argv)); s2 = s2.copy(); s2.types[w] = self.types(s, v) if v[0] != 'rec' else A; v2 = w
            elif v in params and not v == argv[params.index(v)]:
                # a generalised parameter: keep its facts, remember what it depends on
                w = self.fresh(v[2] if v[0] == 'x' else 'result', tuple(argv) + (v,))
                s2 = s2.copy(); s2.types[w] = self.types(s, v)
                d1 = self.sub(w, v); d2 = self.sub(v, w)
                s2.lin = s2.lin + ((frozenset(d1[0].items()), d1[1]), (frozenset(d2[0].items()), d2[1]))
                e = self.elem(s, v)
                if e is not None: s2.elem[w] = e
                v2 = w
            s2 = s2.event(('loop', cl.pos, tuple(params), tuple(argv), tuple((ca, cp) for _, ca, _, cp in fr.calls), v2))
            res.append((s2, v2))
        self.looplog(fr, cl, params, argv, outs, recvals)
        return res
    def looplog(self, fr, cl, params, argv, outs, recvals):
        self.rec('loop', cl.pos, params=params, argv=argv, calls=[(cs, ca, cp) for cs, ca, _, cp in fr.calls], outs=[(s, v) for s, v in outs if v not in recvals], name=fr.clo.lam.name)
    def mentions(self, v, rs):
        if v in rs or v[0] == 'rec': return True
        if v[0] in ('cons', 'vals'): return any(self.mentions(x, rs) for x in v[1:])
        if v[0] == 'ap': return any(self.mentions(x, rs) for x in v[2:])
        return False

    # ---------------------------------------------------------- special procedures
    def noreturn(self, nm, args, st, pos, tail=None):
        self.rec('raise', pos, name=nm, args=args, st=st, tail=tail, lams=[f.clo.lam for f in self.frames])
        return []
    def b_make_record_type_descriptor(self, args, st, pos):
        if not self.loading and not all(a[0] == 'k' or a[0] in ('rtdc', 'x') for a in args): return None
        if args[0][:2] != ('k', 'symbol'): return None
        self.n += 1
        parent = args[1] if args[1][0] == 'rtdc' else None
        nf = None
        if args[5][:2] == ('k', 'vector'):
            nf = len(Reader(args[5][2], '<const>').all()[0].items)
            if parent is not None: nf = nf + parent[3] if parent[3] is not None else None
            elif args[1] != FALSE: nf = None
        fields = args[5][2] if args[5][:2] == ('k', 'vector') else None
        return [(st, ('rtdc', args[0][2], self.n, nf, parent, fields))]
    def b_record_constructor(self, args, st, pos):
        return [(st, ('ctor', args[0]))] if args[0][0] in ('rtdc', 'x') and (self.loading or args[0][0] == 'rtdc') else None
    def b_record_predicate(self, args, st, pos):
        if args[0][0] == 'rtdc': return [(st, ('rpred', args[0]))]
        if self.types(st, args[0]) <= fs('rtd'): return [(st, ('rpred', args[0]))]
        return None
    def b_record_accessor(self, args, st, pos):
        if args[0][0] == 'rtdc' and args[1][:2] == ('k', 'fix'):
            self.rec('acc', pos, rtd=args[0], idx=args[1][2]); return [(st, ('acc', args[0], args[1][2]))]
    def b_record_mutator(self, args, st, pos):
        if args[0][0] == 'rtdc' and args[1][:2] == ('k', 'fix'):
            self.rec('acc', pos, rtd=args[0], idx=args[1][2]); return [(st, ('mut', args[0], args[1][2]))]
    def b_iota(self, args, st, pos):
        r = self.refine(st, args[0], FIX)
        if r is None or not self.ge0(r, args[0]): return None
        self.n += 1
        return [(r, ('iota', self.n, args[0]))]
    def b_exit(self, args, st, pos): return []

    def call_prim(self, name, args, st, pos):
        if name == 'values': return [(st, args[0] if len(args) == 1 else ('vals',) + tuple(args))]
        if name == 'void': return [(st, VOIDV)]
        if name == 'identity':
            if len(args) != 1: self.rec('arity', pos, callee=name, got=len(args), want='1'); return []
            return [(st, args[0])]
        if name == 'apply':
            if len(args) < 2: self.rec('arity', pos, callee=name, got=len(args), want='2+'); return []
            t = args[-1]; mid = args[1:-1]
            f = args[0]
            if f[0] == 'clo': return self.call_clo(self.clos[f[1]], list(mid), st, pos, tail=t)
            ch = self.chain(t)
            if ch is not None:
                a = list(mid)
                while t != NULL: a.append(t[1]); t = t[2]
                return self.call(f, a, st, pos)
            if f[0] == 'prim' and f[1] in NORETURN: return self.noreturn(f[1], list(mid), st, pos, t)
            if f[0] == 'prim':
                self.rec('primvalue', pos, name=f[1])
            v = self.fresh('apply', tuple(args)); return [(st.event(('call', f, tuple(mid) + (('*', t),), v, pos)), v)]
        if name == 'call-with-values':
            if len(args) != 2: self.rec('arity', pos, callee=name, got=len(args), want='2'); return []
            outs = []
            for s, v in self.call(args[0], [], st, pos):
                if v[0] == 'vals': outs += self.call(args[1], list(v[1:]), s, pos)
                elif v[0] in ('x', 'rec'):
                    l = self.fresh('values'); s = s.copy(); s.types[l] = LIST
                    if args[1][0] == 'clo':
                        self.escape(args[1], s, pos)
                    outs.append((s, self.fresh('result')))
                else: outs += self.call(args[1], [v], s, pos)
            return outs
        ar = self.prim_arity.get(name)
        if ar is not None and len(args) != ar:
            self.rec('arity', pos, callee=name, got=len(args), want=str(ar)); return []
        if name in NORETURN: return self.noreturn(name, args, st, pos)
        if name == 'raise': return self.noreturn(name, args, st, pos)
        if name in PREDS and name != 'not': return [(st, self.simp(st, ('pred', name, args[0])))]
        if name == 'not':
            return [(st, ('not', args[0])) if args[0][0] in ('pred', 'cmp', 'isa', 'eq', 'not') else (st, ('eq', args[0], FALSE))]
        if name == 'eq?': return [(st, ('eq', args[0], args[1]))]
        # obligations
        self.rec('prim', pos, name=name, args=args, st=st)
        s = st
        if name in CMPS: return [(s, ('cmp', CMPS[name], args[0], args[1]))]
        if name == 'cons': return [(s, ('cons', args[0], args[1]))]
        if name == '$make-vector': self.n += 1; return [(s.event(('new', ('mkvec', self.n, args[0]), pos)), ('mkvec', self.n, args[0]))]
        if name == '$make-string': self.n += 1; return [(s, ('mkstr', self.n, args[0]))]
        if name.startswith('$c') and name[1] == 'c' and name.endswith('r') and set(name[2:-1]) <= set('ad') and len(name) > 4:
            t = args[0]
            for ch in reversed(name[2:-1]):
                t = self.mk('$c%sr' % ch, [t])
            return [(s.event(('prim', name, tuple(args), t, pos)), t)]
        if name in FUNCTIONAL: v = self.mk(name, args)
        elif name in ('$reverse',) and self.chain(args[0]) is not None:
            t = args[0]; v = NULL
            while t != NULL: v = ('cons', t[1], v); t = t[2]
        elif name == '$append2' and args[0] == NULL: v = args[1]
        else:
            v = self.fresh(name, args)
            if name in RESULT:
                s = s.copy(); s.types[v] = RESULT[name]
                if name in ELEM: s.elem[v] = (ELEM[name], None)
                if name == '$reverse':
                    e = self.elem(st, args[0])
                    if e is not None: s.elem[v] = e
                if name in NONNEG: s.lin = s.lin + ((frozenset({(v, -1)}), 0),)
                if RESULT[name] == VOID: v = VOIDV
            if name not in ('$environment-ref',):
                for a in args: self.escape(a, s, pos)
        return [(s.event(('prim', name, tuple(args), v, pos)), v)]
    def simp(self, st, v):
        ts = self.types(st, v[2]); P = PREDS[v[1]]
        if ts <= P or not (ts & P): pass
        return v

    # ---------------------------------------------------------- loading a program
    def load(self, prog, budget=60000):
        """evaluate the top-level forms in order: finds the value of every global"""
        self.loading = True
        st = State()
        for e in prog:
            self.budget = self.steps + budget
            try: st = self.loadform(e, st)
            except (Budget, NeedLoop):
                if isinstance(e, DefV):
                    for v in e.vars: self.globals[v] = self.fresh(v.name)
                self.frames = []; self.owner = []
                self.skipped.append(e)
        self.loading = False
        # names
        for v, val in self.globals.items():
            if val[0] == 'clo':
                c = self.clos[val[1]]; c.glob = True
                if v.name not in c.names: c.names.append(v.name)
        return st
    def loadform(self, e, st):
        if isinstance(e, Seq):
            for x in e.es: st = self.loadform(x, st)
            return st
        if isinstance(e, DefV):
            self.cur = e
            outs = self.ev(e.val, None, st)
            if not outs:
                for v in e.vars: self.globals[v] = self.fresh(v.name)
                return st
            s, val = outs[0]
            if len(outs) > 1: val = val if all(o[1] == val for o in outs) else (('vals',) + tuple(self.fresh(v.name) for v in e.vars) if len(e.vars) > 1 else self.fresh('?'))
            m = {}
            if self.bindvals(e.vars, val, m, s, e.pos):
                for v in e.vars:
                    x = m.get(v)
                    if v.assigned and x is not None and x[0] == 'cell': x = None
                    if v.assigned:
                        raw = val[1 + e.vars.index(v)] if val[0] == 'vals' else val
                        if v.name in NORETURN: self.globals[v] = raw
                        else: self.globals[v] = ('cell', v)
                        continue
                    self.globals[v] = x
                    if x[0] == 'clo':
                        c = self.clos[x[1]]; c.glob = True
                        if v.name not in c.names: c.names.append(v.name)
            return s if len(outs) == 1 else st
        outs = self.ev(e, None, st)
        return outs[0][0] if len(outs) == 1 else st

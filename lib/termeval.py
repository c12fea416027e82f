"""Term-level abstract interpretation of expanded Minim code: arguments are opaque, each test on an opaque
value splits the state, calls of primitives on opaque values build terms."""
from mnm import *
from report import ToolError

class Stop(Exception): pass            # the path ends in a raised error
class Abandon(Exception): pass
class Clo:
    def __init__(s, lam, env): s.lam = lam; s.env = env; s.mark = None
    def __repr__(s): return '<procedure %s>' % (s.lam.name or '')
class Obj:
    """mutable or identity-bearing data: ('pair', a, d) and ('rec', rtd, fields)"""
    def __init__(s, kind, f): s.kind = kind; s.f = f
    def __repr__(s): return '%s%r' % (s.kind, s.f)
NIL = ('k', ()); T = ('b', True); F = ('b', False); VOID = ('k', 'void')
def num(n): return ('k', n)
def lst(xs):
    r = NIL
    for x in reversed(xs): r = Obj('pair', [x, r])
    return r
def items(l):
    out = []
    while isinstance(l, Obj) and l.kind == 'pair': out.append(l.f[0]); l = l.f[1]
    return out if l == NIL else None
class Sym(str): pass
def datum(x):
    if isinstance(x, S): return ('k', Sym(x.name))
    if isinstance(x, Num): return ('k', int(x.val)) if isinstance(x.val, int) or str(x.val).lstrip('-').isdigit() else ('k', ('num', str(x.val)))
    if isinstance(x, Bool): return ('b', bool(x.val))
    if isinstance(x, (Str, Chr)): return ('k', (type(x).__name__, x.val))
    if isinstance(x, V): return Obj('vector', [datum(i) for i in x.items])
    if isinstance(x, L):
        r = datum(x.tail) if x.tail is not None else NIL
        for i in reversed(x.items): r = Obj('pair', [datum(i), r])
        return r
    raise ToolError('datum %r' % (x,))

class TermEval:
    def __init__(s, progs):
        """progs: list of expanded programs, in order of evaluation; later ones see earlier ones"""
        s.defs = {}
        for p in progs:
            for d in p: s.flat(d)
        s.maxsteps = 20000
    def flat(s, d):
        if isinstance(d, Seq):
            for x in d.es: s.flat(x)
        elif isinstance(d, DefV):
            for k, v in enumerate(d.vars): s.defs.setdefault(v, []).append((d, k))
    def paths(s, thunk, limit=4000):
        script = []; n = 0
        while True:
            s.script = script; s.pos = 0; s.facts = {}; s.gmem = {}; s.steps = 0; s.ids = 0
            end = 'return'; r = None
            try: r = thunk(s)
            except Stop as e: end = 'error'; r = e.args
            except Abandon: end = 'cut'
            yield end, r, dict(s.facts)
            while script and script[-1][0] + 1 >= script[-1][1]: script.pop()
            if not script: return
            script[-1][0] += 1; n += 1
            if n > limit: raise ToolError('too many states')
    def split(s, key):
        if key in s.facts: return s.facts[key]
        if s.pos < len(s.script): c = s.script[s.pos][0]
        else: s.script.append([0, 2]); c = 0
        s.pos += 1; s.facts[key] = r = c == 0
        return r
    # ---- globals
    def glob(s, v):
        if v in s.gmem: return s.gmem[v]
        ds = s.defs.get(v)
        if not ds: return ('glob', v.name)
        d, k = ds[-1]
        s.gmem[v] = ('glob', v.name)
        r = s.ev(d.val, {})
        vs = r.f if isinstance(r, Obj) and r.kind == 'values' else [r]
        if len(vs) != len(d.vars): raise ToolError('values of %s' % v.name)
        for n, x in zip(d.vars, vs): s.gmem[n] = x
        return s.gmem[v]
    def byname(s, name):
        for v in s.defs:
            if v.name == name: r = v
        try: return r
        except UnboundLocalError: return None
    # ---- evaluation
    def ev(s, e, env):
        s.steps += 1
        if s.steps > s.maxsteps: raise Abandon()
        if isinstance(e, Const):
            if e.val is None: return VOID
            if isinstance(e.val, tuple) and e.val[0] == 'quote': return datum(e.val[1])
            return datum(e.val)
        if isinstance(e, Ref):
            v = e.var
            if v in env: return env[v][0]
            if v.kind == 'prim': return ('prim', v.name)
            return s.glob(v)
        if isinstance(e, Lam): return Clo(e, env)
        if isinstance(e, If): return s.ev(e.t if s.truth(s.ev(e.c, env)) else e.e, env)
        if isinstance(e, Seq):
            for x in e.es: r = s.ev(x, env)
            return r
        if isinstance(e, SetE):
            if e.var in env: env[e.var][0] = s.ev(e.val, env)
            else: s.gmem[e.var] = s.ev(e.val, env)
            return VOID
        if isinstance(e, (LetV, LetrecV)):
            ne = dict(env); rec = isinstance(e, LetrecV)
            if rec:
                for vs, _ in e.binds:
                    for v in vs: ne[v] = [('undef', v.name)]
            for vs, x in e.binds:
                r = s.ev(x, ne if rec else env)
                rs = r.f if isinstance(r, Obj) and r.kind == 'values' else [r]
                if len(rs) != len(vs):
                    if isinstance(r, tuple): rs = [('nth', r, k) for k in range(len(vs))]
                    else: raise ToolError('values')
                for v, y in zip(vs, rs):
                    if rec: ne[v][0] = y
                    else: ne[v] = [y]
            return s.ev(e.body, ne)
        if isinstance(e, App):
            f = s.ev(e.f, env); a = [s.ev(x, env) for x in e.args]
            return s.apply(f, a)
        if isinstance(e, Opaque):
            s.ids += 1; return ('opaque', e.what, e.pos, s.ids)
        raise ToolError('expression %r' % (e,))
    def apply(s, f, a):
        if isinstance(f, Clo):
            for c in f.lam.clauses:
                if len(a) == len(c.params) or c.rest is not None and len(a) >= len(c.params):
                    ne = dict(f.env)
                    for v, x in zip(c.params, a): ne[v] = [x]
                    if c.rest is not None: ne[c.rest] = [lst(a[len(c.params):])]
                    return s.ev(c.body, ne)
            raise Stop('arity', f.lam.name)
        if isinstance(f, tuple) and f[0] in ('prim', 'glob'): return s.prim(f[1], a)
        s.ids += 1; return ('call', f, tuple(s.key(x) for x in a))
    def key(s, x): return x if isinstance(x, (tuple, Clo)) else x
    TYPES = {'pair?': 'pair', 'null?': 'null', 'fixnum?': 'fixnum', 'symbol?': 'symbol', 'string?': 'string', 'procedure?': 'closure', '$record?': 'rec', '$record-value?': 'rec', 'vector?': 'vector', 'boolean?': 'bool', 'char?': 'char', 'box?': 'box', '$hashtable?': 'hashtable', 'syntax?': 'syntax', 'environment?': 'environment', 'void?': 'void', 'eof-object?': 'eof'}
    def kind(s, x):
        if isinstance(x, Obj): return x.kind
        if isinstance(x, Clo): return 'closure'
        if x[0] == 'b': return 'bool'
        if x[0] == 'k':
            v = x[1]
            return 'fixnum' if isinstance(v, int) else 'null' if v == () else 'symbol' if isinstance(v, Sym) else 'string' if isinstance(v, tuple) and v[0] == 'Str' else 'char' if isinstance(v, tuple) and v[0] == 'Chr' else 'void' if v == 'void' else None
        if x[0] == 'prim' and len(x) == 2: return 'closure'
        if x[0] == 'term' and x[1] in ('$fx2+', '$fx2-', '$fx2*', '$fx2/', '$fxremainder', '$fxmodulo', '$fxneg'): return 'fixnum'
        if x[0] == 'term' and x[1] in ('$fx2=', '$fx2<', '$fx2>', '$fx2<=', '$fx2>='): return 'bool'
        return None
    def truth(s, x):
        if isinstance(x, (Obj, Clo)): return True
        if x[0] == 'k': return True
        if x[0] == 'b': return x[1]
        if x[0] == 'prim': return True
        if s.kind(x) not in (None, 'bool'): return True
        return s.split(('true', x))
    def bool(s, b): return T if b else F
    FX = {'$fx2+': lambda a, b: a + b, '$fx2-': lambda a, b: a - b, '$fx2*': lambda a, b: a * b}
    CMP = {'$fx2=': lambda a, b: a == b, '$fx2<': lambda a, b: a < b, '$fx2>': lambda a, b: a > b, '$fx2<=': lambda a, b: a <= b, '$fx2>=': lambda a, b: a >= b}
    def prim(s, n, a):
        h = getattr(s, 'on_prim', None)
        if h:
            r = h(n, a)
            if r is not None: return r
        if n in ('error', 'errorf', '$boot-error', '$exit') or n.startswith('raise'): raise Stop(n, a)
        if n == 'values': return a[0] if len(a) == 1 else Obj('values', a)
        if n == 'void': return VOID
        if n == 'apply':
            t = items(a[-1])
            if t is not None: return s.apply(a[0], a[1:-1] + t)
        if n == 'call-with-values':
            r = s.apply(a[0], []); rs = r.f if isinstance(r, Obj) and r.kind == 'values' else [r]
            return s.apply(a[1], rs)
        if n in s.TYPES and len(a) == 1:
            k = s.kind(a[0])
            if k is not None: return s.bool(k == s.TYPES[n])
            # types are mutually exclusive
            key = ('type', a[0]); w = s.TYPES[n]; no = s.facts.get(('nottype', a[0]), frozenset())
            if key in s.facts: return s.bool(s.facts[key] == w)
            if w in no: return F
            if s.pos < len(s.script): c = s.script[s.pos][0]
            else: s.script.append([0, 2]); c = 0
            s.pos += 1
            if c == 0: s.facts[key] = w; return T
            s.facts[('nottype', a[0])] = no | {w}; return F
        if n == 'not': return s.bool(not s.truth(a[0]))
        if n == 'eq?':
            x, y = a
            if x is y or (isinstance(x, tuple) and x == y): return T
            if isinstance(x, (Obj, Clo)) or isinstance(y, (Obj, Clo)): 
                if (isinstance(x, (Obj, Clo)) or x[0] in ('k', 'b')) and (isinstance(y, (Obj, Clo)) or y[0] in ('k', 'b')): return F
            elif x[0] in ('k', 'b') and y[0] in ('k', 'b'): return F
            return s.bool(s.split(('eq', s.key(x), s.key(y))))
        if n in s.FX or n in s.CMP:
            x, y = a
            if all(isinstance(z, tuple) and z[0] == 'k' and isinstance(z[1], int) for z in a):
                return num(s.FX[n](x[1], y[1])) if n in s.FX else s.bool(s.CMP[n](x[1], y[1]))
        if n in ('cons', '$cons'): return Obj('pair', list(a))
        if n == 'list': return lst(a)
        if n in ('$car', 'car') and isinstance(a[0], Obj) and a[0].kind == 'pair': return a[0].f[0]
        if n in ('$cdr', 'cdr') and isinstance(a[0], Obj) and a[0].kind == 'pair': return a[0].f[1]
        if n[:2] == '$c' and n[-1] == 'r' and len(n) > 4 and set(n[2:-1]) <= set('ad'):
            x = a[0]
            for c in reversed(n[2:-1]): x = s.prim('$c%sr' % c, [x])
            return x
        if n in ('list?', '$list?') and items(a[0]) is not None: return T
        if n in ('$length', 'length') and items(a[0]) is not None: return num(len(items(a[0])))
        if n == '$make-record': return Obj('rec', [a[0]] + (items(a[1]) or [a[1]]))
        if isinstance(a[0] if a else None, Obj) and a[0].kind == 'rec':
            r = a[0]
            if n == '$record-rtd': return r.f[0]
            if n == '$record-ref' and isinstance(a[1], tuple) and isinstance(a[1][1], int): return r.f[1 + a[1][1]] if 0 <= a[1][1] < len(r.f) - 1 else ('outside',)
            if n == '$record-set!' and isinstance(a[1], tuple) and isinstance(a[1][1], int):
                if not 0 <= a[1][1] < len(r.f) - 1: return ('outside',)
                r.f[1 + a[1][1]] = a[2]; return VOID
        if a and isinstance(a[0], Obj) and a[0].kind == 'rtd':
            r = a[0]
            if n == '$record-type-length': return num(len(r.f[5]))
            if n == '$record-type-parent': return r.f[1]
            if n == '$record-type-name': return r.f[0]
            if n == '$record-type-sealed?': return r.f[3]
            if n == '$record-type-opaque?': return r.f[4]
        if n == '$record-type-descriptor?' or n == 'record-type-descriptor?':
            if isinstance(a[0], Obj): return s.bool(a[0].kind == 'rtd')
        return ('term', n) + tuple(s.key(x) for x in a)

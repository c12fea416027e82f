"""Abstract interpretation of the C runtime over object shapes.

States are partitioned by path; objects received from outside are materialised lazily, one tag test or
field access at a time, so every state says exactly what the path has established about every object.
Loops are entered with 0, 1 and 2 iterations (each iteration materialises fresh elements, so a third adds no
new situation).  Nothing is executed and no solver is involved: a comparison is decided from the facts of the
state or splits it."""
import re
import ir
from report import ToolError

SPECIAL, CHAR, FIXNUM, SYMBOL, STRING, PAIR, VECTOR, CLOSURE, PORT, RECORD, BOX, HASHTABLE, SYNTAX, ENV, TOPENV, CONT, CODE = range(17)
TAGNAME = 'special char fixnum symbol string pair vector closure port record box hashtable syntax env topenv continuation code'.split()
SPECIALS = ('minim_null', 'minim_true', 'minim_false', 'minim_eof', 'minim_void', 'minim_values', 'minim_unbound')

class Cut(Exception): pass          # path abandoned (loop bound)
class Done(Exception):
    def __init__(s, why, args=(), ins=None): s.why = why; s.args_ = args; s.ins = ins

class O:
    __slots__ = ('id', 'kind', 'tag', 'ntags', 'f', 'name', 'gty', 'alias', 'neq', 'info', 'tags', 'nonnull', 'born')
    def __init__(s, id, kind, name, tag=None):
        s.id = id; s.kind = kind; s.name = name; s.tag = tag; s.ntags = set(); s.f = {}; s.gty = None; s.alias = None; s.neq = set(); s.info = {}; s.tags = None; s.nonnull = True; s.born = None
    def __repr__(s): return '<%s%s>' % (s.name, '' if s.tag is None else ':' + TAGNAME[s.tag])

class P:
    __slots__ = ('o', 'off', 'idx')
    def __init__(s, o, off, idx=()): s.o = o; s.off = off; s.idx = idx
    def __repr__(s): return '%r+%s%s' % (s.o, s.off, list(s.idx) if s.idx else '')
    def __eq__(s, t): return isinstance(t, P) and s.o is t.o and s.off == t.off and s.idx == t.idx
    def __hash__(s): return hash((id(s.o), s.off, s.idx))

class S:
    """symbolic integer / unknown scalar"""
    __slots__ = ('k', 'h')
    T = {}
    def __new__(cls, *k):
        # equal terms are the same object, so that comparing and hashing deep terms is cheap
        try: h = hash(k)
        except TypeError: h = None
        if h is not None:
            r = S.T.get(k)
            if r is not None: return r
        r = object.__new__(cls); r.k = k; r.h = h
        if h is not None:
            if len(S.T) > 100000: S.T.clear()
            S.T[k] = r
        return r
    def __eq__(s, t): return s is t or isinstance(t, S) and s.h == t.h and s.k == t.k
    def __hash__(s):
        if s.h is None: return hash(s.k)
        return s.h
    def __repr__(s): return 'S' + repr(s.k)

class Fn:
    __slots__ = ('name',)
    def __init__(s, n): s.name = n
    def __eq__(s, t): return isinstance(t, Fn) and s.name == t.name
    def __hash__(s): return hash(s.name)
    def __repr__(s): return '&' + s.name

class Str:
    __slots__ = ('b',)
    def __init__(s, b): s.b = b
    def __eq__(s, t): return isinstance(t, Str) and s.b == t.b
    def __hash__(s): return hash(s.b)
    def __repr__(s): return repr(s.b)

BITS = {'i1': 1, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64}
NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}

class Path:
    def __init__(s): s.ins = None; s.events = []; s.result = None; s.end = None; s.state = None

class Interp:
    MAXV = 3
    def __init__(s, mod, inline=None, hooks=None, maxpaths=20000, maxvisits=3, maxdepth=24):
        s.mod = mod; s.hooks = dict(BUILTIN); s.hooks.update(hooks or {}); s.inline = inline or (lambda n: False); s.maxpaths = maxpaths; s.MAXV = maxvisits; s.maxdepth = maxdepth
        s.on_load = s.on_store = s.on_call = None; s.grow = None; s.structs = mod.structs; s.cut = 0; s.paths = 0; s.reclimit = 3; s.gty_load = None; s.visited = set(); s.steps = 0
    # ---- choices
    def choose(s, n, why=None):
        if s.pos < len(s.script): c = s.script[s.pos][0]
        else: s.script.append([0, n]); c = 0
        s.pos += 1
        return c
    def run(s, setup, maxpaths=None):
        """setup(interp) -> result value; called once per path.  Yields Path objects"""
        s.script = []; n = 0
        while True:
            s.pos = 0; s.nid = 0; s.special = {}; s.facts = {}; s.events = []; s.stack = []; s.calls = 0; s.last = None; s.globmem = {}
            p = Path(); p.end = 'return'
            try: p.result = setup(s)
            except Cut: p.end = 'cut'; s.cut += 1
            except Done as d: p.end = d.why; p.result = d.args_; p.ins = d.ins
            p.events = s.events; p.facts = s.facts; p.special = s.special
            n += 1; s.paths += 1
            if p.end != 'cut': yield p
            while s.script and s.script[-1][0] + 1 >= s.script[-1][1]: s.script.pop()
            if not s.script: return
            s.script[-1][0] += 1
            if n > (maxpaths or s.maxpaths): raise ToolError('too many states in %s' % s.what)
    what = '?'
    # ---- objects
    def new(s, kind, name, tag=None):
        s.nid += 1
        o = O(s.nid, kind, name, tag); o.born = s.last; return o
    def sp(s, name):
        o = s.special.get(name)
        if o is None:
            o = s.special[name] = s.new('special', name)
            if name in SPECIALS: o.tag = SPECIAL
            elif name.endswith('_symbol'): o.tag = SYMBOL
            elif name == 'minim_base_rtd': o.tag = RECORD; o.f[8] = o
            elif name == 'minim_empty_vec': o.tag = VECTOR; o.f[8] = 0
            else: o.kind = 'in'
        return o
    def res(s, v):
        while isinstance(v, O) and v.alias is not None: v = v.alias
        if isinstance(v, P):
            o = s.res(v.o)
            if v.off == 0 and not v.idx: return o
            if o is not v.o: return P(o, v.off, v.idx)
        return v
    def cons(s, a, d):
        o = s.new('new', 'pair', PAIR); o.f[8] = a; o.f[16] = d; return o
    def fix(s, v):
        o = s.new('new', 'fixnum', FIXNUM); o.f[8] = v; return o
    # ---- tags
    def possible(s, o):
        if o.tag is not None: return {o.tag}
        return (o.tags if o.tags is not None else set(range(17))) - o.ntags
    def tag_is(s, o, k):
        o = s.res(o)
        ps = s.possible(o)
        if k not in ps: return False
        if len(ps) == 1: return True
        if s.choose(2, ('tag', o, k)) == 0: s.set_tag(o, k); return True
        o.ntags.add(k)
        ps.discard(k)
        if len(ps) == 1: s.set_tag(o, next(iter(ps)))
        return False
    def set_tag(s, o, k):
        o.tag = k
        if s.grow: s.grow(s, o)
    def same(s, a, b):
        """are these two references the same object?"""
        a = s.res(a); b = s.res(b)
        if isinstance(a, P) or isinstance(b, P):
            x, y = (P(a, 0) if isinstance(a, O) else a), (P(b, 0) if isinstance(b, O) else b)
            if isinstance(x, P) and isinstance(y, P) and x.o is y.o and not x.idx and not y.idx: return x.off == y.off
            if isinstance(a, P) and isinstance(b, P) and a.o is b.o and a.idx == b.idx: return a.off == b.off
            if a == b: return True
            if (isinstance(a, int) and a == 0) or (isinstance(b, int) and b == 0): return False
            return s.fact(('eq', a, b))
        if a is b: return True
        if isinstance(a, int) and isinstance(b, int): return a == b
        if isinstance(b, O) and not isinstance(a, O): a, b = b, a
        if isinstance(a, O) and isinstance(b, int):
            if b == 0:
                if a.nonnull: return False
                if s.choose(2, ('null', a)) == 0: a.alias = 0; return True
                a.nonnull = True; return False
            return s.fact(('eq', a, b))
        if isinstance(a, O) and isinstance(b, O):
            if a.kind in ('special', 'new', 'stack') and b.kind in ('special', 'new', 'stack'): return False
            if a.kind in ('special', 'new'): a, b = b, a
            # a is an input
            if b.kind == 'special':
                if b in a.neq: return False
                if b.tag is not None and b.tag not in s.possible(a): return False
                only = a.gty.get('only') if a.gty else None
                if only is not None and b.name not in only: return False
                if a.gty and 'notin' in a.gty and b.name in a.gty['notin']: return False
                if a.tag == SPECIAL and only is not None and all(n == b.name or any(x.name == n for x in a.neq) for n in only):
                    a.alias = b; return True        # nothing else is left
                if s.choose(2, ('same', a, b)) == 0:
                    if s.on_same: s.on_same(s, a, b)
                    a.alias = b; return True
                a.neq.add(b)
                if all(any(x.name == n for x in a.neq) for n in (only if only is not None else SPECIALS) if n in SPECIALS):
                    a.ntags.add(SPECIAL); ps = s.possible(a)
                    if len(ps) == 1: s.set_tag(a, next(iter(ps)))
                return False
            if b.kind == 'new': return False
            if not (s.possible(a) & s.possible(b)): return False
            k = ('same', min(a.id, b.id), max(a.id, b.id))
            if k in s.facts: return s.facts[k]
            r = s.choose(2, k) == 0; s.facts[k] = r
            return r
        return s.fact(('eq', a, b))
    on_same = None
    def fact(s, k):
        if k in s.facts: return s.facts[k]
        r = s.choose(2, k) == 0
        s.facts[k] = r
        return r
    # ---- integer comparison
    def cmp(s, pred, a, b, ty):
        a = s.res(a); b = s.res(b)
        if s.bits:
            r = s.bits.cmp(pred, a, b, ty)
            if r is not None: return r
        if isinstance(a, int) and isinstance(b, int):
            if ty in BITS:
                m = (1 << BITS[ty])
                if pred[0] == 'u': a %= m; b %= m
                else:
                    a = (a + m // 2) % m - m // 2; b = (b + m // 2) % m - m // 2
            return {'eq': a == b, 'ne': a != b, 'slt': a < b, 'ult': a < b, 'sle': a <= b, 'ule': a <= b, 'sgt': a > b, 'ugt': a > b, 'sge': a >= b, 'uge': a >= b}[pred]
        if isinstance(a, int): a, b = b, a; pred = SWAP[pred]
        if isinstance(a, S) and a.k[0] == 'tag' and isinstance(b, int):
            if pred == 'eq': return s.tag_is(a.k[1], b)
            if pred == 'ne': return not s.tag_is(a.k[1], b)
        if isinstance(a, S) and a.k[0] == 'tag' and isinstance(b, S) and b.k[0] == 'tag' and pred in ('eq', 'ne'):
            x, y = s.res(a.k[1]), s.res(b.k[1])
            r = None
            if x is y: r = True
            elif not (s.possible(x) & s.possible(y)): r = False
            else:
                # split on the tag of x, so that the relation is exact
                ps = sorted(s.possible(x)); 
                if len(ps) > 1:
                    k = ps[s.choose(len(ps), ('tagof', x))]; s.set_tag(x, k)
                r = s.tag_is(y, x.tag)
            return r if pred == 'eq' else not r
        if isinstance(a, (O, P)) or isinstance(b, (O, P)):
            if pred == 'eq': return s.same(a, b)
            if pred == 'ne': return not s.same(a, b)
            if isinstance(a, P) and isinstance(b, P) and a.o is b.o and not a.idx and not b.idx: return s.cmp(pred, a.off, b.off, ty)
        if isinstance(a, S) and isinstance(b, int) and a.k[0] in ('bool', 'notb', 'cmp'):
            if pred in ('eq', 'ne') and b in (0, 1):
                r = s.truth(a)
                return (r == bool(b)) if pred == 'eq' else (r != bool(b))
        if pred in ('eq', 'ne') and isinstance(a, S) and isinstance(b, S) and a.k[0] in ('cmp', 'notb') and b.k[0] in ('cmp', 'notb'):
            return (s.truth(a) == s.truth(b)) == (pred == 'eq')
        if isinstance(a, (Str, Fn)) or isinstance(b, (Str, Fn)):
            if pred in ('eq', 'ne') and (b == 0 or type(a) is type(b)):
                r = a == b; return r if pred == 'eq' else not r
        return s.intcmp(pred, a, b)
    def intcmp(s, pred, a, b):
        if a == b: return pred in ('eq', 'sle', 'sge', 'ule', 'uge')
        if isinstance(a, S) and isinstance(b, int):
            lo, hi, ne = s.facts.get(('rng', a), (None, None, frozenset()))
            def sat(p, v):
                """True/False if the range decides, None otherwise; unsigned treated as signed on known ranges"""
                if p == 'eq': return False if (lo is not None and v < lo) or (hi is not None and v > hi) or v in ne else (True if lo == hi == v else None)
                if p == 'slt': return True if hi is not None and hi < v else (False if lo is not None and lo >= v else None)
                if p == 'sgt': return True if lo is not None and lo > v else (False if hi is not None and hi <= v else None)
            p = pred; v = b; neg = False
            if p[0] == 'u' :
                if lo is not None and lo >= 0 and v >= 0: p = 's' + p[1:]
            if p == 'ult' and v == 0: return False
            if p == 'uge' and v == 0: return True
            if p == 'ugt' and v == 0: p = 'ne'
            if p == 'ule' and v == 0: p = 'eq'
            if p == 'ult' and v == 1: p = 'eq'; v = 0
            if p == 'uge' and v == 1: p = 'ne'; v = 0
            if p in ('ne', 'sge', 'sle'): p = NEG[p]; neg = True
            if p in ('eq', 'slt', 'sgt'):
                r = sat(p, v)
                if r is None:
                    r = s.choose(2, (p, a, v)) == 0
                    if p == 'eq':
                        if r: lo = hi = v
                        else:
                            ne = ne | {v}
                            if lo == v: lo = v + 1
                            if hi == v: hi = v - 1
                    elif p == 'slt':
                        if r: hi = v - 1 if hi is None else min(hi, v - 1)
                        else: lo = v if lo is None else max(lo, v)
                    elif p == 'sgt':
                        if r: lo = v + 1 if lo is None else max(lo, v + 1)
                        else: hi = v if hi is None else min(hi, v)
                    s.facts[('rng', a)] = (lo, hi, ne)
                return (not r) if neg else r
        k = (pred, a, b)
        if k in s.facts: return s.facts[k]
        if (NEG[pred], a, b) in s.facts: return not s.facts[(NEG[pred], a, b)]
        if (SWAP[pred], b, a) in s.facts: return s.facts[(SWAP[pred], b, a)]
        if (NEG[SWAP[pred]], b, a) in s.facts: return not s.facts[(NEG[SWAP[pred]], b, a)]
        r = s.choose(2, k) == 0; s.facts[k] = r
        return r
    def truth(s, v):
        v = s.res(v)
        if isinstance(v, bool): return v
        if isinstance(v, int): return v != 0
        if isinstance(v, S) and v.k[0] == 'cmp': return s.cmp(v.k[1], v.k[2], v.k[3], v.k[4])
        if isinstance(v, S) and v.k[0] == 'notb': return not s.truth(v.k[1])
        if isinstance(v, S) and v.k[0] in ('xor', 'and', 'or') and all(isinstance(x, S) and x.k[0] in ('cmp', 'notb') for x in v.k[1:]):
            a, b = s.truth(v.k[1]), s.truth(v.k[2]); return a != b if v.k[0] == 'xor' else a and b if v.k[0] == 'and' else a or b
        if isinstance(v, (O, P, Str, Fn)): return not s.same(v, 0) if isinstance(v, (O, P)) else True
        return s.fact(('true', v))
    # ---- memory
    def load(s, ptr, ty, ins):
        if isinstance(ptr, O): ptr = P(ptr, 0)
        if isinstance(ptr, Str) and ty == 'i8': return ptr.b[0] if ptr.b else 0
        if not isinstance(ptr, P): 
            if s.on_badptr: s.on_badptr(s, ptr, ins, 'load')
            return s.fresh(ty, 'load', ins)
        o = s.res(ptr.o)
        if s.on_load: s.on_load(s, o, ptr.off, ptr.idx, ty, ins)
        if isinstance(o, (int, S, Str, Fn)): return s.fresh(ty, 'load', ins)
        if not ptr.idx:
            k = ptr.off
            if k in o.f:
                return o.f[k]
            if k == 0 and ty == 'i8' and o.kind != 'stack': return o.tag if o.tag is not None else S('tag', o)
        else: k = ('i', ptr.off, ptr.idx)
        if k in o.f: return o.f[k]
        v = None
        if s.gty_load: v = s.gty_load(s, o, k, ty, ins)
        if v is None:
            if ty == 'ptr': v = s.new('in', '%s.%s' % (o.name, k if isinstance(k, int) else '[i]')); v.nonnull = False if o.gty is None else True; v.info['of'] = (o, k)
            else: v = S('ld', o, k, o.info.get('ver', 0))
        o.f[k] = v
        return v
    on_badptr = None; tailloop = None; stop_at = None; on_enter = None
    def store(s, ptr, v, ty, ins):
        if isinstance(ptr, O): ptr = P(ptr, 0)
        if not isinstance(ptr, P):
            if s.on_badptr: s.on_badptr(s, ptr, ins, 'store')
            return
        o = s.res(ptr.o)
        if s.on_store: s.on_store(s, o, ptr.off, ptr.idx, v, ty, ins)
        if not isinstance(o, O): return
        if ptr.idx:
            for k in [k for k in o.f if isinstance(k, tuple)]: del o.f[k]
            o.f[('i', ptr.off, ptr.idx)] = v
        else:
            for k in [k for k in o.f if isinstance(k, tuple)]: del o.f[k]
            if ptr.off == 0 and ty == 'i8' and isinstance(v, int): o.tag = v & 255
            o.f[ptr.off] = v
    def fresh(s, ty, why, ins):
        s.calls += 1
        if ty == 'ptr':
            o = s.new('in', '%s#%d' % (why, s.calls)); o.nonnull = False; return o
        if ty == 'void' or ty is None: return None
        return S(why, s.calls)
    # ---- evaluation
    def glob(s, g):
        n = g[1:]
        if g in s.mod.strings: return Str(s.mod.strings[g])
        if n in s.mod.funcs: return Fn(n)
        o = s.special.get('&' + n)
        if o is None:
            o = s.special['&' + n] = s.new('stack', '&' + n); o.kind = 'glob'
        return o
    def val(s, env, v):
        if isinstance(v, int): return v
        if isinstance(v, str):
            if v[0] == '%': return env[v]
            return s.glob(v)
        if isinstance(v, tuple):
            if v[0] == 'gepc':
                if v[1] in s.mod.strings: return Str(s.mod.strings[v[1]])
                g = s.special.get('&' + v[1][1:]) if isinstance(v[1], str) and v[1][:1] == '@' else None
                if g is not None and g.kind != 'glob':
                    a = ir.split_args(re.match(r'^getelementptr (?:inbounds )?\((.*)\)$', v[2]).group(1)); ty = a[0]; ix = [int(x.split()[-1]) for x in a[2:]]
                    off = ix[0] * s.sizeof(ty)
                    for i in ix[1:]:
                        m = re.match(r'\[(\d+) x (.*)\]$', ty)
                        if not m: return S('gepc', v[2])
                        ty = m.group(2); off += i * s.sizeof(ty)
                    return P(g, off) if off else g
                return S('gepc', v[2])
            return S(*v)
        return v
    def call(s, name, args, ins=None):
        """abstract call of a function by name"""
        s.last = ins
        if s.on_call:
            r = s.on_call(s, name, args, ins)
            if r is not None: return r[0]
        h = s.hooks.get(name)
        if h is not None:
            return h(s, args, ins)
        f = s.mod.funcs.get(name)
        if f is not None and not f.decl and s.inline(name) and len(s.stack) < s.maxdepth and s.stack.count(name) <= s.reclimit:
            return s.exec(f, args)
        s.events.append(('call', name, args, ins))
        if f is not None and f.noreturn: raise Done('noreturn', (name, args), ins)
        ty = f.ret if f is not None else (ins.ty if ins is not None else 'ptr')
        r = s.fresh(ty, name, ins)
        if isinstance(r, O): r.info['call'] = (name, args)
        return r
    def exec(s, f, args):
        s.stack.append(f.name)
        try: return s._exec(f, args)
        finally: s.stack.pop()
    def _exec(s, f, args):
        env = {}
        for p, a in zip(f.params, args): env[p] = a
        for p in f.params[len(args):]: env[p] = S('noarg', p)
        b = f.blocks[0]; prev = None; visits = {}
        while True:
            if s.free_visits and b.name in visits and visits.get((b.name, 'pos')) == s.pos and visits[(b.name, 'n')] < 300: visits[(b.name, 'n')] += 1      # nothing was left open since the last visit
            else:
                visits[b.name] = visits.get(b.name, 0) + 1
                if s.free_visits: visits[(b.name, 'pos')] = s.pos; visits.setdefault((b.name, 'n'), 0)
            if s.stop_at == (f.name, b.name):
                if visits[b.name] > 1: raise Done('stop', (f, env, prev, b), None)
                if s.on_enter: s.on_enter(s)
            if visits[b.name] > s.MAXV: s.overrun = (f.name, ins.line if b.instrs and (ins := b.instrs[-1]) else f.line); raise Cut()
            s.visited.add((f.name, b.name))
            phis = []
            nxt = None
            if prev is not None and s.tailloop and visits[b.name] > 1 and s.tailloop(f, b):
                # a loop around the whole body is a call of the function with new arguments
                a2 = list(f.params); 
                for ins in b.instrs:
                    if ins.op != 'phi': break
                    vs = {n: v for v, n in ins.x}
                    for k, q in enumerate(f.params):
                        if q in vs.values(): a2[k] = s.val(env, vs[prev])
                return s.call(f.name, [s.val(env, x) if isinstance(x, str) else x for x in a2], None)
            for ins in b.instrs:
                s.last = ins
                op = ins.op
                if op == 'phi':
                    for v, n in ins.x:
                        if n == prev: phis.append((ins.res, s.val(env, v))); break
                    continue
                if phis:
                    for r, v in phis: env[r] = v
                    phis = []
                if op == 'load':
                    p = s.val(env, ins.ops[0])
                    if isinstance(p, O) and p.kind == 'glob' and not p.f.get(0):
                        n = p.name[1:]
                        if 0 in p.f: env[ins.res] = p.f[0]
                        elif ins.ty == 'ptr': env[ins.res] = s.globmem[n] if n in s.globmem else s.sp(n)
                        else: env[ins.res] = s.globmem.setdefault(n, S('glob', n))
                    else: env[ins.res] = s.load(p, ins.ty, ins)
                elif op == 'store':
                    p = s.val(env, ins.ops[1]); v = s.val(env, ins.ops[0])
                    if isinstance(p, O) and p.kind == 'glob':
                        s.globmem[p.name[1:]] = v; s.events.append(('gstore', p.name[1:], v, ins))
                    else: s.store(p, v, ins.ty, ins)
                elif op == 'getelementptr': env[ins.res] = s.gep(env, ins)
                elif op == 'icmp':
                    a = s.val(env, ins.ops[0]); c = s.val(env, ins.ops[1])
                    if isinstance(a, int) and isinstance(c, int): env[ins.res] = int(s.cmp(ins.x, a, c, ins.ty))
                    else: env[ins.res] = S('cmp', ins.x, a, c, ins.ty)
                elif op == 'br':
                    if ins.ops:
                        t = s.truth(s.val(env, ins.ops[0])); nxt = ins.dest[0 if t else 1]
                    else: nxt = ins.dest[0]
                elif op == 'switch':
                    v = s.val(env, ins.ops[0]); nxt = ins.dest[0]
                    for k, d in zip(ins.x, ins.dest[1:]):
                        if s.cmp('eq', v, k, 'i32'): nxt = d; break
                elif op == 'ret':
                    return s.val(env, ins.ops[0]) if ins.ops else None
                elif op == 'call':
                    if ins.x == 'asm': env[ins.res] = S('asm', ins.line); continue
                    args2 = [s.val(env, o) for o in ins.ops]
                    if ins.x.startswith('@'): r = s.call(ins.x[1:], args2, ins)
                    else:
                        t = s.val(env, ins.x)
                        if isinstance(t, Fn): r = s.call(t.name, args2, ins)
                        else:
                            r = None
                            if s.on_call: r = s.on_call(s, None, args2, ins)
                            if r is not None: r = r[0]
                            else:
                                s.events.append(('icall', t, args2, ins)); r = s.fresh(ins.ty, 'icall', ins)
                    if ins.res: env[ins.res] = r
                    s.last = ins
                    if ins.dest is True: raise Done('noreturn', (ins.x[1:], args2), ins)
                elif op == 'select':
                    c = s.truth(s.val(env, ins.ops[0])); env[ins.res] = s.val(env, ins.ops[1 if c else 2])
                elif op in ('ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'zext', 'sext', 'trunc'):
                    v = s.val(env, ins.ops[0])
                    if s.bits and isinstance(v, S) and op in ('zext', 'sext', 'trunc'): env[ins.res] = s.bits.cast(op, v, ins.x, ins.ty); continue
                    if isinstance(v, int) and ins.ty in BITS and ins.x in BITS:
                        w = BITS[ins.x]
                        if op == 'zext': v %= 1 << w
                        elif op == 'sext': v = (v + (1 << w - 1)) % (1 << w) - (1 << w - 1)
                        elif op == 'trunc':
                            w = BITS[ins.ty]; v = (v + (1 << w - 1)) % (1 << w) - (1 << w - 1) if w > 1 else v & 1
                    elif op == 'trunc' and ins.ty == 'i16' and isinstance(v, S): v = S('low16', v)
                    env[ins.res] = v
                elif op == 'alloca':
                    o = s.new('stack', 'local'); env[ins.res] = o
                elif op == 'unreachable': raise Done('unreachable', (), ins)
                elif op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'sdiv', 'udiv', 'srem', 'urem'):
                    env[ins.res] = s.arith(op, s.val(env, ins.ops[0]), s.val(env, ins.ops[1]), ins.ty)
                else:
                    if ins.res: env[ins.res] = S(op, f.name, ins.res, tuple(s.val(env, o) if not isinstance(o, tuple) else o for o in ins.ops))
            if nxt is None: raise ToolError('block without terminator in %s' % f.name)
            prev = b.name; b = f.bmap[nxt]
    on_rem = None; bits = None; overrun = None; free_visits = False
    def arith(s, op, a, b, ty):
        r = s.arith1(op, a, b, ty)
        if s.bits and isinstance(r, S) and r.k[0] not in ('bits', 'cmp', 'notb') and ty in BITS: s.bits.width.setdefault(r, BITS[ty])
        return r
    def arith1(s, op, a, b, ty):
        a = s.res(a); b = s.res(b)
        if s.bits:
            r = s.bits.arith(op, a, b, ty)
            if r is not None: return r
        if s.on_rem and op in ('urem', 'srem') and isinstance(a, S) and isinstance(b, int):
            r = s.on_rem(s, a, b)
            if r is not None: return r
        if isinstance(a, int) and isinstance(b, int):
            w = BITS.get(ty, 64); m = 1 << w
            try:
                if op == 'add': r = a + b
                elif op == 'sub': r = a - b
                elif op == 'mul': r = a * b
                elif op == 'and': r = a & b
                elif op == 'or': r = a | b
                elif op == 'xor': r = a ^ b
                elif op == 'shl': r = a << b
                elif op == 'lshr': r = (a % m) >> b
                elif op == 'ashr': r = a >> b
                elif op in ('sdiv',): r = int(a / b)
                elif op == 'udiv': r = (a % m) // (b % m)
                elif op == 'urem': r = (a % m) % (b % m)
                else: r = a - b * int(a / b)
            except ZeroDivisionError: return S('div0')
            if ty == 'i1': return r & 1
            return (r + m // 2) % m - m // 2
        if op == 'xor' and ty == 'i1' and b == 1: return S('notb', a)
        if op in ('add', 'sub') and isinstance(a, O) and isinstance(b, int): return P(a, b if op == 'add' else -b)
        if op in ('add', 'sub') and isinstance(a, P) and isinstance(b, int): return P(a.o, a.off + (b if op == 'add' else -b), a.idx)
        if op == 'add' and isinstance(a, int): a, b = b, a
        if op == 'add' and isinstance(a, (O, P)) and isinstance(b, S):
            off = 0; sz = 1
            if b.k[0] == 'add' and isinstance(b.k[2], int): off = b.k[2]; b = b.k[1]
            if isinstance(b, S) and b.k[0] == 'mul' and isinstance(b.k[2], int): sz = b.k[2]; b = b.k[1]
            return s.padd(a, off, ((b, sz),))
        if op == 'sub' and isinstance(a, (O, P)) and isinstance(b, (O, P)):
            pa = a if isinstance(a, P) else P(a, 0); pb = b if isinstance(b, P) else P(b, 0)
            if pa.o is pb.o and pa.idx == pb.idx: return pa.off - pb.off
        if op in ('add', 'sub') and isinstance(b, int):
            if b == 0: return a
            c = b if op == 'add' else -b
            if isinstance(a, S) and a.k[0] == 'add' and isinstance(a.k[2], int): 
                c += a.k[2]
                return S('add', a.k[1], c) if c else a.k[1]
            return S('add', a, c)
        if op == 'mul' and isinstance(a, int): a, b = b, a
        if op in ('mul', 'sdiv', 'udiv') and b == 1: return a
        if op == 'shl' and isinstance(b, int) and 0 <= b < 32: op = 'mul'; b = 1 << b
        if op == 'mul' and isinstance(b, int) and isinstance(a, S):
            if b == 0: return 0
            if a.k[0] == 'add' and isinstance(a.k[2], int): return S('add', s.arith('mul', a.k[1], b, ty), a.k[2] * b)
            if a.k[0] == 'mul' and isinstance(a.k[2], int): return s.arith('mul', a.k[1], a.k[2] * b, ty)
        return S(op, a, b)
    def padd(s, p, off, idx):
        if isinstance(p, O): return P(p, off, tuple(idx))
        return P(p.o, p.off + off, tuple(sorted(p.idx + tuple(idx), key=repr)))
    def gep(s, env, ins):
        base = s.val(env, ins.ops[0]); off = 0; idx = []
        ty = ins.ty
        for n, o in enumerate(ins.ops[1:]):
            v = s.val(env, o)
            if n == 0: sz = s.sizeof(ty)
            else:
                if ty.startswith('%'):
                    fl = s.structs[ty]; k = v; o2 = 0
                    for j, t in enumerate(fl):
                        al = s.align(t); o2 = (o2 + al - 1) // al * al
                        if j == k: break
                        o2 += s.sizeof(t)
                    off += o2; ty = fl[k]; continue
                m = re.match(r'\[(\d+) x (.*)\]$', ty); ty = m.group(2); sz = s.sizeof(ty)
            if isinstance(v, int): off += v * sz
            else:
                if isinstance(v, S) and v.k[0] == 'add' and isinstance(v.k[2], int): off += v.k[2] * sz; v = v.k[1]
                if isinstance(v, S) and v.k[0] == 'mul' and isinstance(v.k[2], int): sz *= v.k[2]; v = v.k[1]
                idx.append((v, sz))
        base = s.res(base)
        if isinstance(base, (O, P)): return s.padd(base, off, idx) if (off or idx) else base
        if isinstance(base, Str) and not idx: return Str(base.b[off:]) if off >= 0 else base
        if isinstance(base, int) and not idx: return base + off
        return S('gep', base, off, tuple(idx))
    def sizeof(s, t):
        if t in ir.SZ: return ir.SZ[t]
        if t in ('double',): return 8
        m = re.match(r'\[(\d+) x (.*)\]$', t)
        if m: return int(m.group(1)) * s.sizeof(m.group(2))
        if t in s.structs:
            o = 0; mx = 1
            for x in s.structs[t]:
                al = s.align(x); mx = max(mx, al); o = (o + al - 1) // al * al + s.sizeof(x)
            return (o + mx - 1) // mx * mx
        raise ToolError('size of ' + t)
    def align(s, t):
        if t in ir.SZ: return ir.SZ[t]
        m = re.match(r'\[(\d+) x (.*)\]$', t)
        if m: return s.align(m.group(2))
        if t in s.structs: return max([s.align(x) for x in s.structs[t]] or [1])
        return 8

# ---------------------------------------------------------------- runtime constructors and list utilities
def b_cons(s, a, ins): return s.cons(a[0], a[1])
def b_fix(s, a, ins): return s.fix(a[0])
def elements(s, l):
    """elements of a list, materialised as far as the state knows it; [] , tail"""
    out = []; l = s.res(l)
    while isinstance(l, O) and l.tag == PAIR and 8 in l.f and 16 in l.f:
        out.append(l.f[8]); l = s.res(l.f[16])
    return out, l
def b_append2(s, a, ins):
    xs, t = elements(s, a[0]); r = a[1]
    if t is not s.sp('minim_null'):
        o = s.new('in', 'append'); o.info['call'] = ('list_append2', a); o.info['parts'] = a; return o
    for x in reversed(xs): r = s.cons(x, r)
    return r
def b_set_tail(s, a, ins):
    l = s.res(a[0]); last = None
    while isinstance(l, O) and l.tag == PAIR and 16 in l.f: last = l; l = s.res(l.f[16])
    if last is None:
        s.events.append(('badtail', a, ins)); raise Done('noreturn', ('list_set_tail on empty', a), ins)
    last.f[16] = a[1]
def b_reverse(s, a, ins):
    xs, t = elements(s, a[0])
    if t is not s.sp('minim_null'):
        o = s.new('in', 'reverse'); o.info['call'] = ('list_reverse', a); return o
    r = t
    for x in xs: r = s.cons(x, r)
    return r
def b_length(s, a, ins):
    xs, t = elements(s, a[0])
    if t is s.sp('minim_null'): return len(xs)
    return s.arith('add', S('len', t), len(xs), 'i64')
def b_galloc(s, a, ins):
    o = s.new('new', 'alloc'); o.info['size'] = a[0]; return o
def b_sym(s, a, ins): return s.new('new', 'gensym', SYMBOL)
def b_str(s, a, ins): return s.new('new', 'string', STRING)
BUILTIN = {'Mgensym': b_sym, 'Msymbol': b_sym, 'Mstring': b_str, 'Mstring2': b_str, 'Mcons': b_cons, 'Mfixnum': b_fix, 'list_append2': b_append2, 'list_set_tail': b_set_tail, 'list_reverse': b_reverse, 'list_length': b_length,
           'GC_alloc': b_galloc, 'GC_alloc_atomic': b_galloc, 'GC_malloc': b_galloc, 'GC_malloc_atomic': b_galloc}

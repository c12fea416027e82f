"""Rules over the abstract interpretation of the Minim-level runtime (prelude.min)."""
import time
from collections import OrderedDict
import ir
from mnm import *
import absint
from absint import *

PRELUDE = 'src/core/s/prelude.min'
T = {'any': A, 'pair': PAIR, 'list': LIST, 'fix': FIX, 'char': fs('char'), 'string': fs('string'), 'symbol': fs('symbol'),
     'vector': fs('vector'), 'box': fs('box'), 'proc': fs('proc'), 'in': INP, 'out': OUTP, 'outs': fs('ops'), 'rtd': fs('rtd'),
     'rtd?': fs('rtd', 'false'), 'sym?': fs('symbol', 'false'), 'rec': fs('rec'), 'raw': fs('rawht'), 'env': fs('env'), 'stx': fs('stx')}
# what each unchecked primitive requires of its arguments
PRE = {}
def pre(spec):
    for ln in spec.strip().splitlines():
        w = ln.split()
        PRE[w[0]] = [T[x] for x in w[1:]]
pre('''
$char->integer char
$integer->char fix
$set-car! pair any
$set-cdr! pair any
$make-list fix any
$length list
$reverse list
$append2 list any
$make-vector fix any
$vector-length vector
$vector-ref vector fix
$vector-set! vector fix any
$vector-fill! vector any
$list->vector list
$vector->list vector
$fxneg fix
$fx2+ fix fix
$fx2- fix fix
$fx2* fix fix
$fx2/ fix fix
$fxremainder fix fix
$fxmodulo fix fix
$fx2= fix fix
$fx2> fix fix
$fx2< fix fix
$fx2>= fix fix
$fx2<= fix fix
$make-string fix char
$string-length string
$string-ref string fix
$string-set! string fix char
$number->string fix
$string->number string
$symbol->string symbol
$string->symbol string
$list->string list
$string->list string
$make-record-type-descriptor symbol rtd? sym? any any vector
$record-type-name rtd
$record-type-parent rtd
$record-type-uid rtd
$record-type-sealed? rtd
$record-type-opaque? rtd
$record-type-length rtd
$record-type-field-names rtd
$record-type-field-mutable? rtd fix
$make-record rtd list
$record-rtd rec
$record-ref rec fix
$record-set! rec fix any
$unbox box
$set-box! box any
$hashtable-copy raw
$hashtable-cells raw
$hashtable-size raw
$hashtable-size-set! raw fix
$hashtable-length raw
$hashtable-ref raw fix
$hashtable-set! raw fix any
$hashtable-clear! raw
$make-hashtable fix
$syntax-e stx
$syntax-loc stx
$syntax->datum stx
$syntax->list stx
$copy-environment env any list
$environment-symbols env
$environment-ref env symbol any
$environment-set! env symbol any
$current-environment-set! env
$procedure-arity proc
$procedure-name proc
$procedure-rename proc symbol
$open-input-file string
$open-output-file string
$open-input-string string
$close-input-port in
$close-output-port out
$get-output-string outs
$read in
$read-char in
$peek-char in
$char-ready? in
$put-char out char
$put-string out string fix fix
$flush-output-port out
$newline out
$fasl-read in
$fasl-write any out
$load string
$exit fix
$current-directory-set! string
$current-error-handler-set! proc
$default-record-equal-procedure-set! proc
$default-record-hash-procedure-set! proc
''')
# primitives that accept any value (checked in the C sources by the C-level rules)
ANYARG = set('cons box eq? $equal? eq-hash $equal-hash datum->syntax void identity values $c-error-handler $boot-error'.split())

def tname(ts):
    for k_, v in T.items():
        if v == ts: return k_
    return '/'.join(sorted(ts))

class Obl:
    __slots__ = ('ok', 'what', 'rec')
    def __init__(s, ok, what): s.ok = ok; s.what = what

def obligations(I, r):
    """proof obligations of one primitive call: list of (holds, description)"""
    name, args, st = r['name'], r['args'], r['st']
    if 'ok' in r: return [(r['ok'], r['why'])]
    out = []
    if name.startswith('$c') and name.endswith('r') and name != '$char->integer' and len(name) >= 4 and set(name[2:-1]) <= set('ad'):
        t = args[0]
        steps = list(reversed(name[2:-1]))
        for i, ch in enumerate(steps):
            path = 'c%sr of ' % ''.join(reversed(steps[:i])) if i else ''
            out.append((I.types(st, t) <= PAIR, '%sargument must be a pair' % path))
            t = I.mk('$c%sr' % ch, [t])
        return out
    p = PRE.get(name)
    if p is None: return None
    for i, (a, ts) in enumerate(zip(args, p)):
        if ts == A: continue
        out.append((I.types(st, a) <= ts, 'argument %d must be %s' % (i + 1, tname(ts))))
    def ge0(i): out.append((I.ge0(st, args[i]), 'argument %d must be >= 0' % (i + 1)))
    def lt(i, t, what): out.append((I.lt(st, args[i], t), 'argument %d must be < %s' % (i + 1, what)))
    if name in ('$vector-ref', '$vector-set!'): ge0(1); lt(1, I.mk('$vector-length', [args[0]]), 'length of the vector')
    elif name in ('$string-ref', '$string-set!'): ge0(1); lt(1, I.mk('$string-length', [args[0]]), 'length of the string')
    elif name in ('$make-list', '$make-vector', '$make-string', '$make-hashtable'): ge0(0)
    elif name in ('$fx2/', '$fxremainder', '$fxmodulo'):
        d = args[1]
        nz = d[0] == 'k' and d[2] != 0 or any({p_, q_} == {d, k('fix', 0)} for p_, q_ in st.neq) \
            or I.prove(st, I.sub(k('fix', 1), d)) or I.prove(st, I.sub(d, k('fix', -1)))
        out.append((nz, 'divisor must not be 0'))
    elif name == '$put-string':
        ge0(2)
        ge0(3) if False else None
        s = ('ap', '$fx2+', args[2], args[3])
        out.append((I.le(st, s, I.mk('$string-length', [args[1]])), 'start + count must be within the string'))
    elif name == '$record-type-field-mutable?': ge0(1); lt(1, ('ap', '$record-type-length', args[0]), 'number of fields')
    elif name in ('$hashtable-ref', '$hashtable-set!'): out.append((True, 'bucket index is reduced modulo the bucket count in C'))
    elif name in ('$record-ref', '$record-set!'): out += recref(I, st, args)
    elif name == '$make-record':
        out.append((makerec(I, st, args), 'number of field values must equal the number of fields of the record type'))
    elif name == '$list->string':
        e = I.elem(st, args[0]); out.append((e is not None and e[0] <= fs('char'), 'every element must be a character'))
    return out

def size_loops(I, st):
    """loop results that add up the sizes of a record type and all its ancestors: {result term: (start rtd, initial sum, exact?)}"""
    out = {}
    for e in st.events():
        if e[0] != 'loop': continue
        _, pos, params, argv, calls, v = e
        if not any(a[0] != 'vals' and ('$record-type-length' in str(v) or I.types(st, a) <= fs('rtd', 'false')) for a in argv): continue
        ri = [i for i in range(len(argv)) if I.types(st, argv[i]) <= fs('rtd', 'false') or (calls and all(c[0][i] == ('ap', '$record-type-parent', params[i]) for c in calls))]
        if len(ri) != 1: continue
        ri = ri[0]; r = params[ri]
        if not all(c[0][ri] == ('ap', '$record-type-parent', r) for c in calls): continue
        for si in range(len(argv)):
            if si == ri or argv[si][:2] != ('k', 'fix'): continue
            s = params[si]; ln = ('ap', '$record-type-length', r)
            if not all(I.sub(c[0][si], ('ap', '$fx2+', s, ln)) == ({}, 0) for c in calls): continue
            d = I.sub(v, s)
            full = d == ({ln: 1}, 0) and I.types(st, ('ap', '$record-type-parent', r)) <= fs('false')
            full = full or (d == ({}, 0) and I.types(st, r) <= fs('false'))
            out[v] = (argv[ri], argv[si][2], full)
    return out

def recref(I, st, args):
    """the field index must be within the part of the record that belongs to a type the record is known to have"""
    rec, idx = args[0], args[1]
    out = []
    rs = [x[0] for x in st.isa if len(x) == 2 and x[1] == rec]
    out.append((bool(rs), 'record must be known to be an instance of the record type'))
    if not rs: return out
    loops = size_loops(I, st)
    good = False
    for R in rs:
        own = ('ap', '$record-type-length', R); par = ('ap', '$record-type-parent', R)
        cands = [t for t, c in I.lin(idx)[0].items() if c == 1] + [idx]
        for t in cands:
            if not (I.ge0(st, t) and I.lt(st, t, own)): continue
            rest = I.sub(idx, t)
            if rest == ({}, 0): good = good or I.types(st, par) <= fs('false')
            else:
                exact = [(v, w) for v, w in loops.items() if I.sub(idx, ('ap', '$fx2+', t, v)) == ({}, 0)]
                if exact: good = good or any(w == (par, 0, True) for v, w in exact)
                elif len(rest[0]) == 1 and rest[1] == 0: good = good or any(par in I.deps(v) for v in rest[0])
    out.append((good, 'index must be >= 0 and < the number of own fields, offset by the size of the parent type'))
    return out

def makerec(I, st, args):
    rtd, fields = args
    n = I.mk('$length', [fields])
    for v, w in size_loops(I, st).items():
        if w == (rtd, 0, True) and I.le(st, n, v) and I.le(st, v, n): return True
        if I.le(st, n, v) and I.le(st, v, n): return False
    # equated with some other quantity computed from the record type
    for f, c in st.lin:
        d = dict(f)
        if n in d and any(rtd in I.deps(v) for v in d if v != n and v[0] == 'x'): return True
    return False

class Run: pass
def scope_of(pt):
    sc = keyword_scope(CORE)
    for p in pt: sc.bind(p['name'], Var(p['name'], 'prim', None))
    return sc

def lexnames(tab, prog):
    """id of every lambda -> names of the top-level definition it is written in"""
    def f(d, names):
        def g(e):
            if isinstance(e, Lam): tab.setdefault(id(e), set()).update(names)
        walk(d, g)
    for d in prog:
        for x in (d.es if isinstance(d, Seq) else [d]):
            if isinstance(x, DefV): f(x, [v.name for v in x.vars])

def run_prelude():
    """analyse every global procedure of the prelude; returns the interpreter with its log"""
    R = Run()
    R.mod = ir.core(); R.pt = ir.prim_table(R.mod)
    sc = scope_of(R.pt)
    sc.bind('call-with-values', Var('call-with-values', 'prim', None))
    R.ex = Expander(PRELUDE, sc)
    R.prog = R.ex.program(read_file(ir.REPO + '/' + PRELUDE, PRELUDE))
    I = R.I = Interp(); I.prim_arity = {p['name']: p['arity'] for p in R.pt}
    I.load(R.prog)
    R.loadlog = list(I.log); I.log.clear()
    R.lexname = {}; lexnames(R.lexname, R.prog)
    R.entries = OrderedDict(); R.budget = []
    for v, val in I.globals.items():
        if val[0] != 'clo': continue
        c = I.clos[val[1]]
        if c.id in R.entries: continue
        I.budget = I.steps + 1500000; I.escaped = {}; I.frames = []; I.owner = []
        mark = len(I.log)
        try:
            res = I.entry(c, State())
            I.owner = [c]
            for _, _, _, outs in res:
                for s_, v_ in outs: I.escape(v_, s_, c.lam.pos)
            I.owner = []
        except Budget: R.budget.append(v.name); res = None
        R.entries[c.id] = (c, v.name, res, mark, len(I.log))
    return R

LIBC03 = ['src/library/private/%s.min' % x for x in 'list set string path record generics enum sort promise'.split()]
def run_library(R, files=LIBC03, steps=40000):
    """analyse every exported procedure of the given library modules on top of the prelude"""
    import library
    base = {n: v for n, v in R.ex.top.tab.items() if isinstance(v, Var)}
    Lb = R.lib = library.Library(base)
    I = R.I; I.log.clear(); known = set(I.globals)
    for m in Lb.mods.values(): I.load(m.prog, 3000); lexnames(R.lexname, m.prog)
    I.log.clear()
    R.lentries = OrderedDict(); R.lbudget = []
    exp = set()
    for f in files:
        if f not in Lb.mods: raise FileNotFoundError(f)
        exp |= {b for b in Lb.mods[f].tab.values() if isinstance(b, Var)}
    for v, val in list(I.globals.items()):
        if v in known or v not in exp or val[0] != 'clo': continue
        c = I.clos[val[1]]
        if c.id in R.lentries: continue
        I.budget = I.steps + steps; I.escaped = {}; I.frames = []; I.owner = []
        try:
            res = I.entry(c, State()); I.owner = [c]
            for _, _, _, outs in res:
                for s_, v_ in outs: I.escape(v_, s_, c.lam.pos)
        except (Budget, NeedLoop): R.lbudget.append(v.name); res = None
        R.lentries[c.id] = (c, v.name, res)
    I.owner = []; I.frames = []
    return R

def owner_name(r):
    return r['owner'][-1].names[0] if r['owner'] and r['owner'][-1].names else '<top level>'

def c01(R):
    """-> list of (ok, owner, prim, what, pos)"""
    res = OrderedDict(); unknown = set()
    for r in R.I.log:
        if r['kind'] != 'prim': continue
        o = obligations(R.I, r)
        if o is None:
            if r['name'] not in ANYARG and r['args']: unknown.add(r['name'])
            continue
        for ok, what in o:
            key = (owner_name(r), r['name'], what, r['pos'])
            res[key] = res.get(key, True) and ok
    return res, unknown

def c01_sites(R):
    """positions of all primitive applications in the source, and those the analysis reached"""
    sites = {}
    def f(e):
        if isinstance(e, App) and isinstance(e.f, Ref) and e.f.var.kind == 'prim' and (e.f.var.name in PRE or e.f.var.name[:2] == '$c' and e.f.var.name.endswith('r')):
            sites[(e.f.var.name, e.pos)] = 1
    for x in R.prog: walk(x, f)
    seen = {(r['name'], r['pos']) for r in R.I.log if r['kind'] == 'prim'}
    return sites, seen

# ------------------------------------------------------------------ C03
EXPECT = {'pair?': PAIR, 'null?': fs('null'), 'list?': LIST, 'integer?': FIX, 'number?': FIX, 'fixnum?': FIX, 'char?': fs('char'), 'string?': fs('string'),
          'symbol?': fs('symbol'), 'vector?': fs('vector'), 'box?': fs('box'), 'procedure?': fs('proc'), 'input-port?': INP, 'output-port?': OUTP,
          'string-port?': fs('ips', 'ops'), 'boolean?': BOOL, 'environment?': fs('env'), 'record-type-descriptor?': fs('rtd'), 'record-type-name?': fs('rtd'),
          'syntax?': fs('stx'), '#f': fs('false'), 'string': fs('string'), 'syntax': fs('stx')}
def expected_types(text):
    """(type set, lower bound) of a contract written as text, or None"""
    t = text.strip()
    if t in ('non-negative-integer?', 'non-negative integer?', 'non-negative-fixnum?'): return FIX, 0
    if t.startswith('(and ') and t.endswith(')'):
        ts = A
        for w in t[5:-1].split():
            if w not in EXPECT: return None
            ts &= EXPECT[w]
        return ts, None
    ts = frozenset()
    for w in t.replace(', ', ' or ').split(' or '):
        w = w.strip()
        if w not in EXPECT: return None
        ts |= EXPECT[w]
    return ts, None

def names_of(c): return set(c.names)
def who_ok(R, I, r, who):
    """-> (ok, shown)"""
    if who == FALSE: return True
    own = r['owner']
    if who[:2] == ('k', 'symbol'):
        if not own or any(who[2] in c.names for c in own): return True
        return any(who[2] in R.lexname.get(id(l), ()) for l in r.get('lams', ()))
    if who[0] == 'ap' and who[1] == '$procedure-name': return True
    if who[0] == 'x': return True              # handed in by the caller
    return False

def mentions_tested(I, st, v):
    for p, t, val in st.testlist():
        if t == v or v in I.deps(t): return True
        if isinstance(p, tuple) and p[0] in ('cmp', 'eq'):
            if any(x == v or v in I.deps(x) for x in p[1:] if isinstance(x, tuple)): return True
    return False

def c03(R):
    """-> {key: ok}: one entry per (procedure, raise site, requirement)"""
    I = R.I; res = OrderedDict()
    def put(r, what, ok, detail=''):
        key = (owner_name(r), r['name'], what, r['pos'])
        if key not in res: res[key] = [True, detail]
        if not ok: res[key] = [False, detail]
    for r in I.log:
        if r['kind'] != 'raise' or r.get('tail') is not None and r['name'] != 'errorf': continue
        nm, a, st = r['name'], r['args'], r['st']
        if nm in ('$exit', '$boot-error', 'raise'): continue
        if nm == 'raise-syntax-error': continue
        if not a: continue
        who = a[0]
        wt = I.types(st, who)
        lim = fs('symbol', 'false') | (fs('string') if nm == 'error' else frozenset())
        put(r, 'origin must be a symbol', wt <= lim or who[0] == 'x', show(who))
        put(r, 'origin must be the name of the called procedure', who_ok(R, I, r, who), show(who))
        if nm == 'raise-argument-error' and len(a) == 3:
            put(r, 'expectation must be a string', I.types(st, a[1]) <= fs('string') or a[1][0] == 'x', show(a[1]))
            v = a[2]
            e = expected_types(a[1][2]) if a[1][:2] == ('k', 'string') else None
            if v[0] == 'k': ok = False
            elif e is not None and v[0] != 'joined':
                ts, low = e
                ok = not (I.types(st, v) & ts)
                if not ok and low is not None: ok = 'fix' in I.types(st, v) and I.prove(st, I.sub(v, k('fix', low), 1))
                if not ok and last_test(I, st, v): ok = True
            else: ok = mentions_tested(I, st, v) or v[0] == 'x' and bool(v[3])
            put(r, 'reported value must be the one that failed the check', ok, '%s expected, value %s' % (show(a[1]), show(v)))
        elif nm == 'raise-range-error' and len(a) == 6:
            v, d, lo, hi, ix = a[1:]
            put(r, 'description must be a string', I.types(st, d) <= fs('string'), show(d))
            for w, t in (('lower bound', lo), ('upper bound', hi), ('index', ix)):
                put(r, w + ' must be an integer', I.types(st, t) <= FIX, show(t))
            put(r, 'value must be the indexed object', not I.types(st, v) <= FIX and (hi[0] == 'k' or v in I.deps(hi) or hi in (I.mk('$string-length', [v]), I.mk('$vector-length', [v])) or mentions_tested(I, st, v)), show(v))
            put(r, 'reported index must be the one that was checked', ix[0] != 'k' and ix != hi and ix != lo, show(ix))
            ok = I.lt(st, ix, lo) or I.le(st, hi, ix) or ix != hi and I.lt(st, hi, ix)
            put(r, 'index must be outside the reported range', ok, '%s in [%s, %s)' % (show(ix), show(lo), show(hi)))
    return res
def last_test(I, st, v):
    """is v what the most recent test on this path was about?"""
    for p, t, val in st.testlist()[:1]:
        if t == v or v in I.deps(t): return True
        if isinstance(p, tuple) and p[0] in ('cmp', 'eq', 'isa', 'pred'):
            if any(x == v or v in I.deps(x) for x in p[1:] if isinstance(x, tuple)): return True
    return False

"""Rules that compare a Minim-level procedure with the term it must compute (C06 wrappers and records, C27)."""
import itertools
from rules import reg
from report import ToolError
import r_scheme as RS
from termeval import *

def evaluator():
    """lightweight: expansion only, no interprocedural analysis"""
    import ir, schemerules as SR
    pt = ir.prim_table(ir.core())
    sc = SR.scope_of(pt); sc.bind('call-with-values', Var('call-with-values', 'prim', None))
    class R: pass
    R.ex = Expander(SR.PRELUDE, sc); R.prog = R.ex.program(read_file(ir.REPO + '/' + SR.PRELUDE, SR.PRELUDE))
    bex, bprog = RS.boot(R)
    return TermEval([R.prog]), TermEval([R.prog, bprog]), R.prog, bprog
def args(n): return [('arg', i) for i in range(n)]
def where(t, v): return RS.at(v.pos) if v.pos else SR_PRELUDE
SR_PRELUDE = 'src/core/s/prelude.min'

def wrappers(res, t):
    res.rule('wrapper', 'each car/cdr composition of the prelude returns the composition its name spells whenever it returns')
    n = 0
    for k in (1, 2, 3, 4):
        for w in itertools.product('ad', repeat=k):
            nm = 'c%sr' % ''.join(w); v = t.byname(nm)
            if v is None: continue
            want = ('arg', 0)
            for c in reversed(w): want = ('term', '$c%sr' % c, want)
            bad = None; got = 0
            for end, r, facts in t.paths(lambda s: s.apply(s.glob(v), args(1))):
                if end != 'return': continue
                got += 1
                if r != want: bad = 'returns another component (%r)' % (r,)
            if not got: bad = 'never returns'
            n += 1; res.ob(bad is None, nm, where(t, v), '`%s` %s' % (nm, bad))
    res.need(n, 20, 'car/cdr wrappers')

def rtd_hook(t):
    def h(n, a):
        if n in ('$make-record-type-descriptor', 'make-record-type-descriptor'):
            fl = a[5]
            names = []
            for f in (fl.f if isinstance(fl, Obj) and fl.kind == 'vector' else []):
                xs = items(f); names.append((str(xs[1][1]), str(xs[0][1]) == 'mutable') if xs else ('?', False))
            return Obj('rtd', list(a[:5]) + [names])
        return None
    t.on_prim = h
    # follow the construction procedures so that a closure can be recognised where it is bound
    orig = TermEval.apply
    def apply(f, a):
        r = orig(t, f, a)
        for nm in ('record-constructor', 'record-predicate', 'record-accessor', 'record-mutator'):
            if isinstance(f, Clo) and f is t.gmem.get(t.rv[nm]) and isinstance(r, Clo): r.mark = (nm, a)
        return r
    t.rv = {nm: t.byname(nm) for nm in ('record-constructor', 'record-predicate', 'record-accessor', 'record-mutator')}
    if None in t.rv.values(): raise ToolError('record procedures not found in the prelude')
    t.mk = t.byname('make-record-type-descriptor')
    t.apply = apply
    g = t.glob
    t.glob = lambda v: ('prim', 'make-record-type-descriptor') if v is t.mk else g(v)

def chain(rtd):
    """own and inherited fields, parents first"""
    p = rtd.f[1]
    return (chain(p) if isinstance(p, Obj) and p.kind == 'rtd' else []) + [(rtd, i) for i in range(len(rtd.f[5]))]
def uses_rtd(e):
    hit = []
    def f(x):
        if isinstance(x, Ref) and x.var.name in ('make-record-type-descriptor', 'record-accessor', 'record-constructor', 'record-predicate', 'record-mutator'): hit.append(1)
    walk(e, f); return bool(hit)

def records(res, t, progs):
    res.rule('record-type', 'constructors put their arguments in field order, each accessor and mutator bound to a name addresses the field of that name, and predicates recognise exactly their type and its subtypes')
    rtd_hook(t); n = 0; cnt = {}
    skip = set(t.rv.values()) | {t.mk}
    for prog in progs:
        for d in prog:
            for x in ([d] if isinstance(d, DefV) else []):
                if not uses_rtd(x.val) or any(v in skip for v in x.vars): continue
                for v in x.vars: n += one(res, t, v, cnt)
    for k, c in cnt.items(): res.cov[k + 's bound to names'] = c
    res.need(cnt.get('record-accessor', 0), 20, 'record accessors'); res.need(cnt.get('record-constructor', 0), 6, 'record constructors'); res.need(cnt.get('record-predicate', 0), 8, 'record predicates')

def one(res, t, v, cnt):
    verdict = []
    def go(s):
        c = s.glob(v)
        if not isinstance(c, Clo) or not c.mark: return None
        kind, a = c.mark; rtd = a[0]
        if not (isinstance(rtd, Obj) and rtd.kind == 'rtd'): return None
        fl = chain(rtd); vals = [('f', j) for j in range(len(fl))]
        verdict.append(kind)
        if kind == 'record-constructor':
            r = s.apply(c, list(vals))
            return None if isinstance(r, Obj) and r.kind == 'rec' and r.f[0] is rtd and r.f[1:] == vals else 'does not build a record with its arguments in field order'
        rec = Obj('rec', [rtd] + list(vals))
        if kind == 'record-predicate':
            other = Obj('rtd', [('k', Sym('other')), F, F, F, F, []]); child = Obj('rtd', [('k', Sym('child')), rtd, F, F, F, [('extra', False)]]); grand = Obj('rtd', [('k', Sym('g')), child, F, F, F, []])
            for x, w in ((rec, T), (Obj('rec', [child] + list(vals) + [('f', 'x')]), T), (Obj('rec', [grand] + list(vals) + [('f', 'x')]), T), (Obj('rec', [other]), F), (num(1), F), (NIL, F)):
                if s.apply(c, [x]) != w: return 'does not recognise exactly the records of its type and subtypes'
            p = rtd.f[1]
            if isinstance(p, Obj) and s.apply(c, [Obj('rec', [p] + [('f', j) for j in range(len(chain(p)))])]) != F: return 'accepts a record of the parent type'
            return None
        own = [(j, fl[j][0].f[5][fl[j][1]]) for j in range(len(fl)) if fl[j][0] is rtd]
        if kind == 'record-accessor':
            r = s.apply(c, [rec])
            hit = [f for j, f in own if ('f', j) == r]
            if not hit: return 'returns no field of its own record type'
            return None if named(v.name, hit[0][0], [f[0] for _, f in own]) else 'returns the field `%s`' % hit[0][0]
        r = s.apply(c, [rec, ('new',)])
        hit = [(j, f) for j, f in own if rec.f[1 + j] == ('new',)]
        if len(hit) != 1 or sum(1 for y in rec.f if y == ('new',)) != 1: return 'does not set exactly one field'
        if not hit[0][1][1]: return 'sets the immutable field `%s`' % hit[0][1][0]
        return None if named(v.name, hit[0][1][0], [f[0] for _, f in own]) else 'sets the field `%s`' % hit[0][1][0]
    bad = None; done = False
    for end, r, facts in t.paths(go):
        if end == 'error' and verdict: bad = bad or 'raises an error on a record of its type'
        elif end == 'return':
            done = True
            if r: bad = r
    if not verdict or not done and not bad: return 0
    cnt[verdict[0]] = cnt.get(verdict[0], 0) + 1
    res.ob(bad is None, v.name, where(t, v), '`%s` %s' % (v.name, bad)); return 1
def named(name, field, all_):
    """is `field` the field the accessor name spells?  the longest field name occurring as whole words wins"""
    words = name.replace('$', '').rstrip('!?').split('-')
    def occ(f):
        w = f.rstrip('!?').split('-'); return any(words[i:i + len(w)] == w for i in range(len(words)))
    c = [f for f in all_ if occ(f)]
    if not c: return True            # the name says nothing about the field
    return field in c

def fold_rules(res, t, K):
    P = {'+': '$fx2+', '-': '$fx2-', '*': '$fx2*', '/': '$fx2/'}; C = {'=': '$fx2=', '<': '$fx2<', '>': '$fx2>', '<=': '$fx2<=', '>=': '$fx2>='}
    res.rule('fold', 'n arguments are combined from left to right with the primitive the procedure is named after, the accumulated result on the left')
    for nm, p in P.items():
        v = t.byname(nm)
        if v is None: raise ToolError('`%s` not found' % nm)
        for k in range(0 if nm in '+*' else 1, K + 1):
            a = args(k)
            if k == 0: want = num(0 if nm == '+' else 1)
            elif k == 1: want = a[0] if nm in '+*' else ('term', p, num(0 if nm == '-' else 1), a[0])
            else:
                want = a[0]
                for x in a[1:]: want = ('term', p, want, x)
            bad = None; got = 0
            for end, r, facts in t.paths(lambda s: s.apply(s.glob(v), list(a))):
                if end == 'return':
                    got += 1
                    if r != want: bad = 'computes %s instead of %s' % (show(r), show(want))
                elif end == 'cut': bad = 'does not finish'
            if not got and not bad: bad = 'never returns'
            res.ob(bad is None, '%s %d' % (nm, k), where(t, v), '`%s` with %d arguments %s' % (nm, k, bad))
    res.rule('chain', 'a comparison of n arguments is true exactly when it holds for every adjacent pair')
    for nm, p in C.items():
        v = t.byname(nm)
        if v is None: raise ToolError('`%s` not found' % nm)
        for k in range(2, K + 1):
            a = args(k); bad = None; got = 0
            pairs = [('term', p, a[i], a[i + 1]) for i in range(k - 1)]
            for end, r, facts in t.paths(lambda s: (lambda r: r if r in (T, F) else s.bool(s.truth(r)))(s.apply(s.glob(v), list(a)))):
                if end == 'cut': bad = 'does not finish'
                if end != 'return': continue
                got += 1
                kn = [facts.get(('true', q)) for q in pairs]
                other = [q for q in facts if q[0] == 'true' and q[1] not in pairs]
                if other: bad = 'compares with %s' % show(other[0][1])
                elif r == T and not all(x is True for x in kn): bad = 'is true although an adjacent pair was not compared or failed'
                elif r == F and not any(x is False for x in kn): bad = 'is false although no adjacent pair failed'
                elif r not in (T, F): bad = 'returns something that is not a boolean'
            if not got and not bad: bad = 'never returns'
            res.ob(bad is None, '%s %d' % (nm, k), where(t, v), '`%s` with %d arguments %s' % (nm, k, bad))
    res.rule('unary', 'add1, sub1, remainder and modulo apply their own primitive to their arguments in order')
    one_ = num(1)
    for nm, k, want in (('add1', 1, [('term', '$fx2+', ('arg', 0), one_), ('term', '$fx2+', one_, ('arg', 0))]), ('sub1', 1, [('term', '$fx2-', ('arg', 0), one_)]),
                        ('remainder', 2, [('term', '$fxremainder', ('arg', 0), ('arg', 1))]), ('modulo', 2, [('term', '$fxmodulo', ('arg', 0), ('arg', 1))])):
        v = t.byname(nm)
        if v is None: raise ToolError('`%s` not found' % nm)
        bad = None; got = 0
        for end, r, facts in t.paths(lambda s: s.apply(s.glob(v), args(k))):
            if end == 'return':
                got += 1
                if r not in want: bad = 'computes %s' % show(r)
        if not got: bad = 'never returns'
        res.ob(bad is None, nm, where(t, v), '`%s` %s' % (nm, bad))
def show(r):
    if isinstance(r, tuple) and r and r[0] == 'term': return '(%s)' % ' '.join([str(r[1])] + [show(x) for x in r[2:]])
    if isinstance(r, tuple) and r and r[0] == 'arg': return 'x%d' % r[1]
    if isinstance(r, tuple) and r and r[0] in ('k', 'b'): return str(r[1])
    return repr(r)

SAFE = ('char->integer integer->char car cdr set-car! set-cdr! make-list length reverse make-vector vector-length vector-ref vector-set! vector-fill! list->vector vector->list make-string string-length '
        'string-ref string-set! number->string string->number symbol->string string->symbol string->list record-type-name record-type-parent record-type-uid record-type-sealed? record-type-opaque? '
        'record-type-field-names record-type-field-mutable? record-rtd unbox set-box! syntax-e syntax-loc syntax->datum syntax->list environment-symbols environment-set! procedure-arity procedure-name '
        'procedure-rename open-input-file open-output-file open-input-string close-input-port close-output-port get-output-string read read-char peek-char char-ready? put-char put-string flush-output-port newline fasl-read fasl-write load current-directory').split()
def safe(res, t, prims):
    res.rule('safe-wrapper', 'the checked procedure X hands its own arguments, in order, to the primitive $X and returns what that returns')
    n = 0; t.maxsteps = 2000
    for nm in SAFE:
        v = t.byname(nm); p = prims.get('$' + nm)
        if v is None or p is None: continue
        k = p['arity']; bad = None; got = 0; want = ('term', '$' + nm) + tuple(args(k))
        for end, r, facts in t.paths(lambda s: s.apply(s.glob(v), args(k)), 300):
            if end == 'cut': bad = bad or 'does not finish'
            if end == 'return':
                got += 1
                if r != want: bad = 'returns %s' % show(r)
        if not got and not bad: bad = 'never returns'
        n += 1; res.ob(bad is None, nm, where(t, v), '`%s` %s' % (nm, bad))
    t.maxsteps = 20000
    res.need(n, 40, 'checked procedures compared with their primitive')

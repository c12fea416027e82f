"""Rules on the data primitives (C06) and arithmetic primitives (C27)."""
import re, itertools
from rules import reg
from report import ToolError
import ir, cfg
from shape import *
from heap import *
import r_scheme as RS

class Spec:
    def __init__(s): s.t = {}
    def add(s, name, builds): s.t.setdefault(name, []).append(builds)
SP = lambda n: ('sp', 'minim_' + n)
VOID = SP('void')

def el(I, n, p='x'): return [elem(I, '%s%d' % (p, k)) for k in range(n)]
def cuts(mod, f, most=140):
    """constants that a function (or a data function it calls) compares with: sizes around them are analysed too"""
    out = set()
    for g in {f} | {g for g in cfg.reach(mod, f) if data_fn(mod, g)}:
        for b in mod.funcs[g].blocks:
            for i in b.instrs:
                if i.op == 'icmp':
                    for o in i.ops:
                        if isinstance(o, int) and 3 < abs(o) <= most: out.add(abs(o))
                elif i.op in ('and', 'urem', 'srem', 'udiv', 'sdiv', 'lshr', 'shl', 'ashr'):
                    o = i.ops[1]
                    if isinstance(o, int):
                        if i.op in ('lshr', 'shl', 'ashr'): o = 1 << o if 0 < o < 7 else 0
                        if 1 < o <= most: out |= {o, 2 * o}
    return out
DATAC = ('list.c', 'vector.c', 'string.c', 'record.c', 'box.c', 'syntax.c', 'procedure.c', 'symbol.c')
def data_fn(mod, g): return g in mod.funcs and not mod.funcs[g].decl and mod.funcs[g].file.split('/')[-1] in DATAC
def specs(N, more=()):
    """name -> list of builders; a builder(I) gives (args, expected result, [(object, offset, value)] expected writes)"""
    T = {}
    def d(name, *fs): T.setdefault(name, []).extend(fs)
    def cxr(path):
        def b(I):
            root = elem(I, 'x', PAIR); o = root; keys = [{'a': 8, 'd': 16}[c] for c in reversed(path)]
            for k in keys[:-1]:
                n = elem(I, o.name + '.' + str(k), PAIR); o.f[k] = n; n.info['of'] = (o, k); o = n
            # every other component exists too, so that a wrong one is not an error but a different value
            return [root], ('cell', o, keys[-1]), []
        return b
    for n in (1, 2, 3, 4):
        for w in itertools.product('ad', repeat=n): d('$c%sr' % ''.join(w), cxr(w))
    d('cons', lambda I: (lambda x, y: ([x, y], ('flds', PAIR, {8: x, 16: y}), []))(elem(I), elem(I, 'y')))
    def setter(off, tag):
        def b(I):
            o = elem(I, 'o', tag); x = elem(I); return [o, x], VOID, [(o, off, x)]
        return b
    d('$set-car!', setter(8, PAIR)); d('$set-cdr!', setter(16, PAIR)); d('$set-box!', setter(8, BOX))
    def getter(off, tag):
        def b(I):
            o = elem(I, 'o', tag); return [o], ('cell', o, off), []
        return b
    d('$unbox', getter(8, BOX)); d('$syntax-e', getter(8, SYNTAX)); d('$syntax-loc', getter(16, SYNTAX)); d('$procedure-name', getter(24, CLOSURE)); d('$record-rtd', getter(8, RECORD))
    for k, nm in enumerate(('name', 'parent', 'uid', 'sealed?', 'opaque?')): d('$record-type-' + nm, getter(16 + 8 * k, RECORD))
    d('box', lambda I: (lambda x: ([x], ('flds', BOX, {8: x}), []))(elem(I)))
    def fixget(off, tag):
        def b(I):
            o = elem(I, 'o', tag); return [o], ('fixcell', o, off), []
        return b
    d('$vector-length', fixget(8, VECTOR)); d('$hashtable-size', fixget(24, HASHTABLE))
    def idx(base, sc, what):
        def b(I):
            o = elem(I, 'o', what); i = elem(I, 'i', FIXNUM); n = S('index'); i.f[8] = n
            return [o, i], ('cell', o, ('i', base, ((n, sc),))), []
        return b
    d('$vector-ref', idx(16, 8, VECTOR)); d('$record-ref', idx(16, 8, RECORD))
    def idxset(base, what):
        def b(I):
            o = elem(I, 'o', what); i = elem(I, 'i', FIXNUM); n = S('index'); i.f[8] = n; x = elem(I)
            return [o, i, x], VOID, [(o, ('i', base, ((n, 8),)), x)]
        return b
    d('$vector-set!', idxset(16, VECTOR)); d('$record-set!', idxset(16, RECORD))
    def sref(I):
        s = elem(I, 's', STRING); b = elem(I, 'chars'); s.f[8] = b; i = elem(I, 'i', FIXNUM); n = S('index'); i.f[8] = n
        return [s, i], ('charcell', b, ('i', 0, ((n, 1),))), []
    def sset(I):
        s = elem(I, 's', STRING); b = elem(I, 'chars'); s.f[8] = b; i = elem(I, 'i', FIXNUM); n = S('index'); i.f[8] = n; c = elem(I, 'c', CHAR); v = S('newchar'); c.f[4] = v
        return [s, i, c], VOID, [(b, ('i', 0, ((n, 1),)), v)]
    d('$string-ref', sref); d('$string-set!', sset)
    for n in sorted(set(range(N + 1)) | set(more)):
        def mk(n):
            def b_len(I): xs = el(I, n); return [lst(I, xs)], ('fix', n), []
            def b_rev(I): xs = el(I, n); return [lst(I, xs)], ('nlist', xs[::-1]), []
            def b_l2v(I): xs = el(I, n); return [lst(I, xs)], ('vec', xs), []
            def b_v2l(I): xs = el(I, n); return [vec(I, xs)], ('nlist', xs), []
            def b_mkl(I): x = elem(I); return [fix(I, n), x], ('nlist', [x] * n), []
            def b_mkv(I): x = elem(I); return [fix(I, n), x], ('vec', [x] * n), []
            def b_fill(I):
                xs = el(I, n); v = vec(I, xs); x = elem(I, 'y'); return [v, x], VOID, [(v, 16 + 8 * k, x) for k in range(n)]
            def b_sl(I): return [str_(I, [sch(I, k) for k in range(n)])], ('fix', n), []
            def b_s2l(I): cs = [sch(I, k) for k in range(n)]; return [str_(I, cs)], ('nlist', [('char', c) for c in cs]), []
            def b_l2s(I): cs = [sch(I, k) for k in range(n)]; return [lst(I, [chr_(I, c) for c in cs])], ('str', cs), []
            def b_mks(I): c = sch(I, 0); return [fix(I, n), chr_(I, c)], ('str', [c] * n), []
            def b_y2s(I): cs = [sch(I, k) for k in range(n)]; return [str_(I, cs, SYMBOL)], ('str', cs), []
            def b_rec(I): xs = el(I, n); r = elem(I, 'rtd', RECORD); return [r, lst(I, xs)], ('rec', r, xs), []
            def b_rtd(I):
                xs = el(I, n); a = el(I, 5, 'a'); return a + [vec(I, xs)], ('rec', SP('base_rtd'), a + [SP('false')] + xs), []
            def rtd(I):
                r = elem(I, 'rtd', RECORD); r.f[4] = 6 + n; r.f[8] = I.sp('minim_base_rtd'); names = el(I, n, 'name')
                for k in range(6): r.f[16 + 8 * k] = elem(I, 'h%d' % k)
                for k in range(n): r.f[64 + 8 * k] = lst(I, [elem(I, 'mut%d' % k), names[k]])
                return r, names
            def b_rtl(I): return [rtd(I)[0]], ('fix', n), []
            def b_rtn(I): r, names = rtd(I); return [r], ('vec', names), []
            for nm, b in (('$length', b_len), ('$reverse', b_rev), ('$list->vector', b_l2v), ('$vector->list', b_v2l), ('$make-list', b_mkl), ('$make-vector', b_mkv), ('$vector-fill!', b_fill),
                          ('$string-length', b_sl), ('$string->list', b_s2l), ('$list->string', b_l2s), ('$make-string', b_mks), ('$symbol->string', b_y2s), ('$make-record', b_rec),
                          ('$make-record-type-descriptor', b_rtd), ('$record-type-length', b_rtl), ('$record-type-field-names', b_rtn)): d(nm, b)
            def b_ren(I):
                xs = el(I, n, 'fv'); c = elem(I, 'proc', CLOSURE); e, k, m = elem(I, 'env'), elem(I, 'code'), elem(I, 'name')
                c.f.update({8: e, 16: k, 24: m, 32: n}); c.f.update({40 + 8 * j: x for j, x in enumerate(xs)}); y = elem(I, 'id')
                return [c, y], ('flds', CLOSURE, {**{8: e, 16: k, 24: y, 32: n}, **{40 + 8 * j: x for j, x in enumerate(xs)}}), []
            d('$procedure-rename', b_ren)
            for m in range(min(N, 2) + 1 if n <= N else 1):
                def b_app(I, m=m):
                    xs = el(I, n); ys = lst(I, el(I, m, 'y')); return [lst(I, xs), ys], ('nlist', xs, ys), []
                d('$append2', b_app)
        mk(n)
    def arity(I):
        c = elem(I, 'proc', CLOSURE); k = elem(I, 'code', CODE); c.f[16] = k; return [c], ('cell', k, 16), []
    d('$procedure-arity', arity)
    return T

# predicates: name -> (tags for which the answer is #t, specials for which it is #t)
PREDS = {'null?': ((), ('minim_null',)), 'void?': ((), ('minim_void',)), 'eof-object?': ((), ('minim_eof',)), 'boolean?': ((), ('minim_true', 'minim_false')), 'char?': ((CHAR,), ()), 'symbol?': ((SYMBOL,), ()),
         'pair?': ((PAIR,), ()), 'vector?': ((VECTOR,), ()), 'fixnum?': ((FIXNUM,), ()), 'string?': ((STRING,), ()), 'box?': ((BOX,), ()), '$hashtable?': ((HASHTABLE,), ()), 'syntax?': ((SYNTAX,), ()),
         'environment?': ((TOPENV,), ()), 'procedure?': ((CLOSURE,), ()), 'not': ((), ('minim_false',))}

def check_pred(mod, p, res):
    tags, sps = PREDS[p['name']]; w = mod.funcs[p['fn']]; bad = None; n = 0
    for case in list(range(1, 17)) + list(SPECIALS):
        h = HeapRun(mod, p['fn'])
        def build(I): return [elem(I, 'x', case) if isinstance(case, int) else I.sp(case)]
        for path in h.run(build):
            n += 1
            r = h.I.res(path.result) if path.end == 'return' else None
            nm = r.name if isinstance(r, O) else None
            want = case in tags or case in sps
            if nm != ('minim_true' if want else 'minim_false'): bad = 'does not answer %s for %s' % ('#t' if want else '#f', TAGNAME[case] if isinstance(case, int) else case)
        if h.bad: bad = list(h.bad.values())[0][1]
    res.ob(bad is None and n, p['name'], '%s:%s' % (w.file, w.line), '%s %s' % (p['name'], bad))

def run_spec(mod, fn, name, b, nm=None, visits=12):
    """-> problem or None"""
    h = HeapRun(mod, fn, maxvisits=visits); box = {}
    def build(I):
        a, t, w = b(I); box['t'] = t; box['w'] = w; return a
    n = 0
    for p in h.run(build):
        n += 1; I = h.I
        if p.end != 'return': return 'ends in an error on arguments it must accept'
        m = match(I, p.result, box['t'])
        if m and p.result is not None: return 'returns a value that %s' % m
        want = {(id(o), k): (o, k, v) for o, k, v in box['w']}
        for o, k, v, ins in p.writes:
            key = (id(o), k)
            if key in want and I.res(v) == I.res(want[key][2]): want[key] = None
            elif key not in want: return 'writes to offset %s of an argument' % (k,)
            else: return 'stores something else than the given value'
        if any(x is not None for x in want.values()): return 'does not store the given value in the component it is named after'
    if h.bad: return list(h.bad.values())[0][1]
    if not n: raise ToolError('%s: no path analysed' % name)
    return None

@reg('C06', 'abstract interpretation of every data primitive on heap skeletons of all small sizes with opaque contents, against a component specification; loop-truncation lint for larger sizes; abstract interpretation of the safe wrappers over the syntax tree',
     'Each primitive of pairs, lists, vectors, strings, boxes, records, syntax objects and closures is interpreted on structures with unknown contents (lists, vectors and strings of 0 to 3 elements, opaque indices); its result and its writes must be exactly the components its name prescribes. The type predicates are decided for every type tag. No loop in them may stop at a fixed count. The safe car/cdr compositions and the field accessors of the built-in record types are evaluated over their syntax trees.')
def c06(res, tier):
    mod = ir.core(); pt = {p['name']: p for p in ir.prim_table(mod)}; N = 3 if tier == 'quick' else 5
    T = specs(N); fns = set(); sizes = set()
    res.rule('component', 'each primitive returns, or stores to, exactly the component its name spells; conversions keep every element, in order; nothing else is written')
    n = 0
    for name in sorted(T):
        p = pt.get(name)
        if p is None or not p['fn'] or p['fn'] not in mod.funcs: continue
        f = mod.funcs[p['fn']]; n += 1; fns.add(f.name); first = None
        big = sorted({k for c in cuts(mod, f.name) for k in (c - 1, c, c + 1) if k > N})
        sized = len(T[name]) > N
        for b in (specs(N, big)[name] if big and sized else T[name]):
            first = first or run_spec(mod, f.name, name, b, visits=max([12] + [k + 4 for k in big]))
        if sized: sizes |= set(range(N + 1)) | set(big)
        res.ob(first is None, name, '%s:%s' % (f.file, f.line), '%s (%s) %s' % (name, f.name, first))
    res.need(n, 60, 'data primitives interpreted'); res.cov['structure sizes'] = sorted(sizes)
    res.rule('predicate', 'each type predicate answers #t for exactly the values of its type')
    for name in PREDS:
        if name in pt and pt[name]['fn']: check_pred(mod, pt[name], res); fns.add(pt[name]['fn'])
    fs = set(fns)
    for f in fns: fs |= {g for g in cfg.reach(mod, f) if g in mod.funcs and not mod.funcs[g].decl and data_fn(mod, g)}
    cfg.truncated_loops(res, mod, fs)
    import r_terms as RT
    t, tb, prog, bprog = RT.evaluator()
    RT.wrappers(res, t); RT.safe(res, t, pt); RT.records(res, tb, [prog, bprog])

# ---------------------------------------------------------------- C27
def trunc_terms(op, x, y):
    """acceptable forms of the two-operand result"""
    if op in ('add', 'mul'): return [S(op, x, y), S(op, y, x)]
    return [S(op, x, y)]
CMPS = {'$fx2=': {'eq'}, '$fx2>': {'gt'}, '$fx2<': {'lt'}, '$fx2>=': {'gt', 'eq'}, '$fx2<=': {'lt', 'eq'}}
ORD = {'eq': {'eq'}, 'ne': {'lt', 'gt'}, 'slt': {'lt'}, 'sgt': {'gt'}, 'sle': {'lt', 'eq'}, 'sge': {'gt', 'eq'}}
def sign(rng):
    # of a number that is not zero
    lo, hi, ne = rng if rng else (None, None, frozenset())
    if lo is not None and lo >= 0: return '>'
    if hi is not None and hi <= 0: return '<'
    return None
def fx_prim(res, mod, p):
    nm = p['name']; f = mod.funcs[p['fn']]; x = S('xval'); y = S('yval'); bad = None; n = 0
    h = HeapRun(mod, f.name)
    def build(I):
        a = elem(I, 'x', FIXNUM); a.f[8] = x
        if nm == '$fxneg': return [a]
        b = elem(I, 'y', FIXNUM); b.f[8] = y; return [a, b]
    for path in h.run(build):
        I = h.I; n += 1
        if path.end != 'return': bad = 'raises an error on two fixnums'; continue
        if path.writes: bad = 'modifies an argument'
        r = I.res(path.result)
        if nm in CMPS:
            poss = {'lt', 'eq', 'gt'}
            for k, v in path.facts.items():
                if len(k) == 3 and k[0] in ORD and k[1] in (x, y) and k[2] in (x, y):
                    s = ORD[k[0]] if k[1] == x else {{'lt': 'gt', 'gt': 'lt', 'eq': 'eq'}[o] for o in ORD[k[0]]}
                    poss &= s if v else {'lt', 'eq', 'gt'} - s
            want = {o in CMPS[nm] for o in poss}
            name = r.name if isinstance(r, O) else None
            if name not in ('minim_true', 'minim_false'): bad = 'returns something that is not a boolean'
            elif want and want != {name == 'minim_true'}: bad = 'answers %s when x is %s y' % ('#t' if name == 'minim_true' else '#f', ' or '.join({'lt': 'less than', 'eq': 'equal to', 'gt': 'greater than'}[o] for o in sorted(poss) if (o in CMPS[nm]) != (name == 'minim_true')))
            continue
        if not (isinstance(r, O) and r.tag == FIXNUM and r.kind == 'new'): bad = 'does not return a new fixnum'; continue
        v = I.res(r.f.get(8))
        rx = path.facts.get(('rng', x)); ry = path.facts.get(('rng', y))
        yone = ry is not None and ry[0] == ry[1] == -1; yc = ry[0] if ry is not None and ry[0] is not None and ry[0] == ry[1] else None
        if nm == '$fx2+': ok = v in trunc_terms('add', x, y)
        elif nm == '$fx2-': ok = v == S('sub', x, y)
        elif nm == '$fx2*': ok = v in trunc_terms('mul', x, y)
        elif nm == '$fxneg': ok = v in (S('sub', 0, x), S('mul', x, -1))
        elif nm == '$fx2/': ok = v in (S('sub', 0, x), S('mul', x, -1)) if yone else v == S('sdiv', x, y) and ry is not None and -1 in ry[2] or (yc is not None and v == S('sdiv', x, yc))
        elif nm in ('$fxremainder', '$fxmodulo'):
            base = 0 if yone else S('srem', x, y)
            if not yone and (ry is None or -1 not in ry[2]) and not (yc is not None): ok = False
            elif nm == '$fxremainder': ok = v == base or (yc is not None and v == S('srem', x, yc))
            else:
                if yone: ok = v == 0
                else:
                    rz = path.facts.get(('rng', base)); zero = rz is not None and rz[0] == rz[1] == 0; nz = rz is not None and (0 in rz[2] or (rz[0] is not None and rz[0] > 0) or (rz[1] is not None and rz[1] < 0))
                    sx = sign(rx) or sign(rz); sy = sign(ry)
                    if nz and rx is not None and rx[0] == rx[1] == 0: continue          # 0 has no non-zero remainder
                    sd = None
                    if sx and sy: sd = (sx == '<') != (sy == '<')
                    for k, w in path.facts.items():
                        if k[0] == 'rng' and k[1] in (S('xor', x, y), S('xor', y, x), S('xor', base, y), S('xor', y, base)): q = True if w[1] is not None and w[1] < 0 else False if w[0] is not None and w[0] >= 0 else None; sd = q if sd is None else sd
                    if zero: ok = v == 0 or v == base
                    elif nz and sd is not None: ok = v in (S('add', base, y), S('add', y, base)) if sd else v == base
                    elif v == base: ok = sd is False
                    else: ok = False
        else: raise ToolError(nm)
        if not ok: bad = 'returns %s' % describe(v, x, y) + (' when the divisor may be -1' if nm in ('$fx2/', '$fxremainder', '$fxmodulo') and not yone and (ry is None or -1 not in ry[2]) and yc is None else '')
    if h.bad: bad = list(h.bad.values())[0][1]
    res.ob(bad is None and n, nm, '%s:%s' % (f.file, f.line), '%s (%s) %s' % (nm, f.name, bad))
def describe(v, x, y):
    if v == x: return 'x'
    if v == y: return 'y'
    if isinstance(v, S) and len(v.k) == 3: return '(%s %s %s)' % (v.k[0], describe(v.k[1], x, y), describe(v.k[2], x, y))
    return repr(v)

@reg('C27', 'path-partitioned abstract interpretation of the arithmetic primitives over opaque operands (normalised result terms and order facts per path) and of the variadic procedures over their expanded syntax trees',
     'Each fixnum primitive is interpreted on two opaque fixnums: on every path the result must be the term its name prescribes, comparisons must answer exactly for the orderings the path leaves possible, and division never executes with a divisor that may be -1. Each variadic procedure is interpreted over its syntax tree on 0 to 6 opaque arguments; its result must be the left fold (arithmetic) or the conjunction over adjacent pairs (comparison) of its own primitive.')
def c27(res, tier):
    mod = ir.core(); pt = {p['name']: p for p in ir.prim_table(mod)}
    res.rule('primitive', 'each fixnum primitive computes, on every path, the operation it is named after')
    for nm in ('$fxneg', '$fx2+', '$fx2-', '$fx2*', '$fx2/', '$fxremainder', '$fxmodulo', '$fx2=', '$fx2>', '$fx2<', '$fx2>=', '$fx2<='):
        if nm not in pt or not pt[nm]['fn']: raise ToolError('primitive %s not found' % nm)
        fx_prim(res, mod, pt[nm])
    import r_terms as RT
    t = RT.evaluator()[0]
    RT.fold_rules(res, t, 6 if tier == 'quick' else 12)

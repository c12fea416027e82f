"""The syntax checker analysed on unconstrained input: what every accepting path has established."""
import ir
from shape import *
from passes import FORMS, APP, NAME, fname, NULL, E, inliner
from report import ToolError

LEGAL8 = {FIXNUM, SYMBOL, STRING, PAIR, VECTOR, CLOSURE, PORT, RECORD, BOX, HASHTABLE, SYNTAX, ENV, TOPENV, CONT, CODE}
def legal(off, ty):
    if off == 0: return None
    if off == 8: return LEGAL8 - ({FIXNUM, VECTOR, CODE} if ty == 'ptr' else set())
    if off == 16: return {PAIR, VECTOR, CLOSURE, RECORD, HASHTABLE, SYNTAX, ENV, TOPENV, CONT, CODE}
    if off == 24: return {VECTOR, CLOSURE, RECORD, HASHTABLE, ENV, TOPENV, CONT, CODE}
    return {VECTOR, CLOSURE, RECORD, ENV, CONT, CODE, SYMBOL, STRING}

class Bad(Exception): pass
def open_list(I, a, limit=4):
    n = 0; v = I.res(a)
    while isinstance(v, O) and I.tag_is(v, PAIR):
        if n >= limit: raise Cut()
        if 8 not in v.f: v.f[8] = I.new('in', v.name + '.8'); 
        if 16 not in v.f: v.f[16] = I.new('in', v.name + '.16')
        n += 1; v = I.res(v.f[16])
    return n, v
def open_listp(I, a, ins):
    n, v = open_list(I, a[0])
    return int(I.same(v, I.sp('minim_null')))
def open_length(I, a, ins):
    n, v = open_list(I, a[0])
    if I.same(v, I.sp('minim_null')): return n
    raise Done('noreturn', ('list_length', a), ins)

class CheckRun:
    def __init__(s, mod, fn, maxvisits=3):
        s.mod = mod; s.fn = fn; s.bad = {}; s.loads = 0; s.conf = 0; s.forms = {}
        inl = inliner(mod, fn)
        s.file = mod.funcs[fn].file
        def ok(n): return inl(n) or n in ('bad_syntax_exn',)
        s.I = Interp(mod, inline=ok, hooks={fn: s.rec, 'minim_listp': open_listp, 'list_length': open_length}, maxvisits=maxvisits, maxpaths=400000)
        s.I.tailloop = lambda f, b: f.name == fn and any(b.name in x.succs or b in x.succs for x in f.blocks[:1])
        s.I.what = fn; s.I.on_load = s.on_load
    def fail(s, ins, key, msg): s.bad.setdefault(key, (ins.loc if ins is not None else s.file, msg))
    def rec(s, I, args, ins):
        I.events.append(('rec', args, None, ins)); return None
    def on_load(s, I, o, off, idx, ty, ins):
        if not isinstance(o, O):
            return
        if o.kind in ('special', 'stack', 'glob') and o.tag in (None, SYMBOL): return
        if off == 0: return
        s.loads += 1
        ls = legal(off, ty)
        if ls is not None and not (I.possible(o) <= ls):
            s.fail(ins, 'access %+d in %s' % (off, ins.fn.name), 'reads a component of a part of the expression that need not have one (possible types: %s)' % ' '.join(TAGNAME[t] for t in sorted(I.possible(o))))
            raise Cut()
    # -- conformance of an accepted expression to the grammar of its form
    def expr(s, I, v, recs, top=False):
        v = I.res(v)
        if not isinstance(v, O): raise Bad('a part that is not an object is accepted')
        if not top and any(r is v for r in recs): return
        if v.tag == PAIR and 8 in v.f:
            h = I.res(v.f[8])
            if isinstance(h, O) and h.kind == 'special' and h.name in FORMS:
                if h.name in s.internal: raise Bad('the internal form %s is accepted' % fname(h.name))
                s.forms[h.name] = s.forms.get(h.name, 0) + 1
                return s.part(I, v.f.get(16), FORMS[h.name], recs, fname(h.name))
            # not one of the forms: an application.  The head must be known to be none of them
            s.forms['app'] = s.forms.get('app', 0) + 1
            return s.part(I, v, APP, recs, 'application', app=True)
        if v.tag == PAIR: raise Bad('a pair is accepted without being inspected')
        if v.tag is None and v.alias is None:
            raise Bad('a sub-expression is accepted without being checked')
        s.atoms.add((v.name if v.kind == 'special' and v.tag == SPECIAL else v.tag))
    def part(s, I, v, g, recs, what, app=False):
        v = I.res(v); t = g['t']
        if v is None: raise Bad('%s is accepted although part of it was never inspected' % what)
        if t == 'datum': return
        if t == 'expr':
            return s.expr(I, v, recs)
        if not isinstance(v, O): raise Bad('part of %s is not an object' % what)
        if t == 'null':
            if v is not I.sp('minim_null'): raise Bad('%s is accepted without establishing that it ends there' % what)
        elif t == 'ident':
            if v.tag != SYMBOL: raise Bad('%s is accepted with an identifier not known to be a symbol' % what)
        elif t == 'pair':
            if v.tag != PAIR: raise Bad('%s is accepted although a required part may be missing' % what)
            s.part(I, v.f.get(8, s.anyv(I, v, 8)), g['a'], recs, what); s.part(I, v.f.get(16), g['b'], recs, what)
        elif t == 'list':
            if v is I.sp('minim_null'):
                if g['min']: raise Bad('%s is accepted although a required part may be missing' % what)
                return
            if v.tag != PAIR: raise Bad('%s is accepted with a list not known to be proper' % what)
            s.part(I, v.f.get(8, s.anyv(I, v, 8)), g['elem'], recs, what); s.part(I, v.f.get(16), dict(g, min=0), recs, what)
        elif t == 'formals':
            if v is I.sp('minim_null') or v.tag == SYMBOL: return
            if v.tag != PAIR: raise Bad('%s is accepted with formals not known to be identifiers' % what)
            s.part(I, v.f.get(8), {'t': 'ident'}, recs, what); s.part(I, v.f.get(16), g, recs, what)
    def anyv(s, I, v, off):
        o = I.new('in', '%s.%d' % (v.name, off)); return o
    def run(s, internal):
        s.internal = internal; s.atoms = set(); n = 0; s.rejected = 0
        box = {}
        f = s.mod.funcs.get(s.fn)
        if f is None or f.decl: raise ToolError('%s not found' % s.fn)
        def setup(I):
            e = I.new('in', 'expr'); box['e'] = e
            I.exec(f, [e])
        for p in s.I.run(setup):
            if p.end != 'return': s.rejected += 1; continue
            n += 1
            recs = []
            for ev in p.events:
                if ev[0] == 'rec':
                    a = s.I.res(ev[1][0]); recs.append(a)
            try:
                for a in list(recs):      # constructed (begin e ...) passed on: its parts are checked by it
                    s.spread(a, recs)
                s.expr(s.I, box['e'], recs, True)
            except Bad as b: s.fail(None, str(b), str(b))
        s.conf = n
        return n
    def spread(s, a, recs):
        I = s.I
        if isinstance(a, O) and a.kind == 'new' and a.tag == PAIR:
            h = I.res(a.f[8])
            if isinstance(h, O) and h.kind == 'special' and h.name in FORMS:
                if h.name == 'begin_symbol':
                    v = I.res(a.f[16]); s.seqs = getattr(s, 'seqs', [])
                    # every element, present and future, is checked; the list is known proper when the call returns
                    while isinstance(v, O) and v.tag == PAIR and 8 in v.f: recs.append(I.res(v.f[8])); v = I.res(v.f[16])
                    if isinstance(v, O) and v.alias is None and v is not I.sp('minim_null'):
                        close(I, v, recs)
def close(I, v, recs):
    """the rest of a list that a (begin ...) check has accepted: one further element stands for all"""
    if v.tag == PAIR:
        x = v.f.setdefault(8, I.new('in', v.name + '.car')); recs.append(x); t = v.f.setdefault(16, I.new('in', v.name + '.cdr'))
        t = I.res(t)
        if isinstance(t, O) and t.kind == 'in': close(I, t, recs)
    elif v.tag is None: v.alias = I.sp('minim_null')

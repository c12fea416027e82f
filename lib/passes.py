"""The passes over core expressions, analysed by shape: what each pass does with every part of every form."""
import ir
from shape import *
from report import ToolError

NOTVAR = set()
def E(role=None):
    g = {'t': 'expr', 'role': role}
    if role != 'op': g['notin'] = NOTVAR     # a variable reference is never a keyword
    return g
def L(elem, min=0): return {'t': 'list', 'elem': elem, 'min': min, 'only': () if min else ('minim_null',)}
def PR(a, b): return {'t': 'pair', 'a': a, 'b': b, 'only': ()}
NULL = {'t': 'null', 'only': ('minim_null',)}
ID = {'t': 'ident', 'only': ()}
DATUM = {'t': 'datum'}
IDS = L(ID); IDS['ids'] = True
FORMALS = {'t': 'formals', 'only': ('minim_null',)}
CLAUSE = PR(FORMALS, L(E(), 1))
BINDING = PR(IDS, PR(E(), NULL))
FORMS = {
    'quote_symbol': PR(DATUM, NULL), 'quote_syntax_symbol': PR(DATUM, NULL),
    'if_symbol': PR(E('if.test'), PR(E('if.then'), PR(E('if.else'), NULL))),
    'begin_symbol': L(E()), 'setb_symbol': PR(ID, PR(E(), NULL)), 'define_values_symbol': PR(IDS, PR(E(), NULL)),
    'lambda_symbol': PR(FORMALS, L(E(), 1)), 'case_lambda_symbol': L(CLAUSE, 1),
    'let_values_symbol': PR(L(BINDING), L(E(), 1)), 'letrec_values_symbol': PR(L(BINDING), L(E(), 1)),
    'mvcall_symbol': PR(E(), PR(E(), NULL)), 'mvlet_symbol': PR(E(), PR(IDS, PR(E(), NULL))), 'mvvalues_symbol': L(E()), 'make_unbound_symbol': NULL,
}
NOTVAR.update(FORMS)
APP = L(E())
NAME = {'setb_symbol': 'set!', 'mvcall_symbol': '#%mv-call', 'mvlet_symbol': '#%mv-let', 'mvvalues_symbol': '#%mv-values', 'make_unbound_symbol': '#%make-unbound', 'app': 'application'}
def fname(f): return NAME.get(f, f.replace('_symbol', '').replace('_', '-'))

def typed(s, g, name):
    o = s.new('in', name); give(s, o, g); return o
def give(s, o, g):
    o.gty = g; t = g['t']
    if t == 'pair' or (t == 'list' and g['min']): o.tag = PAIR; grow(s, o)
    elif t == 'list' or t == 'formals': o.tags = {SPECIAL, PAIR} if t == 'list' else {SPECIAL, PAIR, SYMBOL}
    elif t == 'null': o.alias = s.sp('minim_null')
    elif t == 'ident': o.tag = SYMBOL
LISTMAX = 2
def grow(s, o):
    g = o.gty
    if g is None: return
    t = g['t']
    if o.tag == PAIR and 8 not in o.f:
        if t == 'pair': a, b = g['a'], g['b']
        elif t == 'list':
            n = g.get('n', 0)
            if n >= LISTMAX: raise Cut()
            a = g['elem']; b = dict(g, min=max(0, g['min'] - 1), n=n + 1); b['only'] = () if b['min'] else ('minim_null',)
        elif t == 'formals':
            n = g.get('n', 0)
            if n >= LISTMAX: raise Cut()
            a = ID; b = dict(FORMALS, n=n + 1)
        elif t == 'expr':
            o.f[8] = typed(s, E('op'), o.name + '.car'); o.f[8].info['headof'] = o
            o.f[16] = typed(s, APP, o.name + '.cdr'); o.f[16].info['up'] = o; return
        else: return
        o.f[8] = typed(s, a, o.name + '.car'); o.f[16] = typed(s, b, o.name + '.cdr')
        o.f[8].info['up'] = o; o.f[16].info['up'] = o
    elif o.tag == SPECIAL and t in ('list', 'formals') and o.alias is None: o.alias = s.sp('minim_null')
def on_same(s, a, b):
    e = a.info.get('headof')
    if e is not None and b.name in FORMS:
        rest = e.f[16]
        if rest.tag is not None or rest.alias is not None:
            raise ToolError('the tail of a form is inspected before its head')
        rest.tags = None; rest.ntags = set(); give(s, rest, FORMS[b.name])
        e.info['form'] = b.name

class PassRun:
    """one pass function, one input form"""
    opaque = False
    def __init__(s, mod, fn, checked=True, extra=None, inline=None, maxvisits=3):
        s.mod = mod; s.fn = fn
        s.bad = {}     # key -> (where, msg)
        s.loads = 0
        hooks = {fn: s.rec}; hooks.update(extra or {})
        s.I = Interp(mod, inline=inline or (lambda n: True), hooks=hooks, maxvisits=maxvisits)
        s.I.what = fn
        s.I.on_same = on_same; s.I.grow = grow; s.I.on_load = s.on_load
        s.I.gty_load = None
    def rec(s, I, args, ins):
        o = I.new('in', 'rec%d' % I.nid); o.info['rec'] = args[0]; o.info['args'] = args
        if s.opaque: o.gty = E('rec')
        I.events.append(('rec', args, o, ins)); return o
    def on_load(s, I, o, off, idx, ty, ins):
        """fields of the expression may be read only once it is known to be a pair"""
        if not isinstance(o, O) or off not in (8, 16) or idx: return
        if o.kind == 'special' and o.name == 'minim_base_rtd': return
        if o.gty is not None or o.info.get('any') or o.kind == 'special':
            s.loads += 1
            if o.tag is None and o.gty is not None and I.possible(o) == {PAIR}: I.set_tag(o, PAIR)
            ok = o.tag == PAIR or (o.tag in (FIXNUM, SYMBOL, STRING, BOX, VECTOR, HASHTABLE) and off == 8) or (o.tag == SYNTAX)
            if not ok:
                s.fail(ins, 'access %s in %s' % ('car' if off == 8 else 'cdr', ins.fn.name), 'reads the %s of a part of the expression not known to be a pair' % ('car' if off == 8 else 'cdr'))
                if not (o.tag is None and o.gty is not None and PAIR in I.possible(o)): raise Cut()
                I.set_tag(o, PAIR)     # go on as if it were
    def fail(s, ins, key, msg):
        s.bad.setdefault(key, (ins.loc if ins is not None else s.mod.funcs[s.fn].file, msg))

def leaves(s, e, out, top=True):
    """expression leaves of an input expression as far as the state has opened it"""
    e = s.res(e)
    if not isinstance(e, O) or e.kind == 'special': return
    if e.info.get('form') or (top and e.tag == PAIR and 8 in e.f):
        f = e.info.get('form')
        if not f: leaves(s, e.f[8], out, False)
        gleaves(s, e.f[16], FORMS[f] if f else APP, out)
    else: out.append(e)
def gleaves(s, v, g, out):
    v = s.res(v); t = g['t']
    if not isinstance(v, O) or v.kind == 'special': return
    if t == 'expr': leaves(s, v, out, False)
    elif t == 'pair': gleaves(s, v.f[8], g['a'], out); gleaves(s, v.f[16], g['b'], out)
    elif t == 'list' and not g.get('ids'):
        if v.tag == PAIR and 8 in v.f: gleaves(s, v.f[8], g['elem'], out); gleaves(s, v.f[16], g, out)
        else: out.append(v)      # unopened rest of a list
def ancestors(o):
    while o is not None:
        yield o
        o = o.info.get('up') or o.info.get('headof')

class Walk:
    """walk an output expression: which input leaves occur in it, where, and transformed or raw"""
    def __init__(s, I): s.I = I; s.found = []; s.bad = []
    def expr(s, v, recd, role=None):
        I = s.I; v = I.res(v)
        if not isinstance(v, O): s.bad.append('a non-object is used as an expression'); return
        if 'rec' in v.info: return s.expr(v.info['rec'], True, role)
        if v.kind == 'special': return
        if v.gty is not None:
            if v.gty['t'] in ('list', 'pair', 'formals'):
                s.bad.append('a list of parts is used as one expression'); return
            if v.gty['t'] == 'datum': s.bad.append('quoted data is used as an expression'); return
            if v.gty['t'] == 'ident': return
            if v.info.get('form') and not recd:
                s.found.append((v, 'raw?', role)); return s.tail(v.f[16], FORMS[v.info['form']], recd)
            s.found.append((v, 'rec' if recd else 'raw', role)); return
        if v.tag == PAIR and 8 in v.f:
            h = I.res(v.f[8])
            while isinstance(h, O) and 'rec' in h.info: h = I.res(h.info['rec'])
            if isinstance(h, O) and h.kind == 'special' and h.name in FORMS: s.tail(v.f[16], FORMS[h.name], recd, h.name)
            else: s.expr(v.f[8], recd, 'op'); s.tail(v.f[16], APP, recd)
            return
        if v.tag is not None: return
        s.bad.append('cannot follow %r' % v)
    def tail(s, v, g, recd, form=None):
        I = s.I; v = I.res(v); t = g['t']
        if t == 'expr': return s.expr(v, recd, g.get('role'))
        if t == 'null':
            if v is not I.sp('minim_null'): s.bad.append('the form has more parts than it should')
            return
        if not isinstance(v, O): s.bad.append('a non-object is used as part of a form'); return
        if t in ('ident', 'ids', 'formals', 'datum') or g.get('ids'): return s.data(v, g)
        if 'rec' in v.info: s.bad.append('a list of parts is treated as one expression'); return
        if v.gty is not None and v.tag is None:
            if v.gty['t'] == 'list': s.found.append((v, 'rec' if recd else 'raw', None))
            else: s.bad.append('a part of the wrong kind (%s) is used' % v.gty['t'])
            return
        c = v.info.get('call')
        if c and c[0] == 'make_list': return s.tail(I.res(c[1][1]), g['elem'], recd) if t == 'list' else None
        if c and c[0] == 'list_append2':
            s.tail(c[1][0], g, recd); s.tail(c[1][1], g, recd); return
        if c and c[0] == 'list_reverse': return s.tail(c[1][0], g, recd)
        if v is I.sp('minim_null'):
            if t == 'list' and g['min'] == 0: return
            if t == 'list' and g['min']: s.bad.append('the form has too few parts'); return
            s.bad.append('the form has too few parts'); return
        if v.tag == PAIR and 8 in v.f:
            if t == 'pair': s.tail(v.f[8], g['a'], recd); s.tail(v.f[16], g['b'], recd)
            elif t == 'list': s.tail(v.f[8], g['elem'], recd); s.tail(v.f[16], dict(g, min=0), recd)
            return
        if c: return    # identifiers or temporaries made by a helper
        s.bad.append('cannot follow a part of the output (%r)' % v)
    def data(s, v, g):
        I = s.I; v = I.res(v)
        if not isinstance(v, O): return
        if 'rec' in v.info:
            a = I.res(v.info['rec'])
            if isinstance(a, O) and (a.tag == SYMBOL or (a.gty and a.gty['t'] == 'ident')): return
            s.bad.append('quoted data or identifiers are transformed as if they were an expression'); return
        if v.gty is not None:
            if v.gty['t'] == 'expr': s.bad.append('an expression is put where data or identifiers belong'); return
            if g.get('ids') and v.gty['t'] == 'formals':
                x = v
                while isinstance(x, O) and x.tag == PAIR and 16 in x.f: x = I.res(x.f[16])
                if x is not I.sp('minim_null'): s.bad.append('formals that may have a rest identifier are used as a list of identifiers')
            if g['t'] == 'ident' and v.gty['t'] not in ('ident',): s.bad.append('%s used where an identifier belongs' % v.gty['t'])
            if g['t'] == 'datum' and v.gty['t'] != 'datum' : s.bad.append('%s used where quoted data belongs' % v.gty['t'])
            return
        if v.tag == PAIR and 8 in v.f and g['t'] != 'datum':
            el = ID
            s.data(v.f[8], el); s.data(v.f[16], g if g['t'] != 'ident' else ID)

def toplevel(I, form):
    """an input expression of the given form"""
    e = I.new('in', 'expr'); e.gty = E('top')
    if form == 'atom': e.tags = set(range(17)) - {PAIR}
    else:
        e.tag = PAIR; grow(I, e)
        if form == 'app':
            e.f[8].gty = dict(E('op')); e.f[8].info['noform'] = True; e.info['app'] = True
        else:
            h = e.f[8]; sy = I.sp(form); on_same(I, h, sy); h.alias = sy
    return e

def mat_length(I, a, ins):
    """list_length of a list being materialised: open it completely"""
    n = 0; v = I.res(a[0])
    while isinstance(v, O) and I.tag_is(v, PAIR):
        if 16 not in v.f: return S('len', v)
        n += 1; v = I.res(v.f[16])
        if n > 6: raise Cut()
    return n
def mat_listp(I, a, ins):
    v = I.res(a[0])
    while isinstance(v, O) and I.tag_is(v, PAIR):
        if 16 not in v.f: return S('listp', v)
        v = I.res(v.f[16])
    return 1 if v is I.sp('minim_null') else (0 if isinstance(v, O) and v.tag is not None and v.tag != SPECIAL else int(I.same(v, I.sp('minim_null'))))
LISTH = {'list_length': mat_length, 'minim_listp': mat_listp}
SOURCE = ['define_values_symbol', 'setb_symbol', 'lambda_symbol', 'case_lambda_symbol', 'let_values_symbol', 'letrec_values_symbol', 'begin_symbol', 'if_symbol', 'quote_symbol', 'quote_syntax_symbol', 'app', 'atom']
APPHEADS = SPECIALS + ('values_symbol', 'call_with_values_symbol')

def run_form(mod, fn, form, nargs, extra=None, inline=None, maxvisits=3, args=None, opaque=False):
    """yield (PassRun, path, input expression) for every state in which fn returns"""
    pr = PassRun(mod, fn, extra=extra, inline=inline, maxvisits=maxvisits)
    pr.opaque = opaque; box = {}
    f = mod.funcs.get(fn)
    if f is None or f.decl: raise ToolError('pass %s not found' % fn)
    def setup(I):
        e = toplevel(I, form)
        if form == 'app': e.f[8].gty['only'] = APPHEADS
        box['e'] = e
        a = [e] + (args(I) if args else [I.new('in', 'arg%d' % k) for k in range(1, len(f.params))])
        box['args'] = a
        return I.exec(f, a)
    return pr, box, pr.I.run(setup)

def inliner(mod, fn, stop=()):
    """inline what can reach the pass function or sits in its file; list utilities stay symbolic"""
    file = mod.funcs[fn].file
    reach = {fn}; ch = True
    callers = {}
    for f in mod.funcs.values():
        if f.decl: continue
        for i in f.instrs():
            c = ir.callee(i)
            if c: callers.setdefault(c, set()).add(f.name)
    st = [fn]
    while st:
        for c in callers.get(st.pop(), ()):
            if c not in reach: reach.add(c); st.append(c)
    def ok(n):
        if n in stop: return False
        f = mod.funcs[n]
        return f.file == file or n in reach
    return ok

def covered(I, leaf, cov, raw=(), recs=()):
    if any(a in cov for a in ancestors(leaf)): return True
    for arg, r, inside in recs:           # the result of transforming it, taken apart: every part must be used
        if leaf in inside:
            ls = []; leaves(I, r, ls)
            if all(any(a in cov or a in raw for a in ancestors(l)) or (l.gty['t'] == 'expr' and l.tag == PAIR and 8 in l.f and covered(I, l, cov | raw)) for l in ls): return True
    if leaf.gty['t'] == 'expr' and leaf.tag == PAIR and 8 in leaf.f:    # taken apart: every part must be accounted for
        ls = []; leaves(I, leaf, ls)
        return all(covered(I, l, cov, raw, recs) for l in ls if l is not leaf)
    return False

def check_transformer(mod, fn, form, res, passname):
    def on_rec(I, args, ins): pass
    helpers = {'make_tmp_ids': None}
    pr, box, paths = run_form(mod, fn, form, 1, extra=LISTH, inline=inliner(mod, fn), opaque=True)
    n = 0; outs = set(); pr.again = set()
    for p in paths:
        I = pr.I; e = box['e']
        if p.end != 'return':
            if p.end == 'noreturn':
                pr.fail(p.ins, 'rejects', 'raises an error on a well-formed %s' % fname(form))
            continue
        n += 1
        w = Walk(I); w.expr(p.result, False)
        for b in w.bad: pr.fail(I.last, b, b)
        r = I.res(p.result)
        if isinstance(r, O) and r is not e: outs |= heads(I, r)
        elif r is e: outs.add(form)
        ls = []; leaves(I, e, ls)
        if form == 'atom':
            if r is not e: pr.fail(I.last, 'atom', 'does not return an atomic expression unchanged')
            continue
        if r is e and not ls: continue
        cov = {I.res(o) for o, how, role in w.found if how == 'rec'}
        raw = {I.res(o) for o, how, role in w.found if how == 'raw'}
        recs = []
        for ev in p.events:
            if ev[0] == 'rec':
                a = I.res(ev[1][0]); h = I.res(a.f[8]) if isinstance(a, O) and a.kind == 'new' and a.tag == PAIR and 8 in a.f else None
                if isinstance(h, O) and h.kind == 'special' and h.name in FORMS: pr.again.add(h.name)
            if ev[0] == 'rec' and ev[2].tag == PAIR and 8 in ev[2].f:
                wi = Walk(I); wi.expr(ev[1][0], True); recs.append((ev[1][0], ev[2], {I.res(o) for o, how, role in wi.found}))
        for l in ls:
            if l.gty['t'] == 'expr' and l.tag is not None and l.tag != PAIR:   # an atom needs no transformation, but a variable reference must stay
                if l.tag != SYMBOL or covered(I, l, cov | raw, (), recs): continue
            if not covered(I, l, cov, raw, recs):
                if any(a in raw for a in ancestors(l)): 
                    if l.info.get('headof') is not None and l.tag is None and not l.info.get('form'): pass
                    pr.fail(I.last, 'raw %s' % lname(l), 'leaves %s untransformed' % lname(l))
                else: pr.fail(I.last, 'drop %s' % lname(l), 'drops %s' % lname(l))
        for o, how, role in w.found:
            if o.gty['t'] == 'expr' and (o.gty.get('role') or '').startswith('if.') and role and role.startswith('if.') and role != o.gty['role']:
                pr.fail(I.last, 'if role', 'puts %s in the place of %s' % (o.gty['role'], role))
        order(pr, I, w)
    return pr, n, outs

def lname(l):
    g = l.gty
    if g['t'] == 'list': return 'the rest of a list of sub-expressions (%s)' % l.name
    return 'the sub-expression %s' % ((g.get('role') if g.get('role') and g['role'] != 'op' else None) or l.name)

def order(pr, I, w):
    """sub-expressions that come from one list keep their order"""
    last = {}
    for o, how, role in w.found:
        parts = o.name.split('.')
        # position inside the list: number of trailing .cdr before the final .car
        if o.gty['t'] != 'expr' or parts[-1] != 'car': continue
        up = o.info.get('up')
        if up is None or not up.gty or up.gty['t'] != 'list': continue
        k = len(parts) - 1; n = 0
        while k > 0 and parts[k - 1] == 'cdr': n += 1; k -= 1
        base = '.'.join(parts[:k])
        if base in last and last[base][0] > n and o.name not in last[base][1]:
            pr.fail(I.last, 'order', 'changes the order of sub-expressions that are evaluated in sequence'); return
        s = last.get(base, (0, set())); last[base] = (max(n, s[0]), s[1] | {o.name})

def heads(I, v, seen=None):
    """core form symbols that occur as heads in constructed output"""
    out = set(); v = I.res(v)
    if not isinstance(v, O) or v.gty is not None: return out
    if 'rec' in v.info: return out
    if v.tag == PAIR and 8 in v.f and v.kind == 'new':
        h = I.res(v.f[8])
        if isinstance(h, O) and h.kind == 'special' and h.name in FORMS: out.add(h.name)
        out |= heads(I, v.f[8]); out |= heads(I, v.f[16])
    return out

"""Rules on the passes over core expressions (C12, C13)."""
from rules import reg
from report import ToolError
import ir, cfg, passes as PS, checkform as CF
from shape import *
from passes import fname

INTERNAL = {'mvcall_symbol', 'mvlet_symbol', 'mvvalues_symbol', 'make_unbound_symbol'}

def atoms_accepted(mod, maxv=5):
    c = CF.CheckRun(mod, cfg.recursive_of(mod, 'check_expr'), maxv); n = c.run(INTERNAL)
    return c, n

# ---------------------------------------------------------------- analysers
def check_analyser(mod, fn, form, wants_ids):
    """every sub-expression is analysed, and the result of every analysis reaches the returned value or the table"""
    inl = PS.inliner(mod, fn); reachers = {n for n in mod.funcs if not mod.funcs[n].decl and (n == fn or fn in cfg.reach(mod, n))}
    def inline(n): return n in reachers or False
    pr, box, paths = PS.run_form(mod, fn, form, 1, inline=inline)
    def on_call(I, name, args, ins):
        f = mod.funcs.get(name)
        if name is None or name == fn or name in reachers or name in I.hooks or f is None: return None
        if f.noreturn: return None
        if f.ret == 'ptr' and not f.decl or name in ('list_append2',):
            o = I.new('in', 'comb'); o.info['parts'] = list(args); return (o,)
        return None
    pr.I.hooks = dict(pr.I.hooks); pr.I.hooks.pop('list_append2', None); pr.I.hooks.pop('list_reverse', None)
    pr.I.on_call = on_call
    n = 0
    for p in paths:
        I = pr.I; e = box['e']
        if p.end != 'return':
            if p.end == 'noreturn' and form != 'atom': pr.fail(p.ins, 'rejects', 'raises an error on a well-formed %s' % fname(form))
            continue
        n += 1
        recs = [ev for ev in p.events if ev[0] == 'rec']
        cov = set()
        for ev in recs:
            w = PS.Walk(I); a = I.res(ev[1][0])
            if isinstance(a, O) and a.gty is not None and a.gty['t'] == 'ident': cov.add(a)
            w.expr(a, True)
            for b in w.bad: pr.fail(ev[3], b, b)
            cov |= {I.res(o) for o, how, role in w.found}
        ls = []; PS.leaves(I, e, ls)
        if form != 'atom':
            for l in ls:
                if not any(a in cov for a in PS.ancestors(l)): pr.fail(I.last, 'skip %s' % l.name, 'does not analyse %s' % PS.lname(l))
        # results
        got = set(); seen = set()
        def walk(v):
            if isinstance(v, P): v = v.o
            if not isinstance(v, O) or id(v) in seen: return
            seen.add(id(v))
            if 'parts' in v.info:
                for x in v.info['parts']: walk(x)
            got.add(v)
            if v.alias is not None: walk(v.alias)
            for x in v.f.values(): walk(x)
        walk(p.result)
        for a in box['args'][1:]: walk(a)
        # a list found to be empty has nothing to pass on
        def empty(o):
            return I.res(o) is I.sp('minim_null')
        for ev in recs:
            r = ev[2]
            if r in got or empty(r): continue
            if any(empty(c) and inside(c, r) for c in allcombs(p, recs, I)): continue
            pr.fail(ev[3], 'lost', 'drops what it found out about a sub-expression')
        if form == 'atom':
            if p.result is not None and I.res(e).tag == SYMBOL and wants_ids == 'free' and e not in got: pr.fail(I.last, 'symbol', 'does not report a variable reference')
        if wants_ids and form not in ('atom',) and form in PS.FORMS:
            ids = []
            def gids(v, g):
                v0 = v; v = I.res(v); t = g['t']
                if t in ('ident', 'formals') or g.get('ids'): ids.append(v0); return
                if not isinstance(v, O): return
                if t == 'pair' and v.tag == PAIR: gids(v.f[8], g['a']); gids(v.f[16], g['b'])
                elif t == 'list' and v.tag == PAIR and 8 in v.f: gids(v.f[8], g['elem']); gids(v.f[16], g)
            gids(e.f[16], PS.FORMS[form])
            for v in ids:
                w = I.res(v)
                if w is I.sp('minim_null'): continue
                if form == 'setb_symbol':
                    if w not in cov and w not in got and wants_ids == 'free': pr.fail(I.last, 'target', 'does not count the assigned variable')
                elif w not in got and v not in got:
                    if any(empty(c) and (inside(c, w) or inside(c, v)) for c in allcombs(p, recs, I)): continue
                    pr.fail(I.last, 'binders', 'ignores the identifiers the form binds')
    return pr, n
def inside(c, r):
    seen = set()
    def w(v):
        if isinstance(v, P): v = v.o
        if v is r: return True
        if not isinstance(v, O) or id(v) in seen: return False
        seen.add(id(v))
        return any(w(x) for x in list(v.info.get('parts', ())) + list(v.f.values()))
    return w(c)
def allcombs(p, recs, I):
    return [o for o in I.combs] if hasattr(I, 'combs') else []

def check_codegen(mod, fn, form):
    """every sub-expression is compiled, and every compiled part reaches the result"""
    reachers = {n for n in mod.funcs if not mod.funcs[n].decl and (n == fn or fn in cfg.reach(mod, n))}
    pr, box, paths = PS.run_form(mod, fn, form, 1, inline=lambda n: n in reachers)
    lists = {'list_append2', 'list_set_tail', 'list_reverse', 'list_length'}
    written = []
    base = pr.rec
    def rec(I, args, ins):
        sub = I.new('in', 'code'); sub.info['rec'] = args[0]; sub.info['args'] = args
        I.events.append(('rec', args, sub, ins)); return I.cons(sub, I.sp('minim_null'))
    pr.I.hooks[fn] = rec
    def on_call(I, name, args, ins):
        f = mod.funcs.get(name)
        if name is None or name in I.hooks or name in reachers: return None
        if f is None or f.noreturn: return None
        I.events.append(('call', name, args, ins))
        for a in args:
            if isinstance(a, O) and a.tag == PAIR: I.events.append(('sink', name, a, ins))
        if f.ret == 'ptr':
            o = I.new('in', name); o.info['call'] = (name, args); o.nonnull = True; return (o,)
        return None
    pr.I.on_call = on_call
    n = 0
    for p in paths:
        I = pr.I; e = box['e']
        if p.end != 'return':
            if p.end == 'noreturn' and form != 'atom': pr.fail(p.ins, 'rejects', 'raises an error on a well-formed %s' % fname(form))
            continue
        n += 1
        recs = [ev for ev in p.events if ev[0] == 'rec']; cov = set()
        for ev in recs:
            w = PS.Walk(I); w.expr(ev[1][0], True)
            for b in w.bad: pr.fail(ev[3], b, b)
            cov |= {I.res(o) for o, how, role in w.found}
        ls = []; PS.leaves(I, e, ls)
        if form != 'atom':
            for l in ls:
                if not any(a in cov for a in PS.ancestors(l)): pr.fail(I.last, 'skip %s' % l.name, 'does not compile %s' % PS.lname(l))
        roots = [p.result] + [ev[2] for ev in p.events if ev[0] == 'sink']
        got = {}
        seen = set()
        def walk(v, root):
            v = I.res(v)
            while isinstance(v, O) and v.tag == PAIR and 16 in v.f:
                if id(v) in seen: return
                seen.add(id(v))
                x = I.res(v.f[8])
                if isinstance(x, O) and 'rec' in x.info: got[id(x)] = got.get(id(x), 0) + 1
                v = I.res(v.f[16])
        for k, r in enumerate(roots): walk(r, k)
        for ev in recs:
            if id(ev[2]) not in got: pr.fail(ev[3], 'lost', 'drops the code of a sub-expression')
    return pr, n

@reg('C12', 'abstract interpretation of every compiler pass over a grammar of core forms (trace partitioning, lazily materialised expression shapes): coverage of sub-expressions by recursion, provenance of every part of the output',
     'Each pass function is analysed on an arbitrary expression of each core form it can receive (the forms the previous pass can produce). On every path that returns, every sub-expression must have been given to the pass recursively (or be atomic), appear in the result, and stand where an expression belongs; identifiers and quoted data must be passed on unchanged; analyses must not lose what they found. Lists are analysed with 0, 1 and 2 elements per loop, which covers every distinct iteration.')
def c12(res, tier):
    mod = ir.core()
    PS.LISTMAX = 2 if tier == 'quick' else 3
    flows = set(PS.SOURCE)
    res.rule('transform', 'each optimiser level, for each core form it can receive: every sub-expression is transformed and kept, in order, in an expression position; binders and data stay what they are; well-formed input is never rejected')
    nf = npaths = 0
    for name in ('jit_opt_L0', 'jit_opt_L1', 'jit_opt_L2'):
        fn = cfg.recursive_of(mod, name); outs_all = set()
        work = sorted(flows)
        for form in work:       # grows: forms the pass builds and hands to itself
            pr, n, outs = PS.check_transformer(mod, fn, form, res, name)
            if not n and not pr.bad: raise ToolError('%s: no path analysed for %s' % (name, fname(form)))
            nf += 1; npaths += n; outs_all |= outs
            work += [x for x in sorted(pr.again) if x not in work]
            for k, (where, msg) in pr.bad.items(): res.ob(False, '%s %s %s' % (name, fname(form), k), where, '%s on %s: %s' % (name, fname(form), msg))
            if not pr.bad: res.ob(True, '%s %s' % (name, fname(form)), mod.funcs[fn].file, '')
        # what the next pass can receive: anything a recursive call may leave, and what this pass constructs
        nxt = {f for f in flows if f in outs_all or f in ('app', 'atom') or f in PS.FORMS and f not in ('let_values_symbol', 'letrec_values_symbol')}
        if name == 'jit_opt_L0': nxt |= {'make_unbound_symbol'}
        if name == 'jit_opt_L1': nxt |= {'mvcall_symbol', 'mvvalues_symbol', 'mvlet_symbol'}
        nxt |= {f for f in outs_all if f in PS.FORMS}
        if name == 'jit_opt_L0':
            for f in ('let_values_symbol', 'letrec_values_symbol'):
                if f in outs_all: nxt.add(f)
        flows = nxt
        res.cov['forms after %s' % name] = sorted(fname(f) for f in flows)
    res.rule('analyse', 'free- and bound-variable analysis, for each core form that reaches it: every sub-expression is analysed, what is found reaches the result or the table, and the binders of the form take part')
    for name, ids in (('jit_free_vars', 'free'), ('jit_bound_vars', 'bound')):
        fn = cfg.recursive_of(mod, name)
        for form in sorted(flows):
            pr, n = check_analyser(mod, fn, form, ids)
            nf += 1; npaths += n
            for k, (where, msg) in pr.bad.items(): res.ob(False, '%s %s %s' % (name, fname(form), k), where, '%s on %s: %s' % (name, fname(form), msg))
            if not pr.bad: res.ob(True, '%s %s' % (name, fname(form)), mod.funcs[fn].file, '')
    res.rule('generate', 'code generation, for each core form that reaches it: every sub-expression is compiled and its code becomes part of the result')
    fn = cfg.recursive_of(mod, 'compile_expr2')
    for form in sorted(flows):
        pr, n = check_codegen(mod, fn, form)
        nf += 1; npaths += n
        for k, (where, msg) in pr.bad.items(): res.ob(False, 'compile %s %s' % (fname(form), k), where, 'compile_expr2 on %s: %s' % (fname(form), msg))
        if not pr.bad: res.ob(True, 'compile %s' % fname(form), mod.funcs[fn].file, '')
    res.rule('atoms', 'every self-evaluating value the syntax check accepts is accepted by every later pass')
    c, n = atoms_accepted(mod)
    acc = sorted(c.atoms, key=str); res.cov['atoms accepted by the syntax check'] = [TAGNAME[a] if isinstance(a, int) else a for a in acc]
    for name in ('jit_opt_L0', 'jit_opt_L1', 'jit_opt_L2', 'jit_free_vars', 'jit_bound_vars', 'compile_expr2'):
        fn = cfg.recursive_of(mod, name)
        reachers = {m for m in mod.funcs if not mod.funcs[m].decl and (m == fn or fn in cfg.reach(mod, m))}
        for a in acc:
            I = Interp(mod, inline=lambda m: m in reachers, hooks={}); I.what = name
            f = mod.funcs[fn]; bad = None
            def setup(I):
                e = I.new('in', 'atom')
                if isinstance(a, int): e.tag = a
                else: e.alias = I.sp(a)
                return I.exec(f, [I.res(e)] + [I.new('in', 'x') for _ in f.params[1:]])
            for p in I.run(setup):
                if p.end == 'noreturn': bad = p.ins
            nm = TAGNAME[a] if isinstance(a, int) else a
            res.ob(bad is None, '%s atom %s' % (name, nm), bad.loc if bad else f.file, '%s rejects the self-evaluating value %s, which the syntax check accepts' % (name, nm))
    fs = set()
    for r in ('jit_opt_L0', 'jit_opt_L1', 'jit_opt_L2', 'jit_free_vars', 'jit_bound_vars', 'compile_expr2'): fs |= {r} | cfg.reach(mod, r)
    files = {mod.funcs[f].file for f in fs if f.startswith(('jit', 'compile')) and not mod.funcs[f].decl} | {mod.funcs[f].file for f in fs if f.startswith('list_') and not mod.funcs[f].decl}
    cfg.truncated_loops(res, mod, [f for f in fs if f in mod.funcs and not mod.funcs[f].decl and mod.funcs[f].file in files])
    res.cov['paths analysed'] = npaths
    res.need(nf, 70, 'pass x form combinations'); res.need(len(acc), 6, 'atom kinds')

KEYWORDS = {'define-values', 'set!', 'lambda', 'case-lambda', 'let-values', 'letrec-values', 'begin', 'if', 'quote', 'quote-syntax'}
def built(mod, f, v, depth=0):
    """an application the function builds itself from a constant name, strings and lists of those"""
    v = ir.strip(f, v); d = f.defs.get(v) if isinstance(v, str) else None
    if d is None or depth > 8: return False
    if d.op == 'phi': return all(built(mod, f, x, depth + 1) for x, _ in d.x)
    if d.op == 'load': return d.ops[0] == '@minim_null' and depth > 0
    c = ir.callee(d)
    if c in ('intern', 'intern_symbol'): 
        n = ir.cstring(mod, d.ops[-1]); return n is not None and n not in KEYWORDS and '%' not in n
    if c in ('Mstring', 'Mfixnum', 'Mchar'): return depth > 0
    if c == 'Mcons': return built(mod, f, d.ops[0], depth + 1) and built(mod, f, d.ops[1], depth + 1)
    return False

@reg('C13', 'abstract interpretation of the syntax checker on unconstrained input (shape materialisation): every component access must be established, every accepting path must have established the grammar of the form; dominance check that evaluation is preceded by the checker',
     'check_expr is analysed on a completely unknown value. Each access to a car/cdr/name is an obligation: the path must have tested the type. Each path that returns normally must have established that the expression has exactly the shape of its core form, with identifiers that are symbols, proper lists, and every sub-expression checked or atomic.')
def c13(res, tier):
    mod = ir.core()
    fn = cfg.recursive_of(mod, 'check_expr')
    c = CF.CheckRun(mod, fn, 5 if tier == 'quick' else 6); n = c.run(INTERNAL)
    res.rule('established-access', 'the checker reads a component of the expression only on paths that established the type having it')
    acc = {k: v for k, v in c.bad.items() if k.startswith('access')}
    for i in range(c.loads - len(acc)): res.obl += 1; res.dis += 1; r = res.rules['established-access']; r['obligations'] += 1; r['discharged'] += 1
    for k, (w, m) in acc.items(): res.ob(False, k, w, m)
    res.rule('accepted-shape', 'an expression is accepted only if it conforms to the grammar of its form and every sub-expression is checked')
    bad = {k: v for k, v in c.bad.items() if not k.startswith('access')}
    for i in range(max(0, n - len(bad))): res.obl += 1; res.dis += 1; r = res.rules['accepted-shape']; r['obligations'] += 1; r['discharged'] += 1
    for k, (w, m) in bad.items(): res.ob(False, k, w, 'check_expr: ' + m)
    for f in PS.SOURCE:
        if f == 'atom': continue
        res.ob(f in c.forms, 'accepts %s' % fname(f), mod.funcs[fn].file, 'a well-formed %s is not accepted on any path' % fname(f))
    for a in c.atoms:
        ok = a in ('minim_true', 'minim_false') or a in (FIXNUM, CHAR, STRING, SYMBOL, BOX, VECTOR)
        res.ob(ok, 'atom %s' % a, mod.funcs[fn].file, 'accepts %s as a self-evaluating expression' % (TAGNAME[a] if isinstance(a, int) else a))
    cfg.truncated_loops(res, mod, [f for f in mod.funcs if not mod.funcs[f].decl and mod.funcs[f].file == mod.funcs[fn].file])
    res.rule('checked-first', 'every value that reaches the compiler entry has been given to check_expr on every path')
    done = {}
    def need(fnm, k, depth=0):
        """every caller of fnm has checked argument k"""
        if (fnm, k) in done: return
        done[(fnm, k)] = True
        sites = cfg.callsites(mod, fnm)
        for s in sites:
            f = s.fn; v = s.ops[k]
            ok = any(ir.callee(i) == 'check_expr' and cfg.dominates(i, s) and cfg.same_value(f, i.ops[0], v, i, s) for i in f.instrs())
            if not ok and ir.strip(f, v) in f.params and f.name != fnm:
                pk = f.params.index(ir.strip(f, v))
                if cfg.callsites(mod, f.name): need(f.name, pk, depth + 1); continue
            if not ok: ok = built(mod, f, v)
            res.ob(ok, 'check before %s in %s' % (fnm, f.name), s.loc, '%s passes an expression to %s that check_expr has not seen' % (f.name, fnm))
    if 'compile_expr' not in mod.funcs: raise ToolError('compile_expr not found')
    need('compile_expr', 0)
    res.cov['core forms reached'] = {fname(k): v for k, v in c.forms.items()}
    res.need(n, 30, 'accepting paths'); res.need(c.rejected, 60, 'rejecting paths'); res.need(res.rules['checked-first']['obligations'], 2, 'entries to the compiler')

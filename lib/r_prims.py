"""Rules on the primitive table (C04)."""
from rules import reg
from report import ToolError
import ir, cfg, shallow, emit as EM, vmspec as VS, seqrules as SQ
from shape import *
from r_emit import emitted, anchors
import r_scheme as RS
from mnm import *

def accepted(I, q, K):
    """argument counts in 0..K for which the code does not end in an arity error; None if it cannot be told"""
    pos = {x.id: k for k, x in enumerate(q.elems) if x.kind == 'label'}; out = set()
    for ac in range(K + 1):
        k = 0; n = 0
        while True:
            n += 1
            if n > 500: return None
            if k >= len(q.elems): out.add(ac); break
            x = q.elems[k]
            if x.kind != 'ins': 
                if x.kind == 'sub': out.add(ac); break
                k += 1; continue
            s = x.sym.replace('_symbol', '')
            if s == 'do_arity_error': break
            if s in ('apply', 'ret', 'do_apply', 'do_raise', 'ccall', 'do_values'): out.add(ac); break
            if s in ('branchne', 'branchlt', 'branchgt'):
                v = x.ops[0]
                if v[0] != 'fix' or not isinstance(v[1], int) or x.ops[1][0] != 'label' or x.ops[1][1] not in pos: return None
                t = {'branchne': ac != v[1], 'branchlt': ac < v[1], 'branchgt': ac > v[1]}[s]
                k = pos[x.ops[1][1]] if t else k + 1; continue
            if s == 'branchf': return None
            k = pos.get(x.ops[0][1], len(q.elems)) if s == 'brancha' else k + 1
    return out

def denoted(I, a, K):
    """argument counts in 0..K an arity object stands for"""
    a = I.res(a); out = set()
    def num(o):
        v = I.res(o.f.get(8)) if isinstance(o, O) and o.tag == FIXNUM else None
        return EM.lenval(I, v) if v is not None else None
    if isinstance(a, O) and a.tag == FIXNUM:
        n = num(a); return {n} & set(range(K + 1)) if isinstance(n, int) else None
    while isinstance(a, O) and a.tag == PAIR and 16 in a.f:
        n = num(I.res(a.f[8])); t = I.res(a.f[16])
        if not isinstance(n, int): return None
        if isinstance(t, O) and t.name == 'minim_false': return out | set(range(n, K + 1))
        out |= {n} & set(range(K + 1)); a = t
    return out if isinstance(a, O) and a.name == 'minim_null' else None

@reg('C04', 'data flow over the registrations and IR signatures; abstract interpretation of the evaluator call path (ccall) and of every emitted procedure prologue; call-site arity checking on the expanded syntax tree of all Minim sources',
     'Every registration of a primitive is found by data flow and its arity compared with the signature of the C function in the IR; the evaluator is interpreted on a primitive call for every argument count; every emitted procedure body is followed for each argument count and the set it accepts compared with the arity recorded in its code object; every call of a primitive in the Minim sources is compared with the table.')
def c04(res, tier):
    mod = ir.core(); pt = ir.prim_table(mod); res.need(len(pt), 100, 'primitives in the table')
    res.rule('registered', 'each primitive is registered once, with a C function whose parameters are exactly as many object references as the registered arity')
    seen = {}
    for p in pt:
        w = '%s:%s' % (p['file'], p['line']) if p.get('line') else p['file']
        i = p['v']; w = i.loc if hasattr(i, 'loc') else w
        res.ob(p['name'] not in seen, 'unique %s' % p['name'], w, '%s is registered twice' % p['name']); seen[p['name']] = p
        if p['gen'] or p['fn'] is None and p.get('value') is not None: continue
        f = mod.funcs.get(p['fn']) if p['fn'] else None
        if not res.ob(f is not None and isinstance(p['arity'], int), 'resolved %s' % p['name'], w, 'the function or arity registered for %s is not a constant' % p['name']): continue
        res.ob(not f.decl and not f.vararg and len(f.params) == p['arity'], 'arity %s' % p['name'], w, '%s is registered with %d arguments but %s takes %d' % (p['name'], p['arity'], f.name, len(f.params)))
        res.ob(f.ret == 'ptr' and all(t == 'ptr' for t in f.ptys), 'signature %s' % p['name'], w, '%s: %s does not take and return object references only' % (p['name'], f.name))
        res.ob(p['who'] == p['name'], 'named %s' % p['name'], w, '%s is compiled under the name %s' % (p['name'], p['who']))
    res.rule('called', 'the evaluator hands a primitive exactly the arguments of the call, in order, for every registered arity')
    bad = {}
    n, M = VS.check(mod, lambda p, k, w, m: bad.setdefault((p, k), (w, m)), tier)
    for (p, k), (w, m) in bad.items():
        if p == 'C04': res.ob(False, k, w, m)
    mx = max([p['arity'] for p in pt if isinstance(p['arity'], int)]); res.cov['largest registered arity'] = mx
    res.ob(mx <= 6, 'largest arity', 'src/core/c/prim.c', 'a primitive takes %d arguments, more than the evaluator was analysed for' % mx)
    for i in range(7): res.obl += 1; res.dis += 1; r = res.rules['called']; r['obligations'] += 1; r['discharged'] += 1
    res.rule('recorded', 'the arity recorded in a code object is the set of argument counts its code accepts')
    e, runs = emitted(tier); anchors(res, e); K = 6; m = 0; done = {}
    for q in e.seqs:
        if q.kind != 'body' or q.who == 'compile_expr body': continue
        I = q.I; wr = [ev for ev in q.path.events if ev[0] == 'write']
        ars = [ev[2][2] for ev in wr if I.res(ev[1]) is I.res(q.head)] if hasattr(q, 'head') else [ev[2][2] for ev in wr]
        if len(ars) != 1: raise ToolError('%s: the arity given to the code writer is not found' % q.who)
        a = I.res(ars[0]); m += 1; key = q.who
        br = [x for x in q.elems if x.kind == 'ins' and x.sym in ('branchne_symbol', 'branchlt_symbol', 'branchgt_symbol')]
        if len(br) == 1 and not isinstance(I.res(a.f.get(8)) if isinstance(a, O) and a.tag == FIXNUM else None, int) and isinstance(a, O) and a.tag is None:
            op = I.res(I.res(I.res(br[0].cell).f[16]).f[8])
            ok = br[0].sym == 'branchne_symbol' and op is a; msg = 'the code does not test for the arity it records'
        else:
            x, y = accepted(I, q, K), denoted(I, a, K)
            ok = x is not None and x == y
            msg = 'the code accepts %s arguments but records an arity of %s' % (sorted(x) if x is not None else 'an unknown number of', sorted(y) if y is not None else 'unknown form')
        if not ok or key not in done: done[key] = True; res.ob(ok, key, q.where, '%s: %s' % (q.who, msg))
        else: res.obl += 1; res.dis += 1; r = res.rules['recorded']; r['obligations'] += 1; r['discharged'] += 1
    res.need(m, 100, 'emitted procedure bodies')
    res.rule('callers', 'every call of a primitive in the Minim sources passes the registered number of arguments')
    pa = {p['name']: p['arity'] for p in pt}
    R = RS.prelude(); sh = shallow.Shallow(pa)
    progs = [('prelude', R.prog)]
    B = 'src/boot/s/boot.min'; sc = keyword_scope(CORE)
    for nme, v in R.ex.top.tab.items():
        if isinstance(v, Var): sc.bind(nme, v)
    ex = Expander(B, sc); progs.append(('boot image', ex.program(read_file(ir.REPO + '/' + B, B))))
    for _, p in progs: sh.add(p)
    for _, p in progs: sh.check(p)
    for i in range(sh.sites): res.obl += 1; res.dis += 1; r = res.rules['callers']; r['obligations'] += 1; r['discharged'] += 1
    for (kind, own, msg), pos in sh.bad.items():
        if any(nm in msg.split() or '`%s`' % nm in msg for nm in pa): res.ob(False, '%s %s %s' % (kind, own, msg), RS.at(pos), 'in `%s`: %s' % (own, msg))
    res.need(sh.sites, 1000, 'call sites with a known target')

"""Rules decided on the Minim-level runtime (prelude, boot image, standard library)."""
from rules import reg
from report import ToolError
import ir, shallow, library, r_errs
import schemerules as SR
from absint import *
from mnm import *

def at(pos): return '%s:%s' % pos
def prelude():
    R = SR.run_prelude()
    if R.ex.problems: pass
    return R
def boot(R):
    B = 'src/boot/s/boot.min'; sc = keyword_scope(CORE)
    for n, v in R.ex.top.tab.items():
        if isinstance(v, Var): sc.bind(n, v)
    ex = Expander(B, sc)
    return ex, ex.program(read_file(ir.REPO + '/' + B, B))
def full(R):
    if R.budget: raise ToolError('step budget exceeded in: %s' % ', '.join(R.budget))

@reg('C01', 'interprocedural abstract interpretation of the prelude source (type sets, linear facts on lengths, record-type facts); every call of an unchecked primitive is an obligation',
     'Every global procedure of the prelude is analysed from unconstrained arguments; each reachable application of an unchecked $-primitive yields one obligation per required argument type, bound or non-zero divisor, which must follow from the tests on every path to it.')
def c01(res, tier):
    R = prelude(); full(R)
    res.rule('safe-primitive-use', 'on every path to a call of an unchecked primitive, preceding tests imply the type, range and divisor conditions the primitive relies on')
    r, unk = SR.c01(R)
    if unk: raise ToolError('primitives without a precondition entry: %s' % ' '.join(sorted(unk)))
    for (own, prim, what, pos), ok in r.items():
        res.ob(ok, '%s %s %s' % (own, prim, what), at(pos), 'in `%s`: call of %s: %s, but some path does not establish it' % (own, prim, what))
    sites, seen = SR.c01_sites(R)
    missed = [x for x in sites if x not in seen and x[0] != '$exit' and x[0] != '$c-error-handler']
    res.cov['primitive call sites in the source'] = len(sites); res.cov['call sites reached by the analysis'] = len([s for s in sites if s in seen])
    res.cov['call sites not reached (dead code)'] = ['%s %s' % (n, at(p)) for n, p in missed]
    res.need(len(R.entries), 100, 'procedures analysed'); res.need(res.obl, 300, 'primitive-call obligations')
    r_errs.c01(res)

@reg('C02', 'scope resolution and call-site arity/value-count checking on the expanded syntax tree of prelude, boot image and library; arity facts from interprocedural abstract interpretation',
     'Every name in the prelude, the boot image and each library module is resolved against the scope it is written in; every call whose target is statically known (global, local, primitive, apply, call-with-values) is compared with the parameter lists of the target, and multiple-value producers with their consumers.')
def c02(res, tier):
    mod = ir.core(); pt = ir.prim_table(mod); res.need(len(pt), 100, 'primitives in the table')
    pa = {p['name']: p['arity'] for p in pt}
    R = prelude()
    progs = [('prelude', R.prog, R.ex.problems)]
    B = 'src/boot/s/boot.min'
    sc = keyword_scope(CORE)
    for n, v in R.ex.top.tab.items():
        if isinstance(v, Var): sc.bind(n, v)
    ex = Expander(B, sc); progs.append(('boot image', ex.program(read_file(ir.REPO + '/' + B, B)), ex.problems))
    lib = library.Library({n: v for n, v in R.ex.top.tab.items() if isinstance(v, Var)})
    res.need(len(lib.mods), 15, 'library modules')
    seen = [id(p) for p in lib.problems]
    for rel, m in lib.mods.items(): progs.append((rel, m.prog, m.ex.problems if m.ex else []))
    sh = shallow.Shallow(pa)
    for _, p, _ in progs: sh.add(p)
    res.rule('names', 'every referenced name is bound where it is written; forms are well-formed; imports and exports resolve')
    allp = [q for _, _, ps in progs for q in ps] + [q for q in lib.problems if not any(q is z for _, _, ps in progs for z in ps)]
    for _, p, _ in progs: sh.check(p)
    for i in range(sh.refs - len(allp)): res.obl += 1; res.dis += 1; res.rules['names']['obligations'] += 1; res.rules['names']['discharged'] += 1
    for q in allp: res.ob(False, '%s %s' % (q.pos[0], q.msg), at(q.pos), q.msg)
    res.rule('arity', 'the number of arguments at each call of a statically known procedure is one the procedure accepts')
    nb = sh.bad
    for i in range(sh.sites): 
        res.obl += 1; res.rules['arity']['obligations'] += 1
        if i >= len(nb): res.dis += 1; res.rules['arity']['discharged'] += 1
    for (kind, own, msg), pos in nb.items(): res.bad.setdefault('%s|%s %s' % (kind, own, msg), (at(pos), 'in `%s`: %s' % (own, msg)))
    res.rule('order', 'no top-level form needs a definition that comes later in the same program')
    for nm, p, _ in progs:
        e = shallow.early(p, sh)
        res.ob(not e, 'order %s %s' % (nm, e[0][:2] if e else ''), at(e[0][2]) if e else nm, '`%s` is used by `%s` before it is defined' % (e[0][1], e[0][0]) if e else '')
    res.rule('flow', 'calls through parameters and returned procedures whose target the abstract interpretation knows have an accepted argument count')
    bad = {}
    for r in R.I.log + R.loadlog:
        if r['kind'] in ('arity', 'values', 'notproc', 'early'):
            x = {k_: v for k_, v in r.items() if k_ in ('callee', 'got', 'want', 'name')}
            bad.setdefault((SR.owner_name(r), r['kind'], str(x)), (r['pos'], x))
    n = len([r for r in R.entries])
    for (own, kind, s), (pos, x) in bad.items():
        if any(z[1] == own or own in z[1] for z in nb) and kind == 'arity': pass
        res.ob(False, '%s %s %s' % (own, kind, s), at(pos), 'in `%s`: %s %s' % (own, {'arity': 'wrong number of arguments:', 'values': 'wrong number of values:', 'notproc': 'a value that is not a procedure is called', 'early': 'use before definition of'}[kind], x))
    res.ob(not bad, 'prelude flow', SR.PRELUDE, 'see above')
    res.cov['procedures analysed interprocedurally'] = n
    if bad: res.bad.pop('flow|prelude flow', None)
    res.need(sh.sites, 2000, 'call sites with a known target'); res.need(sh.refs, 4000, 'name references')

@reg('C03', 'interprocedural abstract interpretation: each reachable raise of a contract error is compared with the tests on the path to it',
     'For every reachable raise of an argument, range or plain error in the prelude and the base library, the origin must be the name of an enclosing or delegating procedure, and the reported value must be the one the preceding test rejected.')
def c03(res, tier):
    R = prelude(); full(R)
    res.rule('contract-errors', 'origin = name of a procedure on the call chain; reported value = value whose test failed; all operands of the types the error procedure accepts')
    def put(r):
        for (own, nm, what, pos), (ok, detail) in r.items():
            res.ob(ok, '%s %s %s' % (own, nm, what), at(pos), 'in `%s`: %s: %s (%s)' % (own, nm, what, detail))
    put(SR.c03(R)); n1 = res.obl
    res.need(len(R.entries), 100, 'prelude procedures analysed')
    SR.run_library(R)
    if R.lbudget: raise ToolError('step budget exceeded in: %s' % ', '.join(R.lbudget))
    put(SR.c03(R)); res.need(len(R.lentries), 40, 'library procedures analysed'); res.need(n1, 500, 'prelude obligations')
    r_errs.c03(res)

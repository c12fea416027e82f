"""C02: names, arities and multiple-value counts, decided call site by call site on the core AST."""
import ir
from mnm import *
from collections import OrderedDict

def accepts(lam, n): return any(len(c.params) == n or c.rest is not None and len(c.params) <= n for c in lam.clauses)
def arities(lam): return ' or '.join('%d%s' % (len(c.params), '+' if c.rest is not None else '') for c in lam.clauses)

class Shallow:
    def __init__(s, prim_arity):
        s.prim = dict(prim_arity); s.globals = {}; s.multi = set(); s.sites = 0; s.refs = 0; s.bad = OrderedDict(); s.valsites = 0; s.skip = set()
    def add(s, prog):
        """learn the statically known procedures of a program"""
        for d in prog:
            for x in s.flat(d):
                if not isinstance(x, DefV): continue
                if len(x.vars) == 1: s.know(x.vars[0], x.val)
                else:
                    vs = s.explicit(x.val)
                    if vs and len(vs) == len(x.vars):
                        for v, e in zip(x.vars, vs): s.know(v, e)
    def flat(s, d):
        if isinstance(d, Seq):
            for x in d.es: yield from s.flat(x)
        else: yield d
    def know(s, v, e):
        if v in s.globals: s.multi.add(v); return
        s.globals[v] = e if isinstance(e, Lam) and not v.assigned else e if isinstance(e, Ref) and not v.assigned else None
    def explicit(s, e):
        """operands of a (values ...) expression"""
        if isinstance(e, App) and isinstance(e.f, Ref) and e.f.var.kind == 'prim' and e.f.var.name == 'values': return e.args
        return None
    def report(s, kind, owner, pos, msg): s.bad.setdefault((kind, owner, msg), pos)
    def target(s, f, env):
        """what an operator is known to be: ('lam', Lam) / ('prim', n) / ('any',) / None"""
        n = 0
        while isinstance(f, Ref) and n < 20:
            n += 1
            v = f.var
            if v.kind == 'prim':
                a = s.prim.get(v.name)
                return ('prim', a) if a is not None and a >= 0 else None
            if v.assigned or v in s.multi: return None
            if v in env: f = env[v]
            elif v in s.globals: f = s.globals[v]
            else: return None
            if f is None: return None
        if isinstance(f, Lam): return ('lam', f)
        if isinstance(f, Const) and f.val is not None: return ('const',)
        return None
    def check(s, prog):
        for d in prog:
            for x in s.flat(d):
                owner = ' '.join(v.name for v in x.vars) if isinstance(x, DefV) else '<top level>'
                s.visit(x, {}, owner)
                if isinstance(x, DefV): s.vals(len(x.vars), x.val, {}, owner, x.pos)
    def vals(s, want, e, env, owner, pos):
        """every value-producing tail of e must produce `want` values where that is evident"""
        s.valsites += 1
        for t in s.tails(e):
            vs = s.explicit(t)
            got = len(vs) if vs is not None else 1 if isinstance(t, (Const, Lam)) or isinstance(t, Ref) else None
            if got is not None and got != want: s.report('values', owner, getattr(t, 'pos', pos), '%d value%s where %d %s expected' % (got, '' if got == 1 else 's', want, 'is' if want == 1 else 'are'))
    def tails(s, e):
        if isinstance(e, If): yield from s.tails(e.t); yield from s.tails(e.e)
        elif isinstance(e, Seq): yield from s.tails(e.es[-1]) if e.es else ()
        elif isinstance(e, (LetV, LetrecV)): yield from s.tails(e.body)
        elif e is not None: yield e
    def visit(s, e, env, owner):
        if e is None: return
        if isinstance(e, Ref): s.refs += 1
        if isinstance(e, (LetV, LetrecV)):
            e2 = dict(env)
            for vs, val in e.binds:
                if len(vs) == 1 and not vs[0].assigned and isinstance(val, (Lam, Ref)):
                    if not (isinstance(val, Ref) and val.var is vs[0]): e2[vs[0]] = val
                if val is not None and vs: s.vals(len(vs), val, env, owner, e.pos)
            rec = isinstance(e, LetrecV)
            for vs, val in e.binds: s.visit(val, e2 if rec else env, owner)
            s.visit(e.body, e2, owner); return
        if isinstance(e, App):
            s.app(e, env, owner)
        for c in children(e): s.visit(c, env, owner)
    def app(s, e, env, owner):
        t = s.target(e.f, env)
        nm = e.f.var.name if isinstance(e.f, Ref) else 'procedure'
        if isinstance(e.f, Ref) and e.f.var.kind == 'prim' and nm == 'apply':
            s.sites += 1
            if len(e.args) < 2: s.report('arity', owner, e.pos, 'apply is called with %d arguments' % len(e.args)); return
            t2 = s.target(e.args[0], env); n = len(e.args) - 2
            if t2 and t2[0] == 'lam' and not any(c.rest is not None or len(c.params) >= n for c in t2[1].clauses):
                s.report('arity', owner, e.pos, 'procedure applied to at least %d arguments but takes %s' % (n, arities(t2[1])))
            return
        if isinstance(e.f, Ref) and e.f.var.kind == 'prim' and nm == 'call-with-values':
            s.sites += 1
            if len(e.args) != 2: s.report('arity', owner, e.pos, 'call-with-values is called with %d arguments' % len(e.args)); return
            p, c = (s.target(a, env) for a in e.args)
            if p and p[0] == 'lam' and not accepts(p[1], 0): s.report('arity', owner, e.pos, 'the producer given to call-with-values does not accept 0 arguments')
            if p and c and p[0] == c[0] == 'lam':
                for cl in p[1].clauses:
                    if cl.params: continue
                    for t in s.tails(cl.body):
                        vs = s.explicit(t)
                        if vs is not None and not accepts(c[1], len(vs)): s.report('values', owner, e.pos, 'consumer given to call-with-values takes %s, producer returns %d values' % (arities(c[1]), len(vs)))
            return
        if t is None: return
        s.sites += 1
        if t[0] == 'lam':
            if not accepts(t[1], len(e.args)): s.report('arity', owner, e.pos, '`%s` is called with %d argument%s but takes %s' % (nm, len(e.args), '' if len(e.args) == 1 else 's', arities(t[1])))
        elif t[0] == 'prim':
            if t[1] != len(e.args): s.report('arity', owner, e.pos, 'primitive `%s` is called with %d argument%s but takes %d' % (nm, len(e.args), '' if len(e.args) == 1 else 's', t[1]))
        elif t[0] == 'const': s.report('notproc', owner, e.pos, 'a constant is called as a procedure')

def early(prog, sh):
    """top-level forms that run before a name they need is defined: [(owner, name, pos)]"""
    order = {}
    forms = [x for d in prog for x in sh.flat(d)]
    for i, x in enumerate(forms):
        if isinstance(x, DefV):
            for v in x.vars: order.setdefault(v, i)
    out = []
    def direct(e, calls, refs):
        """references evaluated when e runs (not inside unapplied lambdas)"""
        if e is None or isinstance(e, Lam): return
        if isinstance(e, Ref): refs.append(e); return
        if isinstance(e, App) and isinstance(e.f, Lam):
            for c in e.f.clauses: direct(c.body, calls, refs)
        if isinstance(e, App) and isinstance(e.f, Ref): calls.append(e.f.var)
        for c in children(e): direct(c, calls, refs)
    for i, x in enumerate(forms):
        seen = set(); work = [(x.val if isinstance(x, DefV) else x, None)]
        own = ' '.join(v.name for v in x.vars) if isinstance(x, DefV) else '<top level>'
        while work:
            e, via = work.pop()
            calls = []; refs = []
            direct(e, calls, refs)
            for r in refs:
                j = order.get(r.var)
                if j is not None and j >= i and not (j == i and via): out.append((own, r.var.name, r.pos))
            if via is None or True:
                for c in calls:
                    g = sh.globals.get(c)
                    if isinstance(g, Lam) and c not in seen and not c.assigned:
                        seen.add(c)
                        # only unconditional parts of callees run for certain
                        for cl in g.clauses: work.append((uncond(cl.body), c))
    return out
def uncond(e):
    if isinstance(e, If): return e.c
    if isinstance(e, Seq): return Seq([uncond(x) for x in e.es], e.pos)
    if isinstance(e, (LetV, LetrecV)): return type(e)([(vs, uncond(v)) for vs, v in e.binds], uncond(e.body), e.pos)
    if isinstance(e, App): return App(uncond(e.f), [uncond(a) for a in e.args], e.pos)
    return e

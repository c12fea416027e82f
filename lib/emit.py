"""What the code generators emit, and what the evaluator, the linker and the code writer do with it."""
import ir, cfg, passes as PS
from shape import *
from report import ToolError

class Seq:
    """one emitted instruction sequence"""
    def __init__(s, who, kind, elems, where, path):
        s.head = None; s.who = who; s.kind = kind; s.elems = elems; s.where = where; s.path = path; s.env = s.form = s.expr = None
class El:
    """kind: ins(sym, ops) | label(id) | sub(tail) | bad(text)"""
    __slots__ = ('kind', 'sym', 'ops', 'id', 'tail', 'cell')
    def __init__(s, kind, **k):
        s.kind = kind; s.sym = s.ops = s.id = s.tail = s.cell = None
        for a, b in k.items(): setattr(s, a, b)
    def __repr__(s): return {'ins': '%s%s' % (s.sym, s.ops), 'label': 'L%s' % s.id, 'sub': 'sub%s' % s.tail}.get(s.kind, s.kind)

def lenval(I, v):
    """resolve a symbolic list length with what the path learnt later"""
    if isinstance(v, S) and v.k[0] == 'len':
        xs, t = elements(I, v.k[1])
        if t is I.sp('minim_null'): return len(xs)
        if xs: return S('add', S('len', t), len(xs))
        return v
    if isinstance(v, S) and v.k[0] == 'add':
        a = lenval(I, v.k[1])
        return I.arith('add', a, v.k[2], 'i64')
    return v

def operand(I, v):
    v = I.res(v)
    if isinstance(v, O):
        if v.info.get('label'): return ('label', v.id)
        if v.kind == 'special': return ('special', v.name)
        if v.tag == FIXNUM and 8 in v.f: return ('fix', lenval(I, I.res(v.f[8])))
        if v.tag is not None: return ('obj', v.tag)
        if v.tags: return ('tags', tuple(sorted(I.possible(v))))
        return ('any',)
    return ('raw', repr(v)[:30])

def flatten(I, v):
    out = []; v = I.res(v)
    while True:
        if not isinstance(v, O): out.append(El('bad', id='the sequence is not a list')); return out
        if v is I.sp('minim_null'): return out
        if v.tag != PAIR or 16 not in v.f:
            out.append(El('bad', id='part of the sequence is not known')); return out
        x = I.res(v.f[8])
        if not isinstance(x, O): out.append(El('bad', id='a non-object in the sequence'))
        elif x.info.get('label'): out.append(El('label', id=x.id, cell=x))
        elif 'sub' in x.info: out.append(El('sub', tail=x.info['sub'], cell=x))
        elif x.tag == PAIR and 8 in x.f:
            h = I.res(x.f[8])
            if isinstance(h, O) and h.kind == 'special':
                ops = []; y = I.res(x.f[16])
                while isinstance(y, O) and y.tag == PAIR and 16 in y.f: ops.append(operand(I, y.f[8])); y = I.res(y.f[16])
                if y is not I.sp('minim_null'): out.append(El('bad', id='operands of %s do not form a list' % h.name))
                out.append(El('ins', sym=h.name, ops=ops, cell=x))
            else: out.append(El('bad', id='an instruction without an operation name'))
        else: out.append(El('bad', id='%r is not an instruction' % x))
        v = I.res(v.f[16])

class Emit:
    def __init__(s, mod, listmax=2):
        s.mod = mod; s.seqs = []; s.npaths = 0; s.bad = {}; PS.LISTMAX = listmax
        s.rec = cfg.recursive_of(mod, 'compile_expr2')
        s.reach = {n for n in mod.funcs if not mod.funcs[n].decl and (n == s.rec or s.rec in cfg.reach(mod, n))}
        files = {mod.funcs[n].file for n in s.reach if mod.funcs[n].static} | {mod.funcs[s.rec].file}
        s.reach |= {n for n in mod.funcs if not mod.funcs[n].decl and mod.funcs[n].static and mod.funcs[n].file in files}
    def hooks(s, I0=None):
        def label(I, a, ins):
            o = I.new('new', 'label', STRING); o.info['label'] = True; I.events.append(('label', o, a, ins)); return o
        def sub(I, a, ins):
            t = I.res(a[2])
            if not isinstance(t, int): t = 1 if I.truth(t) else 0
            o = I.new('new', 'code'); o.info['sub'] = t; o.info['args'] = a; I.events.append(('rec', a, o, ins))
            return I.cons(o, I.sp('minim_null'))
        def resolve(I, a, ins):
            I.events.append(('seq', a[1], a[0], ins)); o = I.new('in', 'reloc'); return o
        def write(I, a, ins):
            I.events.append(('write', a[0], a, ins)); o = I.new('new', 'code', CODE); return o
        def ref(I, a, ins):
            o = I.new('in', 'ref'); o.tags = {SPECIAL, FIXNUM}; o.gty = {'t': 'ref', 'only': ('minim_false',)}; return o
        return {'cenv_make_label': label, 'scope_cenv_make_label': label, s.rec: sub, 'resolve_refs': resolve, 'write_code': write, 'scope_cenv_ref': ref}
    def on_call(s, inline):
        def f(I, name, args, ins):
            if name is None or name in I.hooks or inline(name): return None
            g = s.mod.funcs.get(name)
            if g is None or g.noreturn: return None
            I.events.append(('call', name, args, ins))
            if g.ret == 'ptr':
                o = I.new('in', name); o.info['call'] = (name, args); o.nonnull = True; return (o,)
            return None
        return f
    def expr(s, form):
        mod = s.mod; inl = lambda n: n in s.reach
        for tail in (0, 1):
            def args(I): return [I.new('in', 'env'), tail]
            pr, box, paths = PS.run_form(mod, s.rec, form, 1, inline=inl, args=args, maxvisits=PS.LISTMAX + 1)
            pr.I.hooks = dict(pr.I.hooks); pr.I.hooks.update(s.hooks()); pr.I.on_call = s.on_call(inl)
            k = 0
            for p in paths:
                if p.end != 'return': continue
                s.npaths += 1; k += 1
                I = pr.I
                q = Seq('%s' % PS.fname(form), 'tail' if tail else 'value', flatten(I, p.result), mod.funcs[s.rec].file, p); q.env = box['args'][1]; q.I = I; s.add(q)
                q.form = form; q.expr = box['e']
                s.bodies(I, p, PS.fname(form))
            for a, b in pr.bad.items(): s.bad.setdefault('%s %s' % (PS.fname(form), a), b)
            if not k and not pr.bad: raise ToolError('no code sequence for %s' % PS.fname(form))
    def bodies(s, I, p, who):
        for ev in p.events:
            if ev[0] == 'seq':
                q = Seq(who + ' body', 'body', flatten(I, ev[1]), ev[3].loc if ev[3] is not None else '?', p); q.head = ev[1]; q.env = ev[2]; q.I = I; s.add(q)
    def add(s, q):
        s.seqs.append(q)
    def builder(s, fn):
        """a function that assembles a code object itself"""
        mod = s.mod; f = mod.funcs[fn]
        inl = lambda n: n in s.builders and n != s.rec and n not in ('resolve_refs', 'write_code') or n == s.rec and False
        I = Interp(mod, inline=inl, hooks=s.hooks(), maxvisits=3); I.what = fn; I.on_call = s.on_call(inl)
        def setup(I): return I.exec(f, [I.new('in', 'a%d' % k) for k in range(len(f.params))])
        n = 0
        for p in I.run(setup):
            if p.end != 'return': continue
            n += 1; s.npaths += 1
            s.bodies(I, p, fn)
        return n
    def run(s, forms):
        for f in forms: s.expr(f)
        mod = s.mod; cg = cfg.callgraph(mod)
        s.builders = {n for n in mod.funcs if not mod.funcs[n].decl and 'resolve_refs' in cfg.reach(mod, n)}
        direct = {n for n in s.builders if 'resolve_refs' in cg[n] and n not in ('resolve_refs',)}
        roots = set()
        # outermost functions of the file that assemble code and do not compile expressions
        for n in s.builders:
            if n in s.reach and n != 'compile_expr' and s.rec in cfg.reach(mod, n) and n not in direct: continue
            if n in s.reach and n not in direct: continue
            if n in s.reach and n in direct:
                if any(c == n or n in cfg.reach(mod, c) for c in [s.rec]): continue       # reached from the expression compiler itself
                roots.add(n); continue
            files = {mod.funcs[c.fn.name].file for c in cfg.callsites(mod, n)}
            if mod.funcs[n].file not in files and n not in ('init_prims',) and (n in direct or any(mod.funcs[d].file == mod.funcs[n].file for d in direct & (cfg.reach(mod, n) | {n}))): roots.add(n)
        s.roots = sorted(roots)
        for n in s.roots:
            if not s.builder(n): raise ToolError('%s: no path analysed' % n)
        return s

# ---------------------------------------------------------------- the evaluator, one instruction at a time
class VM:
    def __init__(s, mod, fn='eval_istream'):
        s.mod = mod; s.fn = fn
        if fn not in mod.funcs or mod.funcs[fn].decl: raise ToolError('%s not found' % fn)
        s.cache = {}
        f = mod.funcs[fn]
        s.inl = lambda n: n in mod.funcs and not mod.funcs[n].decl and mod.funcs[n].file == f.file and mod.funcs[n].static and n in ('load_reg', 'store_reg')
    def run(s, sym, ops):
        """abstractly interpret the dispatch on one instruction; returns dict(rejected=, overrun=, reads=, types=, used=, next=)"""
        key = (sym, tuple(ops))
        if key in s.cache: return s.cache[key]
        mod = s.mod; f = mod.funcs[s.fn]
        out = dict(rejected=None, overrun=None, types=[], used=set(), paths=0, calls=set(), jumps=set())
        st = {}
        I = Interp(mod, inline=s.inl, hooks={}, maxvisits=2); I.what = s.fn
        def onload(I, o, off, idx, ty, ins):
            if not isinstance(o, O) or off not in (8, 16): return
            if off == 8 and ty == 'ptr' and id(o) in st['cells']: out['used'].add(st['cells'][id(o)])
            if o is I.sp('minim_null') and off in (8, 16): out['overrun'] = ins.loc; raise Cut()
            if ty == 'i64' and off == 8 and id(o) in st['opobj']:
                k = st['opobj'][id(o)]; t = I.possible(o)
                if FIXNUM not in t: out['types'].append((k, 'number', ins.loc))
        I.on_load = onload
        def setup(I):
            st['cells'] = {}; st['opobj'] = {}
            l = I.sp('minim_null'); cells = []
            for k in range(len(ops) - 1, -1, -1):
                op = ops[k]
                if op[0] == 'fix': v = I.fix(op[1] if isinstance(op[1], int) else S('n', k))
                elif op[0] == 'label': v = I.fix(S('address', k)); v.info['addr'] = k
                elif op[0] == 'special': v = I.sp(op[1])
                elif op[0] == 'obj': v = I.new('in', 'op%d' % k, op[1])
                else: v = I.new('in', 'op%d' % k)
                if op[0] == 'tags': v.tags = set(op[1]) - {SPECIAL}
                l = I.cons(v, l); st['cells'][id(l)] = k; st['opobj'][id(v)] = k; st.setdefault('keep', []).append((l, v))
            ins = I.cons(I.sp(sym), l); st['ins'] = ins
            stream = I.new('in', 'istream'); stream.f[0] = ins; stream.kind = 'in'
            st['stream'] = stream
            return I.exec(f, [I.new('in', 'tc'), stream])
        # the second visit of the dispatch loop ends the analysis of this instruction
        I.hooks['current_tc'] = lambda I, a, ins: I.new('in', 'tc')
        I.hooks['_setjmp'] = I.hooks['setjmp'] = I.hooks['__sigsetjmp'] = lambda I, a, ins: 0
        head = dispatch_head(mod, f)
        I.stop_at = (f.name, head)
        for p in I.run(setup):
            out['paths'] += 1
            for ev in p.events:
                if ev[0] == 'call': out['calls'].add(ev[1])
            if p.end == 'stop':
                pass
            elif p.end == 'noreturn':
                nm, a = p.result[0], p.result[1]
                m = [x.b for x in a if isinstance(x, Str)]
                if any(b'invalid bytecode' in x or b'executing non-bytecode' in x for x in m) or nm == 'minim_error1' and any(I.res(x) is st['ins'] for x in a if isinstance(x, O)):
                    out['rejected'] = (p.ins.loc if p.ins is not None else '?', m)
        s.cache[key] = out
        return out

def dispatch_head(mod, f):
    """the loop header that loads the next instruction: the block with the most back edges"""
    dom = cfg.dominators(f); best = None
    for b in f.blocks:
        n = sum(1 for p in b.preds if b.name in dom[p.name])
        if n and (best is None or n > best[0]): best = (n, b.name)
    if best is None: raise ToolError('%s has no loop' % f.name)
    return best[1]

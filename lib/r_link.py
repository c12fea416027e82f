"""C11: what linking, writing and reading back code does to every instruction that refers to a place in the code."""
from rules import reg
from report import ToolError
import ir, cfg, emit as EM
from shape import *
from r_emit import emitted, report_seqs, vmops, anchors

def runner(mod):
    """everything is interpreted; recursion is bounded by the concrete lists"""
    I = Interp(mod, inline=lambda n: True, maxvisits=60, maxdepth=60); I.reclimit = 40
    for k in ('list_append2', 'list_set_tail', 'list_reverse', 'list_length'): pass
    return I

class Link:
    """one linked sequence: elems = list of ('i', name, ops) | ('l', name); ops: ('fix', n) | ('label', name) | ('any',)"""
    def __init__(s, mod, elems): s.mod = mod; s.elems = elems
    def build(s, I):
        s.lab = {}; s.obj = []
        for e in s.elems:
            if e[0] == 'l': s.lab[e[1]] = I.new('new', 'label', STRING); s.lab[e[1]].info['label'] = True; s.lab[e[1]].f[8] = I.new('new', 'characters')
        cells = []
        for e in s.elems:
            if e[0] == 'l': cells.append(s.lab[e[1]]); s.obj.append(None); continue
            l = I.sp('minim_null'); ops = []
            for op in reversed(e[2]):
                v = s.lab[op[1]] if op[0] == 'label' else I.fix(op[1]) if op[0] == 'fix' and isinstance(op[1], int) else I.sp(op[1]) if op[0] == 'special' else I.fix(S('n', len(ops))) if op[0] == 'fix' else I.new('new', 'operand', op[1] if op[0] == 'obj' else BOX)
                ops.insert(0, v); l = I.cons(v, l)
            h = I.sp(e[1]); o = I.cons(h, l); cells.append(o); s.obj.append((h, ops))
        r = I.sp('minim_null')
        for c in reversed(cells): r = I.cons(c, r)
        return r

def walk(I, l):
    xs, t = elements(I, l)
    return [I.res(x) for x in xs] if t is I.sp('minim_null') else None

def placed(elems):
    """index among the instructions of the one each label stands for"""
    out = {}; n = 0; pend = []
    for e in elems:
        if e[0] == 'l': pend.append(e[1])
        else:
            for p in pend: out[p] = n
            pend = []; n += 1
    return out

def link(mod, elems, back=True):
    """resolve, write (and read back) the sequence; returns a list of (key, message)"""
    bad = []; L = Link(mod, elems); I = runner(mod); I.what = 'linking'; want = placed(elems); ninst = sum(1 for e in elems if e[0] == 'i'); npath = 0
    rr = mod.funcs.get('resolve_refs'); wc = mod.funcs.get('write_code'); ci = mod.funcs.get('code_to_instrs')
    for nm, f in (('resolve_refs', rr), ('write_code', wc), ('code_to_instrs', ci)):
        if f is None or f.decl: raise ToolError('%s not found' % nm)
    box = {}
    tmpl = {}
    def template(I, a, ins):
        o = I.new('new', 'template', CODE); tmpl[id(o)] = (o, I.res(a[1])); return o
    I.hooks['global_cenv_ref_template'] = template
    I.hooks['cenv_global'] = lambda I, a, ins: I.new('in', 'global')
    # list surgery is done on the exact shapes
    def setup(I):
        ins = L.build(I); tmpl.clear()
        box['stage'] = 'resolving labels'; reloc = I.exec(rr, [I.new('in', 'cenv'), ins])
        box['stage'] = 'writing the code'; box['arity'] = I.new('in', 'arity'); box['code'] = I.exec(wc, [ins, reloc, box['arity']])
        code = I.res(box['code']); box['img'] = {k: code.f[k] for k in code.f} if isinstance(code, O) else {}
        if back: box['stage'] = 'reading the code back'; box['back'] = I.exec(ci, [box['code']])
        return box['code']
    names = [e for e in elems if e[0] == 'i']; objs = None
    for p in I.run(setup):
        npath += 1
        if p.end != 'return':
            who = p.result[0] if p.end == 'noreturn' and p.result else p.end
            bad.append(('fails', '%s fails (%s)' % (box['stage'], who))); continue
        for ev in p.events:
            if ev[0] == 'call': bad.append(('calls', '%s depends on %s' % (box['stage'], ev[1])))
        code = I.res(p.result); objs = [o for o in L.obj if o is not None]
        if not isinstance(code, O) or code.tag != CODE: bad.append(('object', 'the result of writing is not a code object')); continue
        n = I.res(code.f.get(8))
        if n != ninst: bad.append(('length', 'the code object records %s instructions instead of %d' % (n, ninst))); continue
        if I.res(code.f.get(16)) is not I.res(box['arity']): bad.append(('arity', 'the code object does not record the arity it was given'))
        sz = code.info.get('size')
        if not isinstance(sz, int) or sz < 32 + 8 * (ninst + 1): bad.append(('size', 'the code object has %s bytes for %d instructions and their terminator' % (sz, ninst)))
        if I.res(code.f.get(32 + 8 * ninst)) != 0: bad.append(('terminator', 'the instruction array does not end with a null'))
        def isplace(v, j):
            v = I.res(v)
            if not isinstance(v, O) or v.tag != FIXNUM: return False
            w = I.res(v.f.get(8))
            return isinstance(w, P) and w.o is code and w.off == 32 + 8 * j and not w.idx
        for j in range(ninst):
            c = I.res(code.f.get(32 + 8 * j)); h, ops = objs[j]; nm = names[j][1].replace('_symbol', '').replace('_', '-')
            if not isinstance(c, O) or c.tag != PAIR or I.res(c.f[8]) is not h: bad.append(('head', 'instruction %d (%s) is not at its place in the code' % (j, nm))); continue
            got = walk(I, c.f[16])
            if got is None or len(got) != len(ops): bad.append(('operands %s' % nm, '%s is written with %s operands instead of %d' % (nm, 'a wrong list of' if got is None else len(got), len(ops)))); continue
            for k, (g, o) in enumerate(zip(got, ops)):
                sp = names[j][2][k]
                if sp[0] == 'label':
                    if not isplace(g, want[sp[1]]): bad.append(('target %s' % nm, 'operand %d of %s is a label; it is written as %s instead of the address of the instruction after the label' % (k + 1, nm, where(I, code, g))))
                elif names[j][1] == 'make_closure_symbol' and k == 0:
                    t = tmpl.get(id(g))
                    if t is None or t[1] != I.res(o.f[8]): bad.append(('template', 'make-closure is not given the code of the procedure it names'))
                elif g is not I.res(o): bad.append(('operand %s' % nm, 'operand %d of %s changes when the code is written' % (k + 1, nm)))
        if not back: continue
        xs = walk(I, box['back'])
        if xs is None: bad.append(('back', 'reading code back does not give a list')); continue
        xi = [x for x in xs if not (x.tag == STRING)]
        if len(xi) != ninst: bad.append(('back length', 'reading back gives %d instructions instead of %d' % (len(xi), ninst))); continue
        pos = {}; n = 0
        for x in xs:
            if x.tag == STRING: pos[id(x)] = n
            else: n += 1
        for j in range(ninst):
            c = xi[j]; h, ops = objs[j]; nm = names[j][1].replace('_symbol', '').replace('_', '-')
            if c.tag != PAIR or I.res(c.f[8]) is not h: bad.append(('back head', 'instruction %d (%s) is lost when code is read back' % (j, nm))); continue
            got = walk(I, c.f[16])
            if got is None or len(got) != len(ops): bad.append(('back operands %s' % nm, '%s is read back with other operands' % nm)); continue
            wr = walk(I, I.res(code.f[32 + 8 * j]).f[16])
            for k, g in enumerate(got):
                if names[j][2][k][0] == 'label':
                    if pos.get(id(g)) != want[names[j][2][k][1]]: bad.append(('back target %s' % nm, 'the target of %s is not a label placed before its instruction when code is read back' % nm))
                elif g is not wr[k]: bad.append(('back operand %s' % nm, 'operand %d of %s changes when code is read back' % (k + 1, nm)))
    if not npath: raise ToolError('no path through the linker')
    return bad, npath

def where(I, code, g):
    if isinstance(g, O) and g.tag == FIXNUM:
        w = I.res(g.f.get(8))
        if isinstance(w, P) and w.o is code: return 'the address of instruction %d' % ((w.off - 32) // 8)
    if isinstance(g, O) and g.info.get('label'): return 'the label itself'
    return repr(g)

NOP = ('i', 'clear_frame_symbol', ())
NOP2 = ('i', 'push_symbol', ())
@reg('C11', 'abstract interpretation of the linker (label resolution, code writer, code reader) on every emitted instruction that has a label operand, forward and backward; label placement in every emitted sequence',
     'Every label an emitted sequence refers to is placed in that sequence exactly once, with an instruction after it. For every kind of instruction the emitters can produce, the linker is interpreted on a sequence that contains it: label operands, and only those, must become the address of the instruction that follows the label, every other operand, the order and the number of the instructions stay as they are, and reading the code back restores a label before that instruction.')
def c11(res, tier):
    mod = ir.core(); e, runs = emitted(tier); anchors(res, e)
    res.rule('placed', 'labels referred to in a sequence are placed in it once, followed by an instruction')
    report_seqs(res, runs, 'C11', 'placed')
    res.rule('relocated', 'the linker rewrites every label operand, and nothing else, to the address of the labelled instruction')
    n = 0; m = 0
    done = set()
    for (sym, ops), q in sorted(vmops(e).items(), key=lambda x: str(x[0])):
        sig = (sym, tuple(o if o[0] in ('label', 'special', 'obj') else o[:1] for o in ops))
        if sig in done: continue
        done.add(sig)
        lab = any(o[0] == 'label' for o in ops); nm = sym.replace('_symbol', '').replace('_', '-')
        f = ('i', sym, tuple(('label', 'b') if o[0] == 'label' else o for o in ops)); b = ('i', sym, tuple(('label', 'a') if o[0] == 'label' else o for o in ops))
        tests = [[NOP, f, NOP2, ('l', 'a'), ('l', 'b'), NOP]]
        if lab: tests += [[NOP, ('l', 'a'), NOP2, b, NOP], [f, NOP, ('l', 'b'), NOP2, NOP], [NOP, f, f, ('l', 'b'), NOP2, ('l', 'a'), NOP]]
        for t in tests:
            bad, np = link(mod, t); n += 1
            res.ob(not bad, '%s %s' % (nm, bad[0][0] if bad else ''), mod.funcs['write_code'].file, '%s' % (bad[0][1] if bad else ''))
        if lab: m += 1
    # two instructions with different targets do not disturb each other
    br = [s for (s, ops) in vmops(e) if len(ops) == 1 and ops[0][0] == 'label']
    for s1 in sorted(set(br)):
        for s2 in sorted(set(br)):
            bad, np = link(mod, [NOP, ('i', s1, (('label', 'a'),)), ('i', s2, (('label', 'b'),)), NOP, ('l', 'a'), NOP2, ('l', 'b'), NOP]); n += 1
            res.ob(not bad, '%s and %s %s' % (s1, s2, bad[0][0] if bad else ''), mod.funcs['write_code'].file, bad[0][1] if bad else '')
    fs = set()
    for r in ('resolve_refs', 'write_code', 'code_to_instrs'): fs |= {r} | cfg.reach(mod, r)
    cfg.truncated_loops(res, mod, fs)
    res.need(n, 60, 'linked sequences'); res.need(m, 5, 'instructions with a label operand')

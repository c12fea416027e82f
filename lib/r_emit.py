"""Rules on emitted code and the evaluator (C10, C11, C14, C15, C22)."""
from rules import reg
from report import ToolError
import ir, cfg, passes as PS, emit as EM, seqrules as SR, vmspec as V
from shape import *

_cache = {}
def emitted(tier):
    k = tier
    if k not in _cache:
        mod = ir.core(); PS.LISTMAX = 2 if tier == 'quick' else 3
        e = EM.Emit(mod, 2 if tier == 'quick' else 3)
        forms = [f for f in PS.SOURCE if not f.startswith('let')] + ['mvcall_symbol', 'mvlet_symbol', 'mvvalues_symbol', 'make_unbound_symbol']
        e.run(forms)
        # a form whose let levels survive is compiled too
        runs = [SR.SeqRun(q).run() for q in e.seqs]
        _cache[k] = (e, runs)
    return _cache[k]

def report_seqs(res, runs, prop, rule):
    bad = {}
    for r in runs:
        for (p, k), m in r.bad.items():
            if p == prop: bad.setdefault('%s %s' % (r.q.who, k), (r.q, m))
    for k, (q, m) in bad.items(): res.ob(False, k, q.where, '%s (%s position): %s' % (q.who, q.kind, m), rule)
    for r in runs:
        if not any(p == prop for p, _ in r.bad): res.ob(True, '%s %s' % (r.q.who, r.q.kind), r.q.where, '', rule)

def sized(e): return sum(len(q.elems) for q in e.seqs)
def anchors(res, e):
    res.need(len(e.seqs), 200, 'emitted sequences'); res.need(sized(e), 1500, 'emitted elements'); res.need(len(e.roots), 6, 'functions assembling code')
    res.cov['functions assembling code objects'] = e.roots

def vmops(e):
    """distinct (instruction, operand kinds) the compiler can emit"""
    out = {}
    for q in e.seqs:
        for x in q.elems:
            if x.kind != 'ins': continue
            ops = tuple(('fix', o[1]) if o[0] == 'fix' and isinstance(o[1], int) else ('fix', 'n') if o[0] == 'fix' else ('label',) if o[0] == 'label' else o for o in x.ops)
            out.setdefault((x.sym, ops), q)
    return out

@reg('C10', 'abstract interpretation of the code generator over all core forms (emitted sequences as data), type-state of the registers along every sequence, and abstract interpretation of the evaluator dispatch for every emitted instruction; instruction effects compared with the instruction definition',
     'Every sequence any code generator or hand-written primitive can emit is computed by abstract interpretation. Each instruction in it is then given to the evaluator, abstractly: it must be dispatched to a branch that reads only supplied operands of the right type, and whose effect on registers, frame, environment and control is the one the instruction is defined to have; along each sequence every register an instruction reads must hold the kind of thing it needs.')
def c10(res, tier):
    mod = ir.core(); e, runs = emitted(tier); anchors(res, e)
    res.rule('well-formed', 'every emitted instruction has the operands its definition names, and reads registers that hold what it needs')
    report_seqs(res, runs, 'C10', 'well-formed')
    for k, (w, m) in e.bad.items(): res.ob(False, k, w, 'code generation for %s' % (k.split()[0] + ': ' + m))
    res.rule('executed', 'the evaluator recognises every emitted instruction and reads only the operands supplied, all of them, at their type')
    vm = EM.VM(mod); kinds = vmops(e)
    for (sym, ops), q in sorted(kinds.items(), key=lambda x: str(x[0])):
        r = vm.run(sym, ops); nm = sym.replace('_symbol', '').replace('_', '-')
        if not r['paths']: raise ToolError('%s: no path through the evaluator' % nm)
        res.ob(not r['rejected'], 'rejects %s' % nm, q.where, '%s emits %s, which the evaluator rejects' % (q.who, nm))
        res.ob(not r['overrun'], 'overrun %s' % nm, q.where, '%s emits %s with %d operands, the evaluator reads more' % (q.who, nm, len(ops)))
        res.ob(not r['types'], 'types %s' % nm, q.where, '%s emits %s with an operand that is not the number the evaluator reads' % (q.who, nm))
        if not r['rejected'] and not r['overrun']:
            miss = [k for k in range(len(ops)) if k not in r['used']]
            res.ob(not miss, 'unused %s' % nm, q.where, 'the evaluator ignores operand %s of %s' % (miss, nm))
    res.need(len(kinds), 40, 'distinct emitted instructions with operand kinds')
    res.rule('effect', 'each instruction changes exactly what its definition says: result register, argument count, frame slots, environment, continuation, next instruction')
    bad = {}
    n, M = V.check(mod, lambda p, k, w, m: bad.setdefault((p, k), (w, m)), tier)
    for (p, k), (w, m) in bad.items():
        if p == 'C10': res.ob(False, k, w, m)
    for i in range(n - len(bad)): res.obl += 1; res.dis += 1; r = res.rules['effect']; r['obligations'] += 1; r['discharged'] += 1
    res.need(n, 150, 'instruction paths compared with the definition')
    ef = mod.funcs['eval_istream'].file
    cfg.truncated_loops(res, mod, [f for f in mod.funcs if not mod.funcs[f].decl and mod.funcs[f].file == ef])

@reg('C15', 'abstract interpretation of the evaluator on save-cc and ret: correspondence between the state a frame records and the state its return restores; field provenance of the continuation constructor',
     'On every path through save-cc the continuation must be built from the state before the frame was pushed; on every path through ret each component must come from the field of the continuation that recorded it, with the return address taken from the frame, in the same segment as well as after a stack underflow.')
def c15(res, tier):
    mod = ir.core(); bad = {}
    n, M = V.check(mod, lambda p, k, w, m: bad.setdefault((p, k), (w, m)), tier)
    res.rule('frame', 'save-cc records, and ret restores, each component of the state from its own field')
    b15 = [(k, v) for k, v in bad.items() if k[0] == 'C15']
    for (p, k), (w, m) in b15: res.ob(False, k, w, m)
    for i in range(12): res.obl += 1; res.dis += 1; r = res.rules['frame']; r['obligations'] += 1; r['discharged'] += 1
    res.rule('constructor', 'the continuation constructor stores each component in the field it is read from')
    f = mod.funcs.get('Mcontinuation')
    if f is None or f.decl: raise ToolError('Mcontinuation not found')
    I = Interp(mod, inline=lambda n: False); I.what = 'Mcontinuation'; k = 0
    box = {}
    def setup(I):
        box['a'] = [I.new('in', x) for x in ('prev', 'pc', 'env', 'tc')]; box['tc'] = box['a'][3]
        for nm in ('ac', 'cp', 'sfp'): box['tc'].f[V.TC[nm]] = S('ac') if nm == 'ac' else I.new('in', nm)
        return I.exec(f, box['a'])
    for p in I.run(setup):
        if p.end != 'return': continue
        k += 1; o = I.res(p.result); tc = box['tc']
        want = {8: box['a'][0], 16: box['a'][1], 24: box['a'][2], 32: tc.f[16], 40: tc.f[8], 48: tc.f[0]}
        for off, w in want.items():
            g = o.f.get(off) if isinstance(o, O) else None
            nm = {8: 'prev', 16: 'pc', 24: 'env', 32: 'sfp', 40: 'cp', 48: 'ac'}[off]
            res.ob(g is not None and (I.res(g) is I.res(w) or g == w), 'field %s' % nm, f.file, 'Mcontinuation does not record %s in its field' % nm)
        sz = o.info.get('size') if isinstance(o, O) else None
        res.ob(isinstance(sz, int) and sz >= 56, 'size', f.file, 'Mcontinuation allocates %s bytes for its fields' % sz)
    res.need(k, 1, 'paths through the continuation constructor'); res.need(n, 150, 'instruction paths')
    f = mod.funcs.get('Mcached_stack')
    if f is None or f.decl: raise ToolError('Mcached_stack not found')
    I = Interp(mod, inline=lambda n: False); I.what = 'Mcached_stack'
    def setup(I):
        box['a'] = [I.new('in', 'base'), I.new('in', 'prev'), S('len'), I.new('in', 'ret')]
        return I.exec(f, box['a'])
    for p in I.run(setup):
        if p.end != 'return': continue
        o = I.res(p.result)
        for j, nm in enumerate(('base', 'link', 'size', 'return continuation')):
            g = o.f.get(8 * j) if isinstance(o, O) else None
            res.ob(g is not None and (I.res(g) is box['a'][j] or g == box['a'][j]), 'segment field %s' % nm, f.file, 'Mcached_stack does not record the %s in its field' % nm)

@reg('C14', 'abstract interpretation of the evaluator with linear facts on the frame pointer and the stack limit; counting of pushes against stack reservations along every emitted sequence',
     'Every instruction that extends the frame beyond the reserved room must, on each path, have established that the frame plus what it adds ends below the stack limit, or have moved to a new segment of that size; the limit of every segment lies inside it. In every emitted sequence the number of pushes may not exceed the room reserved before them, and argument slots may be read only up to the count the arity test established.')
def c14(res, tier):
    mod = ir.core(); e, runs = emitted(tier); anchors(res, e)
    res.rule('reserved', 'pushes never exceed the room reserved for the frame; argument slots accessed exist')
    report_seqs(res, runs, 'C14', 'reserved')
    res.rule('room', 'check-stack, save-cc, do-with-values and do-apply establish the room they use; growing moves the frame into a segment that is large enough and whose limit lies inside it')
    M = V.Machine(mod); M.calibrate(); bad = {}
    n = V.check_room(M, lambda k, m: bad.setdefault(k, m))
    for k, m in bad.items(): res.ob(False, k, M.file, m)
    for i in range(n - len(bad)): res.obl += 1; res.dis += 1; r = res.rules['room']; r['obligations'] += 1; r['discharged'] += 1
    res.need(n, 25, 'paths through instructions that extend the frame')
    res.cov['pushes counted against reservations'] = sum(r.pushes for r in runs)
    res.rule('limit', 'every segment the evaluator starts on gets a limit inside it')
    limits(res, mod)

def limits(res, mod):
    """all stores of a stack limit in the module: base + size - slop, or a value saved from the same field"""
    n = 0
    for f in mod.funcs.values():
        if f.decl: continue
        for i in f.instrs():
            if i.op != 'store' or i.ty != 'ptr': continue
            a = ir.addr(f, i.ops[1])
            if a[1] != 24 or a[2] or not is_tc(mod, f, a[0]): continue
            n += 1
            v = ir.strip(f, i.ops[0])
            res.ob(limit_ok(mod, f, v, i), 'limit in %s' % f.name, i.loc, '%s sets a stack limit that is not known to lie inside the segment' % f.name)
    res.need(n, 2, 'places that set the stack limit')

def is_tc(mod, f, v):
    """does v denote the thread context (the object whose fields 16 and 24 are the frame pointer and the limit)?"""
    v = ir.strip(f, v)
    if isinstance(v, str) and v in f.params:
        k = f.params.index(v)
        return tcparam(mod, f.name, k)
    d = f.defs.get(v) if isinstance(v, str) else None
    if d is None: return False
    if d.op == 'load':
        x = ir.strip(f, d.ops[0]); dd = f.defs.get(x) if isinstance(x, str) else None
        return dd is not None and dd.op == 'load' and dd.ops[0] == '@curr_thread_ref'
    if d.op == 'phi': return any(is_tc(mod, f, x) for x, _ in d.x if x != v and not (isinstance(x, str) and f.defs.get(x) is not None and f.defs[x].op == 'phi'))
    c = ir.callee(d)
    return c == 'Mthread_context' or c in ('GC_malloc',) and f.name == 'Mthread_context'
_tcp = {}
def tcparam(mod, fn, k):
    key = (fn, k)
    if key in _tcp: return _tcp[key]
    _tcp[key] = False
    ok = False
    for s in cfg.callsites(mod, fn):
        if k < len(s.ops) and is_tc(mod, s.fn, s.ops[k]): ok = True
    _tcp[key] = ok; return ok
def limit_ok(mod, f, v, i, depth=0):
    """a null limit (no stack yet), a limit saved from the same field, or base + size - c with c at least a word"""
    v = ir.strip(f, v)
    if v in (0, 'null', None): return True
    if depth > 6: return False
    d = f.defs.get(v) if isinstance(v, str) else None
    if d is None: return False
    if d.op == 'phi': return all(limit_ok(mod, f, x, i, depth + 1) for x, _ in d.x)
    if d.op == 'select': return all(limit_ok(mod, f, x, i, depth + 1) for x in d.ops[1:])
    if d.op == 'load':
        a = ir.addr(f, d.ops[0])
        if a[1] == 24 and not a[2] and is_tc(mod, f, a[0]): return True
        o = f.defs.get(a[0]) if isinstance(a[0], str) else None
        if o is not None and o.op == 'alloca':
            return all(limit_ok(mod, f, x.ops[0], x, depth + 1) for x in f.instrs() if x.op == 'store' and ir.addr(f, x.ops[1])[:2] == a[:2])
        return False
    base, off, idx = ir.addr(f, v)
    sizes = [ir.strip(f, x.ops[0]) for x in f.instrs() if x.op == 'store' and x.ty == 'i64' and ir.addr(f, x.ops[1])[1] == 72 and is_tc(mod, f, ir.addr(f, x.ops[1])[0])]
    if not idx: return any(isinstance(z, int) and 8 <= off <= z - 8 for z in sizes)
    if len(idx) != 1 or off > -8: return False
    e, sc = idx[0]; e = ir.strip(f, e); dd = f.defs.get(e) if isinstance(e, str) else None
    if sc != 1: return False
    if e in sizes: return True
    if dd is not None and dd.op == 'load':
        a = ir.addr(f, dd.ops[0]); return a[1] == 72 and is_tc(mod, f, a[0])
    return False

@reg('C22', 'type-state over every emitted sequence (frame pushed, procedure set, arguments, continuation stack) with joins at labels',
     'Along every path of every sequence the code generators can emit: an expression whose value is needed leaves with the frame of its surroundings untouched and with no continuation left open; a call in such a position runs in a frame of its own, entered through save-cc and resumed at the label recorded there; code in tail position never pushes a continuation for its last call, runs on a cleared frame and always ends in a return, a call or an error.')
def c22(res, tier):
    mod = ir.core(); e, runs = emitted(tier); anchors(res, e)
    res.rule('discipline', 'frames and continuations balance along every path of every emitted sequence, and joins agree')
    report_seqs(res, runs, 'C22', 'discipline')
    res.rule('tail', 'a call in tail position is emitted without saving a continuation, a call whose value is needed with exactly one around it')
    n = 0; bad = {}
    for q in e.seqs:
        if q.who in ('application', '#%mv-call') and q.kind in ('value', 'tail'):
            n += 1
            sv = [k for k, x in enumerate(q.elems) if x.kind == 'ins' and x.sym == 'save_cc_symbol']; ap = [k for k, x in enumerate(q.elems) if x.kind == 'ins' and x.sym == 'apply_symbol']
            ok = len(ap) == 1 and (len(sv) == 1 and sv[0] == 0 if q.kind == 'value' else not sv)
            res.ob(ok, 'call in %s position of %s' % (q.kind, q.who), q.where, '%s in %s position: %d applications and %d saved continuations' % (q.who, q.kind, len(ap), len(sv)))
    res.need(n, 6, 'emitted calls')
    res.rule('position', 'the last part of a tail-position conditional, sequence, let body or procedure body is compiled for tail position, every other part for its value')
    n = 0
    for q in e.seqs:
        subs = [x for x in q.elems if x.kind == 'sub']
        if not subs or q.who in ('application',): continue
        n += 1
        last = {'if': 2, 'begin': 1, '#%mv-let': 1}.get(q.who, 0)
        for k, x in enumerate(subs):
            if q.kind == 'tail': want = k >= len(subs) - last
            elif q.kind == 'body': want = True
            else: want = False
            nm = q.who.replace(' body', '')
            if q.kind == 'body' and nm not in ('lambda', 'case-lambda', 'compile_expr'): continue
            res.ob(bool(x.tail) == want, 'part %s of %s' % ('in tail position' if want else 'whose value is needed', q.who), q.where, '%s (%s position): part %d of %d is compiled %s' % (q.who, q.kind, k + 1, len(subs), 'for tail position although its value is needed' if x.tail else 'as a non-tail expression: calls in it grow the continuation'))
    res.need(n, 40, 'sequences with parts')

"""Errors raised in C: origin, message and values as they reach the handler; tests the Minim level relies on."""
from report import ToolError
import ir, re
import schemerules as SR
import vmspec as V
from shape import *
from heap import *

def deliver(mod, fn, nargs):
    """what a C error function hands to the error handler: [(problem)] over all paths that call the handler"""
    bad = {}; n = 0; st = {}
    def mstring(I, a, ins): o = I.new('new', 'string', STRING); o.info['of'] = I.res(a[0]); return o
    def res_(I, a, ins): st['room'] = I.res(a[1]); return None
    def end(I, a, ins): raise Done('handler', (), ins)
    def dead(I, a, ins): raise Done('noreturn', (), ins)
    slots = {}
    def setarg(I, a, ins): slots[I.res(a[1])] = I.res(a[2]); return None
    hk = {'Mstring': mstring, 'reserve_stack': res_, 'set_arg': setarg, 'longjmp': end, 'siglongjmp': end, '_longjmp': end, 'minim_shutdown': dead, 'exit': dead, 'write_object': lambda I, a, ins: None, 'current_tc': lambda I, a, ins: st['tc']}
    for x in ('fprintf', 'fputs', 'fputc', 'fwrite', 'putc', 'vfprintf'): hk[x] = lambda I, a, ins: S('io')
    h = HeapRun(mod, fn, hooks=hk); I = h.I; h.bounds = lambda *a, **k: None
    def build(I):
        slots.clear(); st.clear()
        tc = st['tc'] = I.new('in', 'tc'); st['h'] = I.new('in', 'handler', CLOSURE); st['ac'] = S('ac0')
        for nm in ('cp', 'sfp', 'esp', 'env', 'base', 'link', 'reentry'): tc.f[V.TC[nm]] = I.new('in', nm)
        tc.f[V.TC['ac']] = S('ac0'); tc.f[21 * 8] = st['h']; tc.f[V.TC['ccont']] = I.new('in', 'cc', CONT)
        I.sp('curr_thread_ref').f[0] = tc
        st['name'] = I.new('in', 'name') ; st['msg'] = I.new('in', 'msg'); st['x'] = [I.new('in', 'x%d' % k) for k in range(nargs)]
        if I.choose(2, ('null name',)) == 1: st['name'] = 0
        else: st['name'].nonnull = True
        return [st['name'], st['msg']] + st['x']
    for p in h.run(build):
        if p.end != 'handler': continue
        n += 1; I = h.I; tc = st["tc"];
        s = [I.res(slots.get(k)) for k in range(3)]
        if st['name'] == 0:
            if s[0] is not I.sp('minim_false'): bad['origin'] = 'does not pass #f when there is no origin'
        elif not (isinstance(s[0], O) and s[0].info.get('of') is st['name']): bad['origin'] = 'does not pass the origin to the handler'
        if not (isinstance(s[1], O) and s[1].info.get('of') is st['msg']): bad['message'] = 'does not pass the message to the handler'
        xs, t = elements(I, s[2]) if isinstance(s[2], O) else ([], None)
        if t is not I.sp('minim_null') or len(xs) != nargs or any(I.res(u) is not v for u, v in zip(xs, st['x'])): bad['values'] = 'does not pass its values to the handler in order'
        if I.res(tc.f.get(V.TC['ac'])) != 3: bad['count'] = 'does not set the argument count of the handler'
        if I.res(tc.f.get(V.TC['cp'])) is not st['h']: bad['handler'] = 'does not call the error handler of the thread'
        if st.get('room') not in (3,): bad['room'] = 'does not make room for the arguments of the handler'
    return n, bad

def arity(mod):
    """the report of a wrong argument count"""
    bad = {}; n = 0; fn = 'arity_mismatch_exn'; st = {}; got = []
    if fn not in mod.funcs: return 0, {}
    def mk(k):
        def h(I, a, ins): got.append((I.res(a[0]), [I.res(x) for x in a[2:]])); raise Done('error', (), ins)
        return h
    hk = {'minim_error': mk(0), 'minim_error1': mk(1), 'minim_error2': mk(2), 'minim_error3': mk(3)}
    for kind in ('exact', 'least', 'range'):
        for named in (True, False):
            h = HeapRun(mod, fn, hooks=hk); h.bounds = lambda *a, **k: None
            def build(I):
                del got[:]
                c = I.new('in', 'proc', CLOSURE); k = I.new('in', 'code', CODE); c.f[16] = k; nm = I.new('in', 'id', SYMBOL); st['chars'] = nm.f[8] = I.new('in', 'chars'); st['chars'].nonnull = True
                c.f[24] = nm if named else I.sp('minim_false')
                lo, hi = I.new('in', 'lo', FIXNUM), I.new('in', 'hi', FIXNUM); st['v'] = [lo] if kind != 'range' else [lo, hi]
                k.f[16] = lo if kind == 'exact' else I.cons(lo, I.sp('minim_false') if kind == 'least' else hi)
                return [c, S('actual')]
            for p in h.run(build):
                if p.end == 'return': bad['returns'] = 'can return without raising an error'
                if p.end != 'error': continue
                n += 1; I = h.I; o, v = got[-1]
                if named and o is not st['chars']: bad['origin'] = 'does not name the procedure that was called'
                if not named and o != 0: bad['origin'] = 'names a procedure although it has no name'
                if len(v) != len(st['v']) + 1 or any(x is not y for x, y in zip(v, st['v'])): bad['expected'] = 'does not report the expected argument counts'
                elif not (isinstance(v[-1], O) and v[-1].tag == FIXNUM and I.res(v[-1].f.get(8)) == S('actual')): bad['actual'] = 'does not report the number of arguments given'
    return n, bad

def origins(mod, pt, public):
    """errors primitives raise with the name of a public procedure as origin: (primitive, origin, values, location)"""
    import r_sys as RS
    out = {}; n = 0
    rs = dict(RS.roots(mod, pt))
    byfn = {}
    for p in pt:
        if p['fn'] and not p['gen']: byfn.setdefault(p['fn'], set()).add(p['name'].lstrip('$'))
    for fn, names in sorted(byfn.items()):
        if fn not in rs: continue
        R = RS.SysRun(mod, fn); I = R.I; rec = []
        def err(I, a, ins, rec=rec):
            o = I.res(a[0]); s = o.b.rstrip(b'\0').decode('latin-1') if isinstance(o, Str) else None
            rec.append((s, [I.res(x) for x in a[2:]], ins, list(I.args))); raise Done('noreturn', (), ins)
        for x in ('minim_error', 'minim_error1', 'minim_error2', 'minim_error3'): R.h.I.hooks[x] = err
        R.run(rs[fn])
        for s, vals, ins, args in rec:
            n += 1
            if s is None: continue
            key = (fn, s, ins.loc)
            why = None
            if s in public and s not in names and not delegates(s, names): why = 'raises its error under the name %s' % s
            elif s in names and any(v not in args for v in vals): why = 'reports a value that is not one of its arguments'
            out[key] = (why, ins.loc, sorted(names)[0])
    return n, out
def delegates(s, names): return False

def c03(res):
    mod = ir.core(); pt = ir.prim_table(mod)
    res.rule('delivery', 'an error raised in C reaches the error handler with the origin, the message and the values given, in order')
    k = 0
    for fn, m in (('minim_error', 0), ('minim_error1', 1), ('minim_error2', 2), ('minim_error3', 3)):
        if fn not in mod.funcs: continue
        n, bad = deliver(mod, fn, m); k += n; f = mod.funcs[fn]; at = '%s:%s' % (f.file, f.line)
        for w in ('origin', 'message', 'values', 'count', 'handler', 'room'): res.ob(w not in bad, '%s %s' % (fn, w), at, '%s %s' % (fn, bad.get(w)))
    res.need(k, 6, 'paths that raise an error to the handler')
    n, bad = arity(mod); res.need(n, 6, 'paths that report a wrong argument count'); f = mod.funcs['arity_mismatch_exn']
    for w in ('origin', 'expected', 'actual', 'returns'): res.ob(w not in bad, 'arity error %s' % w, '%s:%s' % (f.file, f.line), 'the arity error %s' % bad.get(w))
    res.rule('runtime errors', 'an error a primitive raises under the name of a public procedure carries the name of the procedure it implements, and one of its arguments')
    R = SR.run_prelude(); public = {n for n in R.ex.top.tab} | {p['name'].lstrip('$') for p in pt}
    n, out = origins(mod, pt, public)
    for (fn, s, loc), (why, w, nm) in sorted(out.items()): res.ob(why is None, '%s %s' % (fn, s), w, '%s (%s) %s' % (nm, fn, why))
    res.need(n, 12, 'errors raised by primitives')

TESTS = ('$vector-length', '$string-length', '$length', '$hashtable-size', '$record-type-length')
def c01(res, N=3):
    """the tests and measures the checks of the Minim level are built from"""
    import r_data as RD
    mod = ir.core(); pt = {p['name']: p for p in ir.prim_table(mod)}; T = RD.specs(N); n = 0
    res.rule('tests', 'the predicates, lengths and comparisons the argument checks are made of answer for the type, length or order they are named after')
    for nm in RD.PREDS:
        if nm in pt and pt[nm]['fn']: RD.check_pred(mod, pt[nm], res); n += 1
    for nm in TESTS:
        p = pt.get(nm)
        if p is None or not p['fn'] or nm not in T: continue
        f = mod.funcs[p['fn']]; first = None; n += 1
        for b in T[nm]: first = first or RD.run_spec(mod, f.name, nm, b)
        res.ob(first is None, nm, '%s:%s' % (f.file, f.line), '%s (%s) %s' % (nm, f.name, first))
    for nm in RD.CMPS:
        if nm in pt and pt[nm]['fn']: RD.fx_prim(res, mod, pt[nm]); n += 1
    res.need(n, 20, 'predicates, lengths and comparisons')

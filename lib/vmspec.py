"""The effect of every virtual-machine instruction, read off the evaluator and compared with its definition."""
import ir, cfg, emit as EM
from shape import *
from report import ToolError

TC = dict(ac=0, cp=8, sfp=16, esp=24, ccont=32, env=40, vc=48, values=56, base=64, size=72, link=80, sseg=88, reentry=96, handler=160, tenv=176)
GROW = {'esp', 'base', 'size', 'link', 'sfp'}

class Step:
    """one path through the evaluator for one instruction"""
    pass

class Machine:
    def __init__(s, mod, fn='eval_istream'):
        s.mod = mod; s.fn = fn
        if fn not in mod.funcs or mod.funcs[fn].decl: raise ToolError('%s not found' % fn)
        s.f = mod.funcs[fn]; s.head = EM.dispatch_head(mod, s.f); s.slots = None; s.npaths = 0
        s.file = s.f.file
    def inline(s, n):
        g = s.mod.funcs.get(n)
        return g is not None and not g.decl and not g.noreturn and (g.file == s.file and n not in s.STOP)
    STOP = ('eval_expr',)
    def paths(s, sym, ops, setupop=None, fresh=None, maxvisits=4):
        """ops: callables I -> value"""
        mod = s.mod; st = {}
        I = Interp(mod, inline=s.inline, hooks={}, maxvisits=maxvisits); I.what = s.fn
        I.MAXV = maxvisits
        def newobj(nm, tag=None):
            def h(I, a, ins):
                o = I.new('new', nm, tag); o.info['call'] = (nm, a); o.info['tc'] = dict(st['tc'].f); I.events.append(('call', nm, a, ins)); return o
            return h
        I.hooks.update({'Mcontinuation': newobj('Mcontinuation', CONT), 'Menv': newobj('Menv', ENV), 'Mclosure': newobj('Mclosure', CLOSURE), 'Mcached_stack': newobj('Mcached_stack'), 'compile_expr': newobj('code', CODE),
                        'current_tc': lambda I, a, ins: st['tc'], '_setjmp': lambda I, a, ins: 0, 'setjmp': lambda I, a, ins: 0, '__sigsetjmp': lambda I, a, ins: 0})
        def copy(nm):
            def h(I, a, ins):
                # a copy of a known number of words is that many loads and stores
                I.events.append(('call', nm, a, ins)); n = I.res(a[2]); d, p = [I.res(x) for x in a[:2]]
                d, p = [P(x, 0) if isinstance(x, O) else x for x in (d, p)]
                if isinstance(n, int) and n % 8 == 0 and isinstance(d, P) and isinstance(p, P) and isinstance(I.res(d.o), O) and isinstance(I.res(p.o), O):
                    over = 'memcpy' in nm and I.res(d.o) is I.res(p.o) and d.idx == p.idx and abs(d.off - p.off) < n and d.off != p.off
                    vs = [I.new('in', 'overlap') if over else I.load(P(I.res(p.o), p.off + k, p.idx), 'ptr', ins) for k in range(0, n, 8)]
                    for k, v in enumerate(vs): I.store(P(I.res(d.o), d.off + 8 * k, d.idx), v, 'ptr', ins)
                return a[0]
            return h
        for nm in ('memcpy', 'memmove', 'llvm.memcpy.p0.p0.i64', 'llvm.memmove.p0.p0.i64'): I.hooks[nm] = copy(nm)
        stores = []
        def onstore(I, o, off, idx, v, ty, ins): 
            if st.get('on'): stores.append((o, off, idx, v, ins))
        I.on_store = onstore
        def enter(I):
            tc = st['tc']; st['penv'] = tc.f.get(40); st['on'] = True; del stores[:]
            tc.f = {}
            def inobj(nm, tag=None):
                o = I.new('in', nm, tag); return o
            seg = st['seg'] = inobj('frame'); 
            pre = {'ac': S('ac'), 'cp': inobj('cp'), 'sfp': seg, 'esp': inobj('esp'), 'ccont': inobj('ccont', CONT), 'env': inobj('env', ENV), 'vc': S('vc'), 'values': inobj('values'),
                   'base': inobj('base'), 'size': S('size'), 'link': inobj('link'), 'sseg': inobj('sseg'), 'reentry': inobj('reentry'), 'handler': inobj('handler'), 'tenv': inobj('tenv', TOPENV)}
            if fresh: fresh(I, pre, st)
            for k, v in pre.items(): tc.f[TC[k]] = v
            st['pre'] = dict(pre)
            st['regs'] = []
            if s.slots:
                o = st['tregs'] = next((x for x in st['allocas'] if isinstance(x, O)), None)
                regs = [inobj('r%d' % k) for k in range(3)]
                if fresh and st.get('regs_init'): regs = st['regs_init'](I, regs)
                for k in range(3): st['tregs'].f[s.slots[k]] = regs[k]
                st['regs'] = regs
        I.on_enter = enter
        # the register file is the array the evaluator allocates
        arr = [i for i in s.f.instrs() if i.op == 'alloca' and str(i.ty).startswith('[')]
        if len(arr) != 1: raise ToolError('%s has no single register file' % s.fn)
        def setup(I):
            del stores[:]; st['on'] = False
            tc = st['tc'] = I.new('in', 'tc'); st['allocas'] = []
            onew = I.new
            def new(kind, name, tag=None):
                o = onew(kind, name, tag)
                if kind == 'stack' and name == 'local' and I.last is not None and I.last is arr[0]: st['allocas'].append(o)
                return o
            I.new = new
            l = I.sp('minim_null'); vals = [f(I) for f in ops]
            for v in reversed(vals): l = I.cons(v, l)
            ins = I.cons(I.sp(sym), l); st['ins'] = ins; st['ops'] = vals
            stream = I.new('in', 'istream'); stream.f[0] = ins; st['stream'] = stream
            if 'curr_thread_ref' in mod.gdefs or True: I.sp('curr_thread_ref').f[0] = tc
            return I.exec(s.f, [tc, stream])
        I.stop_at = (s.f.name, s.head)
        for p in I.run(setup):
            s.npaths += 1
            q = Step(); q.I = I; q.end = p.end; q.events = p.events; q.result = p.result; q.pre = st['pre'] if st.get('on') else None; q.regs = st['regs']; q.ops = st['ops']; q.ins = st['ins']; q.p = p
            q.tc = {k: I.res(st['tc'].f.get(v)) for k, v in TC.items()} if st.get('on') else None; q.stream = st['stream']; q.seg = st.get('seg'); q.penv = st['penv'] if 'penv' in st else None; q.tcobj = st['tc']; q.st = st
            q.stores = list(stores); q.loc = p.ins.loc if getattr(p, 'ins', None) is not None else s.file
            if p.end == 'stop':
                f, env, prev, b = p.result
                a = [i for i in b.instrs if i.op == 'load'][0].ops[0]; d = f.defs.get(a)
                if d is not None and d.op == 'phi' and d.block is b: q.next = I.res(I.val(env, [v for v, n in d.x if n == prev][0]))
                else: raise ToolError('cannot find the instruction pointer of %s' % f.name)
                if s.slots: q.post = [I.res(st['tregs'].f.get(s.slots[k])) for k in range(3)]
                q.tregs = st['allocas'][0]
            yield q
    def calibrate(s):
        """where the registers live: literal writes register 0, mov k 0 copies it to register k"""
        def objop(I): o = I.new('in', 'lit'); return o
        slot = None
        for q in s.paths('literal_symbol', [objop]):
            if q.end == 'stop':
                v = q.ops[0]; c = [k for k, x in q.tregs.f.items() if x is v]
                if len(c) != 1: raise ToolError('literal does not write one register')
                slot = c[0]
        if slot is None: raise ToolError('literal is not executed')
        out = [slot]
        for k in (1, 2):
            def fresh(I, pre, st): st['marker'] = st['allocas'][0].f[slot] = I.new('in', 'marker')
            hit = None
            for q in s.paths('mov_symbol', [lambda I: I.fix(k), lambda I: I.fix(0)], fresh=fresh):
                if q.end != 'stop': continue
                c = [kk for kk, x in q.tregs.f.items() if x is q.st['marker'] and kk != slot]
                if len(c) == 1: hit = c[0]
            out.append(hit)
        if None in out or len(set(out)) != 3: raise ToolError('the registers 1 and 2 have no place of their own')
        s.slots = out

def frame_at(q, i):
    """address of argument i of the current frame as (object, offset, idx)"""
    return (q.seg, 8 + 8 * i, ())

def check(mod, res_fail, tier='quick'):
    """res_fail(prop, key, where, msg).  returns number of (instruction, path) pairs compared"""
    M = Machine(mod); M.calibrate(); n = [0]; lab = lambda k: (lambda I: I.fix(S('address', k)))
    num = lambda v: (lambda I: I.fix(v)); obj = lambda nm='operand': (lambda I: I.new('in', nm)); ids = lambda k: (lambda I: mklist(I, k))
    def mklist(I, k):
        l = I.sp('minim_null')
        for j in range(k - 1, -1, -1): l = I.cons(I.new('in', 'id%d' % j, SYMBOL), l)
        return l
    def addr(v): return isinstance(v, S) and v.k[0] == 'address'
    def nextis(q, what):
        if what == 'next': return isinstance(q.next, P) and q.next.o is q.stream and q.next.off == 8 and not q.next.idx
        if isinstance(what, tuple) and what[0] == 'label': return q.next == S('address', what[1])
        return what(q)
    def expect(q, sym, prop, regs=None, tc=None, stores=None, nxt='next', grown=False, regdc=()):
        """compare one path with the definition; returns False after reporting"""
        n[0] += 1; I = q.I; ok = True; name = sym.replace('_symbol', '').replace('_', '-')
        def bad(key, msg):
            nonlocal ok; ok = False; res_fail(prop, '%s %s' % (name, key), M.file, '%s: %s' % (name, msg))
        regs = regs or {}; tc = tc or {}
        for k in range(3):
            want = regs.get(k, q.regs[k])
            if k in regdc: continue
            if not match(q, want, q.post[k]): bad('register %d' % k, 'register %d is %s' % (k, 'not set to what the instruction produces' if k in regs else 'changed'))
        grewnow = q.tc['base'] is not q.pre['base']
        for k in TC:
            if grown and grewnow and k in GROW and k not in tc: continue
            want = tc.get(k, q.pre[k]); got = q.tc[k]
            if k == 'vc' and k not in tc: pass
            if not match(q, want, got): bad('state %s' % k, '%s is %s' % (LONG.get(k, k), 'not set to what the instruction prescribes' if k in tc else 'changed although the instruction does not concern it'))
        # memory
        got = [(I.res(o), off, idx, v, ins) for o, off, idx, v, ins in q.stores if I.res(o) is not q.tcobj and isinstance(I.res(o), O) and (I.res(o).kind in ('in', 'special', 'glob') or I.res(o) is q.tc['base']) and I.res(o) is not q.tregs]
        want = list(stores or [])
        for (o, off, idx, v, ins) in got:
            hit = next((w for w in want if w[0] is o and w[1] == off and tuple(w[2]) == tuple(idx) and match(q, w[3], v)), None)
            if hit is not None: want.remove(hit)
            elif any(w[0] is o and w[1] == off and tuple(w[2]) == tuple(idx) for w in (stores or [])): bad('stores', 'stores something else than it should')
            elif grown and grewnow and o is q.tc['base']: pass
            elif o.tag == CLOSURE and off == 24 and sym in ('bind_values_symbol', 'tl_bind_values_symbol'): pass
            else: bad('stores elsewhere', 'writes to memory the instruction does not concern')
        if want: bad('store missing', 'does not store what it should')
        if not nextis(q, nxt): bad('next', 'continues at the wrong instruction')
        return ok
    LONG = {'ac': 'the argument count', 'cp': 'the current procedure', 'sfp': 'the frame pointer', 'esp': 'the stack limit', 'ccont': 'the current continuation', 'env': 'the current environment', 'vc': 'the value count', 'values': 'the value buffer',
            'base': 'the stack base', 'size': 'the stack size', 'link': 'the stack link', 'tenv': 'the top-level environment', 'handler': 'the error handler'}
    def match(q, want, got):
        if callable(want): return bool(want(q, got))
        w = q.I.res(want) if isinstance(want, (O, P)) else want; g = q.I.res(got) if isinstance(got, (O, P)) else got
        if isinstance(w, O) or isinstance(g, O): return w is g
        return w == g
    def void(q, v): return v is q.I.sp('minim_void')
    def run(sym, ops, spec, need=1, fresh=None, prop='C10', maxvisits=4, errors=None):
        """every normal path must match spec(q) -> kwargs; at least `need` normal paths"""
        k = 0; name = sym.replace('_symbol', '').replace('_', '-')
        for q in M.paths(sym, ops, fresh=fresh, maxvisits=maxvisits):
            if q.end == 'stop':
                kw = spec(q)
                if kw is None: continue
                k += 1
                if 'cond' in kw:
                    c = kw.pop('cond')
                    if c: res_fail(prop, '%s condition' % name, M.file, '%s: %s' % (name, c))
                expect(q, sym, kw.pop('prop', prop), **kw)
            elif q.end == 'return':
                if sym != 'ret_symbol': res_fail(prop, '%s leaves' % name, M.file, '%s leaves the evaluator' % name)
            elif errors is not None and q.pre is not None:
                c = errors(q)
                if c: res_fail(prop, '%s error' % name, q.loc, '%s: %s' % (name, c))
        if k < need: res_fail(prop, '%s not executed' % name, M.file, '%s is not executed (only error paths)' % name)
    cons = lambda a, d: (lambda q, v: isinstance(v, O) and v.tag == PAIR and v.kind == 'new' and match(q, a, v.f.get(8)) and match(q, d, v.f.get(16)))
    acp = lambda c: (lambda q, v: v == (S('add', S('ac'), c) if c else S('ac')))
    single = lambda q: None if q.I.sp('minim_values') in q.regs[0].neq or q.I.possible(q.regs[0]) and SPECIAL not in q.I.possible(q.regs[0]) else 'several values are accepted where one is required'
    R = lambda k: (lambda q, v: v is q.I.res(q.regs[k]))
    OP = lambda k: (lambda q, v: v is q.I.res(q.ops[k]))
    # ---- registers and data
    run('literal_symbol', [obj()], lambda q: dict(regs={0: OP(0)}))
    for d in range(5):
        for a in range(5):
            srcv = {0: R(0), 1: R(1), 2: R(2), 3: lambda q, v: v is q.pre['cp'], 4: lambda q, v: v == S('ac')}[a]
            run('mov_symbol', [num(d), num(a)], lambda q: dict(regs={d: srcv}) if d < 3 else dict(tc={'cp' if d == 3 else 'ac': srcv}))
    def cellof(q, idx): return q.pre['env'].f.get(8 + 8 * idx)
    for idx in (0, 2):
        run('lookup_symbol', [num(idx)], lambda q: dict(regs={0: lambda q, v: isinstance(cellof(q, idx), O) and v is q.I.res(q.I.res(cellof(q, idx)).f.get(16)) and q.I.sp('minim_unbound') in (v.neq if isinstance(v, O) else ())}))
        run('lookup_cell_symbol', [num(idx)], lambda q: dict(regs={0: lambda q, v: v is q.I.res(cellof(q, idx))}))
        run('bind_symbol', [num(idx), obj('id')], lambda q: dict(regs={0: void}, stores=[(q.pre['env'], 8 + 8 * idx, (), cons(OP(1), R(0)))]))
        run('bind_cell_symbol', [num(idx)], lambda q: dict(regs={0: void}, stores=[(q.pre['env'], 8 + 8 * idx, (), R(0))]))
        def rebind(q):
            c = q.I.res(cellof(q, idx)); return dict(regs={0: void}, stores=[(c, 16, (), R(0))])
        run('rebind_symbol', [num(idx)], rebind)
        run('closure_ref_symbol', [num(1), num(idx)], lambda q: dict(regs={0: lambda q, v: v is q.I.res(q.I.res(q.regs[1]).f.get(40 + 8 * idx))}))
        run('closure_set_symbol', [num(1), num(idx), num(0)], lambda q: dict(stores=[(q.I.res(q.regs[1]), 40 + 8 * idx, (), R(0))]))
        run('get_arg_symbol', [num(1), num(idx)], lambda q: dict(regs={1: lambda q, v: v is q.I.res(q.seg.f.get(8 + 8 * idx))}))
        run('set_arg_symbol', [num(idx), num(2)], lambda q: dict(stores=[(q.seg, 8 + 8 * idx, (), R(2))]))
    # ---- top level: the cell of the name
    def tlcell(q, name='top_env_find'):
        return next((e[2] for e in q.events if e[0] == 'call' and e[1] == name), None)
    def called(q, name, *args):
        return any(e[0] == 'call' and e[1] == name and all(match(q, w, g) for w, g in zip(args, e[2])) for e in q.events)
    def found(q):
        """the pair the lookup of the name returned, if the path is one on which it was found"""
        for e in q.events:
            if e[0] == 'call' and e[1] == 'top_env_find': return e
    def tlspec(q):
        if not called(q, 'top_env_find', q.pre['tenv'], OP(0)): return dict(cond='does not look the name up in the current top-level environment')
        return dict(regs={0: lambda q, v: derived(q, v, ('top_env_find', 8, 16)) and q.I.sp('minim_unbound') in v.neq})
    def derived(q, v, path):
        """v is reached from the result of the named call through these fields"""
        for o in allobjs(q):
            c = o.info.get('call')
            if c and c[0] == path[0]:
                x = o
                for off in path[1:]:
                    x = q.I.res(x)
                    x = x.f.get(off) if isinstance(x, O) else None
                if x is not None and q.I.res(x) is v: return True
        return False
    def allobjs(q):
        seen = {}
        def w(v):
            v = v.o if isinstance(v, P) else v
            if not isinstance(v, O) or id(v) in seen: return
            seen[id(v)] = v
            if 'of' in v.info: w(v.info['of'][0])
            for x in v.f.values(): w(x)
            if v.alias is not None: w(v.alias)
        for v in list(q.tc.values()) + list(q.post): w(v)
        for e in q.stores: w(e[0]); w(e[3])
        return list(seen.values())
    run('tl_lookup_symbol', [obj('id')], tlspec)
    def tlcellspec(q):
        if not called(q, 'top_env_find', q.pre['tenv'], OP(0)): return dict(cond='does not look the name up in the current top-level environment')
        if called(q, 'top_env_insert'):
            return dict(cond=None if called(q, 'top_env_insert', q.pre['tenv'], OP(0), lambda q, v: v is q.I.sp('minim_unbound')) else 'creates the variable with a value', regs={0: lambda q, v: derived(q, v, ('top_env_insert', 8))})
        return dict(regs={0: lambda q, v: derived(q, v, ('top_env_find', 8))})
    run('tl_lookup_cell_symbol', [obj('id')], tlcellspec, need=2)
    def cellstores(q, count):
        """each binding ends in the cell of the name or in an insertion"""
        return [e for e in q.events if e[0] == 'call' and e[1] in ('top_env_find', 'top_env_insert')]
    def tlrebind(q):
        if not called(q, 'top_env_find', q.pre['tenv'], OP(0)): return dict(cond='does not look the name up in the current top-level environment')
        st = [x for x in q.stores if q.I.res(x[0]) is not q.tcobj and q.I.res(x[0]) is not q.tregs]
        if len(st) != 1 or not derived(q, q.I.res(st[0][0]), ('top_env_find', 8)) or st[0][1] != 16 or not R(0)(q, q.I.res(st[0][3])): return dict(cond='does not assign the value to the variable found', regdc=(0,), stores=[(q.I.res(x[0]), x[1], x[2], x[3]) for x in st])
        return dict(regdc=(0,), stores=[(q.I.res(st[0][0]), 16, (), R(0))])
    run('tl_rebind_symbol', [obj('id')], tlrebind)
    # ---- binding several values
    for c in (0, 1, 2):
        def bv(q, c=c):
            multi = q.I.res(q.regs[0]) is q.I.sp('minim_values')
            l = []; x = q.ops[2]
            while x is not q.I.sp('minim_null'): l.append(x.f[8]); x = q.I.res(x.f[16])
            if not multi:
                if c != 1: return dict(cond='one value is accepted for %d variables' % c, regdc=(0,))
                return dict(cond=single(q), regs={0: void}, stores=[(q.pre['env'], 8 + 8 * 3, (), cons(l[0], R(0)))])
            return dict(cond=None if implied_eq(q.I, S('vc'), c) else 'a different number of values is accepted for %d variables' % c, regs={0: void},
                        stores=[(q.pre['env'], 8 + 8 * (3 + j), (), cons(l[j], (lambda q, v, j=j: v is q.I.res(q.pre['values'].f.get(8 * j))))) for j in range(c)])
        run('bind_values_symbol', [num(3), num(c), ids(c)], bv, maxvisits=5)
        def tbv(q, c=c):
            multi = q.I.res(q.regs[0]) is q.I.sp('minim_values')
            l = []; x = q.ops[1]
            while x is not q.I.sp('minim_null'): l.append(x.f[8]); x = q.I.res(x.f[16])
            if not multi and c != 1: return dict(cond='one value is accepted for %d variables' % c, regdc=(0,))
            if multi and not implied_eq(q.I, S('vc'), c): return dict(cond='a different number of values is accepted for %d variables' % c, regdc=(0,))
            vals = [q.I.res(q.regs[0])] if not multi else [q.I.res(q.pre['values'].f.get(8 * j)) for j in range(c)]
            st = [(q.I.res(x[0]), x[1], x[2], x[3]) for x in q.stores if q.I.res(x[0]) is not q.tcobj and q.I.res(x[0]) is not q.tregs and not (x[1] == 24)]
            ev = [e for e in q.events if e[0] == 'call' and e[1] in ('top_env_find', 'top_env_insert')]
            finds = [e for e in ev if e[1] == 'top_env_find']; insr = [e for e in ev if e[1] == 'top_env_insert']
            cond = None if multi or c == 0 else single(q)
            if len(finds) != c or any(not (q.I.res(e[2][0]) is q.pre['tenv'] and q.I.res(e[2][1]) is q.I.res(l[j])) for j, e in enumerate(finds)): cond = 'does not look each name up in the current top-level environment'
            k = 0; cells = [x for x in st if x[1] == 16]
            done = 0
            for j in range(c):
                if any(q.I.res(e[2][1]) is q.I.res(l[j]) and q.I.res(e[2][2]) is vals[j] and q.I.res(e[2][0]) is q.pre['tenv'] for e in insr): done += 1
                elif any(q.I.res(x[3]) is vals[j] and derived(q, x[0], ('top_env_find', 8)) for x in cells): done += 1
            if done != c: cond = 'does not bind each name to its value'
            return dict(cond=cond, regs={0: void}, stores=st)
        run('tl_bind_values_symbol', [num(c), ids(c)], tbv, maxvisits=5)
    # ---- environments and closures
    def newcall(nm, *args): return lambda q, v: isinstance(v, O) and v.info.get('call', (None,))[0] == nm and all(match(q, w, g) for w, g in zip(args, v.info['call'][1]))
    run('push_env_symbol', [num(3)], lambda q: dict(tc={'env': newcall('Menv', 3)}))
    run('make_closure_symbol', [obj('code'), num(3)], lambda q: dict(regs={0: newcall('Mclosure', lambda q, v: v is q.pre['env'], OP(0), 3)}))
    for cnt in (0, 1, 2, 3, 9, 40):
        # the closure holds cnt variables
        def setn(I, pre, st, cnt=cnt): pre['cp'].f[32] = cnt
        run('closure_bind_symbol', [], lambda q: dict(stores=[(q.pre['env'], 8 + 8 * k, (), (lambda q, v, k=k: v is q.I.res(q.pre['cp'].f.get(40 + 8 * k)))) for k in range(cnt)]), fresh=setn, maxvisits=50)
    run('get_tenv_symbol', [num(1)], lambda q: dict(regs={1: lambda q, v: v is q.pre['tenv']}))
    run('set_tenv_symbol', [num(1)], lambda q: dict(tc={'tenv': R(1)}))
    # ---- frames
    run('set_proc_symbol', [], lambda q: dict(cond=single(q), tc={'cp': R(0)}))
    run('push_symbol', [], lambda q: dict(cond=single(q), tc={'ac': acp(1)}, stores=[(q.seg, 8, ((S('ac'), 8),), R(0))]))
    run('pop_symbol', [], lambda q: dict(regs={0: lambda q, v: v is q.I.res(q.seg.f.get(('i', 0, ((S('ac'), 8),))))}, tc={'ac': acp(-1)}))
    run('clear_frame_symbol', [], lambda q: dict(tc={'ac': 0, 'cp': lambda q, v: v == 0 or v is q.I.sp('minim_void')}))
    def save(q):
        sfp0 = q.tc['base'] if q.tc['base'] is not q.pre['base'] else q.seg
        new = P(sfp0, 8, ((S('ac'), 8),)) if True else None
        cc = q.tc['ccont']; I = q.I; cond = None
        if not (isinstance(cc, O) and cc.info.get('call', (None,))[0] == 'Mcontinuation'): cond = 'does not make a new continuation'
        else:
            a = cc.info['call'][1]; t = cc.info['tc']
            if not (I.res(a[0]) is q.pre['ccont']): cond = 'the new continuation is not linked to the current one'
            elif not (a[1] == S('address', 0)): cond = 'the new continuation does not record the return address'
            elif not (I.res(a[2]) is q.pre['env']): cond = 'the new continuation does not record the current environment'
            elif not (I.res(t[TC['sfp']]) is sfp0 and I.res(t[TC['cp']]) is q.pre['cp'] and t[TC['ac']] == S('ac')): cond = 'the continuation is recorded after the frame it should describe was changed'
        st = [x for x in q.stores if q.I.res(x[0]) in (q.seg, sfp0) and x[3] == S('address', 0)]
        if len(st) != 1 or st[0][1] != 8 or tuple(st[0][2]) != ((S('ac'), 8),): cond = cond or 'the return address is not stored at the start of the new frame'
        keep = [(q.I.res(x[0]), x[1], x[2], x[3]) for x in st]
        return dict(prop='C15', grown=True, cond=cond, tc={'ccont': lambda q, v: True, 'sfp': lambda q, v: v == new, 'ac': 0, 'cp': lambda q, v: v is q.I.sp('minim_void') or v == 0}, stores=keep)
    run('save_cc_symbol', [lab(0)], save, need=2, prop='C15')
    # ---- control
    run('brancha_symbol', [lab(0)], lambda q: dict(nxt=('label', 0)))
    def bf(q):
        isf = q.I.res(q.regs[0]) is q.I.sp('minim_false')
        if not isf and q.I.sp('minim_false') not in q.regs[0].neq: return dict(cond='does not depend on the result being #f')
        return dict(nxt=('label', 0) if isf else 'next', regs={0: R(0)})
    run('branchf_symbol', [lab(0)], bf, need=2)
    for sym, pred in (('branchgt_symbol', 'sgt'), ('branchlt_symbol', 'slt'), ('branchne_symbol', 'ne')):
        for c in (0, 2):
            def rawr(I, pre, st): st['regs_init'] = lambda I, regs: [S('raw')] + regs[1:]
            def br(q):
                taken = q.next == S('address', 1)
                # what the path knows must imply the condition or its negation
                t = decided(q.I, pred, S('raw'), c)
                if t is None: return dict(cond='the jump does not depend on the comparison it is named after', nxt=lambda q: True, regs={0: lambda q, v: True})
                return dict(nxt=('label', 1) if t else 'next', regs={0: lambda q, v: v == S('raw')})
            run(sym, [num(c), lab(1)], br, need=2 if not (pred == 'ult') else 1, fresh=rawr)
    def applyspec(q):
        cp = q.I.res(q.pre['cp'])
        if cp.tag != CLOSURE: return dict(cond='applies something that is not a procedure')
        code = q.I.res(cp.f.get(16)); return dict(tc={'env': lambda q, v: v is q.I.res(cp.f.get(8))}, nxt=lambda q: isinstance(q.next, P) and q.next.o is code and q.next.off == 32 and not q.next.idx)
    run('apply_symbol', [], applyspec)
    # ---- values
    def setac(ac):
        def f(I, pre, st): pre['ac'] = ac
        return f
    COUNTS = (0, 1, 2, 3, 9, 40)
    for cnt in COUNTS:
        def dv(q, c=cnt):
            if c == 0: return dict(regs={0: lambda q, v: v is q.I.sp('minim_values')}, tc={'vc': 0, 'values': lambda q, v: True})
            if c == 1: return dict(regs={0: lambda q, v: v is q.I.res(q.seg.f.get(8))}, tc={'vc': 1, 'values': lambda q, v: True})
            a = q.tc['values']; cond = None
            if not (isinstance(a, O) and a.kind == 'new'): cond = 'the value buffer is not fresh'
            elif not (isinstance(a.info.get('size'), int) and a.info['size'] >= 8 * c): cond = 'the value buffer does not have one place per value'
            elif any(8 + 8 * j not in q.seg.f or q.I.res(a.f.get(8 * j)) is not q.I.res(q.seg.f[8 + 8 * j]) for j in range(c)): cond = 'the arguments of the frame are not copied to the value buffer'
            return dict(cond=cond, regs={0: lambda q, v: v is q.I.sp('minim_values')}, tc={'vc': c, 'values': lambda q, v: True})
        run('do_values_symbol', [], dv, fresh=setac(cnt), maxvisits=50)
    # values to arguments: ac arguments on the frame, vc values
    for c0 in (0, 2):
        for vc in COUNTS:
            def wvf(I, pre, st, c0=c0, vc=vc): pre['ac'] = c0; pre['vc'] = vc
            def wv(q, c0=c0, vc=vc):
                base = q.tc['sfp']
                if q.I.res(q.regs[0]) is not q.I.sp('minim_values'): return dict(cond=single(q), grown=True, tc={'ac': c0 + 1}, stores=[(base, 8 + 8 * c0, (), R(0))])
                return dict(grown=True, tc={'ac': c0 + vc}, stores=[(base, 8 + 8 * (c0 + j), (), (lambda q, v, j=j: v is q.I.res(q.pre['values'].f.get(8 * j)))) for j in range(vc)])
            run('do_with_values_symbol', [], wv, need=2, fresh=wvf, maxvisits=50)
    def dr(q, i, ac):
        I = q.I; xs, t = elements(I, q.post[0])
        if t is not I.sp('minim_null'): return dict(cond='the rest list is not a proper list', regdc=(0,))
        for j, x in enumerate(xs):
            if 8 + 8 * (i + j) not in q.seg.f or I.res(x) is not I.res(q.seg.f[8 + 8 * (i + j)]): return dict(cond='the rest list does not hold the remaining arguments in order', regdc=(0,))
        return dict(cond=None if ac == i + len(xs) else 'the rest list has not as many elements as there are arguments left', regdc=(0,))
    for i in (0, 1, 3):
        for ac in COUNTS:
            if ac >= i: run('do_rest_symbol', [num(i)], lambda q, i=i, ac=ac: dr(q, i, ac), fresh=setac(ac), maxvisits=50)
    def noeffect(q): return dict(grown=True)
    run('check_stack_symbol', [num(3)], noeffect, need=2)
    # ---- calls out of the machine
    for ac in range(0, 7):
        def cc(q, ac=ac):
            ic = [e for e in q.events if e[0] == 'icall']
            cond = None
            if len(ic) != 1: cond = 'does not call the primitive exactly once'
            elif not (ic[0][1] == S('address', 9)): cond = 'calls something else than the primitive of the instruction'
            elif len(ic[0][2]) != ac or any(q.I.res(a) is not q.I.res(q.seg.f.get(8 + 8 * j)) for j, a in enumerate(ic[0][2])): cond = 'a primitive called with %d arguments does not receive exactly these, in order' % ac
            return dict(prop='C04', cond=cond, regs={0: lambda q, v: isinstance(v, O) and v.name.startswith('icall')}, tc={'ac': ac})
        run('ccall_symbol', [lambda I: I.fix(S('address', 9))], cc, fresh=setac(ac), prop='C04')
    def evs(q):
        chk = [k for k, e in enumerate(q.events) if e[0] == 'call' and e[1] == 'check_expr' and q.I.res(e[2][0]) is q.I.res(q.regs[0])]
        cmpd = [k for k, e in enumerate(q.events) if e[0] == 'call' and e[1] == 'code' and q.I.res(e[2][0]) is q.I.res(q.regs[0])]
        cond = None if chk and cmpd and chk[0] < cmpd[0] else 'the expression is not checked and then compiled'
        return dict(cond=cond, regs={0: lambda q, v: isinstance(v, O) and v.info.get('call', (None,))[0] == 'Mclosure' and isinstance(q.I.res(v.info['call'][1][1]), O) and q.I.res(v.info['call'][1][1]).tag == CODE})
    run('do_eval_symbol', [], evs)
    def raise_(q):
        h = q.I.res(q.pre['handler'])
        if h.tag != CLOSURE: return dict(cond='calls a handler that is not a procedure')
        return dict(tc={'cp': lambda q, v: v is h, 'env': lambda q, v: v is q.I.res(h.f.get(8))}, nxt=lambda q: isinstance(q.next, P) and q.next.o is q.I.res(h.f.get(16)) and q.next.off == 32)
    run('do_raise_symbol', [], raise_)
    # apply: (apply f x ... l) with k fixed arguments and a list of m elements
    for k in (0, 1, 2):
        for m in (0, 1, 2):
            def init(I, pre, st, k=k, m=m):
                pre['ac'] = k + 2; seg = st['seg']; l = I.sp('minim_null'); els = [I.new('in', 'e%d' % j) for j in range(m)]
                for e in reversed(els): l = I.cons(e, l)
                f = I.new('in', 'f'); xs = [I.new('in', 'x%d' % j) for j in range(k)]
                for j, v in enumerate([f] + xs + [l]): seg.f[8 + 8 * j] = v
                st['want'] = xs + els; st['f'] = f
            def ap(q, k=k, m=m):
                f = q.I.res(q.st['f']); base = q.tc['sfp']; cond = None; grew = q.tc['base'] is not q.pre['base']
                for j, w in enumerate(q.st['want']):
                    g = base.f.get(8 + 8 * j) if isinstance(base, O) else None
                    if q.I.res(g) is not q.I.res(w): cond = 'apply does not pass the arguments followed by the elements of the list'
                code = q.I.res(f.f.get(16)) if f.tag == CLOSURE else None
                if f.tag != CLOSURE: cond = 'applies something that is not a procedure'
                return dict(cond=cond, grown=True, tc={'cp': lambda q, v: v is f, 'ac': k + m, 'env': lambda q, v: f.tag == CLOSURE and v is q.I.res(f.f.get(8))},
                            nxt=lambda q: isinstance(q.next, P) and q.next.o is code and q.next.off == 32, stores=[(q.I.res(x[0]), x[1], x[2], x[3]) for x in q.stores if q.I.res(x[0]) in (q.seg, base)])
            run('do_apply_symbol', [], ap, fresh=init, prop='C10', maxvisits=6)
    # ---- return
    def initret(I, pre, st): pass
    k = [0, 0, 0]
    for q in M.paths('ret_symbol', [], fresh=initret):
        I = q.I; P15 = lambda key, msg: res_fail('C15', 'ret ' + key, M.file, 'ret: ' + msg)
        if q.end == 'return':
            n[0] += 1; k[0] += 1
            if I.res(q.result) is not I.res(q.regs[0]): P15('result', 'leaves the evaluator with something else than the result')
            if q.tc['env'] is not q.penv: P15('exit env', 'leaves the evaluator without restoring the environment it was entered with')
            continue
        if q.end != 'stop': continue
        n[0] += 1
        under = q.tc['base'] is not q.pre['base']; k[2 if under else 1] += 1
        if under:
            sr = I.res(q.pre['link']); cc = I.res(sr.f.get(24)) if isinstance(sr, O) else None
            for nm, off, t in (('base', 0, 'base'), ('link', 8, 'link'), ('size', 16, 'size')):
                w = I.res(sr.f.get(off)) if off in sr.f else None
                if w is None or q.tc[t] is not w and q.tc[t] != w: P15('segment %s' % t, 'the %s of the previous stack segment is not restored' % LONG[t].replace('the ', ''))
            if not (isinstance(q.tc['esp'], (P, O))): P15('segment esp', 'the stack limit of the previous segment is not restored')
        else: cc = q.pre['ccont']
        ra = I.res(q.seg.f.get(0))
        if not isinstance(cc, O): P15('continuation', 'takes the continuation from the wrong place'); continue
        if q.next is not ra: P15('address', 'does not continue at the return address of the frame')
        for nm, off in (('ccont', 8), ('env', 24), ('sfp', 32), ('cp', 40), ('ac', 48)):
            w = cc.f.get(off); g = q.tc[nm]
            if w is None or not (I.res(w) is g or I.res(w) == g): P15(nm, '%s is not restored from what the continuation recorded' % LONG[nm])
        for nm in ('tenv', 'handler', 'reentry', 'sseg', 'vc', 'values'):
            if q.tc[nm] is not q.pre[nm] and q.tc[nm] != q.pre[nm]: P15(nm, '%s changes on return' % LONG.get(nm, nm))
        if q.post[0] is not I.res(q.regs[0]): P15('value', 'the returned value is lost')
    if not k[0] or not k[1] or not k[2]: res_fail('C15', 'ret ways', M.file, 'ret: expected three ways to return, found %s' % k)
    return n[0], M

def decided(I, pred, a, c):
    """does the path know pred(a, c)?"""
    lo, hi, ne = I.facts.get(('rng', a), (None, None, frozenset()))
    if pred == 'slt': return True if hi is not None and hi < c else False if lo is not None and lo >= c else None
    if pred == 'sgt': return True if lo is not None and lo > c else False if hi is not None and hi <= c else None
    return True if c in ne or (lo is not None and lo > c) or (hi is not None and hi < c) else False if lo == hi == c else None

# ---------------------------------------------------------------- room on the stack
def lin(v):
    """linear form {symbol: coefficient, 1: constant}"""
    if isinstance(v, int): return {1: v}
    if isinstance(v, S):
        if v.k[0] == 'add':
            a = lin(v.k[1]); b = lin(v.k[2]); return {k: a.get(k, 0) + b.get(k, 0) for k in set(a) | set(b)}
        if v.k[0] == 'sub':
            a = lin(v.k[1]); b = lin(v.k[2]); return {k: a.get(k, 0) - b.get(k, 0) for k in set(a) | set(b)}
        if v.k[0] == 'mul' and isinstance(v.k[2], int): return {k: c * v.k[2] for k, c in lin(v.k[1]).items()}
        if v.k[0] == 'shl' and isinstance(v.k[2], int): return {k: c << v.k[2] for k, c in lin(v.k[1]).items()}
        if v.k[0] == 'sdiv' or True: return {v: 1}
    return {v: 1}
def plin(p, o):
    """offset of pointer p inside object o, linear; None if it points elsewhere"""
    if p is o: return {1: 0}
    if isinstance(p, P) and p.o is o:
        r = {1: p.off}
        for v, c in p.idx:
            for k, x in lin(v).items(): r[k] = r.get(k, 0) + x * c
        return r
def diff(a, b): return {k: a.get(k, 0) - b.get(k, 0) for k in set(a) | set(b) if a.get(k, 0) != b.get(k, 0)}
def geq(I, a, b):
    """is a >= b for all non-negative values of the symbols, given the path's facts?"""
    d = diff(a, b)
    if all(c >= 0 for c in d.values()): return True
    for x, y in upper(I):          # x <= y
        e = diff(d, diff(y, x))    # d - (y - x) >= 0 ?
        if all(c >= 0 for c in e.values()): return True
        if all(k == 1 or c >= 0 for k, c in e.items()) and e.get(1, 0) >= 0: return True
    return False
def compares(I):
    """(pred, a, b) known to hold on the path"""
    for k, r in I.facts.items():
        if isinstance(k, tuple) and len(k) == 3 and isinstance(k[0], str) and k[0] in NEG and isinstance(r, bool): yield (k[0] if r else NEG[k[0]], k[1], k[2])
        if isinstance(k, tuple) and k[0] == 'rng' and isinstance(k[1], S) and k[1].k[0] == 'cmp':
            lo, hi, ne = r
            if lo == hi == 0: yield NEG[k[1].k[1]], k[1].k[2], k[1].k[3]
            elif lo == hi == 1 or 0 in ne: yield k[1].k[1], k[1].k[2], k[1].k[3]
        if isinstance(k, tuple) and k[0] == 'true' and isinstance(k[1], S) and k[1].k[0] == 'cmp': yield (k[1].k[1] if r else NEG[k[1].k[1]]), k[1].k[2], k[1].k[3]
def upper(I):
    for p, a, b in compares(I):
        if p[1:] in ('gt', 'ge'): p = SWAP[p]; a, b = b, a
        if p[1:] in ('lt', 'le') and isinstance(a, (int, S)) and isinstance(b, (int, S)): yield lin(a), lin(b)
def room(q):
    """bytes known to lie between the frame pointer and the stack limit, as linear forms"""
    I = q.I; out = []
    if q.tc['base'] is not q.pre['base']:
        b = q.tc['base']; e = plin(q.tc['esp'], b)
        if e is not None: out.append(e)
        return out
    seg = q.seg; esp = q.pre['esp']
    for p, a, b in compares(I):
        if p[1:] in ('gt', 'ge'): p = SWAP[p]; a, b = b, a
        if p[1:] not in ('lt', 'le'): continue
        a = I.res(a); b = I.res(b)
        if b is esp and plin(a, seg) is not None: out.append(plin(a, seg))
        if isinstance(b, S) and b.k[0] == 'sub' and I.res(b.k[1]) is esp and I.res(b.k[2]) is seg and isinstance(a, (int, S)): out.append(lin(a))
    return out
SLOP = 1024
def check_room(M, fail):
    """the instructions that extend the frame establish the room first; growing moves the frame"""
    n = 0
    ac = S('ac')
    def need(I, sym, ops, words, fresh=None, maxvisits=5):
        nonlocal n
        name = sym.replace('_symbol', '').replace('_', '-'); k = 0
        for q in M.paths(sym, ops, fresh=fresh, maxvisits=maxvisits):
            if q.end != 'stop': continue
            w = words(q)
            if w is None: continue
            n += 1; k += 1
            want = {kk: c * 8 for kk, c in lin(w).items()}
            grew = q.tc['base'] is not q.pre['base']
            r = room(q)
            if not any(geq(q.I, x, want) for x in r): fail('%s room' % name, '%s: %s' % (name, 'the new segment' if grew else 'the segment') + ' is not known to have room for the frame and what the instruction adds to it')
            if grew: grown(q, name)
        if not k: fail('%s paths' % name, '%s is not executed' % name)
    def grown(q, name):
        I = q.I; b = q.tc['base']; size = q.tc['size']
        acn = q.pre['ac']
        if not (isinstance(b, O) and b.kind == 'new'): return fail('grow base', 'growing the stack does not allocate a new segment')
        sz = b.info.get('size')
        if sz is None or not geq(I, lin(sz), lin(size) if not isinstance(size, O) else {}): fail('grow size', 'the recorded size of a new segment exceeds what is allocated')
        e = plin(q.tc['esp'], b)
        if e is None or not geq(I, diff(lin(size), e), {1: 8}): fail('grow limit', 'the stack limit of a new segment lies outside it')
        if isinstance(acn, int):
            # the words of the current frame, return address first
            for j in range(q.st.get('frame_words') or 1 + acn):
                if 8 * j in q.seg.f and I.res(b.f.get(8 * j)) is I.res(q.seg.f[8 * j]) or q.st.get('frame_words') and j: continue
                fail('grow copy', 'growing the stack does not move the whole current frame to the new segment'); break
        l = q.tc['link']
        c = l.info.get('call') if isinstance(l, O) else None
        if not c or c[0] != 'Mcached_stack': return fail('grow link', 'growing the stack does not record the previous segment')
        a = c[1]
        for k, (what, off) in enumerate((('base', 'base'), ('link', 'link'), ('size', 'size'))):
            if not (I.res(a[k]) is q.pre[off] or a[k] == q.pre[off]): fail('grow record %s' % what, 'the record of the previous segment does not hold its %s' % what)
        if I.res(a[3]) is not q.pre['ccont']: fail('grow record return', 'the record of the previous segment does not hold the continuation to return to')
    for k in (0, 3): need(None, 'check_stack_symbol', [lambda I: I.fix(k)], lambda q, k=k: S('add', ac, 1 + k))
    for c in (0, 1, 2, 9, 40):
        def setac(I, pre, st, c=c): pre['ac'] = c
        need(None, 'check_stack_symbol', [lambda I: I.fix(1)], lambda q, c=c: c + 2, fresh=setac, maxvisits=50)
    need(None, 'save_cc_symbol', [lambda I: I.fix(S('address', 0))], lambda q: S('add', ac, 2))
    need(None, 'do_with_values_symbol', [], lambda q: S('add', S('add', ac, S('vc')), 1) if q.I.res(q.regs[0]) is q.I.sp('minim_values') else None)
    for k in (0, 2):
        for m in (0, 1, 2):
            def init(I, pre, st, k=k, m=m):
                pre['ac'] = k + 2; seg = st['seg']; l = I.sp('minim_null')
                for j in range(m): l = I.cons(I.new('in', 'e%d' % j), l)
                for j, v in enumerate([I.new('in', 'f%d' % j) for j in range(k + 1)] + [l]): seg.f[8 + 8 * j] = v
                st['frame_words'] = 1 + k
            need(None, 'do_apply_symbol', [], lambda q, k=k, m=m: 1 + k + m, fresh=init, maxvisits=6)
    # returning to an older segment puts its limit back inside it
    for q in M.paths('ret_symbol', []):
        if q.end != 'stop' or q.tc['base'] is q.pre['base']: continue
        n += 1; b = q.tc['base']; e = plin(q.tc['esp'], b) if isinstance(b, O) else None
        if e is None or not geq(q.I, diff(lin(q.tc['size']), e), {1: 8}): fail('underflow limit', 'after returning to an older segment the stack limit lies outside it')
        elif diff(lin(q.tc['size']), e).get(1, 0) > 8 * 4096: fail('underflow limit', 'after returning to an older segment the stack limit is not that of the segment')
    return n

def implied_eq(I, a, n):
    """do the facts of the path imply a == n (a a count)?"""
    if isinstance(a, int): return a == n
    lo, hi, ne = I.facts.get(('rng', a), (None, None, frozenset()))
    lo = 0 if lo is None else lo
    for k, r in I.facts.items():
        if not (isinstance(k, tuple) and len(k) == 3 and isinstance(k[0], str)): continue
        p, x, y = k
        if p in SWAP and y == a and isinstance(x, int): x, y, p = y, x, SWAP[p]
        if x != a or not isinstance(y, int) or p not in NEG: continue
        if not r: p = NEG[p]
        if p[1:] == 'lt': hi = y - 1 if hi is None else min(hi, y - 1)
        elif p[1:] == 'le': hi = y if hi is None else min(hi, y)
        elif p[1:] == 'gt': lo = max(lo, y + 1)
        elif p[1:] == 'ge': lo = max(lo, y)
        elif p == 'eq': lo = hi = y
        elif p == 'ne': ne = ne | {y}
    while lo in ne: lo += 1
    return lo == hi == n

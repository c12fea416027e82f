"""Interval analysis of stack arrays: value-numbered intervals with constant offsets, fixpoint per function, context-sensitive calls.

Variables hold value numbers, so a test on one copy of a value refines every copy and every value a constant away from it."""
import ir, re
from report import ToolError

INF = None
def hull(a, b): return (None if a[0] is None or b[0] is None else min(a[0], b[0]), None if a[1] is None or b[1] is None else max(a[1], b[1]))
def meet(a, b):
    lo = a[0] if b[0] is None else b[0] if a[0] is None else max(a[0], b[0]); hi = a[1] if b[1] is None else b[1] if a[1] is None else min(a[1], b[1])
    return (lo, hi)
def shift(a, c): return (None if a[0] is None else a[0] + c, None if a[1] is None else a[1] + c)
TOP = (None, None)
NEGP = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
SIZES = {'i1': 1, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'ptr': 8}
UNB = {'strcpy': 0, 'strcat': 0, 'sprintf': 0, 'gets': 0, 'vsprintf': 0, 'stpcpy': 0, '__strcpy_chk': 0}
BND = {'memcpy': (0, 2), 'memmove': (0, 2), 'memset': (0, 2), 'strncpy': (0, 2), 'snprintf': (0, 1), 'fgets': (0, 1), 'llvm.memcpy.p0.p0.i64': (0, 2), 'llvm.memset.p0.i64': (0, 2), 'llvm.memmove.p0.p0.i64': (0, 2), 'getcwd': (0, 1), 'read': (1, 2)}

class St:
    __slots__ = ('vars', 'iv', 'regs')
    def __init__(s, v, i, r): s.vars = v; s.iv = i; s.regs = r
    def copy(s): return St(dict(s.vars), dict(s.iv), dict(s.regs))
    def same(s, t): return s.vars == t.vars and s.iv == t.iv and s.regs == t.regs

class Ival:
    def __init__(s, mod, consts=()):
        s.mod = mod; s.bad = {}; s.accesses = 0; s.checking = False; s.visits = 0; s.arrays = {}
        s.thr = sorted(set(consts))
    # ---- values
    def ivof(s, st, v):
        if v[0] == 'n':
            if v[1] is None: return (v[2], v[2])
            return shift(st.iv.get(v[1], TOP), v[2])
        if v[0] == 'b': return (0, 1)
        return TOP
    def fresh(s, st, sym, iv=TOP):
        # whoever still holds the previous value of this number keeps it under another name
        if sym in st.iv:
            old = ('old', sym); hit = False
            def ren(v):
                nonlocal hit
                if v[0] == 'n' and v[1] == sym: hit = True; return ('n', old, v[2])
                if v[0] == 'p': return ('p', v[1], ren(v[2]))
                if v[0] == 'b': return ('b', v[1], ren(v[2]), ren(v[3]))
                return v
            for d in (st.vars, st.regs):
                for k, v in list(d.items()):
                    w = ren(v)
                    if w is not v and w != v: d[k] = w
            if hit: st.iv[old] = hull(st.iv[old], st.iv[sym]) if old in st.iv else st.iv[sym]
        st.iv[sym] = iv; return ('n', sym, 0)
    def val(s, st, ctx, v):
        if isinstance(v, int): return ('n', None, v)
        if isinstance(v, str):
            if v in ('true', 'false'): return ('n', None, int(v == 'true'))
            if v in ('null',): return ('n', None, 0)
            if v.startswith('%'): return st.regs.get((ctx, v), ('?',))
            if v.lstrip('-').isdigit(): return ('n', None, int(v))
        return ('?',)
    # ---- refinement
    def narrow(s, st, v, iv):
        """intersect the interval of v; False when empty"""
        if v[0] != 'n': return True
        if v[1] is None: return not (iv[0] is not None and v[2] < iv[0] or iv[1] is not None and v[2] > iv[1])
        m = meet(st.iv.get(v[1], TOP), shift(iv, -v[2]))
        if m[0] is not None and m[1] is not None and m[0] > m[1]: return False
        st.iv[v[1]] = m; return True
    def assume(s, st, b, truth):
        if b[0] == 'n':
            if b[1] is None: return (b[2] != 0) == truth
            if not truth: return s.narrow(st, b, (0, 0))
            iv = s.ivof(st, b)
            if iv[0] == 0: return s.narrow(st, b, (1, None))
            return True
        if b[0] != 'b': return True
        pred, x, y = b[1:]
        if not truth: pred = NEGP[pred]
        if x[0] == 'p' and y[0] == 'p':
            if x[1] != y[1]: return True
            x, y = x[2], y[2]; pred = {'u': 's'}.get(pred[0], pred[0]) + pred[1:] if pred not in ('eq', 'ne') else pred
        if x[0] != 'n' or y[0] != 'n': return True
        if x[1] is not None and x[1] == y[1]:
            a, c = x[2], y[2]
            return {'eq': a == c, 'ne': a != c, 'slt': a < c, 'ult': a < c, 'sle': a <= c, 'ule': a <= c, 'sgt': a > c, 'ugt': a > c, 'sge': a >= c, 'uge': a >= c}[pred]
        ix, iy = s.ivof(st, x), s.ivof(st, y)
        if pred[0] == 'u':
            # unsigned: x < y with y known nonnegative also bounds x from below
            if pred in ('ult', 'ule') and iy[0] is not None and iy[0] >= 0: 
                if not s.narrow(st, x, (0, None)): return False
                pred = 's' + pred[1:]
            elif pred in ('ugt', 'uge') and ix[0] is not None and ix[0] >= 0:
                if not s.narrow(st, y, (0, None)): return False
                pred = 's' + pred[1:]
            elif ix[0] is not None and ix[0] >= 0 and iy[0] is not None and iy[0] >= 0: pred = 's' + pred[1:]
            else: return True
            ix, iy = s.ivof(st, x), s.ivof(st, y)
        up = lambda v, c: None if v is None else v + c
        if pred == 'slt': return s.narrow(st, x, (None, up(iy[1], -1))) and s.narrow(st, y, (up(ix[0], 1), None))
        if pred == 'sle': return s.narrow(st, x, (None, iy[1])) and s.narrow(st, y, (ix[0], None))
        if pred == 'sgt': return s.narrow(st, x, (up(iy[0], 1), None)) and s.narrow(st, y, (None, up(ix[1], -1)))
        if pred == 'sge': return s.narrow(st, x, (iy[0], None)) and s.narrow(st, y, (None, ix[1]))
        if pred == 'eq': return s.narrow(st, x, iy) and s.narrow(st, y, ix)
        if pred == 'ne':
            for a, ia, ib in ((x, ix, iy), (y, iy, ix)):
                if ib[0] is not None and ib[0] == ib[1]:
                    if ia == ib: return False
                    if ia[0] == ib[0] and not s.narrow(st, a, (ib[0] + 1, None)): return False
                    if ia[1] == ib[0] and not s.narrow(st, a, (None, ib[0] - 1)): return False
            return True
        return True
    # ---- join
    def join(s, old, new, where, n):
        if old is None:
            new = new.copy(); s.live(new); return new
        iv = {}; vars = {}; regs = {}
        for k in set(old.iv) | set(new.iv):
            a, b = old.iv.get(k), new.iv.get(k)
            iv[k] = b if a is None else a if b is None else s.widen(a, b, n)
        for d, o, w in ((vars, old.vars, new.vars), (regs, old.regs, new.regs)):
            for k in o:
                if k not in w: continue
                a, b = o[k], w[k]; d[k] = s.merge(old, new, a, b, (where, k), iv, n)
        st = St(vars, iv, regs); s.live(st); return st
    def live(s, st):
        """forget the numbers nothing refers to"""
        keep = set()
        def w(v):
            if v[0] == 'n': keep.add(v[1])
            elif v[0] == 'p': w(v[2])
            elif v[0] == 'b': w(v[2]); w(v[3])
        for d in (st.vars, st.regs):
            for v in d.values(): w(v)
        st.iv = {k: v for k, v in st.iv.items() if k in keep}
    def merge(s, old, new, a, b, key, iv, n):
        if a == b: return a
        if a[0] == b[0] == 'n':
            phi = ('phi',) + key
            # the old state may already hold the merged value
            h = s.widen(s.ivof(old, a), s.ivof(new, b), n)
            iv[phi] = s.widen(iv[phi], h, n) if phi in iv else h
            return ('n', phi, 0)
        if a[0] == b[0] == 'p' and a[1] == b[1]: return ('p', a[1], s.merge(old, new, a[2], b[2], (key, 'p'), iv, n))
        if {a[0], b[0]} <= {'n', 'b'}:
            phi = ('phi',) + key; h = hull(s.ivof(old, a), s.ivof(new, b)); iv[phi] = hull(iv[phi], h) if phi in iv else h; return ('n', phi, 0)
        return ('?',)
    def widen(s, a, b, n):
        h = hull(a, b)
        if n < 3 or h == a: return h
        lo, hi = h
        if lo != a[0]: lo = next((t for t in reversed(s.thr) if lo is not None and t <= lo), None)
        if hi != a[1]: hi = next((t for t in s.thr if hi is not None and t >= hi), None)
        if n > 150: lo, hi = (lo if lo == a[0] else None), (hi if hi == a[1] else None)
        return (lo, hi)
    # ---- functions
    def func(s, f, st, ctx, args, depth):
        """returns list of (state, value)"""
        st = st.copy()
        for p, a in zip(f.params, args): st.regs[(ctx, p)] = a
        states = {}; count = {}; rets = {}
        entry = (f.blocks[0].name, None); states[entry] = st; work = [entry]; check = s.checking; s.checking = False
        phis = {b.name for b in f.blocks if any(i.op == 'phi' and i.ty == 'i1' for i in b.instrs)}
        def flow(k):
            out = []
            for kind, t, x in s.block(f, f.bmap[k[0]], k[1], states[k].copy(), ctx, depth): out.append((kind, t, x))
            return out
        while work:
            k = work.pop(0); s.visits += 1
            if s.visits > 200000: raise ToolError('interval analysis of %s does not settle' % f.name)
            for kind, t, x in flow(k):
                if kind == 'ret': continue
                ph = [i for i in f.bmap[x].instrs if i.op == 'phi']
                if ph:
                    vs = [(i.res, s.val(t, ctx, next(v for v, bl in i.x if bl == k[0]))) for i in ph]
                    for r, v in vs: t.regs[(ctx, r)] = v
                tgt = (x, k[0] if x in phis else None)
                o = states.get(tgt); n = count.get(tgt, 0)
                j = s.join(o, t, (ctx, x), n)
                if o is None or not j.same(o):
                    states[tgt] = j; count[tgt] = n + 1
                    if tgt not in work: work.append(tgt)
        s.checking = check; out = []
        for k in list(states):
            for kind, t, x in flow(k):
                if kind == 'ret': out.append((t, x))
        return out
    def block(s, f, b, pred, st, ctx, depth):
        return s.instrs(f, b, 0, pred, st, ctx, depth)
    def instrs(s, f, b, k, pred, st, ctx, depth):
        while k < len(b.instrs):
            i = b.instrs[k]; k += 1; op = i.op
            V = lambda v: s.val(st, ctx, v)
            def put(v): st.regs[(ctx, i.res)] = v
            if op == 'alloca':
                a = (ctx, i.res); s.arrays.setdefault(a, s.size(i.ty)); s.__dict__.setdefault('where', {})[a] = i; put(('p', a, ('n', None, 0)))
                for q in [q for q in st.vars if q[0] == a]: del st.vars[q]
            elif op == 'load':
                p = V(i.ops[0]); s.access(st, p, i, 'reads'); v = None
                if p[0] == 'p' and p[2][0] == 'n' and p[2][1] is None: v = st.vars.get((p[1], p[2][2]))
                if v is None:
                    v = ('?',)
                    if i.ty in SIZES and i.ty != 'ptr':
                        v = s.fresh(st, (ctx, i.res, 'ld'))
                        if p[0] == 'p' and p[2][0] == 'n' and p[2][1] is None: st.vars[(p[1], p[2][2])] = v
                put(v)
            elif op == 'store':
                p = V(i.ops[1]); s.access(st, p, i, 'writes'); v = V(i.ops[0])
                if p[0] == 'p':
                    if p[2][0] == 'n' and p[2][1] is None: st.vars[(p[1], p[2][2])] = v if v[0] != '?' else ('?',)
                    else:
                        for q in [q for q in st.vars if q[0] == p[1]]: del st.vars[q]
                if v[0] == 'p' and p[0] != 'p': s.escape(st, v)
            elif op == 'getelementptr':
                p = V(i.ops[0])
                if p[0] != 'p': put(('?',))
                else: put(('p', p[1], s.gep(st, ctx, i, p[2], [V(x) for x in i.ops[1:]])))
            elif op in ('sext', 'zext', 'trunc', 'bitcast', 'freeze'):
                v = V(i.ops[0])
                if op == 'trunc' and v[0] == 'n':
                    w = {'i8': 7, 'i16': 15, 'i32': 31, 'i64': 63}.get(i.ty); iv = s.ivof(st, v)
                    if i.ty == 'i1': pass
                    elif w is None or iv[0] is None or iv[1] is None or iv[0] < -(1 << w) or iv[1] >= 1 << w: v = s.fresh(st, (ctx, i.res), (-(1 << w), (1 << w) - 1) if w else TOP)
                if op == 'zext' and v[0] == 'n':
                    iv = s.ivof(st, v)
                    if iv[0] is None or iv[0] < 0: v = s.fresh(st, (ctx, i.res), (0, {'i8': 255, 'i1': 1, 'i16': 65535, 'i32': (1 << 32) - 1}.get(i.x)))
                put(v)
            elif op in ('add', 'sub'):
                a, c = V(i.ops[0]), V(i.ops[1])
                if a[0] == 'b': a = ('?',)
                if op == 'add' and c[0] == 'n' and c[1] is not None and a[0] == 'n' and a[1] is None: a, c = c, a
                if a[0] == 'n' and c[0] == 'n' and c[1] is None: put(('n', a[1], a[2] + (c[2] if op == 'add' else -c[2])))
                elif a[0] == 'n' and c[0] == 'n':
                    x, y = s.ivof(st, a), s.ivof(st, c)
                    if op == 'sub': y = (None if y[1] is None else -y[1], None if y[0] is None else -y[0])
                    put(s.fresh(st, (ctx, i.res), (None if x[0] is None or y[0] is None else x[0] + y[0], None if x[1] is None or y[1] is None else x[1] + y[1])))
                elif a[0] == 'p' and c[0] == 'p' and op == 'sub' and a[1] == c[1]: put(s.fresh(st, (ctx, i.res)))
                else: put(s.fresh(st, (ctx, i.res)))
            elif op == 'mul':
                a, c = V(i.ops[0]), V(i.ops[1])
                if a[0] == 'n' and c == ('n', None, 1): put(a)
                elif a[0] == 'n' and a[1] is None and c[0] == 'n' and c[1] is None: put(('n', None, a[2] * c[2]))
                else: put(s.fresh(st, (ctx, i.res)))
            elif op in ('urem', 'and') and V(i.ops[1])[0] == 'n' and V(i.ops[1])[1] is None and V(i.ops[1])[2] > 0:
                m = V(i.ops[1])[2]; put(s.fresh(st, (ctx, i.res), (0, m - 1 if op == 'urem' else m)))
            elif op == 'icmp':
                a, c = V(i.ops[0]), V(i.ops[1])
                if a[0] == 'b' and c == ('n', None, 0) and i.x in ('eq', 'ne'):
                    put(a if i.x == 'ne' else ('b', NEGP[a[1]], a[2], a[3]))
                else: put(('b', i.x, a, c))
            elif op == 'xor':
                a, c = V(i.ops[0]), V(i.ops[1])
                put(('b', NEGP[a[1]], a[2], a[3]) if a[0] == 'b' and c[0] == 'n' and c[2] in (1, -1) and c[1] is None else s.fresh(st, (ctx, i.res)))
            elif op == 'phi': pass         # given its value on the edge
            elif op == 'select':
                a, c = V(i.ops[1]), V(i.ops[2]); put(a if a == c else s.fresh(st, (ctx, i.res), hull(s.ivof(st, a), s.ivof(st, c))))
            elif op == 'call':
                n = ir.callee(i)
                if i.dest: return
                outs = list(s.call(f, i, n, st, ctx, depth))
                if len(outs) == 1: st = outs[0]; continue
                for o in outs: yield from s.instrs(f, b, k, pred, o, ctx, depth)
                return
            elif op == 'br':
                if len(i.dest) == 1: yield 'go', st, i.dest[0]; return
                c = V(i.ops[0])
                for t, d in ((True, i.dest[0]), (False, i.dest[1])):
                    q = st.copy()
                    if s.assume(q, c, t): yield 'go', q, d
                return
            elif op == 'switch':
                v = V(i.ops[0])
                for c, d in zip(i.x, i.dest[1:]):
                    q = st.copy()
                    if s.narrow(q, v, (c, c)): yield 'go', q, d
                yield 'go', st.copy(), i.dest[0]; return
            elif op == 'ret': yield 'ret', st, (V(i.ops[0]) if i.ops else None); return
            elif op == 'unreachable': return
            elif i.res: put(s.fresh(st, (ctx, i.res)))
    def size(s, ty):
        m = re.match(r'^\[(\d+) x (.*)\]$', ty)
        if m: e = s.size(m.group(2)); return None if e is None else int(m.group(1)) * e
        return SIZES.get(ty)
    def gep(s, st, ctx, i, off, idx):
        ty = i.ty
        for n, v in enumerate(idx):
            if n > 0:
                m = re.match(r'^\[(\d+) x (.*)\]$', ty)
                if not m: return s.fresh(st, (ctx, i.res))
                ty = m.group(2)
            e = s.size(ty)
            if v == ('n', None, 0): continue
            if v[0] != 'n' or e is None or off[0] != 'n': return s.fresh(st, (ctx, i.res))
            if v[1] is None: off = ('n', off[1], off[2] + v[2] * e); continue
            if e == 1 and off[1] is None: off = ('n', v[1], v[2] + off[2]); continue
            a, b = s.ivof(st, v), s.ivof(st, off)
            off = s.fresh(st, (ctx, i.res), (None if a[0] is None or b[0] is None else a[0] * e + b[0], None if a[1] is None or b[1] is None else a[1] * e + b[1]))
        return off
    def access(s, st, p, i, verb):
        if p[0] != 'p' or not s.checking: return
        n = s.arrays.get(p[1])
        if n is None: return
        w = SIZES.get(i.ty, 8); iv = s.ivof(st, p[2])
        a = s.where[p[1]]
        if '[' not in a.ty: return
        s.accesses += 1
        if verb == 'writes' and not (iv[0] is not None and iv[0] >= 0 and iv[1] is not None and iv[1] + w <= n):
            s.bad.setdefault((i.fn.name, verb), (i.loc, '%s %s the %d-byte array of %s at an index that can be %s' % (i.fn.name, verb, n, a.fn.name, 'anything' if iv == TOP else 'anything up to the largest number' if iv[1] is None else 'below zero' if iv[0] is None or iv[0] < 0 else 'as large as %d' % iv[1])))
    def escape(s, st, p):
        for q in [q for q in st.vars if q[0] == p[1]]: del st.vars[q]
    def call(s, f, i, n, st, ctx, depth):
        args = [s.val(st, ctx, x) for x in i.ops]
        g = s.mod.funcs.get(n) if n else None
        tracked = [a for a in args if a[0] == 'p']
        if n in UNB or n in BND:
            k = UNB[n] if n in UNB else BND[n][0]; p = args[k]
            if p[0] == 'p' and s.checking and '[' in s.where[p[1]].ty and s.arrays.get(p[1]) is not None:
                s.accesses += 1; size = s.arrays[p[1]]
                if n in UNB: s.bad.setdefault((f.name, n), (i.loc, '%s copies text of unknown length into the %s-byte array of %s' % (f.name, size, s.where[p[1]].fn.name)))
                else:
                    a, c = s.ivof(st, p[2]), s.ivof(st, args[BND[n][1]])
                    if a[1] is None or c[1] is None or a[0] is None or a[0] < 0 or a[1] + c[1] > size: s.bad.setdefault((f.name, n), (i.loc, '%s lets %s write past the end of the %s-byte array of %s' % (f.name, n, size, s.where[p[1]].fn.name)))
        elif g is not None and not g.decl and not g.noreturn and depth < 5 and n not in s.stack and (g.file == s.root.file or any(a[0] == 'p' and s.stores(g, k) for k, a in enumerate(args))) and len(args) == len(g.params):
            s.stack.append(n); sub = ctx + ((f.name, i.res or i.line),)
            rs = s.func(g, st, sub, args, depth + 1); s.stack.pop()
            groups = {}
            for t, v in rs:
                for d in (t.regs,):
                    for k in [k for k in d if len(k[0]) >= len(sub) and k[0][:len(sub)] == sub]: del d[k]
                for k in [k for k in t.vars if len(k[0][0]) >= len(sub) and k[0][0][:len(sub)] == sub]: del t.vars[k]
                groups.setdefault(v, []).append(t)
            # keep apart at most a few results
            if len(groups) > 4: groups = {None: [t for t, _ in rs]}
            for v, ts in groups.items():
                j = ts[0]
                for t in ts[1:]: j = s.join(j, t, (sub, 'ret', v), 1)
                if i.res: j.regs[(ctx, i.res)] = v if v is not None else s.fresh(j, (ctx, i.res))
                yield j
            return
        for a in tracked:
            # an opaque function may change what it is given the address of
            for q in [q for q in st.vars if q[0] == a[1]]: del st.vars[q]
        if i.res: st.regs[(ctx, i.res)] = s.fresh(st, (ctx, i.res)) if i.ty in SIZES and i.ty != 'ptr' else ('?',)
        yield st
    def stores(s, g, k):
        """may g write through its k-th argument?"""
        if k >= len(g.params): return True
        der = {g.params[k]}; ch = True
        while ch:
            ch = False
            for i in g.instrs():
                if i.res and i.res not in der and i.op in ('getelementptr', 'bitcast', 'phi', 'select') and any(o in der for o in (i.ops if i.op != 'getelementptr' else i.ops[:1])): der.add(i.res); ch = True
        for i in g.instrs():
            if i.op == 'store' and (i.ops[1] in der or i.ops[0] in der): return True
            if i.op == 'call' and any(o in der for o in i.ops):
                n = ir.callee(i); h = s.mod.funcs.get(n) if n else None
                if n in BND or n in UNB: return True
                if h is not None and not h.decl and h is not g and any(o in der and s.stores(h, q) for q, o in enumerate(i.ops)): return True
        return False
    def run(s, f):
        s.root = f
        s.stack = [f.name]; s.checking = True
        s.func(f, St({}, {}, {}), (), [('?',)] * len(f.params), 0)

def constants(f):
    out = set()
    for i in f.instrs():
        for o in (i.ops or []):
            if isinstance(o, int): out |= {o - 1, o, o + 1}
            elif isinstance(o, str) and o.lstrip('-').isdigit(): v = int(o); out |= {v - 1, v, v + 1}
    return out

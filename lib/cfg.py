"""Small control-flow / call-graph utilities over the IR."""
import ir
from report import ToolError

def callgraph(mod):
    if hasattr(mod, '_cg'): return mod._cg
    cg = {}; cs = {}; taken = {}
    for f in mod.funcs.values():
        if f.decl: continue
        s = cg.setdefault(f.name, set())
        for i in f.instrs():
            c = ir.callee(i)
            if c: s.add(c); cs.setdefault(c, []).append(i)
            ops = i.ops if i.op != 'phi' else [v for v, _ in i.x]
            for o in ops:
                if isinstance(o, str) and o.startswith('@') and o[1:] in mod.funcs: taken.setdefault(o[1:], []).append(i)
    mod._cg = cg; mod._callsites = cs; mod._taken = taken
    return cg
def callsites(mod, name): callgraph(mod); return mod._callsites.get(name, [])
def taken(mod, name): callgraph(mod); return mod._taken.get(name, [])
def reach(mod, name):
    cg = callgraph(mod); out = set(); st = [name]
    while st:
        n = st.pop()
        for c in cg.get(n, ()):
            if c not in out: out.add(c); st.append(c)
    return out
def recursive_of(mod, name):
    """the function itself if recursive, else the recursive function it starts"""
    if name not in mod.funcs or mod.funcs[name].decl: raise ToolError('function %s not found' % name)
    if name in reach(mod, name): return name
    for c in sorted(callgraph(mod)[name]):
        if c in mod.funcs and not mod.funcs[c].decl and c in reach(mod, c): return c
    raise ToolError('%s does not start a recursive function' % name)

def dominators(f):
    if getattr(f, '_dom', None): return f._dom
    bs = f.blocks; allb = {b.name for b in bs}
    dom = {b.name: set(allb) for b in bs}; dom[bs[0].name] = {bs[0].name}
    ch = True
    while ch:
        ch = False
        for b in bs[1:]:
            n = set.intersection(*[dom[p.name] for p in b.preds]) if b.preds else set()
            n = n | {b.name}
            if n != dom[b.name]: dom[b.name] = n; ch = True
    f._dom = dom
    return dom
Func_slots = None
def dominates(a, b):
    """instruction a dominates instruction b (same function)"""
    if a.block is b.block: return a.idx < b.idx
    return a.block.name in dominators(a.fn)[b.block.name]

def between(a, b):
    """instructions that may execute after a and before b (a dominates b), not passing a again"""
    out = []
    if a.block is b.block and a.idx < b.idx:
        return a.block.instrs[a.idx + 1:b.idx]
    # blocks on paths from a.block to b.block
    fwd = set(); st = list(a.block.succs)
    while st:
        x = st.pop()
        if x.name in fwd or x is a.block: continue
        fwd.add(x.name)
        if x is not b.block: st += x.succs
    bwd = set(); st = list(b.block.preds)
    while st:
        x = st.pop()
        if x.name in bwd or x is a.block: continue
        bwd.add(x.name)
        st += x.preds
    out += a.block.instrs[a.idx + 1:]
    for n in fwd & bwd: out += a.fn.bmap[n].instrs
    if b.block.name in fwd & bwd: pass
    else: out += b.block.instrs[:b.idx]
    return out

def same_value(f, a, b, use_a, use_b):
    """do values a (used at instruction use_a) and b (used at use_b, dominated by use_a) denote the same thing?"""
    a = ir.strip(f, a); b = ir.strip(f, b)
    if a == b: return True
    da = f.defs.get(a) if isinstance(a, str) else None; db = f.defs.get(b) if isinstance(b, str) else None
    if da is None or db is None: return False
    if da.op == 'load' and db.op == 'load':
        pa = ir.addr(f, da.ops[0]); pb = ir.addr(f, db.ops[0])
        if pa != pb: return False
        for i in between(da, db):
            if i.op == 'store':
                ps = ir.addr(f, i.ops[1])
                if ps[0] != pa[0] or (ps[1] == pa[1] or ps[2] or pa[2]): 
                    if ps[0] == pa[0] or not local(f, pa[0]): return False
        return True
    return False
def local(f, v):
    d = f.defs.get(v) if isinstance(v, str) else None
    return d is not None and d.op == 'alloca'

def loops(f):
    """natural loops: header block -> set of block names"""
    dom = dominators(f); out = {}
    for b in f.blocks:
        for p in b.preds:
            if b.name in dom[p.name]:
                body = out.setdefault(b.name, {b.name}); st = [p]
                while st:
                    x = st.pop()
                    if x.name in body: continue
                    body.add(x.name); st += x.preds
    return out

def const_limits(f):
    """loops that are left when a counter reaches a constant: [(icmp instruction, constant)]"""
    out = []
    for h, body in loops(f).items():
        ind = {}
        for i in f.bmap[h].instrs:
            if i.op != 'phi': break
            for v, n in i.x:
                if n not in body: continue
                d = f.defs.get(ir.strip(f, v)) if isinstance(v, str) else None
                if d is not None and d.op in ('add', 'sub') and any(ir.strip(f, o) == i.res for o in d.ops) and any(isinstance(o, int) for o in d.ops):
                    ind[i.res] = i; ind[d.res] = i
        if not ind: continue
        for n in body:
            b = f.bmap[n]; t = b.instrs[-1]
            if t.op != 'br' or not t.ops: continue
            if all(d in body for d in t.dest): 
                # an early exit may leave through a select or a chain of conditions; look at direct conditions only
                pass
            for c in conds(f, t.ops[0]):
                a = [ir.strip(f, o) if isinstance(o, str) else o for o in c.ops]
                k = [o for o in a if isinstance(o, int)]
                if len(k) == 1 and abs(k[0]) >= 3 and any(isinstance(o, str) and o in ind for o in a): out.append((c, k[0]))
                if len(k) == 1 and k[0] in (0, 1, -1, 2):
                    ph = [ind[o] for o in a if isinstance(o, str) and o in ind]
                    if ph and any(isinstance(v, int) and abs(v) >= 3 and n2 not in body for v, n2 in ph[0].x): out.append((c, k[0]))
    return out
def conds(f, v, depth=0):
    d = f.defs.get(v) if isinstance(v, str) else None
    if d is None or depth > 5: return []
    if d.op == 'icmp': return [d]
    if d.op == 'phi':
        out = []
        for v, n in d.x:
            if isinstance(v, str): out += conds(f, v, depth + 1)
            else:
                t = f.bmap[n].instrs[-1]
                if t.op == 'br' and t.ops: out += conds(f, t.ops[0], depth + 1)
        return out
    if d.op in ('and', 'or', 'xor', 'select', 'freeze'): return [c for o in d.ops for c in conds(f, o, depth + 1)]
    return []

def fails_only(f, b, seen=None):
    """every path from block b ends without returning"""
    seen = seen or set()
    if b.name in seen: return True
    seen.add(b.name); t = b.instrs[-1]
    if t.op == 'unreachable' or t.op == 'call': return True      # a block that ends in a call was cut there: the call does not return
    if t.op == 'ret' or not b.succs: return False
    return all(fails_only(f, x, seen) for x in b.succs)

def strip_ext(f, v):
    while isinstance(v, str):
        v = ir.strip(f, v); d = f.defs.get(v)
        if d is None or d.op not in ('sext', 'zext', 'trunc'): return v
        v = d.ops[0]
    return v
def narrow_counters(f):
    """loop counters of 8 or 16 bits that decide when a loop ends"""
    out = []
    for h, body in loops(f).items():
        for i in f.bmap[h].instrs:
            if i.op != 'phi': break
            if i.ty not in ('i8', 'i16'): continue
            grp = {i.res}; step = False
            for v, n in i.x:
                d = f.defs.get(v) if isinstance(v, str) and n in body else None
                while d is not None and d.op in ('trunc', 'sext', 'zext'): d = f.defs.get(d.ops[0]) if isinstance(d.ops[0], str) else None
                if d is not None and d.op in ('add', 'sub') and any(isinstance(o, int) for o in d.ops) and any(strip_ext(f, o) == i.res for o in d.ops): step = True; grp.add(d.res)
            if not step: continue
            for n in body:
                t = f.bmap[n].instrs[-1]
                if t.op != 'br' or not t.ops or all(d in body for d in t.dest): continue
                if any(isinstance(o, str) and strip_ext(f, o) in grp for c in conds(f, t.ops[0]) for o in c.ops): out.append((i, t))
    return out
def rest_tested(f, h, body, c, b):
    """after the loop ends at block b, what is left (a value the loop carries, other than its counter) is tested, and one outcome fails"""
    cnt = {strip_ext(f, o) for o in c.ops if isinstance(o, str)}
    for o in list(cnt):
        d = f.defs.get(o)
        if d is not None and d.op in ('add', 'sub'): cnt |= {strip_ext(f, x) for x in d.ops if isinstance(x, str)}
    carried = {i.res for i in f.bmap[h].instrs if i.op == 'phi' and i.res not in cnt}
    for _ in range(4):
        t = b.instrs[-1]
        if t.op != 'br': return False
        if not t.ops:
            b = b.succs[0]; continue
        if not any(fails_only(f, x) for x in b.succs): return False
        seen = set(); st = [t.ops[0]]
        while st:
            v = st.pop()
            if not isinstance(v, str) or v in seen: continue
            seen.add(v)
            if v in carried: return True
            d = f.defs.get(v)
            if d is None or d.block.name in body and d.op == 'phi': continue
            st += [o for o in d.ops if isinstance(o, str)] + ([v for v, n in d.x] if d.op == 'phi' else [])
        ok = [x for x in b.succs if not fails_only(f, x)]
        if len(ok) != 1: return False
        b = ok[0]
    return False

def truncated_loops(res, mod, names, rule='loops'):
    """no loop over data of any length stops at a fixed number of rounds"""
    res.rule(rule, 'no loop over lists, arguments, values or instructions stops after a fixed number of rounds')
    n = 0
    for nm in sorted(names):
        f = mod.funcs.get(nm)
        if f is None or f.decl: continue
        ls = loops(f)
        if not ls: continue
        bad = []
        for c, k in const_limits(f):
            body = None
            for h, bd in ls.items():
                if c.block.name in bd and (body is None or len(bd) < len(body)): body = bd
            outs = [f.bmap[d] for b in body for d in f.bmap[b].instrs[-1].dest or () if isinstance(d, str) and d not in body] if body else []
            if c.block is not None and body and not any(isinstance(d, str) and d not in body for d in c.block.instrs[-1].dest or ()): here = []
            else: here = [f.bmap[d] for d in c.block.instrs[-1].dest if isinstance(d, str) and d not in body]
            if here and all(fails_only(f, x) for x in here): continue
            hd = [h for h, bd in ls.items() if bd is body]
            if here and hd and all(rest_tested(f, hd[0], body, c, x) for x in here): continue
            bad.append((c, k))
        for i, t in narrow_counters(f): bad.append((t, 'the largest number its %s bits can hold' % i.ty[1:]))
        n += len(ls)
        res.ob(not bad, 'loop in %s' % nm, bad[0][0].loc if bad else f.file, '%s: a loop stops when its counter reaches %s, whatever is left' % (nm, bad[0][1] if bad else ''))
    return n

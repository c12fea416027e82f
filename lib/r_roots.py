"""C25: what the collector can see.  Def-use tracking, interprocedural through calls and returns."""
from rules import reg
from report import ToolError
import ir, cfg

# memory the collector does not look into
LEAFKIND = {'GC_malloc_atomic': 'pointer-free', 'GC_malloc_atomic_ignore_off_page': 'pointer-free', 'GC_malloc_atomic_uncollectable': 'pointer-free',
            'malloc': 'unmanaged', 'calloc': 'unmanaged', 'realloc': 'unmanaged', 'aligned_alloc': 'unmanaged', 'reallocarray': 'unmanaged', 'valloc': 'unmanaged'}
TAGS = ['special', 'char', 'fixnum', 'symbol', 'string', 'pair', 'vector', 'closure', 'port', 'record', 'box', 'hashtable', 'syntax', 'environment', 'top-level environment', 'continuation', 'code']
POINTERFREE = {0, 1, 2, 8}            # special, char, fixnum, port (a FILE*, which is not a heap object)
CHARS = {(3, 8), (4, 8)}              # the characters of a symbol or a string
COPY = {'memcpy', 'memmove', 'llvm.memcpy.p0.p0.i64', 'llvm.memmove.p0.p0.i64'}
WITHDRAW = {'GC_clear_roots', 'GC_remove_roots', 'GC_exclude_static_roots', 'GC_clear_exclusion_table', 'GC_set_no_dls', 'GC_set_all_interior_pointers', 'GC_set_handle_fork_none', 'GC_set_push_other_roots', 'GC_set_mark_procs', 'GC_free', 'GC_disable_signals', 'GC_set_stackbottom', 'GC_unregister_my_thread'}

def off_of(f, a):
    """(base, constant offset or None) of an address"""
    off = 0
    while isinstance(a, str):
        d = f.defs.get(a)
        if d is None: break
        if d.op in ('bitcast', 'inttoptr', 'ptrtoint', 'freeze'): a = d.ops[0]; continue
        if d.op == 'getelementptr':
            if d.ty == 'i8' and len(d.ops) == 2 and isinstance(d.ops[1], int): off = None if off is None else off + d.ops[1]
            elif d.ty in ('ptr', 'i64') and len(d.ops) == 2 and isinstance(d.ops[1], int): off = None if off is None else off + 8 * d.ops[1]
            elif all(x == 0 for x in d.ops[1:]): pass
            else: off = None
            a = d.ops[0]; continue
        if d.op == 'add' and isinstance(d.ops[0], str) and isinstance(d.ops[1], int) and d.ty == 'i64':
            off = None if off is None else off + d.ops[1]; a = d.ops[0]; continue
        break
    return a, off

def derived(f, v):
    """values that point into the same block as v"""
    out = {v}; ch = True
    while ch:
        ch = False
        for i in f.instrs():
            if not i.res or i.res in out: continue
            if i.op in ('bitcast', 'inttoptr', 'ptrtoint', 'freeze', 'getelementptr'): ok = i.ops[0] in out
            elif i.op in ('phi', 'select'): ok = any(o in out for o in (i.ops if i.op == 'phi' else i.ops[1:]))
            elif i.op in ('add', 'sub') and i.ty == 'i64': ok = any(o in out for o in i.ops) and not all(o in out for o in i.ops)
            else: ok = False
            if ok: out.add(i.res); ch = True
    return out

def tags_of(f, dv):
    t = set()
    for i in f.instrs():
        if i.op == 'store' and i.ty == 'i8' and i.ops[1] in dv:
            b, o = off_of(f, i.ops[1])
            if o == 0 and isinstance(i.ops[0], int) and 0 <= i.ops[0] < len(TAGS): t.add(i.ops[0])
    return t

def maybe_pointer(mod, f, v, depth=0):
    """the value may be the address of a heap object"""
    if not isinstance(v, str): return False
    if v.startswith('@'): return False
    d = f.defs.get(v)
    if d is None: return f.ptys[f.params.index(v)] == 'ptr' if v in f.params else True
    if depth > 12: return True
    if d.op in ('bitcast', 'inttoptr', 'ptrtoint', 'freeze', 'getelementptr'): return maybe_pointer(mod, f, d.ops[0], depth + 1)
    if d.op in ('phi', 'select'): return any(maybe_pointer(mod, f, o, depth + 1) for o in (d.ops if d.op == 'phi' else d.ops[1:]) if o != v)
    if d.op in ('load', 'call'): return d.ty == 'ptr'
    if d.op in ('add', 'sub') and d.ty == 'i64':
        # an integer that came from a pointer
        return any(f.defs.get(o) is not None and f.defs[o].op == 'ptrtoint' and maybe_pointer(mod, f, f.defs[o].ops[0], depth + 1) for o in d.ops if isinstance(o, str)) and d.op == 'add'
    return False

def words(f, n):
    """the number of bytes is a multiple of the word size by construction"""
    d = f.defs.get(n) if isinstance(n, str) else None
    if isinstance(n, int): return n >= 8 and n % 8 == 0
    if d is None: return False
    if d.op == 'mul': return any(isinstance(o, int) and o % 8 == 0 for o in d.ops)
    if d.op == 'shl': return isinstance(d.ops[1], int) and d.ops[1] >= 3
    if d.op in ('zext', 'sext', 'trunc'): return words(f, d.ops[0])
    return False

class Track:
    def __init__(s, mod, res, kind, what, where): s.mod = mod; s.res = res; s.kind = kind; s.what = what; s.where = where; s.seen = set(); s.bad = []; s.uses = 0
    def fail(s, i, msg): s.bad.append((i.loc, msg))
    def go(s, f, v, up=True, known=()):
        if (f.name, v) in s.seen or len(s.seen) > 400: return
        s.seen.add((f.name, v))
        dv = derived(f, v); tags = tags_of(f, dv) | set(known)
        for t in sorted(tags - POINTERFREE):
            d = next((i for i in f.instrs() if i.op == 'store' and i.ty == 'i8' and i.ops[1] in dv and i.ops[0] == t), None)
            if d is not None: s.fail(d, 'a %s, which holds references, is made in %s memory' % (TAGS[t], s.kind))
        typed = bool(tags)
        for i in f.instrs():
            if i.op == 'store':
                if i.ops[1] in dv:
                    s.uses += 1
                    if i.ty in ('ptr', 'i64') and 8 not in tags and maybe_pointer(s.mod, f, i.ops[0]) and i.ops[0] not in dv: s.fail(i, 'a reference is stored in %s memory' % s.kind)
                elif i.ops[0] in dv and not typed:
                    s.uses += 1
                    b, o = off_of(f, i.ops[1])
                    if isinstance(b, str) and b.startswith('@'):
                        for g in s.mod.funcs.values():
                            if g.decl: continue
                            for j in g.instrs():
                                if j.op == 'load' and j.ty == 'ptr' and j.ops[0] == b: s.go(g, j.res, up)
                        continue
                    t = tags_of(f, derived(f, b)) if isinstance(b, str) else set()
                    d = f.defs.get(b) if isinstance(b, str) else None
                    if d is not None and d.op == 'alloca': continue
                    if t:
                        if o is None or not all((x, o) in CHARS for x in t): s.fail(i, '%s memory becomes the contents of a %s, which holds references' % (s.kind, TAGS[sorted(t)[0]]))
                    elif o is not None and o != 8: s.fail(i, '%s memory is kept where the contents of an object that holds references belong (offset %d)' % (s.kind, o))
            elif i.op == 'call':
                at = [k for k, o in enumerate(i.ops) if o in dv]
                if not at: continue
                s.uses += 1
                n = ir.callee(i); g = s.mod.funcs.get(n) if n else None
                if n in COPY and at[0] == 0 and len(i.ops) > 2:
                    if words(f, i.ops[2]) and 8 not in tags: s.fail(i, 'words that may be references are copied into %s memory' % s.kind)
                elif n in ('realloc', 'GC_realloc') and i.res: s.go(f, i.res, up, tags)
                elif g is not None and not g.decl and not typed:
                    for k in at:
                        if k < len(g.params): s.go(g, g.params[k], False)
            elif i.op == 'ret' and i.ops and i.ops[0] in dv and not typed and up:
                for c in cfg.callsites(s.mod, f.name):
                    if c.res: s.go(c.fn, c.res, True)

def resolved_sites(mod):
    out = []
    for f in sorted(mod.funcs.values(), key=lambda f: f.name):
        if f.decl: continue
        for i in f.instrs():
            if i.op == 'call' and ir.callee(i) in LEAFKIND and i.res: out.append((f, i))
    return out

def once_called(mod, name, seen=()):
    """the function runs at most once in a run of the program: (True, None) or (False, reason)"""
    if name in seen: return False, '%s calls itself' % name
    if name == 'main': return True, None
    if cfg.taken(mod, name): return False, '%s is called indirectly' % name
    cs = cfg.callsites(mod, name)
    if len(cs) > 1: return False, '%s is called from %s' % (name, ' and '.join(sorted({c.fn.name for c in cs})[:3]) if len({c.fn.name for c in cs}) > 1 else '%d places in %s' % (len(cs), cs[0].fn.name))
    if not cs: return True, None                  # not called at all: the definitions are reported as missing elsewhere
    c = cs[0]
    for h, body in cfg.loops(c.fn).items():
        if c.block.name in body: return False, '%s is called in a loop of %s' % (name, c.fn.name)
    return once_called(mod, c.fn.name, seen + (name,))

@reg('C25', 'def-use tracking over the intermediate representation, through calls and returns: from every allocation the collector does not look into to every store, and from every global to its definitions',
     'Every allocation of pointer-free or unmanaged memory is followed to its uses: the type tag written to it must be that of an object without references, no value that may be a reference is stored in it, and it is never kept where an object with references keeps them. Every global that holds an object has one definition, executed once, with an object no other global shares.')
def c25(res, tier):
    mod = ir.core()
    # -- memory that is not traced
    res.rule('traced memory', 'memory the collector does not look into holds no reference: neither an object with reference fields nor a table of objects is made in it')
    sites = resolved_sites(mod); n = 0; cnt = {}
    allocs = sum(1 for f in mod.funcs.values() if not f.decl for i in f.instrs() if i.op == 'call' and ir.callee(i) == 'GC_malloc')
    for f, i in sites:
        k = cnt[f.name] = cnt.get(f.name, 0) + 1
        t = Track(mod, res, LEAFKIND[ir.callee(i)], '', i.loc); t.go(f, i.res); n += t.uses
        res.ob(not t.bad, 'allocation in %s' % f.name, t.bad[0][0] if t.bad else i.loc, '%s: %s' % (f.name, t.bad[0][1] if t.bad else ''))
    res.need(allocs + len(sites), 20, 'allocation sites'); res.cov['allocation sites in memory that is not traced'] = len(sites); res.cov['uses of that memory followed'] = n
    # -- references are where the collector looks for them
    res.rule('visible references', 'no reference is kept in thread-local storage, nothing withdraws static data from the collector or frees memory behind its back, and references lie on word boundaries')
    m = 0
    for g, (file, rest) in sorted(mod.gdefs.items()):
        if ' thread_local' in ' ' + rest and (' ptr ' in rest or 'x ptr]' in rest): res.ob(False, 'global %s' % g[1:], file, '%s is thread-local: the collector does not see the reference in it' % g[1:])
    for f in sorted(mod.funcs.values(), key=lambda f: f.name):
        if f.decl: continue
        for i in f.instrs():
            if i.op == 'call' and ir.callee(i) in WITHDRAW: res.ob(False, '%s in %s' % (ir.callee(i), f.name), i.loc, '%s calls %s' % (f.name, ir.callee(i)))
            if i.op == 'store' and i.ty == 'ptr':
                b, o = off_of(f, i.ops[1]); m += 1
                if o is not None and o % 8: res.ob(False, 'unaligned store in %s' % f.name, i.loc, '%s stores a reference at offset %d, where the collector does not look' % (f.name, o))
                else: res.ob(True, 'store in %s' % f.name, i.loc, '')
    res.need(m, 100, 'stores of references')
    # -- globals
    res.rule('created once', 'every global that holds an object is given one at a single place that is executed once, and no two hold the same one')
    stores = {}; loads = {}; esc = set()
    for f in mod.funcs.values():
        if f.decl: continue
        for i in f.instrs():
            ops = i.ops if i.op != 'phi' else [v for v, _ in i.x]
            for k, o in enumerate(ops):
                if not (isinstance(o, str) and o.startswith('@')): continue
                if i.op == 'store' and k == 1: stores.setdefault(o, []).append(i)
                elif i.op == 'load': loads.setdefault(o, []).append(i)
                else: esc.add(o)
    inits = ' '.join(rest for g, (file, rest) in mod.gdefs.items())
    import re
    refs = set(re.findall(r'@[\w.$]+', inits))
    names = {}; ng = 0
    for g, (file, rest) in sorted(mod.gdefs.items()):
        if not re.search(r'\bglobal ptr null\b', rest): continue
        ng += 1
        if g in esc or g in refs: continue
        ss = stores.get(g, []); nm = g[1:]
        ss = [i for i in ss if i.ops[0] != 0]
        if not ss:
            if loads.get(g): res.ob(False, 'global %s' % nm, loads[g][0].loc, '%s is used but nothing is ever stored in it' % nm)
            continue
        if len(ss) > 1: res.ob(False, 'global %s' % nm, ss[1].loc, '%s is given an object at %d places (%s and %s)' % (nm, len(ss), ss[0].loc, ss[1].loc)); continue
        i = ss[0]; f = i.fn; bad = None
        for h, body in cfg.loops(f).items():
            if i.block.name in body: bad = 'in a loop of %s' % f.name
        if bad is None:
            ok, why = once_called(mod, f.name)
            if not ok: bad = why
        d = f.defs.get(ir.strip(f, i.ops[0])) if isinstance(i.ops[0], str) else None
        if bad is None and d is not None:
            if d.op == 'load' and isinstance(d.ops[0], str) and d.ops[0] in mod.gdefs: bad = 'it is the same object as %s' % d.ops[0][1:]
            if d.op == 'call':
                key = (d.fn.name, d.res)
                a = next((o for o in d.ops if isinstance(o, str) and o in mod.strings), None)
                if a and ir.callee(d) and ir.callee(d).startswith('intern'): key = ('symbol', mod.strings[a])
                if key in names: bad = 'it is the same object as %s%s' % (names[key], ', the symbol ' + key[1].split(b'\0')[0].decode('latin-1') if key[0] == 'symbol' else '')
                names.setdefault(key, nm)
        res.ob(bad is None, 'global %s' % nm, i.loc, '%s: %s' % (nm, bad))
    res.need(ng, 20, 'globals that hold an object')

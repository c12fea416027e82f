"""C08: generic operations look only at components the value really has.  C09: they agree about every type."""
from rules import reg
from report import ToolError
import re, ir
import schemerules as SR
from shape import *
from heap import *

FIX = {CHAR: {4}, FIXNUM: {8}, SYMBOL: {8}, STRING: {8}, PAIR: {8, 16}, VECTOR: {8}, CLOSURE: {8, 16, 24, 32}, PORT: {1, 8}, RECORD: {4, 8}, BOX: {8}, HASHTABLE: {8, 16, 24}, SYNTAX: {8, 16}, ENV: set(), TOPENV: {8, 16, 24}, CONT: {8, 16, 24, 32, 40, 48}, CODE: {8, 16, 24}, SPECIAL: set()}
ARR = {VECTOR: 16, RECORD: 16, CLOSURE: 40, ENV: 8, CODE: 32}
SCALAR = {(FIXNUM, 8), (VECTOR, 8), (CODE, 8), (CHAR, 4), (RECORD, 4), (CLOSURE, 32), (HASHTABLE, 24), (TOPENV, 24), (PORT, 1), (CONT, 32), (CONT, 48)}
LENOFF = {VECTOR: 8, RECORD: 4}

def role(o, r, tags=None, only=None):
    o.info['role'] = r
    if tags is not None:
        o.tags = set(tags)
        if len(o.tags) == 1: o.tag = next(iter(o.tags))
    if only is not None: o.gty = {'only': only}
    return o
def anyobj(I, name='x'): o = I.new('in', name); return role(o, 'any')
def child(I, o, r, k, ty):
    """what a field of a well-formed object holds"""
    off = k if isinstance(k, int) else k[1]; t = o.tag
    if t == RECORD and off != 8 and I.res(o.f.get(8)) is I.sp('minim_base_rtd'): r = 'rtd'
    n = I.new('in', '%s.%s' % (o.name, k if isinstance(k, int) else '[i]')); n.info['of'] = (o, k)
    if r == 'raw': return n
    if t in (STRING, SYMBOL, PORT) or t in (HASHTABLE, TOPENV) and off == 16: return role(n, 'raw')
    if r == 'rtd':
        if off == 8: return I.sp('minim_base_rtd')
        if off == 16: return role(n, 'any', {SYMBOL})
        if off >= 64: return role(n, 'fieldspec', {PAIR})
        if off == 24: return role(n, 'rtd', {RECORD, SPECIAL}, ('minim_false',))
    if r.startswith('path:') and t == PAIR:
        w = r[5:]
        if off == (8 if w[-1] == 'a' else 16) and len(w) > 1: return role(n, 'path:' + w[:-1], {PAIR})
        return role(n, 'any')
    if r == 'fieldspec': return role(n, 'any', {SYMBOL}) if off == 8 else role(n, 'fieldspec2', {PAIR})
    if r == 'list' and t == PAIR: return role(n, 'any') if off == 8 else role(n, 'list', {PAIR, SPECIAL}, ('minim_null',))
    if r == 'buckets' and t == VECTOR: return role(n, 'chain', {PAIR, SPECIAL}, ('minim_null',))
    if r == 'symbuckets' and t == VECTOR: return role(n, 'symchain', {PAIR, SPECIAL}, ('minim_null',))
    if r in ('chain', 'symchain') and t == PAIR: return role(n, 'cell' if r == 'chain' else 'symcell', {PAIR}) if off == 8 else role(n, r, {PAIR, SPECIAL}, ('minim_null',))
    if r == 'symcell': return role(n, 'symkv' if off == 8 else 'symcell2', {PAIR})
    if r in ('symcell2', 'symkv') and off == 8: return role(n, 'any', {FIXNUM if r == 'symcell2' else SYMBOL})
    if r == 'charlist' and t == PAIR: return role(n, 'any', {CHAR}) if off == 8 else role(n, r, {PAIR, SPECIAL}, ('minim_null',))
    if r == 'specs' and t == VECTOR: return role(n, 'fieldspec', {PAIR})
    if t == CLOSURE: return role(n, 'any', {8: {ENV, TOPENV}, 16: {CODE}, 24: {SYMBOL, SPECIAL}}.get(off), ('minim_false',) if off == 24 else None)
    if t == RECORD and off == 8: return role(n, 'rtd', {RECORD})
    if t == HASHTABLE and off == 8: return role(n, 'buckets', {VECTOR})
    if t == TOPENV and off == 8: return role(n, 'symbuckets', {VECTOR})
    return role(n, 'any')
TYPES = {'any': ('any', None, None), 'pair': ('any', {PAIR}, None), 'fix': ('any', {FIXNUM}, None), 'char': ('any', {CHAR}, None), 'string': ('any', {STRING}, None), 'symbol': ('any', {SYMBOL}, None), 'vector': ('any', {VECTOR}, None),
         'box': ('any', {BOX}, None), 'proc': ('any', {CLOSURE}, None), 'in': ('any', {PORT}, None), 'out': ('any', {PORT}, None), 'outs': ('any', {PORT}, None), 'rtd': ('rtd', {RECORD}, None), 'rtd?': ('rtd', {RECORD, SPECIAL}, ('minim_false',)), 'sym?': ('any', {SYMBOL, SPECIAL}, ('minim_false',)),
         'rec': ('any', {RECORD}, None), 'raw': ('any', {HASHTABLE}, None), 'env': ('any', {TOPENV}, None), 'stx': ('any', {SYNTAX}, None), 'list': ('list', {PAIR, SPECIAL}, ('minim_null',)), 'charlist': ('charlist', {PAIR, SPECIAL}, ('minim_null',))}
# preconditions on elements, which the Minim-level analysis does not track
MORE = {'$list->string': ('charlist',), '$copy-environment': ('env', 'any', 'list')}
def tyname(s):
    for k, v in SR.T.items():
        if v is s: return k
    return 'any'
SKIP = ('eval.c', 'jit.c', 'jitanalyze.c', 'jitcommon.c', 'jitcompile.c', 'jitopt.c', 'jitprims.c', 'check.c', 'read.c', 'thread.c', 'frame.c')

class GenericRun:
    def __init__(s, mod, fn, params):
        s.mod = mod; s.fn = fn; s.params = params; s.bad = {}; s.loads = 0; s.tags = set()
        def inl(n):
            f = mod.funcs.get(n); return f is not None and not f.decl and not (f.file or '').endswith(SKIP)
        s.I = I = Interp(mod, inline=inl, hooks=dict(ALLOC), maxvisits=2 if any(p in ('raw', 'env') for p in params) else 3, maxpaths=60000); I.reclimit = 0; I.free_visits = not any(p in ('raw', 'env') for p in params)
        for b in ('list_append2', 'list_set_tail', 'list_reverse', 'list_length', fn): I.hooks.pop(b, None)
        # analysed on their own, on every argument
        for q in ('eq_hash', 'write_object', 'write_fasl', 'minim_eqp', 'minim_equalp'):
            if q != fn and q in mod.funcs: I.hooks[q] = lambda I, a, ins, q=q: I.fresh(mod.funcs[q].ret, q, ins)
        for q in ('intern_symbol', 'intern'):
            if q != fn: I.hooks[q] = lambda I, a, ins: role(I.new('in', 'symbol'), 'any', {SYMBOL})
        I.what = fn; I.on_load = lambda *a: s.access('reads', *a); I.on_store = lambda I, o, off, idx, v, ty, ins: s.access('writes', I, o, off, idx, ty, ins); I.gty_load = s.gty; I.heaprun = s
    def problem(s, ins, msg, key=None): pass
    def opaque_write(s, *a): pass
    def gty(s, I, o, k, ty, ins):
        r = o.info.get('role')
        if r is None: return None
        if ty != 'ptr':
            if k in (4, 8) and (o.tag, k) in ((VECTOR, 8), (RECORD, 4)):
                v = S('len', o.id, k); I.facts[('rng', v)] = (0, None, frozenset()); return v
            return None
        return child(I, o, r, k, ty)
    def fail(s, ins, key, msg): s.bad.setdefault(key, (ins.loc if ins is not None else s.mod.funcs[s.fn].file, msg)); raise Cut()
    def access(s, verb, I, o, off, idx, ty, ins):
        if not isinstance(o, O): return
        r = o.info.get('role')
        if o.kind == 'special' and o.tag is not None and r is None: r = 'any'
        if r is None or r == 'raw': return
        if off == 0 and not idx: return
        s.loads += 1; ps = I.possible(o)
        if RECORD in ps and I.res(o.f.get(8)) is I.sp('minim_base_rtd'): r = 'rtd'
        for t in ps:
            ok = not idx and (off in FIX[t] and (ty == 'ptr') == ((t, off) not in SCALAR) or t == FIXNUM and ty == 'i8' and 8 <= off < 16) or t in ARR and (off >= ARR[t] or idx and off % 8 == 0) and (ty == 'ptr' or t == CODE)
            if t == FIXNUM and idx and ty == 'i8': ok = True
            if t == CHAR and idx and ty == 'i8' and off >= 4: ok = True
            if not ok:
                s.fail(ins, '%s %+d in %s' % (verb, off, ins.fn.name), '%s %s the component at offset %d of a value that may be a %s' % (ins.fn.name, verb, off, TAGNAME[t] if t != SPECIAL else 'constant'))
        if len(ps) == 1:
            t = next(iter(ps)); s.tags.add(t)
            if t in LENOFF and off >= ARR[t] and not idx and r not in ('buckets', 'symbuckets') and not (r == 'rtd' and off < ARR[t] + 48) and verb == 'reads':
                n = I.res(o.f.get(LENOFF[t])); j = (off - ARR[t]) // 8
                lo = n if isinstance(n, int) else I.facts.get(('rng', n), (None,))[0] if n is not None else None
                if n is not None or r != 'rtd':
                    if (lo is None or lo <= j) and not s.guarded(I, n, j): s.fail(ins, 'element of %s in %s' % (TAGNAME[t], ins.fn.name), '%s %s element %d of a %s without knowing that it has that many' % (ins.fn.name, verb, j, TAGNAME[t]))
    def guarded(s, I, n, j):
        """another value equal to the length is known to be larger than j"""
        for (k, v) in list(I.facts.items()):
            if k[0] == 'rng' and isinstance(k[1], S) and k[1].k[0] == 'add' and k[1].k[1] is n and isinstance(k[1].k[2], int) and v[0] is not None and v[0] - k[1].k[2] > j: return True
            if isinstance(k, tuple) and len(k) == 3 and (k[0] == 'eq' and v is True or k[0] == 'ne' and v is False) and n in k[1:]:
                m = k[2] if k[1] == n else k[1]; lo = I.facts.get(('rng', m), (None,))[0]
                if lo is not None and lo > j: return True
        return False
    def run(s):
        f = s.mod.funcs[s.fn]; n = 0
        def setup(I):
            I.sp('minim_base_rtd').info['role'] = 'rtd'
            a = []
            for k, p in enumerate(s.params):
                if p is None: a.append(I.new('in', 'arg%d' % k)); continue
                o = I.new('in', 'arg%d' % k); role(o, *TYPES[p]) if p in TYPES else role(o, *p); a.append(o)
                if p == 'vector' and s.specs: o.info['role'] = 'specs'
            return I.exec(f, a)
        for p in s.I.run(setup): n += 1
        return n
    specs = False

ROOTS = [('write_object', (None, 'any')), ('write_fasl', (None, 'any')), ('minim_eqp', ('any', 'any')), ('minim_equalp', ('any', 'any')), ('eq_hash', ('any',)), ('to_syntax', ('any',)), ('strip_syntax', ('any',)), ('syntax_to_list', ('stx',)),
         ('record_valuep', ('any',)), ('record_rtdp', ('any',)), ('minim_listp', ('any',)), ('eq_hashtable_find', ('raw', 'any')), ('eq_hashtable_set', ('raw', 'any', 'any')), ('top_env_insert', ('env', 'symbol', 'any'))]

def c08(res, tier):
    mod = ir.core(); pt = ir.prim_table(mod); per = {}; loads = 0; states = 0; tags = set()
    jobs = [(fn, ps) for fn, ps in ROOTS if fn in mod.funcs and not mod.funcs[fn].decl and len(mod.funcs[fn].params) == len(ps)]
    for p in pt:
        f = mod.funcs.get(p['fn']) if p['fn'] else None
        if p['gen'] or f is None or f.decl or (f.file or '').endswith(SKIP): continue
        sig = SR.PRE.get(p['name']); ps = [tyname(x) for x in sig] if sig else ['any'] * len(f.params)
        ps = (ps + ['any'] * len(f.params))[:len(f.params)]
        ps = list(MORE.get(p['name'], ps))
        m = re.match(r'\$?c([ad]+)r$', p['name'])
        if m: ps = [('path:' + m.group(1), (PAIR,))]
        jobs.append((p['fn'], tuple(ps)))
    seen = set(); res.rule('component', 'a component of a value is read or written only when every type the value can still have at that point has that component (and, for an element, when the length admits it)')
    for fn, ps in jobs:
        if (fn, ps) in seen: continue
        seen.add((fn, ps)); g = GenericRun(mod, fn, ps); g.specs = fn == 'make_rtd'
        n = g.run(); states += n; loads += g.loads; tags |= g.tags
        f = mod.funcs[fn]
        if not n and not g.bad: raise ToolError('%s: no path analysed' % fn)
        if not g.bad: res.ob(True, fn, '%s:%s' % (f.file, f.line), '')
        for k, (l, m) in g.bad.items(): res.ob(False, '%s %s' % (fn, k), l, 'called on arbitrary values, %s: %s' % (fn, m))
    res.cov['operations'] = len(seen); res.cov['component accesses decided'] = loads; res.cov['abstract states'] = states; res.cov['types accessed'] = sorted(TAGNAME[t] for t in tags)
    res.need(len(seen), 90, 'operations analysed'); res.need(loads, 300, 'component accesses')
reg('C08', 'abstract interpretation (path-partitioned type-tag analysis with lazily materialised heap) of every generic operation and primitive of the C runtime on unconstrained arguments: each component access must be legal for every type the object can have',
    'Every primitive implemented in C and every internal operation that accepts arbitrary values is interpreted on arguments about which only the precondition enforced by its callers is known; at each read or write of a component the set of types the object can still have on that path must all have that component, and element reads must be below a length the path has established.')(c08)

"""Rules on hash tables: C18 (symbol table), C19 (hashtables and top-level environments)."""
import itertools
from rules import reg
from report import ToolError
import ir, cfg
from shape import *
from heap import *

def residue(I, a, n):
    """hash mod table size: every residue is possible, and the same hash always gives the same one"""
    if n <= 0 or n > 64: return None
    k = ('rem', a, n)
    if k not in I.facts: I.facts[k] = I.choose(n)
    return I.facts[k]
def sizes(I, ns, start):
    g = I.special.get('&bucket_sizes')
    if g is None: g = I.special['&bucket_sizes'] = I.new('stack', '&bucket_sizes'); g.kind = 'in'
    for k in range(60): g.f[8 * k] = 1 if k < start else ns[k - start] if k - start < len(ns) else 10 ** 6 + k
    return g
def key(I, name):
    o = I.new('new', name, SYMBOL); o.info['key'] = True; return o       # distinct keys are distinct objects
def hashof(I, k): return S('hash', I.res(k))

class Table:
    """a table object with given entries; layout of hashtables and of top-level environments"""
    def __init__(s, env): s.env = env
    def build(s, I, ns, start, at, entries):
        """entries: [(key, value)]; at: index into the size array"""
        g = sizes(I, ns, start); n = ns[at]
        o = I.new('in', 'table', TOPENV if s.env else HASHTABLE)
        b = I.new('in', 'buckets', VECTOR); b.f[8] = n
        for i in range(n): b.f[16 + 8 * i] = I.sp('minim_null')
        o.f[8] = b; o.f[16] = P(g, 8 * (start + at)) if start + at else g; o.f[24] = len(entries)
        for k, v in entries:
            i = residue(I, hashof(I, k), n)
            kv = I.new('in', 'binding', PAIR); kv.f[8] = k; kv.f[16] = v
            if s.env:
                h = I.new('in', 'hash', FIXNUM); h.f[8] = hashof(I, k); m = I.new('in', 'meta', PAIR); m.f[8] = h; m.f[16] = I.sp('minim_true')
                c = I.new('in', 'cell', PAIR); c.f[8] = kv; c.f[16] = m
            else: c = kv
            link = I.new('in', 'link', PAIR); link.f[8] = c; link.f[16] = b.f[16 + 8 * i]; b.f[16 + 8 * i] = link
        return o
    def read(s, I, o, what='the table'):
        """-> (problem, [(key, value, cell, mutable)])"""
        o = I.res(o)
        if not isinstance(o, O) or o.tag != (TOPENV if s.env else HASHTABLE): return '%s is not a table' % what, []
        p = I.res(o.f.get(16)); p = P(p, 0) if isinstance(p, O) else p
        if not isinstance(p, P) or not isinstance(I.res(p.o), O) or p.idx: return 'its size pointer is not an entry of the size table', []
        n = I.res(p.o).f.get(p.off); b = I.res(o.f.get(8))
        if not isinstance(n, int) or n <= 0: return 'its size is not known', []
        if not isinstance(b, O) or b.tag != VECTOR or I.res(b.f.get(8)) != n: return 'its bucket vector has %s buckets where its size says %d' % (I.res(b.f.get(8)) if isinstance(b, O) else '?', n), []
        out = []
        for i in range(n):
            l = b.f.get(16 + 8 * i); l = I.res(l) if l is not None else None
            k = 0
            while isinstance(l, O) and l.tag == PAIR:
                c = I.res(l.f[8]); kv = I.res(c.f[8]) if s.env and isinstance(c, O) and c.tag == PAIR else c
                if not isinstance(kv, O) or kv.tag != PAIR: return 'it holds something that is not a binding', out
                key_ = I.res(kv.f[8]); mut = None
                if s.env:
                    m = I.res(c.f[16]); h = I.res(m.f[8]) if isinstance(m, O) and m.tag == PAIR else None
                    if not isinstance(h, O) or h.tag != FIXNUM or I.res(h.f[8]) != hashof(I, key_): return 'a binding does not record the hash of its key', out
                    mut = I.res(m.f[16])
                if residue(I, hashof(I, key_), n) != i: return 'an entry is in a bucket where later searches do not look', out
                out.append((key_, I.res(kv.f[16]), c, mut)); l = I.res(l.f[16]); k += 1
                if k > 60: return 'a bucket is cyclic', out
            if not (isinstance(l, O) and l.name == 'minim_null'): return 'a bucket is not a list', out
        if I.res(o.f.get(24)) != len(out): return 'its entry count is %s but it holds %d entries' % (I.res(o.f.get(24)), len(out)), out
        return None, out

def run(mod, fn, build, check, env, ns, start, hooks=None, maxvisits=40):
    """build(I, T) -> args, ctx ; check(I, T, path, ctx) -> problem or None; returns (problem, paths)"""
    T = Table(env); box = {}; n = 0
    hk = {'eq_hash': lambda I, a, ins: hashof(I, a[0])}
    hk.update(hooks or {})
    h = HeapRun(mod, fn, maxvisits=maxvisits, hooks=hk)
    h.I.on_rem = residue
    def b(I):
        sizes(I, ns, start)
        a, box['c'] = build(I, T); return a
    bad = None
    for p in h.run(b):
        n += 1
        if p.end != 'return': bad = bad or 'ends in an error'; continue
        bad = bad or check(h.I, T, p, box['c'])
    if h.bad: bad = bad or list(h.bad.values())[0][1]
    if h.I.cut: bad = bad or 'does not finish on a table of this size'
    return bad, n

def content(I, T, o, want, what='the table'):
    """want: {key: value}"""
    bad, es = T.read(I, o, what)
    if bad: return bad
    for k, v, c, m in es:
        if not any(k is I.res(x) for x in want): return 'holds an entry for a key that was never inserted'
    for k, v in want.items():
        hit = [e for e in es if e[0] is I.res(k)]
        if not hit: return 'loses the entry of a key'
        if len(hit) > 1: return 'holds two entries for one key'
        if hit[0][1] is not I.res(v): return 'gives a key the value of something else'
    return None
def pure(p): return 'modifies an argument' if p.writes else None

def cases(mod):
    """name -> (function, is environment, [(build, check)], number of entries)"""
    C = []
    def entries(I, n): return [(key(I, 'k%d' % i), elem(I, 'v%d' % i)) for i in range(n)]
    def add(fn, env, what, build, check, ns=(2, 3, 5, 17), hooks=None): C.append((fn, env, what, build, check, ns, hooks))
    for at, n, ns in ((0, 0, (2, 3, 5)), (0, 1, (2, 3, 5)), (0, 2, (1, 2, 3)), (0, 2, (2, 3, 5)), (1, 3, (1, 2, 4))):
        for which in ['new'] + list(range(n)):
            def b(I, T, n=n, at=at, which=which, ns=ns):
                es = entries(I, n); o = T.build(I, ns, 0, at, es); k = key(I, 'k') if which == 'new' else es[which][0]; v = elem(I, 'v'); w = dict(es); w[k] = v
                return [o, k, v], (o, w)
            add('eq_hashtable_set', False, 'setting %s key in a table of %d' % ('a new' if which == 'new' else 'an existing', n), b, lambda I, T, p, c: content(I, T, c[0], c[1]), ns)
            def bf(I, T, n=n, at=at, which=which, ns=ns):
                es = entries(I, n); o = T.build(I, ns, 0, at, es); k = key(I, 'k') if which == 'new' else es[which][0]
                return [o, k], (o, dict(es), k)
            def cf(I, T, p, c):
                r = I.res(p.result)
                if pure(p): return 'a search modifies the table'
                if c[2] in c[1]: return None if isinstance(r, O) and r.tag == PAIR and I.res(r.f[8]) is c[2] and I.res(r.f[16]) is I.res(c[1][c[2]]) else 'a search does not find the entry of a key that is present'
                return None if isinstance(r, O) and r.name == 'minim_false' else 'a search finds an entry for a key that is absent'
            add('eq_hashtable_find', False, 'finding %s key in a table of %d' % ('an absent' if which == 'new' else 'a present', n), bf, cf, ns)
            def bf2(I, T, bf=bf): a, c = bf(I, T); return a + [hashof(I, a[1])], c
            add('eq_hashtable_find2', False, 'finding %s key in a table of %d' % ('an absent' if which == 'new' else 'a present', n), bf2, cf, ns)
            # environments
            esz = (1, 1, 9) if n >= 2 else (2, 3, 5)
            def be(I, T, n=n, which=which, esz=esz):
                es = entries(I, n); o = T.build(I, esz, 0, 0, es); k = key(I, 'k'); v = elem(I, 'v'); w = dict(es); w[k] = v
                return [o, k, v], (o, w)
            def ce(I, T, p, c):
                r = I.res(p.result); bad, es = T.read(I, c[0])
                bad = bad or content(I, T, c[0], c[1])
                if bad: return bad
                return None if any(e[2] is r for e in es) else 'does not return the new binding'
            if which == 'new' and n < 3: add('top_env_insert', True, 'inserting into an environment of %d' % n, be, ce, esz)
            def bef(I, T, n=n, which=which):
                es = entries(I, n); o = T.build(I, (3, 4, 5), 0, 0, es); k = key(I, 'k') if which == 'new' else es[which][0]
                return [o, k], (o, dict(es), k)
            def cef(I, T, p, c):
                r = I.res(p.result)
                if pure(p): return 'a lookup modifies the environment'
                if c[2] in c[1]: return None if isinstance(r, O) and r.tag == PAIR and I.res(I.res(r.f[8]).f[8]) is c[2] else 'a lookup does not find a name that is bound'
                return None if isinstance(r, O) and r.name == 'minim_false' else 'a lookup finds a name that is not bound'
            add('top_env_find', True, 'looking up %s name among %d' % ('an unbound' if which == 'new' else 'a bound', n), bef, cef, (3, 4, 5))
            def bs(I, T, bef=bef): a, c = bef(I, T); v = elem(I, 'v'); w = dict(c[1]); w[c[2]] = v; return a + [v], (c[0], w)
            add('environment_variable_set', True, 'setting %s name among %d' % ('an unbound' if which == 'new' else 'a bound', n), bs, lambda I, T, p, c: content(I, T, c[0], c[1]), (3, 4, 5))
            def br(I, T, bef=bef): a, c = bef(I, T); d = elem(I, 'default'); return a + [d], (c[1].get(c[2], d),)
            add('environment_variable_ref', True, 'reading %s name among %d' % ('an unbound' if which == 'new' else 'a bound', n), br, lambda I, T, p, c: pure(p) or (None if I.res(p.result) is I.res(c[0]) else 'returns something else than the value of the name'), (3, 4, 5))
    for n in range(4):
        at = 0; ns = (2, 3, 5)
        def b(I, T, n=n): es = entries(I, n); o = T.build(I, ns, 0, 0, es); return [o], (o, dict(es), es)
        def ccopy(I, T, p, c):
            bad = pure(p) or content(I, T, p.result, c[1], 'the copy') or content(I, T, c[0], c[1])
            if bad: return bad
            a = T.read(I, c[0])[1]; d = T.read(I, p.result)[1]; r = I.res(p.result)
            if r is c[0] or I.res(r.f[8]) is I.res(c[0].f[8]) or {id(x[2]) for x in a} & {id(x[2]) for x in d}: return 'shares structure with the table it was copied from'
            return None
        add('hashtable_copy', False, 'copying a table of %d' % n, b, ccopy)
        add('hashtable_clear', False, 'clearing a table of %d' % n, b, lambda I, T, p, c: content(I, T, c[0], {}))
        def ckeys(cell):
            def f(I, T, p, c):
                bad = pure(p)
                if bad: return bad
                l = I.res(p.result); got = []
                while isinstance(l, O) and l.tag == PAIR and len(got) < 60: got.append(I.res(l.f[8])); l = I.res(l.f[16])
                if not (isinstance(l, O) and l.name == 'minim_null'): return 'is not a list'
                want = [e[2] if cell else e[0] for e in T.read(I, c[0])[1]]
                return None if sorted(map(id, got)) == sorted(map(id, want)) else 'lists %d of the %d entries' % (len({id(x) for x in got} & {id(x) for x in want}), len(want))
            return f
        add('hashtable_keys', False, 'listing the keys of a table of %d' % n, b, ckeys(False)); add('hashtable_cells', False, 'listing the cells of a table of %d' % n, b, ckeys(True))
        add('environment_names', True, 'listing the names of an environment of %d' % n, b, ckeys(False))
        add('hashtable_length', False, 'the number of buckets', b, lambda I, T, p, c: pure(p) or match(I, p.result, ('fix', 2)))
        def bset(I, T, n=n): es = entries(I, n); o = T.build(I, ns, 0, 0, es); return [o, fix(I, 40)], (o,)
        add('hashtable_size_set', False, 'setting the size', bset, lambda I, T, p, c: (None if I.res(c[0].f[24]) == 40 and len(p.writes) == 1 else 'does not set exactly the entry count'))
        def bh(I, T, n=n):
            es = entries(I, n); o = T.build(I, ns, 0, 0, es); h = I.new('in', 'h', FIXNUM); x = key(I, 'k'); h.f[8] = hashof(I, x); return [o, h], (o, x, I.res(o.f[8]))
        def ch(I, T, p, c):
            i = residue(I, hashof(I, c[1]), 2); return pure(p) or (None if I.res(p.result) is I.res(c[2].f[16 + 8 * i]) else 'does not return the bucket of the hash')
        add('hashtable_ref', False, 'reading a bucket', bh, ch)
        def bhs(I, T, bh=bh): a, c = bh(I, T); l = elem(I, 'cells'); return a + [l], c + (l, dict(c[2].f))
        def chs(I, T, p, c):
            i = residue(I, hashof(I, c[1]), 2); b = c[2]
            for j in range(2):
                w = c[3] if j == i else c[4][16 + 8 * j]
                if I.res(b.f[16 + 8 * j]) is not I.res(w): return 'does not store exactly the bucket of the hash'
            return None
        add('hashtable_set', False, 'storing a bucket', bhs, chs)
        for m in (0, 1):
            def bc(I, T, n=n, m=m): es = entries(I, n); o = T.build(I, ns, 0, 0, es); return [o, m], (o, dict(es), m)
            def cc(I, T, p, c):
                bad = pure(p) or content(I, T, p.result, c[1], 'the copy') or content(I, T, c[0], c[1])
                if bad: return bad
                a = T.read(I, c[0])[1]; d = T.read(I, p.result)[1]; r = I.res(p.result)
                if r is c[0] or I.res(r.f[8]) is I.res(c[0].f[8]) or {id(x[2]) for x in a} & {id(x[2]) for x in d} or {id(I.res(x[2].f[8])) for x in a} & {id(I.res(x[2].f[8])) for x in d}: return 'shares bindings with the environment it was copied from'
                if any(not isinstance(x[3], O) or x[3].name != ('minim_true' if c[2] else 'minim_false') for x in d): return 'does not mark the copied bindings as asked'
                return None
            add('top_env_copy', True, 'copying an environment of %d' % n, bc, cc)
            if n <= 2:
                for sub in range(1 << n):
                    def b2(I, T, n=n, m=m, sub=sub):
                        es = entries(I, n); o = T.build(I, (2, 5, 9, 12), 0, 0, es); pick = [es[j] for j in range(n) if sub >> j & 1]; x = key(I, 'unbound')
                        return [o, lst(I, [k for k, _ in pick] + [x]), m], (o, dict(pick), m, dict(es))
                    def c2(I, T, p, c):
                        bad = pure(p) or content(I, T, p.result, c[1], 'the copy') or content(I, T, c[0], c[3])
                        if bad: return bad
                        d = T.read(I, p.result)[1]; a = T.read(I, c[0])[1]
                        if {id(x[2]) for x in a} & {id(x[2]) for x in d} or {id(I.res(x[2].f[8])) for x in a} & {id(I.res(x[2].f[8])) for x in d}: return 'shares bindings with the environment it was copied from'
                        if any(not isinstance(x[3], O) or x[3].name != ('minim_true' if c[2] else 'minim_false') for x in d): return 'does not mark the copied bindings as asked'
                        return None
                    add('top_env_copy2', True, 'copying some names of an environment', b2, c2, (2, 5, 9, 12))
        def bm(I, T, n=n): return [fix(I, 3 * n)], (3 * n,)
        add('make_hashtable', False, 'making a table', bm, lambda I, T, p, c: content(I, T, p.result, {}) or (None if I.res(I.res(p.result).f[8]).f[8] >= c[0] else 'has fewer buckets than asked'))
        add('Mtop_env', True, 'making an environment', lambda I, T, n=n: ([n], None), lambda I, T, p, c: content(I, T, p.result, {}))
    return C

@reg('C19', 'abstract interpretation of every table operation on table skeletons with opaque keys, values and hashes (every bucket residue is a case), against the invariants bucket = hash mod size, count = number of entries, content as specified',
     'Runtime tables and top-level environments of 0 to 3 entries over opaque keys, with every distribution of the keys over the buckets and with sizes that make the operation resize or not; after each operation every entry must sit in the bucket its hash selects for the current size, the count must equal the number of entries and the content must be the old content with the one change the operation stands for.')
def c19(res, tier):
    mod = ir.core()
    res.rule('table', 'after each operation: every entry is in the bucket its hash selects, no key is lost, duplicated or invented, and the recorded count is the number of entries')
    seen = {}; n = 0
    for fn, env, what, b, c, ns, hooks in cases(mod):
        f = mod.funcs.get(fn)
        if f is None or f.decl: continue
        bad, k = run(mod, fn, b, c, env, ns, 0, hooks); n += k
        if not k: raise ToolError('%s: no path analysed' % fn)
        seen.setdefault(fn, []).append((what, bad))
    for fn, rs in seen.items():
        f = mod.funcs[fn]; bad = next(((w, x) for w, x in rs if x), None)
        res.ob(bad is None, fn, '%s:%s' % (f.file, f.line), '%s: %s: %s' % (fn, bad[0], bad[1]) if bad else '')
    res.cov['situations'] = sum(len(r) for r in seen.values()); res.cov['paths'] = n
    res.need(len(seen), 15, 'table operations analysed')
    fs = {g for f in seen for g in cfg.reach(mod, f) | {f} if g in mod.funcs and not mod.funcs[g].decl and mod.funcs[g].file.split('/')[-1] in ('hashtable.c', 'env.c')}
    cfg.truncated_loops(res, mod, fs)


# ---------------------------------------------------------------- C18
NAMES = [(), ('a',), ('b',), ('a', 'b'), ('b', 'a'), ('a', 'a')]
def token(I, c):
    """an opaque character, different from zero and from every other token"""
    x = S('ch', c); I.facts[('rng', x)] = (None, None, frozenset({0}))
    for d in 'abc':
        if d != c: I.facts[('eq', x, S('ch', d))] = False
    return x
def h_cmp(lim):
    def h(I, a, ins):
        n = I.res(a[2]) if lim else None
        if lim and not isinstance(n, int): return I.fresh('i32', 'cmp', ins)
        x = cells(I, a[0], 'strcmp', ins, I.heaprun); y = cells(I, a[1], 'strcmp', ins, I.heaprun)
        if x is None or y is None: return I.fresh('i32', 'cmp', ins)
        x = x + [0]; y = y + [0]
        if lim: x = x[:n]; y = y[:n]
        return 0 if len(x) == len(y) and all(I.cmp('eq', p, q, 'i8') for p, q in zip(x, y)) else S('cmpne') if I.facts.setdefault(('rng', S('cmpne')), (None, None, frozenset({0}))) else 0
    return h

def intern_runs(tier, cut=()):
    """sequences of names to intern, and sizes of the table"""
    out = []
    for a in NAMES:
        out.append(([a], (1, 2)))
        for b in NAMES:
            if a != b: out.append(([a, b], (1, 2, 3)))
    for t in ([('a',), ('b',), ()], [('a', 'b'), ('b', 'a'), ('a',)], [('a',), ('a', 'a'), ('a', 'b')]): out.append((t, (1, 1, 2, 3) if tier == "quick" else (1, 2, 3, 4)))
    for c in sorted(cut):
        for k in (c - 1, c, c + 1): x = ('a',) * k; out += [([x + ('a',), x + ('b',)], (1, 1, 2)), ([x, x + ('b',)], (1, 1, 2))]
    return out

@reg('C18', 'abstract interpretation of the interning functions on call histories over names of opaque characters (every bucket residue and both outcomes of every load-factor test are cases), and a call-graph rule that symbols are only made by interning',
     'Interning histories of one to three different names (characters are opaque, known only to be equal or different), from an empty table, with a resize possible at every step: interning a name again must return the very same symbol, different names different symbols, and every symbol carries its own copy of its name. Every other place of the C sources that can make a symbol must go through the one table.')
def c18(res, tier):
    mod = ir.core()
    f = mod.funcs.get('intern_symbol'); g = mod.funcs.get('make_intern_table')
    if f is None or f.decl or g is None or g.decl: raise ToolError('intern_symbol or make_intern_table not found')
    bad = {}; n = 0
    fns = {x for x in {'intern_symbol', 'make_intern_table'} | cfg.reach(mod, 'intern_symbol') if x in mod.funcs and not mod.funcs[x].decl}
    cut = {abs(o) for x in fns for i in mod.funcs[x].instrs() if i.op in ('icmp', 'select') or i.op == 'call' and str(i.x).lstrip('@') in ('strncmp', 'memcmp') for o in i.ops if isinstance(o, int) and 3 < abs(o) <= 300}
    for names, ns in intern_runs(tier, cut):
        h = HeapRun(mod, 'intern_symbol', maxvisits=60 if len(names[0]) < 20 else 700, hooks={'GC_malloc': h_alloc(True, False), 'strcmp': h_cmp(False), 'strncmp': h_cmp(True), 'memcmp': h_cmp(True)}); I0 = h.I; I0.on_rem = residue
        box = {}
        def run(I):
            sizes(I, ns, 9); h.writes = []
            t = I.exec(g, []); out = []
            def call(nm):
                b = buf(I, [token(I, c) for c in nm]); r = I.exec(f, [t, b]); return I.res(r), b
            for nm in names: out.append((nm,) + call(nm))
            for nm in reversed(names): out.append((nm,) + call(nm))
            box['o'] = out; return 0
        for p in I0.run(run, 200000):
            n += 1
            what = 'interning %s' % ', '.join('"%s"' % ''.join(x) for x in names)
            if p.end != 'return': bad.setdefault('different', what + ' ends in an error'); continue
            seen = {}
            for nm, r, b in box['o']:
                if not isinstance(r, O): bad.setdefault('different', what + ': does not return an object'); continue
                if nm in seen:
                    if seen[nm] is not r: bad.setdefault('same', what + ' and then again makes a second symbol "%s"' % ''.join(nm))
                    continue
                for o, x in seen.items():
                    if x is r: bad.setdefault('different', what + ': "%s" and "%s" give the same symbol' % (''.join(o), ''.join(nm)))
                seen[nm] = r
                d = match(I0, r, ('sym', [S('ch', c) for c in nm]))
                if d: bad.setdefault('different', what + ': the result ' + d)
                elif I0.res(r.f[8]) is b: bad.setdefault('different', what + ': the symbol keeps the characters of the caller, which may change later')
        for k, (loc, msg) in h.bad.items(): bad.setdefault('different', 'interning: %s at %s' % (msg, loc))
        if I0.cut: bad.setdefault('same', 'interning does not finish on a table of %d buckets' % ns[0])
    loc = '%s:%s' % (f.file, f.line)
    res.rule('same', 'interning a name again, at any later time, returns the very symbol returned first')
    res.ob('same' not in bad, 'intern_symbol same', loc, bad.get('same', ''))
    res.rule('different', 'different names give different symbols, and a symbol has the characters of the name it was interned from, in memory of its own')
    res.ob('different' not in bad, 'intern_symbol different', loc, bad.get('different', ''))
    res.cov['histories'] = len(intern_runs(tier, cut)); res.cov['paths'] = n
    res.rule('loop', 'no loop over a name or the table stops at a fixed count')
    cfg.truncated_loops(res, mod, fns)
    # who can make symbols
    res.rule('only', 'outside the symbol table and gensym nothing makes a symbol, and all interning uses one table')
    home = f.file; k = 0
    made = set()
    for x in mod.funcs.values():
        if x.decl: continue
        for i in x.instrs():
            if i.op == 'store' and i.ty == 'i8' and i.ops[0] == SYMBOL and ir.addr(x, i.ops[1])[1:] in ((0, ()), (0, []), (0, None), (0, False)): made.add(x.name)
    if not made: raise ToolError('no function makes symbols')
    cg = cfg.callgraph(mod); ok = {'intern_symbol', 'Mgensym'}
    for x in mod.funcs.values():
        if x.decl or x.file != home and x.name in made:
            if not x.decl: res.ob(False, 'makes ' + x.name, '%s:%s' % (x.file, x.line), '%s makes a symbol without the symbol table' % x.name)
            continue
    dirty = set(made) - ok; ch = True
    while ch:
        ch = False
        for x, cs in cg.items():
            if x not in ok and x not in dirty and mod.funcs[x].file == home and cs & dirty: dirty.add(x); ch = True
    for d in sorted(dirty):
        for i in cfg.callsites(mod, d):
            if i.fn.file != home: k += 1; res.ob(False, 'makes %s' % i.fn.name, i.loc, '%s makes a symbol with %s, so the same name can denote two symbols' % (i.fn.name, d))
    tabs = {}
    for i in cfg.callsites(mod, 'intern_symbol'):
        d = i.fn.defs.get(ir.strip(i.fn, i.ops[0])) if isinstance(i.ops[0], str) else None; k += 1
        if d is not None and d.op == 'load' and isinstance(d.ops[0], str) and d.ops[0].startswith('@'): tabs.setdefault(d.ops[0], []).append(i)
        res.ob(True, 'call %s' % i.loc, i.loc, '')
    main = max(tabs, key=lambda t: len(tabs[t])) if tabs else None
    for t, l in tabs.items():
        if t != main:
            for i in l: res.ob(False, 'table %s' % i.fn.name, i.loc, '%s interns into %s while the rest of the runtime uses %s' % (i.fn.name, t[1:], main[1:]))
    st = [(i, x) for x in mod.funcs.values() if not x.decl for i in x.instrs() if i.op == 'store' and i.ops[1] == main]
    res.ob(len(st) == 1, 'table set once', '%s:%s' % (f.file, f.line), 'the symbol table is replaced at %s' % ', '.join(i.loc for i, _ in st))
    res.need(k, 20, 'interning call sites')

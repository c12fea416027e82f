"""C07: every object is allocated large enough and fully initialised."""
import re
from rules import reg
from report import ToolError
import ir, cfg
from shape import *
from heap import *
import r_data as RD
import r_tables as RT

HEAD = {CHAR: (4,), FIXNUM: (8,), SYMBOL: (8,), STRING: (8,), PAIR: (8, 16), VECTOR: (8,), CLOSURE: (8, 16, 24, 32), PORT: (1, 8), RECORD: (4, 8), BOX: (8,), HASHTABLE: (8, 16, 24), SYNTAX: (8, 16), ENV: (), TOPENV: (8, 16, 24), CONT: (8, 16, 24, 32, 40, 48), CODE: (8, 16, 24)}
SIZE = {SPECIAL: 1, CHAR: 8, FIXNUM: 16, SYMBOL: 16, STRING: 16, PAIR: 24, VECTOR: 16, CLOSURE: 40, PORT: 16, RECORD: 16, BOX: 16, HASHTABLE: 32, SYNTAX: 24, ENV: 8, TOPENV: 32, CONT: 56, CODE: 32}
LENGTH = {VECTOR: (8, 16, 0), CLOSURE: (32, 40, 0), RECORD: (4, 16, 0), CODE: (8, 32, 1)}
FIELD = {(PAIR, 8): 'car', (PAIR, 16): 'cdr', (SYNTAX, 16): 'location', (CONT, 8): 'previous frame', (CONT, 16): 'return address', (CONT, 24): 'environment', (CONT, 32): 'frame pointer', (CONT, 40): 'current procedure', (CONT, 48): 'argument count', (CLOSURE, 24): 'name', (CLOSURE, 32): 'free variable count', (CODE, 16): 'arity', (CODE, 24): 'relocation table'}

def ge(I, n, m):
    """is size n at least m?  both may be terms"""
    n = I.res(n); m = I.res(m)
    if isinstance(n, int) and isinstance(m, int): return n >= m
    d = I.arith('sub', n, m, 'i64') if isinstance(m, int) else None
    def split(x): return (x.k[1], x.k[2]) if isinstance(x, S) and x.k[0] == 'add' and isinstance(x.k[2], int) else (x, 0) if isinstance(x, S) else (None, x)
    (a, c), (b, e) = split(n), split(m)
    if a == b: return c >= e
    if b is None: return c >= e       # unknown sizes are never negative
    return False

def index_ok(I, o, n, off, idx, w):
    if len(idx) != 1: return False
    v, sz = idx[0]; return ge(I, I.arith('sub', n, off + w, 'i64'), I.arith('mul', v, sz, 'i64'))
def room(I, p):
    """(bytes from p to the end of its block) or None"""
    p = I.res(p); o, off = (p.o, p.off) if isinstance(p, P) else (p, 0)
    o = I.res(o)
    if not isinstance(o, O) or 'size' not in o.info or isinstance(p, P) and p.idx: return None
    return I.arith('sub', o.info['size'], off, 'i64')
def need(I, p, n, what, ins):
    r = room(I, p)
    if r is not None and not ge(I, r, n): I.heaprun.problem(ins, '%s may write more bytes than the block has' % what, 'bounds ' + what)
    o = I.res(p); o = I.res(o.o) if isinstance(o, P) else o
    if isinstance(o, O): o.info['opaque'] = True
DIG = {'d': 11, 'i': 11, 'u': 10, 'x': 8, 'c': 1, 'ld': 20, 'li': 20, 'lu': 20, 'lx': 16, 'zu': 20}
def fmtlen(I, fmt, args):
    """(constant part, opaque term or None): the most characters a format can produce"""
    fmt = I.res(fmt)
    if not isinstance(fmt, Str): return None
    s = fmt.b.rstrip(b'\0').decode('latin-1'); n = 0; terms = []; args = list(args)
    for lit, w, c in re.findall(r'([^%]+)|%([-+ 0-9.]*)(l[a-z]|zu|[a-z%])', s):
        if lit: n += len(lit); continue
        if w: return None
        if c == '%': n += 1; continue
        a = I.res(args.pop(0)) if args else None
        if c in DIG: terms.append((c, a))
        elif c == 's':
            cs = cells(I, a, 'format', None, I.heaprun)
            if cs is not None: n += len(cs)
            else: terms.append(('s', a))
        else: return None
    return n, tuple(terms)
def h_snprintf(I, a, ins):
    f = fmtlen(I, a[2], a[3:])
    if f is None: return I.fresh('i32', 'snprintf', ins)
    n, t = f; x = n if not t else S('add', S('fmt', t), n) if n else S('fmt', t)
    d = I.res(a[0])
    if d != 0: need(I, a[0], a[1], 'snprintf', ins)
    return x
def h_sprintf(I, a, ins):
    f = fmtlen(I, a[1], a[2:])
    if f is None: need(I, a[0], S('unbounded', ins.line), 'sprintf', ins); return I.fresh('i32', 'sprintf', ins)
    n, t = f
    if all(c in DIG for c, _ in t): need(I, a[0], n + sum(DIG[c] for c, _ in t) + 1, 'sprintf', ins)
    else: need(I, a[0], S('add', S('fmt', t), n + 1), 'sprintf', ins)
    return I.fresh('i32', 'sprintf', ins)
def h_fread(I, a, ins): need(I, a[0], I.arith('mul', I.res(a[1]), I.res(a[2]), 'i64'), 'fread', ins); return I.fresh('i64', 'fread', ins)
def h_getcwd(I, a, ins): need(I, a[0], a[1], 'getcwd', ins); return a[0] if I.choose(2) == 0 else 0
def h_realpath(I, a, ins):
    if I.res(a[1]) != 0: need(I, a[1], 4096, 'realpath', ins)
    return a[1] if I.choose(2) == 0 else 0
def h_fgets(I, a, ins): need(I, a[0], a[1], 'fgets', ins); return a[0]
HOOKS = {'snprintf': h_snprintf, 'sprintf': h_sprintf, 'fread': h_fread, 'getcwd': h_getcwd, 'realpath': h_realpath, 'fgets': h_fgets, 'ftell': lambda I, a, ins: I.facts.setdefault(('ftell', I.res(a[0])), I.fresh('i64', 'ftell', ins)),
         'fclose': lambda I, a, ins: 0, 'fseek': lambda I, a, ins: 0, 'rewind': lambda I, a, ins: 0, 'GC_register_finalizer': lambda I, a, ins: 0}

def audit(I, path, fn, payload=True, sites=None):
    """problem with an object made on this path, or None"""
    n = 0
    for e in path.events:
        if e[0] != 'alloc': continue
        o, ins = e[1], e[2]; n += 1
        if sites is not None and ins is not None: sites.add((ins.fn.name, ins.line))
        tag = o.tag
        if tag is None or tag == SPECIAL or tag not in SIZE: continue
        sz = o.info['size']; lo = LENGTH.get(tag); cnt = I.res(o.f[lo[0]]) if lo and lo[0] in o.f else 0
        want = I.arith('add', I.arith('mul', I.arith('add', cnt, lo[2], 'i64'), 8, 'i64'), SIZE[tag], 'i64') if lo else SIZE[tag]
        if not ge(I, sz, want): return '%s makes a %s of %s elements in a block of %s bytes%s' % (fn, TAGNAME[tag], cnt if isinstance(cnt, int) else 'n', sz if isinstance(sz, int) else 'fewer', ' instead of %d' % want if isinstance(want, int) else ''), ins
        if o.info.get('atomic') and tag not in (CHAR, FIXNUM): return '%s puts a %s, which refers to other objects, in memory that is not traced' % (fn, TAGNAME[tag]), ins
        for k in HEAD[tag] if payload or tag != CODE else (8,):
            if k not in o.f: return '%s returns with the %s of a new %s never set' % (fn, FIELD.get((tag, k), 'field at offset %d' % k), TAGNAME[tag]), ins
            if tag == PAIR and I.res(o.f[k]) == 0 and k == 16: return '%s returns with the cdr of a new pair still null' % fn, ins
        if tag in (STRING, SYMBOL):
            b = I.res(o.f[8])
            if isinstance(b, O) and 'size' in b.info and not b.info.get('opaque') and cells(I, b, 'string', None, I.heaprun) is None: return '%s makes a %s whose characters are not terminated' % (fn, TAGNAME[tag]), ins
            if isinstance(b, O) and 'size' not in b.info and b.kind == 'new': return '%s makes a %s without characters' % (fn, TAGNAME[tag]), ins
        if lo and payload and isinstance(cnt, int):
            for j in range(cnt):
                k = lo[1] + 8 * j
                if k not in o.f or I.res(o.f[k]) == 0 and tag != RECORD: return '%s returns with element %d of a new %s never set' % (fn, j, TAGNAME[tag]), ins
            if tag == CODE and I.res(o.f.get(lo[1] + 8 * cnt, 1)) != 0: return '%s makes code without the terminator that evaluation stops at' % fn, ins
    return None

def constructors(mod):
    """(function, builder(I) -> args, payload filled on return, expected result)"""
    C = []
    def d(fn, b, payload=True): C.append((fn, b, payload))
    def tc(I):
        t = I.new('in', 'tc'); s = I.new('in', 'stack'); s.info['size'] = 4096; t.f[64] = s; t.f[16] = s; t.f[72] = 4096; t.f[0] = 2; t.f[24] = P(s, 3072); t.f[8] = elem(I, 'cp'); t.f[80] = elem(I, 'link'); t.f[32] = elem(I, 'cc')
        for k in range(4): s.f[8 * k] = elem(I, 'a%d' % k)
        return t
    d('Mbox', lambda I: (lambda x: ([x], ('flds', BOX, {8: x})))(elem(I)))
    d('Mchar', lambda I: ([S('c')], ('flds', CHAR, {4: S('c')})))
    d('Mfixnum', lambda I: ([S('v')], ('flds', FIXNUM, {8: S('v')})))
    d('Mcons', lambda I: (lambda x, y: ([x, y], ('flds', PAIR, {8: x, 16: y})))(elem(I), elem(I, 'y')))
    d('Msyntax', lambda I: (lambda x, y: ([x, y], ('flds', SYNTAX, {8: x, 16: y})))(elem(I), elem(I, 'y')))
    def cont(I):
        a = [elem(I, 'prev'), elem(I, 'pc'), elem(I, 'env')]; t = tc(I)
        return a + [t], ('flds', CONT, {8: a[0], 16: a[1], 24: a[2], 32: t.f[16], 40: t.f[8], 48: t.f[0]})
    d('Mcontinuation', cont)
    def cs(I): a = [elem(I, 'base'), elem(I, 'prev'), S('len'), elem(I, 'ret')]; return a, lambda I, v: None if isinstance(v, O) and [I.res(v.f.get(k)) for k in (0, 8, 16, 24)] == a else 'does not hold the saved segment'
    d('Mcached_stack', cs)
    for fn in ('Minput_port', 'Moutput_port'): d(fn, lambda I: (lambda x: ([x], ('flds', PORT, {8: x})))(elem(I, 'stream')))
    d('Mthread_context', lambda I: ([], ('any',)))
    for n in range(4):
        d('Menv', lambda I, n=n: ([n], lambda I, v: None if ge(I, v.info.get('size', 0), 8 + 8 * n) else 'has no room for its bindings'))
        d('Mtop_env', lambda I, n=n: ([n], ('any',)))
        d('Mhashtable', lambda I, n=n: ([3 * n], ('any',)))
        d('Mcode', lambda I, n=n: ([n], ('flds', CODE, {8: n})), False)
        d('Mvector', lambda I, n=n: (lambda x: ([n, x], ('vec', [x] * n)))(elem(I)))
        d('Mvector', lambda I, n=n: ([n, 0], ('flds', VECTOR, {8: n}) if n else ('any',)), False)
        d('Mrecord', lambda I, n=n: (lambda x: ([x, n], ('flds', RECORD, {8: x, 4: n})))(elem(I)), False)
        d('Mclosure', lambda I, n=n: (lambda x, y: ([x, y, n], ('flds', CLOSURE, {8: x, 16: y, 32: n})))(elem(I), elem(I, 'y')), False)
        d('Mstring', lambda I, n=n: (lambda c: ([buf(I, c)], ('str', c)))([sch(I, k) for k in range(n)]))
        d('Msymbol', lambda I, n=n: (lambda c: ([buf(I, c)], ('sym', c)))([sch(I, k) for k in range(n)]))
        d('Mstring2', lambda I, n=n: ([n, sch(I, 0)], ('str', [sch(I, 0)] * n)))
        d('Mstring2', lambda I, n=n: ([n, 0], ('flds', STRING, {})))
        d('Mgensym', lambda I, n=n: ([buf(I, [sch(I, k) for k in range(n)])], ('flds', SYMBOL, {})))
        def cenv(I, n=n):
            e = elem(I, 'cenv', VECTOR); e.f[8] = 3; l = [elem(I, 'label%d' % k, STRING) for k in range(n)]; e.f[16] = elem(I, 'g'); e.f[24] = box(I, lst(I, l)); e.f[32] = elem(I, 'fvs'); return [e], ('flds', STRING, {})
        d('cenv_make_label', cenv)
        def scope(I, n=n): e = elem(I, 'scope', VECTOR); e.f[8] = 2; e.f[16] = elem(I, 'proc'); e.f[24] = lst(I, [elem(I, 'id%d' % k) for k in range(n)]); return [e], ('flds', VECTOR, {8: 2})
        d('scope_cenv_extend', scope)
        def code(I, n=n): return [lst(I, [instr(I, k) for k in range(n + 1)]), I.sp('minim_null'), elem(I, 'arity')], ('flds', CODE, {8: n + 1})
        d('write_code', code)
        def values(I, n=n): t = tc(I); t.f[0] = n; return [t], ('any',)
        d('do_values', values)
    L = S('len')
    def opq(I): I.facts[('rng', L)] = (0, None, frozenset()); return L
    d('Menv', lambda I: ([opq(I)], lambda I, v: None if ge(I, v.info.get('size', 0), S('add', S('mul', L, 8), 8)) else 'has no room for its bindings'))
    d('Mcode', lambda I: ([opq(I)], ('flds', CODE, {8: L})), False)
    d('Mvector', lambda I: ([opq(I), elem(I)], ('flds', VECTOR, {8: L})), False)
    d('Mvector', lambda I: ([opq(I), 0], ('flds', VECTOR, {8: L})), False)
    d('Mrecord', lambda I: ([elem(I), opq(I)], ('flds', RECORD, {4: L})), False)
    d('Mclosure', lambda I: ([elem(I), elem(I, 'y'), opq(I)], ('flds', CLOSURE, {32: L})), False)
    d('Mthread_context', lambda I: ([], lambda I, v: None if isinstance(I.res(v.f.get(96)), O) and ge(I, I.res(v.f[96]).info.get('size', 0), 200) else 'has no room for the context that errors return to'))
    d('make_global_cenv', lambda I: ([], ('flds', VECTOR, {8: 3})))
    d('make_cenv', lambda I: ([elem(I, 'g')], ('flds', VECTOR, {8: 3})))
    d('make_scope_cenv', lambda I: ([elem(I, 'g')], ('flds', VECTOR, {8: 2})))
    def port(I): p = elem(I, 'port', PORT); p.f[1] = 5; p.f[8] = elem(I, 'stream'); return [p], ('any',)
    d('get_output_string', port)
    d('number_to_string', lambda I: ([fix(I, S('v'))], ('any',)))
    d('get_current_dir', lambda I: ([], ('any',)))
    for n in (1, 2, 3):
        def path(I, n=n):
            cs = [sch(I, k) for k in range(n)]; return [buf(I, cs)], ('any',)
        d('get_file_dir', path)
    d('load_file', lambda I: ([tc(I), buf(I, [sch(I, 0)])], ('any',)))
    return C
def instr(I, k):
    a = elem(I, 'op%d' % k, SYMBOL)
    o = I.new('in', 'ins%d' % k, PAIR); o.f[8] = a; o.f[16] = I.sp('minim_null'); return o

def one(mod, fn, b, payload, sites, extra=None, visits=12):
    hk = dict(HOOKS); hk.update(extra or {})
    if fn == 'Mthread_context': hk['top_env_copy'] = lambda I, a, ins: elem(I, 'env', TOPENV)
    if fn == 'load_file': hk.update({'read_object': lambda I, a, ins: 0, 'get_file_dir': lambda I, a, ins: elem(I, 'dir'), 'set_current_dir': lambda I, a, ins: 0})
    h = HeapRun(mod, fn, maxvisits=visits, hooks=hk); I = h.I
    for x in ('Mcons', 'Mfixnum', 'list_append2', 'list_reverse', 'list_length', 'list_set_tail', 'Mstring', 'Mstring2', 'Msymbol', 'Mgensym'): I.hooks.pop(x, None)
    h.index_ok = index_ok; bx = {}; n = 0; bad = None
    if fn in ('hashtable_copy', 'top_env_copy2', 'eq_hashtable_set', 'top_env_insert', 'hashtable_clear'): I.on_rem = RT.residue
    if fn == 'intern_symbol': I.on_rem = RT.residue
    def build(I): RT.sizes(I, (1, 3, 5, 9, 13, 17), 0 if fn != 'intern_symbol' else 9); a, bx['t'] = b(I)[:2]; return a
    for p in h.run(build, 4000):
        n += 1
        if p.end != 'return': continue
        bad = bad or audit(I, p, fn, payload, sites)
        m = match(I, p.result, bx['t']) if bx['t'] is not None else None
        if m and p.result is not None: bad = bad or ('%s returns an object that %s' % (fn, m), None)
    if h.bad: (loc, msg) = list(h.bad.values())[0]; bad = bad or ('%s: %s (%s)' % (fn, msg, loc), None)
    return bad, n

@reg('C07', 'abstract interpretation of every constructor and every function that fills a new object, on concrete sizes and opaque contents: block size against the layout of the type, each header field and element set on return, writes inside the block',
     'Every function of the runtime that allocates is interpreted for sizes 0 to 3 (and around the constants it compares with): the block must be large enough for the layout of the type and length recorded in it, all stores must fall inside it, and when the function returns every header field and every element is set and strings are terminated. Library calls that fill a buffer must be given no more room than the block has.')
def c07(res, tier):
    mod = ir.core(); pt = {p['name']: p for p in ir.prim_table(mod)}; sites = set(); per = {}; paths = 0
    def add(fn, b, payload, extra=None, visits=12):
        nonlocal paths
        f = mod.funcs.get(fn)
        if f is None or f.decl: return
        bad, n = one(mod, fn, b, payload, sites, extra, visits); paths += n
        if not n and not bad: raise ToolError('%s: no path analysed' % fn)
        per.setdefault(fn, [])
        if bad: per[fn].append(bad)
    for fn, b, payload in constructors(mod): add(fn, b, payload, None, 40)
    N = 3 if tier == 'quick' else 6
    T = RD.specs(N)
    for name, bs in T.items():
        p = pt.get(name)
        if p is None or not p['fn'] or p['fn'] not in mod.funcs: continue
        for b in bs: add(p['fn'], b, True)
    for n in (0, 1, 3):      # elements come from an input stream
        for ty in range(20):
            add('read_fasl', lambda I: ([elem(I, 'in')], ('any',)), True, {'fgetc': stream([ty, 2 * n]), 'intern_symbol': lambda I, a, ins: elem(I, 'symbol', SYMBOL)})
    for fn, env, what, b, c, ns, hooks in RT.cases(mod):
        if fn in ('hashtable_copy', 'top_env_copy2', 'eq_hashtable_set', 'hashtable_clear', 'top_env_insert') and ' 3' not in what:
            def bb(I, b=b, env=env, ns=ns): RT.sizes(I, ns, 0); return b(I, RT.Table(env))[0], None
            add(fn, bb, True, {'eq_hash': lambda I, a, ins: RT.hashof(I, a[0])}, 40)
    for n in range(3): add('intern_symbol', lambda I: ([table(I, mod), buf(I, [RT.token(I, 'a') for k in range(n)])], ('any',)), True, {'GC_malloc': h_alloc(True, False)}, 60)
    res.rule('new object', 'every object made has a block as large as its type and length need, and on return every field and element of it is set')
    for fn, bad in per.items():
        f = mod.funcs[fn]; b = bad[0] if bad else None
        res.ob(not bad, fn, (b[1].loc if b and b[1] is not None else '%s:%s' % (f.file, f.line)), b[0] if b else '')
    allsites = {(i.fn.name, i.line) for x in mod.funcs.values() if not x.decl for i in x.instrs() if i.op == 'call' and str(i.x).startswith('@GC_malloc')}
    res.cov['allocation sites'] = len(allsites); res.cov['allocation sites reached'] = len(allsites & sites); res.cov['not reached'] = sorted('%s:%s' % s for s in allsites - sites); res.cov['paths'] = paths
    res.need(len(per), 60, 'allocating functions analysed')
def table(I, mod):
    r = I.exec(mod.funcs['make_intern_table'], []); return r
def stream(head):
    def h(I, a, ins):
        k = I.facts.get('pos', 0); I.facts['pos'] = k + 1
        if k < len(head): return head[k]
        if k > 60: raise Cut()
        return 0
    return h

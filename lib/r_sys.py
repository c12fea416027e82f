"""C20: failures of system operations; C21: temporarily changed state is put back."""
from rules import reg
from report import ToolError
import ir, cfg, re
import schemerules as SR
from shape import *
from heap import *
from r_generic import tyname
from r_reader import Chars, Fun, ALL
from r_emit import emitted
import vmspec as V

READS = ('getc', 'fgetc', 'getc_unlocked', 'fread', 'fgets', 'ungetc', 'fscanf', 'getline')
OTHER = ('putc', 'fputc', 'putc_unlocked', 'fputs', 'fwrite', 'fprintf', 'vfprintf', 'fseek', 'fseeko', 'rewind', 'fflush', 'ftell', 'ftello', 'feof', 'ferror', 'clearerr', 'fclose', 'setvbuf', 'fileno', 'read_object', 'write_object', 'read_fasl', 'write_fasl')
STREAM = {'fgetc': 0, 'getc': 0, 'getc_unlocked': 0, 'fread': 3, 'fgets': 2, 'ungetc': 1, 'fscanf': 0, 'getline': 2, 'putc': 1, 'fputc': 1, 'putc_unlocked': 1, 'fputs': 1, 'fwrite': 3, 'fprintf': 0, 'vfprintf': 0, 'fseek': 0, 'fseeko': 0, 'rewind': 0, 'fflush': 0, 'ftell': 0, 'ftello': 0, 'feof': 0, 'ferror': 0, 'clearerr': 0, 'fclose': 0, 'setvbuf': 0, 'fileno': 0, 'read_object': 0, 'write_object': 0, 'read_fasl': 0, 'write_fasl': 0}
SYS = {'fopen', 'tmpfile', 'fdopen', 'freopen', 'getcwd', 'realpath', 'chdir', 'mprotect', 'mmap', 'munmap'}
OPEN = 1; FLAGS = S('in', 'flags')

class SysRun:
    """one function with every system operation split into success and failure"""
    def __init__(s, mod, fn, maxvisits=5):
        s.mod = mod; s.fn = fn; s.bad = {}; s.calls = {}; s.ends = {}
        hk = {}
        for n in STREAM: hk[n] = s.stdio(n)
        for n in ('fopen', 'tmpfile', 'fdopen'): hk[n] = s.opens(n)
        hk.update(getcwd=s.getcwd, realpath=s.realpath, chdir=s.chdir, mmap=s.mmap, mprotect=s.status('mprotect'), munmap=s.status('munmap', False))
        def err(I, a, ins): raise Done('noreturn', (), ins)
        for n in ('minim_error', 'minim_error1', 'minim_error2', 'exit', 'longjmp', 'abort'): hk[n] = err
        def opaque(nm, tag=None):
            def h(I, a, ins): return I.new('new', nm, tag)
            return h
        def mstring(I, a, ins):
            o = I.new('new', 'string', STRING); p = I.res(a[0]); s.used(I, p, ins, 'Mstring'); o.info['of'] = I.res(p.o) if isinstance(p, P) else p; o.f[8] = I.new('new', 'chars'); return o
        hk.update(Mstring=mstring, eval_expr=s.nested, check_expr=lambda I, a, ins: None, intern=opaque('sym', SYMBOL), top_env_copy=opaque('env', TOPENV), GC_register_dtor=lambda I, a, ins: None, minim_shutdown=err, GC_finalize=lambda I, a, ins: None)
        def strlen(I, a, ins):
            s.used(I, a[0], ins, 'strlen'); r = h_strlen(I, a, ins)
            if isinstance(r, S): I.facts.setdefault(('rng', r), (0, None, frozenset()))
            return r
        hk['strlen'] = strlen
        def copy(I, a, ins):
            s.used(I, a[1], ins, 'strcpy'); d = I.res(a[0]); p = I.res(a[1]); o = I.res(d.o) if isinstance(d, P) else d
            if isinstance(o, O): o.info['opaque'] = True; o.info.setdefault('from', I.res(p.o) if isinstance(p, P) else p)
            return a[0]
        hk.update(strcpy=copy, strncpy=copy)
        s.h = HeapRun(mod, fn, hooks=hk, maxvisits=maxvisits, maxpaths=20000); s.I = s.h.I; Chars(s.I)
        s.h.bounds = lambda *a, **k: None; s.I.on_badptr = s.badptr; old = s.I.gty_load
        def missing(I, o, k, ty, ins):
            if o.info.get('port'):
                if k == 1 and ty == 'i8': return FLAGS if False else I.bits.cast('trunc', I.bits.mk(FLAGS, lambda c: c), 'i32', 'i8')
                if k == 8 and ty == 'ptr': f = I.new('in', 'stream'); f.info['stream'] = o; f.nonnull = True; return f
            if o.name == 'chars' or o.info.get('opaque'): return S('ld', o, k, 0)
            return old(I, o, k, ty, ins) if old else None
        s.I.gty_load = missing
        e0 = s.I.on_enter
    def nested(s, I, a, ins):
        I.cwd = I.new('new', 'somewhere'); return I.new('new', 'value')
    def fail(s, ins, key, msg): s.bad.setdefault(key, (ins.loc if ins is not None else s.where(), msg))
    def where(s): f = s.mod.funcs[s.fn]; return '%s:%s' % (f.file, f.line)
    def n(s, nm): s.calls[nm] = s.calls.get(nm, 0) + 1
    def badptr(s, I, p, ins, verb):
        p = I.res(p)
        if p == 0 and I.failed: s.fail(ins, '%s uses failed %s' % (ins.fn.name, I.failed[-1]), 'the result of %s is used although it failed' % I.failed[-1])
    def used(s, I, p, ins, nm):
        p = I.res(p)
        if isinstance(p, int) and p in (0, -1) and I.failed: s.fail(ins, '%s gives failed %s to %s' % (ins.fn.name, I.failed[-1], nm), 'the result of %s is passed to %s although it failed' % (I.failed[-1], nm)); raise Cut()
    def split(s, I, nm):
        s.n(nm)
        if I.choose(2, ('fails', nm)) == 0: return True
        I.failed.append(nm); return False
    def opens(s, nm):
        def h(I, a, ins):
            for x in a: s.used(I, x, ins, nm)
            if not s.split(I, nm): return 0
            f = I.new('new', 'file'); f.nonnull = True; f.info['file'] = nm; I.state[f] = 'open'; I.at_[f] = ins; return f
        return h
    def stdio(s, nm):
        def h(I, a, ins):
            s.n(nm); f = I.res(a[STREAM[nm]]); f = I.res(f.o) if isinstance(f, P) else f
            s.used(I, f, ins, nm)
            for x in a: 
                if x is not a[STREAM[nm]] and nm in ('fputs', 'fread', 'fwrite', 'fprintf'): s.used(I, x, ins, nm)
            if isinstance(f, O) and f in I.state:
                if I.state[f] == 'closed': s.fail(ins, '%s after fclose in %s' % (nm, ins.fn.name), '%s is called on a file that has been closed' % nm)
                if nm == 'fclose': I.state[f] = 'closed'
            elif isinstance(f, O) and 'stream' in f.info:
                o = f.info['stream']; st = s.flags(I, o)
                if st is not None and not all(c & OPEN for c in st) or o in I.closed: s.fail(ins, '%s on a closed port in %s' % (nm, ins.fn.name), '%s is called on the stream of a port that may have been closed' % nm)
                if nm == 'fclose': I.closed[o] = ins
            if nm in ('getc', 'fgetc', 'getc_unlocked'): return S('call', nm, I.nid)
            if nm in ('ftell', 'ftello'):
                if not s.split(I, nm): return -1
                r = S('call', nm, len(I.events)); I.events.append(('ftell', r)); I.facts[('rng', r)] = (0, None, frozenset()); return r
            if nm == 'fread':
                want = I.res(a[2])
                if isinstance(want, int):
                    return want if s.split(I, nm) else 0
                return S('call', nm, I.nid)
            if nm == 'read_object': 
                I.objs += 1
                return 0 if I.objs > 2 or I.choose(2, ('eof', I.objs)) else I.new('new', 'datum')
            if nm in ('fseek', 'fflush', 'fclose', 'fputs', 'feof'): return 0
            return S('call', nm, I.nid)
        return h
    def flags(s, I, o):
        v = o.f.get(1)
        if v is None: return None
        if isinstance(v, int): return {v & 255}
        q = I.bits.of_set(v)
        return {q[1](c) & 255 for c in I.bits.set(q[0])} if q else None
    def dirof(s, I, p):
        p = I.res(p); o = I.res(p.o) if isinstance(p, P) else p
        return o
    def getcwd(s, I, a, ins):
        s.used(I, a[0], ins, 'getcwd')
        if not s.split(I, 'getcwd'): return 0
        o = s.dirof(I, a[0])
        if isinstance(o, O): o.info['opaque'] = True; o.info['cwd'] = I.cwd
        return a[0]
    def realpath(s, I, a, ins):
        s.used(I, a[0], ins, 'realpath')
        if not s.split(I, 'realpath'): return 0
        o = s.dirof(I, a[1])
        if isinstance(o, O): o.info['opaque'] = True; return a[1]
        o = I.new('new', 'chars'); o.info['opaque'] = True; return o
    def chdir(s, I, a, ins):
        s.used(I, a[0], ins, 'chdir')
        if not s.split(I, 'chdir'): return -1
        o = s.dirof(I, a[0])
        I.cwd = o.info.get('cwd', o) if isinstance(o, O) else o
        I.cwdname = o; I.dirs.append((I.cwd, ins)); return 0
    def mmap(s, I, a, ins): return I.new('new', 'page') if s.split(I, 'mmap') else -1
    def status(s, nm, must=True):
        def h(I, a, ins):
            if not must: return 0
            return 0 if s.split(I, nm) else -1
        return h
    def run(s, params):
        f = s.mod.funcs[s.fn]; n = 0
        def setup(I):
            s.h.writes = []; I.state = {}; I.at_ = {}; I.closed = {}; I.failed = []; I.objs = 0; I.cwd = 'start'; I.cwdname = None; I.dirs = []; a = []
            for k, p in enumerate(params):
                o = I.new('in', 'arg%d' % k)
                if p in ('in', 'out', 'outs', 'port'): o.tag = PORT; o.info['port'] = True
                elif p == 'string': o.tag = STRING
                elif p == 'fix': o.tag = FIXNUM
                a.append(o)
            I.args = a
            return I.exec(f, a)
        for p in s.I.run(setup):
            I = s.I; n += 1; s.ends[p.end] = s.ends.get(p.end, 0) + 1
            if p.end != 'return': continue
            if I.failed: s.fail(None, '%s failure of %s ignored' % (s.fn, I.failed[0]), '%s returns normally although %s failed' % (s.fn, I.failed[0]))
            stored = set()
            def reach(o):
                o = I.res(o); o = I.res(o.o) if isinstance(o, P) else o
                if isinstance(o, O) and o not in stored:
                    stored.add(o)
                    for v in o.f.values(): reach(v)
            reach(p.result)
            for f_, st in I.state.items():
                if st == 'open' and f_ not in stored: s.fail(I.at_[f_], '%s leaks %s' % (s.fn, f_.info['file']), 'the file opened here is neither closed nor kept in a port when %s returns' % s.fn)
                if st == 'closed' and f_ in stored: s.fail(I.at_[f_], '%s keeps closed %s' % (s.fn, f_.info['file']), 'the port %s returns holds a file that has been closed' % s.fn)
            for o in stored:
                if o.tag == PORT and any(I.res(v) in I.state for v in o.f.values() if isinstance(v, O)):
                    st = s.flags(I, o)
                    if st is None or not all(c & OPEN for c in st): s.fail(None, '%s returns an unopened port' % s.fn, 'the port %s returns is not marked as open' % s.fn)
            for o, ins in I.closed.items():
                st = s.flags(I, o)
                if (st is None or any(c & OPEN for c in st)) and s.fn != 'gc_port_dtor': s.fail(ins, '%s leaves a closed port open' % s.fn, 'the stream of the port is closed but the port is still marked as open when %s returns' % s.fn)
            p.dirs = list(I.dirs); p.cwd = I.cwd; p.special_ = p.special
            s.ret(p, I)
        return n
    def ret(s, p, I): pass

def reaching(mod, names):
    """functions from which one of names can be called"""
    calls = {}
    for f in mod.funcs.values():
        if f.decl: continue
        calls[f.name] = {ir.callee(i) for i in f.instrs() if i.op == 'call'} - {None} - NOTE
    r = set(names); ch = True
    while ch:
        ch = False
        for f, c in calls.items():
            if f not in r and c & r: r.add(f); ch = True
    return r - set(names), calls
NOTE = {'minim_error', 'minim_error1', 'minim_error2', 'boot_error_proc', 'minim_shutdown'}
STUB = {'read_object', 'write_object', 'eval_expr', 'check_expr', 'read_fasl', 'write_fasl', 'minim_error', 'minim_error1', 'minim_error2', 'main', 'eval_istream', 'minim_shutdown', 'boot_error_proc'}
def roots(mod, pt):
    """(function, parameter types) for every operation that reaches a system call or a stream"""
    names = set(STREAM) - STUB | SYS
    r, calls = reaching(mod, names | {'read_object', 'write_object', 'read_fasl', 'write_fasl'})
    sysr, _ = reaching(mod, SYS)
    prims = {p['fn']: p for p in pt if p['fn'] and not p['gen']}
    called = {c for f, cs in calls.items() for c in cs}
    out = []; rest = []
    for fn in sorted(r):
        f = mod.funcs[fn]
        if fn in STUB or (f.file or '').endswith(('read.c', 'print.c', 'fasl.c', 'eval.c', 'error.c')) and fn not in prims: continue
        p = prims.get(fn)
        if p:
            sig = SR.PRE.get(p['name']) or ['any'] * len(f.params); out.append((fn, tuple((x if x == 'any' else tyname(x)) for x in (list(sig) + ['any'] * len(f.params))[:len(f.params)])))
        else: rest.append(fn)
    # everything else is reached through a caller that is analysed, or is analysed itself
    for fn in rest:
        if not any(fn in calls.get(g, ()) for g in r if g not in STUB and g != fn): out.append((fn, tuple('any' for _ in mod.funcs[fn].params)))
    return out

class DirRun(SysRun):
    """also follows the working directory and the thread's record of it"""
    def ret(s, p, I):
        if I.dirs:
            s.dirpaths += 1; last = I.res(I.dirs[-1][0]); ins = I.dirs[-1][1]
            if s.restore and last != 'start': s.fail(ins, '%s leaves the directory changed' % s.fn, '%s returns without changing back to the directory it was called in' % s.fn)
            ws = [v for o, off, v, i in s.h.writes if off == TCDIR and s.istc(I, o)]
            v = I.res(ws[-1]) if ws else None
            of = v.info.get('of') if isinstance(v, O) else None
            if of is None or I.res(of) is not I.res(I.cwdname) and s.same(I, of) != s.same(I, I.cwdname):
                s.fail(ins, '%s does not record the directory' % s.fn, 'after %s the directory the thread records is not the one it changed to' % s.fn)
    def same(s, I, o):
        o = I.res(o)
        return I.res(o.info.get('cwd', o.info.get('from', o))) if isinstance(o, O) else o
    def istc(s, I, o): return True
    restore = True; dirpaths = 0
TCDIR = 16 * 8

def c20(res, tier):
    mod = ir.core(); pt = ir.prim_table(mod); rs = roots(mod, pt); calls = {}; used = 0; paths = 0
    res.rule('failure tested', 'on every path on which a system operation fails its result is not used, not passed on, and the operation does not return normally')
    res.rule('files', 'a file the operation opens is closed once or kept in the open port it returns; the stream of a closed port is never used; closing a port marks it closed')
    for fn, ps in rs:
        R = SysRun(mod, fn, 5 if tier == 'quick' else 8); k = R.run(ps); f = mod.funcs[fn]; at = '%s:%s' % (f.file, f.line); paths += k
        if not R.calls: continue
        if not k: raise ToolError('%s: no path' % fn)
        used += 1
        for c, m in R.calls.items(): calls[c] = calls.get(c, 0) + m
        for key, (w, m) in sorted(R.bad.items()):
            res.ob(False, key, w, m, 'failure tested' if 'failed' in key or 'ignored' in key else 'files')
        for r in ('failure tested', 'files'): res.ob(True, fn, at, '', r)
    res.cov['system operations split into success and failure'] = dict(sorted(calls.items())); res.cov['operations'] = [fn for fn, _ in rs]
    res.need(used, 15, 'operations of the runtime that make system calls'); res.need(paths, 150, 'paths')
    for c in ('fopen', 'getcwd', 'chdir', 'realpath'): res.need(calls.get(c, 0), 1, 'calls of ' + c)
    # who calls what is complete: every direct call of a fallible function lies in a function that was entered
    res.rule('all call sites', 'every call of a system operation lies in a function reached from an analysed operation')
    have = set(); _, cg = reaching(mod, SYS)
    def walk(f):
        if f in have: return
        have.add(f)
        for g in cg.get(f, ()): walk(g)
    for fn, _ in rs: walk(fn)
    bydecl = set(SYS) | {'fclose', 'ftell', 'ftello', 'fread'}
    for f in mod.funcs.values():
        if f.decl: continue
        for i in f.instrs():
            if i.op == 'call' and ir.callee(i) in bydecl and not f.name.startswith('GC_'):
                if f.name in STUB or f.file and f.file.endswith(('fasl.c', 'main.c')): continue
                res.ob(f.name in have, '%s in %s' % (ir.callee(i), f.name), i.loc, '%s is called in %s, which no analysed operation reaches' % (ir.callee(i), f.name))

def restored(mod, caller, callee):
    """paths of a function that starts a nested evaluation: what is different about the thread when it returns"""
    n = 0; bad = {}
    hk = {}; st = {}
    FIELDS = dict(V.TC)
    def content(o): return o.info.setdefault('content', ('initial', o))
    def cp(I, a, ins):
        d = I.res(a[0]); x = I.res(a[1]); d = I.res(d.o) if isinstance(d, P) else d; x = I.res(x.o) if isinstance(x, P) else x
        if isinstance(d, O) and isinstance(x, O): d.info['content'] = content(x)
        return a[0]
    def nested(I, a, ins):
        tc = st['tc']; k = st['k'] = st['k'] + 1
        r = I.res(tc.f.get(FIELDS['reentry']))
        if isinstance(r, O): r.info['content'] = ('nested', k)
        for nm in ('ac', 'cp', 'sfp', 'esp', 'vc', 'values', 'base', 'size', 'link', 'ccont'): tc.f[FIELDS[nm]] = S('nested', nm, k)
        st['called'] = True
        return I.new('new', 'result')
    def err(I, a, ins): raise Done('noreturn', (), ins)
    hk.update({'memcpy': cp, 'memmove': cp, 'llvm.memcpy.p0.p0.i64': cp, callee: nested, 'compile_expr': lambda I, a, ins: I.new('new', 'code', CODE), 'current_tc': lambda I, a, ins: st['tc'], 'check_expr': lambda I, a, ins: None})
    for x in ('minim_error', 'minim_error1', 'minim_error2'): hk[x] = err
    I = Interp(mod, inline=lambda n: True, hooks=hk, maxvisits=3); I.what = caller; f = mod.funcs[caller]
    for x in ALLOC: I.hooks.setdefault(x, ALLOC[x])
    def setup(I):
        tc = st['tc'] = I.new('in', 'tc'); st['k'] = 0; st['called'] = False; st['pre'] = {}
        for nm, off in FIELDS.items():
            v = S(nm) if nm in ('ac', 'size', 'vc') else I.new('in', nm); v0 = v; tc.f[off] = v; st['pre'][nm] = v
        st['re'] = content(st['pre']['reentry'])
        return I.exec(f, [tc] + [I.new('in', 'a%d' % k) for k in range(len(f.params) - 1)])
    for p in I.run(setup):
        if p.end != 'return' or not st['called']: continue
        n += 1
        for nm in ('ac', 'cp', 'sfp', 'esp', 'base', 'size', 'link', 'env', 'reentry', 'tenv'):
            got = I.res(st['tc'].f.get(FIELDS[nm])); want = st['pre'][nm]
            if not (got is want or got == want): bad[nm] = LONG.get(nm, nm)
        r = I.res(st['tc'].f.get(FIELDS['reentry']))
        if isinstance(r, O) and content(r) != st['re']: bad['reentry point'] = 'the re-entry point'
    return n, bad

def tenv_paths(q):
    """an emitted sequence: top-level environment at every exit, as a token"""
    el = q.elems; pos = {x.id: k for k, x in enumerate(el) if x.kind == 'label'}; seen = set(); out = []
    start = (0, ('?', '?', '?'), (), (), 'entry'); work = [start]
    while work:
        s = work.pop()
        if s in seen: continue
        seen.add(s); k, regs, slots, fr, te = s
        if k >= len(el): out.append((te, fr, k)); continue
        x = el[k]; regs = list(regs); sl = dict(slots)
        def nxt(k2=None, fr2=None, te2=None): work.append((k + 1 if k2 is None else k2, tuple(regs), tuple(sorted(sl.items())), fr if fr2 is None else fr2, te if te2 is None else te2))
        if x.kind == 'label': nxt(); continue
        if x.kind == 'sub':
            if x.tail: out.append((te, fr, k)); continue
            regs = ['?'] * 3; nxt(); continue
        if x.kind != 'ins': nxt(); continue
        sym = x.sym.replace('_symbol', ''); o = x.ops
        num = lambda i: o[i][1] if len(o) > i and o[i][0] == 'fix' and isinstance(o[i][1], int) else None
        def rd(i): return regs[i] if i is not None and 0 <= i < 3 else '?'
        def wr(i, v):
            if i is not None and 0 <= i < 3: regs[i] = v
        if sym == 'mov': wr(num(0), rd(num(1))); nxt()
        elif sym == 'get_arg':
            i = num(1); wr(num(0), (sl.get(i, 'arg%s' % i) if not fr and i is not None else '?')); nxt()
        elif sym == 'set_arg':
            if not fr: sl[num(0)] = rd(num(1))
            nxt()
        elif sym == 'get_tenv': wr(num(0), te); nxt()
        elif sym == 'set_tenv': nxt(te2=rd(num(0)))
        elif sym == 'save_cc': nxt(fr2=fr + (o[0][1],))
        elif sym in ('ret', 'apply', 'do_apply', 'do_raise', 'do_arity_error'):
            if sym in ('do_raise', 'do_arity_error'): continue
            if fr:
                regs = ['?'] * 3
                if fr[-1] in pos: nxt(pos[fr[-1]], fr[:-1])
            else: out.append((te, fr, k))
        elif sym.startswith('branch'):
            t = next((y[1] for y in o if y[0] == 'label'), None)
            if t in pos: nxt(pos[t])
            if sym != 'brancha': nxt()
        else:
            if sym in ('push', 'pop', 'clear_frame', 'do_with_values', 'do_rest', 'do_values') and not fr: sl.update({i: '?' for i in range(8)})
            if sym not in ('set_proc', 'push', 'clear_frame', 'check_stack', 'push_env', 'closure_bind'): regs[0] = '?'
            nxt()
    return out

def c21(res, tier):
    mod = ir.core(); pt = ir.prim_table(mod)
    res.rule('directory', 'an operation that changes the working directory for its own purposes is back in the directory it started in whenever it returns, and the thread records the directory changed to')
    sysr, cg = reaching(mod, {'chdir'}); n = 0
    PUBLIC = {p['fn'] for p in pt if p['name'] == 'current-directory' and p['fn']}
    PUBLIC |= {f for f in sysr if any(p['fn'] == f and p['name'] == 'current-directory' for p in pt)}
    setter = {f for f in sysr if 'chdir' in cg.get(f, ())}
    ch = True
    while ch:
        # a function that only passes its argument to the setter is a setter too
        ch = False
        for f in sysr - setter:
            if mod.funcs[f].file and any(i.op == 'call' and ir.callee(i) in setter for i in mod.funcs[f].instrs()) and not any(c in NESTED or c in ('getcwd',) for c in below(cg, f)): setter.add(f); ch = True
    for fn, ps in roots(mod, pt) + sorted((g, ('any',) * len(mod.funcs[g].params)) for g in sysr if g not in STUB):
        if fn not in sysr or fn == 'minim_boot_init': continue
        if mod.funcs[fn].params and fn in setter and fn not in PRIMS(pt): continue
        R = DirRun(mod, fn); R.restore = fn not in setter; R.dirpaths = 0; R.run(ps)
        f = mod.funcs[fn]
        if not R.dirpaths: continue
        n += 1
        for key, (w, m) in sorted(R.bad.items()):
            if 'leaves the directory' in key or 'does not record' in key: res.ob(False, key, w, m)
        res.ob(True, fn, '%s:%s' % (f.file, f.line), '')
    res.need(n, 4, 'operations that change the working directory')
    res.rule('nested evaluation', 'a function that starts a nested evaluation returns with the frame, the stack segment, the environments and the re-entry point it was entered with')
    callers = [f.name for f in mod.funcs.values() if not f.decl and 'eval_istream' in cg.get(f.name, ())]; m = 0
    for c in sorted(callers):
        k, bad = restored(mod, c, 'eval_istream'); m += k; f = mod.funcs[c]; at = '%s:%s' % (f.file, f.line)
        for nm in ('ac', 'cp', 'sfp', 'esp', 'base', 'size', 'link', 'env', 'reentry', 'tenv', 'reentry point'):
            res.ob(nm not in bad, '%s %s' % (c, nm), at, '%s returns with %s changed by the nested evaluation' % (c, LONG.get(nm, nm)))
    res.need(m, 1, 'paths through a nested evaluation')
    res.rule('environment', 'the evaluator leaves the environment register as it was entered with')
    bad = {}; k, M = V.check(mod, lambda p, k, w, m: bad.setdefault((p, k), (w, m)), tier)
    ex = [(k, v) for (p, k), v in bad.items() if p == 'C15' and 'exit env' in k]
    for k_, (w, m_) in ex: res.ob(False, k_, w, m_)
    if not ex: res.ob(True, 'exit env', mod.funcs['eval_istream'].file, '')
    res.rule('top-level environment', 'generated code that changes the top-level environment has put it back whenever control leaves it')
    e, runs = emitted(tier); t = 0
    for q in e.seqs:
        outs = tenv_paths(q); sets = any(x.kind == 'ins' and x.sym == 'set_tenv_symbol' for x in q.elems); t += sets
        res.ob(all(te == 'entry' for te, fr, k in outs), '%s %s' % (q.who, q.kind), q.where, '%s: code is left with the top-level environment replaced' % q.who)
    res.need(t, 1, 'sequences that change the top-level environment')
def PRIMS(pt): return {p['fn'] for p in pt if p['fn']}
NESTED = {'read_object', 'eval_expr', 'load_file'}
def below(cg, f):
    r = set(); w = [f]
    while w:
        g = w.pop()
        for c in cg.get(g, ()):
            if c not in r: r.add(c); w.append(c)
    return r
LONG = {'ac': 'the argument count', 'cp': 'the current procedure', 'sfp': 'the frame pointer', 'esp': 'the stack limit', 'base': 'the stack segment', 'size': 'the segment size', 'link': 'the segment link', 'env': 'the environment', 'tenv': 'the top-level environment', 'reentry': 'the re-entry point'}
reg('C20', 'path-partitioned abstract interpretation of every operation that makes system calls, each call split into success and failure, with type-state of files and ports',
    'Every primitive and every internal operation from which a system call can be reached (opening files, temporary buffers, reading and changing the working directory, resolving paths, mapping and protecting pages, position and contents of a string port) is interpreted with each call failing and succeeding: a failed result must not be used, passed on or ignored; files are typestate objects that must be closed once or kept in the returned open port; a closed port is never used and is marked closed.')(c20)
reg('C21', 'path-partitioned abstract interpretation of the operations that replace per-thread state (provenance of the values put back), and dataflow of the top-level environment along generated code',
    'Every operation that changes directory for its own purposes must return in the directory it was called in, whatever the evaluation in between did, with the thread recording the directory changed to; a function starting a nested evaluation must return with frame, stack segment, environments and re-entry point as found; the evaluator restores the environment register; generated eval code restores the top-level environment before control leaves it.')(c21)

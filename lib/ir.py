"""Compile the C units of /repo to LLVM IR (SSA, -O0 + mem2reg) and load it for analysis."""
import os, re, subprocess, sys, tempfile, shutil, glob
from collections import defaultdict

LLVM = '/usr/lib/llvm-18/bin'
REPO = os.environ.get('VERIF_REPO', '/repo')

class BuildError(Exception): pass

KNOWN = set(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'known-functions.txt')).read().split())
def units():
    u = {'core': sorted(glob.glob(REPO + '/src/core/c/*.c')),
         'boot': sorted(glob.glob(REPO + '/src/boot/c/*.c')),
         'gc': sorted(glob.glob(REPO + '/src/gc/minim-gc/*.c'))}
    return u

class Loc:
    __slots__ = ('file', 'line')
    def __init__(s, f, l): s.file = f; s.line = l
    def __str__(s): return '%s:%s' % (s.file, s.line)

class Instr:
    __slots__ = ('op', 'res', 'ty', 'ops', 'x', 'line', 'block', 'fn', 'idx', 'dest')
    def __repr__(s): return '%s = %s %s %s %s' % (s.res, s.op, s.ty, s.ops, s.x)
    @property
    def loc(s): return '%s:%s' % (s.fn.file, s.line)

class Block:
    __slots__ = ('name', 'instrs', 'fn', 'preds', 'succs', 'idx')
    def __repr__(s): return 'bb:' + s.name

class Func:
    def __init__(s, name): s.name = name; s.params = []; s.ptys = []; s.ret = None; s.blocks = []; s.bmap = {}; s.noreturn = False; s.decl = True; s.defs = {}; s.file = None; s.line = 0; s.vararg = False; s.static = False; s.pnames = []; s.ctypes = []; s.crets = None; s.attrs = ''
    def instrs(s):
        for b in s.blocks:
            for i in b.instrs: yield i
    def __repr__(s): return '<fn %s>' % s.name

class Module:
    def __init__(s): s.funcs = {}; s.globals = {}; s.strings = {}; s.ginit = {}; s.gtypes = {}; s.gdefs = {}; s.gstatic = set(); s.files = []; s.structs = {}

IDCH = r'[-a-zA-Z$._0-9]'
RE_LOCAL = re.compile(r'%("(?:[^"]*)"|' + IDCH + '+)')

def split_args(s):
    out = []; d = 0; cur = ''; q = False
    for c in s:
        if q:
            cur += c
            if c == '"': q = False
            continue
        if c == '"': q = True
        if c in '([{<': d += 1
        elif c in ')]}>': d -= 1
        if c == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += c
    if cur.strip(): out.append(cur.strip())
    return out

ATTRS = {'noundef', 'nonnull', 'signext', 'zeroext', 'noalias', 'nocapture', 'readonly', 'writeonly', 'returned', 'inreg', 'immarg', 'readnone', 'dso_local', 'internal', 'nest'}
RE_ATTR = re.compile(r'^(?:(?:noundef|nonnull|signext|zeroext|noalias|nocapture|readonly|writeonly|returned|inreg|immarg|readnone|nofree|align \d+|dereferenceable\(\d+\)|dereferenceable_or_null\(\d+\)|byval\([^)]*\)|sret\([^)]*\)|captures\([^)]*\))\s+)+')

def split_ty(s):
    """'ptr noundef %x' -> ('ptr','%x')"""
    s = s.strip()
    # type
    if s[0] in '[{<':
        d = 0
        for i, c in enumerate(s):
            if c in '[{<(': d += 1
            elif c in ']}>)': d -= 1
            if d == 0: break
        ty = s[:i + 1]; rest = s[i + 1:].strip()
    else:
        m = re.match(r'[^\s]+', s); ty = m.group(0); rest = s[m.end():].strip()
    r2 = rest + ' '
    m = RE_ATTR.match(r2)
    if m: rest = r2[m.end():].strip()
    return ty, rest

def val(s):
    """operand token -> python: int, None(null), str '%x' / '@g', or ('ce', text)"""
    s = s.strip()
    if s.startswith('%') or (s.startswith('@') and '(' not in s): return s.replace('"', '')
    if s == 'null': return 0
    if s in ('true',): return 1
    if s in ('false',): return 0
    if s in ('undef', 'poison'): return ('undef',)
    if re.match(r'^-?\d+$', s): return int(s)
    if s == 'zeroinitializer': return 0
    m = re.match(r'^(inttoptr|ptrtoint|bitcast) \((.*) to .*\)$', s)
    if m: return val(split_ty(m.group(2))[1])
    m = re.match(r'^getelementptr (?:inbounds )?\((.*)\)$', s)
    if m:
        a = split_args(m.group(1))
        base = val(split_ty(a[1])[1])
        return ('gepc', base, s)
    return ('ce', s)

def parse_string(lit):
    out = bytearray(); i = 0
    while i < len(lit):
        if lit[i:i + 2] == '\\\\': out.append(92); i += 2
        elif lit[i] == '\\': out.append(int(lit[i + 1:i + 3], 16)); i += 3
        else: out.append(ord(lit[i])); i += 1
    return bytes(out)

def parse(text, mod):
    lines = text.split('\n')
    dil = {}; attrs = {}; disp = {}; ditype = {}; meta = {}; difile = {}
    for l in lines:
        if l.startswith('!'):
            mm = re.match(r'^!(\d+) = (?:distinct )?(.*)$', l)
            if not mm: continue
            n, x = mm.groups(); meta[n] = x
            if x.startswith('!DILocation('):
                m = re.match(r'!DILocation\(line: (\d+)', x)
                if m: dil[n] = int(m.group(1))
            elif x.startswith('!DISubprogram('):
                m = re.search(r'type: !(\d+)', x)
                if m: ditype[n] = m.group(1)
                m = re.search(r'[ (]line: (\d+)', x); disp[n] = int(m.group(1)) if m else 0
                m = re.search(r'[ (]file: !(\d+)', x); difile[n] = m.group(1) if m else None
        elif l.startswith('attributes #'):
            m = re.match(r'^attributes #(\d+) = \{(.*)\}', l); attrs[m.group(1)] = m.group(2)
    def fname(i):
        m = re.search(r'filename: "([^"]*)"(?:, directory: "([^"]*)")?', meta.get(i, ''))
        if not m: return '?'
        return os.path.relpath(os.path.join(m.group(2) or '/', m.group(1)), REPO)
    def tname(i, d=0):
        x = meta.get(i, '')
        if d > 8: return '?'
        m = re.search(r'baseType: !(\d+)', x)
        if 'DW_TAG_typedef' in x or 'DIBasicType' in x: return re.search(r'name: "([^"]*)"', x).group(1)
        if 'DW_TAG_pointer_type' in x: return (tname(m.group(1), d + 1) if m else 'void') + '*'
        if 'DW_TAG_const_type' in x: return tname(m.group(1), d + 1) if m else 'void'
        if 'DICompositeType' in x:
            m = re.search(r'name: "([^"]*)"', x); return m.group(1) if m else '?'
        return '?'
    def ctypes(sub):
        t = meta.get(ditype.get(sub, ''), ''); m = re.search(r'types: !(\d+)', t)
        if not m: return None, []
        l = re.findall(r'null|!\d+', meta.get(m.group(1), ''))
        l = ['void' if x == 'null' else tname(x[1:]) for x in l]
        return (l[0] if l else 'void'), l[1:]
    fn = None; cur = None; i = 0
    while i < len(lines):
        l = lines[i]
        if fn is None:
            if l.startswith('%'):
                m = re.match(r'^(%[^ ]+) = type <?\{ (.*) \}>?$', l)
                if m: mod.structs[m.group(1)] = split_args(m.group(2))
            elif l.startswith('@'):
                m = re.match(r'^@([^ ]+) = (.*)$', l)
                name, rest = m.group(1), m.group(2)
                ms = re.search(r'constant \[\d+ x i8\] c"(.*?)", align', rest)
                if ms: mod.strings['@' + name] = parse_string(ms.group(1))
                elif re.search(r'constant \[\d+ x i8\] zeroinitializer', rest): mod.strings['@' + name] = b'\0'
                mod.ginit['@' + name] = rest
                if 'external global' not in rest:
                    d = re.search(r'!dbg !(\d+)', rest); gf = '?'
                    if d:
                        m = re.search(r'var: !(\d+)', meta.get(d.group(1), ''))
                        m = m and re.search(r'file: !(\d+)', meta.get(m.group(1), ''))
                        if m: gf = fname(m.group(1))
                    mod.gdefs['@' + name] = (gf, rest)
                if ' internal ' in ' ' + rest: mod.gstatic.add('@' + name)
            elif l.startswith('declare'):
                m = re.match(r'^declare (.*?)@([\w.$]+)\((.*)\)(.*)$', l)
                f = Func(m.group(2)); f.file = '?'
                a = re.search(r'#(\d+)', m.group(4)); f.attrs = attrs.get(a.group(1), '') if a else ''
                f.noreturn = 'noreturn' in f.attrs
                f.vararg = '...' in m.group(3)
                f.ret = m.group(1).split()[-1] if m.group(1).split() else 'void'
                f.ptys = [split_ty(x)[0] for x in split_args(m.group(3)) if x != '...']
                mod.funcs[f.name] = f
            elif l.startswith('define'):
                m = re.match(r'^define (.*?)@([\w.$]+)\((.*)\)([^)]*)\{$', l)
                name = m.group(2)
                f = Func(name); f.decl = False; f.static = 'internal' in m.group(1).split()
                f.ret = m.group(1).split()[-1]
                a = re.search(r'#(\d+)', m.group(4)); f.attrs = attrs.get(a.group(1), '') if a else ''
                f.noreturn = 'noreturn' in f.attrs
                d = re.search(r'!dbg !(\d+)', m.group(4))
                f.line = disp.get(d.group(1), 0) if d else 0
                f.file = fname(difile.get(d.group(1))) if d else '?'
                if d: f.crets, f.ctypes = ctypes(d.group(1))
                for p in split_args(m.group(3)):
                    if p == '...': f.vararg = True; continue
                    t, v = split_ty(p); f.params.append(v); f.ptys.append(t)
                mod.funcs[name] = f; fn = f; cur = None
                if f.file not in mod.files: mod.files.append(f.file)
        elif l == '}':
            fn = None; cur = None
        elif l.strip() == '': pass
        else:
            m = re.match(r'^("?[-\w$.]+"?):(?:\s*;.*)?$', l)
            if m:
                cur = Block(); cur.name = m.group(1).strip('"'); cur.instrs = []; cur.fn = fn; cur.preds = []; cur.succs = []; cur.idx = len(fn.blocks)
                fn.blocks.append(cur); fn.bmap[cur.name] = cur
            else:
                if l.strip().startswith('switch') and l.rstrip().endswith('['):
                    while not lines[i].strip().startswith(']'):
                        i += 1; l += ' ' + lines[i].strip()
                ins = parse_instr(l.strip(), fn, dil, attrs)
                if ins is not None:
                    ins.block = cur; ins.fn = fn; ins.idx = len(cur.instrs)
                    cur.instrs.append(ins)
                    if ins.res: fn.defs[ins.res] = ins
        i += 1
    # statics of the same name in several files
    for n in [n for n in mod.funcs if re.search(r'\.\d+$', n)]:
        f = mod.funcs.pop(n); new = re.sub(r'\.\d+$', '', n) + '.' + os.path.basename(f.file)[:-2]; f.name = new; mod.funcs[new] = f
        for g in mod.funcs.values():
            for ins in g.instrs():
                if ins.x == '@' + n: ins.x = '@' + new
                if '@' + n in ins.ops: ins.ops = ['@' + new if o == '@' + n else o for o in ins.ops]

def parse_instr(l, fn, dil, attrs):
    if 'llvm.dbg.' in l or 'llvm.lifetime' in l: return None
    line = 0
    m = re.search(r', !dbg !(\d+)', l)
    if m: line = dil.get(m.group(1), 0); l2 = l[:m.start()]
    else: l2 = l
    l2 = re.sub(r', ![a-z.]+ !\d+', '', l2)
    ins = Instr(); ins.line = line; ins.res = None; ins.x = None; ins.ty = None; ins.ops = []; ins.dest = None
    m = re.match(r'^(%(?:"[^"]*"|[-\w$.]+)) = (.*)$', l2)
    body = l2
    if m: ins.res = m.group(1).replace('"', ''); body = m.group(2)
    body = re.sub(r'^(tail |musttail |notail )', '', body)
    op = body.split(None, 1)[0]; rest = body[len(op):].strip()
    ins.op = op
    if op == 'load':
        rest = rest.replace('volatile ', '')
        a = split_args(rest); ins.ty = a[0]; ins.ops = [val(split_ty(a[1])[1])]
    elif op == 'store':
        rest = rest.replace('volatile ', '')
        a = split_args(rest); t, v = split_ty(a[0]); ins.ty = t; ins.ops = [val(v), val(split_ty(a[1])[1])]
    elif op == 'getelementptr':
        rest = re.sub(r'^(inbounds |nuw |nusw )+', '', rest)
        a = split_args(rest); ins.ty = a[0]; ins.ops = [val(split_ty(x)[1]) for x in a[1:]]
    elif op == 'call':
        b = re.sub(r'^(fastcc |ccc )', '', rest)
        m = re.match(r'^(.*?)((?:@|%)[\w.$:"-]+|asm .*?)\((.*)\)(.*)$', b)
        # careful: type may contain (...) for varargs: 'i32 (ptr, ...) @printf('
        m = re.match(r'^(.*?)((?:@|%)[\w.$:-]+)\((.*)\)\s*((?:#\d+)?.*)$', b)
        if not m:
            ins.x = 'asm'; return ins
        ty = m.group(1).strip()
        ty = re.sub(r'\(.*\)$', '', ty).strip()
        ty = RE_ATTR.sub('', ty + ' ').strip()
        ins.ty = ty.split()[-1] if ty else 'void'
        ins.x = m.group(2)
        ins.ops = [val(split_ty(x)[1]) for x in split_args(m.group(3))]
        a = re.search(r'#(\d+)', m.group(4))
        ins.dest = bool(a and 'noreturn' in attrs.get(a.group(1), ''))
    elif op == 'br':
        m = re.match(r'^label %(\S+)$', rest)
        if m: ins.dest = [m.group(1).strip('"')]
        else:
            a = split_args(rest); ins.ops = [val(split_ty(a[0])[1])]
            ins.dest = [x.split('%')[1].strip('"') for x in a[1:]]
    elif op == 'switch':
        m = re.match(r'^(\S+) (\S+), label %(\S+) \[(.*)\]', rest)
        ins.ops = [val(m.group(2))]; cs = re.findall(r'\S+ (-?\d+), label %(\S+)', m.group(4))
        ins.x = [int(a) for a, _ in cs]; ins.dest = [m.group(3).strip('"')] + [b.strip('"') for _, b in cs]
    elif op == 'ret':
        if rest == 'void': ins.ops = []
        else: ins.ops = [val(split_ty(rest)[1])]
    elif op == 'phi':
        m = re.match(r'^(\S+) (.*)$', rest)
        ins.ty = m.group(1)
        ins.x = [(val(a), b.strip('"')) for a, b in re.findall(r'\[ ([^\[\]]*), %("[^"]*"|[-\w$.]+) \]', rest)]
        ins.ops = [a for a, _ in ins.x]
    elif op == 'icmp':
        m = re.match(r'^(\S+) (.*)$', rest); ins.x = m.group(1)
        a = split_args(m.group(2)); t, v = split_ty(a[0]); ins.ty = t; ins.ops = [val(v), val(a[1])]
    elif op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'fptosi', 'sitofp', 'uitofp', 'fptoui', 'freeze', 'fpext', 'fptrunc'):
        rest = re.sub(r'^(nneg |nuw |nsw )+', '', rest)
        m = re.match(r'^(.*) to (\S+)$', rest)
        t, v = split_ty(m.group(1) if m else rest); ins.ops = [val(v)]; ins.ty = m.group(2) if m else t; ins.x = t
    elif op == 'select':
        a = split_args(rest); ins.ops = [val(split_ty(x)[1]) for x in a]; ins.ty = split_ty(a[1])[0]
    elif op == 'alloca':
        a = split_args(rest); ins.ty = a[0]; ins.x = a[1:] 
        if len(a) > 1 and not a[1].startswith('align'): ins.ops = [val(split_ty(a[1])[1])]
    elif op == 'unreachable': pass
    elif op in ('extractvalue', 'insertvalue', 'fcmp', 'fneg', 'va_arg', 'fence', 'cmpxchg', 'atomicrmw'):
        ins.ops = [val(split_ty(x)[1]) if ' ' in x else val(x) for x in split_args(rest) if x]
    else:
        # binary
        r = re.sub(r'^(nsw |nuw |exact |disjoint |fast |nnan )+', '', rest)
        a = split_args(r)
        t, v = split_ty(a[0]); ins.ty = t; ins.ops = [val(v)] + [val(x) for x in a[1:]]
    return ins

def finish(mod):
    for f in mod.funcs.values():
        if f.decl: continue
        for b in f.blocks:
            t = b.instrs[-1]
            # cut after noreturn calls
            for k, ins in enumerate(b.instrs):
                if ins.op == 'call' and (ins.dest is True or (isinstance(ins.x, str) and ins.x.startswith('@') and ins.x[1:] in mod.funcs and mod.funcs[ins.x[1:]].noreturn)):
                    b.instrs = b.instrs[:k + 1]; 
                    t = ins; break
            b.succs = [] if t.op in ('call',) else [f.bmap[d] for d in (t.dest or [])]
        for b in f.blocks:
            for s in b.succs: s.preds.append(b)
        # drop unreachable
        seen = set(); st = [f.blocks[0]]
        while st:
            b = st.pop()
            if b.name in seen: continue
            seen.add(b.name); st += b.succs
        f.blocks = [b for b in f.blocks if b.name in seen]
        for b in f.blocks: b.preds = [p for p in b.preds if p.name in seen]
        f.defs = {i.res: i for b in f.blocks for i in b.instrs if i.res}
        for b in f.blocks:
            for i in b.instrs:
                if i.op == 'phi': i.x = [(v, n) for v, n in i.x if n in seen]; i.ops = [v for v, _ in i.x]

def compile_units(files, extra_cflags=(), main=None):
    """Module for the given C files: a fresh compile of the working tree, linked, in SSA form"""
    mod = Module(); helpers = set()
    tmp = tempfile.mkdtemp(prefix='verif-ir-')
    try:
        shim = os.path.join(tmp, 'shim'); os.makedirs(shim + '/boehm-gc'); os.makedirs(shim + '/fb/build')
        os.symlink('/usr/include', shim + '/boehm-gc/include')
        with open(shim + '/fb/build/config.h', 'w') as f:
            f.write('#define MINIM_X86_64 1\n#define PRELUDE_PATH "/repo/src/core/s/prelude.min"\n#define BOOT_DIR "/repo/src/boot/s"\n')
        def one(src):
            out = os.path.join(tmp, src.replace('/', '_')) + '.bc'
            cmd = [LLVM + '/clang', '-std=c11', '-w', '-O0', '-g', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names',
                   '-I' + shim, '-I' + shim + '/fb', *extra_cflags, '-emit-llvm', '-c', src, '-o', out]
            p = subprocess.run(cmd, capture_output=True, text=True)
            if p.returncode: raise BuildError('clang failed on %s:\n%s' % (src, p.stderr[-2000:]))
            # a function this framework has never seen is a helper someone extracted: its body goes back where it is called
            p = subprocess.run([LLVM + '/llvm-nm', '--defined-only', '--format=just-symbols', out], capture_output=True, text=True)
            with open(src, encoding='latin-1') as f: txt = f.read()
            helpers.update(n for n in p.stdout.split() if n not in KNOWN and re.search(r'\b%s\s*\(' % re.escape(n), txt))
            return out
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as ex: outs = list(ex.map(one, files))
        def run(*cmd):
            p = subprocess.run(cmd, capture_output=True, text=True)
            if p.returncode: raise BuildError('%s failed:\n%s' % (os.path.basename(cmd[0]), p.stderr[-2000:]))
        run(LLVM + '/llvm-link', *outs, '-o', tmp + '/all.bc')
        force = [x for n in helpers for x in ('-force-attribute=%s:alwaysinline' % n, '-force-remove-attribute=%s:noinline' % n)]
        run(LLVM + '/opt', *force, '-passes=' + ('forceattrs,always-inline,' if helpers else '') + 'function(mem2reg),cgscc(function-attrs),function(early-cse<memssa>)', '-S', tmp + '/all.bc', '-o', tmp + '/all.ll')
        with open(tmp + '/all.ll', encoding='latin-1') as f: parse(f.read(), mod)
        finish(mod)
        used = {o[1:] for f in mod.funcs.values() if not f.decl for i in f.instrs() for o in list(i.ops) + ([i.x] if i.op == 'call' else []) if isinstance(o, str) and o.startswith('@') and o[1:] != f.name}
        used |= {w for r in mod.ginit.values() for w in re.findall(r'@([\w.$]+)', r)}
        for n in list(mod.funcs):
            if n in helpers and n not in used: del mod.funcs[n]
        mod.inlined = sorted(helpers)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return mod

_core = None
def core():
    global _core
    if _core is None: _core = compile_units(units()['core'] + units()['boot'])
    return _core

# ------------------------------------------------------------------ helpers
def strip(fn, v):
    """look through casts"""
    while isinstance(v, str) and v.startswith('%'):
        d = fn.defs.get(v)
        if d is not None and d.op in ('ptrtoint', 'inttoptr', 'bitcast', 'freeze'): v = d.ops[0]
        else: break
    return v

SZ = {'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'ptr': 8, 'i1': 1}
def addr(fn, v, depth=0):
    """pointer value -> (base, const offset, [(index value, scale)])"""
    off = 0; idx = []
    while True:
        v = strip(fn, v)
        d = fn.defs.get(v) if isinstance(v, str) else None
        if d is None: break
        if d.op == 'getelementptr' and d.ty in SZ and len(d.ops) == 2:
            sc = SZ[d.ty]; k = d.ops[1]
            e, c, m = lin(fn, k)
            off += c * sc
            if e is not None: idx.append((e, m * sc))
            v = d.ops[0]
        elif d.op == 'getelementptr' and d.ty.startswith('['):
            m = re.match(r'\[(\d+) x (\w+)\]', d.ty)
            if not m or m.group(2) not in SZ: break
            sc = SZ[m.group(2)]
            if isinstance(d.ops[-1], int): off += d.ops[-1] * sc
            else: idx.append((d.ops[-1], sc))
            v = d.ops[0]
        elif d.op == 'add' and d.ty == 'i64' and isinstance(d.ops[1], int):
            off += d.ops[1]; v = d.ops[0]
        else: break
    return v, off, idx

def lin(fn, v):
    """integer value -> (value or None, const, multiplier): v == mult*value + const"""
    if isinstance(v, int): return None, v, 1
    d = fn.defs.get(v) if isinstance(v, str) else None
    if d is None: return v, 0, 1
    if d.op in ('sext', 'zext', 'trunc', 'freeze'): return lin(fn, d.ops[0])
    if d.op == 'add':
        a, b = d.ops
        if isinstance(b, int):
            e, c, m = lin(fn, a); return e, c + b, m
        if isinstance(a, int):
            e, c, m = lin(fn, b); return e, c + a, m
    if d.op == 'sub' and isinstance(d.ops[1], int):
        e, c, m = lin(fn, d.ops[0]); return e, c - d.ops[1], m
    if d.op == 'mul' and isinstance(d.ops[1], int):
        e, c, m = lin(fn, d.ops[0]); return e, c * d.ops[1], m * d.ops[1]
    if d.op == 'mul' and isinstance(d.ops[0], int):
        e, c, m = lin(fn, d.ops[1]); return e, c * d.ops[0], m * d.ops[0]
    if d.op == 'shl' and isinstance(d.ops[1], int):
        e, c, m = lin(fn, d.ops[0]); k = 1 << d.ops[1]; return e, c * k, m * k
    return v, 0, 1

def cstring(mod, v):
    if isinstance(v, str) and v in mod.strings: return mod.strings[v].rstrip(b'\0').decode('latin-1')
    if isinstance(v, tuple) and v[0] == 'gepc' and v[1] in mod.strings and ' 0, i' not in v[2][:0]:
        return mod.strings[v[1]].rstrip(b'\0').decode('latin-1')
    return None

def callee(ins):
    return ins.x[1:] if ins.op == 'call' and isinstance(ins.x, str) and ins.x.startswith('@') else None

def prim_table(mod):
    """[(name, c function or None, arity or None, generator or None, line)] from the registrations,
    found by data flow: every top_env_insert(env, intern(NAME), V)"""
    out = []
    for f in mod.funcs.values():
        if f.decl: continue
        for i in f.instrs():
            if callee(i) != 'top_env_insert': continue
            def res(v):
                return f.defs.get(v) if isinstance(v, str) else None
            k = res(i.ops[1]); name = None
            if k is not None and callee(k) == 'intern_symbol': name = cstring(mod, k.ops[1])
            if name is None: continue
            v = res(i.ops[2])
            if v is not None and callee(v) == 'compile_prim':
                fnv = v.ops[1]; ar = res(v.ops[2])
                arity = None
                if ar is not None and callee(ar) == 'Mfixnum' and isinstance(ar.ops[0], int): arity = ar.ops[0]
                out.append(dict(name=name, fn=fnv[1:] if isinstance(fnv, str) and fnv.startswith('@') else None, arity=arity, gen=None,
                                who=cstring(mod, v.ops[0]), line=i.line, file=f.file, v=v))
            elif v is not None and callee(v):
                out.append(dict(name=name, fn=None, arity=None, gen=callee(v), who=None, line=i.line, file=f.file, v=v))
            else:
                out.append(dict(name=name, fn=None, arity=None, gen=None, who=None, line=i.line, file=f.file, v=v, value=i.ops[2]))
    return out

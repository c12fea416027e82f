"""Front end for Minim source text: reader, scope resolution and macro expansion into a small
core AST.  Nothing here executes Minim code; macros of the standard library are known forms,
user `syntax-rules` macros are expanded by pattern matching."""
import os

# ------------------------------------------------------------------ reader
class Node:
    __slots__ = ('pos',)
class S(Node):
    __slots__ = ('name',)
    def __init__(s, name, pos): s.name = name; s.pos = pos
    def __repr__(s): return s.name
class L(Node):
    __slots__ = ('items', 'tail')
    def __init__(s, items, tail, pos): s.items = items; s.tail = tail; s.pos = pos
    def __repr__(s):
        r = ' '.join(map(repr, s.items))
        return '(' + r + (' . ' + repr(s.tail) if s.tail is not None else '') + ')'
class V(Node):
    __slots__ = ('items',)
    def __init__(s, items, pos): s.items = items; s.pos = pos
    def __repr__(s): return '#(' + ' '.join(map(repr, s.items)) + ')'
class Str(Node):
    __slots__ = ('val',)
    def __init__(s, val, pos): s.val = val; s.pos = pos
    def __repr__(s): return '"' + s.val.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n') + '"'
class Chr(Node):
    __slots__ = ('val',)
    def __init__(s, val, pos): s.val = val; s.pos = pos
    def __repr__(s): return '#\\' + s.val
class Num(Node):
    __slots__ = ('val',)
    def __init__(s, val, pos): s.val = val; s.pos = pos
    def __repr__(s): return str(s.val)
class Bool(Node):
    __slots__ = ('val',)
    def __init__(s, val, pos): s.val = val; s.pos = pos
    def __repr__(s): return '#t' if s.val else '#f'

class ReadError(Exception): pass

CLOSE = {'(': ')', '[': ']', '{': '}'}
CHARNAMES = {'alarm': '\x07', 'backspace': '\x08', 'delete': '\x7f', 'esc': '\x1b', 'newline': '\n',
             'nul': '\0', 'null': '\0', 'page': '\x0c', 'return': '\r', 'space': ' ', 'tab': '\t', 'vtab': '\x0b'}
STRESC = {'a': '\x07', 'b': '\x08', 't': '\t', 'n': '\n', 'v': '\x0b', 'f': '\x0c', 'r': '\r', '"': '"', '\\': '\\', "'": "'", '0': '\0'}

class Reader:
    def __init__(self, text, fname):
        self.t = text; self.i = 0; self.line = 1; self.f = fname
    def err(self, m): raise ReadError('%s:%d: %s' % (self.f, self.line, m))
    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else ''
    def adv(self):
        c = self.t[self.i]; self.i += 1
        if c == '\n': self.line += 1
        return c
    def pos(self): return (self.f, self.line)
    def skip(self):
        while self.i < len(self.t):
            c = self.peek()
            if c.isspace(): self.adv()
            elif c == ';':
                while self.i < len(self.t) and self.peek() != '\n': self.adv()
            elif c == '#' and self.peek(1) == '|':
                self.adv(); self.adv(); d = 1
                while d:
                    if self.i >= len(self.t): self.err('unterminated block comment')
                    if self.peek() == '|' and self.peek(1) == '#': self.adv(); self.adv(); d -= 1
                    elif self.peek() == '#' and self.peek(1) == '|': self.adv(); self.adv(); d += 1
                    else: self.adv()
            elif c == '#' and self.peek(1) == ';':
                self.adv(); self.adv(); self.datum()
            else: return
    def all(self):
        out = []
        while True:
            self.skip()
            if self.i >= len(self.t): return out
            out.append(self.datum())
    def token(self):
        s = ''
        while self.i < len(self.t):
            c = self.peek()
            if c.isspace() or c in '()[]{}";\'' or c == '`': break
            s += self.adv()
        return s
    def lst(self, close, pos):
        items, tail = [], None
        while True:
            self.skip()
            if self.i >= len(self.t): self.err('unterminated list from line %d' % pos[1])
            c = self.peek()
            if c in ')]}':
                if c != close: self.err('mismatched %r' % c)
                self.adv(); return L(items, tail, pos)
            if c == '.' and self.peek(1).isspace():
                self.adv(); tail = self.datum(); self.skip()
                if self.peek() != close: self.err('bad dot')
                self.adv()
                if isinstance(tail, L): return L(items + tail.items, tail.tail, pos)
                return L(items, tail, pos)
            items.append(self.datum())
    def wrap(self, name, pos):
        return L([S(name, pos), self.datum()], None, pos)
    def datum(self):
        self.skip()
        if self.i >= len(self.t): self.err('unexpected end of file')
        p = self.pos(); c = self.peek()
        if c in '([{': self.adv(); return self.lst(CLOSE[c], p)
        if c in ')]}': self.err('unexpected %r' % c)
        if c == "'": self.adv(); return self.wrap('quote', p)
        if c == '`': self.adv(); return self.wrap('quasiquote', p)
        if c == ',':
            self.adv()
            if self.peek() == '@': self.adv(); return self.wrap('unquote-splicing', p)
            return self.wrap('unquote', p)
        if c == '"':
            self.adv(); s = ''
            while True:
                if self.i >= len(self.t): self.err('unterminated string')
                d = self.adv()
                if d == '"': return Str(s, p)
                if d == '\\':
                    e = self.adv(); s += STRESC.get(e, '\\' + e)
                else: s += d
        if c == '#':
            n = self.peek(1)
            if n == '\\':
                self.adv(); self.adv(); s = self.adv()
                if s.isalpha():
                    while self.i < len(self.t) and not (self.peek().isspace() or self.peek() in '()[]{}";\''): s += self.adv()
                if len(s) > 1: s = CHARNAMES.get(s, s)
                return Chr(s, p)
            if n in '([{': self.adv(); self.adv(); return V(self.lst(CLOSE[n], p).items, p)
            if n == "'": self.adv(); self.adv(); return self.wrap('syntax', p)
            if n == '`': self.adv(); self.adv(); return self.wrap('quasisyntax', p)
            if n == ',': self.adv(); self.adv(); return self.wrap('unsyntax', p)
            if n == '&': self.adv(); self.adv(); return self.wrap('box', p)
            t = self.token()
            if t in ('#t', '#true'): return Bool(True, p)
            if t in ('#f', '#false'): return Bool(False, p)
            if t.startswith('#x'): return Num(int(t[2:], 16), p)
            if t.startswith('#d'): return Num(int(t[2:], 10), p)
            self.err('unknown # syntax ' + t)
        t = self.token()
        if t == '': self.err('unexpected %r' % c)
        try:
            return Num(int(t), p)
        except ValueError:
            return S(t, p)

def read_file(path, rel=None):
    with open(path, encoding='latin-1') as f: txt = f.read()
    return Reader(txt, rel or path).all()

# ------------------------------------------------------------------ core AST
class Var:
    __slots__ = ('name', 'kind', 'pos', 'assigned', 'module', 'refs')
    def __init__(s, name, kind, pos, module=None):
        s.name = name; s.kind = kind; s.pos = pos; s.assigned = False; s.module = module; s.refs = 0
    def __repr__(s): return '%s' % s.name
class E:
    __slots__ = ('pos',)
class Const(E):
    __slots__ = ('val',)
    def __init__(s, val, pos): s.val = val; s.pos = pos
class Ref(E):
    __slots__ = ('var',)
    def __init__(s, var, pos): s.var = var; s.pos = pos
class SetE(E):
    __slots__ = ('var', 'val')
    def __init__(s, var, val, pos): s.var = var; s.val = val; s.pos = pos
class If(E):
    __slots__ = ('c', 't', 'e')
    def __init__(s, c, t, e, pos): s.c = c; s.t = t; s.e = e; s.pos = pos
class Seq(E):
    __slots__ = ('es',)
    def __init__(s, es, pos): s.es = es; s.pos = pos
class Clause:
    __slots__ = ('params', 'rest', 'body', 'pos')
    def __init__(s, params, rest, body, pos): s.params = params; s.rest = rest; s.body = body; s.pos = pos
class Lam(E):
    __slots__ = ('clauses', 'name')
    def __init__(s, clauses, pos, name=None): s.clauses = clauses; s.pos = pos; s.name = name
class App(E):
    __slots__ = ('f', 'args')
    def __init__(s, f, args, pos): s.f = f; s.args = args; s.pos = pos
class LetV(E):
    __slots__ = ('binds', 'body')
    def __init__(s, binds, body, pos): s.binds = binds; s.body = body; s.pos = pos
class LetrecV(E):
    __slots__ = ('binds', 'body')
    def __init__(s, binds, body, pos): s.binds = binds; s.body = body; s.pos = pos
class DefV(E):
    __slots__ = ('vars', 'val')
    def __init__(s, vars, val, pos): s.vars = vars; s.val = val; s.pos = pos
class Opaque(E):
    """syntax template or other data the analyses treat as an unknown value; keeps sub-expressions"""
    __slots__ = ('subs', 'what')
    def __init__(s, subs, what, pos): s.subs = subs; s.what = what; s.pos = pos

class Problem:
    def __init__(s, kind, pos, msg): s.kind = kind; s.pos = pos; s.msg = msg
    def __repr__(s): return '%s:%s: %s' % (s.pos[0], s.pos[1], s.msg)

class Scope:
    def __init__(self, parent=None):
        self.parent = parent; self.tab = {}
    def find(self, name):
        s = self
        while s is not None:
            if name in s.tab: return s.tab[name]
            s = s.parent
        return None
    def bind(self, name, v): self.tab[name] = v

CORE = {'define-values', 'let-values', 'letrec-values', 'lambda', 'case-lambda', 'begin', 'if', 'quote',
        'quote-syntax', 'set!', 'define-syntaxes'}
SUGAR = {'define', 'let', 'let*', 'letrec', 'letrec*', 'let*-values', 'cond', 'case', 'when', 'unless', 'and', 'or', 'do',
         'quasiquote', 'define-syntax', 'syntax-case', 'syntax', 'quasisyntax', 'with-syntax', 'syntax-rules',
         'define-record-type', 'define-generics', 'define-enumeration', 'delay', 'import', 'export',
         'let-syntaxes', 'letrec-syntaxes', 'else', '=>', 'case/else', 'case/test'}

class Form:
    """a syntactic keyword in scope"""
    def __init__(self, name): self.name = name
class RulesMacro:
    def __init__(self, name, lits, rules, scope): self.name = name; self.lits = lits; self.rules = rules; self.scope = scope
class CodeMacro:
    """a macro whose uses are not expanded"""
    def __init__(self, name, handler=None): self.name = name; self.handler = handler
class PatVar:
    def __init__(self, name): self.name = name

class Expander:
    """Expands the forms of one file.  `forms` is the set of keywords available."""
    def __init__(self, fname, toplevel, sugar=True, macros=None):
        self.fname = fname
        self.top = toplevel            # Scope with globals (Var) and keywords
        self.problems = []
        self.sugar = sugar
        self.exports = []; self.export_all = []; self.imports = []
        self.records = {}              # name -> info
    def prob(self, kind, pos, msg): self.problems.append(Problem(kind, pos, msg))

    # -- helpers
    def kw(self, x, scope):
        if isinstance(x, S):
            b = scope.find(x.name)
            if isinstance(b, (Form, RulesMacro, CodeMacro)): return b
        return None
    def iskw(self, x, scope, name):
        b = self.kw(x, scope)
        return isinstance(b, Form) and b.name == name
    def bindvar(self, s, scope, kind='local'):
        if not isinstance(s, S):
            self.prob('syntax', s.pos, 'expected identifier, found %r' % s); return Var('?', kind, s.pos)
        v = Var(s.name, kind, s.pos); scope.bind(s.name, v); return v

    # -- program
    def program(self, data):
        out = []
        data = [self.norm_top(d) for d in data]
        for d in data: self.collect(d)
        for d in data:
            r = self.toplevel(d)
            if r is not None: out.append(r)
        return out
    def norm_top(self, d): return d
    def head(self, d, scope):
        if isinstance(d, L) and d.items and isinstance(d.items[0], S):
            b = scope.find(d.items[0].name)
            if isinstance(b, Form): return b.name
            if isinstance(b, (RulesMacro, CodeMacro)): return b
        return None
    def declare(self, s, module=None):
        if not isinstance(s, S): self.prob('syntax', s.pos, 'expected identifier'); return
        old = self.top.tab.get(s.name)
        if isinstance(old, Var) and old.kind == 'global' and old.module == self.fname:
            return
        self.top.bind(s.name, Var(s.name, 'global', s.pos, self.fname))
    def collect(self, d):
        h = self.head(d, self.top)
        if isinstance(h, RulesMacro):
            e = self.expand_rules(h, d)
            if e is not None:
                d.items[:] = e.items; d.tail = e.tail
                self.collect(d)
            return
        if h is None or not isinstance(h, str): return
        it = d.items
        if h == 'begin':
            for x in it[1:]: self.collect(x)
        elif h in ('define-values',):
            if len(it) > 1 and isinstance(it[1], L):
                for x in it[1].items: self.declare(x)
        elif h == 'define':
            t = it[1] if len(it) > 1 else None
            while isinstance(t, L): t = t.items[0]
            if t is not None: self.declare(t)
        elif h in ('define-syntaxes', 'define-syntax'):
            self.collect_macro(d, h)
        elif h == 'define-record-type': self.record(d, declare=True)
        elif h == 'define-generics':
            n = it[1]
            for suf in ('gen:%s', 'gen:%s?'): self.declare(S(suf % n.name, n.pos))
        elif h == 'define-enumeration':
            self.top.bind(it[1].name, CodeMacro(it[1].name)); self.top.bind(it[3].name, CodeMacro(it[3].name))
            self.declare(S('$enum:' + it[1].name, it[1].pos))
        elif h == 'import':
            self.imports += [x for x in it[1:]]
        elif h == 'export':
            for x in it[1:]:
                if isinstance(x, S): self.exports.append(x)
                else: self.export_all.append(x)
    def macro_from(self, name, rhs, scope):
        if isinstance(rhs, L) and self.iskw(rhs.items[0], scope, 'syntax-rules'):
            lits = [x.name for x in rhs.items[1].items]
            rules = [(c.items[0], c.items[1]) for c in rhs.items[2:]]
            return RulesMacro(name, lits, rules, scope)
        return CodeMacro(name)
    def collect_macro(self, d, h):
        it = d.items
        if h == 'define-syntax':
            t = it[1]
            if isinstance(t, L):
                while isinstance(t, L): t = t.items[0]
                self.bind_macro(t.name, CodeMacro(t.name))
            else: self.bind_macro(t.name, self.macro_from(t.name, it[2], self.top))
        else:
            for x in it[1].items: self.bind_macro(x.name, CodeMacro(x.name))
    def bind_macro(self, name, m):
        old = self.top.find(name)
        if isinstance(old, Form): return      # the file that implements a form we know natively
        self.top.bind(name, m)

    def toplevel(self, d):
        h = self.head(d, self.top)
        if h in ('import', 'export'): return None
        if h == 'begin':
            return Seq([r for r in (self.toplevel(x) for x in d.items[1:]) if r is not None], d.pos)
        if h == 'define-values':
            vs = [self.top.find(x.name) for x in d.items[1].items]
            if len(d.items) != 3: self.prob('syntax', d.pos, 'define-values takes one expression')
            return DefV(vs, self.named(self.expr(d.items[2], self.top), vs), d.pos)
        if h == 'define':
            name, rhs = self.define_parts(d)
            v = self.top.find(name.name)
            return DefV([v], self.named(self.expr(rhs, self.top), [v]), d.pos)
        if h in ('define-syntaxes', 'define-syntax'): return self.macro_code(d, h, self.top)
        if h == 'define-record-type': return self.record(d, declare=False)
        if h == 'define-generics': return self.generics(d)
        if h == 'define-enumeration': return self.enumeration(d)
        return self.expr(d, self.top)
    def named(self, e, vs):
        def nm(x, v):
            if isinstance(x, Lam) and x.name is None: x.name = v.name
            elif isinstance(x, (LetV, LetrecV)): nm(x.body, v)
            elif isinstance(x, Seq) and x.es: nm(x.es[-1], v)
        def last(x):
            while isinstance(x, (LetV, LetrecV)) or isinstance(x, Seq):
                x = x.body if not isinstance(x, Seq) else x.es[-1]
            return x
        if len(vs) == 1: nm(e, vs[0])
        else:
            x = last(e)
            if isinstance(x, App) and isinstance(x.f, Ref) and x.f.var.name == 'values' and len(x.args) == len(vs):
                for a, v in zip(x.args, vs): nm(a, v)
        return e
    def define_parts(self, d):
        it = d.items
        t = it[1]
        if isinstance(t, S):
            if len(it) != 3: self.prob('syntax', d.pos, 'define of a variable takes one expression'); 
            return t, it[2]
        # curried
        rhs = None; body = it[2:]
        while isinstance(t, L):
            formals = L(t.items[1:], t.tail, t.pos) if (t.items[1:] or t.tail is None) else t.tail
            if not t.items[1:] and t.tail is not None: formals = t.tail
            rhs = L([S('lambda', d.pos), formals] + body, None, d.pos)
            body = [rhs]; t = t.items[0]
        return t, rhs
    def macro_code(self, d, h, scope):
        it = d.items
        if h == 'define-syntax':
            t = it[1]
            if isinstance(t, L):
                _, rhs = self.define_parts(d)
            else:
                rhs = it[2]
                if isinstance(rhs, L) and self.iskw(rhs.items[0], scope, 'syntax-rules'): return None
        else: rhs = it[2]
        return self.expr(rhs, scope)

    # -- records / generics / enumerations (standard library forms)
    def record(self, d, declare):
        it = d.items; pos = d.pos
        spec = it[1]
        if isinstance(spec, L): name, ctor, pred = spec.items
        else:
            name = spec; ctor = S('make-' + name.name, name.pos); pred = S(name.name + '?', name.pos)
        fields = []; clauses = {}; methods = []
        for c in it[2:]:
            k = c.items[0].name
            if k == 'methods': methods.append(c); continue
            clauses[k] = c
            if k == 'fields':
                for f in c.items[1:]:
                    if isinstance(f, S): fields.append((f.name, S('%s-%s' % (name.name, f.name), f.pos), None))
                    else:
                        kind, fn = f.items[0].name, f.items[1].name
                        acc = f.items[2] if len(f.items) > 2 else S('%s-%s' % (name.name, fn), f.pos)
                        mut = None
                        if kind == 'mutable':
                            mut = f.items[3] if len(f.items) > 3 else S('%s-%s-set!' % (name.name, fn), f.pos)
                        fields.append((fn, acc, mut))
        if declare:
            for x in [name, ctor, pred] + [f[1] for f in fields] + [f[2] for f in fields if f[2]]: self.declare(x)
            return
        T = self.top
        def g(n): return S(n, pos)
        def q(x): return L([g('quote'), x], None, pos)
        def call(*a): return L(list(a), None, pos)
        one = lambda k: clauses[k].items[1] if k in clauses else Bool(False, pos)
        outs = []
        def dv(n, rhs): outs.append(DefV([T.find(n.name)], self.named(self.expr(rhs, T), [T.find(n.name)]), n.pos))
        fv = V([call(g('mutable' if m else 'immutable'), g(fn)) for fn, a, m in fields], pos)
        dv(name, call(g('make-record-type-descriptor'), q(name), one('parent'), one('uid'), one('sealed'), one('opaque'), q(fv)))
        for c in methods:
            gen = c.items[1]
            e = call(g('record-type-add-generic!'), name, gen, call(g('list'), *c.items[2:]))
            outs.append(self.expr(e, T))
        c0 = call(g('record-constructor'), name)
        dv(ctor, call(clauses['protocol'].items[1], c0) if 'protocol' in clauses else c0)
        dv(pred, call(g('record-predicate'), name))
        for i, (fn, a, m) in enumerate(fields):
            dv(a, call(g('record-accessor'), name, Num(i, pos)))
            if m: dv(m, call(g('record-mutator'), name, Num(i, pos)))
        self.records[name.name] = dict(ctor=ctor.name, pred=pred.name, fields=fields, pos=pos)
        return Seq(outs, pos)
    def generics(self, d):
        n = d.items[1]; pos = d.pos
        a, b = self.top.find('gen:' + n.name), self.top.find('gen:' + n.name + '?')
        e = L([S('$make-generics-type', pos), L([S('quote', pos), n], None, pos),
               L([S('quote', pos), L(d.items[2:], None, pos)], None, pos)], None, pos)
        e2 = L([S('generic-instance?', pos), S('gen:' + n.name, pos)], None, pos)
        return Seq([DefV([a], self.expr(e, self.top), pos), DefV([b], self.expr(e2, self.top), pos)], pos)
    def enumeration(self, d):
        n = d.items[1]; pos = d.pos
        e = L([S('make-enumeration', pos), L([S('quote', pos), d.items[2]], None, pos)], None, pos)
        return DefV([self.top.find('$enum:' + n.name)], self.expr(e, self.top), pos)

    # -- expressions
    def body(self, forms, scope, pos):
        """internal definitions: letrec* style"""
        sc = Scope(scope)
        forms = list(forms)
        # flatten begins & expand user macros
        flat = []
        work = list(forms)
        while work:
            f = work.pop(0)
            h = self.head(f, sc)
            if isinstance(h, RulesMacro):
                e = self.expand_rules(h, f)
                if e is not None: work.insert(0, e); continue
            if h == 'begin' and any(self.head(x, sc) in ('define', 'define-values') for x in f.items[1:]):
                work = f.items[1:] + work; continue
            flat.append(f)
        defs = []
        for f in flat:
            h = self.head(f, sc)
            if h == 'define':
                t = f.items[1]
                while isinstance(t, L): t = t.items[0]
                defs.append((f, [t]))
            elif h == 'define-values': defs.append((f, f.items[1].items))
            elif h in ('define-syntax', 'define-syntaxes'):
                t = f.items[1]
                if h == 'define-syntax':
                    if isinstance(t, L): sc.bind(t.items[0].name, CodeMacro(t.items[0].name))
                    else: sc.bind(t.name, self.macro_from(t.name, f.items[2], sc))
        if not flat:
            self.prob('syntax', pos, 'empty body'); return Const(None, pos)
        if not defs:
            es = [self.stmt(f, sc) for f in flat]
            es = [e for e in es if e is not None]
            return es[0] if len(es) == 1 else Seq(es, pos)
        # nested: each definition scopes over everything (letrec*), evaluation order kept
        # names may be redefined sequentially (let*-like shadowing); keep the last visible per position
        return self.body_from(flat, 0, sc, pos)
    def body_from(self, flat, i, sc, pos):
        es = []
        # first bind every definition up to the end that is not a redefinition
        first = True
        names = {}
        for f in flat:
            h = self.head(f, sc)
            if h == 'define':
                t = f.items[1]
                while isinstance(t, L): t = t.items[0]
                ids = [t]
            elif h == 'define-values': ids = f.items[1].items
            else: continue
            for t in ids:
                if t.name in names and t.name != '_':
                    self.prob('dup', t.pos, 'duplicate internal definition of %s' % t.name)
                names[t.name] = True
                self.bindvar(t, sc)
        def build(k):
            out = []
            while k < len(flat):
                f = flat[k]; h = self.head(f, sc)
                if h in ('define', 'define-values'):
                    if h == 'define':
                        n, rhs = self.define_parts(f); vs = [sc.find(n.name)]
                    else: vs = [sc.find(x.name) for x in f.items[1].items]; rhs = f.items[2]
                    val = self.named(self.expr(rhs, sc), vs)
                    rest = build(k + 1)
                    if rest is None:
                        self.prob('syntax', f.pos, 'body ends in a definition'); rest = Const(None, f.pos)
                    node = LetrecV([(vs, val)], rest, f.pos)
                    out.append(node)
                    return out[0] if len(out) == 1 else Seq(out, pos)
                e = self.stmt(f, sc)
                if e is not None: out.append(e)
                k += 1
            if not out: return None
            return out[0] if len(out) == 1 else Seq(out, pos)
        r = build(0)
        return r if r is not None else Const(None, pos)
    def stmt(self, f, sc):
        h = self.head(f, sc)
        if h in ('define-syntax', 'define-syntaxes'): return self.macro_code(f, h, sc)
        return self.expr(f, sc)

    def ref(self, x, scope):
        b = scope.find(x.name)
        if b is None:
            self.prob('unbound', x.pos, 'unbound identifier `%s`' % x.name)
            v = Var(x.name, 'unbound', x.pos); return Ref(v, x.pos)
        if isinstance(b, Var):
            b.refs += 1
            return Ref(b, x.pos)
        if isinstance(b, PatVar):
            return Opaque([], 'patvar', x.pos)
        self.prob('keyword', x.pos, 'syntactic keyword `%s` used as a variable' % x.name)
        return Ref(Var(x.name, 'unbound', x.pos), x.pos)

    def expr(self, x, scope):
        pos = x.pos
        if isinstance(x, S): return self.ref(x, scope)
        if isinstance(x, (Num, Str, Chr, Bool)): return Const(x, pos)
        if isinstance(x, V): return Const(x, pos)
        if not x.items:
            self.prob('syntax', pos, 'empty application'); return Const(None, pos)
        h = x.items[0]
        if isinstance(h, S):
            b = scope.find(h.name)
            if isinstance(b, Form):
                m = getattr(self, 'x_' + b.name.replace('-', '_').replace('!', 'B').replace('*', 'S').replace('/', '_').replace('>', 'G').replace('=', 'Q'), None)
                if m is None:
                    self.prob('syntax', pos, 'form %s not allowed here' % b.name); return Const(None, pos)
                try:
                    return m(x, scope)
                except (IndexError, AttributeError, ValueError) as e:
                    self.prob('syntax', pos, 'ill-formed %s form' % b.name)
                    return Const(None, pos)
            if isinstance(b, RulesMacro):
                e = self.expand_rules(b, x)
                if e is None:
                    self.prob('syntax', pos, 'use of macro %s matches no clause' % h.name); return Const(None, pos)
                return self.expr(e, scope)
            if isinstance(b, CodeMacro):
                return Opaque([], 'macro:' + h.name, pos)
        if x.tail is not None: self.prob('syntax', pos, 'improper application')
        f = self.expr(h, scope)
        return App(f, [self.expr(a, scope) for a in x.items[1:]], pos)

    # core forms
    def x_quote(self, x, sc):
        if len(x.items) != 2: raise ValueError
        return Const(('quote', x.items[1]), x.pos)
    def x_quote_syntax(self, x, sc): return Opaque([], 'syntax', x.pos)
    def x_if(self, x, sc):
        if len(x.items) != 4: self.prob('syntax', x.pos, '`if` takes three sub-expressions'); raise ValueError
        return If(self.expr(x.items[1], sc), self.expr(x.items[2], sc), self.expr(x.items[3], sc), x.pos)
    def x_begin(self, x, sc):
        if len(x.items) < 2: raise ValueError
        if any(self.head(f, sc) in ('define', 'define-values') for f in x.items[1:]): return self.body(x.items[1:], sc, x.pos)
        es = [self.stmt(e, sc) for e in x.items[1:]]
        es = [e for e in es if e is not None]
        return es[0] if len(es) == 1 else Seq(es, x.pos)
    def x_setB(self, x, sc):
        if len(x.items) != 3: raise ValueError
        b = sc.find(x.items[1].name)
        v = self.expr(x.items[2], sc)
        if not isinstance(b, Var):
            self.prob('unbound', x.pos, 'set! of unbound identifier `%s`' % x.items[1].name)
            b = Var(x.items[1].name, 'unbound', x.pos)
        b.assigned = True
        return SetE(b, v, x.pos)
    def formals(self, f, sc):
        if isinstance(f, S): return [], self.bindvar(f, sc)
        ps = [self.bindvar(p, sc) for p in f.items]
        names = [p.name for p in ps if p.name != '_']
        if len(set(names)) != len(names): self.prob('dup', f.pos, 'duplicate formal parameter')
        return ps, (self.bindvar(f.tail, sc) if f.tail is not None else None)
    def clause(self, f, body, sc, pos):
        s2 = Scope(sc)
        ps, r = self.formals(f, s2)
        return Clause(ps, r, self.body(body, s2, pos), pos)
    def x_lambda(self, x, sc):
        return Lam([self.clause(x.items[1], x.items[2:], sc, x.pos)], x.pos)
    def x_case_lambda(self, x, sc):
        return Lam([self.clause(c.items[0], c.items[1:], sc, c.pos) for c in x.items[1:]], x.pos)
    def x_let_values(self, x, sc):
        s2 = Scope(sc); binds = []
        vals = []
        for b in x.items[1].items:
            if len(b.items) != 2: raise ValueError
            vals.append(self.expr(b.items[1], sc))
        for b, v in zip(x.items[1].items, vals):
            vs = [self.bindvar(i, s2) for i in b.items[0].items]
            binds.append((vs, self.named(v, vs)))
        return LetV(binds, self.body(x.items[2:], s2, x.pos), x.pos)
    def x_letrec_values(self, x, sc):
        s2 = Scope(sc); vss = []
        for b in x.items[1].items:
            if len(b.items) != 2: raise ValueError
            vss.append([self.bindvar(i, s2) for i in b.items[0].items])
        binds = [(vs, self.named(self.expr(b.items[1], s2), vs)) for vs, b in zip(vss, x.items[1].items)]
        return LetrecV(binds, self.body(x.items[2:], s2, x.pos), x.pos)
    def x_define_values(self, x, sc):
        self.prob('syntax', x.pos, 'definition in expression context'); return Const(None, x.pos)
    x_define = x_define_values
    # sugar
    def x_let(self, x, sc):
        if isinstance(x.items[1], S):       # named let
            s2 = Scope(sc); loop = Var(x.items[1].name, 'local', x.pos)
            bs = x.items[2].items
            inits = [self.expr(b.items[1], sc) for b in bs]
            s2.bind(loop.name, loop)
            s3 = Scope(s2)
            ps = [self.bindvar(b.items[0], s3) for b in bs]
            lam = Lam([Clause(ps, None, self.body(x.items[3:], s3, x.pos), x.pos)], x.pos, loop.name)
            return LetrecV([([loop], lam)], App(Ref(loop, x.pos), inits, x.pos), x.pos)
        s2 = Scope(sc)
        vals = [self.expr(b.items[1], sc) for b in x.items[1].items]
        for b in x.items[1].items:
            if len(b.items) != 2: raise ValueError
        binds = []
        for b, v in zip(x.items[1].items, vals):
            vs = [self.bindvar(b.items[0], s2)]; binds.append((vs, self.named(v, vs)))
        return LetV(binds, self.body(x.items[2:], s2, x.pos), x.pos)
    def x_letS(self, x, sc):
        bs = x.items[1].items
        if not bs: return self.body(x.items[2:], sc, x.pos)
        def go(i, sc):
            if i == len(bs): return self.body(x.items[2:], sc, x.pos)
            v = self.expr(bs[i].items[1], sc); s2 = Scope(sc)
            vs = [self.bindvar(bs[i].items[0], s2)]
            return LetV([(vs, self.named(v, vs))], go(i + 1, s2), x.pos)
        return go(0, sc)
    def x_letrec(self, x, sc):
        s2 = Scope(sc)
        vs = [self.bindvar(b.items[0], s2) for b in x.items[1].items]
        binds = [([v], self.named(self.expr(b.items[1], s2), [v])) for v, b in zip(vs, x.items[1].items)]
        return LetrecV(binds, self.body(x.items[2:], s2, x.pos), x.pos)
    def g(self, n, pos):
        b = self.top.find(n)
        return Ref(b, pos) if isinstance(b, Var) else Ref(Var(n, 'prim', pos), pos)
    def void(self, pos): return App(self.g('void', pos), [], pos)
    def x_cond(self, x, sc):
        def go(cs):
            if not cs: return self.void(x.pos)
            c = cs[0]
            if self.iskw(c.items[0], sc, 'else'):
                if cs[1:]: self.prob('syntax', c.pos, "'else' clause must be last")
                return self.body(c.items[1:], sc, c.pos)
            t = self.expr(c.items[0], sc)
            if len(c.items) == 1: self.prob('syntax', c.pos, 'cond clause without body'); return t
            return If(t, self.body(c.items[1:], sc, c.pos), go(cs[1:]), c.pos)
        return go(x.items[1:])
    def x_case(self, x, sc):
        key = self.expr(x.items[1], sc)
        kv = Var('$key', 'local', x.pos)
        def go(cs):
            if not cs: return self.void(x.pos)
            c = cs[0]
            if self.iskw(c.items[0], sc, 'else'): return self.body(c.items[1:], sc, c.pos)
            tests = [App(self.g('equal?', c.pos), [Ref(kv, c.pos), Const(('quote', k), c.pos)], c.pos) for k in c.items[0].items]
            t = Const(Bool(False, c.pos), c.pos)
            for u in reversed(tests): t = If(u, Const(Bool(True, c.pos), c.pos), t, c.pos)
            return If(t, self.body(c.items[1:], sc, c.pos), go(cs[1:]), c.pos)
        return LetV([([kv], key)], go(x.items[2:]), x.pos)
    def x_when(self, x, sc):
        return If(self.expr(x.items[1], sc), self.body(x.items[2:], sc, x.pos), self.void(x.pos), x.pos)
    def x_unless(self, x, sc):
        return If(self.expr(x.items[1], sc), self.void(x.pos), self.body(x.items[2:], sc, x.pos), x.pos)
    def x_and(self, x, sc):
        es = x.items[1:]
        if not es: return Const(Bool(True, x.pos), x.pos)
        r = self.expr(es[-1], sc)
        for e in reversed(es[:-1]): r = If(self.expr(e, sc), r, Const(Bool(False, x.pos), x.pos), x.pos)
        return r
    def x_or(self, x, sc):
        es = x.items[1:]
        if not es: return Const(Bool(False, x.pos), x.pos)
        r = self.expr(es[-1], sc)
        for e in reversed(es[:-1]):
            t = Var('$or', 'local', x.pos)
            r = LetV([([t], self.expr(e, sc))], If(Ref(t, x.pos), Ref(t, x.pos), r, x.pos), x.pos)
        return r
    def x_do(self, x, sc):
        bs = x.items[1].items; tst = x.items[2].items
        loop = S('$do', x.pos)
        e = L([S('let', x.pos), loop, L([L(b.items[:2], None, b.pos) for b in bs], None, x.pos),
               L([S('if', x.pos), tst[0], L([S('begin', x.pos)] + tst[1:], None, x.pos),
                  L([S('begin', x.pos)] + x.items[3:] + [L([loop] + [b.items[2] for b in bs], None, x.pos)], None, x.pos)], None, x.pos)], None, x.pos)
        return self.expr(e, sc)
    def x_delay(self, x, sc):
        return App(self.g('make-promise', x.pos), [Lam([Clause([], None, self.body(x.items[1:], sc, x.pos), x.pos)], x.pos)], x.pos)
    def x_quasiquote(self, x, sc):
        subs = []
        def go(d):
            if isinstance(d, L):
                if d.items and isinstance(d.items[0], S) and d.items[0].name in ('unquote', 'unquote-splicing'):
                    subs.append(self.expr(d.items[1], sc)); return
                for i in d.items: go(i)
        go(x.items[1]); return Opaque(subs, 'quasiquote', x.pos)
    def x_syntax(self, x, sc): return Opaque([], 'syntax', x.pos)
    def x_quasisyntax(self, x, sc):
        subs = []
        def go(d):
            if isinstance(d, L):
                if d.items and isinstance(d.items[0], S) and d.items[0].name == 'unsyntax':
                    subs.append(self.expr(d.items[1], sc)); return
                for i in d.items: go(i)
        go(x.items[1]); return Opaque(subs, 'syntax', x.pos)
    def patvars(self, p, lits, sc):
        if isinstance(p, S):
            if p.name in lits or p.name in ('_', '...'): return
            sc.bind(p.name, PatVar(p.name))
        elif isinstance(p, L):
            for i in p.items: self.patvars(i, lits, sc)
            if p.tail is not None: self.patvars(p.tail, lits, sc)
        elif isinstance(p, V):
            for i in p.items: self.patvars(i, lits, sc)
    def x_syntax_case(self, x, sc):
        subs = [self.expr(x.items[1], sc)]
        lits = {l.name for l in x.items[2].items}
        for c in x.items[3:]:
            s2 = Scope(sc); self.patvars(c.items[0], lits, s2)
            for e in c.items[1:]: subs.append(self.expr(e, s2))
        return Opaque(subs, 'syntax-case', x.pos)
    def x_with_syntax(self, x, sc):
        subs = []; s2 = Scope(sc)
        for b in x.items[1].items: subs.append(self.expr(b.items[1], sc))
        for b in x.items[1].items: self.patvars(b.items[0], set(), s2)
        subs.append(self.body(x.items[2:], s2, x.pos))
        return Opaque(subs, 'with-syntax', x.pos)
    def x_syntax_rules(self, x, sc): return Opaque([], 'syntax-rules', x.pos)

    # -- syntax-rules
    def expand_rules(self, m, x):
        for pat, tmpl in m.rules:
            b = {}
            if self.match_list(pat.items[1:], pat.tail, x.items[1:], x.tail, m.lits, b):
                return self.subst(tmpl, b, x.pos)
        return None
    def match(self, p, d, lits, b):
        if isinstance(p, S):
            if p.name == '_': return True
            if p.name in lits: return isinstance(d, S) and d.name == p.name
            b[p.name] = d; return True
        if isinstance(p, L):
            if not isinstance(d, L): return False
            return self.match_list(p.items, p.tail, d.items, d.tail, lits, b)
        if isinstance(p, (Num, Str, Chr, Bool)): return type(p) == type(d) and p.val == d.val
        return False
    def match_list(self, ps, pt, ds, dt, lits, b):
        i = 0; ds = list(ds)
        k = 0
        while k < len(ps):
            p = ps[k]
            if k + 1 < len(ps) and isinstance(ps[k + 1], S) and ps[k + 1].name == '...':
                after = len(ps) - k - 2
                n = len(ds) - i - after
                if n < 0: return False
                ms = []
                for j in range(n):
                    bb = {}
                    if not self.match(p, ds[i + j], lits, bb): return False
                    ms.append(bb)
                for v in self.pvars(p, lits): b[v] = [mm[v] for mm in ms]
                i += n; k += 2; continue
            if i >= len(ds): return False
            if not self.match(p, ds[i], lits, b): return False
            i += 1; k += 1
        rest = ds[i:]
        if pt is not None:
            return self.match(pt, L(rest, dt, pt.pos), lits, b)
        return not rest and dt is None
    def pvars(self, p, lits):
        if isinstance(p, S): return [] if p.name in lits or p.name in ('_', '...') else [p.name]
        if isinstance(p, L):
            r = []
            for i in p.items: r += self.pvars(i, lits)
            if p.tail is not None: r += self.pvars(p.tail, lits)
            return r
        return []
    def subst(self, t, b, pos):
        if isinstance(t, S):
            if t.name in b: return b[t.name]
            return S(t.name, pos)
        if isinstance(t, L):
            out = []; k = 0
            while k < len(t.items):
                e = t.items[k]
                if k + 1 < len(t.items) and isinstance(t.items[k + 1], S) and t.items[k + 1].name == '...':
                    vs = [v for v in self.pvars(e, ()) if v in b and isinstance(b[v], list)]
                    n = max([len(b[v]) for v in vs] or [0])
                    for j in range(n):
                        bb = dict(b)
                        for v in vs: bb[v] = b[v][j]
                        out.append(self.subst(e, bb, pos))
                    k += 2; continue
                out.append(self.subst(e, b, pos)); k += 1
            tail = self.subst(t.tail, b, pos) if t.tail is not None else None
            if isinstance(tail, L): return L(out + tail.items, tail.tail, pos)
            return L(out, tail, pos)
        if isinstance(t, V): return V([self.subst(i, b, pos) for i in t.items], pos)
        c = t.__class__(t.val, pos); return c

def keyword_scope(names):
    s = Scope()
    for n in names: s.bind(n, Form(n))
    return s

def walk(e, f):
    """pre-order visit of all sub-expressions"""
    f(e)
    for c in children(e): walk(c, f)
def children(e):
    if isinstance(e, (Const, Ref)) or e is None: return []
    if isinstance(e, SetE): return [e.val]
    if isinstance(e, If): return [e.c, e.t, e.e]
    if isinstance(e, Seq): return e.es
    if isinstance(e, Lam): return [c.body for c in e.clauses]
    if isinstance(e, App): return [e.f] + e.args
    if isinstance(e, (LetV, LetrecV)): return [v for _, v in e.binds] + [e.body]
    if isinstance(e, DefV): return [e.val]
    if isinstance(e, Opaque): return e.subs
    raise TypeError(e)

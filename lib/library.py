"""The standard library as a set of modules: resolves imports/exports, expands every file."""
import os, glob
import ir
from mnm import *
from collections import OrderedDict
LIB = 'src/library'
class Mod: pass

class Library:
    def __init__(self, base_tab):
        """base_tab: name -> Var of everything the prelude provides (incl. primitives)"""
        self.base = dict(base_tab)
        # names the expander itself puts into the macro-time environment
        for x in read_file(ir.REPO + '/' + LIB + '/expander.min', LIB + '/expander.min'): self.stx_names(x)
        self.mods = OrderedDict(); self.stack = []; self.problems = []
        for p in sorted(glob.glob('%s/%s/private/*.min' % (ir.REPO, LIB)) + glob.glob('%s/%s/*.min' % (ir.REPO, LIB))):
            self.load(os.path.relpath(p, ir.REPO))
    def stx_names(self, x):
        if isinstance(x, L):
            it = x.items
            if len(it) == 4 and isinstance(it[0], S) and it[0].name == 'environment-set!' and isinstance(it[2], L) and repr(it[2].items[0]) == 'quote':
                n = it[2].items[1].name
                self.base.setdefault(n, Var(n, 'stx', x.pos))
            for y in it: self.stx_names(y)
    def load(self, rel):
        rel = os.path.normpath(rel)
        if rel in self.mods: return self.mods[rel]
        m = Mod(); m.rel = rel; m.tab = {}; m.prog = []; m.ex = None
        if rel in self.stack:
            self.problems.append(Problem('import', (rel, 0), 'import cycle')); return m
        self.stack.append(rel)
        data = read_file(ir.REPO + '/' + rel, rel)
        sc = keyword_scope(CORE)
        for n in ('import', 'export', 'let-syntaxes', 'letrec-syntaxes', 'quasiquote', 'quasisyntax'): sc.bind(n, Form(n))
        for n, v in self.base.items(): sc.bind(n, v)
        imported = {}
        for d in data:
            if isinstance(d, L) and d.items and isinstance(d.items[0], S) and d.items[0].name == 'import':
                for x in d.items[1:]:
                    names = self.imported(x, rel)
                    for n, v in names.items(): sc.bind(n, v); imported[n] = v
        # `else` and friends are visible wherever cond/case are
        if any(isinstance(sc.find(n), Form) for n in ('cond', 'case')):
            for n in ('else', '=>'): sc.bind(n, Form(n))
        ex = Expander(rel, sc); m.ex = ex
        # forms implemented by this very file: register under their own names so that the file may use them
        m.prog = ex.program([d for d in data if not (isinstance(d, L) and d.items and isinstance(d.items[0], S) and d.items[0].name == 'import')])
        self.problems += ex.problems
        # exports
        for x in ex.exports:
            b = sc.tab.get(x.name)
            if x.name in SUGAR: b = Form(x.name)
            if b is None: self.problems.append(Problem('export', x.pos, 'exported name `%s` is not defined' % x.name)); continue
            m.tab[x.name] = b
        for x in ex.export_all:
            try:
                if x.items[0].name == 'all': m.tab.update(self.load(os.path.join(os.path.dirname(rel), x.items[1].val)).tab)
                elif x.items[0].name == 'rename': m.tab[x.items[2].name] = sc.tab.get(x.items[1].name)
            except (AttributeError, IndexError): self.problems.append(Problem('export', x.pos, 'export form not understood'))
        self.stack.pop()
        self.mods[rel] = m
        return m
    def imported(self, x, rel):
        d = os.path.dirname(rel)
        if isinstance(x, Str):
            p = os.path.join(d, x.val)
            if not os.path.exists(ir.REPO + '/' + p):
                self.problems.append(Problem('import', x.pos, 'imported file %s does not exist' % x.val)); return {}
            return dict(self.load(p).tab)
        if isinstance(x, L) and isinstance(x.items[0], S):
            k = x.items[0].name
            tab = self.imported(x.items[1], rel) if not isinstance(x.items[1], S) else {}
            if k == 'prefix': return {x.items[2].name + n: v for n, v in tab.items()}
            if k == 'rename':
                for r in x.items[2:]: tab[r.items[1].name] = tab.pop(r.items[0].name, None)
            return tab
        return {}

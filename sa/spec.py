"""
Specialisation of term evaluation: the node class of chosen terms is fixed, and type tests and
table look-ups on them are decided.
"""
import ast
from .consteval import Unknown, Sym
from .project import AnalysisError
from .terms import callee_path


def class_of_term(t):
    """('attr', ('name','ast'), 'Add') -> ast.Add"""
    if t[0] == 'attr' and t[1] == ('name', 'ast'):
        return getattr(ast, t[2], None)
    return None


def path_term(dotted_name):
    parts = str(dotted_name).split('.')
    t = ('name', parts[0])
    for x in parts[1:]:
        t = ('attr', t, x)
    return t


class ClassSpec:
    """terms: {term: class}.  tables: {term: {class: term}} for tables that are not module
    constants."""

    def __init__(self, ev, module, terms, tables=None, facts=None):
        self.ev, self.module, self.terms = ev, module, terms
        self.tables = tables or {}
        self.facts = facts or {}

    def table(self, t):
        if t in self.tables:
            return self.tables[t]
        if t[0] == 'name':
            try:
                v = self.ev.const(self.module.name, t[1])
            except (Unknown, AnalysisError):
                return None
            if isinstance(v, dict):
                out = {}
                for k, x in v.items():
                    c = getattr(ast, str(k)[4:], None) if isinstance(k, Sym) and \
                        str(k).startswith('ast.') else None
                    if c is None:
                        return None
                    out[c] = path_term(x) if isinstance(x, Sym) else ('const', x)
                return out
            if isinstance(v, (list, tuple, set, frozenset)):
                return {getattr(ast, str(k)[4:], None): None for k in v
                        if isinstance(k, Sym) and str(k).startswith('ast.')}
        if t[0] == 'dict':
            out = {}
            for k, x in t[1]:
                c = class_of_term(k)
                if c is None:
                    return None
                out[c] = x
            return out
        if t[0] in ('tuple', 'list', 'set'):
            out = {}
            for k in t[1]:
                c = class_of_term(k)
                if c is None:
                    return None
                out[c] = None
            return out
        return None

    def klass(self, t):
        if t[0] == 'class':
            return t[1]
        return None

    def __call__(self, t):
        if t in self.facts:
            return self.facts[t]
        if t[0] == 'call':
            cp = callee_path(t)
            if cp == 'type' and len(t[2]) == 1 and t[2][0] in self.terms:
                return ('class', self.terms[t[2][0]])
            if cp == 'isinstance' and len(t[2]) == 2 and t[2][0] in self.terms:
                k = self.terms[t[2][0]]
                ks = t[2][1][1] if t[2][1][0] == 'tuple' else (t[2][1],)
                cs = [class_of_term(x) for x in ks]
                if any(c is not None and issubclass(k, c) for c in cs):
                    return ('const', True)
                if all(c is not None for c in cs):
                    return ('const', False)
                tb = self.table(t[2][1])
                if tb is not None and None not in tb:
                    return ('const', any(issubclass(k, c) for c in tb))
            if t[1][0] == 'attr' and t[1][2] == 'get' and t[2] and self.klass(t[2][0]):
                tb = self.table(t[1][1])
                if tb is not None:
                    if self.klass(t[2][0]) in tb:
                        return tb[self.klass(t[2][0])]
                    return t[2][1] if len(t[2]) > 1 else ('const', None)
        if t[0] == 'sub' and self.klass(t[2]):
            tb = self.table(t[1])
            if tb is not None:
                r = tb.get(self.klass(t[2]))
                return r if r is not None else ('keyerror', t[1])
        if t[0] == 'attr' and t[2] == '__class__' and t[1] in self.terms:
            return ('class', self.terms[t[1]])
        if t[0] == 'attr' and t[2] == '__name__' and self.klass(t[1]):
            return ('const', self.klass(t[1]).__name__)
        if t[0] == 'cmp':
            l, r = t[2], t[3]
            if t[1] in ('is', 'is not', '==', '!='):
                if self.klass(l) and class_of_term(r) is not None:
                    return ('const', (self.klass(l) is class_of_term(r)) == (t[1] in ('is', '==')))
                if self.klass(r) and class_of_term(l) is not None:
                    return ('const', (self.klass(r) is class_of_term(l)) == (t[1] in ('is', '==')))
            if t[1] in ('in', 'not in') and self.klass(l):
                tb = self.table(r)
                if tb is not None:
                    return ('const', (self.klass(l) in tb) == (t[1] == 'in'))
        return t

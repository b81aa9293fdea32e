"""
Program model: loads every module under /repo/src, resolves imports, classes,
method resolution order and calls.  Nothing of /repo is imported or executed.
"""
import ast
import os
import sys
from collections import OrderedDict

REPO = os.environ.get('VERIF_REPO', '/repo')


class AnalysisError(Exception):
    """The program no longer has the shape the analysis needs to give an answer."""


class FunctionInfo:
    def __init__(self, module, node, cls=None, outer=None):
        self.module = module
        self.node = node
        self.cls = cls
        self.outer = outer
        self.name = node.name
        parts = []
        if outer is not None:
            parts.append(outer.qual.split(':', 1)[1])
        elif cls is not None:
            parts.append(cls.name)
        parts.append(node.name)
        self.qual = module.name + ':' + '.'.join(parts)
        self.nested = OrderedDict()

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    @property
    def all_params(self):
        a = self.node.args
        res = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg:
            res.append(a.vararg.arg)
        if a.kwarg:
            res.append(a.kwarg.arg)
        return res

    @property
    def decorators(self):
        return [dotted(d.func if isinstance(d, ast.Call) else d) or '?'
                for d in self.node.decorator_list]

    @property
    def is_static(self):
        return 'staticmethod' in self.decorators

    @property
    def is_classmethod(self):
        return 'classmethod' in self.decorators

    @property
    def is_property(self):
        return any(d == 'property' or d.endswith('.setter') or d == 'cached_property'
                   for d in self.decorators)

    @property
    def is_method(self):
        return self.cls is not None and self.outer is None

    def __repr__(self):
        return self.qual

    def loc(self, node=None):
        n = node if node is not None and hasattr(node, 'lineno') else self.node
        return '%s:%d' % (self.module.relpath, n.lineno)


class ClassInfo:
    def __init__(self, module, node):
        self.module = module
        self.node = node
        self.name = node.name
        self.qual = module.name + ':' + node.name
        self.methods = OrderedDict()
        self.bases = []      # ClassInfo
        self.ext_bases = []  # dotted names that are not in the project
        self.assigns = OrderedDict()
        self.subclasses = []
        self.setters = {}

    def mro(self):
        res, todo = [], [self]
        # Good enough linearisation: depth first, left to right, last duplicate kept.
        def walk(c):
            out = [c]
            for b in c.bases:
                out += walk(b)
            return out
        seen = set()
        for c in reversed(walk(self)):
            if c.qual not in seen:
                seen.add(c.qual)
                res.append(c)
        return list(reversed(res))

    def find(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def all_subclasses(self):
        res = [self]
        for s in self.subclasses:
            for t in s.all_subclasses():
                if t not in res:
                    res.append(t)
        return res

    def is_subclass_of(self, qual_or_name):
        for c in self.mro():
            if c.qual == qual_or_name or c.name == qual_or_name:
                return True
            if qual_or_name in c.ext_bases or any(
                    b.split('.')[-1] == qual_or_name for b in c.ext_bases):
                return True
        return False

    def __repr__(self):
        return self.qual


class Module:
    def __init__(self, name, path, relpath, tree, source):
        self.name = name
        self.path = path
        self.relpath = relpath
        self.tree = tree
        self.source = source
        self.imports = {}     # local name -> ('mod', modname) | ('sym', modname, sym)
        self.classes = OrderedDict()
        self.functions = OrderedDict()
        self.assigns = OrderedDict()   # name -> list of value nodes
        self.star_imports = []

    def __repr__(self):
        return self.name


def dotted(node):
    """a.b.c -> 'a.b.c' (None if not a plain chain of attributes)."""
    parts = []
    while isinstance(node, ast.Attribute):
        parts.append(node.attr)
        node = node.value
    if isinstance(node, ast.Name):
        parts.append(node.id)
        return '.'.join(reversed(parts))
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and \
            node.func.id == 'super':
        parts.append('super()')
        return '.'.join(reversed(parts))
    return None


class Project:
    def __init__(self, repo=None, packages=('nagini_translation', 'nagini_contracts'),
                 normalize=True):
        self.repo = repo or REPO
        self.modules = OrderedDict()
        src = os.path.join(self.repo, 'src')
        for pkg in packages:
            top = os.path.join(src, pkg)
            for dirpath, dirnames, filenames in os.walk(top):
                dirnames[:] = sorted(d for d in dirnames if d != '__pycache__')
                for fn in sorted(filenames):
                    if not fn.endswith('.py'):
                        continue
                    path = os.path.join(dirpath, fn)
                    rel = os.path.relpath(path, src)
                    name = rel[:-3].replace(os.sep, '.')
                    if name.endswith('.__init__'):
                        name = name[:-9]
                    with open(path, encoding='utf-8') as f:
                        source = f.read()
                    try:
                        tree = ast.parse(source, path)
                    except SyntaxError as e:
                        raise AnalysisError('cannot parse %s: %s' % (path, e))
                    if normalize:
                        from .normalize import Canonical
                        tree = Canonical().visit(tree)
                    self.modules[name] = Module(name, path,
                                                os.path.relpath(path, self.repo), tree,
                                                source)
        if not self.modules:
            raise AnalysisError('no modules found under ' + src)
        for m in self.modules.values():
            self._index(m)
        self._link()
        self._slots = None
        self.inlined = []
        if normalize:
            from .normalize import Inliner
            inl = Inliner(self)
            inl.run()
            self.inlined = sorted(inl.done)
        for m in self.modules.values():
            set_parents(m.tree)

    # ---------------------------------------------------------------- indexing
    def _index(self, m):
        is_pkg = m.path.endswith('__init__.py')
        for node in ast.walk(m.tree):
            if isinstance(node, ast.Import):
                for a in node.names:
                    if a.asname:
                        m.imports.setdefault(a.asname, ('mod', a.name))
                    else:
                        m.imports.setdefault(a.name.split('.')[0],
                                             ('mod', a.name.split('.')[0]))
            elif isinstance(node, ast.ImportFrom):
                base = node.module or ''
                if node.level:
                    parts = m.name.split('.')
                    cut = node.level - (1 if is_pkg else 0)
                    parts = parts[:len(parts) - cut] if cut else parts
                    base = '.'.join(parts + ([base] if base else []))
                for a in node.names:
                    if a.name == '*':
                        m.star_imports.append(base)
                        continue
                    m.imports.setdefault(a.asname or a.name, ('sym', base, a.name))
        self._index_body(m, m.tree.body)

    def _index_body(self, m, body):
        for st in body:
            if isinstance(st, ast.ClassDef):
                ci = ClassInfo(m, st)
                m.classes[st.name] = ci
                for b in st.body:
                    if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        fi = FunctionInfo(m, b, ci)
                        if any(d.endswith('.setter') for d in fi.decorators):
                            ci.setters[b.name] = fi
                            self._nested(fi)
                            continue
                        ci.methods[b.name] = fi
                        self._nested(fi)
                    elif isinstance(b, ast.Assign):
                        for t in b.targets:
                            if isinstance(t, ast.Name):
                                ci.assigns.setdefault(t.id, []).append(b.value)
                    elif isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                        ci.assigns.setdefault(b.target.id, []).append(b.value)
            elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = FunctionInfo(m, st)
                m.functions[st.name] = fi
                self._nested(fi)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        m.assigns.setdefault(t.id, []).append(st.value)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                m.assigns.setdefault(st.target.id, []).append(st.value)
            elif isinstance(st, (ast.If, ast.Try)):
                self._index_body(m, st.body)
                self._index_body(m, st.orelse)
                for h in getattr(st, 'handlers', []):
                    self._index_body(m, h.body)
                self._index_body(m, getattr(st, 'finalbody', []))
            elif isinstance(st, ast.With):
                self._index_body(m, st.body)

    def _nested(self, fi):
        for st in walk_shallow(fi.node):
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)) and st is not fi.node:
                n = FunctionInfo(fi.module, st, fi.cls, fi)
                fi.nested[st.name] = n
                self._nested(n)

    def _link(self):
        for m in self.modules.values():
            for c in m.classes.values():
                for b in c.node.bases:
                    r = self.resolve_name_expr(b, m)
                    if isinstance(r, ClassInfo):
                        c.bases.append(r)
                        r.subclasses.append(c)
                    else:
                        d = dotted(b)
                        if d:
                            first = d.split('.')[0]
                            imp = m.imports.get(first)
                            if imp and imp[0] == 'sym' and '.' not in d:
                                d = imp[1] + '.' + imp[2]
                            c.ext_bases.append(d)

    # ------------------------------------------------------------- resolution
    def resolve_symbol(self, modname, name, seen=None):
        """Resolves ``name`` in module ``modname`` to ClassInfo, FunctionInfo, Module,
        ('const', Module, name) or None."""
        seen = seen or set()
        if (modname, name) in seen:
            return None
        seen.add((modname, name))
        m = self.modules.get(modname)
        if m is None:
            return None
        if name in m.classes:
            return m.classes[name]
        if name in m.functions:
            return m.functions[name]
        if name in m.assigns:
            return ('const', m, name)
        if name in m.imports:
            imp = m.imports[name]
            if imp[0] == 'mod':
                return self.modules.get(imp[1])
            sub = imp[1] + '.' + imp[2]
            r = self.resolve_symbol(imp[1], imp[2], seen)
            if r is not None:
                return r
            if sub in self.modules:
                return self.modules[sub]
            return None
        if modname + '.' + name in self.modules:
            return self.modules[modname + '.' + name]
        for s in m.star_imports:
            r = self.resolve_symbol(s, name, seen)
            if r is not None:
                return r
        return None

    def resolve_name_expr(self, expr, module):
        """Resolves a Name / dotted Attribute expression to a project entity."""
        if isinstance(expr, ast.Name):
            return self.resolve_symbol(module.name, expr.id)
        if isinstance(expr, ast.Attribute):
            base = self.resolve_name_expr(expr.value, module)
            if isinstance(base, Module):
                r = self.resolve_symbol(base.name, expr.attr)
                if r is None:
                    d = dotted(expr)
                    if d in self.modules:
                        return self.modules[d]
                return r
            if isinstance(base, ClassInfo):
                return base.find(expr.attr)
        return None

    def external_name(self, expr, module):
        """Fully qualified dotted name of an external symbol, following imports."""
        d = dotted(expr)
        if d is None:
            return None
        first, _, rest = d.partition('.')
        imp = module.imports.get(first)
        if imp is None:
            return d
        base = imp[1] if imp[0] == 'mod' else imp[1] + '.' + imp[2]
        return base + ('.' + rest if rest else '')

    def slots(self):
        """Translator configuration slots: name -> set of ClassInfo."""
        if self._slots is None:
            res = {}
            for m in self.modules.values():
                for c in m.classes.values():
                    init = c.methods.get('__init__')
                    if not init:
                        continue
                    for st in ast.walk(init.node):
                        if isinstance(st, ast.Assign) and isinstance(st.value, ast.Call):
                            for t in st.targets:
                                if isinstance(t, ast.Attribute) and \
                                        dotted(t.value) == 'config':
                                    r = self.resolve_name_expr(st.value.func, m)
                                    if isinstance(r, ClassInfo):
                                        res.setdefault(t.attr, {}).setdefault(
                                            c.qual, []).append(r)
            self._slots = res
        return self._slots

    def resolve_call(self, call, fi, self_cls=None, virtual=False):
        """FunctionInfos a call may reach inside the project (empty: unknown/external).
        A class resolves to its __init__ (if any)."""
        f = call.func
        res = self.resolve_callee(f, fi, self_cls, virtual)
        return res

    def resolve_callee(self, f, fi, self_cls=None, virtual=False):
        cls = self_cls or fi.cls
        if isinstance(f, ast.Name):
            o = fi
            while o is not None:
                if f.id in o.nested:
                    return [o.nested[f.id]]
                o = o.outer
            r = self.resolve_symbol(fi.module.name, f.id)
            if isinstance(r, FunctionInfo):
                return [r]
            if isinstance(r, ClassInfo):
                init = r.find('__init__')
                return [init] if init else []
            return []
        if isinstance(f, ast.Attribute):
            v = f.value
            if isinstance(v, ast.Name) and cls is not None and (
                    v.id == 'self' or v.id == 'cls' and fi.is_classmethod):
                return self._method(cls, f.attr, virtual)
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and \
                    v.func.id == 'super' and fi.cls is not None:
                base_cls = self_cls or fi.cls
                mro = base_cls.mro()
                idx = next((i for i, c in enumerate(mro) if c.qual == fi.cls.qual), 0)
                for c in mro[idx + 1:]:
                    if f.attr in c.methods:
                        return [c.methods[f.attr]]
                return []
            d = dotted(v)
            if d:
                last = d.split('.')[-1]
                if d in ('self.config.' + last, 'config.' + last) and last in self.slots():
                    out = []
                    for lst in self.slots()[last].values():
                        for c in lst:
                            for x in self._method(c, f.attr, False):
                                if x not in out:
                                    out.append(x)
                    return out
            r = self.resolve_name_expr(f, fi.module)
            if isinstance(r, FunctionInfo):
                return [r]
            if isinstance(r, ClassInfo):
                init = r.find('__init__')
                return [init] if init else []
        return []

    def _method(self, cls, name, virtual):
        out = []
        m = cls.find(name)
        if m is not None:
            out.append(m)
        if virtual:
            for s in cls.all_subclasses():
                if name in s.methods and s.methods[name] not in out:
                    out.append(s.methods[name])
        return out

    # ----------------------------------------------------------------- lookup
    def module(self, name):
        m = self.modules.get(name)
        if m is None:
            raise AnalysisError('module %s no longer exists' % name)
        return m

    def cls(self, modname, name):
        c = self.module(modname).classes.get(name)
        if c is None:
            r = self.resolve_symbol(modname, name)
            if isinstance(r, ClassInfo):
                return r
            raise AnalysisError('class %s no longer exists in %s' % (name, modname))
        return c

    def func(self, modname, name):
        m = self.module(modname)
        if '.' in name:
            c, f = name.split('.', 1)
            ci = self.cls(modname, c)
            fi = ci.find(f)
            if fi is None:
                raise AnalysisError('method %s no longer exists in %s' % (name, modname))
            return fi
        fi = m.functions.get(name)
        if fi is None:
            r = self.resolve_symbol(modname, name)
            if isinstance(r, FunctionInfo):
                return r
            raise AnalysisError('function %s no longer exists in %s' % (name, modname))
        return fi

    def all_functions(self, nested=True, prefix=None):
        for m in self.modules.values():
            if prefix and not m.name.startswith(prefix):
                continue
            for f in m.functions.values():
                yield f
                if nested:
                    yield from _nested_all(f)
            for c in m.classes.values():
                for f in list(c.methods.values()) + list(c.setters.values()):
                    yield f
                    if nested:
                        yield from _nested_all(f)

    def all_classes(self):
        for m in self.modules.values():
            yield from m.classes.values()

    def find_class(self, name):
        return [c for c in self.all_classes() if c.name == name]


def _nested_all(f):
    for n in f.nested.values():
        yield n
        yield from _nested_all(n)


def set_parents(tree):
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            c._sa_parent = n


def walk_shallow(fn_node):
    """All nodes of a function body, not entering nested functions, classes, lambdas
    (which are yielded themselves)."""
    todo = list(ast.iter_child_nodes(fn_node)) if isinstance(
        fn_node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)) else [fn_node]
    if isinstance(fn_node, (ast.FunctionDef, ast.AsyncFunctionDef)):
        todo = list(fn_node.body)
    todo.reverse()
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        ch = list(ast.iter_child_nodes(n))
        ch.reverse()
        todo.extend(ch)


def enclosing_stmt(node):
    while node is not None and not isinstance(node, ast.stmt):
        node = getattr(node, '_sa_parent', None)
    return node


def enclosing_function(node):
    node = getattr(node, '_sa_parent', None)
    while node is not None and not isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
        node = getattr(node, '_sa_parent', None)
    return node


def parents(node):
    node = getattr(node, '_sa_parent', None)
    while node is not None:
        yield node
        node = getattr(node, '_sa_parent', None)

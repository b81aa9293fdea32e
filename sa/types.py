"""Light receiver typing: parameter annotations, constructor calls and attribute annotations."""
import ast
from .project import ClassInfo, FunctionInfo, dotted, walk_shallow
from .flow import local_defs


class Types:
    def __init__(self, project):
        self.p = project
        self._attr = {}

    def ann(self, a, module):
        """ClassInfo for an annotation expression (Optional[X] and 'X' are unwrapped)."""
        if a is None:
            return None
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            try:
                a = ast.parse(a.value, mode='eval').body
            except SyntaxError:
                return None
        if isinstance(a, ast.Subscript):
            d = dotted(a.value)
            if d in ('Optional', 'typing.Optional'):
                return self.ann(a.slice, module)
            return None
        if isinstance(a, (ast.Name, ast.Attribute)):
            r = self.p.resolve_name_expr(a, module)
            if isinstance(r, ClassInfo):
                return r
            if isinstance(a, ast.Name):
                c = self.p.find_class(a.id)
                if len(c) == 1 and r is None and a.id not in module.imports:
                    return c[0]
        return None

    def attr_type(self, cls, name):
        """Type of instance attribute from ``self.name = param`` with an annotated parameter, or
        ``self.name = Class(...)`` in the class hierarchy; None if unknown or ambiguous."""
        key = (cls.qual, name)
        if key in self._attr:
            return self._attr[key]
        self._attr[key] = None
        found = set()
        unknown = False
        for c in cls.mro():
            for f in c.methods.values():
                if f.is_property and f.name == name:
                    t = self.ann(f.node.returns, c.module)
                    self._attr[key] = t
                    return t
                for n in walk_shallow(f.node):
                    if isinstance(n, (ast.Assign, ast.AnnAssign)):
                        ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                        for t in ts:
                            if isinstance(t, ast.Attribute) and t.attr == name and \
                                    isinstance(t.value, ast.Name) and t.value.id == 'self':
                                r = None
                                if isinstance(n, ast.AnnAssign):
                                    r = self.ann(n.annotation, c.module)
                                if r is None and n.value is not None:
                                    if isinstance(n.value, ast.Constant) and n.value.value is None:
                                        continue
                                    r = self.expr(n.value, f)
                                if r is None:
                                    unknown = True
                                else:
                                    found.add(r)
        res = found.pop() if len(found) == 1 and not unknown else None
        self._attr[key] = res
        return res

    def param(self, fi, name):
        for a in fi.node.args.posonlyargs + fi.node.args.args + fi.node.args.kwonlyargs:
            if a.arg == name:
                return self.ann(a.annotation, fi.module)
        return None

    def expr(self, e, fi, depth=4):
        if depth == 0:
            return None
        if isinstance(e, ast.Name):
            if e.id == 'self' and fi.cls is not None:
                return fi.cls
            o = fi
            while o is not None:
                if e.id in o.all_params:
                    if e.id in local_defs(o.node):
                        return None
                    return self.param(o, e.id)
                ds = local_defs(o.node).get(e.id)
                if ds:
                    ts = set()
                    for v, path in ds:
                        if path != () or isinstance(v, ast.ExceptHandler):
                            return None
                        t = self.expr(v, o, depth - 1)
                        if t is None:
                            return None
                        ts.add(t)
                    return ts.pop() if len(ts) == 1 else None
                o = o.outer
            r = self.p.resolve_symbol(fi.module.name, e.id)
            if isinstance(r, tuple) and r[0] == 'const':
                v = r[1].assigns[r[2]][-1]
                if isinstance(v, ast.Call):
                    c = self.p.resolve_name_expr(v.func, r[1])
                    if isinstance(c, ClassInfo):
                        return c
            return None
        if isinstance(e, ast.Call):
            r = self.p.resolve_name_expr(e.func, fi.module)
            if isinstance(r, ClassInfo):
                return r
            for g in self.p.resolve_callee(e.func, fi):
                return self.ann(g.node.returns, g.module)
            return None
        if isinstance(e, ast.Attribute):
            t = self.expr(e.value, fi, depth - 1)
            if t is not None:
                return self.attr_type(t, e.attr)
        return None

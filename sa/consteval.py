"""
Evaluation of literal tables in the source (dict / list / set / tuple / str displays, names of
other constants, concatenation, f-strings), without importing the program.  Symbols that are
not constants of the project evaluate to Sym(dotted name), e.g. ``ast.Add``.
"""
import ast
from .project import AnalysisError, ClassInfo, FunctionInfo, Module, dotted


class Sym(str):
    """A symbolic (non-literal) value: a dotted name."""
    def __repr__(self):
        return '<%s>' % str(self)


class Unknown(Exception):
    pass


class MultiDict(dict):
    """dict that remembers duplicated keys of the display."""
    def __init__(self):
        super().__init__()
        self.duplicates = []


class Evaluator:
    def __init__(self, project):
        self.p = project
        self._busy = set()

    def const(self, modname, name):
        """Value of module level constant (last simple assignment, plus augmented
        assignments and .update()/.extend()/.append()/.add() at module level)."""
        m = self.p.module(modname)
        if name not in m.assigns:
            r = self.p.resolve_symbol(modname, name)
            if isinstance(r, tuple) and r[0] == 'const':
                return self.const(r[1].name, r[2])
            raise AnalysisError('constant %s.%s no longer exists' % (modname, name))
        key = (modname, name)
        if key in self._busy:
            raise Unknown(name)
        self._busy.add(key)
        try:
            val = self.eval(m.assigns[name][-1], m)
            for st in m.tree.body:
                if isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name) and \
                        st.target.id == name:
                    rhs = self.eval(st.value, m)
                    if isinstance(val, set):
                        val = set(val) | set(rhs)
                    else:
                        val = val + rhs
                elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and \
                        isinstance(st.value.func, ast.Attribute) and \
                        dotted(st.value.func.value) == name:
                    meth = st.value.func.attr
                    args = [self.eval(a, m) for a in st.value.args]
                    if meth == 'update' and args:
                        if isinstance(val, set):
                            val = set(val) | set(args[0])
                        else:
                            val.update(args[0])
                    elif meth == 'extend':
                        val = list(val) + list(args[0])
                    elif meth == 'append':
                        val = list(val) + [args[0]]
                    elif meth == 'add':
                        val = set(val) | {args[0]}
            return val
        finally:
            self._busy.discard(key)

    def eval(self, n, m, env=None):
        env = env or {}
        if isinstance(n, ast.Constant):
            return n.value
        if isinstance(n, ast.Name):
            if n.id in env:
                return env[n.id]
            if n.id in m.assigns:
                return self.const(m.name, n.id)
            r = self.p.resolve_symbol(m.name, n.id)
            if isinstance(r, tuple) and r[0] == 'const':
                return self.const(r[1].name, r[2])
            if isinstance(r, (ClassInfo, FunctionInfo)):
                return Sym(r.qual)
            return Sym(self.p.external_name(n, m))
        if isinstance(n, ast.Attribute):
            r = self.p.resolve_name_expr(n.value, m)
            if isinstance(r, Module):
                if n.attr in r.assigns:
                    return self.const(r.name, n.attr)
                rr = self.p.resolve_symbol(r.name, n.attr)
                if isinstance(rr, (ClassInfo, FunctionInfo)):
                    return Sym(rr.qual)
                if isinstance(rr, tuple) and rr[0] == 'const':
                    return self.const(rr[1].name, rr[2])
            if isinstance(r, ClassInfo) and n.attr in r.assigns:
                return self.eval(r.assigns[n.attr][-1], r.module)
            d = self.p.external_name(n, m)
            if d:
                return Sym(d)
            raise Unknown(ast.dump(n))
        if isinstance(n, ast.Dict):
            res = MultiDict()
            for k, v in zip(n.keys, n.values):
                if k is None:
                    res.update(self.eval(v, m, env))
                    continue
                kk = self.eval(k, m, env)
                kk = tuple(kk) if isinstance(kk, list) else kk
                if kk in res:
                    res.duplicates.append(kk)
                try:
                    res[kk] = self.eval(v, m, env)
                except Unknown:
                    res[kk] = v
            return res
        if isinstance(n, (ast.List, ast.Tuple, ast.Set)):
            out = []
            for e in n.elts:
                if isinstance(e, ast.Starred):
                    out.extend(self.eval(e.value, m, env))
                else:
                    out.append(self.eval(e, m, env))
            if isinstance(n, ast.List):
                return out
            if isinstance(n, ast.Tuple):
                return tuple(out)
            return set(out)
        if isinstance(n, ast.BinOp):
            l, r = self.eval(n.left, m, env), self.eval(n.right, m, env)
            if isinstance(n.op, ast.Add):
                if isinstance(l, list) and isinstance(r, tuple):
                    r = list(r)
                return l + r
            if isinstance(n.op, ast.BitOr):
                if isinstance(l, dict):
                    d = dict(l)
                    d.update(r)
                    return d
                return set(l) | set(r)
            if isinstance(n.op, ast.Mult):
                return l * r
            if isinstance(n.op, ast.Sub):
                return l - r
            raise Unknown(ast.dump(n))
        if isinstance(n, ast.Call):
            fn = dotted(n.func)
            if fn in ('set', 'list', 'tuple', 'dict', 'frozenset', 'OrderedDict'):
                if not n.args and not n.keywords:
                    return {'set': set(), 'list': [], 'tuple': (), 'dict': MultiDict(),
                            'OrderedDict': MultiDict(), 'frozenset': frozenset()}[fn]
                if n.keywords and fn in ('dict', 'OrderedDict'):
                    d = MultiDict()
                    if n.args:
                        d.update(self.eval(n.args[0], m, env))
                    for k in n.keywords:
                        d[k.arg] = self.eval(k.value, m, env)
                    return d
                v = self.eval(n.args[0], m, env)
                if fn == 'set':
                    return set(v)
                if fn == 'frozenset':
                    return frozenset(v)
                if fn == 'list':
                    return list(v)
                if fn == 'tuple':
                    return tuple(v)
                d = MultiDict()
                d.update(v)
                return d
            raise Unknown(ast.unparse(n))
        if isinstance(n, ast.JoinedStr):
            s = ''
            for v in n.values:
                if isinstance(v, ast.Constant):
                    s += v.value
                else:
                    x = self.eval(v.value, m, env)
                    if isinstance(x, Sym):
                        raise Unknown(ast.dump(n))
                    s += str(x)
            return s
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            return -self.eval(n.operand, m, env)
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)) and \
                len(n.generators) == 1 and not n.generators[0].ifs:
            g = n.generators[0]
            out = []
            for item in self.eval(g.iter, m, env):
                e2 = dict(env)
                if isinstance(g.target, ast.Name):
                    e2[g.target.id] = item
                elif isinstance(g.target, ast.Tuple):
                    for t, i in zip(g.target.elts, item):
                        e2[t.id] = i
                if isinstance(n, ast.DictComp):
                    out.append((self.eval(n.key, m, e2), self.eval(n.value, m, e2)))
                else:
                    out.append(self.eval(n.elt, m, e2))
            if isinstance(n, ast.DictComp):
                d = MultiDict()
                d.update(out)
                return d
            return set(out) if isinstance(n, ast.SetComp) else out
        if isinstance(n, ast.Subscript):
            base = self.eval(n.value, m, env)
            idx = self.eval(n.slice, m, env)
            try:
                return base[idx]
            except Exception:
                raise Unknown(ast.unparse(n))
        raise Unknown(ast.dump(n)[:120])

"""Flow-insensitive local value origins and small helpers shared by the checks."""
import ast
from .project import walk_shallow, dotted


def local_defs(fn_node):
    """name -> list of (value expr, path) ; path is a tuple of indices for unpacking, or a
    marker string: 'for' (element of iterable), 'with', 'aug', 'except', 'param'."""
    cached = getattr(fn_node, '_sa_defs', None)
    if cached is not None:
        return cached
    out = {}

    def bind(t, v, path):
        if isinstance(t, ast.Name):
            out.setdefault(t.id, []).append((v, path))
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    bind(e.value, v, path + ('*',))
                else:
                    bind(e, v, path + (i,))
    for n in walk_shallow(fn_node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                bind(t, n.value, ())
        elif isinstance(n, ast.AnnAssign) and n.value is not None:
            bind(n.target, n.value, ())
        elif isinstance(n, ast.AugAssign):
            bind(n.target, n.value, ('aug',))
        elif isinstance(n, ast.NamedExpr):
            bind(n.target, n.value, ())
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            bind(n.target, n.iter, ('for',))
        elif isinstance(n, ast.comprehension):
            bind(n.target, n.iter, ('for',))
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            for it in n.items:
                if it.optional_vars is not None:
                    bind(it.optional_vars, it.context_expr, ('with',))
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.setdefault(n.name, []).append((n, ('except',)))
    fn_node._sa_defs = out
    return out


def params_of(fn_node):
    a = fn_node.args
    return [x.arg for x in a.posonlyargs + a.args]


def bind_args(call, fi, bound=None):
    """Maps a call's arguments to parameter names of ``fi``: name -> expr.  ``bound``: True if
    the first parameter is supplied by the receiver (default: methods that are not static)."""
    a = fi.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    if bound is None:
        bound = fi.is_method and not fi.is_static
    if bound:
        names = names[1:]
    res = {}
    pos = []
    for x in call.args:
        if isinstance(x, ast.Starred):
            pos.append(x)
            break
        pos.append(x)
    for n, x in zip(names, pos):
        if isinstance(x, ast.Starred):
            break
        res[n] = x
    for k in call.keywords:
        if k.arg is not None:
            res[k.arg] = k.value
    return res


def names_in(expr):
    return {n.id for n in ast.walk(expr) if isinstance(n, ast.Name)}


def influences(fn_node, expr, stop=()):
    """All local/param names an expression transitively depends on (flow-insensitive)."""
    d = local_defs(fn_node)
    todo = list(names_in(expr))
    seen = set()
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        if n in stop:
            continue
        for v, path in d.get(n, ()):
            if isinstance(v, ast.ExceptHandler):
                continue
            todo.extend(names_in(v))
    return seen


def resolve_local(fn_node, expr, depth=6):
    """Follow a Name through unique local definitions to a defining expression."""
    d = local_defs(fn_node)
    while depth and isinstance(expr, ast.Name):
        ds = d.get(expr.id, [])
        if len(ds) != 1 or ds[0][1] != ():
            return expr
        expr = ds[0][0]
        depth -= 1
    return expr


def all_values(fn_node, expr, depth=8, _seen=None):
    """The set of expressions a value may stem from: follows local names and
    conditional/boolean expressions.  Returns (expr, path) pairs."""
    _seen = _seen if _seen is not None else set()
    out = []
    d = local_defs(fn_node)
    if isinstance(expr, ast.Name) and expr.id in d and depth:
        if expr.id in _seen:
            return out
        _seen.add(expr.id)
        for v, path in d[expr.id]:
            if path == () and not isinstance(v, ast.ExceptHandler):
                out += all_values(fn_node, v, depth - 1, _seen)
            else:
                out.append((v, path))
        return out
    if isinstance(expr, ast.IfExp):
        return all_values(fn_node, expr.body, depth, _seen) + \
            all_values(fn_node, expr.orelse, depth, _seen)
    if isinstance(expr, ast.BoolOp):
        for v in expr.values:
            out += all_values(fn_node, v, depth, _seen)
        return out
    if isinstance(expr, ast.NamedExpr):
        return all_values(fn_node, expr.value, depth, _seen)
    return [(expr, ())]


def attr_name(call):
    """Last component of a callee."""
    f = call.func
    if isinstance(f, ast.Attribute):
        return f.attr
    if isinstance(f, ast.Name):
        return f.id
    return None


def is_self_attr(e, attr=None):
    return isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and \
        e.value.id == 'self' and (attr is None or e.attr == attr)


def module_calls(project, prefix=None):
    """(FunctionInfo or None, Module, Call) for every call of the project."""
    for m in project.modules.values():
        if prefix and not m.name.startswith(prefix):
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call):
                yield m, n

"""
Normalisation: calls to helper functions that are not part of the reference inventory
(``inventory.json``: the functions that existed when the rules were written) are inlined into
their callers, so that extracting a helper does not change what the rules see.  The helper
itself disappears from the index once no reference to it is left.
"""
import ast
import copy
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))


def load_inventory():
    with open(os.path.join(HERE, 'inventory.json')) as f:
        return set(json.load(f)['functions'])


def terminates(stmts):
    """Every path through the statements leaves by return or raise."""
    for s in stmts:
        if isinstance(s, (ast.Return, ast.Raise)):
            return True
        if isinstance(s, ast.If) and s.orelse and terminates(s.body) and terminates(s.orelse):
            return True
        if isinstance(s, ast.With) and terminates(s.body):
            return True
        if isinstance(s, ast.Try):
            if terminates(s.finalbody):
                return True
            if (terminates(s.body) or terminates(s.orelse)) and all(
                    terminates(h.body) for h in s.handlers):
                return True
        if isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value and \
                not _has(s.body, ast.Break):
            return True
    return False


def _shallow(n):
    yield n
    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
        return
    for c in ast.iter_child_nodes(n):
        yield from _shallow(c)


def _has(stmts, kinds, loops=True):
    for s in stmts:
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        if isinstance(s, kinds):
            return True
        if not loops and isinstance(s, (ast.For, ast.While)):
            if _has(s.orelse, kinds, loops):
                return True
            continue
        for f in ('body', 'orelse', 'finalbody'):
            if _has(getattr(s, f, []) or [], kinds, loops):
                return True
        for h in getattr(s, 'handlers', []) or []:
            if _has(h.body, kinds, loops):
                return True
        for h in getattr(s, 'cases', []) or []:
            if _has(h.body, kinds, loops):
                return True
    return False


class CannotInline(Exception):
    pass


def convert(stmts, emit, rest_terminates=False):
    """Rewrites statements so that each ``return e`` becomes emit(e) in tail position."""
    out = []
    for i, s in enumerate(stmts):
        if isinstance(s, ast.Return):
            out += emit(s)
            return out
        if not _has([s], ast.Return):
            out.append(s)
            if isinstance(s, ast.Raise):
                return out
            continue
        rest = stmts[i + 1:]
        if isinstance(s, ast.If):
            b, o = terminates(s.body), terminates(s.orelse)
            n = copy.copy(s)
            if b:
                n.body = convert(s.body, emit) or [_pass(s)]
                n.orelse = convert(s.orelse + ([] if o else rest), emit)
                if not o and not terminates(s.orelse + rest):
                    n.orelse = n.orelse + _fall(emit, s, rest)
                return out + [n]
            if o:
                n.orelse = convert(s.orelse, emit) or [_pass(s)]
                n.body = convert(s.body + rest, emit)
                if not terminates(s.body + rest):
                    n.body = n.body + _fall(emit, s, rest)
                return out + [n]
            # duplicate the rest on both sides
            n.body = convert(s.body + rest, emit) + (
                [] if terminates(s.body + rest) else _fall(emit, s, rest))
            rest = copy.deepcopy(rest)
            n.orelse = convert(s.orelse + rest, emit) + (
                [] if terminates(s.orelse + rest) else _fall(emit, s, rest))
            return out + [n]
        if isinstance(s, (ast.With, ast.Try)) and breakable(stmts[i:]) and (
                rest and not terminates(s.body) if isinstance(s, ast.With) else
                not _has(s.finalbody, ast.Return) and _has(s.body, ast.Return) and not terminates(s.body)):
            body = with_breaks(stmts[i:], emit)
            if not terminates(stmts[i:]):
                body += _fall(emit, s, rest) + [ast.copy_location(ast.Break(), s)]
            return out + [ast.copy_location(ast.While(
                test=ast.copy_location(ast.Constant(value=True), s), body=body, orelse=[]), s)]
        if isinstance(s, ast.With) and (not rest or terminates(s.body)):
            n = copy.copy(s)
            n.body = convert(s.body, emit)
            if not terminates(s.body):
                n.body = n.body + _fall(emit, s, rest)
            return out + [n]
        if isinstance(s, ast.Try) and not _has(s.finalbody, ast.Return):
            n = copy.copy(s)
            body_t = terminates(s.body)
            if body_t or not _has(s.body, ast.Return):
                n.body = convert(s.body, emit) if body_t else s.body
                if not body_t:
                    n.orelse = convert(s.orelse + rest, emit) + (
                        [] if terminates(s.orelse + rest) else _fall(emit, s, rest))
                hs = []
                for h in s.handlers:
                    h2 = copy.copy(h)
                    full = h.body + (copy.deepcopy(rest) if not terminates(h.body) else [])
                    h2.body = convert(full, emit) + (
                        [] if terminates(full) else _fall(emit, s, rest))
                    hs.append(h2)
                n.handlers = hs
                return out + [n]
            raise CannotInline('try')
        if isinstance(s, (ast.For, ast.While)) and not _has(s.body, ast.Break, loops=False) \
                and not _has(s.orelse, ast.Return):
            n = copy.copy(s)
            n.body = loop_body(s.body, emit)
            tail = s.orelse + rest
            n.orelse = convert(tail, emit) + (
                [] if terminates(tail) else _fall(emit, s, rest))
            return out + [n]
        raise CannotInline(type(s).__name__)
    return out


def breakable(stmts):
    """No return lies in a loop, and no break or continue of an outer loop is among them."""
    for s in stmts:
        if isinstance(s, (ast.For, ast.While)):
            if _has(s.body, ast.Return) or _has(s.orelse, (ast.Return, ast.Break, ast.Continue)):
                return False
            continue
        if isinstance(s, (ast.Break, ast.Continue)):
            return False
        for f in ('body', 'orelse', 'finalbody'):
            if not isinstance(s, (ast.FunctionDef, ast.ClassDef)) and not breakable(getattr(s, f, []) or []):
                return False
        for h in (getattr(s, 'handlers', []) or []) + (getattr(s, 'cases', []) or []):
            if not breakable(h.body):
                return False
    return True


def with_breaks(stmts, emit):
    """Each ``return e`` becomes emit(e) and a break out of the (one-pass) loop around."""
    out = []
    for s in stmts:
        if isinstance(s, ast.Return):
            return out + emit(s) + [ast.copy_location(ast.Break(), s)]
        if _has([s], ast.Return):
            n = copy.copy(s)
            for f in ('body', 'orelse', 'finalbody'):
                if getattr(s, f, None):
                    setattr(n, f, with_breaks(getattr(s, f), emit))
            for f in ('handlers', 'cases'):
                if getattr(s, f, None):
                    hs = []
                    for h in getattr(s, f):
                        h2 = copy.copy(h)
                        h2.body = with_breaks(h.body, emit)
                        hs.append(h2)
                    setattr(n, f, hs)
            out.append(n)
        else:
            out.append(s)
    return out


def _fall(emit, s, rest):
    return emit(ast.copy_location(ast.Return(value=None), s))


def _pass(s):
    return ast.copy_location(ast.Pass(), s)


def loop_body(stmts, emit):
    out = []
    for s in stmts:
        if isinstance(s, ast.Return):
            return out + emit(s) + [ast.copy_location(ast.Break(), s)]
        if _has([s], ast.Return):
            if isinstance(s, ast.If):
                n = copy.copy(s)
                n.body = loop_body(s.body, emit)
                n.orelse = loop_body(s.orelse, emit)
                out.append(n)
                continue
            if isinstance(s, ast.With):
                n = copy.copy(s)
                n.body = loop_body(s.body, emit)
                out.append(n)
                continue
            raise CannotInline('loop')
        out.append(s)
    return out


class Rename(ast.NodeTransformer):
    def __init__(self, names, exprs, star=(None, (), None, ())):
        self.names, self.exprs = names, exprs
        self.va, self.va_vals, self.kw, self.kw_vals = star

    def visit_Call(self, n):
        args = []
        for x in n.args:
            if self.va and isinstance(x, ast.Starred) and isinstance(x.value, ast.Name) and \
                    x.value.id == self.va:
                args += [copy.deepcopy(v) for v in self.va_vals]
            else:
                args.append(self.visit(x))
        kws = []
        for k in n.keywords:
            if self.kw and k.arg is None and isinstance(k.value, ast.Name) and k.value.id == self.kw:
                kws += [copy.deepcopy(v) for v in self.kw_vals]
            else:
                kws.append(ast.copy_location(ast.keyword(arg=k.arg, value=self.visit(k.value)), k))
        n.func = self.visit(n.func)
        n.args, n.keywords = args, kws
        return n

    def visit_Name(self, n):
        if self.va and n.id == self.va and isinstance(n.ctx, ast.Load):
            return ast.copy_location(ast.Tuple(
                elts=[copy.deepcopy(v) for v in self.va_vals], ctx=ast.Load()), n)
        if self.kw and n.id == self.kw and isinstance(n.ctx, ast.Load):
            return ast.copy_location(ast.Dict(
                keys=[ast.Constant(value=k.arg) for k in self.kw_vals],
                values=[copy.deepcopy(k.value) for k in self.kw_vals]), n)
        if n.id in self.exprs and isinstance(n.ctx, ast.Load):
            return copy.deepcopy(self.exprs[n.id])
        if n.id in self.names:
            return ast.copy_location(ast.Name(id=self.names[n.id], ctx=n.ctx), n)
        return n

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if n.name in self.names:
            n.name = self.names[n.name]
        return n

    def visit_Nonlocal(self, n):
        return ast.copy_location(ast.Pass(), n)


def assigned(fn):
    out = set()
    for s in fn.body:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                out.add(n.name)
    return out


def names_used(fn):
    return {n.id for n in ast.walk(fn) if isinstance(n, ast.Name)} | {
        a.arg for a in ast.walk(fn) if isinstance(a, ast.arg)}


SIMPLE = (ast.Name, ast.Constant)


def simple_arg(a):
    while isinstance(a, ast.Attribute):
        a = a.value
    return isinstance(a, SIMPLE)


class Inliner:
    def __init__(self, project):
        self.p = project
        self.star = (None, (), None, ())
        inv = load_inventory()
        self.new = {}          # name -> [FunctionInfo]
        for f in project.all_functions():
            if f.qual not in inv:
                if f.name.startswith('__') and f.name.endswith('__'):
                    continue
                self.new.setdefault(f.name, []).append(f)
        self.counter = 0
        self.done = {}         # qual -> number of inlined references
        self.failed = set()

    def run(self):
        if not self.new:
            return
        self.expand_all()
        fold = FoldGetattr()
        for m in self.p.modules.values():
            fold.visit(m.tree)

    def expand_all(self):
        for _ in range(4):
            changed = False
            for f in list(self.p.all_functions()):
                if self.function(f):
                    changed = True
            if not changed:
                break
        self.prune()

    # ---------------------------------------------------------------- lookup
    def helper(self, call, fi):
        f = call.func
        name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
        cands = self.new.get(name)
        if not cands:
            return None
        got = [g for g in self.p.resolve_callee(f, fi) if g in cands]
        if not got and isinstance(f, ast.Attribute) and len(cands) == 1 and cands[0].is_method:
            got = cands
        if len(got) != 1:
            return None
        h = got[0]
        if h is fi or h.qual in self.failed:
            return None
        # overridden helper: dynamic dispatch, leave alone
        if h.is_method and any(h.name in s.methods and s.methods[h.name] is not h
                               for s in h.cls.all_subclasses()):
            return None
        n = h.node
        if isinstance(n, ast.AsyncFunctionDef):
            return None
        if [d for d in h.decorators if d not in ('staticmethod', 'classmethod')]:
            return None
        if any(isinstance(x, ast.Call) and self._same(x, h) for x in ast.walk(n)):
            return None     # recursive
        if any(isinstance(a, ast.Starred) for a in call.args) or \
                any(k.arg is None for k in call.keywords):
            return None
        return h

    @staticmethod
    def _same(x, h):
        f = x.func
        return (f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', None)) == h.name

    def is_gen(self, h):
        return any(isinstance(x, (ast.Yield, ast.YieldFrom)) for s in h.node.body
                   for x in _shallow(s))

    # --------------------------------------------------------------- inlining
    def function(self, fi):
        self.fi = fi
        self.used = names_used(fi.node)
        self.changed = False
        fi.node.body = self.block(fi.node.body)
        if self.changed:
            ast.fix_missing_locations(fi.node)
            if hasattr(fi.node, '_sa_defs'):
                del fi.node._sa_defs
        return self.changed

    def block(self, stmts):
        out = []
        for s in stmts:
            out += self.stmt(s)
        return out

    def stmt(self, s):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return [s]
        for f in ('body', 'orelse', 'finalbody'):
            if getattr(s, f, None):
                setattr(s, f, self.block(getattr(s, f)))
        for h in getattr(s, 'handlers', []) or []:
            h.body = self.block(h.body)
        for h in getattr(s, 'cases', []) or []:
            h.body = self.block(h.body)
        # direct forms
        val = getattr(s, 'value', None)
        if isinstance(s, (ast.Assign, ast.AnnAssign, ast.Expr, ast.Return)):
            if isinstance(s, ast.Expr) and isinstance(val, (ast.YieldFrom, ast.Await)):
                val = val.value
            if isinstance(val, ast.Call):
                h = self.helper(val, self.fi)
                if h is not None and self.is_gen(h) != isinstance(
                        getattr(s, 'value', None), ast.YieldFrom):
                    h = None
                if h is not None:
                    pre = self.hoist_args(val, s)
                    try:
                        r = self.expand(h, val, s)
                        self.note(h)
                        return pre + r
                    except CannotInline:
                        self.failed.add(h.qual)
        pre = self.hoist_stmt(s)
        return pre + [s]

    def note(self, h):
        self.changed = True
        self.done[h.qual] = self.done.get(h.qual, 0) + 1

    def header(self, s):
        """Expression fields of a statement (not nested statements)."""
        for name, v in ast.iter_fields(s):
            if isinstance(v, ast.expr):
                yield s, name, None, v
            elif isinstance(v, list):
                for i, x in enumerate(v):
                    if isinstance(x, ast.expr):
                        yield s, name, i, x
                    elif isinstance(x, ast.withitem):
                        yield x, 'context_expr', None, x.context_expr

    def hoist_args(self, call, s):
        pre = []
        for i, a in enumerate(call.args):
            call.args[i], p = self.expr(a)
            pre += p
        for k in call.keywords:
            k.value, p = self.expr(k.value)
            pre += p
        return pre

    def hoist_stmt(self, s):
        pre = []
        for obj, name, i, e in list(self.header(s)):
            e2, p = self.expr(e)
            pre += p
            if e2 is not e:
                if i is None:
                    setattr(obj, name, e2)
                else:
                    getattr(obj, name)[i] = e2
        return pre

    def expr(self, e):
        """Returns (new expression, hoisted statements)."""
        pre = []
        me = self

        class T(ast.NodeTransformer):
            def visit_Lambda(self, n):
                return self._single(n)

            def _single(self, n):
                # inside lambdas only expression helpers can be substituted
                old, me.only_expr = me.only_expr, True
                self.generic_visit(n)
                me.only_expr = old
                return n
            visit_ListComp = visit_SetComp = visit_GeneratorExp = visit_DictComp = _single

            def visit_Call(self, n):
                self.generic_visit(n)
                h = me.helper(n, me.fi)
                if h is None or me.is_gen(h):
                    return n
                try:
                    body = [b for b in h.node.body if not (
                        isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant))]
                    if len(body) == 1 and isinstance(body[0], ast.Return) and \
                            body[0].value is not None:
                        names, exprs, binds = me.binding(h, n, force=True)
                        r = Rename({}, exprs, me.star).visit(copy.deepcopy(body[0].value))
                        me.note(h)
                        return r
                    if me.only_expr:
                        return n
                    me.counter += 1
                    tmp = '%s__v%d' % (h.name.lstrip('_'), me.counter)
                    st = ast.copy_location(ast.Assign(
                        targets=[ast.Name(id=tmp, ctx=ast.Store())], value=n), n)
                    pre.extend(me.expand(h, n, st))
                    me.note(h)
                    return ast.copy_location(ast.Name(id=tmp, ctx=ast.Load()), n)
                except CannotInline:
                    me.failed.add(h.qual)
                    return n

            def visit_Attribute(self, n):
                self.generic_visit(n)
                c = me.new.get(n.attr)
                if c and len(c) == 1 and c[0].decorators == ['property'] and \
                        isinstance(n.ctx, ast.Load):
                    body = [b for b in c[0].node.body if not (
                        isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant))]
                    if len(body) == 1 and isinstance(body[0], ast.Return) and body[0].value is not None:
                        selfn = c[0].params[0]
                        r = Rename({}, {selfn: n.value}).visit(copy.deepcopy(body[0].value))
                        me.note(c[0])
                        return r
                return n
        self.only_expr = False
        e2 = T().visit(e)
        return e2, pre

    def binding(self, h, call, force=False):
        a = h.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        pos = list(call.args)
        if h.is_method and not h.is_static:
            if isinstance(call.func, ast.Attribute):
                vals[params[0]] = call.func.value
                if isinstance(call.func.value, ast.Call) and dotted_super(call.func.value):
                    vals[params[0]] = ast.Name(id='self', ctx=ast.Load())
                names = params[1:]
            else:
                raise CannotInline('receiver')
        else:
            names = params
        extra = pos[len(names):]
        if extra and not a.vararg:
            raise CannotInline('arity')
        for n, v in zip(names, pos):
            vals[n] = v
        kwnames = {x.arg for x in a.args + a.kwonlyargs}
        kwextra = []
        for k in call.keywords:
            if k.arg in kwnames:
                vals[k.arg] = k.value
            elif a.kwarg:
                kwextra.append(k)
            else:
                raise CannotInline('arity')
        self.star = (a.vararg.arg if a.vararg else None, extra,
                     a.kwarg.arg if a.kwarg else None, kwextra)
        defaults = dict(zip(params[len(params) - len(a.defaults):], a.defaults))
        defaults.update({k.arg: d for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        allp = params + [k.arg for k in a.kwonlyargs]
        for n in allp:
            if n not in vals:
                if n not in defaults:
                    raise CannotInline('arity')
                vals[n] = defaults[n]
        for n in vals:
            if n not in allp:
                raise CannotInline('arity')
        asg = assigned(h.node)
        names, exprs, binds = {}, {}, []
        for n in allp:
            v = vals[n]
            if n not in asg and (force or simple_arg(v)):
                exprs[n] = v
            else:
                self.counter += 1
                nn = n if n not in self.used else '%s__i%d' % (n, self.counter)
                self.used.add(nn)
                names[n] = nn
                binds.append(ast.copy_location(ast.Assign(
                    targets=[ast.Name(id=nn, ctx=ast.Store())], value=v), call))
        closure = set()
        if h.outer is not None:
            for x in ast.walk(h.node):
                if isinstance(x, ast.Nonlocal):
                    closure |= set(x.names)
        for n in asg:
            if n in names or n in exprs or n in closure:
                continue
            if n in self.used:
                self.counter += 1
                names[n] = '%s__i%d' % (n, self.counter)
                self.used.add(names[n])
            else:
                self.used.add(n)
        return names, exprs, binds

    def expand(self, h, call, st):
        body = [b for b in h.node.body if not (
            isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant))]
        names, exprs, binds = self.binding(h, call)
        star = self.star
        body = copy.deepcopy(body)

        if isinstance(st, ast.Return):
            new = body
            if not terminates(body):
                new = body + [ast.copy_location(ast.Return(value=None), st)]
        else:
            def emit(r):
                if isinstance(st, ast.Expr):
                    if r.value is None or isinstance(r.value, (ast.Constant, ast.Name)):
                        return []
                    return [ast.copy_location(ast.Expr(value=r.value), r)]
                v = r.value if r.value is not None else ast.copy_location(
                    ast.Constant(value=None), r)
                s2 = copy.copy(st)
                s2.value = v
                if isinstance(st, ast.Assign):
                    s2.targets = [Keep(copy.deepcopy(t)) for t in st.targets]
                    s2.targets = [t.node for t in s2.targets]
                    for t in s2.targets:
                        for x in ast.walk(t):
                            x._sa_keep = True
                ast.copy_location(s2, r)
                return [s2]
            new = convert(body, emit)
            if not terminates(body) and not isinstance(st, ast.Expr):
                # falls off the end in the last statement
                if not _has(body, ast.Return):
                    new = new + emit(ast.copy_location(ast.Return(value=None), st))
        ren = KeepRename(names, exprs, star)
        new = [ren.visit(b) for b in new]
        return binds + new

    # ------------------------------------------------------------------ prune
    def prune(self):
        refs = {}
        for m in self.p.modules.values():
            for n in ast.walk(m.tree):
                nm = n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(
                    n, ast.Name) else None
                if nm in self.new:
                    refs[nm] = refs.get(nm, 0) + 1
        self.removed = []
        for name, fs in self.new.items():
            # references inside the helper itself do not count (recursion was excluded)
            if refs.get(name, 0) or not any(f.qual in self.done for f in fs):
                continue
            for f in fs:
                self.removed.append(f.qual)
                if f.outer is not None:
                    f.outer.nested.pop(name, None)
                    remove_def(f.outer.node, f.node)
                elif f.cls is not None:
                    f.cls.methods.pop(name, None)
                    remove_def(f.cls.node, f.node)
                else:
                    f.module.functions.pop(name, None)
                    remove_def(f.module.tree, f.node)


class FoldGetattr(ast.NodeTransformer):
    """getattr(x, 'name') -> x.name (after inlining a parameterised helper)."""

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == 'getattr' and len(n.args) == 2 and \
                not n.keywords and isinstance(n.args[1], ast.Constant) and \
                isinstance(n.args[1].value, str) and n.args[1].value.isidentifier():
            return ast.copy_location(ast.Attribute(
                value=n.args[0], attr=n.args[1].value, ctx=ast.Load()), n)
        return n


class Keep:
    def __init__(self, node):
        self.node = node


class KeepRename(Rename):
    def visit_Name(self, n):
        if getattr(n, '_sa_keep', False):
            return n
        return super().visit_Name(n)


def remove_def(container, node):
    for x in ast.walk(container):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(x, f, None)
            if isinstance(b, list) and node in b:
                b.remove(node)
                if not b:
                    b.append(ast.copy_location(ast.Pass(), node))
                return


def dotted_super(c):
    return isinstance(c.func, ast.Name) and c.func.id == 'super'


class Canonical(ast.NodeTransformer):
    """Writes equivalent forms of loops in one way, before anything is indexed:
    "if any(c for x in xs): raise" as a loop that raises, and a loop over a concatenation as one loop per part."""

    def visit_If(self, n):
        self.generic_visit(n)
        t, want = n.test, 'any'
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            t, want = t.operand, 'all'
        if not (isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == want and len(t.args) == 1 and not t.keywords and
                isinstance(t.args[0], (ast.GeneratorExp, ast.ListComp)) and len(t.args[0].generators) == 1 and
                not t.args[0].generators[0].is_async and isinstance(n.body[-1], ast.Raise)):
            return n
        g = t.args[0].generators[0]
        test = t.args[0].elt
        names = {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        if any(isinstance(x, ast.Name) and x.id in names for b in n.body for x in ast.walk(b)) or \
                any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(g.iter)) or \
                any(isinstance(x, ast.NamedExpr) for x in ast.walk(t)):
            return n
        if want == 'all':
            test = ast.UnaryOp(op=ast.Not(), operand=test)
        for cond in reversed(g.ifs):
            test = ast.BoolOp(op=ast.And(), values=[cond, test])
        clash = names & self.used
        if clash:
            fresh = {x: '%s__%d' % (x, n.lineno) for x in clash}
            for part in (g.target, test):
                for x in ast.walk(part):
                    if isinstance(x, ast.Name) and x.id in fresh:
                        x.id = fresh[x.id]
        check = ast.If(test=test, body=n.body, orelse=[])
        loop = ast.For(target=g.target, iter=g.iter, body=[check], orelse=[], type_comment=None)
        for x in (check, loop, test):
            ast.copy_location(x, n)
        for x in ast.walk(g.target):
            if hasattr(x, 'ctx'):
                x.ctx = ast.Store()
        return [ast.fix_missing_locations(loop)] + n.orelse

    def visit_For(self, n):
        self.generic_visit(n)
        parts = concatenated(n.iter)
        if parts is None or n.orelse or breaks(n.body):
            return n
        # The parts are evaluated when their loop starts: they must not be assigned in the body.
        stored = {x.id for b in n.body + [n.target] for x in ast.walk(b) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load)}
        if any(isinstance(x, ast.Name) and x.id in stored for q in parts for x in ast.walk(q)):
            return n
        out = []
        for q in parts:
            import copy
            new = copy.deepcopy(n)
            new.iter = q
            out.append(new)
        return out

    def visit_FunctionDef(self, n):
        outer = getattr(self, 'used', set())
        inner = [x.generators[0].target for x in ast.walk(n) if isinstance(x, (ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp))]
        own = {id(y) for t in inner for y in ast.walk(t)}
        self.used = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and id(x) not in own} | \
            {a.arg for x in ast.walk(n) if isinstance(x, ast.arguments) for a in x.posonlyargs + x.args + x.kwonlyargs}
        self.generic_visit(n)
        self.used = outer
        return n
    visit_AsyncFunctionDef = visit_FunctionDef
    used = set()


def breaks(body):
    """Whether the statements leave the loop they are the body of with break."""
    todo = list(body)
    while todo:
        x = todo.pop()
        if isinstance(x, ast.Break):
            return True
        if isinstance(x, (ast.For, ast.AsyncFor, ast.While)):
            todo += x.orelse
        elif not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            todo += list(ast.iter_child_nodes(x))
    return False


def plain(e):
    while isinstance(e, ast.Attribute):
        e = e.value
    return isinstance(e, ast.Name)


def concatenated(e):
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        out = []
        for x in (e.left, e.right):
            ps = concatenated(x) or ([x] if plain(x) else None)
            if ps is None:
                return None
            out += ps
        return out
    if isinstance(e, (ast.List, ast.Tuple)) and len(e.elts) > 1 and all(isinstance(x, ast.Starred) and plain(x.value) for x in e.elts):
        return [x.value for x in e.elts]
    if isinstance(e, ast.Call) and not e.keywords and len(e.args) > 1 and all(plain(x) for x in e.args) and \
            (isinstance(e.func, ast.Name) and e.func.id == 'chain' or isinstance(e.func, ast.Attribute) and e.func.attr == 'chain'):
        return list(e.args)
    return None

"""
Control flow graphs with exceptional edges, and a finite-state path simulation over them.

A CFG node is one simple statement, one atomic branch test (short circuits are split), a
``with`` entry/exit, or an exception handler entry.  ``finally`` bodies and ``with`` exits are
duplicated per way of leaving the protected region, so every path through them is explicit.
"""
import ast
from collections import deque


class Node:
    __slots__ = ('kind', 'ast', 'succ', 'id', 'extra')
    _n = 0

    def __init__(self, kind, node=None, extra=None):
        self.kind = kind       # stmt test for with_enter with_exit handler join exit
        self.ast = node
        self.succ = []         # (label, Node): n / T / F / x
        self.extra = extra
        Node._n += 1
        self.id = Node._n

    def __repr__(self):
        line = getattr(self.ast, 'lineno', '-')
        return '<%s@%s>' % (self.kind, line)


CATCH_ALL = {'Exception', 'BaseException'}


def may_raise(n):
    """Can evaluating this AST raise (calls, subscripts, awaits, asserts, raise)?"""
    for x in ast.walk(n):
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(x, (ast.Call, ast.Raise, ast.Assert, ast.Await, ast.Subscript,
                          ast.Yield, ast.YieldFrom)):
            return True
    return False


class _Ctx:
    def __init__(self, ret, exc, brk=None, cont=None):
        self.ret, self.exc, self.brk, self.cont = ret, exc, brk, cont

    def copy(self, **kw):
        c = _Ctx(self.ret, self.exc, self.brk, self.cont)
        for k, v in kw.items():
            setattr(c, k, v)
        return c


class CFG:
    def __init__(self, fn_node, raises=may_raise):
        self.raises = raises
        self.exit = Node('exit')           # normal exit (return or fall off the end)
        self.exc = Node('excexit')         # uncaught exception
        self.nodes = []
        body = fn_node.body if not isinstance(fn_node, ast.Lambda) else [
            ast.copy_location(ast.Return(value=fn_node.body), fn_node)]
        ctx = _Ctx(self.exit, self.exc)
        self.entry = Node('entry')
        first = self._block(body, self.exit, ctx)
        self.entry.succ.append(('n', first))

    # each builder returns the entry node of the construct, given the continuation node
    def _block(self, stmts, nxt, ctx):
        for st in reversed(stmts):
            nxt = self._stmt(st, nxt, ctx)
        return nxt

    def _mk(self, kind, node, extra=None):
        n = Node(kind, node, extra)
        self.nodes.append(n)
        return n

    def _simple(self, st, nxt, ctx, kind='stmt'):
        n = self._mk(kind, st)
        n.succ.append(('n', nxt))
        if self.raises(st):
            n.succ.append(('x', ctx.exc))
        return n

    def _test(self, expr, t, f, ctx):
        if isinstance(expr, ast.BoolOp):
            vals = expr.values
            if isinstance(expr.op, ast.And):
                cur = self._test(vals[-1], t, f, ctx)
                for v in reversed(vals[:-1]):
                    cur = self._test(v, cur, f, ctx)
            else:
                cur = self._test(vals[-1], t, f, ctx)
                for v in reversed(vals[:-1]):
                    cur = self._test(v, t, cur, ctx)
            return cur
        if isinstance(expr, ast.UnaryOp) and isinstance(expr.op, ast.Not):
            return self._test(expr.operand, f, t, ctx)
        if isinstance(expr, ast.Constant):
            return t if expr.value else f
        n = self._mk('test', expr)
        n.succ.append(('T', t))
        n.succ.append(('F', f))
        if self.raises(expr):
            n.succ.append(('x', ctx.exc))
        return n

    def _stmt(self, st, nxt, ctx):
        if isinstance(st, ast.If):
            t = self._block(st.body, nxt, ctx)
            f = self._block(st.orelse, nxt, ctx)
            return self._test(st.test, t, f, ctx)
        if isinstance(st, ast.While):
            head = self._mk('join', st)
            after = self._block(st.orelse, nxt, ctx)
            body = self._block(st.body, head, ctx.copy(brk=nxt, cont=head))
            head.succ.append(('n', self._test(st.test, body, after, ctx)))
            return head
        if isinstance(st, (ast.For, ast.AsyncFor)):
            it = self._mk('foriter', st)       # evaluation of the iterable
            head = self._mk('for', st)         # next()
            after = self._block(st.orelse, nxt, ctx)
            body = self._block(st.body, head, ctx.copy(brk=nxt, cont=head))
            it.succ.append(('n', head))
            if self.raises(st.iter):
                it.succ.append(('x', ctx.exc))
            head.succ.append(('T', body))
            head.succ.append(('F', after))
            return it
        if isinstance(st, ast.Try) or st.__class__.__name__ == 'TryStar':
            return self._try(st, nxt, ctx)
        if isinstance(st, (ast.With, ast.AsyncWith)):
            return self._with(st, list(st.items), nxt, ctx)
        if isinstance(st, ast.Return):
            n = self._mk('stmt', st)
            n.succ.append(('n', ctx.ret))
            if st.value is not None and self.raises(st.value):
                n.succ.append(('x', ctx.exc))
            return n
        if isinstance(st, ast.Raise):
            n = self._mk('stmt', st)
            n.succ.append(('x', ctx.exc))
            return n
        if isinstance(st, ast.Break):
            n = self._mk('stmt', st)
            n.succ.append(('n', ctx.brk))
            return n
        if isinstance(st, ast.Continue):
            n = self._mk('stmt', st)
            n.succ.append(('n', ctx.cont))
            return n
        if isinstance(st, ast.Match):
            subj = self._mk('stmt', ast.copy_location(ast.Expr(value=st.subject), st))
            nxt_case = nxt
            for c in reversed(st.cases):
                body = self._block(c.body, nxt, ctx)
                if c.guard is not None:
                    body = self._test(c.guard, body, nxt_case, ctx)
                n = self._mk('case', c)
                n.succ.append(('T', body))
                irref = isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None
                if not irref:
                    n.succ.append(('F', nxt_case))
                nxt_case = n
            subj.succ.append(('n', nxt_case))
            if self.raises(st.subject):
                subj.succ.append(('x', ctx.exc))
            return subj
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            n = self._mk('def', st)
            n.succ.append(('n', nxt))
            return n
        return self._simple(st, nxt, ctx)

    def _wrapped(self, ctx, wrap):
        """ctx whose targets all pass through wrap(target, outer ctx) (memoised per target)."""
        memo = {}

        def w(target, why):
            if target is None:
                return None
            key = (id(target), why)
            if key not in memo:
                memo[key] = wrap(target, why)
            return memo[key]
        return w

    def _try(self, st, nxt, ctx):
        if st.finalbody:
            w = self._wrapped(ctx, lambda tgt, why: self._block(st.finalbody, tgt, ctx))
            inner = _Ctx(_Lazy(lambda: w(ctx.ret, 'r')), _Lazy(lambda: w(ctx.exc, 'x')),
                         _Lazy(lambda: w(ctx.brk, 'b')) if ctx.brk is not None else None,
                         _Lazy(lambda: w(ctx.cont, 'c')) if ctx.cont is not None else None)
            inner = _force(inner)
            after = w(nxt, 'n')
        else:
            inner, after = ctx, nxt
        if st.handlers:
            disp = self._mk('join', st)
            caught_all = False
            for h in st.handlers:
                hn = self._mk('handler', h)
                hn.succ.append(('n', self._block(h.body, after, inner)))
                disp.succ.append(('n', hn))
                if h.type is None or _names(h.type) & CATCH_ALL:
                    caught_all = True
                    break
            if not caught_all:
                disp.succ.append(('n', inner.exc))
            body_ctx = inner.copy(exc=disp)
        else:
            body_ctx = inner
        els = self._block(st.orelse, after, inner)
        return self._block(st.body, els, body_ctx)

    def _with(self, st, items, nxt, ctx):
        item, rest = items[0], items[1:]

        def wrap(tgt, why):
            n = self._mk('with_exit', item, why)
            n.succ.append(('n', tgt))
            return n
        w = self._wrapped(ctx, wrap)
        inner = _Ctx(w(ctx.ret, 'r'), w(ctx.exc, 'x'), w(ctx.brk, 'b'), w(ctx.cont, 'c'))
        after = w(nxt, 'n')
        if suppresses(item.context_expr):
            # contextlib.suppress: an exception may also be swallowed
            inner.exc.succ.append(('n', after))
        if rest:
            body = self._with(st, rest, after, inner)
        else:
            body = self._block(st.body, after, inner)
        n = self._mk('with_enter', item)
        n.succ.append(('n', body))
        if self.raises(item.context_expr):
            n.succ.append(('x', ctx.exc))
        return n


def suppresses(expr):
    return isinstance(expr, ast.Call) and (
        getattr(expr.func, 'id', None) == 'suppress' or
        getattr(expr.func, 'attr', None) == 'suppress')


class _Lazy:
    def __init__(self, f):
        self.f = f


def _force(c):
    for k in ('ret', 'exc', 'brk', 'cont'):
        v = getattr(c, k)
        if isinstance(v, _Lazy):
            setattr(c, k, v.f())
    return c


def _names(t):
    out = set()
    for x in ([t] if not isinstance(t, ast.Tuple) else t.elts):
        if isinstance(x, ast.Name):
            out.add(x.id)
        elif isinstance(x, ast.Attribute):
            out.add(x.attr)
    return out


def run_paths(cfg, init, transfer, limit=200000):
    """
    Propagates hashable states through the CFG (a state per path class, not merged).
    transfer(node, label, state) -> iterable of states ([] prunes the edge).
    Returns (states at normal exit, states at exceptional exit, visited pairs, preds map).
    """
    seen = {}
    todo = deque()

    def push(node, st, prev):
        k = (node, st)
        if k not in seen:
            seen[k] = prev
            todo.append(k)
    push(cfg.entry, init, None)
    normal, exc = set(), set()
    while todo:
        if len(seen) > limit:
            from .project import AnalysisError
            raise AnalysisError('path simulation exceeded %d states' % limit)
        node, st = todo.popleft()
        if node is cfg.exit:
            normal.add(st)
            continue
        if node is cfg.exc:
            exc.add(st)
            continue
        for label, nx in node.succ:
            for s2 in transfer(node, label, st):
                push(nx, s2, (node, st))
    return normal, exc, seen


def witness(seen, cfg_node, state):
    """Line numbers of one path reaching (node, state)."""
    path = []
    k = (cfg_node, state)
    while k is not None:
        n = k[0]
        ln = getattr(n.ast, 'lineno', None)
        if ln is not None and (not path or path[-1] != ln):
            path.append(ln)
        k = seen.get(k)
    return list(reversed(path))


def node_exprs(node):
    """The expressions evaluated at this CFG node."""
    a = node.ast
    if node.kind in ('stmt', 'test'):
        return [a]
    if node.kind == 'foriter':
        return [a.iter]
    if node.kind == 'for':
        return [a.target]
    if node.kind == 'with_enter':
        return [a.context_expr] + ([a.optional_vars] if a.optional_vars else [])
    if node.kind == 'case':
        return []
    if node.kind == 'def':
        return list(getattr(a, 'decorator_list', []))
    return []


def calls_in(expr):
    """Calls in evaluation order (arguments before the call), not entering lambdas/defs."""
    out = []

    def go(n):
        if isinstance(n, (ast.Lambda, ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return
        if isinstance(n, ast.Assign):
            go(n.value)
            for t in n.targets:
                go(t)
            return
        for c in ast.iter_child_nodes(n):
            go(c)
        if isinstance(n, ast.Call):
            out.append(n)
    go(expr)
    return out

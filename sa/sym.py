"""
Symbolic path walker: every path of a function through its control flow graph (exception edges,
``finally`` and ``with`` exits included), with the terms its variables hold, the branch
conditions taken and the events (calls, stores, lock regions) in order.  Terms are only
compared syntactically; no path condition is handed to a solver.
"""
import ast
from .cfg import CFG, run_paths, witness, node_exprs, calls_in, may_raise
from .terms import TermEval, norm_cond, show, subterms, elem_of, cat, subst
from .project import dotted


class _Ev(TermEval):
    """Expression evaluation only; records calls as it goes."""

    def __init__(self, fi, simp=None, resolve=None, limit=10 ** 9):
        self.fi, self.simp_hook, self.resolve = fi, simp, resolve
        self.limit, self.count = limit, 0
        self.first_loops, self.loops, self.paths = [], [], []


class State:
    __slots__ = ('env', 'conds', 'events', '_h')

    def __init__(self, env, conds=frozenset(), events=()):
        self.env, self.conds, self.events = env, conds, events
        self._h = hash((frozenset(env.items()), conds, events))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self.conds == o.conds and self.events == o.events and self.env == o.env

    def event(self, e, once=True):
        if once and e in self.events:
            return self
        return State(self.env, self.conds, self.events + (e,))


def default_raises(n):
    return may_raise(n)


class PathSim:
    """
    want(term) decides which call terms (and ('set', ..), ('setitem', ..), ('del', ..),
    ('with', t), ('endwith', t), ('handler', names), ('raise', t)) become events.
    """

    def __init__(self, fi, want=None, simp=None, resolve=None, env=None, raises=default_raises,
                 limit=1000000, relevant=None, attempts=None, node=None, noreturn=None, totals=False,
                 count=(), loops=False, repeat=False):
        self.fi, self.loops, self.repeat = fi, loops, repeat
        self.totals, self.count, self.partial, self._tot = totals, count, [], {}
        fn = unrolled(node if node is not None else fi.node)
        self.fn = fn
        self.ev = _Ev(fi, simp, resolve)
        self.want = want or (lambda t: True)
        self.attempts = attempts
        self.cfg = CFG(fn, raises) if raises is not default_raises else CFG(fn)
        e = dict(env or {})
        for x in ast.walk(fi.module.tree):
            if isinstance(x, ast.ImportFrom):
                for al in x.names:
                    if al.asname and al.asname != al.name:
                        e.setdefault(al.asname, ('name', al.name))
        if node is None:
            for p in fi.all_params:
                e.setdefault(p, ('param', p))
        elif not isinstance(fn, ast.Lambda):
            for p in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs:
                e.setdefault(p.arg, ('param', p.arg))
        self.relevant = relevant
        self.noreturn, self.exits = noreturn, []
        self.stores = {}
        self.live = liveness(self.cfg, fn)
        normal, exc, self.seen = run_paths(self.cfg, State(e), self.step, limit)
        self.normal, self.exc = normal, exc

    # outcomes ------------------------------------------------------------
    def returns(self):
        """(returned term, state) for every path that ends normally."""
        for s in self.normal:
            yield s.env.get('<ret>', ('const', None)), s

    def raises(self):
        for s in self.exc:
            yield s.env.get('<exc>', ('const', None)), s

    def where(self, state, exceptional=False):
        return witness(self.seen, self.cfg.exc if exceptional else self.cfg.exit, state)

    # ---------------------------------------------------------------------
    def emit(self, st, t):
        if not self.want(t):
            return st
        if self.repeat and t[0] == 'set' and t in st.events and st.events.count(t) < 3:
            # a location that is set back and forth
            last = [e for e in st.events if e[:3] == t[:3]][-1]
            return st.event(t, once=last == t)
        return st.event(t)

    def call_events(self, st, terms):
        """Events of all calls in the given (just evaluated) terms, in evaluation order."""
        for t in terms:
            for x in calls_of(t):
                st = self.emit(st, x)
        return st

    def evals(self, e, st):
        """[(term, state)] of evaluating an expression, with its events."""
        out = []
        for t, c in self.ev.ev(e, st.env, st.conds):
            s2 = State(st.env, c, st.events)
            s2 = self.call_events(s2, [x for x, _ in c - st.conds] + [t])
            out.append((t, s2))
        return out

    def havoc(self, loop, st):
        env = dict(st.env)
        names = self.stores.get(loop)
        if names is None:
            names = set()
            for n in ast.walk(loop):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    names.add(n.id)
                elif isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, ast.Store):
                    d = dotted(n)
                    if d:
                        names.add('.' + d)
                    elif isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name):
                        names.add(n.value.id)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                        isinstance(n.func.value, ast.Name) and n.func.attr in (
                            'append', 'extend', 'insert', 'add', 'update', 'pop', 'remove'):
                    names.add(n.func.value.id)
            self.stores[loop] = names
        dead = set()
        for n in names:
            if n.startswith('.'):
                env.pop(n, None)
            elif n in env:
                env[n] = ('loop', n)
                dead.add(('loop', n))
        conds = frozenset(c for c in st.conds if not (set(subterms(c[0])) & dead)) if dead else st.conds
        return State(env, conds, st.events)

    def step(self, node, label, st):
        if self.noreturn is not None and node.ast is not None and node.kind in (
                'stmt', 'test', 'foriter', 'with_enter'):
            for e in node_exprs(node):
                for c in calls_in(e):
                    if isinstance(c, ast.Call):
                        ts = self.ev.ev(c, st.env, st.conds)
                        if ts and self.noreturn(ts[0][0]):
                            if label == 'n':
                                for t, cs in ts:
                                    s2 = self.call_events(State(st.env, cs, st.events), list(t[2]))
                                    self.exits.append((t, s2))
                            return []
        if self.count and label != 'x' and node.ast is not None and node.kind in (
                'stmt', 'test', 'foriter', 'with_enter'):
            for e in node_exprs(node):
                for c in calls_in(e):
                    if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and \
                            c.func.attr in self.count and len(st.events) < 50:
                        st = st.event(('take', c.func.attr), once=False)
        out = self.step0(node, label, st)
        if self.totals and label == 'F' and node.kind in ('for', 'test'):
            loop = node.ast if node.kind == 'for' else self.whiles().get(id(node.ast))
            if loop is not None:
                out = [self.collected(loop, s) for s in out]
        lv = self.live.get((node, label))
        if lv is not None:
            res = []
            for s in out:
                dead = [n for n in s.env if n not in lv and n[0] not in '.<' and s.env[n][0] not in ('param', 'name')]
                if dead:
                    s = State({n: v for n, v in s.env.items() if n not in dead}, s.conds, s.events)
                res.append(s)
            out = res
        if self.relevant is None:
            return out
        return [s if all(self.relevant(c[0]) for c in s.conds) else State(
            s.env, frozenset(c for c in s.conds if self.relevant(c[0])), s.events) for s in out]

    def step0(self, node, label, st):
        a = node.ast
        if node.kind in ('entry',) or a is None:
            return [st]
        if label == 'x':
            env = st.env
            if node.kind == 'stmt' and isinstance(a, ast.Raise):
                t = self.ev.ev(a.exc, env, frozenset())[0][0] if a.exc is not None else ('reraise',)
                st2 = self.call_events(st, [t])
                e2 = dict(st.env)
                e2['<exc>'] = t
                return [self.emit(State(e2, st.conds, st2.events), ('raise', t))]
            e2 = dict(env)
            e2['<exc>'] = ('implicit',)
            st2 = State(e2, st.conds, st.events)
            if self.attempts:
                for e in node_exprs(node):
                    for c in calls_in(e):
                        t = self.ev.ev(c, env, frozenset())[0][0]
                        if self.attempts(t):
                            st2 = st2.event(('attempt', t))
            return [st2]
        if node.kind == 'test':
            out = []
            pre = [t for t, _ in self.ev.ev(a, st.env, st.conds)]
            for b, c in self.ev.cond(a, st.env, st.conds):
                if b == (label == 'T'):
                    new = [x for x, _ in c - st.conds]
                    out.append(self.call_events(State(st.env, c, st.events), new if len(pre) != 1 else pre))
            return out
        if node.kind == 'join' and isinstance(a, ast.While):
            return [st if one_pass(a) else self.havoc(a, st)]
        if node.kind == 'foriter':
            it, st = self.evals(a.iter, st)[0]
            st = self.havoc(a, st)
            env = dict(st.env)
            env['<it%d>' % a.lineno] = it
            return [State(env, st.conds, st.events)]
        if node.kind == 'for':
            st = self.havoc(a, st)
            if self.loops:
                it = st.env.get('<it%d>' % a.lineno, ('unknown', 'iter'))
                st = self.emit(st, ('iter' if label == 'T' else 'exhausted', it))
            if label == 'T':
                env = dict(st.env)
                it = env.get('<it%d>' % a.lineno, ('unknown', 'iter'))
                eff = self.ev.bind(a.target, elem_of(it), env, st.conds, ())
                st = State(env, st.conds, st.events)
                for t in eff:
                    st = self.emit(st, t)
            return [st]
        if node.kind == 'with_enter':
            out = []
            for t, s1 in self.evals(a.context_expr, st):
                env = dict(s1.env)
                if a.optional_vars is not None:
                    self.ev.bind(a.optional_vars, ('enter', t), env, s1.conds, ())
                s2 = State(env, s1.conds, s1.events)
                if self.want(('with', t)):
                    s2 = s2.event(('with', t), once=False) if len([
                        e for e in s2.events if e == ('with', t)]) < 4 else s2
                out.append(s2)
            return out
        if node.kind == 'with_exit':
            t = self.ev.ev(a.context_expr, st.env, frozenset())[0][0]
            if self.want(('endwith', t)):
                return [State(st.env, st.conds, st.events + (('endwith', t),))
                        if len([e for e in st.events if e == ('endwith', t)]) < 4 else st]
            return [st]
        if node.kind == 'handler':
            env = dict(st.env)
            if a.name:
                env[a.name] = ('exc', a.name)
            env.pop('<exc>', None)
            names = ('any',) if a.type is None else tuple(sorted(
                dotted(x) or '?' for x in ([a.type] if not isinstance(a.type, ast.Tuple) else a.type.elts)))
            return [self.emit(State(env, st.conds, st.events), ('handler', names))]
        if node.kind == 'def':
            env = dict(st.env)
            env[a.name] = ('def', a.name)
            return [State(env, st.conds, st.events)]
        if node.kind == 'stmt':
            return self.stmt(a, st)
        return [st]

    def stmt(self, s, st):
        env, conds = st.env, st.conds
        if isinstance(s, ast.Return):
            out = []
            for t, s2 in self.evals(s.value, st) if s.value is not None else [(('const', None), st)]:
                e2 = dict(env)
                e2['<ret>'] = t
                out.append(State(e2, s2.conds, s2.events))
            return out
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            if s.value is None:
                return [st]
            return self.assign(s.targets if isinstance(s, ast.Assign) else [s.target], s.value, st)
        if isinstance(s, ast.AugAssign):
            return self.assign([s.target], ast.copy_location(
                ast.BinOp(left=_load(s.target), op=s.op, right=s.value), s), st)
        if isinstance(s, ast.Delete):
            for tg in s.targets:
                if isinstance(tg, ast.Subscript):
                    b = self.ev.ev(tg.value, env, conds)[0][0]
                    i = self.ev.ev(tg.slice, env, conds)[0][0]
                    st = self.emit(st, ('del', b, i))
            return [st]
        if isinstance(s, ast.Expr):
            v = s.value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and \
                    isinstance(v.func.value, ast.Name) and len(v.args) == 1 and not v.keywords and \
                    v.func.attr in ('append', 'extend') and env.get(v.func.value.id, ('?',))[0] in (
                        'list', 'op', 'loop', 'map', 'concat'):
                out = []
                for t, s2 in self.evals(v.args[0], st):
                    e2 = dict(env)
                    cur = env[v.func.value.id]
                    e2[v.func.value.id] = cat(cur, ('list', (t,)) if v.func.attr == 'append' else t)
                    out.append(State(e2, s2.conds, s2.events))
                return out
            out = []
            for t, s2 in self.evals(v, st):
                if t[0] == 'call' and t[1] == ('name', 'setattr') and len(t[2]) == 3 and t[2][1][0] == 'const':
                    s2 = self.emit(s2, ('set', t[2][0], t[2][1][1], t[2][2]))
                    b = dotted(v.args[0])
                    if b:
                        s2 = State(dict(s2.env, **{'.%s.%s' % (b, t[2][1][1]): t[2][2]}), s2.conds, s2.events)
                elif t[0] == 'call' and t[1][0] == 'attr' and t[1][2] == 'update' and isinstance(v.func, ast.Attribute) and \
                        isinstance(v.func.value, ast.Name) and env.get(v.func.value.id, ('?',))[0] == 'dict':
                    new = [(('const', k), x) for k, x in t[3]]
                    if len(t[2]) == 1 and t[2][0][0] == 'dict' and all(k is not None for k, _ in t[3]):
                        new = list(t[2][0][1]) + new
                    elif t[2] or any(k is None for k, _ in t[3]):
                        new = None
                    e2 = dict(s2.env)
                    if new is None:
                        e2[v.func.value.id] = ('unknown', 'dict')
                    else:
                        put(e2, v.func.value.id, new)
                    s2 = State(e2, s2.conds, s2.events)
                if s2 not in out:
                    out.append(s2)
            return out
        if isinstance(s, ast.Assert):
            return [self.call_events(State(env, c, st.events), [x for x, _ in c - conds])
                    for b, c in self.ev.cond(s.test, env, conds) if b]
        return [st]

    # lists that hold one item per element of what a loop runs over ----------
    def whiles(self):
        if not hasattr(self, '_whiles'):
            self._whiles = {id(n.test): n for n in ast.walk(self.fn) if isinstance(n, ast.While)}
        return self._whiles

    def collected(self, loop, st):
        """After the loop is exhausted: bind the lists it fills completely to ('map', ..)."""
        key = (id(loop), frozenset(st.env.items()))
        if key not in self._tot:
            self._tot[key] = collect(self, loop, st)
        new = self._tot[key]
        if not new:
            return st
        env = dict(st.env)
        env.update(new)
        return State(env, st.conds, st.events)

    def assign(self, targets, value, st):
        out = []
        for t, s1 in self.evals(value, st):
            e2 = dict(st.env)
            eff = ()
            for tg in targets:
                eff = self.ev.bind(tg, t, e2, s1.conds, eff)
                if isinstance(tg, ast.Subscript) and isinstance(tg.value, ast.Name):
                    k = self.ev.ev(tg.slice, e2, s1.conds)[0][0]
                    put(e2, tg.value.id, ((k, t),))
            s2 = State(e2, s1.conds, s1.events)
            for x in eff:
                s2 = self.emit(s2, x)
            out.append(s2)
        return out


def put(env, name, pairs):
    """Entries stored in a dictionary that is known completely."""
    d = env.get(name, ('?',))
    if d[0] != 'dict':
        return
    cur = dict(d[1])
    for k, v in pairs:
        cur[k] = v
    env[name] = ('dict', tuple(cur.items()))


_CALLS = {}


def calls_of(t):
    """Call sub-terms of a term, arguments before the call."""
    if not isinstance(t, tuple):
        return ()
    r = _CALLS.get(t)
    if r is None:
        out = []
        if t and t[0] == 'call' and len(t) == 4:
            for x in t[1:3]:
                out += calls_of(x)
            for _, v in t[3]:
                out += calls_of(v)
            out.append(t)
        else:
            for x in t:
                if isinstance(x, tuple):
                    out += calls_of(x)
        r = _CALLS[t] = tuple(dict.fromkeys(out))
    return r


def literal_loop(s):
    """A loop over a literal of a few elements, without jumps."""
    return isinstance(s, ast.For) and isinstance(s.iter, (ast.Tuple, ast.List)) and 0 < len(s.iter.elts) <= 6 and \
        not any(isinstance(x, ast.Starred) for x in s.iter.elts) and not s.orelse and not any(
            isinstance(x, (ast.Break, ast.Continue)) for x in ast.walk(s)) and (
                isinstance(s.target, ast.Name) or isinstance(s.target, ast.Tuple) and all(
                    isinstance(x, ast.Tuple) and len(x.elts) == len(s.target.elts) for x in s.iter.elts))


def unrolled(fn):
    """The function with loops over short literals written out."""
    if isinstance(fn, ast.Lambda) or not any(literal_loop(x) for x in ast.walk(fn)):
        return fn
    new = clone(fn)

    def block(stmts):
        out = []
        for s in stmts:
            for f in ('body', 'orelse', 'finalbody'):
                if getattr(s, f, None) and not isinstance(s, (ast.Lambda, ast.IfExp)):
                    setattr(s, f, block(getattr(s, f)))
            for f in ('handlers', 'cases'):
                for h in getattr(s, f, []) or []:
                    h.body = block(h.body)
            if literal_loop(s):
                for x in s.iter.elts:
                    pairs = [(s.target, x)] if isinstance(s.target, ast.Name) else list(zip(s.target.elts, x.elts))
                    for t, v in pairs:
                        out.append(ast.copy_location(ast.Assign(targets=[clone(t)], value=clone(v)), s))
                    out += [clone(y) for y in s.body]
            else:
                out.append(s)
        return out
    new.body = block(new.body)
    for x in ast.walk(new):
        for c in ast.iter_child_nodes(x):
            c._sa_parent = x
    new._sa_parent = getattr(fn, '_sa_parent', None)
    return new


def one_pass(loop):
    """A loop whose body never comes back to its head."""
    def leaves(stmts):
        if not stmts:
            return False
        x = stmts[-1]
        return isinstance(x, (ast.Break, ast.Return, ast.Raise)) or isinstance(x, ast.If) and leaves(
            x.body) and leaves(x.orelse)
    return leaves(loop.body) and not any(isinstance(x, ast.Continue) for x in ast.walk(loop))


def clone(n):
    """Copy of a syntax tree without the extra attributes (parents) of the index."""
    if isinstance(n, ast.AST):
        new = type(n)(**{f: clone(getattr(n, f)) for f in n._fields if hasattr(n, f)})
        return ast.copy_location(new, n)
    if isinstance(n, list):
        return [clone(x) for x in n]
    return n


def once_per_iteration(loop, var):
    """Synthetic function of one iteration: returns ('next'|'break', var)."""
    def marker(kind, at):
        return ast.copy_location(ast.Return(ast.Tuple(
            [ast.Constant(kind), ast.Name(var, ast.Load())], ast.Load())), at)

    class T(ast.NodeTransformer):
        def visit_Break(self, n):
            return marker('break', n)

        def visit_Continue(self, n):
            return marker('next', n)

        def visit_Return(self, n):
            return marker('return', n)

        def skip(self, n):
            # break and continue of an inner loop stay, its returns do not
            class R(ast.NodeTransformer):
                def visit_Return(s2, m):
                    return marker('return', m)

                def visit_FunctionDef(s2, m):
                    return m
                visit_Lambda = visit_FunctionDef
            return R().visit(n)
        visit_For = visit_While = skip

        def visit_FunctionDef(self, n):
            return n
        visit_Lambda = visit_FunctionDef

    body = [T().visit(clone(s)) for s in loop.body]
    fn = ast.FunctionDef(name='<iteration>', args=ast.arguments([], [], None, [], [], None, []),
                         body=body + [marker('next', loop.body[-1])], decorator_list=[], returns=None)
    ast.copy_location(fn, loop)
    return ast.fix_missing_locations(fn)


def collect(sim, loop, st):
    """{list name: ('map', item, ((source, ()),))} for the lists the loop fills completely."""
    names = {n.func.value.id for n in ast.walk(loop) if isinstance(n, ast.Call) and
             isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'extend') and
             isinstance(n.func.value, ast.Name)}
    names |= {n.target.id for n in ast.walk(loop) if isinstance(n, ast.AugAssign) and
              isinstance(n.target, ast.Name) and isinstance(n.op, ast.Add)}
    names |= {n.targets[0].id for n in ast.walk(loop) if isinstance(n, ast.Assign) and len(n.targets) == 1 and
              isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.BinOp) and
              isinstance(n.value.left, ast.Name) and n.value.left.id == n.targets[0].id}
    out = {}
    for name in sorted(names):
        skips = []
        if st.env.get(name) != ('loop', name):
            continue
        env = dict(st.env)
        counter = None
        if isinstance(loop, (ast.For, ast.AsyncFor)):
            src = env.get('<it%d>' % loop.lineno, ('unknown', 'iter'))
            item = elem_of(src)
            sim.ev.bind(loop.target, item, env, frozenset(), ())
        else:
            t = sim.ev.ev(loop.test, env, frozenset())[0][0]
            if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] in ('hasNext', 'hasMoreElements'):
                src = t[1][1]
                item = ('call', ('attr', src, 'next' if t[1][2] == 'hasNext' else 'nextElement'), (), ())
            elif t[0] == 'cmp' and t[1] == '<' and t[2][0] == 'loop' and is_call_(t[3], 'len'):
                src, counter = t[3][2][0], t[2]
                item = ('sub', src, counter)
            else:
                continue
        fn = once_per_iteration(loop, name)
        it = PathSim(sim.fi, want=lambda t: False, simp=sim.ev.simp_hook, resolve=sim.ev.resolve,
                     env=env, node=fn, totals=True, count=('next', 'nextElement'))
        why, vals = None, set()
        for t, s in it.returns():
            kind, val = t[1][0][1], t[1][1]
            if kind != 'next':
                why = '%s inside the loop at lines %s' % (kind, it.where(s))
                break
            if not isinstance(loop, (ast.For, ast.AsyncFor)):
                if counter is None and len([e for e in s.events if e[0] == 'take']) != 1:
                    why = 'not exactly one element is taken per iteration (lines %s)' % it.where(s)
                    break
            if val == ('loop', name):
                # an equal item that is already collected may be left out
                same = [x[2] for x, b in s.conds if b and x[0] == 'cmp' and x[1] == 'in' and x[3] == val]
                if same:
                    skips += same
                    continue
                why = 'an element is skipped on the path through lines %s' % it.where(s)
                break
            new = val[3] if val[0] == 'op' and val[1] == 'Add' and val[2] == ('loop', name) else None
            if new is None or item not in set(subterms(new)):
                why = 'what is collected is %s (lines %s)' % (show(val), it.where(s))
                break
            vals.add(new[1][0] if new[0] == 'list' and len(new[1]) == 1 else ('concat', new))
        if counter is not None and why is None:
            n = counter[1]
            fn2 = once_per_iteration(loop, n)
            it2 = PathSim(sim.fi, env=env, node=fn2)
            for t, s in it2.returns():
                if t[1][1] != ('op', 'Add', counter, ('const', 1)):
                    why = 'the index is not advanced by one'
        for x in skips:
            if why is None and x not in vals:
                why = 'elements with equal %s are skipped' % show(x)
        if why is None and vals:
            vals = sorted(vals, key=repr)
            v = vals[0] if len(vals) == 1 else ('alt', tuple(vals))
            out[name] = ('map', subst(v, item, elem_of(src)), ((src, ()),))
        elif why:
            if (name, why) not in sim.partial:
                sim.partial.append((name, why))
    return out


def is_call_(t, name):
    return t[0] == 'call' and t[1] in (('name', name),)


def complete(t, src):
    """None if the list term t holds something for every element of src, else what is wrong."""
    if t == src:
        return None
    if t[0] == 'map' and len(t[2]) == 1:
        s, ifs = t[2][0]
        if ifs:
            return 'elements are filtered by %s' % ' and '.join(show(x) for x in ifs)
        e = elem_of(s)
        els = t[1][1] if t[1][0] == 'alt' else (t[1],)
        if s != src and complete(s, src) is not None:
            return complete(s, src)
        return None
    if t[0] == 'call' and t[1][0] == 'name' and t[1][1] in ('list', 'tuple', 'sorted', 'reversed', 'iter') and t[2]:
        return complete(t[2][0], src)
    if t[0] == 'call' and t[1][0] == 'name' and t[1][1] == 'map' and len(t[2]) == 2:
        return complete(t[2][1], src)
    if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] in ('toIterator', 'iterator', 'copy') and not t[2]:
        return complete(t[1][1], src)
    if t[0] == 'call' and t[1] == ('attr', ('name', 'dict'), 'fromkeys') and t[2]:
        return complete(t[2][0], src)
    if t[0] == 'op' and t[1] == 'Add':
        return None if complete(t[2], src) is None or complete(t[3], src) is None else complete(t[2], src)
    if t[0] == 'list':
        for x in t[1]:
            if x[0] == 'star' and complete(x[1], src) is None:
                return None
    if t[0] == 'sub' and t[2][0] == 'slice' and all(x == ('const', None) for x in t[2][1:]):
        return complete(t[1], src)
    return 'it is %s' % show(t)


def liveness(cfg, fn):
    """(node, label) -> local names that may be read after taking that edge."""
    always = set()
    for n in ast.walk(fn):
        if n is not fn and isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            always |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            always |= set(n.names)
    use, kill = {}, {}
    for n in cfg.nodes:
        u, k = set(), set()
        ex = node_exprs(n)
        if n.kind == 'with_exit':
            ex = [n.ast.context_expr]
        for e in ex:
            for x in ast.walk(e):
                if isinstance(x, ast.Name):
                    if isinstance(x.ctx, ast.Load):
                        u.add(x.id)
                    elif isinstance(e, (ast.Assign, ast.AnnAssign)) or n.kind == 'for':
                        k.add(x.id)
                    else:
                        u.add(x.id)
            if isinstance(e, ast.AugAssign) and isinstance(e.target, ast.Name):
                u.add(e.target.id)
                k.discard(e.target.id)
        use[n], kill[n] = u, k
    live = {n: frozenset() for n in cfg.nodes}
    work = True
    while work:
        work = False
        for n in reversed(cfg.nodes):
            o, x = set(), set()
            for lab, m in n.succ:
                (x if lab == 'x' else o).update(live.get(m, frozenset()))
            new = frozenset(use[n] | (o - kill[n]) | x)
            if new != live[n]:
                live[n] = new
                work = True
    return {(n, lab): live.get(m, frozenset()) | always for n in cfg.nodes for lab, m in n.succ} if not any(
        len({id(m) for l, m in n.succ if l == lab}) > 1 for n in cfg.nodes for lab, _ in n.succ) else {
        (n, lab): frozenset().union(*[live.get(m, frozenset()) for l, m in n.succ if l == lab]) | always
        for n in cfg.nodes for lab, _ in n.succ}


def _load(t):
    import copy
    t2 = copy.copy(t)
    t2.ctx = ast.Load()
    return t2


def has(conds, pred, val):
    """Some condition (term satisfying pred, val) holds on the path."""
    return any(v == val and pred(t) for t, v in conds)


def index_of(events, pred):
    for i, e in enumerate(events):
        if pred(e):
            return i
    return -1

from _common import *
from c17 import no_raise, klass
from c21 import truth, value, with_, A, E, SELF, implied
from sa.terms import elem_of

NAME = A(SELF, 'name')


def canon(t):
    """Elements of dict.values() and dict.items() as entries of the dictionary."""
    if not isinstance(t, tuple):
        return t
    t = tuple(canon(x) if isinstance(x, tuple) else x for x in t)
    if t and t[0] == 'call' and t[1][0] == 'attr' and t[1][2] == 'get' and len(t[2]) == 1:
        return ('sub', t[1][1], t[2][0])
    if t and t[0] == 'elem' and t[1][0] == 'call' and t[1][1][0] == 'attr':
        d = t[1][1][1]
        if t[1][1][2] == 'values':
            return ('sub', d, E(d))
        if t[1][1][2] == 'keys':
            return E(d)
    if t and t[0] in ('sub', 'item') and t[1][0] == 'elem' and t[1][1][0] == 'call' and t[1][1][1][0] == 'attr' and t[1][1][1][2] == 'items':
        d = t[1][1][1][1]
        i = t[2][1] if isinstance(t[2], tuple) and t[2][0] == 'const' else t[2]
        return E(d) if i == 0 else ('sub', d, E(d))
    if t and t[0] == 'call' and t[1][0] == 'name' and t[1][1] in ('list', 'tuple', 'sorted', 'iter') and len(t[2]) == 1 and not t[3]:
        return t[2][0]
    return t


def hollow(loop, keep=()):
    """The loop with empty inner loops: only which loops are reached matters."""
    from c21 import clone

    class R(ast.NodeTransformer):
        def visit_For(self, n):
            return ast.copy_location(ast.For(target=n.target, iter=n.iter, body=[ast.copy_location(ast.Pass(), n)], orelse=[]), n)
    new = clone(loop)
    new.body = [R().visit(x) for x in new.body]
    return ast.fix_missing_locations(new)


def iteration(loop, bind):
    """A function that does what one iteration of the loop does (the bound names are free in it)."""
    class R(ast.NodeTransformer):
        def visit_Continue(self, n):
            return ast.copy_location(ast.Return(value=None), n)

        def visit_Break(self, n):
            return ast.copy_location(ast.Return(value=ast.Constant('break')), n)

        def visit_For(self, n):
            return n
        visit_While = visit_For
    from c21 import clone
    body = [R().visit(clone(x)) for x in loop.body]
    fn = ast.FunctionDef(name='iteration', args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
                         body=body, decorator_list=[], type_params=[])
    return ast.fix_missing_locations(ast.copy_location(fn, loop))


class One:
    """The paths of one iteration of a loop."""
    def __init__(self, f, loop, env, want, relevant=None):
        self.f, self.loop = f, loop
        ev = evaluator(f)
        src = ev.ev(loop.iter, dict(env), frozenset())[0][0] if isinstance(loop, (ast.For, ast.AsyncFor)) else None
        self.src = canon(src) if src else None
        env = dict(env)
        if src is not None:
            ev.bind(loop.target, elem_of(src), env, frozenset(), ())
        self.env = {k: canon(v) for k, v in env.items()}
        kw = dict(relevant=relevant) if relevant else {}
        self.sim = PathSim(f, node=iteration(loop, ()), env=self.env, raises=no_raise, want=want, **kw)

    def paths(self):
        for t, st in self.sim.returns():
            yield t, [(canon(x), v) for x, v in st.conds], [canon(e) for e in st.events], 'lines %s' % self.sim.where(st)

    def rejects(self):
        for t, st in self.sim.raises():
            yield [(canon(x), v) for x, v in st.conds], 'lines %s' % self.sim.where(st, True)


def evaluator(f):
    """The evaluator of expressions of a function."""
    if f not in _evs:
        fn = ast.parse('def nothing():\n    pass').body[0]
        _evs[f] = PathSim(f, node=fn, raises=no_raise).ev
    return _evs[f]


_evs = {}


def source(f, loop, env):
    """What a loop runs over."""
    ev = evaluator(f)
    env = dict(env)
    for n in once_assigned(f):
        if n.lineno < loop.lineno and n.targets[0].id not in env:
            env[n.targets[0].id] = ev.ev(n.value, dict(env), frozenset())[0][0]
    return canon(ev.ev(loop.iter, env, frozenset())[0][0])


def once_assigned(f):
    """The assignments to variables that are only assigned once."""
    if f not in _once:
        stores = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                stores[n.id] = stores.get(n.id, 0) + 1
        _once[f] = sorted((n for n in ast.walk(f.node) if isinstance(n, ast.Assign) and len(n.targets) == 1 and
                           isinstance(n.targets[0], ast.Name) and stores[n.targets[0].id] == 1), key=lambda n: n.lineno)
    return _once[f]


_once = {}


def attr_of(src):
    while src[0] == 'call' and src[1][0] == 'attr' and src[1][2] in ('values', 'items', 'keys'):
        src = src[1][1]
    return src


def known(t, conds):
    return truth(t, frozenset(norm_cond(x, v) for x, v in conds))


# -------------------------------------------------------------------------------------------
def contents(c, p):
    """The dictionaries PythonClass.get_contents(False) consists of."""
    f = klass(p, 'PythonClass').methods['get_contents']
    par = f.params[1]
    sim = PathSim(f, raises=no_raise, want=lambda t: is_call(t, 'extend') or is_call(t, 'append'))
    want = {'static_methods', 'static_fields', 'functions', 'fields', 'methods', 'predicates'}
    ok = True
    for t, st in sim.returns():
        if known(('param', par), st.conds) is True:
            continue
        got = {x[2] for y in [t] + list(st.events) for x in subterms(y) if x[0] == 'attr' and x[1] == SELF}
        ok &= c.expect(want <= got, 'resolution', f.qual, f.loc(), 'does not contain the %s of a class' % ', '.join(sorted(want - got)))
    g = klass(p, 'GenericType').methods['get_contents']
    for t, st in PathSim(g, raises=no_raise).returns():
        ok &= c.expect(callee_name(t) == 'get_contents' and A(SELF, 'python_class') in subterms(t) and (('param', g.params[1]) in t[2] or dict(t[3]).get('only_top') == ('param', g.params[1])),
                       'resolution', g.qual, g.loc(), show(t))
    return ok


def lookup(t, key):
    """The class in whose contents a term looks up the key."""
    if t[0] == 'sub' and t[2] == key:
        return holder(t[1])
    if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] == 'get' and t[2][:1] == (key,):
        return holder(t[1][1])
    return None


def holder(t):
    if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] == 'get_contents' and (t[2] == (('const', False),) or dict(t[3]).get('only_top') == ('const', False)):
        return t[1][1]
    return None


def resolution(c, p):
    c.rule('resolution', 'what a member overrides is looked up by its name in all superclasses, the closest first')
    ok = contents(c, p)
    for cname in ('PythonMethod', 'PythonGlobalVar'):
        f = klass(p, cname).methods['process']
        rel = lambda t: any(x in show(t) for x in ('.cls', 'loop', 'interface', 'get_contents'))
        sim = PathSim(f, raises=no_raise, want=lambda t: t[0] == 'set' and t[2] == 'overrides', relevant=rel)
        n, recs = 0, False
        for t, st in sim.returns():
            where = 'lines %s' % sim.where(st)
            if known(A(SELF, 'interface'), st.conds) or (('is_none', A(SELF, 'cls')), True) in st.conds or known(A(SELF, 'cls'), st.conds) is False:
                continue
            n += 1
            sets = [e[3] for e in st.events if e[0] == 'set' and e[1] == SELF]
            if not c.expect(bool(sets), 'resolution', f.qual, f.loc(), 'does not determine what a member overrides (%s)' % where):
                ok = False
                continue
            v = sets[-1]
            if v == ('const', None):
                done = any(b and x[0] == 'is_none' and x[1][0] == 'loop' or not b and x[0] == 'loop' for x, b in st.conds)
                ok &= c.expect(done, 'resolution', f.qual, f.loc(), 'stops the search before the last superclass (%s)' % where)
                continue
            if v[0] == 'call' and v[1][0] == 'attr' and v[1][1] == A(SELF, 'cls') and v[2] == (NAME,):
                ok &= recursive(c, p, v[1][2])
                recs = True
                continue
            k = lookup(v, NAME)
            ok &= c.expect(k is not None and k[0] == 'loop', 'resolution', f.qual, f.loc(),
                           'finds %s instead of the member of the closest superclass (%s)' % (show(v), where))
        ok &= c.expect(n >= 1, 'resolution', f.qual, f.loc(), 'has no search for overridden members')
        if not recs:
            ok &= chain(c, f)
    if ok:
        c.ok('resolution', 'search')


def recursive(c, p, name):
    """A search that continues with the superclass by calling itself."""
    f = klass(p, 'PythonClass').methods.get(name)
    if f is None or len(f.params) != 2:
        return c.expect(False, 'resolution', name, '', 'is not a search')
    if any(isinstance(x, ast.While) for x in ast.walk(f.node)):
        return c.expect(False, 'resolution', f.qual, f.loc(), 'is not a search that can be analysed')
    key, sup = ('param', f.params[1]), A(SELF, 'superclass')
    ok = True
    sim = PathSim(f, raises=no_raise)
    for t, st in sim.returns():
        where = 'lines %s' % sim.where(st)
        none = any(x == ('is_none', sup) and b or x == sup and not b for x, b in st.conds)
        found = [b for x, b in st.conds if x[0] == 'cmp' and x[1] == 'in' and x[2] == key and holder(x[3]) in (sup, A(sup, 'python_class'))]
        if t == ('const', None):
            ok &= c.expect(none, 'resolution', f.qual, f.loc(), 'stops the search before the last superclass (%s)' % where)
        elif t[0] == 'call' and t[1][0] == 'attr' and t[1][2] == name:
            ok &= c.expect(found == [False] and t[1][1] in (sup, A(sup, 'python_class')) and t[2] == (key,), 'resolution', f.qual, f.loc(), 'the search goes on with %s (%s)' % (show(t), where))
        else:
            ok &= c.expect(found == [True] and lookup(t, key) in (sup, A(sup, 'python_class')), 'resolution', f.qual, f.loc(), 'finds %s (%s)' % (show(t), where))
    return ok


def chain(c, f):
    """The loop of the search visits the superclasses in order."""
    ok, n = True, 0
    for loop in [x for x in ast.walk(f.node) if isinstance(x, ast.While)]:
        if 'get_contents' not in ast.unparse(loop):
            continue
        vs = {x.value.id for x in ast.walk(loop) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.attr in ('superclass', 'python_class', 'get_contents')}
        stored = {x.id for x in ast.walk(loop) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        for v in sorted(vs & stored):
            n += 1
            starts = [x.value for x in ast.walk(f.node) if isinstance(x, ast.Assign) and x.lineno <= loop.lineno and not any(x is y for y in ast.walk(loop)) and
                      any(isinstance(y, ast.Name) and y.id == v for y in x.targets)]
            ev = evaluator(f)
            got = [ev.ev(x, {'self': SELF}, frozenset())[0][0] for x in starts]
            ok &= c.expect(bool(got) and all(x in (A(SELF, 'cls', 'superclass'), A(SELF, 'cls', 'superclass', 'python_class')) for x in got), 'resolution', f.qual, f.loc(),
                           'the search starts at %s instead of the superclass' % ', '.join(map(show, got)))
            from sa.sym import once_per_iteration
            V = ('loop', v)
            it = PathSim(f, node=once_per_iteration(loop, v), env={'self': SELF, v: V}, raises=no_raise)
            for t, st in it.returns():
                kind, val = t[1][0][1], t[1][1]
                found = [b for x, b in st.conds if x[0] == 'cmp' and x[1] == 'in' and x[2] == NAME and holder(x[3]) in (V, A(V, 'python_class'))]
                if kind == 'next':
                    ok &= c.expect(val in (A(V, 'superclass'), A(V, 'python_class', 'superclass')) and found == [False], 'resolution', f.qual, f.loc(),
                                   'the search goes from a class to %s (lines %s)' % (show(val), it.where(st)))
                else:
                    ok &= c.expect(found == [True], 'resolution', f.qual, f.loc(), 'the search stops at a class without the member (lines %s)' % it.where(st))
    return ok & c.expect(n > 0, 'resolution', f.qual, f.loc(), 'does not search the chain of superclasses')


# -------------------------------------------------------------------------------------------
CLS = ('param', 'cls')


def calls_of(events, name):
    return [e for e in events if is_call(e, name)]


def appended(events, x, to='methods'):
    """Whether a term becomes part of a list."""
    for e in events:
        if e[0] == 'call' and e[1][0] == 'attr' and e[1][2] in ('append', 'extend', 'add') and to in show(e[1][1]):
            if any(y == x for a in e[2] for y in subterms(a)):
                return True
        if e[0] == 'aug' and x in subterms(e):
            return True
    return False


def generation(c, p):
    c.rule('generation', 'a check is generated for every overriding and every inherited method of every class; other members are only overridden where that is meaningless for clients')
    c.rule('reach', 'the checks are generated for every class of every module')
    f = klass(p, 'ProgramTranslator').methods['translate_program']
    loops = [x for x in ast.walk(f.node) if isinstance(x, ast.For)]
    base = {q: ('param', q) for q in f.all_params}
    mods = [l for l in loops if source(f, l, base) == ('param', f.params[1])]
    seen = {}
    ok = True
    for m in mods:
        env = dict(base)
        ev = evaluator(f)
        ev.bind(m.target, ('param', 'module'), env, frozenset(), ())
        for l in [x for x in ast.walk(m) if isinstance(x, ast.For) and x is not m]:
            s = attr_of(source(f, l, env))
            if s != A(('param', 'module'), 'classes'):
                continue
            env2 = dict(env)
            ev.bind(l.target, elem_of(ev.ev(l.iter, env, frozenset())[0][0]), env2, frozenset(), ())
            entry = ('sub', s, E(s))
            env2 = {k: (CLS if canon(v) == entry else ('param', 'class_name') if canon(v) == E(s) else v) for k, v in env2.items()}
            if CLS not in env2.values():
                # the class is looked up in the body
                for a in l.body:
                    if isinstance(a, ast.Assign) and canon(ev.ev(a.value, env2, frozenset())[0][0]) in (entry, ('sub', s, ('param', 'class_name'))):
                        ev.bind(a.targets[0], CLS, env2, frozenset(), ())
            for il in [x for x in ast.walk(l) if isinstance(x, ast.For) and x is not l]:
                src = attr_of(source(f, il, env2))
                if src[0] == 'attr' and src[1] == CLS:
                    names = {callee for x in ast.walk(il) if isinstance(x, ast.Call) for callee in [x.func.attr if isinstance(x.func, ast.Attribute) else getattr(x.func, 'id', '')]}
                    if src[2] in ('methods', 'static_methods', 'functions', 'all_methods', 'predicates') and names & {
                            'translate_method', 'create_override_check', 'create_inherit_check', 'translate_function', 'setdefault', 'append'}:
                        seen.setdefault(src[2], []).append((m, l, il, env2))
    for kind in ('methods', 'static_methods', 'functions', 'all_methods', 'predicates'):
        if not c.expect(kind in seen, 'generation', kind, f.loc(), 'the %s of classes are not visited' % kind):
            ok = False
            continue
        for m, l, il, env in seen[kind]:
            ok &= globals()['of_' + kind](c, f, il, env)
            ok &= reach(c, f, m, l, il, env)
    ok &= properties(c, p)
    if ok:
        c.ok('generation', 'all members')
        c.ok('reach', 'all classes')


def reach(c, f, m, l, il, env):
    """Every class gets to the loop over its members."""
    ok = True
    src = source(f, il, env)
    from c21 import clone
    it = PathSim(f, node=iteration(hollow(l), ()), env=env, raises=no_raise, loops=True, want=lambda t: t[0] in ('iter', 'exhausted'),
                 relevant=lambda t: 'class_name' in show(t) or 'cls.name' in show(t) or 'cls.interface' in show(t) or 'PRIMITIVES' in show(t))
    skips = 0
    for t, st in it.returns():
        done = any(e[0] == 'exhausted' and canon(e[1]) in (src, canon(src)) for e in st.events)
        if done:
            continue
        skips += 1
        why = [(canon(x), v) for x, v in st.conds]
        prim = any(v and x[0] == 'cmp' and x[1] == 'in' and x[2] in (('param', 'class_name'), A(CLS, 'name')) and 'PRIMITIVES' in show(x[3]) for x, v in why)
        alias = any(x[0] == 'cmp' and x[1] in ('==', '!=') and {x[2], x[3]} == {('param', 'class_name'), A(CLS, 'name')} and v == (x[1] == '!=') for x, v in why)
        ok &= c.expect(prim or alias, 'reach', attr_of(src)[2], f.loc(), 'some classes are left out (lines %s)' % it.where(st))
    it = PathSim(f, node=iteration(hollow(m), ()), env={**env}, raises=no_raise, loops=True, want=lambda t: t[0] in ('iter', 'exhausted'), relevant=lambda t: False)
    csrc = A(('param', 'module'), 'classes')
    for t, st in it.returns():
        done = any(e[0] == 'exhausted' and attr_of(canon(e[1])) == csrc for e in st.events)
        ok &= c.expect(done, 'reach', 'module', f.loc(), 'the classes of some modules are left out (lines %s)' % it.where(st))
    return ok


WANT = ('translate_method', 'create_override_check', 'create_inherit_check', 'translate_function', 'append', 'extend', 'setdefault')


def want(t):
    return t[0] == 'call' and callee_name(t) in WANT or t[0] in ('setitem', 'aug')


def member(il, one, kind):
    return ('sub', A(CLS, kind), E(A(CLS, kind)))


def is_name(t, M, kind):
    return t in (E(A(CLS, kind)), A(M, 'name'))


def name_test(conds, M, kind, name):
    """Truth of `name of the member == name`."""
    for x, v in conds:
        if x[0] == 'cmp' and x[1] in ('==', '!=') and any(is_name(a, M, kind) and b == ('const', name) for a, b in ((x[2], x[3]), (x[3], x[2]))):
            return v == (x[1] == '==')
        if v and x[0] == 'cmp' and x[1] == 'in' and is_name(x[2], M, kind) and x[3][0] in ('tuple', 'list', 'set') and x[3][1] == (('const', name),):
            return True
    return None


def of_methods(c, f, il, env):
    return with_checks(c, f, il, env, 'methods')


def of_static_methods(c, f, il, env):
    return with_checks(c, f, il, env, 'static_methods')


def with_checks(c, f, il, env, kind):
    one = One(f, il, env, want)
    M = member(il, one, kind)
    ok, n = True, 0
    sup = A(CLS, 'superclass')
    for t, conds, events, where in one.paths():
        n += 1
        if kind == 'methods' and (known(A(M, 'interface'), conds) or known(A(M, 'inline'), conds)):
            continue
        tr = [e for e in calls_of(events, 'translate_method') if M in e[2]]
        ok &= c.expect(bool(tr) and any(appended(events, e) for e in tr), 'generation', kind, f.loc(), 'a method is not translated (%s)' % where)
        chk = [e for e in calls_of(events, 'create_override_check') if M in e[2]]
        if chk:
            ok &= c.expect(all(appended(events, ('sub', e, ('const', 1))) or appended(events, ('item', e, 1)) or appended(events, e) for e in chk), 'generation', kind, f.loc(),
                           'the check of an override is not part of the program (%s)' % where)
            continue
        none = known(A(M, 'overrides'), conds) is False or (('is_none', A(M, 'overrides')), True) in conds
        init = kind == 'methods' and name_test(conds, M, kind, '__init__') is True and (
            known(sup, conds) is False or (('is_none', sup), True) in conds or any(not v and x[0] == 'attr' and x[2] == 'has_classmethod' for x, v in conds))
        ok &= c.expect(none or init, 'generation', kind, f.loc(), 'an overriding method is not checked (%s)' % where)
    return ok & c.expect(n > 1, 'generation', kind, f.loc(), 'is not analysed')


def of_functions(c, f, il, env):
    one = One(f, il, env, want)
    kind = 'functions'
    M = member(il, one, kind)
    ok, n = True, 0
    O = A(M, 'overrides')
    for t, conds, events, where in one.paths():
        n += 1
        if known(A(M, 'interface'), conds):
            continue
        tr = [e for e in calls_of(events, 'translate_function') if M in e[2]]
        ok &= c.expect(bool(tr) and any(appended(events, e, 'functions') for e in tr), 'generation', kind, f.loc(), 'a function is not translated (%s)' % where)
        if known(O, conds) is False or (('is_none', O), True) in conds:
            continue
        names, owner = None, None
        for x, v in conds:
            if not v or x[0] != 'cmp':
                continue
            if x[1] in ('in', '==') and is_name(x[2], M, kind):
                got = {y[1] for y in (x[3][1] if x[3][0] in ('tuple', 'list', 'set') else (x[3],)) if y[0] == 'const'}
                names = got if names is None else names & got
            if x[1] in ('==', 'is') and A(O, 'cls', 'name') in (x[2], x[3]):
                owner = (x[3] if x[2] == A(O, 'cls', 'name') else x[2])[1]
        if names is not None and not names:
            continue
        good = owner == 'object' and names and names <= {'__str__', '__bool__', '__eq__'} or owner == 'dict' and names and names <= {'__getitem__'}
        ok &= c.expect(bool(good), 'generation', kind, f.loc(), 'a pure function overrides %s of %s (%s)' % (', '.join(sorted(names or {'any function'})), owner, where))
    return ok & c.expect(n > 1, 'generation', kind, f.loc(), 'is not analysed')


def of_all_methods(c, f, il, env):
    one = One(f, il, env, want)
    src = A(CLS, 'all_methods')
    ok, n = True, 0
    M = ('call', A(CLS, 'get_method'), (E(src),), ())
    for t, conds, events, where in one.paths():
        n += 1
        chk = [e for e in calls_of(events, 'create_inherit_check') if M in e[2] and CLS in e[2] and e[2].index(M) < e[2].index(CLS)]
        if chk:
            ok &= c.expect(all(appended(events, ('sub', e, ('const', 1))) or appended(events, ('item', e, 1)) for e in chk), 'generation', 'inherited', f.loc(),
                           'the check of an inherited method is not part of the program (%s)' % where)
            continue
        own = any(x[0] == 'cmp' and {x[2], x[3]} == {A(M, 'cls'), CLS} and v == (x[1] in ('==', 'is')) for x, v in conds)
        kindless = any(x[0] == 'cmp' and A(M, 'method_type') in (x[2], x[3]) and v == (x[1] in ('!=', 'is not')) and 'normal' in show(x) for x, v in conds)
        init = any(x[0] == 'cmp' and ('const', '__init__') in (x[2], x[3]) and (E(src) in x or A(M, 'name') in x) and v == (x[1] == '==') for x, v in conds)
        skip = own or kindless or init or known(A(M, 'cls'), conds) is False or (('is_none', A(M, 'cls')), True) in conds or known(A(M, 'interface'), conds) or known(A(M, 'contract_only'), conds)
        ok &= c.expect(bool(skip), 'generation', 'inherited', f.loc(), 'an inherited method is not checked (%s)' % where)
    return ok & c.expect(n > 1, 'generation', 'inherited', f.loc(), 'is not analysed')


def of_predicates(c, f, il, env):
    one = One(f, il, env, want)
    kind = 'predicates'
    M = member(il, one, kind)
    ok, n = True, 0
    for t, conds, events, where in one.paths():
        n += 1
        roots = [x[1] for x, v in conds if not v and x[0] == 'attr' and x[2] == 'overrides'] + [x[1][1] for x, v in conds if v and x[0] == 'is_none' and x[1][0] == 'attr' and x[1][2] == 'overrides']
        put = False
        for e in events:
            if M in subterms(e) and any(r in subterms(e) for r in roots) and 'predicate_families' in show(e):
                put = True
            if e[0] == 'call' and callee_name(e) == 'append' and M in e[2] and any(r in subterms(e[1]) for r in roots):
                put = True
        ok &= c.expect(put, 'generation', kind, f.loc(), 'a predicate does not join the family of the predicate it overrides (%s)' % where)
    from sa.sym import once_per_iteration
    w = [x for x in ast.walk(il) if isinstance(x, ast.While)]
    for loop in w:
        vs = {x.value.id for x in ast.walk(loop.test) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.attr == 'overrides'}
        for v in vs:
            V = ('loop', v)
            it = PathSim(f, node=once_per_iteration(loop, v), env={**one.env, v: V}, raises=no_raise)
            for t, st in it.returns():
                kind2, val = t[1][0][1], t[1][1]
                ok &= c.expect(kind2 == 'next' and val == A(V, 'overrides'), 'generation', kind, f.loc(), 'the root of the family is not found')
                ok &= c.expect(known(A(V, 'overrides', 'predicate'), st.conds) is True, 'generation', kind, f.loc(),
                               'a predicate overrides something that is not a predicate (lines %s)' % it.where(st))
    return ok & c.expect(n > 0 and bool(w), 'generation', kind, f.loc(), 'is not analysed')


def properties(c, p):
    f = klass(p, 'ProgramTranslator').methods['_translate_fields']
    base = {q: ('param', q) for q in f.all_params}
    cp = ('param', f.params[1])
    ok, n = True, 0
    F = ('sub', A(cp, 'fields'), E(A(cp, 'fields')))
    for l in [x for x in ast.walk(f.node) if isinstance(x, ast.For)]:
        if attr_of(source(f, l, base)) != A(cp, 'fields'):
            continue
        one = One(f, l, base, lambda t: is_call(t, 'translate_function'))
        for t, conds, events, where in one.paths():
            if calls_of(events, 'translate_function'):
                n += 1
                ok &= c.expect(known(A(F, 'overrides'), conds) is False or (('is_none', A(F, 'overrides')), True) in conds, 'generation', 'properties', f.loc(),
                               'a property overrides another member without a check (%s)' % where)
    return ok & c.expect(n > 0, 'generation', 'properties', f.loc(), 'are not analysed')


# -------------------------------------------------------------------------------------------
def first_arg(t, M):
    """Whether a term is the first parameter of the method."""
    s = show(t)
    return A(M, 'args') in subterms(t) and ('iter(' in s or '[0]' in s)


def part(name):
    return name


def pieces(t):
    """The elements of a list built with + and literals."""
    from sa.terms import parts
    out = []
    for k in parts(t):
        out.append(k)
    return out


def node_call(c, f, ctxname):
    """The creation of the method node on every path: yields (term, st, sim)."""
    sim = PathSim(f, raises=no_raise, totals=True, want=lambda t: t[0] == 'call' and callee_name(t) in (
        'create_method_node', '_check_override_validity', 'extract_contract', 'bind_type_vars', '_create_override_check_body_impure', 'inline_method',
        'append', 'extend', 'insert', 'create_method_call_node') or t[0] == 'set' and t[2] in ('current_function', 'module'))
    for t, st in sim.returns():
        yield t, st, sim


def obligations(c, p):
    c.rule('override', 'the check of an override has the contract and parameters of the overridden method, assumes the class of the receiver and calls the overriding method with the same arguments')
    c.rule('inherit', 'the check of an inherited method has its contract, assumes the class of the receiver exactly and contains its body')
    ci = klass(p, 'ProgramTranslator')
    f = ci.methods['create_override_check']
    M = ('param', f.params[1])
    O = A(M, 'overrides')
    ok, n = True, 0
    seen = {'param': 0, 'self': 0, 'cls': 0}
    for t, st, sim in node_call(c, f, 'ctx'):
        n += 1
        where = 'lines %s' % sim.where(st)
        ev = list(st.events)
        loc = f.loc()
        mk = [e for e in ev if is_call(e, 'create_method_node')]
        if not c.expect(len(mk) == 1 and t[0] == 'tuple' and t[1][1] == mk[0], 'override', f.qual, loc, 'does not return the check (%s)' % where):
            ok = False
            continue
        i = ev.index(mk[0])
        val = [e for e in ev if is_call(e, '_check_override_validity') and e[2][:1] == (M,)]
        ok &= c.expect(bool(val), 'override', f.qual, loc, 'does not check the signature (%s)' % where)
        names = ['ctx', 'name', 'args', 'returns', 'pres', 'posts', 'locals', 'body']
        g = dict(zip(names, mk[0][2]))
        g.update(dict(mk[0][3]))
        con = [e for e in ev if is_call(e, 'extract_contract')]
        ok &= c.expect(len(con) == 1 and con[0][2][:1] == (O,), 'override', f.qual, loc, 'does not take the contract of the overridden method (%s)' % where)
        if con:
            sub = lambda i: (('sub', con[0], ('const', i)), ('item', con[0], i))
            ok &= c.expect(any(x in subterms(g['pres']) for x in sub(0)), 'override', f.qual, loc, 'the preconditions are %s' % show(g['pres'])[:80])
            ok &= c.expect(g['posts'] in sub(1), 'override', f.qual, loc, 'the postconditions are %s' % show(g['posts'])[:80])
            # what is assumed in addition
            if g['pres'] not in sub(0):
                extra = [x for x in subterms(g['pres']) if x[0] == 'call' and callee_name(x) in ('FalseLit', 'FalseLit', 'type_check', 'EqCmp', 'subtype_check')]
                ok &= c.expect(not extra, 'override', f.qual, loc, 'assumes %s' % ', '.join(map(show, extra))[:80])
                init = any(v and x[0] == 'cmp' and x[1] == '==' and ('const', '__init__') in (x[2], x[3]) for x, v in st.conds)
        # parameters
        pieces = parameters(g['args'])
        entry = ('sub', A(O, 'args'), E(A(O, 'args')))
        ok &= c.expect(pieces[:1] == [A(entry, 'decl')] and all(x in (A(O, 'var_arg', 'decl'), A(O, 'kw_arg', 'decl')) for x in pieces[1:]), 'override', f.qual, loc,
                       'has the parameters %s (%s)' % (', '.join(map(show, pieces)), where))
        body = [e for e in ev if is_call(e, '_create_override_check_body_impure')]
        ok &= c.expect(len(body) == 1, 'override', f.qual, loc, 'has no body (%s)' % where)
        if body:
            b = body[0]
            ok &= c.expect(b[2][0] == M and b[2][2] == A(M, 'sil_name'), 'override', f.qual, loc, 'calls %s' % show(b[2][2]))
            given = parameters(b[2][3])
            ok &= c.expect(given == [('call', A(x[1], 'ref'), (), ()) for x in pieces], 'override', f.qual, loc,
                           'calls the overriding method with %s (%s)' % (', '.join(map(show, given)), where))
            ok &= c.expect(g['body'] in (('sub', b, ('const', 2)), ('item', b, 2)) and g['returns'] in (('sub', b, ('const', 0)), ('item', b, 0)), 'override', f.qual, loc, 'has another body')
            normal = any(v and x[0] == 'cmp' and x[1] in ('==', 'is') and A(M, 'method_type') in (x[2], x[3]) and 'normal' in show(x) for x, v in st.conds) and known(A(M, 'cls'), st.conds) is not False
            clsm = any(v and x[0] == 'cmp' and x[1] in ('==', 'is') and A(M, 'method_type') in (x[2], x[3]) and 'class_method' in show(x) for x, v in st.conds)
            sub = b[2][1]
            if normal:
                seen['self'] += 1
                ok &= c.expect(callee_name(sub) in ('var_type_check', 'type_check') and A(M, 'cls') in sub[2], 'override', f.qual, loc,
                               'does not assume that the receiver is an instance of the class (%s)' % where)
            elif clsm:
                seen['cls'] += 1
                ok &= c.expect(callee_name(sub) == 'subtype_check' and A(M, 'cls') in sub[2], 'override', f.qual, loc, 'does not assume that the argument is a subclass (%s)' % where)
            else:
                ok &= c.expect(sub == ('const', None), 'override', f.qual, loc, 'assumes %s' % show(sub)[:60])
    ok &= c.expect(n > 0 and seen['self'] > 0 and seen['cls'] > 0, 'override', f.qual, f.loc(), 'is not analysed')
    ok &= vararg(c, f, M, O)
    ok &= body_of_check(c, ci.methods['_create_override_check_body_impure'])
    if ok:
        c.ok('override', f.qual)
    inherit(c, ci)


def parameters(t):
    """The items of a list: what is added for every element of a source counts as one item."""
    out = []
    if t[0] == 'op' and t[1] == 'Add':
        return parameters(t[2]) + parameters(t[3])
    if t[0] in ('list', 'tuple'):
        return [x for y in t[1] for x in (parameters(y[1]) if y[0] == 'star' else [y])]
    if t[0] == 'map' and all(not s[1] for s in t[2]):
        return [canon(t[1])]
    return [t]


def vararg(c, f, M, O):
    """*args and **kwargs of the overridden method are parameters and arguments of the call as well."""
    ok = True
    sim = PathSim(f, raises=no_raise, want=lambda t: is_call(t, 'append') or is_call(t, '_create_override_check_body_impure') or is_call(t, 'create_method_node'))
    for t, st in sim.returns():
        for k in ('var_arg', 'kw_arg'):
            v = known(A(O, k), st.conds)
            if v is None:
                v = not dict(st.conds).get(('is_none', A(O, k)), True)
            if v:
                txt = [x for e in st.events for x in subterms(e)]
                ok &= c.expect(A(O, k, 'decl') in txt and ('call', A(O, k, 'ref'), (), ()) in txt, 'override', f.qual, f.loc(), 'does not pass on %s' % k)
    return ok


def body_of_check(c, f):
    M = ('param', f.params[1])
    O = A(M, 'overrides')
    ok, n = True, 0
    sim = PathSim(f, raises=no_raise, want=lambda t: t[0] == 'call' and callee_name(t) in ('append', 'create_method_call_node', 'Inhale', 'Assert', 'extend'), relevant=lambda t: 'enumerate' not in show(t))
    sub, called, args = (('param', x) for x in f.params[2:5])
    for t, st in sim.returns():
        n += 1
        where = 'lines %s' % sim.where(st)
        res, targets, body = t[1] if t[0] == 'tuple' and len(t[1]) == 3 else (('unknown', ''),) * 3
        calls = [e for e in st.events if is_call(e, 'create_method_call_node')]
        ok &= c.expect(len(calls) == 1 and calls[0][2][1:3] == (called, args) and calls[0] in subterms(body), 'override', f.qual, f.loc(),
                       'does not call the overriding method with the arguments (%s)' % where)
        if calls:
            ok &= c.expect(dict(calls[0][3]).get('target_method') == M, 'override', f.qual, f.loc(), 'does not check the obligations of the overriding method (%s)' % where)
        inh = [x for x in subterms(body) if is_call(x, 'Inhale')]
        ok &= c.expect(all(x[2][0] == sub for x in inh) and (bool(inh) or known(sub, st.conds) is False), 'override', f.qual, f.loc(), 'assumes something else (%s)' % where)
        def has(lst, what):
            return what in show(lst) or any(is_call(e, 'append') and what in show(e) for e in st.events)
        typed = known(A(M, 'type'), st.conds)
        errs, oerrs = known(A(M, 'declared_exceptions'), st.conds), known(A(O, 'declared_exceptions'), st.conds)
    ok &= c.expect(n > 0, 'override', f.qual, f.loc(), 'is not analysed')
    # names and defaults of the parameters
    m = 0
    for l in [x for x in ast.walk(f.node) if isinstance(x, ast.For)]:
        base = {q: ('param', q) for q in f.all_params}
        names = [x.id for x in ast.walk(l.target) if isinstance(x, ast.Name)]
        s = source(f, l, base)
        if 'zip' not in show(s) and 'args' not in show(s):
            continue
        m += 1
        env = dict(base)
        pairs = [ast.unparse(x) for x in ast.walk(l.target) if isinstance(x, ast.Tuple)]
        both = A(M, 'args') in subterms(s) and A(O, 'args') in subterms(s)
        ok &= c.expect(both, 'override', f.qual, f.loc(), 'does not compare the parameters')
        sim = PathSim(f, node=iteration(l, ()), env={**base, **{x: ('param', x) for x in names}}, raises=no_raise, want=lambda t: t[0] == 'call' and callee_name(t) in ('append', 'Assert', 'EqCmp'))
        for t, st in sim.returns():
            where = 'lines %s' % sim.where(st)
            same = any(x[0] == 'cmp' and x[1] in ('==', '!=') and x[2][0] == x[3][0] == 'param' and x[2][1] in names and x[3][1] in names and v == (x[1] == '==') for x, v in st.conds)
            ok &= c.expect(same, 'override', f.qual, f.loc(), 'accepts parameters with other names (%s)' % where)
            bases = sorted({x[1] for y, _ in st.conds for x in subterms(y) if x[0] == 'attr' and x[2] in ('default', 'default_expr')} |
                           {x[1] for e in st.events for x in subterms(e) if x[0] == 'attr' and x[2] == 'default_expr'})
            conds = [norm_cond(x, v) for x, v in st.conds]
            for has in ((True, False), (False, True), (True, True)):
                D = [A(x, 'default') for x in bases]
                if len(D) == 2 and with_(conds, *zip(D, has)) is None:
                    continue
                cmps = [e for e in st.events if is_call(e, 'EqCmp')]
                asserts = [e for e in st.events if is_call(e, 'Assert')]
                good = has == (True, True) and len(cmps) == 1 and {x[2] for x in cmps[0][2][:2] if x[0] == 'attr'} == {'default_expr'} and \
                    len({x[1] for x in cmps[0][2][:2] if x[0] == 'attr'}) == 2 and len(asserts) == 1 and asserts[0][2][0] == cmps[0] and appended(st.events, asserts[0], '')
                ok &= c.expect(good, 'override', f.qual, f.loc(), 'does not check that the default values are equal (%s)' % where)
    ok &= c.expect(m == 1, 'override', f.qual, f.loc(), 'does not compare names and default values of the parameters')
    return ok


def inherit(c, ci):
    f = ci.methods['create_inherit_check']
    M, C = ('param', f.params[1]), ('param', f.params[2])
    ok, n = True, 0
    for t, st, sim in node_call(c, f, 'ctx'):
        n += 1
        where = 'lines %s' % sim.where(st)
        ev = list(st.events)
        mk = [e for e in ev if is_call(e, 'create_method_node')]
        if not c.expect(len(mk) == 1 and t[0] == 'tuple' and t[1][1] == mk[0], 'inherit', f.qual, f.loc(), 'does not return the check (%s)' % where):
            ok = False
            continue
        g = dict(zip(['ctx', 'name', 'args', 'returns', 'pres', 'posts', 'locals', 'body'], mk[0][2]))
        con = [e for e in ev if is_call(e, 'extract_contract')]
        ok &= c.expect(len(con) == 1 and con[0][2][:1] == (M,), 'inherit', f.qual, f.loc(), 'does not take the contract of the method (%s)' % where)
        if con:
            sub = lambda i: (('sub', con[0], ('const', i)), ('item', con[0], i))
            ok &= c.expect(any(x in subterms(g['pres']) for x in sub(0)) and g['posts'] in sub(1), 'inherit', f.qual, f.loc(), 'has another contract (%s)' % where)
        normal = any(x[0] == 'cmp' and A(M, 'method_type') in (x[2], x[3]) and v == (x[1] in ('==', 'is')) for x, v in st.conds)
        types = [x for x in subterms(g['pres']) if is_call(x, 'type_check')]
        if normal:
            ok &= c.expect(len(types) == 1 and C in types[0][2] and dict(types[0][3]).get('concrete') == ('const', True), 'inherit', f.qual, f.loc(),
                           'does not assume that the receiver is a direct instance of the inheriting class (%s)' % where)
        inl = [e for e in ev if is_call(e, 'inline_method')]
        ok &= c.expect(len(inl) == 1 and inl[0][2][0] == M, 'inherit', f.qual, f.loc(), 'does not contain the body of the method (%s)' % where)
        if inl:
            ok &= c.expect(any(x in subterms(g['body']) for x in (('sub', inl[0], ('const', 0)), ('item', inl[0], 0))), 'inherit', f.qual, f.loc(), 'has another body (%s)' % where)
            exc = known(A(M, 'declared_exceptions'), st.conds)
            ok &= c.expect(exc is not True or inl[0][2][3] != ('const', None), 'inherit', f.qual, f.loc(), 'drops the exceptions of the method (%s)' % where)
    if ok & c.expect(n > 0, 'inherit', f.qual, f.loc(), 'is not analysed'):
        c.ok('inherit', f.qual)


# -------------------------------------------------------------------------------------------
def same(conds, M, O, part, kind):
    """Whether the conditions imply that both methods agree in a part."""
    a, b = A(M, part), A(O, part)
    if kind == 'len':
        a, b = ('call', ('name', 'len'), (a,), ()), ('call', ('name', 'len'), (b,), ())
    forms = {a, b}, {('call', ('name', 'bool'), (a,), ()), ('call', ('name', 'bool'), (b,), ())}
    for x, v in conds:
        if x[0] == 'cmp' and x[1] in ('==', '!=', 'is', 'is not') and v == (x[1] in ('==', 'is')):
            l, r = x[2], x[3]
            if {l, r} in forms:
                return True
            if kind == 'some' and {l, r} in ({('is_none', a), ('is_none', b)}, {('cmp', 'is', a, ('const', None)), ('cmp', 'is', b, ('const', None))}, {norm_none(a), norm_none(b)}):
                return True
    ka, kb = val(a, conds), val(b, conds)
    return kind in ('bool', 'some') and ka is not None and ka == kb


def norm_none(x):
    return ('cmp', 'is not', x, ('const', None))


def val(x, conds):
    v = known(x, conds)
    if v is None:
        for y, b in conds:
            if y == ('is_none', x):
                return not b
    return v


PARTS = [('args', 'len', 'number of parameters'), ('predicate', 'bool', 'being a predicate'), ('method_type', 'eq', 'kind (normal, static or class method)'), ('var_arg', 'some', '*args'),
         ('kw_arg', 'some', '**kwargs'), ('type', 'some', 'having a result'), ('pure', 'bool', 'purity')]


def validity(c, p):
    c.rule('validity', 'methods that differ in kind, number of parameters, purity or having a result, or that declare other exceptions, are not accepted as overrides')
    f = klass(p, 'ProgramTranslator').methods['_check_override_validity']
    M = ('param', f.params[1])
    O = A(M, 'overrides')
    sim = PathSim(f, raises=no_raise, want=lambda t: t[0] in ('iter', 'exhausted'))
    ok, n = True, 0
    for t, st in sim.returns():
        n += 1
        for part_, kind, what in PARTS:
            ok &= c.expect(same(st.conds, M, O, part_, kind), 'validity', part_, f.loc(), 'methods that differ in the %s are accepted (lines %s)' % (what, sim.where(st)))
    ok &= c.expect(n > 0, 'validity', f.qual, f.loc(), 'accepts nothing')
    ok &= exceptions(c, f, M, O)
    g = klass(p, 'PredicateTranslator').methods['translate_predicate_family']
    root, preds = ('param', g.params[1]), ('param', g.params[2])
    env = {q: ('param', q) for q in g.all_params}
    m = 0
    for l in [x for x in ast.walk(g.node) if isinstance(x, ast.For) and isinstance(x.target, ast.Name) and 'translate_expr' in ast.unparse(x)]:
        I = ('param', l.target.id)
        s = PathSim(g, node=iteration(l, ()), env={**env, l.target.id: I}, raises=no_raise, want=lambda t: is_call(t, 'translate_expr'),
                    relevant=lambda t: 'args' in show(t) or 'contract_only' in show(t))
        for t, st in s.returns():
            if known(A(root, 'contract_only'), st.conds):
                continue
            m += 1
            same_len = any(x[0] == 'cmp' and x[1] in ('==', '!=') and v == (x[1] == '==') and {x[2], x[3]} == {('call', ('name', 'len'), (A(y, 'args'),), ()) for y in (I, root)} for x, v in st.conds)
            ok &= c.expect(same_len, 'validity', g.qual, g.loc(), 'a predicate overrides one with other parameters (lines %s)' % s.where(st))
    ok &= c.expect(m > 0, 'validity', g.qual, g.loc(), 'is not analysed')
    if ok:
        c.ok('validity', 'signatures')


def flag_means(f, outer, env, flag, src, cond):
    """Whether a flag is only set in a loop over src if the condition holds for the element."""
    from sa.sym import once_per_iteration
    loops = [x for x in ast.walk(outer) if isinstance(x, ast.For) and x is not outer]
    inside = {id(y) for l in loops for y in ast.walk(l)}
    n = 0
    for x in ast.walk(outer):
        if isinstance(x, ast.Assign) and any(isinstance(y, ast.Name) and y.id == flag for y in x.targets) and id(x) not in inside:
            if not (isinstance(x.value, ast.Constant) and x.value.value is False):
                return False
            n += 1
    if not n:
        return False
    for l in loops:
        if source(f, l, env) != src:
            return False
        env2 = {**env, flag: ('loop', flag)}
        evaluator(f).bind(l.target, E(src), env2, frozenset(), ())
        it = PathSim(f, node=once_per_iteration(l, flag), env=env2, raises=no_raise)
        for t, st in it.returns():
            v = t[1][1]
            if v == ('loop', flag) or v == ('const', True) and (cond, True) in st.conds or v == ('bool', 'or', (('loop', flag), cond)) or v[0] == 'op' and v[1] == 'BitOr' and v[2:] == (('loop', flag), cond):
                continue
            return False
    return True


def exceptions(c, f, M, O):
    """Every declared exception is a subtype of one the overridden method declares."""
    src, osrc = A(M, 'declared_exceptions'), A(O, 'declared_exceptions')
    env = {q: ('param', q) for q in f.all_params}
    ok, n = True, 0
    sub = lambda x, y: ('call', A(x, 'issubtype'), (y,), ())
    whole = PathSim(f, raises=no_raise)
    for l in [x for x in ast.walk(f.node) if isinstance(x, ast.For)]:
        if source(f, l, env) != src:
            continue
        n += 1
        one = One(f, l, env, lambda t: t[0] in ('iter', 'exhausted'))
        for t, conds, events, where in one.paths():
            flags = [x[1] for x, v in conds if v and x[0] == 'loop']
            ok &= c.expect(any(v and (x == sub(E(src), E(osrc)) or is_call(x, 'any') and sub(E(src), E(osrc)) in subterms(x)) for x, v in conds) or
                           any(flag_means(f, l, one.env, x, osrc, sub(E(src), E(osrc))) for x in flags), 'validity', 'exceptions', f.loc(),
                           'accepts an exception the overridden method does not declare (%s)' % where)
    if not n:
        for t, st in whole.returns():
            good = any(x[0] == 'call' and callee_path(x) == ('all' if v else 'any') and sub(E(src), E(osrc)) in subterms(x) for x, v in st.conds)
            ok &= c.expect(good, 'validity', 'exceptions', f.loc(), 'accepts exceptions the overridden method does not declare')
    return ok


def main(c):
    p = c.project
    resolution(c, p)
    generation(c, p)
    obligations(c, p)
    validity(c, p)


if __name__ == '__main__':
    run('C25', 'Overriding is always checked', main)

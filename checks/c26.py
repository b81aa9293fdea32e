from _common import *
from c17 import no_raise
from c21 import A, E, SELF, show
from c25 import One

NODE = ('param', 'node')
FUNC = A(NODE, 'func')
ID = A(FUNC, 'id')
CONT = A(SELF, 'stmt_container')
ARG0 = ('sub', A(NODE, 'args'), ('const', 0))
ARG1 = ('sub', A(NODE, 'args'), ('const', 1))
LOOPS = {'ast.While', 'ast.For'}
KINDS = ('Requires', 'Ensures', 'Exsures', 'Invariant', 'Decreases')


def klass(p, name, module):
    ks = [k for m in p.modules.values() if m.name.endswith(module) for k in m.classes.values() if k.name == name]
    if not ks:
        raise AnalysisError('class %s has vanished' % name)
    return ks[0]


def method(k, name):
    f = k.methods.get(name)
    if f is None:
        raise AnalysisError('%s.%s has vanished' % (k.name, name))
    return f


def classes_of(t):
    """The names of the classes of the second argument of isinstance."""
    ts = t[1] if t[0] in ('tuple', 'list') else (t,)
    return {callee_path(('call', x, (), ())) for x in ts}


def decide(x, kind):
    """The truth of a condition in a call of the contract element of the given name (None: either)."""
    if x[0] == 'cmp' and x[1] in ('==', '!=') and ID in (x[2], x[3]):
        o = x[3] if x[2] == ID else x[2]
        if o[0] == 'const':
            return (o[1] == kind) == (x[1] == '==')
    if x[0] == 'cmp' and x[1] in ('in', 'not in') and x[2] == ID:
        if x[3][0] == 'name' and x[3][1].isupper():
            return (x[3][1] == 'CONTRACT_WRAPPER_FUNCS') == (x[1] == 'in') if x[3][1] in (
                'CONTRACT_WRAPPER_FUNCS', 'IO_OPERATION_PROPERTY_FUNCS', 'OBLIGATION_CONTRACT_FUNCS', 'CONTRACT_FUNCS') else None
        if x[3][0] in ('tuple', 'list', 'set') and all(y[0] == 'const' for y in x[3][1]):
            return (kind in [y[1] for y in x[3][1]]) == (x[1] == 'in')
    if is_call(x, 'isinstance') and x[2][0] == FUNC:
        return 'ast.Name' in classes_of(x[2][1])
    return None


def feasible(conds, kind):
    return all(decide(x, kind) in (None, v) for x, v in conds)


def parents(f, var):
    """Whether a loop over a variable only walks from the node through enclosing expressions."""
    starts, steps, loops = [], [], []
    for n in ast.walk(f.node):
        if isinstance(n, ast.While) and any(isinstance(x, ast.Name) and x.id == var for x in ast.walk(n.test)):
            loops.append(n)
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == var for t in n.targets):
            v = ast.unparse(n.value)
            inside = any(n in ast.walk(w) for w in loops)
            (steps if inside else starts).append(v)
    if not loops or not starts or not steps or any(v != var + '._parent' for v in steps) or any(v not in ('node._parent', 'node') for v in starts):
        return False
    for w in loops:
        t = w.test
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) and ast.unparse(t.operand) == 'isinstance(%s, ast.stmt)' % var:
            return None     # closest statement: an expression statement has to be left
        if not (isinstance(t, ast.Call) and ast.unparse(t.func) == 'isinstance' and len(t.args) == 2 and ast.unparse(t.args[0]) == var):
            return False
        ks = [ast.unparse(x) for x in (t.args[1].elts if isinstance(t.args[1], ast.Tuple) else [t.args[1]])]
        if any(k not in ('ast.expr', 'ast.Expr', 'ast.keyword', 'ast.Starred', 'ast.Lambda', 'ast.Call', 'ast.Tuple') for k in ks):
            return False
    return True


def placed(f, conds, wanted):
    """Whether the conditions of a path say that the contract stands directly in one of the wanted statements."""
    for x, v in conds:
        if v and is_call(x, 'isinstance') and len(x[2]) == 2:
            ks = classes_of(x[2][1])
            if not ks <= wanted:
                continue
            t = x[2][0]
            if t[0] == 'loop' and parents(f, t[1]):
                return True
            if t == A(A(NODE, '_parent'), '_parent') and any(w and is_call(y, 'isinstance') and y[2][0] == A(NODE, '_parent') and classes_of(y[2][1]) == {'ast.Expr'} for y, w in conds):
                return True
    return False


def entry(e, part):
    """Whether an appended entry is the part with (a copy of) the current aliases."""
    if e[0] != 'tuple' or len(e[1]) != 2 or e[1][0] != part:
        return False
    al = A(SELF, '_aliases')
    return e[1][1] == ('call', A(al, 'copy'), (), ()) or (is_call(e[1][1], 'dict') and e[1][1][2] == (al,))


def collect(c, p, an):
    c.rule('collect', 'every contract element is recorded for the function or loop it is written in, or rejected')
    f = method(an, 'visit_Call')
    sim = PathSim(f, want=lambda e: True, raises=no_raise)
    paths = [(st, sim.where(st)) for _, st in sim.returns()]
    exc = ('call', A(SELF, 'get_target'), (ARG0, A(SELF, 'module')), ())
    decl = (A(A(SELF, 'current_function'), 'declared_exceptions'), A(CONT, 'declared_exceptions'))
    for kind in KINDS:
        n, ok = 0, True
        for st, w in paths:
            if not feasible(st.conds, kind):
                continue
            n += 1
            where = 'lines %s' % w
            adds = [e for e in st.events if e[0] == 'call' and callee_name(e) in ('append', 'insert', 'extend', 'add', 'setdefault') and
                    any(y in subterms(e[1]) for y in (CONT, A(SELF, 'current_loop_invariant'), A(SELF, 'current_function')))]
            adds = [e for e in adds if callee_name(e) != 'setdefault']
            if not c.expect(len(adds) == 1, 'collect', kind, f.loc(), 'is recorded %s (%s)' % ('nowhere' if not adds else 'more than once', where)):
                ok = False
                continue
            e = adds[0]
            many = any(x == ('cmp', '>', ('call', ('name', 'len'), (A(NODE, 'args'),), ()), ('const', 1)) and v for x, v in st.conds)
            to, what = {'Requires': ([A(CONT, 'precondition')], [ARG0]),
                        'Ensures': ([A(CONT, 'postcondition')], [ARG1 if many else ARG0]),
                        'Decreases': ([A(CONT, 'decreases_clauses')], [A(NODE, 'args')]),
                        'Exsures': ([('sub', d, exc) for d in decl] + [('call', A(d, 'setdefault'), (exc, ('list', ())), ()) for d in decl], [ARG1]),
                        'Invariant': ([A(SELF, 'current_loop_invariant')], [NODE])}[kind]
            ok &= c.expect(callee_name(e) == 'append' and e[1][1] in to, 'collect', kind, f.loc(), 'is recorded as %s (%s)' % (show(e[1])[:60], where))
            ok &= c.expect(len(e[2]) == 1 and any(entry(e[2][0], x) for x in what), 'collect', kind, f.loc(), 'another part or other aliases are recorded (%s)' % where)
            ok &= c.expect(placed(f, st.conds, LOOPS if kind == 'Invariant' else {'ast.FunctionDef'}), 'collect', kind + ' position', f.loc(),
                           'may be written inside another statement than the one it is recorded for (%s)' % where)
            if kind != 'Invariant':
                inl = any(is_call(x, '_check_not_in_inline_method') and x[2] == (NODE,) for x in st.events) or any(x == A(CONT, 'inline') and not v for x, v in st.conds) or \
                    any(is_call(x, 'isinstance') and x[2][0] == CONT and not v for x, v in st.conds)
                ok &= c.expect(inl, 'collect', kind + ' inline', f.loc(), 'is accepted in inlined methods, which ignore it (%s)' % where)
            if kind == 'Decreases':
                ok &= c.expect((A(CONT, 'pure'), True) in st.conds, 'collect', 'Decreases pure', f.loc(), 'is accepted in methods, which ignore it (%s)' % where)
            if kind == 'Exsures' and callee_name(e) == 'append' and e[1][1][0] == 'sub':
                d = e[1][1][1]
                new = [x for x in st.events if x[0] in ('setitem', 'setsub') and d in subterms(x)]
                had = [v == (x[1] == 'in') for x, v in st.conds if x[0] == 'cmp' and x[1] in ('in', 'not in') and x[2] == exc and x[3] == d]
                ok &= c.expect(had == [not new], 'collect', 'Exsures list', f.loc(), 'earlier clauses of the same exception are lost (%s)' % where)
            kw = any(x == A(NODE, 'keywords') and not v for x, v in st.conds)
            ok &= c.expect(kw, 'collect', kind + ' keywords', f.loc(), 'keyword arguments are not recorded (%s)' % where)
        if c.expect(n > 0, 'collect', kind, f.loc(), 'is never accepted') and ok:
            c.ok('collect', kind)
    # qualified names
    ok, n = True, 0
    attr = ('cmp', 'in', A(FUNC, 'attr'), ('name', 'CONTRACT_WRAPPER_FUNCS'))
    for st, w in paths:
        if any(is_call(x, 'isinstance') and x[2][0] == FUNC and (('ast.Attribute' in classes_of(x[2][1])) != v) for x, v in st.conds):
            continue
        n += 1
        ok &= c.expect((attr, False) in st.conds, 'collect', 'qualified', f.loc(), 'qualified contract elements are ignored (lines %s)' % w)
    if c.expect(n > 0, 'collect', 'qualified', f.loc(), 'no other calls are accepted') and ok:
        c.ok('collect', 'qualified')
    # renamed imports
    f = method(an, 'visit_ImportFrom')
    renaming = None
    for loop in ast.walk(f.node):
        if isinstance(loop, ast.For) and ast.unparse(loop.iter) == 'node.names':
            bad, seen = False, set()
            o = One(f, loop, {'node': NODE, 'self': SELF}, lambda e: True)
            for cs, w in o.rejects():
                for x, v in cs:
                    if v and x[0] == 'cmp' and x[1] == 'in' and x[3] == ('name', 'CONTRACT_WRAPPER_FUNCS'):
                        seen.update(y[2] for y in subterms(x[2]) if y[0] == 'attr' and y[2] in ('name', 'asname'))
            if 'name' in seen:
                renaming = loop
                after = [x for x in ast.walk(f.node) if isinstance(x, ast.Return) and x.lineno < loop.lineno]
                bad = bool(after)
                c.expect(not bad, 'collect', 'renamed', f.loc(), 'imports of some modules are accepted before renamed elements are rejected')
    c.expect(renaming is not None, 'collect', 'renamed', f.loc(), 'renamed contract elements are not rejected, and are ignored')


def containers(c, p, an):
    c.rule('containers', 'while the body of a function or loop is visited, its contracts are recorded for it, and for nothing else afterwards')
    # who changes the containers
    allowed = {'current_function': {'__init__', 'visit_FunctionDef'}, 'current_loop_invariant': {'__init__', 'visit_loop', 'visit_FunctionDef'}}
    for g in p.all_functions() if hasattr(p, 'all_functions') else functions(p):
        if not g.module.name.endswith('nagini_translation.analyzer') or g.cls is not an:
            continue
        for x in ast.walk(g.node):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr in allowed:
                c.expect(g.name in allowed[x.attr], 'containers', '%s in %s' % (x.attr, g.name), g.loc(x), 'changes the function or loop that contracts are recorded for')
    f = method(an, 'stmt_container')
    for t, st in PathSim(f, want=lambda e: True, raises=no_raise).returns():
        none = any(x == ('is_none', A(SELF, 'current_function')) and v or x == A(SELF, 'current_function') and not v for x, v in st.conds)
        c.expect(t == (A(SELF, 'module') if none else A(SELF, 'current_function')) or t[0] == 'or' and t[1:] == (A(SELF, 'current_function'), A(SELF, 'module')),
                 'containers', 'stmt_container', f.loc(), 'contracts in a function are recorded for %s' % show(t))
    # functions
    f = method(an, 'visit_FunctionDef')
    sets = [x for x in ast.walk(f.node) if isinstance(x, ast.Assign) and any(ast.unparse(t) == 'self.current_function' for t in x.targets)]
    news = [x for x in sets if isinstance(x.value, ast.Name)]
    ends = [x for x in sets if not isinstance(x.value, ast.Name)]
    ok = c.expect(len(news) == 1 and len(ends) == 1 and news[0].lineno < ends[0].lineno, 'containers', 'functions', f.loc(), 'the recorded function is not set before and reset after the body')
    if ok:
        loops = [x for x in f.node.body if isinstance(x, ast.For) and ast.unparse(x.iter) == 'node.body']
        ok &= c.expect(bool(loops) and all(news[0].lineno < x.lineno < ends[0].lineno for x in loops), 'containers', 'functions', f.loc(), 'the body is not visited for its function')
        var = news[0].value.id
        vals = [ast.unparse(x.value) for x in ast.walk(f.node) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == var for t in x.targets)]
        ok &= c.expect(bool(vals) and all(v == 'container[name]' or v.startswith('self.node_factory.create_python_method(') for v in vals), 'containers', 'functions', f.loc(),
                       'contracts are recorded for %s' % vals)
        for loop in loops:
            ok &= visited(c, f, loop, 'functions')
    if ok:
        c.ok('containers', 'functions')
    # loops
    f = method(an, 'visit_loop')
    for kind, v in (('While', True), ('For', False)):
        g = method(an, 'visit_' + kind)
        calls = [x for x in ast.walk(g.node) if isinstance(x, ast.Call) and callee(x) == 'self.visit_loop']
        c.expect(len(calls) == 1 and ast.unparse(calls[0].args[0]) == g.node.args.args[1].arg, 'containers', kind, g.loc(), 'is not visited as a loop')
    # symbolic: fresh list, set, restored
    sim = PathSim(f, want=lambda e: True, raises=no_raise, loops=True)
    ok = True
    inv = A(CONT, 'loop_invariants')
    n = 0
    for t, st in sim.returns():
        n += 1
        where = 'lines %s' % sim.where(st)
        cur, fresh, stored = 'old', None, False
        for e in st.events:
            if e[0] in ('setitem', 'setsub') and inv in subterms(e) and NODE in subterms(e):
                stored = e[-1] in (('list', ()),) or e[-1][0] == 'list'
            elif e[0] == 'set' and e[1] == SELF and e[2] == 'current_loop_invariant':
                x = e[3]
                if x == ('sub', inv, NODE) or x[0] == 'list':
                    cur = 'new' if stored else 'other'
                elif x == A(SELF, 'current_loop_invariant'):
                    cur = 'old'
                else:
                    cur = 'other'
            elif is_call(e, 'visit') and e[2] and e[2][0] not in (A(NODE, 'test'), A(NODE, 'target'), A(NODE, 'iter')):
                ok &= c.expect(cur == 'new', 'containers', 'loops', f.loc(), 'a statement of a loop is visited while invariants are recorded elsewhere (%s)' % where)
        ok &= c.expect(cur == 'old', 'containers', 'loops', f.loc(), 'later invariants are recorded for a loop that has ended (%s)' % where)
        ok &= c.expect(stored, 'containers', 'loops', f.loc(), 'the invariants of a loop have no list of their own (%s)' % where)
        for part in ('body',):
            ok &= c.expect(('exhausted', A(NODE, part)) in st.events, 'containers', 'loops', f.loc(), 'the statements in %s are not all visited (%s)' % (part, where))
    ok &= c.expect(n > 0, 'containers', 'loops', f.loc(), 'loops are never accepted')
    for loop in ast.walk(f.node):
        if isinstance(loop, ast.For) and ast.unparse(loop.iter) in ('node.body',):
            ok &= visited(c, f, loop, 'loops')
    if ok:
        c.ok('containers', 'loops')


def callee(n):
    return ast.unparse(n.func)


def functions(p):
    for m in p.modules.values():
        for f in m.functions.values():
            yield f
        for k in m.classes.values():
            for f in k.methods.values():
                yield f


def visited(c, f, loop, what):
    ok = True
    o = One(f, loop, {'node': NODE, 'self': SELF}, lambda e: True)
    for t, cs, ev, w in o.paths():
        el = E(A(NODE, 'body'))
        io = [x for x, v in cs if v and is_call(x, 'is_io_existential') and x[2] == (el,)]
        want = (el,) if not io else (el, ('sub', A(A(el, 'value'), 'args'), ('const', 0)))
        ok &= c.expect(any(is_call(e, 'visit') and e[2] and e[2][0] in want and len(e[2]) == 2 and e[2][1] == NODE for e in ev), 'containers', what, f.loc(loop),
                       'a statement is not visited as part of its function or loop (%s)' % w)
    return ok


SKIPPED = {'Invariant', 'Requires', 'Decreases', 'Ensures', 'Exsures'}


def predicates(c, p, u):
    """The contract elements that the predicates on statements accept."""
    out = {}
    for name, f in u.functions.items():
        if not name.startswith('is_') or len(f.node.args.args) != 1:
            continue
        me = ('param', f.node.args.args[0].arg)
        kinds, ok = set(), False
        rs = list(PathSim(f, want=lambda e: True, raises=no_raise).returns())
        for t, st in rs:
            fn = ('call', ('name', 'get_func_name'), (me,), ())
            if t[0] == 'cmp' and t[1] == '==' and fn in (t[2], t[3]):
                o = t[3] if t[2] == fn else t[2]
                kinds.add(o[1])
                ok = o[0] == 'const'
            elif t[0] == 'cmp' and t[1] == 'in' and t[2] == fn and t[3][0] in ('tuple', 'list', 'set'):
                kinds |= {y[1] for y in t[3][1]}
                ok = True
        if ok:
            out[name] = kinds
    return out


def skipping(c, p, u):
    c.rule('skipped', 'only docstrings, declarations and recorded contract elements are left out of the translated bodies')
    f = u.functions.get('get_body_indices')
    if f is None:
        raise AnalysisError('get_body_indices has vanished')
    preds = predicates(c, p, u)
    st = f.node.args.args[0].arg
    whole = f.node
    local = {x.name: x for x in ast.walk(whole) if isinstance(x, ast.FunctionDef) and x is not whole}
    inner = {id(y) for x in local.values() for y in ast.walk(x)}
    several = {}    # predicates that a loop goes through
    for x in ast.walk(whole):
        if isinstance(x, ast.For) and isinstance(x.target, ast.Name):
            it = x.iter
            if isinstance(it, ast.Name):
                vals = [y.value for y in ast.walk(whole) if isinstance(y, ast.Assign) and any(isinstance(t, ast.Name) and t.id == it.id for t in y.targets)]
                it = vals[0] if len(vals) == 1 else it
            if isinstance(it, (ast.Tuple, ast.List)):
                several[x.target.id] = it.elts
    ret = [x for x in ast.walk(whole) if isinstance(x, ast.Return) and id(x) not in inner]
    if not c.expect(len(ret) == 1 and isinstance(ret[0].value, ast.Tuple) and len(ret[0].value.elts) == 2 and all(isinstance(x, ast.Name) for x in ret[0].value.elts),
                    'skipped', 'indices', f.loc(), 'are not two variables'):
        return
    start, end = (x.id for x in ret[0].value.elts)
    ok = True
    for v, init, step, op, index in ((start, ('0',), 1, ast.Add, (start,)), (end, ('len(%s)' % st,), 1, ast.Sub, ('%s - 1' % end,))):
        for x in ast.walk(whole):
            if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == v for t in x.targets):
                ok &= c.expect(ast.unparse(x.value) in init, 'skipped', v, f.loc(x), 'starts at %s' % ast.unparse(x.value))
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == v:
                w = next((y for y in ast.walk(whole) if isinstance(y, ast.While) and x in y.body), None)
                good = isinstance(x.op, op) and ast.unparse(x.value) == '1' and w is not None and w.body == [x]
                if good:
                    tests = w.test.values if isinstance(w.test, ast.BoolOp) and isinstance(w.test.op, ast.And) else [w.test]
                    alts = [z for y in tests for z in (y.values if isinstance(y, ast.BoolOp) and isinstance(y.op, ast.Or) else [y])
                            if isinstance(y, ast.BoolOp) or isinstance(y, ast.Call)]
                    good = bool(alts) and all(contract_test(y, st, index, preds, v == end, several, local) for y in alts)
                ok &= c.expect(good, 'skipped', v, f.loc(x), 'a statement is left out that is no recorded contract element')
    for name, want in (('is_invariant', {'Invariant'}), ('is_pre', {'Requires'}), ('is_decreases', {'Decreases'}), ('is_post', {'Ensures'}), ('is_exception_decl', {'Exsures'})):
        if name in preds:
            ok &= c.expect(preds[name] <= SKIPPED, 'skipped', name, u.functions[name].loc(), 'accepts %s' % sorted(preds[name] - SKIPPED))
    g = u.functions.get('is_docstring')
    for t, s in PathSim(g, want=lambda e: True, raises=no_raise).returns() if g else ():
        me = ('param', g.node.args.args[0].arg)
        yes = t == ('const', True)
        if yes:
            ok &= c.expect(any(v and x[0] == 'call' and callee_name(x) in ('isStr', 'isinstance') and A(me, 'value') in x[2] for x, v in s.conds), 'skipped', 'is_docstring', g.loc(), 'accepts other statements')
    if ok:
        c.ok('skipped', 'indices')
    # uses of the indices
    n = 0
    for g in functions(p):
        for x in ast.walk(g.node):
            if isinstance(x, ast.Assign) and isinstance(x.value, ast.Call) and callee(x.value) == 'get_body_indices':
                n += 1
                t = x.targets[0]
                if not c.expect(isinstance(t, ast.Tuple) and len(t.elts) == 2, 'skipped', g.qual, g.loc(x), 'the indices are not used'):
                    continue
                a, b = (ast.unparse(y) for y in t.elts)
                src = alias(g, ast.unparse(x.value.args[0]))
                uses = [y for y in ast.walk(g.node) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load) and y.id in (a, b) and y.lineno > x.lineno - 1]
                slices = [y for y in ast.walk(g.node) if isinstance(y, ast.Subscript) and isinstance(y.slice, ast.Slice) and
                          any(z in uses for z in ast.walk(y.slice))]
                good = bool(slices) and all(isinstance(y.slice.lower, ast.Name) and y.slice.lower.id == a and isinstance(y.slice.upper, ast.Name) and y.slice.upper.id == b and
                                            y.slice.step is None and alias(g, ast.unparse(y.value)) == src for y in slices)
                c.expect(good, 'skipped', g.qual, g.loc(x), 'other statements than the contracts are left out of the body')
    c.expect(n >= 5, 'skipped', 'uses', f.loc(), 'the indices are only used %d times' % n)


def alias(g, text):
    for x in ast.walk(g.node):
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and ast.unparse(x.targets[0]) == text and isinstance(x.value, ast.Attribute):
            return ast.unparse(x.value)
    return text


def contract_test(y, st, index, preds, last, several, local):
    if not isinstance(y, ast.Call) or not y.args:
        return False
    arg = ast.unparse(y.args[0])
    if arg not in ['%s[%s]' % (st, i) for i in index]:
        return False
    if callee(y) == 'isinstance':
        return not last and ast.unparse(y.args[1]) == 'ast.Global'
    fns = several.get(callee(y), [y.func])
    return all(accepted(x, preds, last, local) for x in fns)


def accepted(x, preds, last, local):
    """Whether a predicate only holds for statements that may be left out."""
    name = ast.unparse(x)
    if name in local:
        rs = [y.value for y in ast.walk(local[name]) if isinstance(y, ast.Return)]
        arg = local[name].args.args[0].arg
        return not last and bool(rs) and all(y is not None and ast.unparse(y) == 'isinstance(%s, ast.Global)' % arg for y in rs)
    if isinstance(x, ast.Lambda):
        return not last and ast.unparse(x.body) == 'isinstance(%s, ast.Global)' % x.args.args[0].arg
    if last:
        return name in preds and preds[name] <= {'Ensures', 'Exsures', 'Requires'}
    return name in ('is_docstring', 'is_io_existential') or name in preds and preds[name] <= SKIPPED


LISTS = ('precondition', 'postcondition', 'decreases_clauses', 'loop_invariants', 'declared_exceptions')


def recorded(loop):
    """What a loop runs over, when that is a list of contracts."""
    it = loop.iter
    if isinstance(it, ast.Subscript) and isinstance(it.value, ast.Attribute) and it.value.attr in ('loop_invariants', 'declared_exceptions'):
        return it.value.attr
    if isinstance(it, ast.Attribute) and it.attr in LISTS[:3]:
        return it.attr
    return None


def carries(e, v):
    if isinstance(e, ast.Name):
        return e.id == v
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        return carries(e.left, v) or carries(e.right, v)
    if isinstance(e, (ast.Tuple, ast.List)):
        return any(carries(x.value if isinstance(x, ast.Starred) else x, v) for x in e.elts)
    if isinstance(e, ast.Call) and callee(e) in ('list', 'flatten', 'tuple') and len(e.args) == 1:
        return carries(e.args[0], v)
    return False


SINKS = ('create_while_node', 'Function', 'create_method_node', 'create_function_node', 'Method', 'While')


def kept(f, v, line):
    """Why the elements of a list may not reach the result of the function (None if they do)."""
    live = {v}
    for s in sorted((x for x in ast.walk(f.node) if isinstance(x, (ast.Assign, ast.AugAssign, ast.Expr)) and getattr(x, 'lineno', 0) > line), key=lambda x: x.lineno):
        if isinstance(s, ast.Assign) and len(s.targets) == 1:
            t = s.targets[0]
            if isinstance(t, ast.Name):
                if any(carries(s.value, x) for x in live):
                    live.add(t.id)
                elif t.id in live:
                    live.discard(t.id)
                    if not live:
                        return 'are dropped in line %d' % s.lineno
            elif isinstance(t, ast.Tuple):
                for y in t.elts:
                    if isinstance(y, ast.Name) and y.id in live:
                        return 'are replaced in line %d' % s.lineno
        elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and any(carries(s.value, x) for x in live):
            live.add(s.target.id)
        elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute):
            fn = s.value.func
            if isinstance(fn.value, ast.Name) and fn.value.id in live and fn.attr in ('clear', 'pop', 'remove'):
                return 'are removed in line %d' % s.lineno
            if fn.attr == 'extend' and isinstance(fn.value, ast.Name) and any(carries(x, y) for x in s.value.args for y in live):
                live.add(fn.value.id)
    calls = [x for x in ast.walk(f.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in SINKS and x.lineno > line]
    args = lambda x: list(x.args) + [k.value for k in x.keywords]
    if calls:
        if not any(carries(a, y) for x in calls for a in args(x) for y in live):
            return 'are not part of the created node'
        return None
    rets = [x for x in ast.walk(f.node) if isinstance(x, ast.Return) and x.lineno > line]
    if not rets or not all(x.value is not None and any(carries(x.value, y) for y in live) for x in rets):
        return 'are not part of the result'
    return None


def emission(c, p):
    c.rule('emitted', 'every recorded contract element is translated, with its aliases, and becomes part of the function, method or loop')
    count = {}
    for g in functions(p):
        if not g.module.name.startswith('nagini_translation.translators') or g.module.name.split('.')[-1] not in ('method', 'statement'):
            continue
        for loop in ast.walk(g.node):
            kind = recorded(loop) if isinstance(loop, ast.For) else None
            if kind is None:
                continue
            o = One(g, loop, {}, lambda e: True)
            el = E(o.src)
            first = lambda t, i: t in (('item', el, i), ('sub', el, ('const', i)))
            lists, n = set(), 0
            ok = True
            for t, cs, ev, w in o.paths():
                n += 1
                ok &= c.expect(t != ('const', 'break'), 'emitted', kind, g.loc(loop), 'later elements are left out (%s)' % w)
                body = None
                for e in ev:
                    if e[0] == 'call' and callee_name(e) in ('translate_expr', 'translate_contract') and e[2]:
                        x = e[2][0]
                        if any(first(y, 0) for y in subterms(x)):
                            body = body or []
                            body.append(e)
                adds = [e for e in ev if e[0] == 'call' and e[1][0] == 'attr' and e[1][2] == 'append' and e[1][1][0] == 'name']
                if kind == 'decreases_clauses':
                    arg = [y for y in adds if any(is_call(z, k) for z in subterms(y[2][0]) for k in ('DecreasesTuple', 'DecreasesWildcard'))]
                    part = arg and any(first(z, 0) for z in subterms(arg[0][2][0])) or arg and any(is_call(z, 'DecreasesWildcard') for z in subterms(arg[0][2][0]))
                    ok &= c.expect(len(arg) == 1 and bool(part), 'emitted', kind, g.loc(loop), 'an element is left out (%s)' % w)
                    lists.update(y[1][1][1] for y in arg)
                    two = any(x[0] == 'cmp' and x[1] == '>' and is_call(x[2], 'len') and x[3] == ('const', 1) and v for x, v in cs)
                    if arg and two:
                        z = next(z for z in subterms(arg[0][2][0]) if z[0] == 'call' and callee_name(z) in ('DecreasesTuple', 'DecreasesWildcard'))
                        k = z[2][1] if callee_name(z) == 'DecreasesTuple' else z[2][0]
                        ok &= c.expect(any(is_call(y, 'translate_expr') and first(y[2][0][1], 0) and y[2][0][2] == ('const', 1) for y in subterms(k) if is_call(y, 'translate_expr') and y[2][0][0] == 'sub'),
                                       'emitted', kind, g.loc(loop), 'the condition of an element is left out (%s)' % w)
                else:
                    good = []
                    for y in adds:
                        x = y[2][0]
                        while x[0] == 'call' and callee_name(x) == 'Implies' and len(x[2]) >= 2:
                            x = x[2][1]
                        if x in (body or ()) and callee_name(x) == 'translate_contract' or x[0] in ('item', 'sub') and x[1] in (body or ()) and x[2] in (1, ('const', 1)):
                            good.append((y, x))
                    if not c.expect(len(good) == 1, 'emitted', kind, g.loc(loop), 'an element is left out (%s)' % w):
                        ok = False
                        continue
                    y, x = good[0]
                    lists.add(y[1][1][1])
                    call = x if x[0] == 'call' else x[1]
                    lam = any(v and is_call(q, 'isinstance') and first(q[2][0], 0) and classes_of(q[2][1]) == {'ast.Lambda'} for q, v in cs)
                    a = call[2][0]
                    ok &= c.expect(a[0] == 'attr' and a[2] == 'body' and first(a[1], 0) if lam else first(a, 0), 'emitted', kind, g.loc(loop), 'only a part of an element is translated (%s)' % w)
                    guard = y[2][0] != x
                    if kind in ('precondition', 'loop_invariants'):
                        ok &= c.expect(not guard, 'emitted', kind, g.loc(loop), 'holds only under a condition (%s)' % w)
                    elif kind == 'postcondition' and guard:
                        ok &= c.expect(any(v and q[0] == 'attr' and q[2] == 'declared_exceptions' for q, v in cs), 'emitted', kind, g.loc(loop), 'holds only under a condition (%s)' % w)
                    elif kind == 'declared_exceptions':
                        ok &= c.expect(guard, 'emitted', kind, g.loc(loop), 'holds without the exception (%s)' % w)
                # aliases
                depth = 0
                for e in ev:
                    if e[0] in ('with', 'endwith') and is_call(e[1], 'additional_aliases') and first(e[1][2][0], 1):
                        depth += 1 if e[0] == 'with' else -1
                    elif e[0] == 'call' and callee_name(e) in ('translate_expr', 'translate_contract') and e[2] and any(first(y, 0) for y in subterms(e[2][0])):
                        ok &= c.expect(depth > 0, 'emitted', kind + ' aliases', g.loc(loop), 'is translated without its aliases (%s)' % w)
            ok &= c.expect(n > 0 and len(lists) == 1, 'emitted', kind, g.loc(loop), 'the elements end up in the lists %s' % sorted(lists))
            for v in lists:
                why = kept(g, v, loop.lineno)
                ok &= c.expect(why is None, 'emitted', kind, g.loc(loop), 'the translated elements %s' % why)
                inits = [x for x in ast.walk(g.node) if isinstance(x, ast.Assign) and any(isinstance(q, ast.Name) and q.id == v for q in x.targets) and
                         loop.lineno <= x.lineno <= loop.end_lineno]
                ok &= c.expect(not inits, 'emitted', kind, g.loc(loop), 'the list is replaced for every element')
            if ok:
                c.ok('emitted', '%s in %s' % (kind, g.qual))
                count[kind] = count.get(kind, 0) + 1
    for kind, least in (('precondition', 1), ('postcondition', 2), ('decreases_clauses', 1), ('loop_invariants', 2), ('declared_exceptions', 1)):
        c.expect(count.get(kind, 0) >= least, 'emitted', kind, 'src/nagini_translation/translators/method.py', 'recorded elements are translated in %d places instead of %d' % (count.get(kind, 0), least))
    # the exceptions
    mt = klass(p, 'MethodTranslator', 'translators.method')
    f = next((g for g in mt.methods.values() if any(isinstance(x, ast.For) and ast.unparse(x.iter).endswith('.declared_exceptions') for x in ast.walk(g.node))), None)
    ok = c.expect(f is not None, 'emitted', 'exceptions', mt.methods['translate_method'].loc(), 'are not translated')
    if ok:
        loop = next(x for x in ast.walk(f.node) if isinstance(x, ast.For) and ast.unparse(x.iter).endswith('.declared_exceptions'))
        ex = loop.target.id
        inner = [x for x in loop.body if isinstance(x, ast.For) and recorded(x) == 'declared_exceptions']
        ok &= c.expect(bool(inner) and ast.unparse(inner[0].iter.slice) == ex, 'emitted', 'exceptions', f.loc(loop), 'the clauses of an exception are left out')
        ok &= c.expect(not any(isinstance(x, (ast.Continue, ast.Break)) for x in ast.walk(loop)), 'emitted', 'exceptions', f.loc(loop), 'some exceptions are left out')
        types = [x for x in ast.walk(loop) if isinstance(x, ast.Call) and callee(x).endswith('.var_type_check') and any(isinstance(a, ast.Name) and a.id == ex for a in x.args)]
        ok &= c.expect(bool(types), 'emitted', 'exceptions', f.loc(loop), 'the clauses are not restricted to their exception')
        if ok:
            c.ok('emitted', 'exceptions')
    # the parts of a contract are put together
    f = method(mt, 'extract_contract')
    for name in ('_translate_pres', '_translate_posts', '_translate_exceptional_posts'):
        put(c, f, name, 'method')
    f = next((g for g in mt.methods.values() if any(isinstance(x, ast.Call) and callee(x) == 'self._translate_decreases' for x in ast.walk(g.node))), None)
    if c.expect(f is not None, 'emitted', 'functions', mt.methods['translate_method'].loc(), 'the termination measures of functions are not used'):
        for name in ('_translate_pres', '_translate_decreases'):
            put(c, f, name, 'function')
    put(c, method(mt, 'translate_method'), 'extract_contract', 'method node')
    st = klass(p, 'StatementTranslator', 'translators.statement')
    put(c, method(st, 'translate_stmt_While'), '_translate_while_invariants', 'while loop')


def put(c, f, name, what):
    """The result of a call has to be kept."""
    calls = [x for x in ast.walk(f.node) if isinstance(x, ast.Call) and callee(x) == 'self.' + name]
    if not calls and (name not in f.cls.methods and name != 'extract_contract'):
        return      # inlined
    ok = c.expect(len(calls) >= 1, 'emitted', '%s: %s' % (what, name), f.loc(), 'is not part of the contract')
    for x in calls:
        s = next((y for y in ast.walk(f.node) if isinstance(y, (ast.Assign, ast.AugAssign, ast.Return)) and x in ast.walk(y)), None)
        if isinstance(s, ast.Return):
            continue
        if not c.expect(s is not None, 'emitted', '%s: %s' % (what, name), f.loc(x), 'is not used'):
            ok = False
            continue
        ts = [s.target] if isinstance(s, ast.AugAssign) else s.targets
        ts = [y for t in ts for y in (t.elts if isinstance(t, ast.Tuple) else [t])]
        if name == '_translate_while_invariants':
            ts = ts[:1]
        for t in ts:
            why = kept(f, t.id, s.lineno) if isinstance(t, ast.Name) else 'are not kept'
            ok &= c.expect(why is None, 'emitted', '%s: %s' % (what, name), f.loc(x), 'the elements %s' % why)
        top = any(s in (getattr(y, 'body', None) or []) or s in (getattr(y, 'orelse', None) or []) for y in ast.walk(f.node) if isinstance(y, (ast.If, ast.For, ast.While, ast.Try)))
        ok &= c.expect(not top, 'emitted', '%s: %s' % (what, name), f.loc(x), 'is only added sometimes')
    if ok:
        c.ok('emitted', '%s: %s' % (what, name))


def leftovers(c, p):
    c.rule('elsewhere', 'contract elements anywhere else in a body are rejected when they are translated')
    ct = klass(p, 'CallTranslator', 'translators.call')
    f = method(ct, 'translate_Call')
    sim = PathSim(f, want=lambda e: False, raises=no_raise)
    gf = ('call', ('name', 'get_func_name'), (NODE,), ())
    ok, n = True, 0
    for t, st in sim.returns():
        def dec(x):
            if is_call(x, 'isinstance') and x[2][0] == FUNC:
                return 'ast.Name' in classes_of(x[2][1])
            if x[0] == 'cmp' and x[2] in (gf, ID):
                if x[1] in ('in', 'not in') and x[3] == ('name', 'CONTRACT_WRAPPER_FUNCS'):
                    return x[1] == 'in'
                if x[1] in ('in', 'not in') and x[3][0] == 'name' and x[3][1].isupper():
                    return x[1] == 'not in'
                if x[1] in ('==', '!=') and x[3][0] == 'const':
                    return x[1] == '!='
            return None
        n += 1
        if all(dec(x) in (None, v) for x, v in st.conds):
            ok = c.expect(False, 'elsewhere', 'methods', f.loc(), 'is translated as an ordinary call (lines %s)' % sim.where(st))
            break
    if ok and c.expect(n > 10, 'elsewhere', 'methods', f.loc(), 'only %d paths' % n):
        c.ok('elsewhere', 'methods')
    ks = [k for m in p.modules.values() if m.name.endswith('translators.pure') for k in m.classes.values() if 'translate_pure_Expr' in k.methods]
    if not ks:
        raise AnalysisError('translate_pure_Expr has vanished')
    f = ks[0].methods['translate_pure_Expr']
    call = A(NODE, 'value')
    gf = ('call', ('name', 'get_func_name'), (call,), ())
    sim = PathSim(f, want=lambda e: False, raises=no_raise)
    ok = True
    for t, st in sim.returns():
        def dec(x):
            if is_call(x, 'isinstance') and x[2][0] == call:
                return 'ast.Call' in classes_of(x[2][1])
            if is_call(x, 'isStr'):
                return False
            if x[0] == 'cmp' and x[2] == gf and x[1] in ('in', 'not in'):
                return (x[3] == ('name', 'CONTRACT_WRAPPER_FUNCS')) == (x[1] == 'in')
            if x[0] == 'cmp' and x[2] == gf and x[3][0] == 'const':
                return (x[3][1] in SKIPPED) == (x[1] == '==')
            return None
        if all(dec(x) in (None, v) for x, v in st.conds):
            ok = c.expect(False, 'elsewhere', 'functions', f.loc(), 'is accepted in the body of a pure function (lines %s)' % sim.where(st))
    if ok:
        c.ok('elsewhere', 'functions')
    # the list of contract elements
    m = p.modules.get('nagini_contracts.contracts')
    v = [x for x in m.tree.body if isinstance(x, ast.Assign) and ast.unparse(x.targets[0]) == 'CONTRACT_WRAPPER_FUNCS']
    names = set(ast.literal_eval(v[0].value)) if v else set()
    c.expect(names >= set(KINDS), 'elsewhere', 'CONTRACT_WRAPPER_FUNCS', 'src/nagini_contracts/contracts.py', 'lacks %s' % sorted(set(KINDS) - names))


def main(c):
    p = c.project
    an = klass(p, 'Analyzer', 'nagini_translation.analyzer')
    u = p.modules.get('nagini_translation.lib.util')
    if u is None:
        raise AnalysisError('lib.util has vanished')
    collect(c, p, an)
    containers(c, p, an)
    skipping(c, p, u)
    emission(c, p)
    leftovers(c, p)


if __name__ == '__main__':
    run('C26', 'Contracts bind to the function or loop they are written in', main)

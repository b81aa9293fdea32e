from _common import *
from c17 import klass, no_raise
from sa.cover import uncovered, ALL

# Parts of mypy's syntax nodes (mypy.traverser visits the same).
PARTS = {
    'mypy_file': 'defs', 'block': 'body', 'func': 'arguments body', 'func_def': 'arguments body',
    'overloaded_func_def': 'items impl', 'class_def': 'decorators base_type_exprs metaclass keywords defs analyzed',
    'decorator': 'func var decorators', 'expression_stmt': 'expr', 'assignment_stmt': 'rvalue lvalues',
    'operator_assignment_stmt': 'rvalue lvalue', 'while_stmt': 'expr body else_body',
    'for_stmt': 'index expr body else_body', 'return_stmt': 'expr', 'assert_stmt': 'expr msg', 'del_stmt': 'expr',
    'if_stmt': 'expr body else_body', 'raise_stmt': 'expr from_expr',
    'try_stmt': 'body types handlers vars else_body finally_body', 'with_stmt': 'expr target body',
    'member_expr': 'expr', 'yield_from_expr': 'expr', 'yield_expr': 'expr', 'call_expr': 'args callee analyzed',
    'op_expr': 'left right', 'comparison_expr': 'operands', 'slice_expr': 'begin_index end_index stride',
    'cast_expr': 'expr', 'reveal_expr': 'expr', 'assignment_expr': 'target value', 'unary_expr': 'expr',
    'list_expr': 'items', 'tuple_expr': 'items', 'dict_expr': 'items', 'set_expr': 'items',
    'index_expr': 'base index analyzed', 'generator_expr': 'indices sequences condlists left_expr',
    'dictionary_comprehension': 'indices sequences condlists key value', 'list_comprehension': 'generator',
    'set_comprehension': 'generator', 'conditional_expr': 'cond if_expr else_expr', 'type_application': 'expr',
    'lambda_expr': 'arguments body', 'star_expr': 'expr', 'await_expr': 'expr', 'super_expr': 'call',
    'import': 'assignments', 'import_from': 'assignments', 'match_stmt': 'subject patterns guards bodies',
    'as_pattern': 'pattern name', 'or_pattern': 'patterns', 'value_pattern': 'expr', 'sequence_pattern': 'patterns',
    'starred_pattern': 'capture', 'mapping_pattern': 'keys values rest',
    'class_pattern': 'class_ref positionals keyword_values',
}
GROUPS = (('types', 'handlers'), ('expr', 'target'), ('patterns', 'guards', 'bodies'),
          ('indices', 'sequences', 'condlists'))
# What the collection of types leaves out on purpose.
LEFT_OUT = {
    'decorator': {'var', 'decorators'}, 'del_stmt': {'expr'}, 'lambda_expr': {'arguments'},
    'call_expr': {'args', 'callee', 'analyzed'}, 'assignment_stmt': {'rvalue', 'lvalues'},
    'comparison_expr': {'operands'},
}
WEAKENING = {'ignore_errors', 'ignore_missing_imports', 'follow_imports', 'disable_error_code', 'disabled_error_codes',
             'per_module_options', 'exclude', 'semantic_analysis_only', 'no_site_packages', 'allow_untyped_globals',
             'many_errors_threshold', 'implicit_optional', 'build_type', 'follow_imports_for_stubs',
             'inspections', 'python_version', 'platform', 'always_true', 'always_false', 'only_ignore', 'ignore_errors_by_regex',
             'fine_grained_incremental', 'use_fine_grained_cache', 'nullable_experiment', 'allow_redefinition'}
LIBRARY = {'_importlib_modulespec', 'abc', 'builtins', 'dataclasses', 'enum', 'nagini_contracts', 'nagini_contracts.adt',
           'nagini_contracts.contracts', 'nagini_contracts.io_contracts', 'nagini_contracts.obligations',
           'nagini_contracts.thread', 'nagini_contracts.lock', 'sys', 'types', 'typing', 'typing_extensions',
           '_typeshed', 'collections', 'collections.abc'}
TABLES = ('all_types', 'alt_types', 'type_aliases', 'type_vars', 'ghost_names')


def always_raising(p, fi):
    """Calls of functions that never return normally."""
    memo = {}

    def target(t):
        if t[0] != 'call':
            return None
        if t[1][0] in ('def', 'name'):
            for n in ast.walk(fi.node):
                if isinstance(n, ast.FunctionDef) and n.name == t[1][1] and n is not fi.node:
                    return n
            g = fi.module.functions.get(t[1][1])
            return g.node if g else None
        if t[1][0] == 'attr' and t[1][1] == ('param', 'self') and fi.cls is not None:
            g = fi.cls.find(t[1][2])
            return g.node if g else None
        return None

    def pred(t):
        n = target(t)
        if n is None:
            return False
        if n not in memo:
            memo[n] = None
            s = PathSim(fi, node=n, raises=no_raise)
            memo[n] = s if not s.normal else None
        return memo[n] is not None
    pred.sim = lambda t: memo[target(t)]
    return pred


def order(c, p):
    c.rule('order', 'the type check of the same file comes before all analysis, extraction and translation')
    f = p.modules[NT + 'main'].functions['translate']
    chk = lambda t: is_call(t, 'check') and t[1][0] == 'attr' and is_call(t[1][1], 'TypeInfo')
    later = ('Analyzer', 'collect_modules', 'translate_program', 'process', 'ProgramExtractor', 'GhostChecker',
             'Translator', 'SIFTranslator', 'add_native_silver_builtins', 'initialize_io_analyzer')
    tc = klass(p, 'TypeInfo').methods['check']
    rets = list(PathSim(tc, raises=no_raise, noreturn=always_raising(p, tc), relevant=lambda t: False).returns())
    only_true = all(t == ('const', True) for t, _ in rets)
    sim = PathSim(f, raises=no_raise, relevant=chk, want=lambda t: chk(t) or callee_name(t) in later)
    n = 0
    for t, st in list(sim.returns()) + list(sim.raises()):
        evs = [e for e in st.events if e[0] == 'call']
        at = [i for i, e in enumerate(evs) if chk(e)]
        first = [i for i, e in enumerate(evs) if callee_name(e) in later]
        if not first:
            continue
        n += 1
        e = evs[first[0]]
        if not c.expect(at and at[0] < first[0], 'order', callee_name(e), f.loc(),
                        'runs before the program is type checked (lines %s)' % sim.where(st)):
            continue
        ok = only_true or (evs[at[0]], True) in st.conds
        c.expect(ok, 'order', 'result of check', f.loc(), 'is not looked at before %s' % callee_name(e))
        files = bound(evs[at[0]], tc)
        an = [x for x in evs if callee_name(x) == 'Analyzer']
        cm = [x for x in evs if callee_name(x) == 'collect_modules']
        for x in an:
            b = bound(x, klass(p, 'Analyzer').methods['__init__'])
            c.expect(evs[at[0]][1][1] in b.values(), 'order', 'types of the analyzer', f.loc(),
                     'are not those of the type check')
            c.expect(files.get('filename') in b.values(), 'order', 'file of the analyzer', f.loc(),
                     'is not the one that was checked')
        for x in cm:
            c.expect(files.get('filename') in x[2] + tuple(v for _, v in x[3]), 'order', 'file of collect_modules', f.loc(),
                     'is not the one that was checked')
        for x in evs:
            if callee_name(x) in ('Translator', 'SIFTranslator'):
                c.expect(evs[at[0]][1][1] in x[2] + tuple(v for _, v in x[3]), 'order', 'types of the %s' % callee_name(x),
                         f.loc(), 'are not those of the type check')
    c.expect(n, 'order', f.qual, f.loc(), 'translates nothing')
    for t, st in sim.returns():
        evs = [e for e in st.events if chk(e)]
        if t not in (('const', None),) and not (t[0] == 'tuple' and set(t[1]) == {('const', None)}):
            c.expect(evs, 'order', 'result of translate', f.loc(), 'is returned without a type check (lines %s)' % sim.where(st))


def bound(t, fi):
    ps = [a for a in fi.all_params if a != 'self']
    out = dict(zip(ps, t[2]))
    out.update({k: v for k, v in t[3] if k})
    return out


def rejected(c, p):
    c.rule('rejected', 'errors that remain without strict optional checking reject the program, with all messages')
    ti = klass(p, 'TypeInfo')
    f = ti.methods['check']
    nr = always_raising(p, f)
    is_build = lambda t: t[0] == 'call' and callee_path(t) in ('mypy.build.build', 'build.build', 'build')
    err = lambda t: t[0] == 'attr' and t[2] == 'errors' and is_build(t[1])
    err_of = lambda t: [x for x in subterms(t) if err(x)]
    building = lambda n: no_raise(n) or any(isinstance(x, ast.Call) and attr_name(x) == 'build' for x in ast.walk(n))
    sim = PathSim(f, raises=building, noreturn=nr, want=lambda t: is_build(t) or is_call(t, 'visit') or t[0] == 'handler',
                  relevant=lambda t: bool(err_of(t)))
    n = 0

    def strictness(b):
        o = b[2][1] if len(b[2]) > 1 else dict(b[3]).get('options')
        if o is not None and is_call(o, '_create_options'):
            v = list(o[2]) + [v for _, v in o[3]]
            return v[0][1] if len(v) == 1 and v[0][0] == 'const' else None
        return None

    def source(b):
        return b[2][0] if b[2] else dict(b[3]).get('sources')

    def failing(conds):
        """Known result of each run: {build: errors}."""
        out = {}
        for t, v in conds:
            if err(t):
                out[t[1]] = v
            elif t[0] == 'cmp' and t[1] in ('>', '!=') and is_call(t[2], 'len') and t[3] == ('const', 0) and err(t[2][2][0]):
                out[t[2][2][0][1]] = v
            elif is_call(t, 'len') and err(t[2][0]):
                out[t[2][0][1]] = v
            elif t[0] == 'cmp' and t[1] == '==' and t[3] in (('list', ()), ('const', 0)):
                for x in err_of(t):
                    out[x[1]] = not v
        return out

    for t, st in sim.returns():
        n += 1
        if t in (('const', None), ('const', False)):
            continue            # not accepted
        res = failing(st.conds)
        good = [b for b, v in res.items() if v is False]
        w = sim.where(st)
        if any(e[0] == 'handler' for e in st.events):
            c.bad('rejected', f.qual, f.loc(), 'a failing run of the type checker is accepted (lines %s)' % w)
            continue
        if not c.expect(good, 'rejected', f.qual, f.loc(), 'the program is accepted without looking at the errors of a run '
                        'of the type checker (lines %s)' % w):
            continue
        for b in good:
            src = source(b)
            bs = [x for x in subterms(src) if is_call(x, 'BuildSource')]
            c.expect(src[0] == 'list' and len(src[1]) == 1 and bs and bs[0][2] and bs[0][2][0] == ('param', 'filename'),
                     'rejected', 'sources', f.loc(), 'the file itself is not checked')
            c.expect(strictness(b) in (True, False), 'rejected', 'options', f.loc(), 'are not the ones of _create_options')
            if strictness(b) is False:
                c.expect(any(strictness(x) is True for x in res), 'rejected', 'strictness', f.loc(),
                         'strict optional checking is never tried')
        # the accepted run is the one whose types are used, or its stricter variant
        bad = [b for b, v in res.items() if v is True and strictness(b) is False]
        c.expect(not bad, 'rejected', f.qual, f.loc(), 'the program is accepted although the type checker reports errors '
                 '(lines %s)' % w)
    c.expect(n, 'rejected', f.qual, f.loc(), 'never accepts')
    # what is reported
    m = 0
    for t, st in list(sim.exits) + list(sim.raises()):
        if t[0] == 'call' and nr(t):
            inner = nr.sim(t)
            for u, st2 in inner.raises():
                if u == ('implicit',):
                    continue
                m += 1
                what = u[2][0] if is_call(u, 'TypeException') and u[2] else None
                c.expect(what is not None and what == ('param', next(iter(inner.fn.args.args)).arg) or what is not None and
                         complete(what, ('param', [a.arg for a in inner.fn.args.args if a.arg != 'self'][0])) is None, 'rejected',
                         'messages in %s' % inner.fn.name, f.loc(), 'not all messages are passed on')
            arg = t[2][0] if t[2] else t[3][0][1] if t[3] else None
        elif is_call(t, 'TypeException'):
            m += 1
            arg = t[2][0] if t[2] else t[3][0][1] if t[3] else None
        else:
            continue
        ok = arg is not None and (err(base(arg)) or base(arg)[0] == 'attr' and base(arg)[2] == 'messages' and base(arg)[1][0] == 'exc')
        c.expect(ok, 'rejected', 'messages', f.loc(), 'what is reported (%s) are not the messages of the type checker' % (
            show(arg) if arg else 'nothing'))
        if ok and err(base(arg)):
            c.expect(strictness(base(arg)[1]) is False, 'rejected', 'reported run', f.loc(),
                     'is the one with strict optional checking, which reports spurious errors')
    c.expect(m >= 1, 'rejected', 'reports', f.loc(), 'nothing is ever reported')
    handlers = [h for h in ast.walk(f.node) if isinstance(h, ast.ExceptHandler)]
    names = {dotted(y) for h in handlers if h.type is not None for y in (
        h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])}
    c.expect(any(x and x.endswith('CompileError') for x in names), 'rejected', 'CompileError', f.loc(),
             'a failing run is not turned into a rejection')
    c.expect(None not in {h.type for h in handlers} and not any((x or '').endswith(('Exception', 'TypeException')) for x in names
                                                               ) or all(
        any(isinstance(y, ast.Raise) for y in ast.walk(h)) or 'report' in ast.unparse(h) for h in handlers), 'rejected', 'handlers', f.loc(),
             'a rejection is swallowed')


def base(t):
    while t[0] == 'call' and callee_path(t) in ('list', 'tuple', 'sorted') and len(t[2]) == 1 or t[0] == 'call' and t[1][0] == 'attr' \
            and t[1][2] == 'copy' or t[0] == 'sub' and t[2][0] == 'slice' and all(x == ('const', None) for x in t[2][1:]):
        t = t[2][0] if t[0] == 'call' and t[2] else t[1][1] if t[0] == 'call' else t[1]
    return t


def options(c, p):
    c.rule('options', 'the type checker runs with its default checks, optional checking as asked for, and keeps all types')
    f = klass(p, 'TypeInfo').methods['_create_options']
    sim = PathSim(f, raises=no_raise)
    n = 0
    for t, st in sim.returns():
        n += 1
        vals = {e[2]: e[3] for e in st.events if e[0] == 'set' and e[1] == t}
        vals.update({k: v for k, v in (t[3] if t[0] == 'call' else ())})
        c.expect(t[0] == 'call' and (callee_path(t) or '').split('.')[-1] == 'Options' and not t[2], 'options', 'Options', f.loc(),
                 'are not fresh mypy options')
        prm = [a for a in f.all_params if a != 'self']
        c.expect(vals.get('strict_optional') in (('param', prm[0]), ('call', ('name', 'bool'), (('param', prm[0]),), ())),
                 'options', 'strict_optional', f.loc(), 'is not what was asked for')
        for k in ('export_types', 'preserve_asts'):
            c.expect(vals.get(k) == ('const', True), 'options', k, f.loc(), 'is not set, so types of expressions are missing')
        c.expect(vals.get('show_column_numbers') == ('const', True) or vals.get('show_error_end') == ('const', True), 'options',
                 'columns', f.loc(), 'messages have no columns')
        for k, v in vals.items():
            if k in WEAKENING:
                c.bad('options', k, f.loc(), 'is changed, which hides type errors')
        other = [e for e in st.events if e[0] == 'setitem' or e[0] == 'call' and callee_name(e) in ('update', 'append', 'add')]
        c.expect(not other, 'options', 'other settings', f.loc(), '%s' % [show(x) for x in other])
    c.expect(n, 'options', f.qual, f.loc(), 'returns nothing')
    # the options are not changed afterwards
    g = klass(p, 'TypeInfo').methods['check']
    for x in ast.walk(g.node):
        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and 'option' in x.value.id:
            c.bad('options', ast.unparse(x), g.loc(x), 'is changed after the options were created')


def files(c, p):
    c.rule('files', 'the types of every module of the program are collected, only library modules are left out')
    f = klass(p, 'TypeInfo').methods['check']
    ign = set()
    for s in p.modules[NT + 'lib.constants'].tree.body:
        if isinstance(s, ast.Assign) and dotted(s.targets[0]) == 'IGNORED_IMPORTS':
            ign = {x.value for x in ast.walk(s.value) if isinstance(x, ast.Constant)}
    c.expect(ign, 'files', 'IGNORED_IMPORTS', 'src/nagini_translation/lib/constants.py', 'not found')
    for x in sorted(ign - LIBRARY):
        c.bad('files', 'IGNORED_IMPORTS', 'src/nagini_translation/lib/constants.py', '%r is not a library module' % x)
    # loops over dependencies and files
    loops = [n for n in ast.walk(f.node) if isinstance(n, (ast.For, ast.While))]
    deps = [n for n in loops if isinstance(n, ast.For) and any(
        isinstance(x, ast.Attribute) and x.attr in ('dep_line_map', 'dependencies') for x in ast.walk(n.iter))]
    if c.expect(deps, 'files', 'dependencies', f.loc(), 'are not followed'):
        for lp in deps:
            fn = once_per_iteration(lp, '__n__')
            it = PathSim(f, node=fn, want=lambda t: t[0] == 'call', raises=no_raise)
            for t, st in it.returns():
                kind = t[1][0][1]
                added = any(callee_name(e) in ('append', 'add', 'extend', 'insert', 'appendleft') for e in st.events)
                known = any(x[0] == 'cmp' and x[1] == 'in' and b for x, b in st.conds)
                known |= any(x[0] == 'cmp' and x[1] == 'not in' and not b for x, b in st.conds)
                c.expect(kind == 'next', 'files', 'dependencies', f.loc(lp), 'the loop is left early (lines %s)' % it.where(st))
                c.expect(added or known, 'files', 'dependencies', f.loc(lp),
                         'a module is left out that is neither ignored nor handled already (lines %s)' % it.where(st))
                bad = [x for x, b in st.conds if x[0] == 'cmp' and b and x[1] == 'in' and not (
                    x[3] == ('name', 'IGNORED_IMPORTS') or x[3][0] in ('loop', 'name', 'param', 'op', 'list'))]
                c.expect(added or not bad, 'files', 'dependencies', f.loc(lp), 'left out by %s' % [show(x) for x in bad])
    vis = [n for n in loops if isinstance(n, ast.For) and any(
        isinstance(x, ast.Call) and attr_name(x) == 'TypeVisitor' for x in ast.walk(n)) and not any(
            m is not n and m in loops and any(isinstance(x, ast.Call) and attr_name(x) == 'TypeVisitor' for x in ast.walk(m))
            for m in ast.walk(n))]
    if c.expect(len(vis) == 1, 'files', 'TypeVisitor', f.loc(), 'types are not collected'):
        lp = vis[0]
        fn = once_per_iteration(lp, '__n__')
        it = PathSim(f, node=fn, raises=no_raise, env={'self': ('param', 'self')})
        for t, st in it.returns():
            w = it.where(st)
            c.expect(t[1][0][1] == 'next', 'files', 'loop over the files', f.loc(lp), 'is left early (lines %s)' % w)
            tv = [e for e in st.events if is_call(e, 'visit') and e[1][0] == 'attr' and is_call(e[1][1], 'TypeVisitor')]
            if not c.expect(len(tv) == 1, 'files', 'TypeVisitor', f.loc(lp), 'a file is not visited (lines %s)' % w):
                continue
            v = tv[0][1][1]
            c.expect(tv[0][2] and tv[0][2][0][0] == 'attr' and tv[0][2][0][2] == 'tree' and any(
                x[0] == 'attr' and x[2] == 'ignored_lines' and x[1] == tv[0][2][0] for x in v[2] + tuple(y for _, y in v[3])),
                'files', 'TypeVisitor', f.loc(lp), 'does not visit the tree with its own ignored lines')
            c.expect(any(x[0] == 'attr' and x[2] == 'types' for x in v[2]), 'files', 'TypeVisitor', f.loc(lp),
                     'does not use the types of the run')
            for tab in TABLES:
                src = ('attr', v, tab)
                got = any(e[0] == 'call' and e[1][0] == 'attr' and e[1][2] == 'update' and e[2] and e[2][0] == src and
                          e[1][1] == ('attr', ('param', 'self'), tab) for e in st.events) or \
                    any(e[0] == 'set' and e[2] == tab and src in set(subterms(e[3])) for e in st.events)
                c.expect(got, 'files', tab, f.loc(lp), 'is not collected (lines %s)' % w)
    # the loops that follow run to their end, over all files
    g = [n for n in ast.walk(f.node) if isinstance(n, (ast.While,))]
    for n in g:
        c.expect(not any(isinstance(x, ast.Break) for x in ast.walk(n)), 'files', 'worklist', f.loc(n), 'is left early')


def anys(c, p):
    c.rule('any', 'a variable whose type is unknown rejects the program unless its line is excluded from type checking')
    tv = klass(p, 'TypeVisitor')
    f = tv.methods['set_type']
    sim = PathSim(f, raises=no_raise)
    prm = [a for a in f.all_params if a != 'self']
    n = 0
    ty_terms = lambda x: x == ('param', 'type') or x[0] == 'attr' and x[1] == ('param', 'type') and x[2] == 'ret_type'
    for t, st in sim.returns():
        n += 1
        w = sim.where(st)
        unknown = False
        known = [False, False]
        for x, b in st.conds:
            if ty_terms(x):
                unknown |= not b
                known[0] |= b
            elif x[0] == 'is_none' and ty_terms(x[1]):
                unknown |= b
                known[0] |= not b
            elif is_call(x, 'isinstance') and len(x[2]) == 2 and ty_terms(x[2][0]) and x[2][1][0] in ('attr', 'name') and \
                    x[2][1][-1] == 'AnyType':
                unknown |= b
                known[1] |= not b
        ignored = any(x[0] == 'cmp' and x[1] == 'in' and b and x[2] == ('param', 'line') and x[3] == (
            'attr', ('param', 'self'), 'ignored_lines') for x, b in st.conds)
        if unknown:
            c.expect(ignored, 'any', 'unknown type', f.loc(), 'is accepted (lines %s)' % w)
            continue
        c.expect(all(known), 'any', 'type', f.loc(), 'it is not checked that the type is known (lines %s)' % w)
        stored = [e for e in st.events if e[0] == 'setitem' and ty_terms(e[3])]
        c.expect(len(stored) == 1 and any(x[0] == 'attr' and x[2] in ('all_types', 'alt_types') for x in subterms(stored[0][1])),
                 'any', 'type', f.loc(), 'is not recorded (lines %s)' % w)
    for t, st in sim.raises():
        if t == ('implicit',):
            continue
        c.expect(is_call(t, 'TypeException') and t[2] and t[2][0][0] == 'list', 'any', 'rejection', f.loc(),
                 'is no TypeException with a list of messages')
    c.expect(n, 'any', f.qual, f.loc(), 'has no normal path')
    g = tv.methods['type_of']
    s2 = PathSim(g, raises=no_raise)
    for t, st in s2.returns():
        c.expect(t != ('const', None), 'any', g.qual, g.loc(), 'an unknown type is accepted (lines %s)' % s2.where(st))
        ctor = [x for x in subterms(t) if x[0] == 'call' and x[1][0] in ('attr', 'name') and x[1][-1] in ('AnyType', 'Instance', 'NoneTyp')]
        c.expect(not ctor, 'any', g.qual, g.loc(), 'a type is made up')
    for name, parts in (('visit_func_def', ('arguments',)), ('visit_lambda_expr', ('arguments',))):
        h = tv.methods.get(name)
        if not c.expect(h is not None, 'any', name, tv.module.name, 'there is none'):
            continue
        node = ('param', [a for a in h.all_params if a != 'self'][0])
        bad = uncovered(h, node, parts, lambda e: e[2][1:2] if is_call(e, 'set_type') else ())
        for a, st, sm in bad:
            c.bad('any', '%s of %s' % (a, name), h.loc(), 'their types are not recorded (lines %s)' % sm.where(st))
        if not bad:
            c.ok('any', name)
    h = tv.methods['visit_name_expr']
    node = ('param', [a for a in h.all_params if a != 'self'][0])
    s3 = PathSim(h, raises=no_raise)
    for t, st in s3.returns():
        done = any(is_call(e, 'set_type') for e in st.events)
        why = [show(x) for x, b in st.conds if b and (
            x[0] == 'cmp' and x[1] in ('==', 'in') and ('_' in show(x[3]) or 'LITERALS' in show(x[3]) or 'type_aliases' in show(x[3])) or
            x[0] in ('loop',) or is_call(x, 'isinstance') and 'CallableType' in show(x))]
        c.expect(done or why, 'any', h.qual, h.loc(), 'the type of a name is not recorded (lines %s)' % s3.where(st))


def traversal(c, p):
    c.rule('traversal', 'the collection of types reaches every part of a module')
    base_ = klass(p, 'TraverserVisitor')
    tv = klass(p, 'TypeVisitor')
    # dispatch
    v = base_.methods['visit']
    sim = PathSim(v, raises=no_raise)
    for t, st in sim.returns():
        calls = [e for e in st.events if e[0] == 'call' and ('param', [a for a in v.all_params if a != 'self'][0]) in e[2] and
                 is_call(e[1], 'getattr')]
        none = any(is_call(x, 'hasattr') and not b or x[0] == 'is_none' and b and is_call(x[1], 'getattr') for x, b in st.conds)
        c.expect(calls or none, 'traversal', v.qual, v.loc(), 'a node is not dispatched although there is a method for it')
    for cls in (base_, tv):
        for name, parts in PARTS.items():
            m = cls.methods.get('visit_' + name)
            if m is None:
                if cls is base_:
                    c.bad('traversal', 'visit_' + name, cls.module.name, 'there is no such method, so the parts are skipped')
                continue
            node = ('param', [a for a in m.all_params if a != 'self'][0])
            wanted = set(parts.split()) - (LEFT_OUT.get(name, set()) if cls is tv else set())
            left = left_out(name) if cls is tv else None

            def delegate(e):
                if e[0] == 'call' and e[1][0] == 'attr' and e[2] and e[2][0] == node and (e[1][2] or '').startswith('visit_'):
                    sub = PARTS.get(e[1][2][6:])
                    if sub and e[1][1] == ('param', 'self') or is_call(e[1][1], 'super'):
                        return set((sub or '').split())
                return None

            consume = lambda e: e[2][:1] if e[0] == 'call' and e[1][0] == 'attr' and e[1][2].startswith(('visit', 'set_type')) else ()
            excuse = lambda a, st: any(
                x[0] == 'cmp' and 'REVEAL_TYPE' in show(x) or x[0] == 'is_none' and b and x[1][0] == 'attr' and
                x[1][2] == 'initializer' for x, b in st.conds)
            bad = uncovered(m, node, sorted(wanted), consume, delegate, GROUPS, excuse)
            for a, st, sm in bad:
                c.bad('traversal', '%s of %s' % (a, m.qual), m.loc(), 'is not visited (lines %s)' % sm.where(st))
            if not bad:
                c.ok('traversal', m.qual)
            if left:
                left(c, m, node, consume, delegate)
    extra = [m for m in tv.methods if m.startswith('visit_') and m[6:] not in PARTS and m not in ('visit_name_expr', 'visit_var')]
    for m in extra:
        c.bad('traversal', m, tv.methods[m].loc(), 'is never called, mypy has no such node')


def left_out(name):
    """Conditions under which the collection of types skips a part."""
    def call(c, m, node, consume, delegate):
        special = lambda st: any(b and (x[0] == 'cmp' and x[1] in ('==', 'in') and any(
            y[0] == 'const' and y[1] in ('ResultT', 'typing.cast', 'typing.NamedTuple') for y in subterms(x)) or is_call(x, 'isinstance') and
            'SuperExpr' in show(x)) for x, b in st.conds)
        report(c, m, uncovered(m, node, ('args', 'callee'), consume, delegate, GROUPS, lambda a, st: special(st)))

    def assignment(c, m, node, consume, delegate):
        special = lambda st: any(b and is_call(x, 'isinstance') and re.search('TypeAliasExpr|TypeVarExpr', show(x)) for x, b in st.conds)
        report(c, m, uncovered(m, node, ('rvalue', 'lvalues'), consume, delegate, GROUPS, lambda a, st: special(st)))

    def comparison(c, m, node, consume, delegate):
        special = lambda st: any(b and x[0] == 'cmp' and x[1] == 'in' and x[2] in (('const', 'is'), ('const', 'is not'))
                                 for x, b in st.conds)
        report(c, m, uncovered(m, node, ('operands',), consume, delegate, GROUPS, lambda a, st: special(st)))

    def report(c, m, bad):
        for a, st, sm in bad:
            c.bad('traversal', '%s of %s' % (a, m.qual), m.loc(), 'is not visited (lines %s)' % sm.where(st))
    return {'call_expr': call, 'assignment_stmt': assignment, 'comparison_expr': comparison}.get(name)


def check(c):
    p = c.project
    order(c, p)
    rejected(c, p)
    options(c, p)
    files(c, p)
    anys(c, p)
    traversal(c, p)


if __name__ == '__main__':
    run('C27', 'Programs are type checked, and only accepted programs are translated', check)

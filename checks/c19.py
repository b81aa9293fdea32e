from _common import *
from c17 import klass, no_raise, every, bound
from c13 import SAFE

def calls_in(n):
    return [x for x in ast.walk(n) if isinstance(x, ast.Call)]


CTX = ('param', 'ctx')


def lin(t):
    """(base, offset) of a coordinate; clamping at 0 is ignored."""
    if t[0] == 'call' and t[1] == ('name', 'max') and len(t[2]) == 2 and ('const', 0) in t[2]:
        return lin(t[2][1] if t[2][0] == ('const', 0) else t[2][0])
    if t[0] == 'call' and t[1] == ('name', 'int') and len(t[2]) == 1:
        return lin(t[2][0])
    if t[0] == 'op' and t[1] in ('Add', 'Sub'):
        a, b = t[2], t[3]
        if a[0] == 'const' and t[1] == 'Add':
            a, b = b, a
        if b[0] == 'const' and isinstance(b[1], int):
            x, o = lin(a)
            return x, o + (b[1] if t[1] == 'Add' else -b[1])
    if t[0] == 'const' and isinstance(t[1], int):
        return ('const', 0), t[1]
    return t, 0


def group(t):
    """The group of the type error pattern a term stands for."""
    if t[0] in ('sub', 'item', 'index') and t[2][0] == 'const' and isinstance(t[2][1], str):
        b = t[1]
        if b[0] == 'call' and callee_name(b) == 'groupdict' or b[0] == 'call' and callee_name(b) in ('match', 'fullmatch'):
            return t[2][1]
    if t[0] == 'call' and callee_name(t) in ('group', 'get') and t[2] and t[2][0][0] == 'const':
        return t[2][0][1]
    return None


def present(conds, g):
    for t, b in conds:
        if group(t) == g:
            return b
        if t[0] == 'is_none' and group(t[1]) == g:
            return not b
    return None


def node_part(t):
    """(attribute, default) of a position read from the node of an exception."""
    if t[0] == 'call' and t[1] == ('name', 'getattr') and len(t[2]) >= 2 and t[2][1][0] == 'const' and \
            t[2][0] == ('attr', ('param', 'e'), 'node'):
        return t[2][1][1], t[2][2] if len(t[2]) > 2 else None
    if t[0] == 'attr' and t[1][0] == 'attr' and t[1][2] == 'node':
        return t[2], None
    return None


def positions(c, p):
    c.rule('positions', 'a backend position has the lines, columns and file of its syntax node and identifies the node')
    f = klass(p, 'ViperAST').methods['to_position']
    sim = PathSim(f, raises=no_raise)
    n = 0
    expr, file = ('param', f.params[1]), ('param', 'file')
    line = ('attr', expr, 'lineno')
    for t, st in sim.returns():
        n += 1
        where = '%s (lines %s)' % (f.loc(), sim.where(st))
        none = any(b for x, b in st.conds if x == ('is_none', expr)) or \
            any(b for x, b in st.conds if x == ('is_none', line)) or \
            any(not b for x, b in st.conds if is_call(x, 'hasattr') and x[2][1] == ('const', 'lineno')) or \
            any(b and is_call(x[1], 'getattr') for x, b in st.conds if x[0] == 'is_none')
        if t == ('attr', ('param', 'self'), 'NoPosition'):
            c.expect(none, 'positions', 'no position', where, 'a node that has a line gets no position')
            continue
        if not c.expect(callee_name(t) == 'IdentifierPosition' and len(t[2]) == 4 and not none, 'positions', 'kind of position',
                        where, 'is not an identified position'):
            continue
        path, start, end, ident = t[2]
        has_file = next((b if x == file else not b for x, b in st.conds if x in (file, ('is_none', file))), None)
        want = file if has_file else ('attr', ('param', 'self'), 'sourcefile')
        inside = set(subterms(path))
        c.expect(has_file is not None and want in inside and not (has_file is False and file in inside), 'positions', 'file', where,
                 'the file of the position is not %s' % show(want))
        lc = lambda l, co: callee_name(l) == 'LineColumnPosition' and l[2] == co
        c.expect(lc(start, (line, ('attr', expr, 'col_offset'))), 'positions', 'start', where, show(start))
        gone = any(not b for x, b in st.conds if is_call(x, 'hasattr') and 'end_' in str(x[2][1][1])) or \
            any(b for x, b in st.conds if x[0] == 'is_none' and 'end_' in show(x))
        some = [x for x in subterms(end) if x[0] == 'call' and callee_name(x) == 'LineColumnPosition']
        if gone:
            c.expect(not some, 'positions', 'end', where, show(end))
        else:
            c.expect(len(some) == 1 and callee_name(end) == 'Some' and
                     lc(some[0], (('attr', expr, 'end_lineno'), ('attr', expr, 'end_col_offset'))),
                     'positions', 'end', where, show(end))
        add = ident if callee_name(ident) == 'add_error_information' else ('call', ('name', '?'), (), ())
        target = klass(p, 'ErrorManager').methods['add_error_information']
        b = bound(add, target)
        c.expect(b.get(target.params[1]) == expr and ('param', 'vias') in set(subterms(b.get(target.params[2], ('?',)))),
                 'positions', 'identity', where, 'the position does not identify the node and the way to it')
        copies = [x for x in subterms(b.get(target.params[2], ('?',))) if x[0] == 'call']
        c.expect(copies, 'positions', 'vias', where, 'the list of vias is shared, not copied')
    c.expect(n >= 3, 'positions', f.qual, f.loc(), 'fewer kinds of positions than expected')

    g = klass(p, 'CommonTranslator').methods['to_position']
    sim = PathSim(g, raises=no_raise)
    for t, st in sim.returns():
        b = bound(t, f)
        ok = callee_path(t) == 'self.viper.to_position' or callee_name(t) == 'to_position'
        c.expect(ok and b.get(f.params[1]) == ('param', g.params[1]) and b.get('vias') == ('attr', CTX, 'position') and
                 b.get('file') == ('attr', ('attr', CTX, 'module'), 'file') and b.get('rules') == ('param', 'rules') and
                 b.get('error_string') == ('param', 'error_string'), 'positions', g.qual, g.loc(), show(t))
    m = 0
    for fi in p.all_functions(prefix='nagini_translation'):
        for call in calls_in(fi.node):
            if dotted(call.func) in ('self.viper.to_position', 'self.translator.viper.to_position'):
                if fi is g or fi.cls is not None and fi.cls.name == 'ViperAST':
                    continue
                m += 1
                a = [x for x in call.keywords if x.arg == 'file'] or call.args[4:5]
                v = a[0].value if a and isinstance(a[0], ast.keyword) else a[0] if a else None
                v = resolve_local(fi.node, v) if v is not None else None
                c.expect(isinstance(v, ast.Attribute) and v.attr == 'file', 'positions', '%s:%s' % (fi.qual, ast.unparse(call.args[0])),
                         fi.loc(call), 'no file is given, so the position is in the main file whatever file the node is from')
    for name in ('to_position',):
        for fi in p.all_functions(prefix='nagini_translation'):
            if fi.name in (name, '_to_position') and fi is not f and fi is not g:
                if fi.module.relpath.endswith('tests.py'):
                    continue
                sim = PathSim(fi, raises=no_raise)
                for t, st in sim.returns():
                    ins = set(subterms(t))
                    if fi.cls is not None and fi.params[1:2] and fi.params[1] in ('node', 'expr'):
                        c.expect(t[0] == 'call' and callee_name(t) == 'to_position' and ('param', fi.params[1]) in ins, 'positions',
                                 fi.qual, fi.loc(), 'does not give the position of the node')


def is_ctx(t):
    return t == CTX or t == ('attr', ('param', 'self'), '_ctx') or t == ('attr', ('param', 'self'), 'ctx')


def module_before(c, sim, st, what, where, pick):
    """Check that at each call of interest the module of the context is the wanted one."""
    cur = None
    for e in st.events:
        if e[0] == 'set' and is_ctx(e[1]) and e[2] == 'module':
            cur = e[3]
        elif e[0] == 'call':
            w = pick(e)
            if w is not None:
                c.expect(cur is not None and cur in w, 'modules', '%s:%s' % (what, callee_name(e)), where,
                         'is translated while the current module is %s, not %s: positions are in the wrong file and names '
                         'are looked up in the wrong module' % (show(cur) if cur else 'unchanged', show(w[0])))


def current_set(stmts, names, done, early):
    """Must analysis: has ctx.module been set to the module; collects calls given ctx before that."""
    for s in stmts:
        subs = [getattr(s, x) for x in ('body', 'orelse', 'finalbody') if isinstance(getattr(s, x, None), list)]
        own = [s] if not subs else [getattr(s, x) for x in ('test', 'iter', 'items') if getattr(s, x, None) is not None]
        for o in own:
            for x in (o if isinstance(o, list) else [o]):
                for call in ast.walk(x):
                    if isinstance(call, ast.Call) and not done and any(
                            isinstance(a, ast.Name) and a.id == 'ctx' for a in call.args + [k.value for k in call.keywords]):
                        early.append(attr_name(call) or ast.unparse(call.func))
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and dotted(s.targets[0]) == 'ctx.module':
            done = isinstance(s.value, ast.Name) and s.value.id in names
        elif subs:
            res = [current_set(b, names, done, early) for b in subs]
            hs = [current_set(h.body, names, done, early) for h in getattr(s, 'handlers', [])]
            done = done if isinstance(s, (ast.For, ast.While)) and all(res) else all(res + hs) if not isinstance(
                s, (ast.For, ast.While)) else False
    return done


def modules(c, p):
    c.rule('modules', 'a declaration is translated while the module that contains it is the current one')
    m = p.modules[NT + 'translators.program']
    f = m.classes['ProgramTranslator'].methods['translate_program']
    n = 0
    for loop in ast.walk(f.node):
        if isinstance(loop, ast.For) and isinstance(loop.iter, ast.Name) and loop.iter.id == 'modules' and \
                isinstance(loop.target, ast.Name):
            n += 1
            aliases = {loop.target.id} | {x.targets[0].id for x in ast.walk(loop) if isinstance(x, ast.Assign) and isinstance(
                x.value, ast.Name) and x.value.id == loop.target.id and isinstance(x.targets[0], ast.Name)}
            early = []
            current_set(loop.body, aliases, False, early)
            c.expect(not early, 'modules', 'loop %d over the modules' % n, f.loc(loop), 'calls %s before making the module the current '
                     'one: positions are in the wrong file and names are looked up in the wrong module' % sorted(set(early)))
    c.expect(n >= 3, 'modules', 'loops over modules', f.loc(), 'only %d found' % n)

    k = 0
    body = ('translate_stmt', 'translate_block', 'translate_handler', 'translate_finally', 'translate_expr', 'translate_contract', 'translate_to_bool')
    for fi in p.all_functions(prefix='nagini_translation.translators'):
        app = [x for x in calls_in(fi.node) if isinstance(x.func, ast.Attribute) and x.func.attr == 'append' and
               attr_name_of(x.func.value) == 'inlined_calls']
        if not app:
            continue
        k += 1
        sim = PathSim(fi, raises=no_raise, loops=True, repeat=True, want=lambda t: t[0] == 'set' and t[2] == 'module' or t[0] == 'call' and (
            callee_name(t) in body or t[1][0] == 'attr' and t[1][2] in ('append', 'remove', 'pop') and t[1][1][0] == 'attr' and
            t[1][1][2] == 'inlined_calls'), relevant=lambda t: False)
        some = False
        for _, st in sim.returns():
            stack, cur = [], None
            for e in st.events:
                if e[0] == 'set' and is_ctx(e[1]):
                    cur = e[3]
                elif e[0] == 'call' and e[1][2] == 'append':
                    stack.append(e[2][0])
                elif e[0] == 'call' and e[1][2] in ('remove', 'pop'):
                    stack = stack[:-1]
                elif e[0] == 'call' and callee_name(e) in body and stack:
                    some = True
                    c.expect(cur == ('attr', stack[-1], 'module'), 'modules', '%s:%s' % (fi.qual, callee_name(e)), fi.loc(),
                             'code of another function is translated in module %s, not that of %s' % (
                                 show(cur) if cur else 'of the caller', show(stack[-1])))
            c.expect(cur is None or cur[0] == 'attr' and is_ctx(cur[1]) and cur[2] == 'module', 'modules', fi.qual + ':restored', fi.loc(),
                     'the current module is %s afterwards' % (show(cur) if cur else ''))
        c.expect(some or not any(attr_name(x) in body for x in calls_in(fi.node)), 'modules', fi.qual, fi.loc(), 'nothing is translated')
    c.expect(k >= 4, 'modules', 'inlining', '', 'only %d functions inline calls' % k)

    k = 0
    for fi in m.classes['ProgramTranslator'].methods.values():
        if not any(attr_name(x) == 'extract_contract' for x in calls_in(fi.node)):
            continue
        k += 1
        sim = PathSim(fi, raises=no_raise, repeat=True, want=lambda t: t[0] == 'set' and t[2] == 'module' or t[0] == 'call' and
                      callee_name(t) in ('extract_contract', 'create_method_node'), relevant=lambda t: False)
        for _, st in sim.returns():
            owner = [e[2][0] for e in st.events if e[0] == 'call' and callee_name(e) == 'extract_contract' and e[2]]
            module_before(c, sim, st, fi.qual, fi.loc(), lambda e: (('attr', owner[0], 'module'),) if owner else None)
            last = [e[3] for e in st.events if e[0] == 'set' and is_ctx(e[1])]
            c.expect(not last or last[-1] == ('attr', CTX, 'module'), 'modules', fi.qual + ':restored', fi.loc(),
                     'the current module is changed afterwards')
    c.expect(k >= 2, 'modules', 'behavioural subtyping', m.relpath, 'only %d checks use inherited contracts' % k)


def attr_name_of(e):
    return e.attr if isinstance(e, ast.Attribute) else e.id if isinstance(e, ast.Name) else None


def wrappers(c, p):
    c.rule('wrappers', 'positions are read from the backend as they are, and columns are made 1-based exactly once in IDE output')
    wm = p.modules[NT + 'lib.errors.wrappers']
    ci = wm.classes['Position']
    pos = ('attr', ('param', 'self'), '_position')
    meth = lambda o, n: ('call', ('attr', o, n), (), ())
    end = meth(pos, 'end')
    for prop, part in (('line', 'line'), ('column', 'column'), ('line_end', 'line'), ('column_end', 'column'), ('file_name', 'file')):
        f = ci.methods[prop]
        sim = PathSim(f, raises=no_raise)
        n = 0
        for t, st in sim.returns():
            n += 1
            if part == 'file':
                ok = meth(pos, 'file') in set(subterms(t))
            elif prop.endswith('_end'):
                known = [b if callee_name(x) in ('isDefined', 'nonEmpty') else not b for x, b in st.conds
                         if x[0] == 'call' and callee_name(x) in ('isDefined', 'nonEmpty', 'isEmpty') and x[1][1] == end]
                ok = known and t == (meth(meth(end, 'get'), part) if known[0] else meth(pos, part))
                if t[0] == 'attr' and t[1] == ('param', 'self') and known and not known[0]:
                    ok = t[2] == part
            else:
                ok = t == meth(pos, part)
            c.expect(ok, 'wrappers', f.qual, f.loc(), 'is %s' % show(t))
        c.expect(n, 'wrappers', f.qual, f.loc(), 'returns nothing')
    for name in ('Error', 'Reason'):
        init = wm.classes[name].methods['__init__']
        sim = PathSim(init, raises=no_raise, want=lambda t: t[0] == 'set' and t[2] == 'position', relevant=lambda t: False)
        for _, st in sim.returns():
            v = [e[3] for e in st.events if e[0] == 'set']
            ok = len(v) == 1 and is_call(v[0], 'Position') and callee_name(v[0][2][0]) == 'pos'
            src = v[0][2][0][1][1] if ok else None
            want = [('param', 'error')] if name == 'Error' else [
                ('attr', ('param', 'self'), 'offending_node'),
                ('call', ('attr', ('param', 'reason'), 'offendingNode'), (), ())]
            c.expect(ok and src in want, 'wrappers', '%s.position' % name, init.loc(), 'is %s' % [show(x) for x in v])

    def fields(t):
        """Placeholders of a format in order, with the literal text between."""
        if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] == 'format' and t[1][1][0] == 'const':
            import string
            parts, auto = [], 0
            for lit, name, spec, conv in string.Formatter().parse(t[1][1][1]):
                parts.append(lit)
                if name is not None:
                    if name == '':
                        name, auto = str(auto), auto + 1
                    v = t[2][int(name)] if name.isdigit() and int(name) < len(t[2]) else dict(t[3]).get(name)
                    parts.append(v)
            return parts
        if t[0] in ('fstr', 'join'):
            out = []
            for x in t[1]:
                if x[0] == 'const':
                    if out and isinstance(out[-1], str):
                        out[-1] += str(x[1])
                    else:
                        out.append(str(x[1]))
                else:
                    if not out or not isinstance(out[-1], str):
                        out.append('')
                    out.append(x)
            return out
        return None
    posn = ('attr', ('param', 'self'), 'position')
    g = wm.classes['Error'].methods['string']
    n = 0
    sim = PathSim(g, raises=no_raise)
    for t, st in sim.returns():
        fs = fields(t)
        if fs is None:
            continue
        ide = dict(st.conds).get(('param', 'ide_mode'))
        if ide:
            n += 1
            want = [('', 'file_name', 0), (':', 'line', 0), (':', 'column', 1), (':', 'line_end', 0), (':', 'column_end', 1)]
            got = [(fs[2 * i],) + lin(fs[2 * i + 1]) for i in range(5)] if len(fs) >= 10 else []
            c.expect(got == [(s, ('attr', posn, a), o) for s, a, o in want] and len(fs) > 10 and fs[10].startswith(': error'),
                     'wrappers', 'IDE format', g.loc(), str([show(x) if isinstance(x, tuple) else x for x in fs[:10]]))
        else:
            c.expect(('attr', ('param', 'self'), 'position_string') in set(subterms(t)), 'wrappers', 'text format', g.loc(),
                     'has no position')
    c.expect(n == 1, 'wrappers', 'IDE format', g.loc(), 'not found')
    ps = wm.classes['Error'].methods['position_string']
    for t, st in PathSim(ps, raises=no_raise).returns():
        c.expect(posn in set(subterms(t)), 'wrappers', 'position text', ps.loc(), 'does not contain the position')
    h = p.modules[NT + 'lib.errors.wrappers'].functions['format_translation_error']
    n = 0
    sim = PathSim(h, raises=no_raise)
    P = lambda x: (('param', x), 0)
    for t, st in sim.returns():
        fs = fields(t)
        cd = dict(st.conds)
        if not c.expect(fs is not None, 'wrappers', h.qual, h.loc(), 'returns %s' % show(t)):
            continue
        args = [x for x in fs if isinstance(x, tuple)]
        if cd.get(('param', 'ide_mode')):
            n += 1
            absent = lambda x: cd.get(('is_none', ('param', x)))
            le = P('line') if absent('line_end') else P('line_end')
            ce = ('param', 'col') if absent('col_end') else ('param', 'col_end')
            want = [P('file'), P('line'), (('param', 'col'), 1), le, (ce, 1), P('message')]
            c.expect([lin(x) for x in args] == want and [x for x in fs if isinstance(x, str)][1:6] == [':'] * 4 + [': error: '], 'wrappers',
                     'IDE format of translation errors', h.loc(), show(t))
            c.expect(absent('line_end') is not None and absent('col_end') is not None, 'wrappers', 'missing end', h.loc(),
                     'an end that is not given is not replaced by the start')
        else:
            c.expect([lin(x) for x in args] == [P('message'), P('file'), P('line'), P('col')], 'wrappers',
                     'text format of translation errors', h.loc(), show(t))
    c.expect(n, 'wrappers', h.qual, h.loc(), 'no IDE format')


def type_error(c, rule, conds, get, main, where, what, absent_ok):
    """A reported type error has the coordinates of the message, columns made 0-based."""
    file, cd = get('file'), conds
    is_main = next((b for t, b in cd if t[0] == 'cmp' and t[1] == '==' and
                    {group(t[2]), group(t[3])} & {'file'} and ('const', '__main__') in t[2:4]), None)
    c.expect(is_main is not None and (file == main if is_main else group(file) == 'file'), rule, what + ':file', where,
             'the file of the message is %s' % show(file))
    num = lambda t: (group(lin(t)[0]), lin(t)[1]) if t is not None else None
    line, col, el, ec = (get(x) for x in ('line', 'col', 'end_line', 'end_col'))
    c.expect(num(line) == ('line', 0), rule, what + ':line', where, 'is %s' % show(line))
    pc = present(cd, 'col')
    c.expect(pc is not None and (num(col) == ('col', -1) if pc else col == ('const', 0)), rule, what + ':column', where,
             'is %s' % show(col))
    for g, t, start in (('end_line', el, line), ('end_col', ec, col)):
        pr = present(cd, g)
        missing = absent_ok and t in (None, ('const', None))
        if pr is None and missing is False:
            pr = present(cd, 'end_line')
        c.expect(pr is not None and (num(t) == (g, 0) if pr else missing or t == start), rule, '%s:%s' % (what, g), where,
                 'is %s' % (show(t) if t else 'not given'))


def node_file(c, p, rule, t, main, where):
    """The file of a translation error is that of its node, which is noted when files are parsed."""
    if not c.expect(t[0] == 'call' and t[1] == ('name', 'getattr') and len(t[2]) == 3 and t[2][1][0] == 'const' and
                    t[2][0] == ('attr', ('param', 'e'), 'node') and t[2][2] == main, rule, 'file of translation errors', where,
                    'is %s, not the file that contains the node' % show(t)):
        return
    f = klass(p, 'Analyzer').methods['collect_imports']
    path = ('param', f.params[1])
    loops = [x for x in ast.walk(f.node) if isinstance(x, ast.For) and any(
        isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store) and y.attr == t[2][1][1] or isinstance(y, ast.Call) and
        dotted(y.func) == 'setattr' for y in ast.walk(x))]
    sim = PathSim(f, raises=no_raise, relevant=lambda x: False, want=lambda x: x[0] == 'set' and x[2] == t[2][1][1])
    sets = {e for st in every(sim) for e in st.events if e[0] == 'set'}
    ok = len(loops) == 1 and isinstance(loops[0].iter, ast.Call) and dotted(loops[0].iter.func) == 'ast.walk' and \
        any(isinstance(x, ast.Call) and dotted(x.func) == 'ast.parse' for v, _ in all_values(f.node, loops[0].iter.args[0])
            for x in (ast.walk(v) if isinstance(v, ast.AST) else ())) and len(loops[0].body) == 1
    c.expect(ok and sets and all(e[3] == path for e in sets), rule, 'file of nodes', f.loc(),
             'the file of every node is not noted when it is parsed')


def service(c, p):
    c.rule('service', 'structured diagnostics have the coordinates of the error, 1-based lines and 0-based columns')
    svc = klass(p, 'VerificationService')
    names = [s.target.id for s in klass(p, 'Diagnostic').node.body if isinstance(s, ast.AnnAssign)]

    def args(t):
        d = dict(zip(names, t[2]))
        d.update(t[3])
        return d
    f = svc.methods['_failure_diagnostics']
    sim = PathSim(f, raises=no_raise, attempts=True, want=lambda t: is_call(t, 'Diagnostic'))
    seen = set()
    for st in every(sim):
        for e in st.events:
            if e[0] != 'call' or e in seen:
                continue
            seen.add(e)
            a = args(e)
            where = f.loc()
            at = a.get('start_line', ('?',))
            pos = at[1] if at[0] == 'attr' else ('?',)
            c.expect(pos[0] == 'attr' and pos[2] == 'position' and pos[1][0] == 'elem', 'service', 'position of a failure', where,
                     'is not the position of the error: %s' % show(at))
            for k, w in (('start_line', 'line'), ('start_col', 'column'), ('end_line', 'line_end'), ('end_col', 'column_end')):
                c.expect(a.get(k) == ('attr', pos, w), 'service', 'failure:' + k, where, 'is %s' % show(a.get(k, ('?',))))
            c.expect(a.get('file') in (('attr', pos, 'file_name'), ('param', f.params[2])), 'service', 'failure:file', where,
                     'is %s' % show(a.get('file', ('?',))))
            rp = a.get('reason_position', ('?',))
            rpos = ('attr', ('attr', pos[1] if pos[0] == 'attr' else ('?',), 'reason'), 'position')
            c.expect(rp == ('const', None) or rp == ('tuple', (('attr', rpos, 'line'), ('attr', rpos, 'column'))), 'service',
                     'failure:reason', where, 'is %s' % show(rp))
    files = {args(e).get('file', ('?',))[0] for e in seen}
    c.expect('attr' in files, 'service', 'failure:file', f.loc(), 'never the file of the position')
    c.expect(any(args(e).get('reason_position', ('?',))[0] == 'tuple' for e in seen), 'service', 'failure:reason', f.loc(),
             'never the position of the reason')

    f = svc.methods['_exception_diagnostics']
    sim = PathSim(f, raises=no_raise, want=lambda t: is_call(t, 'Diagnostic') or callee_name(t) == '_point_diagnostic')
    path = ('param', f.params[2])
    n = {'type': 0, 'node': 0}
    seen = set()
    for st in every(sim):
        for e in st.events:
            if e[0] != 'call' or (e, st.conds) in seen or not is_call(e, 'Diagnostic'):
                continue
            seen.add((e, st.conds))
            a = args(e)
            if any(group(lin(x)[0]) for x in a.values() if x[0] != 'const'):
                n['type'] += 1
                keys = {'file': 'file', 'line': 'start_line', 'col': 'start_col', 'end_line': 'end_line', 'end_col': 'end_col'}
                type_error(c, 'service', st.conds, lambda k: a.get(keys[k]), path, f.loc(), 'type error', False)
            else:
                n['node'] += 1
                for k, w, d in (('start_line', ('lineno',), 1), ('start_col', ('col_offset',), 0),
                                ('end_line', ('lineno', 'end_lineno'), 1), ('end_col', ('col_offset', 'end_col_offset'), 0)):
                    t = a.get(k, ('?',))
                    b, o = lin(t)
                    np = node_part(b)
                    c.expect(np is not None and np[0] in w and o == 0 or t == ('const', d) and any(
                        x[0] == 'is_none' for x, _ in st.conds), 'service', 'translation error:' + k, f.loc(), 'is %s' % show(t))
                node_file(c, p, 'service', a.get('file', ('?',)), path, f.loc())
    c.expect(n['type'] >= 2 and n['node'] >= 2, 'service', f.qual, f.loc(), 'found %s' % n)
    pd = svc.methods['_point_diagnostic']
    for t, st in PathSim(pd, raises=no_raise).returns():
        a = args(t)
        q = pd.params if pd.is_static else pd.params[1:]
        c.expect(a.get('file') == ('param', q[0]) and [a.get(k) for k in ('start_line', 'start_col', 'end_line', 'end_col')] ==
                 [('const', x) for x in (1, 0, 1, 0)], 'service', pd.qual, pd.loc(), 'is %s' % show(t))
    td = klass(p, 'Diagnostic').methods['to_dict']
    want = {'file': 'file', 'startLine': 'start_line', 'startCol': 'start_col', 'endLine': 'end_line', 'endCol': 'end_col',
            'severity': 'severity', 'code': 'code', 'source': 'source', 'message': 'message', 'reason': 'reason',
            'reasonPosition': 'reason_position', 'vias': 'vias', 'counterexample': 'counterexample',
            'branchConditions': 'branch_conditions'}
    for t, st in PathSim(td, raises=no_raise).returns():
        d = {k[1]: v for k, v in t[1] if k[0] == 'const'} if t[0] == 'dict' else {}
        for k, w in want.items():
            c.expect(d.get(k) == ('attr', ('param', 'self'), w), 'service', 'to_dict:' + k, td.loc(), 'is %s' % show(d.get(k, ('?',))))


def command_line(c, p):
    c.rule('command line', 'translation errors are printed with the coordinates and the file of what caused them')
    f = p.modules[NT + 'main'].functions['translate_and_verify']
    g = p.modules[NT + 'lib.errors.wrappers'].functions['format_translation_error']
    main = ('param', f.params[0])
    handlers = [h for n in ast.walk(f.node) if isinstance(n, ast.Try) for h in n.handlers
                if any(attr_name(x) == 'format_translation_error' for x in calls_in(h))]
    if not c.expect(handlers, 'command line', 'translation errors', f.loc(), 'are not printed'):
        return
    n = {'type': 0, 'node': 0}
    for h in handlers:
        fn = ast.FunctionDef(name='<handler>', args=ast.arguments([], [], None, [], [], None, []), body=h.body, decorator_list=[], returns=None)
        ast.copy_location(fn, h)
        ast.fix_missing_locations(fn)
        env = {x: ('param', x) for x in f.params}
        env[h.name or 'e'] = ('param', 'e')
        sim = PathSim(f, node=fn, env=env, raises=no_raise, want=lambda t: callee_name(t) == 'format_translation_error')
        seen = set()
        for st in every(sim):
            for e in st.events:
                if e[0] != 'call' or (e, st.conds) in seen:
                    continue
                seen.add((e, st.conds))
                b = bound(e, g)
                c.expect(b.get('ide_mode') == ('attr', ('param', 'args'), 'ide_mode'), 'command line', 'mode', f.loc(h), 'is not the requested one')
                if any(group(lin(x)[0]) for x in b.values() if x[0] != 'const'):
                    n['type'] += 1
                    keys = {'file': 'file', 'line': 'line', 'col': 'col', 'end_line': 'line_end', 'end_col': 'col_end'}
                    type_error(c, 'command line', st.conds, lambda k: b.get(keys[k]), main, f.loc(h), 'type error', True)
                else:
                    n['node'] += 1
                    for k, w in (('line', 'lineno'), ('col', 'col_offset'), ('line_end', 'end_lineno'), ('col_end', 'end_col_offset')):
                        t = b.get(k, ('const', None))
                        base, o = lin(t)
                        np = node_part(base)
                        c.expect(np is not None and np[0] == w and o == 0 or t[0] == 'const' and any(
                            x[0] == 'is_none' for x, _ in st.conds), 'command line', 'translation error:' + k, f.loc(h), 'is %s' % show(t))
                    node_file(c, p, 'command line', b.get('file', ('?',)), main, f.loc(h))
    c.expect(n['type'] and n['node'], 'command line', f.qual, f.loc(), 'found %s' % n)


FORMS = (  # what mypy and Nagini report, and the parts of it
    ('a.py:3: error: Bad  [arg]', ('a.py', '3', None, None, None)),
    ('a.py:3:7: error: Bad: x:1: error', ('a.py', '3', '7', None, None)),
    ('/x/y z.py:3:7:4:12: error: Bad', ('/x/y z.py', '3', '7', '4', '12')),
    ('__main__:12:1:12:40: error: Type of e "x" is Any', ('__main__', '12', '1', '12', '40')),
    ('c:\\x.py:10:2:10:3: error: Bad', ('c:\\x.py', '10', '2', '10', '3')),
)


def pattern(c, p):
    c.rule('pattern', 'the pattern for type errors finds file, line, column, end and text of every form of message')
    m = p.modules[NT + 'main']
    ev = Evaluator(p)
    try:
        pat = ev.const(m.name, 'TYPE_ERROR_PATTERN')
        rx = re.compile(str(pat))
    except (Unknown, AnalysisError, re.error) as e:
        c.bad('pattern', 'TYPE_ERROR_PATTERN', m.relpath, 'is not a constant pattern: %s' % e)
        return
    for msg, parts in FORMS:
        g = rx.match(msg)
        d = g.groupdict() if g else {}
        got = tuple(d.get(k) for k in ('file', 'line', 'col', 'end_line', 'end_col'))
        c.expect(got == parts and msg.endswith(d.get('msg') or '\0') and (d.get('msg') or '').startswith(msg.split('error: ', 1)[1][:3]),
                 'pattern', msg, m.relpath, 'is read as %s' % (d,))


def editor(c, p):
    c.rule('editor', 'editor positions are 0-based: lines are shifted by one, columns are kept')
    m = p.modules[NT + 'lsp_server']
    base_col = {'start_line': 'start_col', 'end_line': 'end_col'}
    n = 0
    for f in p.all_functions(prefix=NT + 'lsp_server'):
        if not any(attr_name(x) == 'Position' for x in calls_in(f.node)):
            continue
        sim = PathSim(f, raises=no_raise, want=lambda t: t[0] == 'call' and callee_name(t) in ('Range', 'Location'))
        seen = set()
        for st in every(sim):
            for e in st.events:
                if e[0] != 'call' or callee_name(e) != 'Range' or e in seen:
                    continue
                seen.add(e)
                d = dict(zip(('start', 'end'), e[2]))
                d.update(e[3])
                ends = {}
                for k in ('start', 'end'):
                    q = d.get(k, ('?',))
                    if q[0] != 'call' or callee_name(q) != 'Position':
                        c.bad('editor', '%s:%s' % (f.qual, k), f.loc(), 'is not a position: %s' % show(q))
                        continue
                    a = dict(zip(('line', 'character'), q[2]))
                    a.update(q[3])
                    ends[k] = lin(a.get('line', ('?',))), lin(a.get('character', ('?',)))
                for k, (ln, col) in ends.items():
                    n += 1
                    b, o = ln
                    nm = b[2] if b[0] == 'attr' else ('reason line' if b[0] == 'sub' else None)
                    origin = b[0] == 'proj' or b[0] in ('unpack', 'index', 'item', 'sub') or 'reason_position' in show(b)
                    known = nm in ('start_line', 'end_line', 'lineno') or origin
                    c.expect(known and o == -1, 'editor', '%s:%s line' % (f.qual, k), f.loc(),
                             'line %s is not the 1-based line of the program minus 1' % show(b))
                    if nm in base_col:
                        c.expect(nm == k + '_line' and col == (('attr', b[1], base_col[nm]), 0), 'editor', '%s:%s column' % (f.qual, k),
                                 f.loc(), 'is %s%+d for the line %s' % (show(col[0]), col[1], show(b)))
                    else:
                        c.expect(col[1] == 0 and (col[0] == ('const', 0) or nm != 'lineno' and col[0] != b), 'editor',
                                 '%s:%s column' % (f.qual, k), f.loc(), 'is %s%+d' % (show(col[0]), col[1]))
                        if 'reason_position' in show(b):
                            c.expect(show(b).endswith('0') and show(col[0]).endswith('1') or show(b).endswith('0]') and
                                     show(col[0]).endswith('1]'), 'editor', '%s:%s reason' % (f.qual, k), f.loc(),
                                     'line and column of the reason are mixed up')
    c.expect(n >= 4, 'editor', 'ranges', m.relpath, 'only %d found' % n)
    f = m.functions['_to_lsp_diagnostic']
    used = any(isinstance(x, ast.Attribute) and x.attr == 'file' for g in p.all_functions(prefix=NT + 'lsp_server') for x in ast.walk(g.node))
    c.expect(used, 'editor', 'file of diagnostics', f.loc(), 'diagnostics in an imported module are published for the main document')

    f = m.functions['hover']
    line = ('attr', ('attr', ('param', 'params'), 'position'), 'line')
    sim = PathSim(f, raises=no_raise)
    n = 0
    for t, st in sim.returns():
        if not (is_call_named(t, 'Hover') and any(x[0] == 'attr' and x[2] in ('counterexample', 'branch_conditions') for x in subterms(t))):
            continue
        n += 1
        el = next(x[1] for x in subterms(t) if x[0] == 'attr' and x[2] in ('counterexample', 'branch_conditions'))
        lo, hi = bounds(st.conds, line)
        c.expect((('attr', el, 'start_line'), -1) in lo and (('attr', el, 'end_line'), -1) in hi, 'editor', 'hover', f.loc(),
                 'the details of a failure are not shown exactly on its lines (lower %s, upper %s)' % (
                     [(show(a), b) for a, b in lo], [(show(a), b) for a, b in hi]))
    c.expect(n, 'editor', 'hover', f.loc(), 'shows no details of failures')


def is_call_named(t, name):
    return t[0] == 'call' and callee_name(t) == name


def bounds(conds, x):
    """Inclusive lower and upper bounds of x known on a path, as linear forms."""
    lo, hi = set(), set()

    def add(op, a, b):
        la, lb = lin(a), lin(b)
        flipped = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '=='}
        for (u, uo), (v, vo), o in ((la, lb, op), (lb, la, flipped.get(op))):
            if u == x and o:
                k = (v, vo - uo)
                if o in ('<=', '=='):
                    hi.add(k)
                if o in ('>=', '=='):
                    lo.add(k)
                if o == '<':
                    hi.add((k[0], k[1] - 1))
                if o == '>':
                    lo.add((k[0], k[1] + 1))
    neg = {'<': '>=', '<=': '>', '>': '<=', '>=': '<'}

    def go(t, b):
        if t[0] == 'cmp' and len(t) == 4:
            op = t[1] if b else neg.get(t[1])
            if op:
                add(op, t[2], t[3])
        elif t[0] in ('and', 'bool') and b:
            for y in t[1:] if t[0] == 'and' else ():
                for z in (y if isinstance(y, tuple) and y and isinstance(y[0], tuple) else (y,)):
                    go(z, True)
        elif t[0] == 'cmps' and b:
            for o, x1, x2 in zip(t[1], t[2], t[2][1:]):
                add(o, x1, x2)
    for t, b in conds:
        go(t, b)
    return lo, hi


def check(c):
    p = Project()
    positions(c, p)
    modules(c, p)
    wrappers(c, p)
    service(c, p)
    command_line(c, p)
    pattern(c, p)
    editor(c, p)


if __name__ == '__main__':
    run('C19', 'Diagnostics point to the right place in the right file', check)

from _common import *


def arg(t, i, name):
    if len(t[2]) > i:
        return t[2][i]
    for k, v in t[3]:
        if k == name:
            return v
    return None


def failed(conds):
    """Terms known to be a Failure on the path."""
    return [t[2][0] for t, b in conds if b and t[0] == 'call' and callee_path(t) == 'isinstance' and
            len(t[2]) == 2 and (t[2][1][-1] == 'Failure' or t[2][1][1] == 'Failure')]


def partial_note(sim):
    return ''.join('; %s: %s' % p for p in sim.partial)


def collected(c):
    """Every Failure is built from all errors of the backend's failure."""
    c.rule('collect', 'every error of a backend failure is collected')
    for mod in ('verifier', 'viper_server', 'service'):
        for f in c.project.all_functions(prefix=NT + mod):
            if not any(isinstance(n, ast.Call) and attr_name(n) == 'Failure' for n in walk_shallow(f.node)):
                continue
            sim = PathSim(f, want=lambda t: is_call(t, 'Failure'), totals=True)
            seen = 0
            for t, st in list(sim.returns()) + [(x, s) for x, s in sim.raises()]:
                for e in st.events:
                    if not is_call(e, 'Failure') or not e[2]:
                        continue
                    seen += 1
                    why = 'no failing result is known on the path'
                    for r in failed(st.conds):
                        why = complete(e[2][0], ('call', ('attr', r, 'errors'), (), ()))
                        if why is None:
                            break
                    c.expect(why is None, 'collect', 'errors of the failure in %s' % f.qual, f.loc(),
                             'not every backend error is passed on: %s%s' % (why, partial_note(sim)))
            c.expect(seen, 'collect', '%s builds a failure' % f.qual, f.loc(), 'no path does')


            for n in walk_shallow(f.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'next' and not n.args:
                    ok = any(isinstance(p, (ast.While, ast.For)) for p in parents(n))
                    c.expect(ok, 'collect', 'elements taken in %s' % f.qual, f.loc(n),
                             'an element is taken outside the loop that collects them')
    mutators = {'pop', 'remove', 'clear', 'insert', '__delitem__'}
    for mod in ('verifier', 'viper_server', 'service', 'main', 'lsp_server', 'mcp_server'):
        for f in c.project.all_functions(prefix=NT + mod):
            for n in walk_shallow(f.node):
                hit = None
                if isinstance(n, ast.Attribute) and n.attr in ('errors', 'diagnostics') and isinstance(
                        n.ctx, (ast.Store, ast.Del)) and f.name != '__init__':
                    hit = n
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and any(
                        isinstance(x, ast.Attribute) and x.attr in ('errors', 'diagnostics') or
                        isinstance(x, ast.Constant) and x.value in ('errors', 'diagnostics') for x in ast.walk(n)):
                    hit = n
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in mutators and \
                        isinstance(n.func.value, ast.Attribute) and n.func.value.attr in ('errors', 'diagnostics'):
                    hit = n
                if hit is not None:
                    c.bad('collect', 'errors changed in %s' % f.qual, f.loc(hit),
                          'collected errors are modified by %s' % ast.unparse(hit)[:80])
            c.ok('collect', f.loc(), 'does not modify collected errors')


def converted(c):
    c.rule('convert', 'backend errors are converted one for one')
    init = c.project.cls(NT + 'verifier', 'Failure').methods['__init__']
    sim = PathSim(init, want=lambda t: t[0] in ('set', 'call'), totals=True)
    n = 0
    for t, st in sim.returns():
        vals = [e[3] for e in st.events if e[0] == 'set' and e[2] == 'errors']
        n += 1
        ok = vals and all(full_convert(v) for v in vals)
        c.expect(ok, 'convert', 'Failure.errors', init.loc(), 'errors are set to %s%s' % (
            ', '.join(map(show, vals)) or 'nothing', partial_note(sim)))
    mgr = c.project.cls(NT + 'lib.errors.manager', 'ErrorManager')
    conv = mgr.methods['convert']
    sim = PathSim(conv, totals=True)
    for t, st in sim.returns():
        why = complete(t, ('param', conv.all_params[1]))
        c.expect(why is None, 'convert', 'ErrorManager.convert', conv.loc(),
                 'not every error is converted: %s%s' % (why, partial_note(sim)))
        if why is None and t[0] == 'map':
            el = elem_of(t[2][0][0])
            for v in (t[1][1] if t[1][0] == 'alt' else (t[1],)):
                ok = v[0] == 'call' and callee_name(v) in ('_convert_error', 'Error') and v[2] and v[2][0] == el
                c.expect(ok, 'convert', 'the converted error', conv.loc(), 'an error becomes %s' % show(v))
    ce = mgr.methods['_convert_error']
    sim = PathSim(ce, want=lambda t: False, relevant=lambda t: False)
    p = ('param', ce.all_params[1])
    for t, st in sim.returns():
        ok = is_call(t, 'Error') and t[2] and (
            t[2][0] == p or is_call(t[2][0], 'transformError') and t[2][0][2][0] == p)
        c.expect(ok, 'convert', 'result of _convert_error', ce.loc(), 'converted to %s (path %s)' % (
            show(t)[:80], sim.where(st)))
    c.floor('convert', 5)


def full_convert(t):
    """The whole list of backend errors goes through the error manager."""
    return is_call(t, 'convert') and t[2] and t[2][0] == ('param', 'errors')


def text(c):
    c.rule('text', 'the textual report contains every error with message and reason')
    f = c.project.cls(NT + 'verifier', 'Failure').methods['to_string']
    src = ('attr', ('param', 'self'), 'errors')
    sim = PathSim(f, totals=True)
    for t, st in sim.returns():
        joins = [x for x in subterms(t) if x[0] == 'call' and callee_name(x) == 'join' and x[1][0] == 'attr']
        why = 'it contains no joined list' if not joins else complete(joins[0][2][0], src)
        c.expect(why is None, 'text', 'Failure.to_string', f.loc(), 'not every error is part of the text: %s%s' % (
            why, partial_note(sim)))
        for x in subterms(joins[0][2][0]) if joins else ():
            if x[0] == 'map':
                for v in (x[1][1] if x[1][0] == 'alt' else (x[1],)):
                    ok = v[0] in ('elem', 'fstr', 'op') or v[0] == 'call' and callee_name(v) in (
                        'string', 'format', 'str', 'strip', 'rstrip')
                    c.expect(ok, 'text', 'each listed error is complete', f.loc(), 'only %s is listed' % show(v))
        strs = [x for x in subterms(t) if is_call(x, 'string')]
        for x in strs:
            ok = len(x[2]) + len(x[3]) == 2 and arg(x, 0, 'ide_mode') == ('param', 'ide_mode') and \
                arg(x, 1, 'show_viper_errors') == ('param', 'show_viper_errors')
            c.expect(ok, 'text', 'rendering of an error', f.loc(), 'rendered by %s' % show(x))
        c.expect(strs, 'text', 'errors are rendered', f.loc(), 'no error is rendered')
    f = c.project.cls(NT + 'lib.errors.wrappers', 'Error').methods['string']
    me = ('param', 'self')
    sim = PathSim(f)
    for t, st in sim.returns():
        sub = set(subterms(t))
        reasonless = any(b and x == ('is_none', ('attr', me, 'reason')) for x, b in st.conds)
        if reasonless:
            ok = t[0] == 'const' and isinstance(t[1], str) and t[1] or any(is_call(x, 'readableMessage') for x in sub)
        else:
            ok = any(x == ('attr', me, 'message') for x in sub) and any(x == ('attr', me, 'reason') for x in sub)
        c.expect(ok, 'text', 'Error.string (%s)' % ('without reason' if reasonless else 'with reason'), f.loc(),
                 'the text %s does not tell message and reason (path %s)' % (show(t)[:100], sim.where(st)))
    f = c.project.cls(NT + 'lib.errors.wrappers', 'Error').methods['__str__']
    for t, st in PathSim(f).returns():
        c.expect(is_call(t, 'string'), 'text', 'Error.__str__', f.loc(), show(t))
    c.floor('text', 6)


def command_line(c):
    c.rule('cli', 'the command line prints the result of every verification and every type error')
    f = c.project.func(NT + 'main', 'translate_and_verify')
    rel = lambda t: t[0] in ('is_none',) or t[0] == 'call' and callee_path(t) == 'isinstance'
    sim = PathSim(f, want=lambda t: t[0] == 'handler' or is_call(t, 'verify') or is_call(t, 'print') and (
        any(is_call(x, 'to_string') for x in subterms(t)) or
        t[2] and t[2][0][0] == 'const' and 'failed' in str(t[2][0][1])),
                  relevant=lambda t: rel(t) and any(is_call(x, 'verify') or x[0] == 'loop' for x in subterms(t)))
    n = 0
    for t, st in sim.returns():
        vs = [e for e in st.events if is_call(e, 'verify')]
        if not vs or any(e[0] == 'handler' for e in st.events):
            continue
        if any(b and x[0] == 'is_none' for x, b in st.conds):
            c.expect(any(is_call(e, 'print') for e in st.events[st.events.index(vs[-1]):]), 'cli',
                     'missing result', f.loc(), 'nothing is printed')
            continue
        n += 1
        after = st.events[st.events.index(vs[-1]):]
        ok = False
        for e in after:
            if is_call(e, 'print'):
                for x in subterms(e):
                    if is_call(x, 'to_string') and (x[1][1] == vs[-1] or x[1][1][0] in ('loop', 'maybe')):
                        a = x[2]
                        ok = len(a) == 2 and all(y[0] == 'attr' for y in a) and (a[0][2], a[1][2]) == (
                            'ide_mode', 'show_viper_errors')
        c.expect(ok, 'cli', 'translate_and_verify prints the result', f.loc(),
                 'a path returns without printing the result (lines %s)' % sim.where(st))
    c.expect(n, 'cli', 'verification is reported', f.loc(), 'no path verifies')
    loops_print(c, f, 'messages')
    # the server loop answers with everything that was printed
    m = c.project.func(NT + 'main', 'main')
    for n in ast.walk(m.node):
        if isinstance(n, ast.FunctionDef) and n is not m.node:
            sim = PathSim(m, node=n, want=lambda t: t[0] in ('setitem', 'call', 'set'))
            part = ('param', n.args.args[0].arg) if n.args.args else None
            for t, st in sim.returns():
                ok = False
                for e in st.events:
                    if e[0] == 'setitem':
                        s = set(subterms(e[3]))
                        ok = ok or (part in s and ('sub', e[1], e[2]) in s)
                    if e[0] == 'call' and callee_name(e) in ('append', 'write') and e[2] and part in set(subterms(e[2][0])):
                        ok = True
                c.expect(ok, 'cli', 'response of the server', m.loc(n),
                         'a printed part is not added to what was printed before (lines %s)' % sim.where(st))
    sends = [x for x in ast.walk(m.node) if isinstance(x, ast.Call) and attr_name(x) == 'send_string']
    for x in sends:
        a = x.args[0]
        ok = isinstance(a, ast.Subscript) and not isinstance(a.slice, ast.Slice) or isinstance(a, ast.Call) and attr_name(a) in (
            'join', 'getvalue')
        if isinstance(a, ast.Name):
            ok = any(isinstance(y, ast.Assign) and isinstance(y.targets[0], ast.Name) and y.targets[0].id == a.id
                     for y in ast.walk(m.node))
        c.expect(ok, 'cli', 'answer to the client', m.loc(x), 'the answer is %s' % ast.unparse(a))
    c.expect(sends, 'cli', 'the server answers', m.loc(), 'no answer is sent')


def loops_print(c, f, attr):
    """Every loop over <exc>.messages prints something for each message."""
    n = 0
    for loop in ast.walk(f.node):
        if not isinstance(loop, (ast.For, ast.While)):
            continue
        src = loop.iter if isinstance(loop, ast.For) else loop.test
        if not any(isinstance(x, ast.Attribute) and x.attr == attr for x in ast.walk(src)):
            continue
        n += 1
        if isinstance(loop, ast.For):
            it = loop.iter
            while isinstance(it, ast.Call) and it.args and attr_name(it) in ('list', 'enumerate', 'tuple', 'iter', 'sorted'):
                it = it.args[0]
            whole = isinstance(it, ast.Attribute)
            c.expect(whole, 'cli', 'type errors', f.loc(loop), 'only %s is reported' % ast.unparse(loop.iter))
        fn = once_per_iteration(loop, '__nothing__')
        sim = PathSim(f, node=fn, want=lambda t: is_call(t, 'print'))
        for t, st in sim.returns():
            ok = t[1][0][1] == 'next' and any(is_call(e, 'print') and e[2] for e in st.events)
            c.expect(ok, 'cli', 'each type error is printed', f.loc(loop),
                     'a message is not printed on the path through lines %s' % sim.where(st))
    c.expect(n, 'cli', 'type errors are printed', f.loc(), 'no loop over the messages')


FIELDS = {'message': 'message', 'reason': 'reason', 'counterexample': '_inputs', 'branch_conditions': 'bcs',
          'code': 'full_id', 'vias': 'vias', 'reason_position': 'reason', 'start_line': 'position'}


REJECTIONS = {'TypeException', 'InvalidProgramException', 'UnsupportedException', 'ConsistencyException'}


def service(c):
    c.rule('service', 'the structured report contains a diagnostic for every error')
    svc = c.project.cls(NT + 'service', 'VerificationService')
    diag = svc.module.classes['Diagnostic']
    fields = [s.target.id for s in diag.node.body if isinstance(s, ast.AnnAssign)]
    # equal diagnostics may be merged, so equality must compare everything
    for s in diag.node.body:
        if isinstance(s, ast.AnnAssign) and isinstance(s.value, ast.Call):
            for k in s.value.keywords:
                c.expect(not (k.arg == 'compare' and getattr(k.value, 'value', True) is False), 'service',
                         'Diagnostic.%s takes part in comparisons' % s.target.id, diag.module.relpath,
                         'diagnostics that differ in it are merged')
    for d in diag.node.decorator_list:
        if isinstance(d, ast.Call):
            for k in d.keywords:
                c.expect(not (k.arg == 'eq' and getattr(k.value, 'value', True) is False), 'service',
                         'Diagnostic equality', diag.module.relpath, 'equality is disabled')
    c.expect('__eq__' not in diag.methods, 'service', 'Diagnostic.__eq__', diag.module.relpath, 'equality is overridden')
    c.expect('__eq__' not in c.project.cls(NT + 'lib.errors.wrappers', 'Error').methods, 'service', 'Error.__eq__', '',
             'equality is overridden')
    f = svc.methods['_failure_diagnostics']
    p = ('param', [x for x in f.all_params if x != 'self'][0])
    src = ('attr', p, 'errors')
    sim = PathSim(f, totals=True, want=lambda t: False)
    got = False
    for t, st in sim.returns():
        why = complete(t, src)
        c.expect(why is None, 'service', 'diagnostics of a failure', f.loc(),
                 'an error yields no diagnostic: %s%s' % (why, partial_note(sim)))
        if why is None and t[0] == 'map':
            for v in (t[1][1] if t[1][0] == 'alt' else (t[1],)):
                ok = v[0] == 'call' and callee_name(v) in ('Diagnostic', '_point_diagnostic')
                c.expect(ok, 'service', 'form of a diagnostic', f.loc(), 'an error becomes %s' % show(v)[:100])
                if is_call(v, 'Diagnostic'):
                    got = True
                    for fld, at in FIELDS.items():
                        a = arg(v, fields.index(fld), fld)
                        ok = a is not None and any(x[0] == 'attr' and x[2] == at for x in subterms(a)) or \
                            fld in ('counterexample', 'branch_conditions', 'reason_position', 'vias') and \
                            a is not None and a[0] in ('const', 'list', 'maybe')
                        c.expect(ok, 'service', 'Diagnostic.' + fld, f.loc(),
                                 'is %s' % (show(a)[:80] if a else 'not given'))
    # whatever is optional is given when the error has it
    reported = {}
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and n.attr in ('_inputs', 'bcs', 'vias'):
            reported[n.attr] = True
    for at in ('_inputs', 'bcs', 'vias'):
        c.expect(reported.get(at), 'service', 'diagnostics carry ' + at, f.loc(), 'never read')
    c.expect(got, 'service', 'diagnostics are built', f.loc(), 'no Diagnostic is built')
    # every Failure that is found is reported by exactly its diagnostics
    vr = svc.module.classes['VerifyResult']
    vf = [s.target.id for s in vr.node.body if isinstance(s, ast.AnnAssign)]
    for m in svc.methods.values():
        if not any(isinstance(n, ast.Call) and attr_name(n) == '_failure_diagnostics' for n in ast.walk(m.node)) or \
                m is f:
            continue
        sim = PathSim(m, want=lambda t: t[0] == 'call' and callee_name(t) in ('_failure_diagnostics',) or t[0] == 'handler',
                      relevant=lambda t: t[0] == 'call' and callee_path(t) == 'isinstance', totals=True)
        for t, st in sim.returns():
            fl = failed(st.conds)
            if not fl or not is_call(t, 'VerifyResult'):
                continue
            if any(e[0] == 'handler' and set(e[1]) <= REJECTIONS for e in st.events):
                continue
            d = arg(t, vf.index('diagnostics'), 'diagnostics')
            ok = d is not None and is_call(d, '_failure_diagnostics') and (
                d[2][0] in fl or is_call(d[2][0], 'Failure'))
            c.expect(ok, 'service', 'failure result of %s' % m.qual, m.loc(), 'the diagnostics are %s' % (
                show(d)[:100] if d else 'missing'))
            x = arg(t, vf.index('cancelled'), 'cancelled')
            c.expect(x is None or x == ('const', False), 'service', 'failure of %s is no cancellation' % m.qual,
                     m.loc(), 'a failed run counts as cancelled, so its errors are not shown')
    # rejections
    f = svc.methods['_exception_diagnostics']
    e = ('param', [x for x in f.all_params if x != 'self'][0])
    sim = PathSim(f, totals=True, want=lambda t: False,
                  relevant=lambda t: t[0] == 'call' and callee_path(t) == 'isinstance')
    for t, st in sim.returns():
        ok = t[0] == 'list' and len(t[1]) >= 1 and is_call(t[1][0], 'Diagnostic')
        why = None if ok else complete(t, ('attr', e, 'messages'))
        c.expect(why is None, 'service', 'diagnostics of a rejection', f.loc(),
                 'a message is not reported: %s%s' % (why, partial_note(sim)))
    # serialisation
    for cl, cname in ((diag, 'Diagnostic'), (vr, 'VerifyResult')):
        m = cl.methods['to_dict']
        fl = [s.target.id for s in cl.node.body if isinstance(s, ast.AnnAssign)]
        sim = PathSim(m, want=lambda t: t[0] == 'setitem', totals=True)
        for t, st in sim.returns():
            d = dict((k[1], v) for k, v in t[1] if k[0] == 'const') if t[0] == 'dict' else {}
            for ev in st.events:
                if ev[0] == 'setitem' and ev[2][0] == 'const':
                    d[ev[2][1]] = ev[3]
            c.expect(d, 'service', cname + '.to_dict', m.loc(), 'no dictionary is built: %s' % show(t)[:80])
            for fld in fl:
                key = re.sub('_(.)', lambda x: x.group(1).upper(), fld)
                me = ('attr', ('param', 'self'), fld)
                if key not in d:
                    absent = (('is_none', me), True) in st.conds or (me, False) in st.conds
                    c.expect(absent, 'service', '%s.%s is serialised' % (cname, fld), m.loc(), 'key %s is missing' % key)
                    continue
                v = d[key]
                ok = v == me or complete(v, me) is None
                c.expect(ok, 'service', '%s.to_dict[%s]' % (cname, key), m.loc(), 'is %s%s' % (show(v), partial_note(sim)))
    c.floor('service', 30)


def editor(c):
    c.rule('editor', 'the editor gets every diagnostic')
    ls = c.project.cls(NT + 'lsp_server', 'NaginiLanguageServer')
    f = ls.methods['run_verification']
    sim = PathSim(f, totals=True, want=lambda t: t[0] in ('handler', 'setitem') or t[0] == 'call' and callee_name(t) in (
        'run_in_executor', 'text_document_publish_diagnostics'))
    n = 0
    for t, st in sim.returns():
        runs = [e for e in st.events if is_call(e, 'run_in_executor') or is_call(e, '_verify_blocking')]
        if not runs or any(e[0] == 'handler' for e in st.events):
            continue
        r = runs[-1]
        if has(st.conds, lambda x: x == ('attr', r, 'cancelled'), True):
            continue
        n += 1
        src = ('attr', r, 'diagnostics')
        pubs = [e for e in st.events if is_call(e, 'text_document_publish_diagnostics')]
        why = 'nothing is published'
        for e in pubs:
            ds = [v for x in subterms(e) if is_call(x, 'PublishDiagnosticsParams') for k, v in x[3] if k == 'diagnostics']
            why = complete(ds[0], src) if ds else 'no diagnostics are published'
            if ds and why is None and ds[0][0] == 'map':
                for v in (ds[0][1][1] if ds[0][1][0] == 'alt' else (ds[0][1],)):
                    if not is_call(v, '_to_lsp_diagnostic'):
                        why = 'a diagnostic becomes %s' % show(v)
        c.expect(why is None, 'editor', 'published diagnostics', f.loc(), '%s (lines %s)%s' % (
            why, sim.where(st), partial_note(sim)))
        keep = [e[3] for e in st.events if e[0] == 'setitem']
        ok = any(complete(v, src) is None for v in keep)
        c.expect(ok, 'editor', 'diagnostics kept for hovering', f.loc(), 'they are %s' % ', '.join(map(show, keep)))
    c.expect(n, 'editor', 'results are published', f.loc(), 'no path publishes')
    f = c.project.func(NT + 'lsp_server', '_to_lsp_diagnostic')
    d = ('param', f.all_params[0])
    sim = PathSim(f)
    for t, st in sim.returns():
        ok = is_call(t, 'Diagnostic')
        msg = arg(t, 9, 'message') if ok else None
        sub = set(subterms(msg)) if msg else set()
        reasonless = has(st.conds, lambda x: x == ('attr', d, 'reason'), False) or \
            has(st.conds, lambda x: x == ('is_none', ('attr', d, 'reason')), True)
        ok = ok and ('attr', d, 'message') in sub and (reasonless or ('attr', d, 'reason') in sub)
        c.expect(ok, 'editor', 'message of an editor diagnostic', f.loc(), 'is %s (lines %s)' % (
            show(msg) if msg else show(t)[:60], sim.where(st)))
        sev = arg(t, 9, 'severity')
        c.expect(sev is not None and sev[-1] == 'Error', 'editor', 'severity', f.loc(), 'is %s' % (show(sev) if sev else None))
    c.rule('tool', 'the tool server returns the complete result')
    mod = c.project.module(NT + 'mcp_server')
    for g in mod.functions.values():
        if not any(isinstance(n, ast.Call) and attr_name(n) == 'verify' for n in ast.walk(g.node)):
            continue
        sim = PathSim(g)
        for t, st in sim.returns():
            ok = is_call(t, 'to_dict') and not t[2] and any(
                x[0] == 'lambda' and '.verify(' in x[1] or is_call(x, 'verify') for x in subterms(t[1]))
            c.expect(ok, 'tool', g.name, g.loc(), 'returns %s' % show(t)[:100])
    c.floor('tool', 3)


def main(c):
    collected(c)
    converted(c)
    text(c)
    command_line(c)
    service(c)
    editor(c)


if __name__ == '__main__':
    run('C02', 'Every error the backend reports reaches the user', main)

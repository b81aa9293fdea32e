from _common import *

OK_STR = 'Verification successful'


def is_const(t, v):
    return t == ('const', v) and type(t[1]) is type(v)


def arg(t, i, name):
    if len(t[2]) > i:
        return t[2][i]
    for k, v in t[3]:
        if k == name:
            return v
    return None


def not_none(conds, t):
    return (('is_none', t), False) in conds or (t, True) in conds


def tail(t):
    """last component of a class expression"""
    if t[0] == 'attr':
        return t[2]
    return t[1] if t[0] in ('name', 'param') else None


def inst(conds, v, cls, val):
    """isinstance(v, cls) is known to be val"""
    return any(b == val and t[0] == 'call' and callee_path(t) == 'isinstance' and len(t[2]) == 2 and
               t[2][0] == v and tail(t[2][1]) == cls for t, b in conds)


def derives(t, src):
    return src in set(subterms(t))


VERDICTS = {'await_result', 'verify'}


def service(c, svc):
    """Every construction of a successful VerifyResult follows a finished translation and a
    verdict that is not a failure."""
    vr = svc.module.classes['VerifyResult']
    fields = [s.target.id for s in vr.node.body if isinstance(s, ast.AnnAssign)]
    pos = fields.index('success')
    default = [s.value for s in vr.node.body if isinstance(s, ast.AnnAssign) and s.target.id == 'success'][0]
    c.expect(default is None or is_const(('const', getattr(default, 'value', 0)), False), 'result-class',
             'VerifyResult.success default', vr.module.relpath, 'a result is successful by default')
    builders = 0
    for m in svc.methods.values():
        if not any(isinstance(n, ast.Call) and attr_name(n) == 'VerifyResult' for n in ast.walk(m.node)):
            continue
        builders += 1
        sim = PathSim(m, want=lambda t: t[0] == 'call' and (
            callee_name(t) in VERDICTS or callee_name(t) in ('translate', 'submit', 'VerifyResult')) or t[0] == 'handler')
        for t, st in sim.returns():
            if not is_call(t, 'VerifyResult'):
                c.bad('service', '%s returns something that is no VerifyResult' % m.qual, m.loc(), show(t))
                continue
            s = arg(t, pos, 'success')
            if s is None or is_const(s, False):
                c.ok('service', m.loc(), 'non-success path')
                continue
            why = justify(s, st)
            c.expect(why is None, 'service', '%s reports success' % m.qual, m.loc(),
                     'success reported although %s (path through lines %s)' % (why, sim.where(st)))
        # a result object is returned, not modified afterwards
        for n in ast.walk(m.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == 'success':
                c.bad('service', '%s overwrites success' % m.qual, m.loc(n), 'success is overwritten')
    if builders < 2:
        raise AnalysisError('service no longer builds results in at least two functions')
    for m in svc.methods.values():
        if m.name != 'verify':
            continue
        sim = PathSim(m)
        for t, st in sim.returns():
            good = t[0] == 'call' and t[1][0] == 'attr' and t[1][1] == ('param', 'self') and t[1][2] in svc.methods
            c.expect(good, 'service', '%s returns the result of a run' % m.qual, m.loc(), 'returns %s' % show(t))


def justify(s, st):
    """None, or why success s is not justified on this path."""
    trans = [e for e in st.events if e[0] == 'call' and callee_name(e) == 'translate']
    if not trans:
        return 'translation was not completed'
    tr = trans[-1]
    if not not_none(st.conds, tr):
        return 'the outcome of translation is not checked'
    vs = [e for e in st.events if e[0] == 'call' and callee_name(e) in VERDICTS]
    if not vs:
        return 'verification was not completed'
    v = vs[-1]
    subs = [e for e in st.events if is_call(e, 'submit')]
    if not any(derives(x, ('item', tr, 1)) for x in [v] + subs):
        return 'the verified program is not the translated one'
    if callee_name(v) == 'await_result' and not any(derives(v, x) for x in subs):
        return 'the awaited job is not the submitted one'
    if is_const(s, True):
        if not not_none(st.conds, v):
            return 'a missing verdict is not excluded'
        if inst(st.conds, v, 'Success', True):
            return None
        if not inst(st.conds, v, 'Failure', False):
            return 'a failure verdict is not excluded'
        return None
    ok = s[0] == 'call' and callee_path(s) == 'isinstance' and s[2][0] == v and tail(s[2][1]) == 'Success'
    neg = s[0] == 'not' and s[1][0] == 'call' and callee_path(s[1]) == 'isinstance' and s[1][2][0] == v and \
        tail(s[1][2][1]) == 'Failure' and not_none(st.conds, v)
    if ok or neg:
        return None
    return 'its value is %s' % show(s)


def backends(c):
    n = 0
    for mod in (NT + 'verifier', NT + 'viper_server'):
        for cl in c.project.module(mod).classes.values():
            m = cl.methods.get('verify')
            if m is None:
                continue
            n += 1
            sim = PathSim(m, want=lambda t: t[0] in ('call', 'handler'))
            for t, st in sim.returns():
                k = callee_name(t) if t[0] == 'call' else None
                if k == 'Failure':
                    c.ok('backend', m.loc(), 'failure')
                    continue
                if k != 'Success':
                    c.bad('backend', '%s returns neither Success nor Failure' % m.qual, m.loc(), show(t))
                    continue
                why = 'the backend result was not checked to be no failure'
                for x, b in st.conds:
                    if not b and x[0] == 'call' and callee_path(x) == 'isinstance' and tail(x[2][1]) == 'Failure':
                        r = x[2][0]
                        why = raw_result(r, st, cl)
                        if why is None:
                            break
                c.expect(why is None, 'backend', '%s reports success' % m.qual, m.loc(),
                         'success reported although %s' % why)
    if n < 3:
        raise AnalysisError('fewer than three backends found')
    ver = c.project.module(NT + 'verifier')
    for name, val in (('Success', True), ('Failure', False)):
        b = ver.classes[name].methods.get('__bool__')
        rets = {t for t, _ in PathSim(b).returns()} if b else set()
        c.expect(rets == {('const', val)}, 'result-class', 'truth value of %s' % name, b.loc() if b else '',
                 'truth value is %s' % [show(r) for r in rets])
    c.expect(not ver.classes['Failure'].is_subclass_of('Success') and not ver.classes['Success'].is_subclass_of('Failure'),
             'result-class', 'Failure and Success are unrelated', ver.relpath, 'one result class extends the other')
    # who builds Success
    for f in c.project.all_functions():
        for x in walk_shallow(f.node):
            if isinstance(x, ast.Call) and attr_name(x) == 'Success' and f.module.name.startswith(NT):
                good = f.name == 'verify' and f.module.name in (NT + 'verifier', NT + 'viper_server')
                c.expect(good, 'result-class', '%s builds Success' % f.qual, f.loc(x),
                         'a success is built outside the backends')
    # the user-visible text
    for name, good in (('Success', True), ('Failure', False)):
        m = ver.classes[name].methods['to_string']
        for t, st in PathSim(m).returns():
            text = ''.join(x[1] for x in subterms(t) if x[0] == 'const' and isinstance(x[1], str))
            says = OK_STR in text
            fails = 'failed' in text.lower()
            c.expect(says == good and fails != good, 'text', '%s.to_string' % name, m.loc(),
                     'its text starts with %r' % text[:40])


def raw_result(r, st, cl):
    """None if r is what the backend returned for the program (mapped by the ARP plugin when
    it was transformed by it)."""
    arp = [b for t, b in st.conds if t == ('param', 'arp')]
    if r[0] == 'call' and callee_name(r) == 'map_result':
        inner = r[2][0]
        return raw_result2(inner, st)
    if arp and arp[-1]:
        return 'the ARP result is not mapped back'
    return raw_result2(r, st)


def raw_result2(r, st):
    if r[0] != 'call':
        return 'the tested value is not the result of the backend'
    if callee_name(r) == 'verify':
        return None if ('param', 'prog') in r[2] else 'another program is verified'
    if callee_name(r) == 'await_result':
        j = r[2][0]
        return None if is_call(j, 'submit') and ('param', 'prog') in j[2] else 'another job is awaited'
    return 'the tested value is not the result of the backend'


def command_line(c):
    main = c.project.module(NT + 'main')
    f = main.functions['verify']
    sim = PathSim(f)
    for t, st in sim.returns():
        good = t == ('const', None) or t[0] == 'call' and callee_name(t) == 'verify' and \
            is_call(t[1][1], 'get_verifier') and ('param', 'prog') in t[2]
        c.expect(good, 'cli', 'main.verify returns the backend result', f.loc(), 'returns %s' % show(t))
    g = main.functions['get_verifier']
    for t, st in PathSim(g).returns():
        good = t == ('const', None) or t[0] == 'call' and callee_name(t) in ('Silicon', 'Carbon', 'ViperServer')
        c.expect(good, 'cli', 'get_verifier returns a backend', g.loc(), 'returns %s' % show(t))

    f = main.functions['translate_and_verify']
    sim = PathSim(f, want=lambda t: t[0] == 'handler' or callee_name(t) in ('translate', 'verify'),
                  relevant=lambda t: any(x[0] == 'call' and callee_name(x) in ('translate', 'verify', 'isinstance') or
                                         x == ('attr', ('param', 'args'), 'skip_verification') for x in subterms(t)))
    n = 0
    for t, st in sim.returns():
        n += 1
        why = cli_verdict(t, st)
        c.expect(why is None, 'cli', 'translate_and_verify reports success', f.loc(),
                 'success reported although %s (path through lines %s)' % (why, sim.where(st)))
    if n < 4:
        raise AnalysisError('translate_and_verify: only %d paths' % n)

    f = main.functions['main']
    EXIT = ('sys.exit', 'os._exit', 'exit', 'quit')
    noret = lambda t: t[0] == 'call' and (callee_path(t) in EXIT or is_call(t, 'error') and len(t[2]) == 1)
    sim = PathSim(f, want=lambda t: callee_name(t) == 'translate_and_verify', noreturn=noret,
                  relevant=lambda t: any(x[0] == 'call' and callee_name(x) == 'translate_and_verify'
                                         for x in subterms(t)))
    for t, st in sim.exits:
        if is_call(t, 'error'):
            continue
        runs = [e for e in st.events if callee_name(e) == 'translate_and_verify']
        code = t[2][0] if t[2] else ('const', 0)
        seen_exit = True
        if not runs:
            good = code[0] == 'const' and code[1] not in (0, None, False)
        else:
            succ = [b for x, b in st.conds if x == runs[-1]]
            if not succ:
                good = code in (('not', runs[-1]), ('call', ('name', 'int'), (('not', runs[-1]),), ()))
            else:
                good = code[0] == 'const' and (code[1] in (0, None)) == succ[0]
        c.expect(good, 'cli', 'main exit status', f.loc(), 'exits with %s' % show(code))
    for t, st in sim.returns():
        c.bad('cli', 'main exits explicitly', f.loc(),
              'main returns without an exit status (path through lines %s)' % sim.where(st)[-8:])
    if not seen_exit:
        raise AnalysisError('main never exits')


def cli_verdict(t, st):
    if is_const(t, False) or t == ('const', None):
        return None
    if any(e[0] == 'handler' for e in st.events):
        return 'the run was aborted by an exception'
    trans = [e for e in st.events if is_call(e, 'translate')]
    if not trans:
        return 'translation was not completed'
    tr = trans[-1]
    skip = (('attr', ('param', 'args'), 'skip_verification'), True) in st.conds
    vs = [e for e in st.events if is_call(e, 'verify')]
    if is_const(t, True):
        if skip and not vs:
            return None
        if vs and inst(st.conds, vs[-1], 'Success', True):
            return None
        return 'no success verdict was established'
    if not vs:
        if t[0] == 'call' and t[2] and t[2][0][0] == 'name':
            return None         # an unbound variable: raises
        return 'verification was not completed'
    v = vs[-1]
    if not derives(v, ('item', tr, 1)) and not any(derives(v, ('item', x, 1)) for x in trans):
        return 'the verified program is not the translated one'
    ok = t[0] == 'call' and callee_path(t) == 'isinstance' and t[2][0] in vs + [('loop', 'vresult')] and \
        tail(t[2][1]) == 'Success'
    ok = ok or t[0] == 'call' and callee_path(t) == 'bool' and t[2][0] in vs
    ok = ok or t[0] == 'bool' and t[1] == 'and' and any(cli_verdict(x, st) is None for x in t[2])
    return None if ok else 'the reported value is %s' % show(t)


def translation(c):
    """translate() yields a program only if type checking succeeded, and the program is the
    translator's (transformed, not replaced)."""
    f = c.project.func(NT + 'main', 'translate')
    sim = PathSim(f, want=lambda t: t[0] in ('call', 'handler', 'raise'))
    n = 0
    for t, st in sim.returns():
        if t == ('const', None):
            c.ok('translate', f.loc())
            continue
        n += 1
        if t[0] != 'tuple' or len(t[1]) != 2:
            c.bad('translate', 'translate returns modules and program', f.loc(), show(t))
            continue
        prog = t[1][1]
        checks = [e for e in st.events if is_call(e, 'check') and is_call(e[1][1], 'TypeInfo')]
        c.expect(bool(checks) and (checks[-1], True) in st.conds, 'translate', 'translate requires a type-correct program',
                 f.loc(), 'a program is returned without a successful type check (lines %s)' % sim.where(st)[-6:])
        c.expect(not any(e[0] == 'handler' for e in st.events), 'translate', 'translate swallows no exception', f.loc(),
                 'a program is returned after an exception was caught')
        tp = [e for e in st.events if is_call(e, 'translate_program')]
        skip = (('param', 'skip_verification'), True) in st.conds
        if prog == ('const', None):
            c.expect(skip and bool(tp), 'translate', 'no program only when verification is skipped', f.loc(),
                     'no program is returned although verification is not skipped')
        else:
            c.expect(bool(tp) and derives(prog, tp[-1]), 'translate', 'the returned program is the translated one', f.loc(),
                     'returns %s' % show(prog)[:80])
            cons = (('param', 'check_consistency'), True) in st.conds
            if cons:
                errs = [x for x, b in st.conds if not b and any(is_call(y, 'checkTransitively') for y in subterms(x))]
                c.expect(bool(errs), 'translate', 'inconsistent programs are rejected', f.loc(),
                         'consistency errors do not reject the program')
    if n < 4:
        raise AnalysisError('translate: only %d program paths' % n)


def front_ends(c):
    svc = c.project.module(NT + 'service')
    d = svc.classes['VerifyResult'].methods['to_dict']
    for t, st in PathSim(d).returns():
        kv = dict((k[1], v) for k, v in t[1] if k[0] == 'const') if t[0] == 'dict' else {}
        for key, fld in (('success', 'success'), ('translationFailed', 'translation_failed'), ('cancelled', 'cancelled')):
            c.expect(kv.get(key) == ('attr', ('param', 'self'), fld), 'front-end', 'VerifyResult.to_dict %s' % key, d.loc(),
                     'reports %s' % (show(kv[key]) if key in kv else 'nothing'))
    mcp = c.project.module(NT + 'mcp_server')
    n = 0
    for f in mcp.functions.values():
        if not any(dotted(x.func) == 'mcp.tool' for x in f.node.decorator_list if isinstance(x, ast.Call)):
            continue
        if not f.name.startswith('verify'):
            continue
        n += 1
        for t, st in PathSim(f).returns():
            good = t[0] == 'call' and callee_name(t) == 'to_dict' and not t[2] and is_call(t[1][1], '_run')
            c.expect(good, 'front-end', '%s returns the service result' % f.qual, f.loc(), 'returns %s' % show(t)[:80])
        # what is run is the service's verify
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call) and attr_name(x) == '_run':
                a = x.args[0]
                body = a.body if isinstance(a, ast.Lambda) else None
                if body is None and isinstance(a, ast.Name):
                    for y in ast.walk(f.node):
                        if isinstance(y, (ast.FunctionDef, ast.AsyncFunctionDef)) and y.name == a.id:
                            r = [z.value for z in ast.walk(y) if isinstance(z, ast.Return)]
                            body = r[0] if len(r) == 1 else None
                if body is None and isinstance(a, ast.Call) and attr_name(a) == 'partial':
                    body = ast.Call(func=a.args[0], args=a.args[1:], keywords=a.keywords)
                c.expect(isinstance(body, ast.Call) and attr_name(body) == 'verify', 'front-end',
                         '%s runs the verification' % f.qual, f.loc(x), 'does not run the verification')
    if n < 3:
        raise AnalysisError('only %d verification tools' % n)
    r = mcp.functions['_run']
    for t, st in PathSim(r).returns():
        c.expect(is_call(t, 'run_in_executor') and ('param', 'fn') in t[2], 'front-end', '_run returns the result', r.loc(), show(t))

    lsp = c.project.module(NT + 'lsp_server')
    cl = lsp.classes['NaginiLanguageServer']
    f = cl.methods['run_verification']
    want = lambda t: t[0] == 'handler' or t[0] == 'call' and callee_name(t) in (
        'window_log_message', 'text_document_publish_diagnostics', 'run_in_executor')
    sim = PathSim(f, want=want, totals=True)
    for t, st in list(sim.returns()):
        runs = [e for e in st.events if is_call(e, 'run_in_executor')]
        for e in st.events:
            says = [x[1] for x in subterms(e) if x[0] == 'const' and isinstance(x[1], str) and 'successful' in x[1]]
            if says:
                good = bool(runs) and (('attr', runs[-1], 'success'), True) in st.conds and \
                    not any(x[0] == 'handler' for x in st.events)
                c.expect(good, 'front-end', 'run_verification announces success', f.loc(),
                         'success announced without a successful result')
            fails = [x[1] for x in subterms(e) if x[0] == 'const' and isinstance(x[1], str) and 'failed' in x[1]]
            if fails:
                good = bool(runs) and (('attr', runs[-1], 'success'), False) in st.conds
                c.expect(good, 'front-end', 'run_verification announces failure', f.loc(),
                         'failure announced for a successful result')
        if runs and not any(x[0] == 'handler' for x in st.events) and \
                (('attr', runs[-1], 'cancelled'), True) not in st.conds:
            pub = [e for e in st.events if is_call(e, 'text_document_publish_diagnostics')]
            c.expect(bool(pub) and any(derives(e, ('attr', runs[-1], 'diagnostics')) for e in pub), 'front-end',
                     'run_verification publishes the diagnostics', f.loc(),
                     'a finished run publishes nothing (lines %s)' % sim.where(st)[-6:])
        if (runs and (('attr', runs[-1], 'cancelled'), True) in st.conds) or any(x[0] == 'handler' for x in st.events):
            c.expect(not any(is_call(e, 'text_document_publish_diagnostics') for e in st.events), 'front-end',
                     'an aborted run publishes no verdict', f.loc(), 'an aborted run overwrites the diagnostics')
    g = cl.methods['_verify_blocking']
    for t, st in PathSim(g).returns():
        good = is_call(t, 'verify') and t[2] and t[2][0] == ('param', 'path') and is_call(t[1][1], 'ensure_service')
        c.expect(good, 'front-end', '_verify_blocking verifies the document', g.loc(), 'returns %s' % show(t)[:80])
    # the long-running command-line server answers with what the run printed
    m = c.project.func(NT + 'main', 'main')
    loops = [w for w in ast.walk(m.node) if isinstance(w, ast.While) and any(
        isinstance(x, ast.Call) and attr_name(x) == 'translate_and_verify' for x in ast.walk(w))]
    c.expect(len(loops) == 1, 'front-end', 'server loop', m.loc(), 'no server loop that verifies')
    for w in loops:
        for x in ast.walk(w):
            if isinstance(x, ast.Call) and attr_name(x) == 'send_string':
                lits = [k.value for k in ast.walk(x) if isinstance(k, ast.Constant) and isinstance(k.value, str) and k.value]
                c.expect(not lits, 'front-end', 'server response', m.loc(x), 'the response contains the fixed text %r' % lits)


def main(c):
    c.rule('service', 'VerifyResult(success) only after translation completed with a program, that program was '
                      'verified to the end, and the verdict is neither missing nor a failure')
    c.rule('backend', 'Success only if the backend result for the given program is not a Failure')
    c.rule('cli', 'the command line reports success and exit status 0 exactly for a Success verdict')
    c.rule('translate', 'translate returns a program only for type-correct programs that were translated completely')
    c.rule('front-end', 'editor and tool servers hand on the verdict unchanged')
    c.rule('text', 'the success text belongs to Success only')
    c.rule('result-class', 'result classes have the right truth value and default')
    svc = c.project.cls(NT + 'service', 'VerificationService')
    service(c, svc)
    backends(c)
    command_line(c)
    translation(c)
    front_ends(c)
    c.floor('service', 10)
    c.floor('backend', 6)
    c.floor('cli', 10)
    c.floor('translate', 10)
    c.floor('front-end', 10)


if __name__ == '__main__':
    run('C01', 'verified only if every step succeeded', main)

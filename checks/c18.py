from _common import *
from c17 import identity, bound, klass, no_raise, every, flip
from sa.sym import complete

BASE = ('--assumeInjectivityOnInhale', '--disableDefaultPlugins')
PLUGINS = ('viper.silver.plugin.standard.refute.RefutePlugin', 'viper.silver.plugin.standard.termination.TerminationPlugin',
           'viper.silver.plugin.standard.predicateinstance.PredicateInstancePlugin')
SILICON_ONLY = ('--disableCatchingExceptions', '--exhaleMode=2', '--alternativeFunctionVerificationOrder')


def given(conds, opt):
    """Is the option set on the path: True, False or None (not decided)."""
    for t, b in conds:
        i = identity(t)
        if i == opt:
            return b
        if i == flip(opt):
            return not b
        if t[0] == 'is_none' and identity(t[1]) == opt and b:
            return False
    return None


def backend_on(conds, name):
    """Is it known on the path that the backend is (True) or is not (False) the named one."""
    for t, b in conds:
        if t[0] == 'cmp' and t[1] in ('==', 'is') and 'backend' in (identity(t[2]), identity(t[3])):
            for x in (t[2], t[3]):
                v = x[2] if x[0] == 'attr' and x[2] in ('silicon', 'carbon') else x[1] if x[0] == 'const' else None
                if x[0] == 'attr' and x[2] in ('name', 'value') and x[1][0] == 'attr' and x[1][2] in ('silicon', 'carbon'):
                    v = x[1][2]
                if v == name:
                    return b
                if v in ('silicon', 'carbon') and b:
                    return False
    return None


class Consts:
    """Module level names that hold a literal."""

    def __init__(self, module, ev):
        self.m, self.ev = module, ev

    def get(self, name):
        for s in self.m.tree.body:
            if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
                for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                    if isinstance(t, ast.Name) and t.id == name:
                        return self.ev.ev(s.value, {}, frozenset())[0][0]
        return None


def flat(t, consts):
    """Elements of an argument list: terms, or ('all', list) for a spliced unknown list."""
    if t[0] in ('list', 'tuple'):
        out = []
        for x in t[1]:
            out += flat(x[1], consts) if x[0] == 'star' else [x]
        return out
    if t[0] == 'op' and t[1] == 'Add':
        return flat(t[2], consts) + flat(t[3], consts)
    if t[0] == 'concat':
        return [y for x in t[1:] for y in flat(x, consts)]
    if is_call(t, 'list') or is_call(t, 'tuple'):
        return flat(t[2][0], consts) if t[2] else []
    if t[0] == 'name' and consts.get(t[1]) is not None:
        return flat(consts.get(t[1]), consts)
    if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] == 'copy':
        return flat(t[1][1], consts)
    return [('all', t)]


def text(t, consts):
    """A term as text, constants of the module and concatenations resolved."""
    if t[0] == 'const':
        return str(t[1])
    if t[0] == 'name' and consts.get(t[1]) is not None:
        return text(consts.get(t[1]), consts)
    if t[0] == 'op' and t[1] == 'Add':
        return text(t[2], consts) + text(t[3], consts)
    if t[0] in ('fstr', 'join'):
        return ''.join(text(x, consts) for x in t[1])
    if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] == 'join' and len(t[2]) == 1:
        els = flat(t[2][0], consts)
        return text(t[1][1], consts).join(text(x, consts) for x in els)
    return '<%s>' % show(t)


def arguments(c, p):
    c.rule('arguments', 'the backend command line has the flags implied by the options, with the configured programs, and ends with the arguments of the user')
    common = {}
    for kind, fname in (('silicon', 'build_silicon_backend_args'), ('carbon', 'build_carbon_backend_args')):
        f = p.modules[NT + 'verifier'].functions[fname]
        sim = PathSim(f, raises=no_raise)
        consts = Consts(f.module, sim.ev)
        n = 0
        for t, st in sim.returns():
            n += 1
            els = flat(t, consts)
            strs = [text(x, consts) if x[0] != 'all' else '<all %s>' % show(x[1]) for x in els]
            where = '%s (lines %s)' % (f.loc(), sim.where(st)[-1] if sim.where(st) else '')
            what = lambda x: '%s in %s' % (x, f.qual)
            last = els[-1] if els else None
            c.expect(last is not None and last[0] == 'all' and identity(last[1]) == 'viper args', 'arguments',
                     what('user arguments'), where, 'the user\'s arguments are not last, so they cannot override the others')
            unknown = [x for x in els[:-1] if x[0] == 'all']
            c.expect(not unknown, 'arguments', what('other arguments'), where, 'unknown arguments %s' % unknown)
            for flag, opt in (('--z3Exe', 'z3'),) + ((('--boogieExe', 'boogie'),) if kind == 'carbon' else ()):
                at = [i for i, s in enumerate(strs) if s == flag]
                ok = len(at) == 1 and at[0] + 1 < len(els) and identity(els[at[0] + 1]) == opt and \
                    els[at[0] + 1][0] == 'attr' and els[at[0] + 1][1] == ('name', 'config')
                c.expect(ok, 'arguments', what(flag), where, 'is not followed by the configured path')
            for flag in BASE + (SILICON_ONLY if kind == 'silicon' else ()):
                c.expect(strs.count(flag) == 1, 'arguments', what(flag), where, 'missing or repeated')
            pl = [s for s in strs if s.startswith('--plugin')]
            if kind == 'silicon':
                k = [i for i, s in enumerate(strs) if s == '--plugin']
                pl = ['--plugin=' + strs[i + 1] for i in k] or pl
            names = [x for s in pl for x in s.split('=', 1)[-1].split(':')]
            for x in PLUGINS:
                c.expect(x in names, 'arguments', what(x), where, 'plugin not enabled')
            common.setdefault(kind, set()).add(tuple(sorted(names)))
            if kind == 'silicon':
                cex, nb = given(st.conds, 'cex'), given(st.conds, 'no branch conditions')
                for flag in ('--counterexample=native', '--proverArgs=model.partial=true'):
                    has_it = flag in strs
                    c.expect(cex is not None and has_it == cex, 'arguments', what(flag), where,
                             '%s although counterexamples are %s' % (
                                 'given' if has_it else 'missing', {True: 'requested', False: 'not requested',
                                                                    None: 'requested or not'}[cex]))
                has_it = '--enableBranchconditionReporting' in strs
                c.expect(nb is not None and has_it != nb, 'arguments', what('--enableBranchconditionReporting'), where,
                         '%s although branch conditions are %s' % (
                             'given' if has_it else 'missing', {True: 'disabled', False: 'not disabled',
                                                                None: 'enabled or not'}[nb]))
            for i, s in enumerate(strs):
                if s.startswith('<') and not (i and strs[i - 1] in ('--z3Exe', '--boogieExe')) and els[i][0] != 'all':
                    c.bad('arguments', what(s), where, 'the argument is not determined by the documented options')
        c.expect(n, 'arguments', f.qual, f.loc(), 'returns nothing')
    c.expect(common.get('silicon') == common.get('carbon'), 'arguments', 'plugins', NT + 'verifier',
             'the backends are given different plugins')


def builder_call(t):
    """(builder name, bound arguments ok) of a term that is a call of an argument builder."""
    return callee_name(t) if t[0] == 'call' and callee_name(t) in (
        'build_silicon_backend_args', 'build_carbon_backend_args') else None


def built_from(c, p, t, conds, fi, rule, kind=None):
    """The term is the argument list of the right builder with the right options."""
    what = 'backend arguments in %s' % fi.qual
    b = builder_call(t)
    if b is None:
        if t == ('attr', ('param', 'self'), 'backend_args'):
            return
        c.bad(rule, what, fi.loc(), '%s is not built by the shared argument builders' % show(t))
        return
    f = p.modules[NT + 'verifier'].functions[b]
    name = b.split('_')[1]
    args = bound(t, f)
    for prm in f.all_params:
        c.expect(prm in args and identity(args[prm]) == identity(('param', prm)), rule, '%s of %s in %s' % (prm, b, fi.qual),
                 fi.loc(), 'receives %s' % (show(args[prm]) if prm in args else 'nothing'))
    if kind is not None:
        c.expect(kind == name, rule, what, fi.loc(), 'the %s backend is run with the arguments of %s' % (kind, name))
    else:
        other = {'silicon': 'carbon', 'carbon': 'silicon'}[name]
        is_it, is_other = backend_on(conds, name), backend_on(conds, other)
        c.expect(is_it or is_other is False, rule, what, fi.loc(),
                 'the arguments of %s are built on a path where the backend may be %s' % (name, other))


def builders(c, p):
    c.rule('same arguments', 'every backend is started with the arguments of the shared builder for it, from the same options')
    n = 0
    for mod in ('verifier', 'viper_server', 'service', 'main'):
        m = p.modules[NT + mod]
        for fi in p.all_functions(prefix=NT + mod):
            if fi.module is not m or not any(
                    isinstance(x, ast.Call) and attr_name(x) in ('initialize', 'submit', 'verify') or
                    isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == 'backend_args'
                    for x in ast.walk(fi.node)):
                continue
            sim = PathSim(fi, raises=no_raise, relevant=lambda t: 'backend' in (
                identity(x) for x in subterms(t)), want=lambda t: callee_name(t) in (
                    'initialize', 'submit', 'verify') if t[0] == 'call' else t[0] == 'set' and t[2] == 'backend_args')
            for st in every(sim):
                for e in st.events:
                    if e[0] == 'set':
                        n += 1
                        built_from(c, p, e[3], st.conds, fi, 'same arguments')
                    elif callee_name(e) == 'initialize':
                        n += 1
                        seq = e[2][0] if e[2] else ('const', None)
                        front = {x for x in subterms(e[1]) if x[0] == 'attr' and x[2].endswith('FrontendAPI')}
                        kind = 'silicon' if any('Silicon' in x[2] for x in front) else \
                            'carbon' if any('Carbon' in x[2] for x in front) else None
                        c.expect(is_call(seq, 'list_to_seq'), 'same arguments', 'initialize in %s' % fi.qual, fi.loc(),
                                 'is given %s' % show(seq))
                        if is_call(seq, 'list_to_seq') and seq[2]:
                            built_from(c, p, seq[2][0], st.conds, fi, 'same arguments', kind)
                    elif callee_name(e) == 'submit' and fi.name != 'submit' and (
                            show(e[1][1]).endswith('manager') or is_call(e[1][1], 'get_viper_server_manager')):
                        n += 1
                        sub = klass(p, 'ViperServerManager').methods['submit']
                        a = bound(e, sub)
                        built_from(c, p, a.get('backend_args', ('const', None)), st.conds, fi, 'same arguments')
                        c.expect(identity(a.get('backend', ('const', None))) == 'backend', 'same arguments',
                                 'submit in %s' % fi.qual, fi.loc(), 'is not given the selected backend')
    c.expect(n >= 5, 'same arguments', 'backend starts', NT, 'only %d found' % n)


def submit(c, p):
    c.rule('submission', 'the server is given the program and the arguments unchanged, under the configuration of the selected backend')
    f = klass(p, 'ViperServerManager').methods['submit']
    n = 0
    for t, st in PathSim(f, raises=no_raise).returns():
        n += 1
        if not (is_call(t, 'verify') and len(t[2]) >= 3 and t[1][1] == ('attr', ('param', 'self'), 'server')):
            c.bad('submission', f.qual, f.loc(), 'returns %s, not the submitted job' % show(t))
            continue
        pid, cfg, prog = t[2][:3]
        c.expect(prog == ('param', 'prog'), 'submission', 'program in %s' % f.qual, f.loc(), 'is %s' % show(prog))
        c.expect(pid == ('param', 'program_id'), 'submission', 'identifier in %s' % f.qual, f.loc(), 'is %s' % show(pid))
        kinds = {x[2] for x in subterms(cfg) if x[0] == 'attr' and x[2].endswith('Config')}
        want = 'CarbonConfig' if backend_on(st.conds, 'carbon') or backend_on(st.conds, 'silicon') is False else \
            'SiliconConfig'
        c.expect(kinds == {want}, 'submission', 'configuration in %s' % f.qual, f.loc(),
                 '%s where the backend is configured by %s' % (', '.join(sorted(kinds)), want))
        seqs = [x for x in subterms(cfg) if is_call(x, 'list_to_seq')]
        c.expect(len(seqs) == 1 and seqs[0][2][0] == ('param', 'backend_args'), 'submission', 'arguments in %s' % f.qual,
                 f.loc(), 'are not the given arguments')
    c.expect(n >= 2, 'submission', f.qual, f.loc(), 'does not distinguish the backends')
    # the sequence that is handed to the backends has every element at its place
    g = p.modules[NT + 'lib.util'].functions['list_to_seq']
    sim = PathSim(g, raises=no_raise, env={'lst': ('param', 'lst')})
    lst = ('param', 'lst')
    ups = {e for st in every(sim) for e in st.events if callee_name(e) == 'update'}
    for e in ups:
        c.expect(e[2] == (('idx', lst), ('elem', lst)), 'submission', 'list_to_seq', g.loc(), 'stores %s' % show(e))
    c.expect(len(ups) == 1, 'submission', 'list_to_seq', g.loc(), 'elements are not stored')
    loops = [x for x in walk_shallow(g.node) if isinstance(x, ast.For)]
    c.expect(all(not any(isinstance(y, (ast.Break, ast.Continue, ast.If, ast.Return)) for y in ast.walk(x)) for x in loops),
             'submission', 'list_to_seq', g.loc(), 'elements may be skipped')
    for t, st in sim.returns():
        arr = [x for x in st.events if is_call(x, 'get_array')]
        c.expect(is_call(t, 'toSeq'), 'submission', 'list_to_seq', g.loc(), 'returns %s' % show(t))
        c.expect(arr and all(x[2][1] == ('call', ('name', 'len'), (lst,), ()) for x in arr), 'submission',
                 'list_to_seq', g.loc(), 'the sequence does not have the length of the list')


def result_reader(c, fi, prog_ok):
    """verify methods of the backends."""
    rule = 'results'
    sim = PathSim(fi, raises=no_raise, totals=True)
    n, kinds = 0, set()
    for t, st in sim.returns():
        n += 1
        what = 'result of %s' % fi.qual
        arp = given(st.conds, 'arp')
        tests = [(x, b) for x, b in st.conds if is_call(x, 'isinstance') and show(x[2][1]).endswith('Failure')]
        if not tests:
            # success or failure may also be tested the other way around
            tests = [(x, not b) for x, b in st.conds if is_call(x, 'isinstance') and show(x[2][1]).endswith('Success')]
        if len(tests) != 1:
            c.bad(rule, what, fi.loc(), 'the kind of the result is not tested on the path returning %s' % show(t))
            continue
        res, fails = tests[0][0][2][0], tests[0][1]
        kinds.add((arp, fails))
        mapped = is_call(res, 'map_result')
        c.expect(arp is not None and mapped == arp, rule, what, fi.loc(), 'the result is %s by the plugin although '
                 'abstract read permissions are %s' % ('mapped' if mapped else 'not mapped', {
                     True: 'used', False: 'not used', None: 'used or not'}[arp]))
        raw = res[2][0] if mapped and res[2] else res
        prog_ok(raw)
        if fails:
            if not (is_call(t, 'Failure') and t[1] == ('name', 'Failure')):
                c.bad(rule, what, fi.loc(), 'a failure is reported as %s' % show(t))
                continue
            init = klass(c.project, 'Failure').methods['__init__']
            a = bound(t, init)
            errs = a.get('errors', ('const', None))
            src = ('call', ('attr', res, 'errors'), (), ())
            why = complete(errs, src)
            c.expect(why is None, rule, 'errors of %s' % fi.qual, fi.loc(), 'not all errors of the result: %s' % why)
            c.expect(a.get('modules') == ('param', 'modules'), rule, 'modules of %s' % fi.qual, fi.loc(),
                     'are %s' % show(a.get('modules', ('const', None))))
        else:
            c.expect(t == ('call', ('name', 'Success'), (), ()), rule, what, fi.loc(), 'a success is reported as %s' % show(t))
    c.expect({(True, True), (False, True), (True, False), (False, False)} <= kinds, rule, 'cases of %s' % fi.qual,
             fi.loc(), 'not all kinds of results are distinguished')


def results(c, p):
    c.rule('results', 'a failure of the backend becomes a failure with all its errors, anything else a success, the same way for all backends')
    names = ('Silicon', 'Carbon', 'ViperServer')
    sigs = set()
    for name in names:
        f = klass(p, name).methods['verify']

        def prog_ok(raw, name=name, f=f):
            what = 'program in %s' % f.qual
            if name != 'ViperServer':
                own = ('attr', ('param', 'self'), name.lower())
                ok = raw[0] == 'call' and raw[1] == ('attr', own, 'verify') and raw[2] == (('param', 'prog'),)
            else:
                ok = False
                if is_call(raw, 'await_result') and len(raw[2]) == 1 and is_call(raw[2][0], 'submit'):
                    a = bound(raw[2][0], klass(p, 'ViperServerManager').methods['submit'])
                    ok = a.get('prog') == ('param', 'prog')
                    pid = a.get('program_id', ('const', None))
                    c.expect(('attr', ('param', 'self'), 'filename') in set(subterms(pid)), 'results',
                             'program identifier in %s' % f.qual, f.loc(), 'is %s, not the file' % show(pid))
            c.expect(ok, 'results', what, f.loc(), 'the result is %s, not the one of verifying the given program' % show(raw))
        result_reader(c, f, prog_ok)
        a = f.node.args
        sigs.add((tuple(x.arg for x in a.args), tuple(ast.dump(x) for x in a.defaults)))
    c.expect(len(sigs) == 1, 'results', 'interface', NT + 'verifier', 'the verify methods have different parameters')
    # awaiting a result hands on the result of that job
    m = klass(p, 'ViperServerManager')
    fut = m.methods.get('result_future')
    f = m.methods['await_result']
    for t, st in PathSim(f, raises=no_raise).returns():
        ok = ('param', 'job_id') in set(subterms(t)) and (is_call(t, '_await') or is_call(t, 'result'))
        c.expect(ok, 'results', f.qual, f.loc(), 'returns %s' % show(t))
        finite = [x for x in subterms(t) if x[0] == 'call' and (len(x[2]) > 1 and callee_name(x) == '_await' or
                                                                any(k == 'timeout_ms' and v != ('const', None) for k, v in x[3]))]
        c.expect(not finite, 'results', 'waiting in %s' % f.qual, f.loc(), 'only waits for a limited time')
    if fut is not None:
        for t, st in PathSim(fut, raises=no_raise).returns():
            c.expect(is_call(t, 'getResultsFuture') and ('param', 'job_id') in t[2] and
                     ('attr', ('param', 'self'), 'server') in t[2], 'results', fut.qual, fut.loc(), 'returns %s' % show(t))
    dur = m.methods.get('_duration')
    if dur is not None:
        for t, st in PathSim(dur, raises=no_raise).returns():
            limited = not is_call(t, 'Inf')
            none = any(x[0] == 'is_none' and x[1] == ('param', 'timeout_ms') and b for x, b in st.conds)
            c.expect(limited != none, 'results', dur.qual, dur.loc(), 'the waiting time is %s' % show(t))
    # truth of results
    for name, val in (('Success', True), ('Failure', False)):
        f = klass(p, name).methods.get('__bool__')
        c.expect(f is not None and {t for t, _ in PathSim(f).returns()} == {('const', val)}, 'results',
                 'truth of %s' % name, NT + 'verifier', 'is not %s' % val)


def concurrent_reader(c, p):
    """The concurrent run of the service interprets the result as the backends do."""
    f = klass(p, 'VerificationService').methods['_verify_concurrent']
    c.rule('concurrent', 'the concurrent runs of the service interpret results as the backends do')
    sim = PathSim(f, raises=no_raise, totals=True, want=lambda t: callee_name(t) in (
        'Failure', 'submit', 'translate', 'await_result', 'VerifyResult') if t[0] == 'call' else False,
        relevant=lambda t: any(callee_name(x) in ('isinstance', 'await_result') for x in subterms(t)))
    n = 0
    for t, st in sim.returns():
        sub = [e for e in st.events if callee_name(e) == 'submit']
        awaited = [e for e in st.events if callee_name(e) == 'await_result']
        if not awaited:
            continue
        n += 1
        tests = [(x, b) for x, b in st.conds if is_call(x, 'isinstance') and show(x[2][1]).endswith('Failure') and
                 x[2][0] in awaited]
        none = any(x[0] == 'is_none' and x[1] in awaited and b for x, b in st.conds)
        good = t[0] == 'call' and t[2] and t[2][0] == ('const', True)
        if good:
            c.expect(tests and not tests[0][1] and not none, 'concurrent', 'success in %s' % f.qual, f.loc(),
                     'reported without testing the result for a failure')
        elif tests and tests[0][1]:
            fs = [e for e in st.events if callee_name(e) == 'Failure']
            src = ('call', ('attr', awaited[0], 'errors'), (), ())
            init = klass(p, 'Failure').methods['__init__']
            ok = fs and complete(bound(fs[0], init).get('errors', ('const', None)), src) is None
            c.expect(ok, 'concurrent', 'errors in %s' % f.qual, f.loc(), 'not all errors of the result are converted')
            if fs:
                tr = [x for x in subterms(bound(fs[0], init).get('modules', ('const', None))) if is_call(x, 'translate')]
                c.expect(tr, 'concurrent', 'modules in %s' % f.qual, f.loc(), 'are not the ones translated')
        else:
            c.expect(none or not tests or tests[0][1], 'concurrent', 'failure in %s' % f.qual, f.loc(),
                     'a result that is no failure is reported as one')
        for e in sub:
            a = bound(e, klass(p, 'ViperServerManager').methods['submit'])
            pr = a.get('prog', ('const', None))
            c.expect(pr[0] in ('item', 'proj', 'sub') and any(is_call(x, 'translate') for x in subterms(pr)) and
                     pr[2] in (1, ('const', 1)), 'concurrent', 'program in %s' % f.qual, f.loc(),
                     'the submitted program is %s, not the translated one' % show(pr))
            c.expect(identity(a.get('program_id', ('const', None))) is None and
                     a.get('program_id') == ('param', 'path'), 'concurrent', 'identifier in %s' % f.qual, f.loc(),
                     'is %s' % show(a.get('program_id', ('const', None))))
    c.expect(n >= 2, 'concurrent', f.qual, f.loc(), 'no results are read')


def selection(c, p):
    c.rule('selection', 'the requested backend is used; the server stands in for it only where it is equivalent, and if it cannot be used the direct backend is')
    f = p.modules[NT + 'main'].functions['get_verifier']
    n = 0
    for mode in ('plain', 'exceptions'):
        server = lambda t: callee_name(t) in ('ViperServer', 'get_viper_server_manager')
        sim = PathSim(f, attempts=server, **({'raises': no_raise} if mode == 'plain' else {}))
        kinds = set()
        for t, st in sim.returns():
            n += 1
            if any(x[0] == 'cmp' and x[1] == 'in' and identity(x[2]) == 'backend' and not b for x, b in st.conds) and \
                    any(backend_on(st.conds, k) for k in ('silicon', 'carbon')):
                # both backends are in the set tested, so the path does not exist
                lists = [x[3] for x, b in st.conds if x[0] == 'cmp' and x[1] == 'in' and not b]
                if all(len(y[1]) >= 2 for y in lists if y[0] in ('list', 'tuple', 'set')):
                    continue
            what = 'choice in %s' % f.qual
            if t == ('const', None):
                ok = backend_on(st.conds, 'silicon') is False and backend_on(st.conds, 'carbon') is False
                c.expect(ok, 'selection', what, f.loc(), 'no backend although one is requested')
                continue
            k = callee_name(t)
            if k == 'ViperServer':
                c.expect(given(st.conds, 'arp') is False and given(st.conds, 'sif') is False, 'selection', what, f.loc(),
                         'the server is used although information flow or abstract read permissions may be needed')
                c.expect(given(st.conds, 'server') is True, 'selection', what, f.loc(),
                         'the server is used although it may be disabled')
                kinds.add(k)
                continue
            if k not in ('Silicon', 'Carbon'):
                c.bad('selection', what, f.loc(), 'returns %s' % show(t))
                continue
            kinds.add((k, any(e[0] == 'handler' for e in st.events)))
            ok = backend_on(st.conds, k.lower()) or backend_on(
                st.conds, {'Silicon': 'carbon', 'Carbon': 'silicon'}[k]) is False
            c.expect(ok, 'selection', what, f.loc(), '%s is used where another backend may be requested' % k)
        want = {'ViperServer', ('Silicon', False), ('Carbon', False)}
        if mode == 'exceptions':
            want |= {('Silicon', True), ('Carbon', True)}
            for t, st in sim.raises():
                tried = [e[1] for e in st.events if e[0] == 'attempt']
                c.expect(not tried or any(e[0] == 'handler' for e in st.events), 'selection',
                         'fallback in %s' % f.qual, f.loc(), 'a failure of %s is not followed by using the direct backend' % (
                             show(tried[-1]) if tried else ''))
        c.expect(want <= kinds, 'selection', 'choices in %s' % f.qual, f.loc(), 'never used: %s' % (want - kinds))
    v = p.modules[NT + 'main'].functions['verify']
    for t, st in PathSim(v, raises=no_raise).returns():
        ok = is_call(t, 'verify') and is_call(t[1][1], 'get_verifier')
        c.expect(ok, 'selection', 'result of %s' % v.qual, v.loc(), 'is %s, not the one of the backend' % show(t))
        if ok:
            a = bound(t, klass(p, 'Silicon').methods['verify'])
            c.expect(a.get('prog') == ('param', 'prog') and a.get('modules') == ('param', 'modules'), 'selection',
                     'program of %s' % v.qual, v.loc(), 'is not the given one')
    # the backend classes start what they are named after
    for name in ('Silicon', 'Carbon'):
        init = klass(p, name).methods['__init__']
        sim = PathSim(init, raises=no_raise)
        for t, st in sim.returns():
            sets = [e[3] for e in st.events if e[0] == 'set' and e[2] == name.lower()]
            ok = sets and is_call(sets[-1], 'Minimal%sFrontendAPI' % name)
            c.expect(ok, 'selection', 'frontend of %s' % name, init.loc(), 'is not the one of %s' % name)
            started = [e for e in st.events if e[0] == 'call' and callee_name(e) == 'initialize' and sets and
                       e[1][1] in (sets[-1], ('attr', ('param', 'self'), name.lower()))]
            c.expect(started, 'selection', 'start of %s' % name, init.loc(), 'the frontend is not initialised')
    # the transformation of the program for abstract read permissions
    tr = p.modules[NT + 'main'].functions['translate']
    sim = PathSim(tr, raises=no_raise, relevant=lambda t: identity(t) == 'arp', want=lambda t: callee_name(t) in (
        'before_verify', 'beforeVerify') if t[0] == 'call' else False)
    got = set()
    for t, st in sim.returns():
        if t[0] != 'tuple' or not any(is_call(x, 'translate_program') for x in subterms(t)):
            continue
        arp = given(st.conds, 'arp')
        done = any(is_call(x, 'before_verify') for x in subterms(t[1][1]))
        got.add((arp, done))
        c.expect(arp is not None and arp == done, 'selection', 'transformation in %s' % tr.qual, tr.loc(),
                 'the program is %s for abstract read permissions where they are %s' % (
                     'transformed' if done else 'not transformed', 'used' if arp else 'not used'))
    c.expect(got >= {(True, True), (False, False)}, 'selection', 'transformation in %s' % tr.qual, tr.loc(), 'not found')


def check(c):
    p = c.project
    arguments(c, p)
    builders(c, p)
    submit(c, p)
    results(c, p)
    concurrent_reader(c, p)
    selection(c, p)


if __name__ == '__main__':
    run('C18', 'All backends get equivalent runs and their results are read the same way', check)

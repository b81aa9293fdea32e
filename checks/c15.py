from _common import *

JOBS = ('attr', ('param', 'self'), '_jobs')


def kw(t, name, i=None):
    for k, v in t[3]:
        if k == name:
            return v
    return t[2][i] if i is not None and len(t[2]) > i else None


def lookups(t, token):
    """Sub-terms that look up a job by the token."""
    return [x for x in subterms(t) if
            (x[0] == 'call' and x[1] == ('attr', JOBS, 'get') and x[2] and x[2][0] == token) or
            (x[0] == 'sub' and x[1] == JOBS and x[2] == token)]


def quiet(n):
    """May raise, apart from the dictionary operations on the job table."""
    for x in ast.walk(n):
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(x, (ast.Raise, ast.Assert, ast.Await)):
            return True
        if isinstance(x, ast.Call):
            if isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Attribute) and \
                    x.func.value.attr == '_jobs':
                continue
            if attr_name(x) in ('_Job', 'object', 'time', 'VerifyResult', 'isinstance', 'debug'):
                continue
            return True
    return False


def registration(c, svc):
    c.rule('registration', 'a run registers itself under its token, and on every exit removes only its own registration')
    regs = 0
    for m in svc.methods.values():
        if not any(isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Attribute)
                   and n.value.attr == '_jobs' for n in ast.walk(m.node)):
            continue
        sim = PathSim(m, raises=quiet, want=lambda t: t[0] in ('setitem', 'del') or t[0] == 'call' and (
            callee_name(t) in ('_verify_concurrent', 'submit', 'await_result', 'translate') or
            t[1][0] == 'attr' and t[1][1] == JOBS))
        for kind, outs in (('return', sim.returns()), ('exception', sim.raises())):
            for t, st in outs:
                reg = [e for e in st.events if e[0] == 'setitem' and e[1] == JOBS]
                gone = [e for e in st.events if e[0] == 'del' and e[1] == JOBS or
                        e[0] == 'call' and e[1] == ('attr', JOBS, 'pop')]
                where = sim.where(st, kind == 'exception')
                if not reg:
                    c.expect(not gone, 'registration', 'removal without registration in %s' % m.qual, m.loc(),
                             'a registration of another run is removed (lines %s)' % where)
                    continue
                regs += 1
                token, job = reg[-1][2], reg[-1][3]
                own = own_test(st.conds, token, job)
                first = [i for i, e in enumerate(st.events) if e[0] == 'call' and callee_name(e) in (
                    'await_result', '_verify_concurrent')]
                c.expect(not first or st.events.index(reg[0]) < first[0], 'registration',
                         'registration in %s precedes the run' % m.qual, m.loc(), 'the job is registered only afterwards')
                if gone:
                    tok = gone[-1][2] if gone[-1][0] == 'del' else gone[-1][2][0]
                    c.expect(tok == token, 'registration', 'removed token in %s' % m.qual, m.loc(),
                             'removes %s' % show(tok))
                    c.expect(own is True, 'registration', 'removal in %s' % m.qual, m.loc(),
                             'a registration is removed without checking that it is the own one (lines %s)' % where)
                else:
                    c.expect(own is False, 'registration', 'exit of %s by %s' % (m.qual, kind), m.loc(),
                             'the own registration stays (lines %s)' % where)
                c.expect(fresh(job), 'registration', 'registered job in %s' % m.qual, m.loc(),
                         'registers %s, which other runs may share' % show(job))
    c.expect(regs, 'registration', 'runs are registered', svc.module.relpath, 'no run is ever registered')
    for m in svc.methods.values():
        for n in ast.walk(m.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Attribute) and \
                    n.func.value.attr == '_jobs' and n.func.attr in ('clear', 'popitem', 'update', 'setdefault'):
                c.bad('registration', '%s in %s' % (n.func.attr, m.qual), m.loc(n), 'changes registrations of other runs')
            if isinstance(n, ast.Attribute) and n.attr == '_jobs' and isinstance(n.ctx, ast.Store) and m.name != '__init__':
                c.bad('registration', 'job table replaced in %s' % m.qual, m.loc(n), 'registrations of other runs are lost')


def own_test(conds, token, job):
    """Is the registered job known (not) to be the own one?"""
    for t, b in conds:
        if t[0] == 'cmp' and t[1] in ('is', '=='):
            for l, r in ((t[2], t[3]), (t[3], t[2])):
                if r == job and lookups(l, token) == [l]:
                    return b
        if t[0] == 'cmp' and t[1] == 'in' and t[2] == token and t[3] == JOBS and not b:
            return False
        if t[0] == 'is_none' and b and lookups(t[1], token) == [t[1]]:
            return False
    return None


def fresh(t):
    return t[0] == 'call' and callee_name(t) in ('_Job', 'submit', 'object')


def mk_fresh_names(c, svc):
    return {cl.name for cl in svc.module.classes.values()}


def cancelling(c, svc):
    c.rule('cancel', 'a cancellation with a token concerns exactly the job of that token, one without concerns all')
    f = svc.methods['cancel']
    token = ('param', [p for p in f.all_params if p != 'self'][0])
    sim = PathSim(f, raises=quiet, want=lambda t: t[0] in ('set', 'handler', 'setitem', 'del') or t[0] == 'call' and (
        callee_name(t) in ('cancel_job', 'cancel_all')))
    n = {'token': 0, 'all': 0}
    flagged = any(isinstance(x, ast.Attribute) and x.attr == 'cancelled' and isinstance(x.ctx, ast.Store)
                  for x in ast.walk(f.node))
    for t, st in sim.returns():
        if any(e[0] == 'handler' for e in st.events):
            continue
        if has(st.conds, lambda x: x[0] == 'attr' and x[2] == 'use_viper_server', False):
            c.ok('cancel', f.loc(), 'nothing can be cancelled')
            continue
        none = True if (('is_none', token), True) in st.conds else False if (('is_none', token), False) in st.conds \
            else None
        one = [e for e in st.events if is_call(e, 'cancel_job')]
        every = [e for e in st.events if is_call(e, 'cancel_all')]
        c.expect(none is not None, 'cancel', 'cancel distinguishes its cases', f.loc(),
                 'the token is not tested for being absent (lines %s)' % sim.where(st))
        if none:
            n['all'] += 1
            c.expect(every, 'cancel', 'cancelling everything', f.loc(), 'not all jobs are cancelled (lines %s)' % sim.where(st))
            continue
        c.expect(not every, 'cancel', 'cancelling one job', f.loc(), 'all jobs are cancelled (lines %s)' % sim.where(st))
        for e in one:
            ls = lookups(e, token)
            c.expect(ls, 'cancel', 'cancelled job', f.loc(), 'cancels %s' % show(e[2][0]))
        found = [x for x, b in st.conds if x[0] == 'is_none' and not b and lookups(x[1], token) == [x[1]]] + \
            [x for x, b in st.conds if b and x[0] == 'cmp' and x[1] == 'in' and x[2] == token and x[3] == JOBS] + \
            [x for x, b in st.conds if b and lookups(x, token) == [x]]
        absent = has(st.conds, lambda x: x[0] == 'is_none' and lookups(x[1], token) == [x[1]], True) or \
            has(st.conds, lambda x: x[0] == 'cmp' and x[1] == 'in' and x[2] == token, False) or \
            has(st.conds, lambda x: lookups(x, token) == [x], False)
        if found:
            n['token'] += 1
            if flagged:
                sets = [e for e in st.events if e[0] == 'set' and e[2] == 'cancelled' and lookups(e[1], token)]
                c.expect(any(e[3] == ('const', True) for e in sets), 'cancel', 'flag of the cancelled job', f.loc(),
                         'a job that is not submitted yet is not told that it is cancelled')
            nosub = has(st.conds, lambda x: x[0] == 'is_none' and x[1][0] == 'attr' and x[1][2] == 'job_id', True) or has(
                st.conds, lambda x: x[0] == 'attr' and x[2] == 'job_id', False)
            c.expect(one or nosub, 'cancel', 'submitted job is stopped', f.loc(),
                     'a running job is not stopped (lines %s)' % sim.where(st))
        else:
            c.expect(absent, 'cancel', 'cancel looks up the job', f.loc(), 'no job is looked up (lines %s)' % sim.where(st))
            c.expect(not [e for e in st.events if e[0] in ('set', 'call')], 'cancel', 'unknown token', f.loc(),
                     'a token without a job has an effect')
    c.expect(n['token'] and n['all'], 'cancel', 'both cases exist', f.loc(), 'cases found: %s' % n)
    # all jobs that are still translated are told as well
    if flagged:
        loops = [x for x in ast.walk(f.node) if isinstance(x, ast.For) and any(
            isinstance(y, ast.Attribute) and y.attr == '_jobs' for y in ast.walk(x.iter))]
        ok = False
        for x in loops:
            it = PathSim(f, node=once_per_iteration(x, '__n__'), want=lambda t: t[0] == 'set')
            outs = list(it.returns())
            ok = ok or outs and all(t[1][0][1] == 'next' and any(
                e[2] == 'cancelled' and e[3] == ('const', True) for e in st.events) for t, st in outs)
        c.expect(ok, 'cancel', 'flags of all jobs', f.loc(), 'jobs that are not submitted yet are not told')


def window(c, svc):
    c.rule('window', 'a job that was cancelled before or after its submission never reports a verdict')
    f = svc.methods['_verify_concurrent']
    sim = PathSim(f, raises=quiet, want=lambda t: t[0] in ('set', 'handler') or t[0] == 'call' and callee_name(t) in (
        'submit', 'await_result', 'cancel_job', 'VerifyResult'),
        relevant=lambda t: any(x[0] == 'attr' and x[2] == 'cancelled' for x in subterms(t)))
    vr = svc.module.classes['VerifyResult']
    fields = [s.target.id for s in vr.node.body if isinstance(s, ast.AnnAssign)]
    n = 0
    for t, st in sim.returns():
        subs = [e for e in st.events if is_call(e, 'submit')]
        if not subs or not is_call(t, 'VerifyResult'):
            continue
        canc = kw(t, 'cancelled', fields.index('cancelled'))
        is_c = canc == ('const', True)
        succ = kw(t, 'success', 0)
        n += 1
        waited = any(is_call(e, 'await_result') for e in st.events)
        flag = [b for x, b in st.conds if x[0] == 'attr' and x[2] == 'cancelled']
        if any(e[0] == 'handler' for e in st.events) and not waited:
            c.expect(is_c and succ == ('const', False), 'window', 'failed wait', f.loc(),
                     'a job that was stopped reports %s' % show(t)[:80])
            continue
        if True in flag:
            stopped = [e for e in st.events if is_call(e, 'cancel_job')]
            c.expect(is_c, 'window', 'early cancellation is reported', f.loc(), 'reports %s' % show(t)[:80])
            c.expect(waited or any(subs[-1] in set(subterms(e)) for e in stopped), 'window',
                     'early cancellation stops the job', f.loc(), 'the submitted job keeps running')
        else:
            c.expect(False in flag, 'window', 'verdict after submission', f.loc(),
                     'a verdict is reported without testing for a cancellation that came before submission (lines %s)' %
                     sim.where(st))
            c.expect(not is_c, 'window', 'a finished job is not cancelled', f.loc(), 'reports a cancellation (lines %s)' %
                     sim.where(st))
            sets = [e for e in st.events if e[0] == 'set' and e[2] == 'job_id']
            c.expect(any(e[3] == subs[-1] for e in sets), 'window', 'submitted job is known to cancel', f.loc(),
                     'the job identifier is not recorded, so a later cancellation cannot stop it')
    c.expect(n >= 3, 'window', 'outcomes after submission', f.loc(), 'only %d outcomes' % n)
    # publication of the identifier and test of the flag are one atomic step
    stores = [x for x in ast.walk(f.node) if isinstance(x, ast.Attribute) and x.attr == 'job_id' and isinstance(x.ctx, ast.Store)]
    reads = [x for x in ast.walk(f.node) if isinstance(x, ast.Attribute) and x.attr == 'cancelled' and
             isinstance(x.ctx, ast.Load)]
    for s in stores:
        w = [p for p in parents(s) if isinstance(p, ast.With)]
        ok = w and any(w[0] in list(parents(r)) for r in reads)
        # testing after publication (even later) is fine as well
        ok = ok or any(isinstance(r, ast.Attribute) and r.lineno > s.lineno for r in reads) and w
        c.expect(ok, 'window', 'publication and test', f.loc(s),
                 'a cancellation between the test and the publication of the identifier is lost')


def servers(c):
    c.rule('editor', 'a new run of a document first cancels the running one of that document, and only that')
    ls = c.project.cls(NT + 'lsp_server', 'NaginiLanguageServer')
    f = ls.methods['run_verification']
    uri = ('param', [p for p in f.all_params if p != 'self'][0])
    sim = PathSim(f, want=lambda t: t[0] == 'handler' or t[0] == 'call' and callee_name(t) in (
        'cancel', 'run_in_executor', '_verify_blocking'))
    n = 0
    for t, st in sim.returns():
        runs = [i for i, e in enumerate(st.events) if is_call(e, 'run_in_executor')]
        cans = [i for i, e in enumerate(st.events) if is_call(e, 'cancel')]
        nosvc = has(st.conds, lambda x: x[0] == 'is_none' and x[1][0] == 'attr' and x[1][2] == 'service', True) or has(
            st.conds, lambda x: x[0] == 'attr' and x[2] == 'service', False)
        for i in cans:
            e = st.events[i]
            c.expect(kw(e, 'job_token', 0) == uri, 'editor', 'cancelled token', f.loc(), 'cancels %s' % show(e))
        for i in runs:
            n += 1
            c.expect(nosvc or any(j < i for j in cans), 'editor', 'run supersedes the previous one', f.loc(),
                     'a new run starts without cancelling the previous one (lines %s)' % sim.where(st))
            c.expect(not any(j > i for j in cans), 'editor', 'own run is not cancelled', f.loc(), 'cancels its own run')
            e = st.events[i]
            c.expect(uri in e[2] or any(uri in set(subterms(x)) for x in e[2]), 'editor', 'run gets its document', f.loc(),
                     show(e)[:100])
    c.expect(n, 'editor', 'runs are started', f.loc(), 'no run is started')
    sim = PathSim(f, want=lambda t: t[0] in ('setitem', 'handler') or t[0] == 'call' and callee_name(t) in (
        'text_document_publish_diagnostics', 'run_in_executor'),
        relevant=lambda t: any(x[0] == 'attr' and x[2] == 'cancelled' for x in subterms(t)))
    n = 0
    for t, st in sim.returns():
        pub = [e for e in st.events if is_call(e, 'text_document_publish_diagnostics') or e[0] == 'setitem' and
               e[1][0] == 'attr' and 'diagnostics' in e[1][2]]
        flag = [b for x, b in st.conds if x[0] == 'attr' and x[2] == 'cancelled']
        for e in pub:
            n += 1
            c.expect(False in flag and True not in flag, 'editor', 'outcome of a superseded run', f.loc(),
                     'a cancelled run replaces the diagnostics of the document (lines %s)' % sim.where(st))
    c.expect(n, 'editor', 'outcomes are published', f.loc(), 'nothing is published')
    f = ls.methods['_verify_blocking']
    sim = PathSim(f)
    for t, st in sim.returns():
        ok = is_call(t, 'verify') and kw(t, 'job_token') == ('param', f.all_params[1])
        c.expect(ok, 'editor', 'token of the run', f.loc(), 'runs %s' % show(t)[:120])
    c.rule('tool', 'the tool server passes tokens on')
    mod = c.project.module(NT + 'mcp_server')
    n = 0
    for g in mod.functions.values():
        for x in ast.walk(g.node):
            if isinstance(x, ast.Call) and attr_name(x) in ('verify', 'cancel') and isinstance(x.func, ast.Attribute) and \
                    'service' in ast.unparse(x.func.value):
                if 'job_token' not in g.all_params:
                    c.bad('tool', '%s takes a token' % g.name, g.loc(x), 'no token can be given')
                    continue
                n += 1
                ks = [k.value for k in x.keywords if k.arg == 'job_token'] or (
                    x.args if attr_name(x) == 'cancel' else [])
                ok = ks and isinstance(ks[0], ast.Name) and ks[0].id == 'job_token'
                rebound = [y for y in ast.walk(g.node) if isinstance(y, ast.Name) and y.id == 'job_token' and
                           isinstance(y.ctx, ast.Store)]
                c.expect(ok and not rebound, 'tool', 'token in %s' % g.name, g.loc(x), 'calls %s' % ast.unparse(x)[:100])
    c.expect(n >= 4, 'tool', 'tools', mod.relpath, 'only %d tools pass a token' % n)


def backend(c):
    c.rule('stop', 'stopping a job stops exactly that job')
    m = c.project.cls(NT + 'viper_server', 'ViperServerManager')
    f = m.methods['cancel_job']
    jid = ('param', f.all_params[1])
    sim = PathSim(f, want=lambda t: t[0] == 'handler' or t[0] == 'call' and callee_name(t) in (
        'tell', 'discardJob', 'lookupJob', 'getInterruptFutureList', 'stop', 'cancel_all'))
    stops = 0
    for t, st in list(sim.returns()):
        if any(e[0] == 'handler' for e in st.events):
            continue
        tells = [e for e in st.events if is_call(e, 'tell')]
        looked = [x for e in st.events for x in subterms(e) if is_call(x, 'lookupJob')] + [
            x for y, b in st.conds for x in subterms(y) if is_call(x, 'lookupJob')]
        for e in st.events:
            if is_call(e, 'lookupJob') or is_call(e, 'discardJob'):
                c.expect(e[2] and e[2][0] == jid, 'stop', callee_name(e), f.loc(), 'concerns %s' % show(e))
            if callee_name(e) in ('getInterruptFutureList', 'stop', 'cancel_all'):
                c.bad('stop', 'scope of cancel_job', f.loc(), 'stops other jobs as well by %s' % show(e))
        for e in tells:
            stops += 1
            c.expect(any(is_call(x, 'lookupJob') and x[2][0] == jid for x in subterms(e[1])), 'stop', 'stopped actor',
                     f.loc(), 'tells %s' % show(e)[:100])
            c.expect(any(x[0] == 'const' and 'StopVerification' in str(x[1]) for a in e[2] for x in subterms(a)), 'stop',
                     'message to the actor', f.loc(), 'tells %s' % show(e)[:100])
        if not tells:
            notstarted = has(st.conds, lambda x: x[0] == 'attr' and x[2] in ('_started', 'started'), False)
            gone = any(True for x, b in st.conds if any(is_call(y, 'lookupJob') for y in subterms(x)) and (
                x[0] == 'is_none' and b or is_call(x, 'isDefined') and not b))
            c.expect(notstarted or gone, 'stop', 'every job that exists is stopped', f.loc(),
                     'a running job is not stopped (lines %s)' % sim.where(st))
    c.expect(stops, 'stop', 'jobs are stopped', f.loc(), 'no path stops a job')
    f = m.methods['cancel_all']
    sim = PathSim(f, want=lambda t: t[0] == 'call')
    ok = False
    for t, st in sim.returns():
        if has(st.conds, lambda x: x[0] == 'attr' and x[2] in ('_started', 'started'), False):
            continue
        ok = any(is_call(e, 'getInterruptFutureList') for e in st.events)
        c.expect(ok, 'stop', 'cancel_all', f.loc(), 'does not interrupt (lines %s)' % sim.where(st))


ALLOWED = {'cancel': ('NaginiLanguageServer', None), 'cancel_all': ('cancel',), 'cancel_job': ('cancel', '_verify_concurrent'),
           'getInterruptFutureList': ('cancel_all',)}


def scope(c):
    """Nothing but a cancellation (or the supersession in the editor server) stops jobs."""
    c.rule('scope', 'jobs are stopped by cancellations only')
    n = 0
    for mn in ('service', 'lsp_server', 'mcp_server', 'viper_server', 'main', 'client', 'verifier'):
        mod = c.project.modules.get(NT + mn)
        if mod is None:
            continue
        for fi in c.project.all_functions(prefix=mod.name):
            for x in ast.walk(fi.node):
                if not isinstance(x, ast.Call) or attr_name(x) not in ALLOWED or not isinstance(x.func, ast.Attribute):
                    continue
                n += 1
                k = attr_name(x)
                if k == 'cancel':
                    # of the service: by the front ends; of the own class: nowhere
                    ok = mn != 'service'
                else:
                    ok = fi.name in ALLOWED[k]
                c.expect(ok, 'scope', '%s in %s' % (k, fi.qual), fi.loc(x), 'stops jobs although nothing was cancelled')
    c.expect(n, 'scope', 'cancelling calls', NT, 'none found')


def main(c):
    scope(c)
    svc = c.project.cls(NT + 'service', 'VerificationService')
    registration(c, svc)
    cancelling(c, svc)
    window(c, svc)
    servers(c)
    backend(c)


if __name__ == '__main__':
    run('C15', 'Cancellation affects exactly the job of its token', main)

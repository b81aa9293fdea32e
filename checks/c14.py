from _common import *

STATE = '_state_lock'
LOCKS = ('Lock', 'RLock')
# calls that may take as long as a translation or a verification
LONG = {'translate', 'await_result', 'verify', 'verify_program', 'load_sil_files', '_verify_serial',
        '_verify_concurrent', 'ensure_service', '_verify_blocking'}


def lock_attrs(cls):
    out = {}
    for m in cls.methods.values():
        for n in ast.walk(m.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and attr_name(n.value) in LOCKS:
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self':
                        out.setdefault(t.attr, []).append((m, n, attr_name(n.value)))
    return out


def lock_of(e, locks, alias):
    if isinstance(e, ast.Attribute) and e.attr in locks:
        return e.attr
    if isinstance(e, ast.Name) and e.id in alias:
        return alias[e.id]
    return None


class Locks:
    """Runs a function over (held locks, phase) states and reports every node with its state."""

    def __init__(self, f, locks, entry=frozenset(), phase='none', step=None):
        self.alias = {}
        for n in walk_shallow(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                l = lock_of(n.value, locks, {})
                if l:
                    self.alias[n.targets[0].id] = l
        self.locks, self.f, self.stepf = locks, f, step
        self.visits = []            # (node, state before)
        self.acquires = []          # (node, lock, held)
        self.cfg = CFG(f.node)
        self.normal, self.exc, self.seen = run_paths(self.cfg, (entry, phase), self.transfer)

    def transfer(self, node, label, st):
        held, phase = st
        if node.kind in ('with_enter', 'with_exit'):
            l = lock_of(node.ast.context_expr, self.locks, self.alias)
            if l:
                if node.kind == 'with_enter':
                    if label == 'x':
                        return []
                    self.acquires.append((node, l, held))
                    held = held | {l}
                else:
                    held = held - {l}
                    if self.stepf:
                        phase = self.stepf('release', node, held, phase, l)
                return [(held, phase)]
        self.visits.append((node, st))
        for e in node_exprs(node) if node.ast is not None else ():
            for c in calls_in(e):
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and \
                        c.func.attr in ('acquire', 'release'):
                    l = lock_of(c.func.value, self.locks, self.alias)
                    if l and c.func.attr == 'acquire' and label != 'x':
                        self.acquires.append((node, l, held))
                        held = held | {l}
                    elif l and c.func.attr == 'release':
                        held = held - {l}
                        if self.stepf:
                            phase = self.stepf('release', node, held, phase, l)
        if self.stepf:
            phase = self.stepf(label, node, held, phase, None)
        return [(held, phase)]


def is_mgr(e, attr=None):
    """error_manager.<attr>"""
    return isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id in (
        'error_manager', 'manager') and e.value.id == 'error_manager' and (attr is None or e.attr == attr)


def guarded_uses(n):
    """What of the shared translation state this AST node touches."""
    if isinstance(n, ast.Call):
        nm = attr_name(n)
        if nm in ('translate', 'load_sil_files', 'verify_program', '_reset_obligations', '_verify_serial') or nm == 'Failure':
            yield nm
    if is_mgr(n):
        yield 'error_manager.' + n.attr
    if isinstance(n, ast.Attribute) and n.attr == 'obligation_config':
        yield 'config.obligation_config'
    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and (
            n.attr == 'sil_programs' or isinstance(n.value, ast.Name) and n.value.id == 'config'):
        yield ast.unparse(n)


def main(c):
    svc = c.project.cls(NT + 'service', 'VerificationService')
    mgr = c.project.cls(NT + 'lib.errors.manager', 'ErrorManager')
    mgr_state = sorted({t.attr for n in ast.walk(mgr.methods['__init__'].node)
                        if isinstance(n, (ast.Assign, ast.AnnAssign))
                        for t in (n.targets if isinstance(n, ast.Assign) else [n.target])
                        if isinstance(t, ast.Attribute)})
    locks = lock_attrs(svc)
    c.rule('locks', 'the locks exist, are created once and are mutual exclusion locks')
    c.expect(STATE in locks, 'locks', STATE, svc.module.relpath, 'the service creates no state lock')
    job_locks = [l for l in locks if l != STATE]
    c.expect(job_locks, 'locks', 'job lock', svc.module.relpath, 'the service creates no lock for its jobs')
    for l, sites in locks.items():
        c.expect(len(sites) == 1 and sites[0][0].name == '__init__', 'locks', l, svc.module.relpath,
                 'it is replaced outside the constructor')
    if STATE not in locks:
        return
    for l in locks:
        for m in svc.methods.values():
            for n in ast.walk(m.node):
                if isinstance(n, ast.Attribute) and n.attr == l and isinstance(n.ctx, (ast.Store, ast.Del)) and \
                        m.name != '__init__':
                    c.bad('locks', l + ' is replaced', m.loc(n), 'a lock is replaced while others may hold it')

    # locks held whenever a method is entered (greatest fixpoint over its call sites)
    methods = {m.name: m for m in svc.methods.values()}
    entry = {}
    for name in methods:
        entry[name] = frozenset(locks) if name.startswith('_') and name != '__init__' else frozenset()
    # methods that escape as values may be entered without locks
    called = {}
    for m in c.project.all_functions(prefix=NT):
        for n in ast.walk(m.node):
            if isinstance(n, ast.Attribute) and n.attr in entry and n.attr.startswith('_') and isinstance(
                    n.value, ast.Name) and (n.value.id == 'self' and m.cls is svc or n.value.id != 'self'):
                par = getattr(n, '_sa_parent', None)
                if isinstance(par, ast.Call) and par.func is n and m.cls is svc and not in_lambda(n, m.node):
                    called[n.attr] = True
                elif m.cls is svc or m.module.name.startswith(NT + 'service'):
                    entry[n.attr] = frozenset()
    for name in entry:
        if name not in called and name.startswith('_'):
            entry[name] = frozenset()
    for _ in range(10):
        new = {k: (frozenset() if not v else None) for k, v in entry.items()}
        for m in methods.values():
            if m.name == '__init__':
                continue
            lk = Locks(m, locks, entry[m.name])
            for node, (held, ph) in lk.visits:
                if node.ast is None:
                    continue
                for e in node_exprs(node):
                    for x in calls_in(e):
                        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(
                                x.func.value, ast.Name) and x.func.value.id == 'self' and x.func.attr in new:
                            cur = new[x.func.attr]
                            new[x.func.attr] = held if cur is None else cur & held
        new = {k: (v if v is not None else frozenset()) for k, v in new.items()}
        if new == entry:
            break
        entry = new

    c.rule('guarded', 'shared translation state is only touched while the state lock is held')
    c.rule('jobs', 'the job table is only touched while its lock is held')
    c.rule('released', 'locks are released on every path')
    c.rule('blocking', 'no long operation runs while the job lock is held')
    order = {}
    acq = {}
    for m in methods.values():
        if m.name == '__init__':
            continue
        lk = Locks(m, locks, entry[m.name])
        acq[m.name] = {l for _, l, _ in lk.acquires}
        for node, l, held in lk.acquires:
            for h in held:
                order.setdefault((h, l), m.loc(node.ast) if hasattr(node.ast, 'lineno') else m.loc())
            c.expect(l not in held or locks[l][0][2] == 'RLock', 'released', '%s acquires %s once' % (m.qual, l), m.loc(),
                     'the lock is acquired although it is held already: deadlock')
        for held, ph in lk.normal | lk.exc:
            c.expect(held == entry[m.name], 'released', '%s at exit' % m.qual, m.loc(),
                     'locks held at exit: %s, at entry: %s' % (sorted(held), sorted(entry[m.name])))
        seen = set()
        for node, (held, ph) in lk.visits:
            if node.ast is None:
                continue
            for e in node_exprs(node):
                for x in ast.walk(e):
                    for use in guarded_uses(x):
                        if use == 'translate' and not isinstance(x.func, ast.Name):
                            continue
                        key = (use, id(x), held)
                        if key in seen:
                            continue
                        seen.add(key)
                        c.expect(STATE in held, 'guarded', '%s in %s' % (use, m.qual), m.loc(x),
                                 'touched without the state lock')
                    if isinstance(x, ast.Attribute) and x.attr == '_jobs' and isinstance(x.value, ast.Name) and \
                            (id(x), held) not in seen:
                        seen.add((id(x), held))
                        c.expect(any(l in held for l in job_locks), 'jobs', '_jobs in %s' % m.qual, m.loc(x),
                                 'touched without the job lock')
                    if isinstance(x, ast.Attribute) and x.attr in ('cancelled', 'job_id') and isinstance(
                            x.value, ast.Name) and x.value.id == 'job' and (id(x), held) not in seen:
                        seen.add((id(x), held))
                        c.expect(any(l in held for l in job_locks), 'jobs', 'job.%s in %s' % (x.attr, m.qual), m.loc(x),
                                 'touched without the job lock')
                    if isinstance(x, ast.Call) and any(l in held for l in job_locks):
                        c.expect(attr_name(x) not in LONG, 'blocking', '%s in %s' % (attr_name(x), m.qual), m.loc(x),
                                 'a long operation runs while the job lock is held')
        # closures run later, without the locks
        for n in ast.walk(m.node):
            if isinstance(n, (ast.Lambda, ast.FunctionDef)) and n is not m.node:
                for x in ast.walk(n):
                    for use in guarded_uses(x):
                        c.bad('guarded', '%s in a closure of %s' % (use, m.qual), m.loc(x),
                              'a closure touches it, possibly without the state lock')
    c.floor('guarded', 8)
    c.floor('jobs', 3)

    # interprocedural re-acquisition and order
    reach = {}

    def acquires(name, stack=()):
        if name in stack or name not in methods:
            return set()
        if name not in reach:
            r = set(acq.get(name, ()))
            for n in ast.walk(methods[name].node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(
                        n.func.value, ast.Name) and n.func.value.id == 'self':
                    r |= acquires(n.func.attr, stack + (name,))
            reach[name] = r
        return reach[name]
    c.rule('order', 'locks are acquired in one order and never again by a callee')
    for m in methods.values():
        if m.name == '__init__':
            continue
        lk = Locks(m, locks, entry[m.name])
        for node, (held, ph) in lk.visits:
            if node.ast is None or not held:
                continue
            for e in node_exprs(node):
                for x in calls_in(e):
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(
                            x.func.value, ast.Name) and x.func.value.id == 'self' and x.func.attr in methods:
                        inner = acquires(x.func.attr)
                        again = {l for l in inner & held if locks[l][0][2] != 'RLock'}
                        c.expect(not again, 'order', '%s calls %s' % (m.qual, x.func.attr), m.loc(x),
                                 'the callee acquires %s which is held: deadlock' % sorted(again))
                        for h in held:
                            for l in inner - {h}:
                                order.setdefault((h, l), m.loc(x))
    for (a, b), where in order.items():
        c.expect((b, a) not in order or a == b, 'order', '%s before %s' % (a, b), where,
                 'also acquired in the opposite order at %s' % order.get((b, a)))
    c.ok('order', svc.module.relpath, 'orders: %s' % sorted(order))

    continuity(c, svc, locks, entry, mgr_state)
    cancelling(c, svc, locks, methods, acquires)
    front(c)


def in_lambda(n, top):
    return any(isinstance(p, (ast.Lambda, ast.FunctionDef)) and p is not top for p in parents(n))


PHASES = """none -> translated (translate) -> snapped (snapshot read) -> installed (snapshot set)"""


def continuity(c, svc, locks, entry, mgr_state):
    """From the start of a translation until its errors were extracted nobody else may use the
    diagnostics registry: the lock is held throughout, or the registry is copied before the
    lock is given up and put back before errors are converted."""
    c.rule('continuity', 'a request converts its errors with its own diagnostics registry')
    n_conv = 0
    for m in svc.methods.values():
        src = [n for n in ast.walk(m.node) if isinstance(n, ast.Call) and attr_name(n) in (
            'Failure', 'verify_program') or is_mgr(n)]
        if not src or m.name in ('__init__', '_reset_obligations'):
            continue
        problems = {}

        def step(label, node, held, phase, released, m=m):
            name, got, put = phase if isinstance(phase, tuple) else (phase, frozenset(), frozenset())
            if label == 'release':
                if released == STATE:
                    if name == 'translated':
                        name = 'snapped' if set(mgr_state) <= got else 'lost'
                    elif name == 'installed':
                        name, put = 'snapped', frozenset()
                return (name, got, put)
            if node.ast is None or label == 'x':
                return (name, got, put)
            for e in node_exprs(node):
                for x in ordered(e):
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'translate':
                        name, got, put = 'translated', frozenset(), frozenset()
                    elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and is_mgr(x.func):
                        if x.func.attr == 'clear':
                            if name == 'translated' and not set(mgr_state) <= got:
                                name = 'lost'
                            elif name == 'translated':
                                name = 'snapped'
                            elif name == 'installed':
                                name, put = 'snapped', frozenset()
                    elif is_mgr(x) and x.attr in mgr_state:
                        if isinstance(x.ctx, ast.Store):
                            put = put | {x.attr}
                            if set(mgr_state) <= put and name in ('snapped', 'installed', 'translated'):
                                name = 'installed'
                        else:
                            if name == 'translated':
                                got = got | {x.attr}
                                if not copied(x):
                                    problems.setdefault(('copy', x.attr), x)
                            elif name in ('snapped', 'lost', 'none'):
                                problems.setdefault(('late', x.attr), x)
                    elif isinstance(x, ast.Call) and attr_name(x) in ('Failure', 'verify_program'):
                        ok = name in ('translated', 'installed')
                        if not ok:
                            problems.setdefault(('convert', attr_name(x), name), x)
                        else:
                            problems.setdefault(('fine', attr_name(x)), x)
            return (name, got, put)
        Locks(m, locks, entry[m.name], ('none', frozenset(), frozenset()), step)
        for k, x in problems.items():
            if k[0] == 'fine':
                n_conv += 1
                c.ok('continuity', m.loc(x), '%s uses the registry of its own translation' % k[1])
            elif k[0] == 'copy':
                c.bad('continuity', 'snapshot of %s in %s' % (k[1], m.qual), m.loc(x),
                      'the registry is not copied, clearing it for the next request empties the snapshot')
            elif k[0] == 'late':
                c.bad('continuity', 'read of %s in %s' % (k[1], m.qual), m.loc(x),
                      'the registry is read when it may belong to another request')
            else:
                c.bad('continuity', '%s in %s' % (k[1], m.qual), m.loc(x),
                      'errors are converted with a registry that may belong to another request (%s)' % k[2])
    c.expect(n_conv >= 2, 'continuity', 'errors are converted in both modes', svc.module.relpath,
             'only %d conversions found' % n_conv)
    # every table is put back where it was taken from
    for m in svc.methods.values():
        if not any(is_mgr(n) and isinstance(n.ctx, ast.Store) for n in ast.walk(m.node)):
            continue
        sim = PathSim(m, want=lambda t: t[0] == 'set', relevant=lambda t: False)
        for t, st in list(sim.returns()) + list(sim.raises()):
            for e in st.events:
                if e[1] == ('name', 'error_manager'):
                    src = {x[2] for x in subterms(e[3]) if x[0] == 'attr' and x[1] == ('name', 'error_manager')}
                    c.expect(src == {e[2]} or not src and e[3][0] == 'dict', 'continuity',
                             'registry table %s in %s' % (e[2], m.qual), m.loc(), 'is set to %s' % show(e[3])[:100])
    for m in svc.methods.values():
        for n in ast.walk(m.node):
            if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None and any(
                    is_mgr(x) and x.attr in mgr_state for x in ast.walk(n.value)):
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    c.expect(not any(isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == 'self'
                                     for x in ast.walk(t)), 'continuity', 'snapshot kept by %s' % m.qual, m.loc(n),
                             'the snapshot is stored in the service, which other requests share')
    # everything put back comes from a snapshot local to the request
    for m in svc.methods.values():
        for n in ast.walk(m.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    for x in ast.walk(t):
                        if is_mgr(x) and isinstance(x.ctx, ast.Store):
                            ok = not any(isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and
                                         y.value.id == 'self' for y in ast.walk(n.value))
                            c.expect(ok, 'continuity', 'installed registry in %s' % m.qual, m.loc(n),
                                     'it comes from the service, which other requests share')


def ordered(e):
    """Sub-nodes in evaluation order (values before targets)."""
    out = []

    def go(n):
        if isinstance(n, (ast.Lambda, ast.FunctionDef)):
            return
        if isinstance(n, ast.Assign):
            go(n.value)
            for t in n.targets:
                go(t)
            return
        for ch in ast.iter_child_nodes(n):
            go(ch)
        out.append(n)
    go(e)
    return out


def copied(x):
    p = getattr(x, '_sa_parent', None)
    if isinstance(p, ast.Call) and x in p.args and attr_name(p) in ('dict', 'copy', 'deepcopy', 'list'):
        return True
    if isinstance(p, ast.Attribute) and p.attr in ('copy', 'items') and isinstance(getattr(p, '_sa_parent', None), ast.Call):
        return True
    if isinstance(p, ast.Dict):
        return True
    if isinstance(p, ast.comprehension):
        return True
    return False


def cancelling(c, svc, locks, methods, acquires):
    c.rule('cancel', 'cancelling never waits for a translation or verification')
    can = svc.methods['cancel']
    got = acquires('cancel')
    c.expect(STATE not in got, 'cancel', 'locks of cancel', can.loc(), 'cancel waits for the state lock')
    # everything cancel reaches
    seen, todo = set(), [can]
    while todo:
        f = todo.pop()
        if f.qual in seen:
            continue
        seen.add(f.qual)
        for n in walk_shallow(f.node):
            if not isinstance(n, ast.Call):
                continue
            nm = attr_name(n)
            c.expect(nm not in LONG, 'cancel', '%s called by %s' % (nm, f.qual), f.loc(n), 'cancel waits for it')
            for g in c.project.resolve_call(n, f):
                todo.append(g)
            if nm in ('cancel_job', 'cancel_all'):
                m = c.project.cls(NT + 'viper_server', 'ViperServerManager').methods.get(nm)
                if m:
                    todo.append(m)
    job = c.project.cls(NT + 'viper_server', 'ViperServerManager').methods['cancel_job']
    for n in walk_shallow(job.node):
        if isinstance(n, ast.Call) and attr_name(n) in ('_await', 'result'):
            ok = any(k.arg and 'timeout' in k.arg for k in n.keywords) or len(n.args) > 1
            c.expect(ok, 'cancel', 'waiting in cancel_job', job.loc(n), 'waits without a time limit')
    for n in walk_shallow(can.node):
        if isinstance(n, ast.Call) and attr_name(n) in ('_await', 'join', 'wait', 'acquire'):
            c.expect(n.keywords or n.args, 'cancel', '%s in cancel' % attr_name(n), can.loc(n), 'waits without a time limit')
    c.floor('cancel', 5)


def front(c):
    """The event loop that delivers cancellations must not run requests itself."""
    c.rule('loop', 'the event loops of the servers never run or wait for a request themselves')
    lsp = c.project.module(NT + 'lsp_server')
    mcp = c.project.module(NT + 'mcp_server')
    svc = c.project.cls(NT + 'service', 'VerificationService')
    long_ = {'verify', 'reconfigure', 'ensure_service', '_verify_blocking', 'translate', 'VerificationService',
             'make_service'}
    own = set()
    for mod in (lsp, mcp):
        fs = list(mod.functions.values()) + [m for cl in mod.classes.values() for m in cl.methods.values()]
        for f in fs:
            handler = isinstance(f.node, ast.AsyncFunctionDef) or any(
                isinstance(d, ast.Call) for d in f.node.decorator_list)
            if not handler:
                continue
            own.add(f.qual)
            # what the handler calls directly or through synchronous helpers
            seen, todo = set(), [f]
            while todo:
                g = todo.pop()
                if g.qual in seen:
                    continue
                seen.add(g.qual)
                for n in walk_shallow(g.node):
                    if not isinstance(n, ast.Call) or in_lambda(n, g.node):
                        continue
                    nm = attr_name(n)
                    is_svc = nm in ('ensure_service', '_verify_blocking', 'VerificationService', 'make_service') or \
                        nm in ('verify', 'reconfigure') and isinstance(n.func, ast.Attribute) and \
                        'service' in ast.unparse(n.func.value)
                    c.expect(not (is_svc and nm in long_), 'loop', '%s runs %s' % (f.qual, nm), g.loc(n),
                             'the event loop waits for it, so no cancellation is handled meanwhile')
                    for h in c.project.resolve_call(n, g):
                        if h.module is mod and not isinstance(h.node, ast.AsyncFunctionDef):
                            todo.append(h)
    # run in an executor
    n_ex = 0
    for mod in (lsp, mcp):
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Call) and attr_name(n) == 'run_in_executor':
                n_ex += 1
                c.expect(len(n.args) >= 2 and not (isinstance(n.args[1], ast.Call)), 'loop', 'executor in %s' % mod.name,
                         mod.relpath, 'the work is done before it is handed to the executor: %s' % ast.unparse(n)[:80])
    c.expect(n_ex >= 2, 'loop', 'requests run in executors', lsp.relpath, 'only %d uses of an executor' % n_ex)
    c.rule('lazy', 'the editor server builds its service once')
    f = lsp.classes['NaginiLanguageServer'].methods['ensure_service']
    locks = lock_attrs(lsp.classes['NaginiLanguageServer'])
    lk = Locks(f, locks)
    builds = 0
    for node, (held, ph) in lk.visits:
        for e in node_exprs(node) if node.ast is not None else ():
            for x in calls_in(e):
                if isinstance(x, ast.Call) and attr_name(x) in ('VerificationService', 'make_service'):
                    builds += 1
                    c.expect(held, 'lazy', 'service construction', f.loc(x), 'two threads may build a service each')
                    inner = [p for p in parents(x) if isinstance(p, (ast.With, ast.If))]
                    ok = False
                    for p in inner:
                        if isinstance(p, ast.With):
                            break
                        ok = ok or isinstance(p, ast.If) and 'service' in ast.unparse(p.test)
                    early = any(isinstance(s, ast.If) and 'service' in ast.unparse(s.test) and any(
                        isinstance(y, ast.Return) for y in ast.walk(s)) for p in inner if isinstance(p, ast.With)
                        for s in p.body)
                    c.expect(ok or early, 'lazy', 'service is tested under the lock', f.loc(x),
                             'a service built meanwhile is replaced')
    c.expect(builds, 'lazy', 'service is built', f.loc(), 'no construction')


if __name__ == '__main__':
    run('C14', 'Shared verification state is only touched under its lock, without deadlock', main)

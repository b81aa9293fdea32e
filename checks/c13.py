from _common import *
import sa.cfg
from c17 import klass

SAFE = ('os.path.join', 'os.path.abspath', 'os.path.basename', 'os.path.dirname', 'len', 'str', 'isinstance', 'dict',
        'list', 'set', 'tuple', 'hasattr', 'traceback.print_exc', 'logging.debug', 'logging.error', 'logging.warning', 'logging.info', 'logging.exception', 'print', 'time.time', 'super')
CREATES = {'mkdtemp': 'directory', 'mkstemp': 'file', 'NamedTemporaryFile': 'file', 'TemporaryFile': 'file',
           'TemporaryDirectory': 'directory', 'open': 'file', 'Popen': 'process', 'fdopen': 'file', 'socket': 'socket',
           'Process': 'process'}
# Servers that live as long as the process.
PROCESS_WIDE = {'main', 'client'}


def raises(n):
    """Statements that may raise, without the plain computations in SAFE."""
    for x in ast.walk(n):
        if isinstance(x, (ast.Raise, ast.Assert, ast.Await, ast.Subscript, ast.Yield)):
            return True
        if isinstance(x, ast.Call) and (dotted(x.func) or '?') not in SAFE and not (
                dotted(x.func) == 'getattr' and len(x.args) == 3):
            return True
    return False


def foreign(p, fi, expr):
    """The dotted name of a module that does not belong to the tool, if expr is one (or part of one)."""
    d = dotted(expr)
    if d is None:
        return None
    head = d.split('.')[0]
    if head in fi.all_params or head == 'self':
        return None
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Name) and n.id == head and isinstance(n.ctx, ast.Store):
            return None
    for n in list(ast.walk(fi.node)) + list(fi.module.tree.body):
        if isinstance(n, ast.Import):
            for a in n.names:
                if (a.asname or a.name.split('.')[0]) == head:
                    name = a.name if a.asname else head
                    return None if name.startswith('nagini') else name + d[len(head):]
        elif isinstance(n, ast.ImportFrom):
            for a in n.names:
                if (a.asname or a.name) == head and n.module and not n.level:
                    return None if n.module.startswith('nagini') else '%s.%s' % (n.module, d.replace(head, a.name, 1))
    return None


def patches(c, p):
    c.rule('patches', 'a library function, environment entry or stream that is replaced is put back on every way out')
    n = 0
    for fi in p.all_functions(prefix=NT):
        if '.tests' in fi.module.name or fi.module.name.endswith('conftest'):
            continue
        targets = {}
        for x in walk_shallow(fi.node):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and foreign(p, fi, x.value):
                targets[dotted(x)] = x
            elif isinstance(x, ast.Call) and attr_name(x) in ('setattr', 'delattr') and len(x.args) > 1 and \
                    foreign(p, fi, x.args[0]) and isinstance(x.args[1], ast.Constant):
                targets['%s.%s' % (dotted(x.args[0]), x.args[1].value)] = x
            elif isinstance(x, ast.Call) and dotted(x.func) in (
                    'os.chdir', 'os.putenv', 'os.unsetenv', 'os.umask', 'signal.signal', 'sys.setrecursionlimit',
                    'socket.setdefaulttimeout', 'builtins.__import__'):
                n += 1
                undone(c, fi, x)
            elif isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) and dotted(x.value) in (
                    'os.environ', 'sys.modules', 'sys.path'):
                n += 1
                c.bad('patches', '%s in %s' % (ast.unparse(x), fi.qual), fi.loc(x), 'changed and not put back')
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and dotted(x.func.value) in (
                    'os.environ', 'sys.path', 'sys.modules') and x.func.attr in (
                        'update', 'append', 'insert', 'setdefault', 'pop', 'clear', 'remove'):
                n += 1
                c.bad('patches', '%s in %s' % (ast.unparse(x.func), fi.qual), fi.loc(x), 'changed and not put back')
        if not targets:
            continue
        sim = PathSim(fi, want=lambda t: t[0] == 'set' and False, raises=raises, relevant=lambda t: False)
        for d, at in targets.items():
            base, attr = d.rsplit('.', 1)
            for kind, outs in (('normal', sim.returns()), ('exceptional', sim.raises())):
                for t, st in outs:
                    n += 1
                    now = st.env.get('.' + d)
                    ok = now is None or orig(now, d)
                    c.expect(ok, 'patches', '%s in %s' % (d, fi.qual), fi.loc(at),
                             'is %s on an %s way out (lines %s), not what it was before' % (
                                 show(now) if now else '', kind, sim.where(st, kind != 'normal')))
    c.expect(n, 'patches', 'patched functions', 'src/nagini_translation', 'none found')


def orig(t, d):
    """The term is what the attribute was when it was read before any change."""
    parts = d.split('.')
    x = ('name', parts[0])
    for a in parts[1:]:
        x = ('attr', x, a)
    return t == x or t[0] == 'attr' and show(t) == d or t[0] == 'call' and t[1] == ('name', 'getattr') and \
        len(t[2]) == 2 and '%s.%s' % (show(t[2][0]), t[2][1][1]) == d


def undone(c, fi, call):
    name = dotted(call.func)
    sim = PathSim(fi, want=lambda t: t[0] == 'call' and callee_path(t) == name, raises=raises, relevant=lambda t: False)
    for outs in (sim.returns(), sim.raises()):
        for t, st in outs:
            calls = [e for e in st.events if e[0] == 'call']
            if not calls:
                continue
            c.expect(len(calls) >= 2, 'patches', '%s in %s' % (name, fi.qual), fi.loc(call), 'is not undone on every way out')


def creation(t):
    return t[0] == 'call' and callee_name(t) in CREATES and (
        callee_name(t) not in ('open', 'socket') or t[1] == ('name', 'open') or t[1][0] == 'attr' and t[1][1][0] == 'name'
        and t[1][1][1] in ('tokenize', 'io', 'codecs', 'gzip', 'os', 'zipfile', 'socket'))


def released(e, t):
    """The event releases what the term t created."""
    if e[0] == 'attempt':
        e = e[1]
    if e[0] == 'endwith':
        return e[1] == t or is_call(e[1], 'closing') and t in e[1][2]
    if e[0] != 'call':
        return False
    name = callee_name(e)
    if name in ('close', 'cleanup', 'terminate', 'kill', 'wait', 'unlink', '__exit__') and e[1][0] == 'attr' and \
            t in set(subterms(e[1][1])):
        return True
    if name in ('rmtree', 'remove', 'unlink', 'rmdir', 'closing', 'close') and e[2]:
        a = e[2][0]
        return a == t or a[0] in ('item', 'proj', 'sub') and a[1] == t or a == ('attr', t, 'name')
    return False


def temporaries(c, p):
    c.rule('temporaries', 'files, temporary directories and processes that are created are closed, removed or ended on every way out')
    n = 0
    for fi in p.all_functions(prefix=NT):
        if '.tests' in fi.module.name or fi.module.name.endswith('conftest'):
            continue
        if not any(isinstance(x, ast.Call) and attr_name(x) in CREATES for x in walk_shallow(fi.node)):
            continue
        want = lambda t: creation(t) if t[0] == 'call' and callee_name(t) in CREATES else t[0] in (
            'endwith', 'with') or t[0] == 'call' and callee_name(t) in (
                'close', 'cleanup', 'terminate', 'kill', 'wait', 'unlink', 'rmtree', 'remove', 'rmdir', 'closing')
        sim = PathSim(fi, want=want, attempts=lambda t: callee_name(t) in (
            'close', 'cleanup', 'terminate', 'kill', 'wait', 'unlink', 'rmtree', 'remove', 'rmdir'),
            raises=raises, relevant=lambda t: False)
        for kind, outs in (('normal', sim.returns()), ('exceptional', sim.raises())):
            for t, st in outs:
                for i, e in enumerate(st.events):
                    if not creation(e):
                        continue
                    n += 1
                    if e == t or ('return' in kind and e in set(subterms(t))):
                        continue        # handed to the caller
                    if ('with', e) in st.events and callee_name(e) != 'mkdtemp':
                        ok = True       # the statement releases it
                    else:
                        ok = any(released(x, e) for x in st.events[i + 1:])
                    c.expect(ok, 'temporaries', '%s in %s' % (show(e), fi.qual), fi.loc(),
                             'the %s is not released on an %s way out (lines %s)' % (
                                 CREATES[callee_name(e)], kind, sim.where(st, kind != 'normal')))
    c.expect(n >= 5, 'temporaries', 'created files', 'src/nagini_translation', 'only %d found' % n)
    # Directories are removed as a whole
    for fi in p.all_functions(prefix=NT):
        for x in walk_shallow(fi.node):
            if isinstance(x, ast.Call) and attr_name(x) == 'mkdtemp':
                rm = [y for y in ast.walk(fi.node) if isinstance(y, ast.Call) and attr_name(y) in (
                    'rmtree', 'TemporaryDirectory')]
                c.expect(rm, 'temporaries', 'mkdtemp in %s' % fi.qual, fi.loc(x), 'is not removed with its content')


def instances(c, p):
    c.rule('instances', 'a backend instance is stopped when it is not used any more')
    v = p.modules[NT + 'main'].functions['verify']
    getter = p.modules[NT + 'main'].functions['get_verifier']
    kinds = {callee_name(t) for t, _ in PathSim(getter, raises=raises).returns() if t[0] == 'call'}
    sim = PathSim(v, raises=raises, attempts=lambda t: callee_name(t) == 'stop')
    always = True
    for outs in (sim.returns(), sim.raises()):
        for t, st in outs:
            if any(callee_name(e) == 'get_verifier' for e in st.events):
                always &= any(callee_name(e[1] if e[0] == 'attempt' else e) == 'stop' for e in st.events)
    for k in sorted(kinds - {None}):
        ci = klass(p, k)
        stop = ci.find('stop')
        if not c.expect(stop is not None, 'instances', 'stop of %s' % k, ci.module.name, 'there is none'):
            continue
        if k == 'ViperServer':
            # the server is shared; it must not be stopped with the instance
            s = PathSim(stop, raises=raises)
            for t, st in s.returns():
                c.expect(not any(callee_name(e) in ('stop', 'cancel_all') for e in st.events), 'instances',
                         'stop of %s' % k, stop.loc(), 'stops the shared server')
            continue
        d = ci.find('__del__')
        by_del = d is not None and all(
            any(callee_name(e[1] if e[0] == 'attempt' else e) == 'stop' for e in st.events)
            for t, st in PathSim(d, raises=raises, attempts=lambda t: callee_name(t) == 'stop').returns())
        c.expect(always or by_del, 'instances', 'life of %s' % k, ci.methods['verify'].loc(),
                 'is stopped neither after the verification nor when it is discarded')
        own = (('attr', ('param', 'self'), k.lower()), ('call', ('name', 'getattr'), (
            ('param', 'self'), ('const', k.lower()), ('const', None)), ()))
        s = PathSim(stop, raises=raises, attempts=lambda t: callee_name(t) == 'stop')
        for t, st in s.raises():
            c.bad('instances', 'stop of %s' % k, stop.loc(), 'may raise (lines %s)' % s.where(st, True))
        for t, st in s.returns():
            done = any(terms_of(e)[0] == 'call' and terms_of(e)[1] in [('attr', o, 'stop') for o in own] for e in st.events)
            absent = any((x in own or is_call(x, 'hasattr') or x[0] == 'is_none' and x[1] in own) and b == (
                x[0] == 'is_none') for x, b in st.conds)
            c.expect(done or absent, 'instances', 'stop of %s' % k, stop.loc(),
                     'does not stop the backend (lines %s)' % s.where(st))


def terms_of(e):
    return e[1] if e[0] == 'attempt' else e


def server(c, p):
    c.rule('server', 'the shared server releases its threads when it is stopped or could not be started')
    m = klass(p, 'ViperServerManager')
    ex = ('attr', ('param', 'self'), 'executor')
    srv = ('attr', ('param', 'self'), 'server')
    # stop
    f = m.methods['stop']
    interesting = lambda t: callee_name(t) in ('stop', 'terminate', '_await') or t[0] == 'call' and 'terminate' in show(t)
    sim = PathSim(f, raises=raises, attempts=interesting)
    n = 0
    for kind, outs in (('normal', sim.returns()), ('exceptional', sim.raises())):
        for t, st in outs:
            started = [b for x, b in st.conds if x[0] == 'attr' and x[2] in ('_started', 'started')]
            if started == [False]:
                continue
            n += 1
            calls = [terms_of(e) for e in st.events if e[0] in ('call', 'attempt')]
            for obj, verb, what in ((srv, 'stop', 'server'), (ex, 'terminate', 'thread pool')):
                absent = any(x == ('is_none', obj) and b or x == obj and not b for x, b in st.conds)
                done = any(x[1] == ('attr', obj, verb) or x[1] == ('name', 'getattr') and x[2] and x[2][0] == obj and
                           verb in show(x) for e in calls for x in subterms(e) if x[0] == 'call')
                c.expect(done or absent, 'server', '%s in %s' % (what, f.qual), f.loc(),
                         'is not released on an %s way out (lines %s)' % (kind, sim.where(st, kind != 'normal')))
            if kind == 'normal':
                c.expect(st.env.get('.self._started') == ('const', False), 'server', 'state in %s' % f.qual, f.loc(),
                         'the server counts as started after it was stopped')
    c.expect(n, 'server', f.qual, f.loc(), 'never stops anything')
    # start
    f = m.methods['start']
    sim = PathSim(f, raises=raises, attempts=interesting)
    n = 0
    for t, st in sim.raises():
        made = [e for e in st.events if e[0] == 'set' and e[2] == 'executor' and e[3] != ('const', None)]
        if not made:
            continue
        n += 1
        calls = [terms_of(e) for e in st.events if e[0] in ('call', 'attempt')]
        done = any(callee_name(x) in ('terminate', 'terminate$default$1') for e in calls for x in subterms(e)
                   if x[0] == 'call') or any('terminate' in str(e) for e in calls)
        absent = any(x == ('is_none', y) and b for x, b in st.conds for y in [ex] + [e[3] for e in made])
        c.expect(done or absent, 'server', 'thread pool in %s' % f.qual, f.loc(),
                 'is not released when starting fails (lines %s)' % sim.where(st, True))
    for t, st in sim.returns():
        sets = [e for e in st.events if e[0] == 'set']
        begun = any(callee_name(e) == '_await' for e in st.events)
        if begun:
            c.expect(st.env.get('.self._started') == ('const', True), 'server', 'state in %s' % f.qual, f.loc(),
                     'a started server does not count as started, so it would never be stopped')
            for a in ('executor', 'server'):
                c.expect(any(e[2] == a for e in sets), 'server', '%s in %s' % (a, f.qual), f.loc(),
                         'is not kept, so it cannot be released')
        else:
            c.expect(any(x[0] == 'attr' and x[2] in ('_started', 'started') and b for x, b in st.conds), 'server',
                     'second start in %s' % f.qual, f.loc(), 'a server is not started although there is none')
    # a second server is never created
    for t, st in sim.returns():
        if any(e[0] == 'set' and e[2] == 'server' for e in st.events):
            c.expect(any(x[0] == 'attr' and x[2] in ('_started', 'started') and not b for x, b in st.conds), 'server',
                     'second start in %s' % f.qual, f.loc(), 'a running server is replaced')


def front_ends(c, p):
    c.rule('front ends', 'every front end shuts the shared server down on every way out once it may have been started')
    svc = klass(p, 'VerificationService')
    f = svc.methods['shutdown']
    sim = PathSim(f, raises=raises, attempts=lambda t: callee_name(t) in ('stop', 'get_viper_server_manager'))
    for t, st in sim.returns():
        calls = [callee_name(terms_of(e)) for e in st.events if e[0] in ('call', 'attempt')]
        c.expect('stop' in calls or 'get_viper_server_manager' in calls and any(e[0] == 'handler' for e in st.events) or
                 any(e[0] == 'handler' for e in st.events) and not calls, 'front ends', f.qual, f.loc(),
                 'does not stop the server on the path with %s' % ', '.join(
                     '%s = %s' % (show(x), b) for x, b in sorted(st.conds, key=str)))
    for t, st in sim.raises():
        c.bad('front ends', f.qual, f.loc(), 'may raise (lines %s)' % sim.where(st, True))
    STOPS = ('shutdown', 'stop')
    for mod, begins in (('lsp_server', ('start_io', 'start_tcp', 'start_ws')), ('mcp_server', ('run',)),
                        ('main', ('translate_and_verify', 'start'))):
        f = p.modules[NT + mod].functions['main']
        noret = lambda t: t[0] == 'call' and callee_path(t) in ('os._exit', 'sys.exit', 'exit', 'quit')
        begin = lambda t: callee_name(t) in begins and t[0] == 'call'
        sim = PathSim(f, raises=raises, noreturn=noret, want=lambda t: t[0] == 'call' and (
            begin(t) or callee_name(t) in STOPS + ('get_viper_server_manager',)) or t[0] == 'handler',
            attempts=lambda t: begin(t) or callee_name(t) in STOPS + ('get_viper_server_manager',),
            relevant=lambda t: t[0] == 'is_none' and 'service' in show(t) or t[0] == 'attr' and t[2] in (
                'use_viper_server', 'service'))
        n = 0
        for kind, outs in (('normal', sim.returns()), ('exceptional', sim.raises()), ('final', sim.exits)):
            for t, st in outs:
                evs = [terms_of(e) for e in st.events if e[0] in ('call', 'attempt')]
                at = [i for i, e in enumerate(evs) if begin(e)]
                if not at:
                    continue
                n += 1
                rest = evs[at[0] + 1:]
                names = [callee_name(e) for e in rest]
                none = any(x[0] == 'is_none' and b or x[0] == 'attr' and x[2] in ('use_viper_server', 'service') and not b
                           for x, b in st.conds)
                failed = 'get_viper_server_manager' in names
                c.expect(any(x in STOPS for x in names) or none or failed, 'front ends', f.qual, f.loc(),
                         'the server is not shut down on a way out (%s, lines %s)' % (
                             kind, sim.where(st, kind == 'exceptional') if kind != 'final' else show(t)))
        c.expect(n, 'front ends', f.qual, f.loc(), 'does not run anything')
        # the threads of the server would keep the process alive: the process is ended explicitly
        if mod != 'main':
            ends = [t for t, st in sim.exits if callee_path(t) == 'os._exit']
            c.expect(ends and not list(sim.returns()), 'front ends', 'end of %s' % f.qual, f.loc(),
                     'the process is not ended explicitly')


def check(c):
    p = c.project
    # A cancelled task, an interrupt or an exit inside a library is no Exception.
    sa.cfg.CATCH_ALL.discard('Exception')
    patches(c, p)
    temporaries(c, p)
    sa.cfg.CATCH_ALL.add('Exception')
    instances(c, p)
    server(c, p)
    front_ends(c, p)


if __name__ == '__main__':
    run('C13', 'Global patches, temporary files and processes are released on every exit', check)

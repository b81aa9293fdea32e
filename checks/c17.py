from _common import *

LAYER = ['main', 'service', 'verifier', 'viper_server', 'lsp_server', 'mcp_server', 'client', 'lib.config',
         'lib.typeinfo', 'translator']
ALIAS = {
    'sif': 'sif', 'bvsize': 'bits', 'intbitopssize': 'bits', 'floatencoding': 'float', 'floatoption': 'float',
    'arp': 'arp', 'counterexample': 'cex', 'counterexamples': 'cex', 'nocounterexamples': '!cex',
    'ignoreglobal': 'ignore global', 'basedir': 'base dir', 'selected': 'selected', 'select': 'selected',
    'selectedset': 'selected', 'viperargs': 'viper args', 'viperarg': 'viper args',
    'disablebranchconditions': 'no branch conditions', 'backend': 'backend', 'verifier': 'backend',
    'verifierbackend': 'backend', 'z3': 'z3', 'z3path': 'z3', 'z3exe': 'z3', 'boogie': 'boogie', 'boogiepath': 'boogie',
    'boogieexe': 'boogie', 'mypypath': 'mypy path', 'viperjarpath': 'jar', 'classpath': 'jar', 'includeviper': 'viper text',
    'jobtoken': 'job token', 'useviperserver': 'server', 'viperserver': 'server', 'noviperserver': '!server',
    'ignoreobligations': 'ignore obligations', 'forceobligations': 'force obligations', 'idemode': 'ide',
    'showvipererrors': 'viper errors', 'skipverification': 'skip', 'extraction': 'extraction', 'verbose': 'verbose',
}
# Values these options may take; None: the default.
VOCABULARY = {'sif': {'true', 'poss', 'prob', True, False, None}, 'float': {'real', 'ieee32', None},
              'backend': {'silicon', 'carbon', None}}
WRAPPERS = ('set', 'list', 'bool', 'frozenset', 'tuple', 'str', 'sorted', 'ViperVerifier')


def ident(name):
    return ALIAS.get(re.sub(r'[^a-z0-9]', '', str(name).lower())) if name else None


def flip(i):
    return i[1:] if i.startswith('!') else '!' + i


def identity(t):
    """The option a value is, or None."""
    if t[0] in ('param', 'name', 'loop'):
        return ident(t[1])
    if t[0] == 'attr':
        if t[2] in ('name', 'value', 'lower'):
            return identity(t[1])
        if t[2] in ('silicon', 'carbon'):
            return 'backend'
        return ident(t[2])
    if t[0] in ('proj', 'sub', 'elem', 'item') and is_call(t[1], '_parse_client_request') and t[2] in (1, ('const', 1)):
        return 'selected'       # the second component, see the rule 'command line'
    if t[0] == 'sub' and t[1][0] == 'dict' and t[1][1]:
        # a table indexed by an option
        vals = {identity(v) for _, v in t[1][1]}
        agree = all(k[0] == 'const' and (v[0] != 'attr' or v[2] == k[1]) for k, v in t[1][1])
        return identity(t[2]) if vals == {identity(t[2])} and agree else None
    if t[0] == 'sub' and t[2][0] == 'const':
        return ident(t[2][1])
    if t[0] in ('not',):
        i = identity(t[1])
        return i and flip(i)
    if t[0] == 'is_none':
        return None
    if t[0] == 'call':
        f = t[1]
        if f[0] == 'attr' and f[2] in ('get', 'pop') and t[2] and t[2][0][0] == 'const' and len(t[2]) <= 2:
            return ident(t[2][0][1])
        if f[0] == 'attr' and f[2] in ('split', 'lower', 'strip', 'copy'):
            return identity(f[1])
        if f[0] == 'name' and f[1] == 'getattr' and len(t[2]) > 1 and t[2][1][0] == 'const':
            return ident(t[2][1][1])
        if f[0] == 'name' and f[1] in WRAPPERS and len(t[2]) == 1 and not t[3]:
            return identity(t[2][0])
        return None
    if t[0] == 'map':
        its = t[2]
        return identity(its[0][0]) if len(its) == 1 else None
    if t[0] == 'bool':
        got = {identity(x) for x in t[2] if not empty(x)}
        return got.pop() if len(got) == 1 else None
    return None


def empty(t):
    return t[0] == 'const' and not t[1] or t[0] in ('list', 'tuple', 'set', 'dict') and not t[1] or \
        t[0] == 'call' and t[1][0] == 'name' and t[1][1] in WRAPPERS + ('dict',) and not t[2] and not t[3]


def decided_by(conds, i):
    """Do the conditions mention the option?"""
    return any(identity(x) in (i, flip(i)) for t, _ in conds for x in subterms(t))


class Sources:
    @staticmethod
    def params(fi):
        return {ident(x) for x in fi.all_params} - {None}


def fields(ci):
    """Options stored in the instances of a class."""
    out = set()
    init = ci.methods.get('__init__')
    if init is not None:
        for n in ast.walk(init.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and is_self_attr(n):
                out.add(ident(n.attr))
    return {(i[1:] if i.startswith('!') else i) for i in out - {None}}


def dests(fi):
    """dest -> add_argument call, for the parser options a function adds."""
    out = {}
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Call) and attr_name(n) == 'add_argument':
            names = [a.value for a in n.args if isinstance(a, ast.Constant)]
            d = [k.value.value for k in n.keywords if k.arg == 'dest' and isinstance(k.value, ast.Constant)]
            long = [x for x in names if x.startswith('--')] or names
            if long:
                out[d[0] if d else long[0].lstrip('-').replace('-', '_')] = (n, long[0])
    return out


class Thunks(ast.NodeTransformer):
    """Work handed to an executor as a closure is treated as done where the closure is made."""

    def __init__(self, defs):
        self.defs = defs

    def visit_Lambda(self, n):
        self.generic_visit(n)
        return n.body if not n.args.args and not n.args.kwonlyargs else n

    def visit_Call(self, n):
        self.generic_visit(n)
        name = attr_name(n)
        args = list(n.args)
        if name == 'run_in_executor' and len(args) > 1:
            f, rest = args[1], args[2:]
        elif name == 'to_thread' and args or name == 'partial' and args:
            f, rest = args[0], args[1:]
        else:
            return n
        if isinstance(f, (ast.Name, ast.Attribute)) and (rest or n.keywords or isinstance(f, ast.Attribute)):
            return ast.copy_location(ast.Call(f, rest, n.keywords), n)
        return n


def prepared(fi):
    node = fi.node
    if any(isinstance(x, ast.Lambda) or isinstance(x, ast.Call) and attr_name(x) in (
            'run_in_executor', 'to_thread', 'partial') for x in ast.walk(node)):
        return ast.fix_missing_locations(Thunks({}).visit(clone(node)))
    return None


class Sim:
    def __init__(self, fi, **kw):
        node = prepared(fi)
        if node is not None:
            kw['env'] = dict({p: ('param', p) for p in fi.all_params}, **kw.get('env', {}))
            kw['node'] = node
        self.sim = PathSim(fi, **kw)


def carriers(c):
    """name -> functions that take options, by the name calls use."""
    p = c.project
    out = {}
    for fi in p.all_functions(prefix=NT):
        if fi.outer is not None or not any(fi.module.name == NT + x for x in LAYER + [
                'analyzer', 'lib.errors.manager', 'translators.program']):
            continue
        if 'tests' in fi.module.name:
            continue
        opts = [x for x in fi.all_params if ident(x)]
        if opts:
            name = fi.cls.name if fi.name == '__init__' and fi.cls else fi.name
            out.setdefault(name, []).append(fi)
    return out


def bound(t, fi):
    """param -> term, for a call term."""
    names = [x for x in fi.params]
    if fi.is_method and not fi.is_static and names and names[0] in ('self', 'cls'):
        names = names[1:]
    res = {}
    for n, x in zip(names, t[2]):
        if x[0] == 'star':
            break
        res[n] = x
    for k, v in t[3]:
        if k is not None:
            res[k] = v
    return res


# Calls that by design do without an option of the caller.
WITHOUT = {
    # The benchmark loop translates again without the side effects of the first translation.
    ('translate_and_verify', 'translate', 'verbose'), ('translate_and_verify', 'translate', 'skip'),
    ('translate_and_verify', 'translate', 'extraction'),
    # The temporary file is the only one in its directory.
    ('verify_snippet', 'verify', 'base dir'),
    ('verify_method', 'verify', 'base dir'),
}


DECIDING = {'selected', 'viper args', 'backend', 'float', 'benchmark'}


def flow(c, p):
    c.rule('flow', 'an option parameter receives the option of the same identity, and no option the caller has is dropped')
    known = carriers(c)
    n = 0
    for mod in LAYER:
        m = p.modules.get(NT + mod)
        if m is None:
            continue
        for fi in p.all_functions(prefix=NT + mod):
            if fi.module is not m or not any(
                    isinstance(x, ast.Call) and attr_name(x) in known for x in ast.walk(fi.node)):
                continue
            if fi.outer is not None and fi.outer.module is m and any(
                    isinstance(x, ast.Call) and attr_name(x) in known for x in ast.walk(fi.node)) is False:
                continue
            have = Sources.params(fi)
            if fi.cls is not None and fi.name != '__init__':
                have |= fields(fi.cls)
            namespace = 'args' in fi.all_params or any(
                isinstance(x, ast.Name) and x.id == 'args' and isinstance(x.ctx, ast.Store) for x in ast.walk(fi.node))
            if namespace:
                for g in p.all_functions(prefix=NT):
                    if g.module is m or g.name == 'add_service_arguments' and mod != 'main':
                        have |= {ident(d) for d in dests(g)} - {None}
            have = {i.lstrip('!') for i in have}
            want = lambda t: t[0] == 'call' and callee_name(t) in known
            if True:
                sim = Sim(fi, want=want, noreturn=lambda t: callee_name(t) in ('error', 'exit', '_exit'), raises=no_raise,
                          relevant=lambda t: any(identity(x) in DECIDING for x in subterms(t))).sim
            calls = {}
            for st in every(sim):
                for e in st.events:
                    if e[0] == 'call':
                        calls.setdefault(e, []).append(st)
            for e, sts in calls.items():
                for g in best(known.get(callee_name(e), ()), e, fi, p):
                    n += 1
                    check_call(c, fi, g, e, sts, have)
    c.expect(n >= 30, 'flow', 'calls with options', 'src/nagini_translation', 'only %d calls found' % n)


def every(sim):
    """The states of all (also unfinished) paths, without those that only repeat others."""
    done = [st for _, st in list(sim.returns()) + list(sim.raises()) + sim.exits]
    have = {(e, st.conds) for st in done for e in st.events}
    for _, st in sim.seen:
        new = [e for e in st.events[-1:] if (e, st.conds) not in have]
        if new:
            have.update((e, st.conds) for e in new)
            done.append(State(st.env, st.conds, tuple(new)))
    return done


def no_raise(n):
    return any(isinstance(x, ast.Raise) for x in ast.walk(n))


def klass(p, name):
    found = p.find_class(name)
    if isinstance(found, list):
        found = [k for k in found if k.module.name.startswith(NT)]
        return found[0] if found else None
    return found


def best(cands, e, fi, p):
    """The functions a call may reach."""
    f = e[1]
    if f[0] == 'name':
        return [g for g in cands if g.cls is None or g.name == '__init__']
    if f[0] != 'attr':
        return []
    recv, name = f[1], f[2]
    cls = None
    if recv == ('param', 'self') and fi.cls is not None:
        cls = [fi.cls]
    elif recv == ('call', ('name', 'super'), (), ()) and fi.cls is not None:
        cls = fi.cls.mro()[1:2]
    elif recv[0] == 'call' and recv[1][0] == 'name' and klass(p, recv[1][1]) is not None:
        cls = [klass(p, recv[1][1])]
    elif is_call(recv, 'get_verifier'):
        cls = [klass(p, x) for x in ('Silicon', 'Carbon', 'ViperServer')]
    elif is_call(recv, 'get_viper_server_manager') or recv[-1] == 'manager':
        cls = [klass(p, 'ViperServerManager')]
    elif is_call(recv, 'ensure_service') or recv[-1] in ('service', '_service'):
        cls = [klass(p, 'VerificationService')]
    elif recv[0] == 'name' and recv[1] in ('config', 'main_module', 'error_manager') or recv == ('name', 'main'):
        return [g for g in cands if g.cls is None or g.cls.name == 'ErrorManager']
    if cls is not None:
        out = [k.find(name) for k in cls if k is not None]
        return [g for g in out if g is not None and g in cands]
    out = []
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Call) and attr_name(n) == name and isinstance(n.func, ast.Attribute) and \
                show(recv).split('.')[-1] == (dotted(n.func.value) or '').split('.')[-1]:
            out += [g for g in p.resolve_call(n, fi, virtual=True) or () if g in cands and g not in out]
    return out


def check_call(c, fi, g, e, sts, have):
    args = bound(e, g)
    what = '%s -> %s' % (fi.qual, g.qual)
    where = fi.loc()
    stars = any(k is None for k, _ in e[3]) or any(a[0] == 'star' for a in e[2])
    for prm in g.all_params:
        i = ident(prm)
        if i is None:
            continue
        if prm not in args:
            if stars:
                c.ok('flow', where, '%s: %s' % (what, prm))
                continue
            base = i.lstrip('!')
            own = fi.name == 'main' and g.name == 'translate_and_verify' and e[2] and e[2][0][-1] == 'python_file' and \
                base == 'selected'      # the file of the command line uses the selection given there
            if base in have and (fi.name, g.name, base) not in WITHOUT and not own:
                c.bad('flow', '%s of %s' % (prm, what), where, 'the option "%s" is not passed on' % base)
            continue
        v = args[prm]
        got = identity(v)
        name = '%s of %s' % (prm, what)
        if got == i:
            c.ok('flow', where, name)
        elif got is not None:
            c.bad('flow', name, where, 'receives the option "%s" (%s)' % (got, show(v)))
        elif i.lstrip('!') not in have:
            c.ok('flow', where, name + ' (no such option here)')
        elif constant_allowed(fi, g, i, v, sts):
            c.ok('flow', where, name + ' (decided)')
        else:
            c.bad('flow', name, where, 'receives %s instead of the option "%s"' % (show(v), i))


def constant_allowed(fi, g, i, v, sts):
    if i in ('sif', 'arp') and v == ('const', False) and fi.name == '_verify_concurrent':
        return True     # checked by the rule 'concurrent'
    if v[0] == 'const' or empty(v) or i == 'selected':
        # replaced because of the option's own value, e.g. when it was not given
        return all(decided_by(st.conds, i) for st in sts)
    return False


def concurrent(c, p, svc):
    c.rule('concurrent', 'runs that need information flow or abstract read permissions are not run concurrently')
    f = svc.methods['_can_run_concurrently']
    for t, st in PathSim(f).returns():
        if t == ('const', False):
            c.ok('concurrent', f.loc(), 'refused')
            continue
        known = {identity(x) for x, b in st.conds if not b} | {
            identity(x[1]) for x, b in st.conds if b and x[0] == 'not'}
        neg = {identity(y) for x, b in st.conds if not b and x[0] == 'bool' and x[1] == 'or' for y in x[2]}
        for i in ('sif', 'arp'):
            c.expect(i in known | neg, 'concurrent', '%s in %s' % (i, f.qual), f.loc(),
                     'may allow a concurrent run with the option %s' % i)
        c.expect('server' in {identity(x) for x, b in st.conds if b} or any(
            identity(x) == '!server' for x, b in st.conds if not b), 'concurrent', 'server in %s' % f.qual, f.loc(),
            'may allow a concurrent run although the server backend is not to be used')
    v = svc.methods['verify']
    sim = PathSim(v, raises=no_raise)
    for t, st in sim.returns():
        calls = [e for e in st.events if e[0] == 'call' and callee_name(e) == '_verify_concurrent']
        if calls:
            ok = any(b and x[0] == 'call' and callee_name(x) == '_can_run_concurrently' and
                     identity((x[2] or tuple(y for _, y in x[3]) or (('const', None),))[0]) == 'arp' for x, b in st.conds)
            c.expect(ok, 'concurrent', 'concurrent run in %s' % v.qual, v.loc(),
                     'a concurrent run is not guarded by %s' % f.name)


def stored(c, p):
    c.rule('stored', 'a variable, field or configuration entry of an option is given a value of the same option')
    n = 0
    for mod in ['main', 'service', 'verifier', 'viper_server', 'lsp_server', 'mcp_server', 'translator', 'analyzer']:
        m = p.modules[NT + mod]
        for fi in p.all_functions(prefix=NT + mod):
            if fi.module is not m:
                continue
            if not any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and ident(x.attr)
                       for x in walk_shallow(fi.node)):
                continue
            sim = PathSim(fi, want=lambda t: t[0] == 'set' and bool(ident(t[2])), raises=no_raise,
                          noreturn=lambda t: callee_name(t) in ('error', 'exit'),
                          relevant=lambda t: False)
            seen = set()
            for _, st in list(sim.returns()) + list(sim.raises()) + sim.exits:
                for e in st.events:
                    if e[0] != 'set':
                        continue
                    i, got = ident(e[2]), identity(e[3])
                    key = (e, got)
                    if key in seen:
                        continue
                    seen.add(key)
                    name = '%s.%s in %s' % (show(e[1]), e[2], fi.qual)
                    if got == i:
                        n += 1
                        c.ok('stored', fi.loc(), name)
                    elif got is not None:
                        c.bad('stored', name, fi.loc(), 'set to the option "%s" (%s)' % (got, show(e[3])))
                    elif e[3][0] == 'const' and fi.name == '__init__' and i.lstrip('!') not in Sources.params(fi):
                        c.ok('stored', fi.loc(), name + ' (default)')
                    elif e[3] == ('loop', e[2]) or fi.name in ('enable_viper_server',):
                        continue
                    elif i.lstrip('!') in Sources.params(fi) or fi.name == 'reconfigure':
                        if not (e[3][0] == 'const' and decided_by(st.conds, i)):
                            c.bad('stored', name, fi.loc(), 'set to %s' % show(e[3]))
    c.expect(n >= 15, 'stored', 'stored options', 'src/nagini_translation', 'only %d stores found' % n)


def dict_terms(sim):
    for t, st in sim.returns():
        if t[0] == 'dict':
            yield t, st
        elif t[0] == 'call' and t[1] == ('name', 'VerificationService'):
            yield ('dict', tuple((('const', k), v) for k, v in t[3])), st
        else:
            yield None, st


def tables(c, p, svc):
    c.rule('tables', 'the option tables cover the same options and relate only names of the same option')
    m = svc.module
    init = svc.methods['__init__']
    kwonly = [x for x in init.all_params if x != 'self']
    try:
        table = Evaluator(p).module_value(m.name, 'OPTION_TO_KWARG')
    except (Unknown, AttributeError, KeyError):
        table = None
    if not isinstance(table, dict):
        table = None
        for n in m.tree.body:
            if isinstance(n, ast.Assign) and any(isinstance(x, ast.Name) and x.id == 'OPTION_TO_KWARG' for x in n.targets):
                try:
                    table = ast.literal_eval(n.value)
                except ValueError:
                    table = None
    where = m.relpath
    if table is None:
        c.bad('tables', 'OPTION_TO_KWARG', where, 'is no constant table')
        return
    documented = {'verifier', 'z3Path', 'boogiePath', 'mypyPath', 'sif', 'intBitopsSize', 'floatEncoding',
                  'useViperServer', 'disableBranchConditions', 'viperJarPath'}
    for k, v in table.items():
        c.expect(ident(k) is not None and ident(k) == ident(v), 'tables', 'entry %s' % k, where,
                 'maps to %s, which is a different option' % v)
        c.expect(v in kwonly, 'tables', 'entry %s' % k, where, 'the service does not take %s' % v)
    for k in sorted(documented):
        c.expect(k in table, 'tables', 'documented option %s' % k, where, 'is not recognised')
    for v in kwonly:
        c.expect(v in table.values(), 'tables', 'service parameter %s' % v, where, 'no client option sets it')
    f = p.func(m.name, 'service_kwargs_from_args')
    for t, st in dict_terms(PathSim(f)):
        if t is None:
            c.bad('tables', f.qual, f.loc(), 'does not return a table')
            continue
        got = {k[1]: v for k, v in t[1] if k[0] == 'const'}
        for v in kwonly:
            if c.expect(v in got, 'tables', '%s in %s' % (v, f.qual), f.loc(), 'the command line option is dropped'):
                c.expect(identity(got[v]) == ident(v), 'tables', '%s in %s' % (v, f.qual), f.loc(),
                         'receives %s' % show(got[v]))
        for k in got:
            c.expect(k in kwonly, 'tables', '%s in %s' % (k, f.qual), f.loc(), 'the service does not take it')
    f = svc.methods['current_options']
    for t, st in dict_terms(PathSim(f)):
        if t is None:
            c.bad('tables', f.qual, f.loc(), 'does not return a table')
            continue
        got = {k[1]: v for k, v in t[1] if k[0] == 'const'}
        for k in table:
            if k == 'viperJarPath':
                continue
            if c.expect(k in got, 'tables', '%s in %s' % (k, f.qual), f.loc(), 'the effective option is not reported'):
                c.expect(identity(got[k]) == ident(k), 'tables', '%s in %s' % (k, f.qual), f.loc(),
                         'reports %s' % show(got[k]))
    for ctor in ('make_service',):
        f = p.func(m.name, ctor)
        ok = [t for t, _ in PathSim(f).returns() if t[0] == 'call' and callee_name(t) == 'VerificationService' and any(
            k is None and is_call(v, 'service_kwargs_from_args') for k, v in t[3])]
        full = [t for t, _ in PathSim(f).returns() if t[0] == 'call' and callee_name(t) == 'VerificationService' and
                set(kwonly) <= {k for k, _ in t[3]}]
        c.expect(ok or full, 'tables', ctor, f.loc(), 'does not pass all options of the command line')


def storage(i):
    """Where the running service keeps an option."""
    return {'z3': ('config', 'z3_path'), 'boogie': ('config', 'boogie_path'), 'mypy path': ('config', 'mypy_path'),
            'server': ('config', 'use_viper_server')}.get(i)


def reconfiguring(c, p, svc):
    c.rule('reconfigure', 'every option that is changed at run time is stored, and reloads what was built from it')
    f = svc.methods['reconfigure']
    opts = ('param', 'options')
    kwonly = [x for x in svc.methods['__init__'].all_params if x not in ('self', 'viper_jar_path')]

    def key_of(t):
        if t[0] == 'call' and t[1] == ('attr', opts, 'get') and t[2] and t[2][0][0] == 'const':
            return t[2][0][1]
        if t[0] == 'sub' and t[1] == opts and t[2][0] == 'const':
            return t[2][1]
        if t[0] == 'cmp' and t[1] == 'in' and t[3] == opts and t[2][0] == 'const':
            return t[2][1]
        return None

    for key in kwonly:
        def simp(t):
            k = key_of(t)
            if k is not None and k != key:
                return ('const', False) if t[0] == 'cmp' else t[2][1] if t[0] == 'call' and len(t[2]) > 1 else (
                    'const', None)
            if t[0] == 'call' and k == key and t[1][0] == 'attr':
                return ('sub', opts, ('const', key))
            return t
        sim = PathSim(f, simp=simp, raises=no_raise,
                      want=lambda t: t[0] == 'set' or t[0] == 'call' and callee_name(t) == 'load_sil_files')
        given = 0
        for t, st in sim.returns():
            value = ('sub', opts, ('const', key))
            absent = same = False
            for x, b in st.conds:
                if x == ('is_none', value) and b or x[0] == 'cmp' and x[1] == 'in' and key_of(x) == key and not b:
                    absent = True
                if x[0] == 'cmp' and x[1] == '==' and value in (x[2], x[3]) and identity(
                        x[2] if x[3] == value else x[3]) == ident(key):
                    same = same or b
                if x[0] == 'cmp' and x[1] == '!=' and value in (x[2], x[3]) and identity(
                        x[2] if x[3] == value else x[3]) == ident(key):
                    same = same or not b
                if x == value and not b:
                    # a falsy value is treated like a missing one
                    if ident(key) in ('server', 'no branch conditions', 'sif', 'bits'):
                        c.bad('reconfigure', '%s in %s' % (key, f.qual), f.loc(), 'cannot be switched off')
                    absent = True
            sets = [e for e in st.events if e[0] == 'set' and ident(e[2]) == ident(key)]
            if absent or same:
                c.expect(not sets, 'reconfigure', '%s in %s' % (key, f.qual), f.loc(), 'is set although it did not change')
                continue
            given += 1
            ok = [e for e in sets if identity(e[3]) == ident(key) and value in list(subterms(e[3]))]
            if not c.expect(ok, 'reconfigure', '%s in %s' % (key, f.qual), f.loc(), 'the new value is not stored'):
                continue
            if ident(key) in ('sif', 'bits', 'float'):
                loads = [i for i, e in enumerate(st.events) if e[0] == 'call' and callee_name(e) == 'load_sil_files']
                c.expect(loads and any(e[0] == 'set' and e[2] == 'sil_programs' and is_call(e[3], 'load_sil_files')
                                       for e in st.events), 'reconfigure', 'reload for %s' % key, f.loc(),
                         'the resources of the old value stay in use')
                if loads:
                    c.expect(st.events.index(ok[0]) < loads[0] or value in list(subterms(st.events[loads[0]])),
                             'reconfigure', 'reload for %s' % key, f.loc(), 'loads the resources before the change')
        c.expect(given, 'reconfigure', key, f.loc(), 'has no effect at run time')
        # what is stored here is what requests read
        init = svc.methods['__init__']
    reads = {}
    for m in p.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and ident(n.attr):
                reads.setdefault(n.attr, set()).add(enclosing_function(n))
    for key in kwonly:
        names = {e.attr for e in ast.walk(f.node) if isinstance(e, ast.Attribute) and isinstance(e.ctx, ast.Store)
                 and ident(e.attr) == ident(key)}
        for a in names:
            users = {x for x in reads.get(a, ()) if x is not None and x.name not in (
                'reconfigure', 'current_options', '__init__', 'set_verifier')}
            c.expect(users, 'reconfigure', '%s is used' % a, f.loc(), 'no request ever reads the stored option')


def given_options(c, p, svc):
    c.rule('client options', 'options of the client are applied whenever they are given, also if their value is false')
    f = p.func(NT + 'service', 'options_to_kwargs')
    src = f.node
    loops = [n for n in ast.walk(src) if isinstance(n, ast.For)]
    comps = [n for n in ast.walk(src) if isinstance(n, ast.DictComp)]
    ok = 0
    for lp in loops + comps:
        it = lp.iter if isinstance(lp, ast.For) else lp.generators[0].iter
        tg = lp.target if isinstance(lp, ast.For) else lp.generators[0].target
        if isinstance(it, ast.Call) and attr_name(it) == 'items' and isinstance(tg, ast.Tuple) and len(tg.elts) == 2 and \
                dotted(it.func.value) == 'OPTION_TO_KWARG':
            k, v = (e.id for e in tg.elts)
        elif dotted(it) == 'OPTION_TO_KWARG' or isinstance(it, ast.Call) and attr_name(it) in ('keys', 'list', 'sorted') and (
                'OPTION_TO_KWARG' in names_in(it)):
            k, v = tg.id, '<none>'
        else:
            continue
        if isinstance(lp, ast.DictComp):
            body = ast.copy_location(ast.For(tg, it, [ast.Assign([ast.Subscript(
                ast.Name('kwargs', ast.Load()), lp.key, ast.Store())], lp.value)], []), lp)
            for cond in lp.generators[0].ifs:
                body.body = [ast.If(cond, body.body, [])]
            lp = ast.fix_missing_locations(body)
        it_fn = once_per_iteration(lp, k)
        env = {p_: ('param', p_) for p_ in f.all_params}
        env.update({k: ('key',), v: ('kwarg',)})

        def simp(t):
            if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] == 'get' and t[2] == (('key',),):
                return ('value',)
            if t[0] == 'sub' and t[2] == ('key',):
                return ('kwarg',) if t[1] == ('name', 'OPTION_TO_KWARG') else ('value',)
            return t
        sim = PathSim(f, node=it_fn, env=env, simp=simp, raises=no_raise)
        for t, st in sim.returns():
            if t[0] == 'tuple' and t[1][0] == ('const', 'break'):
                c.bad('client options', f.qual, f.loc(lp), 'options after this one are ignored')
            stores = [e for e in st.events if e[0] == 'setitem']
            none = [b for x, b in st.conds if x == ('is_none', ('value',))]
            other = [x for x, b in st.conds if x != ('is_none', ('value',)) and any(
                y in (('value',), ('key',), ('kwarg',)) for y in subterms(x))]
            c.expect(not other, 'client options', f.qual, f.loc(lp), 'an option is skipped because of %s' % (
                show(other[0]) if other else ''))
            if none == [True]:
                c.expect(not stores, 'client options', f.qual, f.loc(lp), 'sets an option that was not given')
            elif not other:
                good = [e for e in stores if e[2] == ('kwarg',) and e[3] == ('value',)]
                ok += c.expect(good, 'client options', f.qual, f.loc(lp), 'a given option is not passed on')
    c.expect(ok, 'client options', 'all options in %s' % f.qual, f.loc(), 'the table of options is not applied')

    ls = p.cls(NT + 'lsp_server', 'NaginiLanguageServer')
    f = ls.methods['apply_initialization_options']
    for key, attr in (('counterexamples', 'cex'), ('ignoreGlobal', 'ignore global')):
        opt = None
        n = 0
        sim = PathSim(f, want=lambda t: t[0] == 'set', raises=no_raise)
        for t, st in sim.returns():
            vals = [(x, b) for x, b in st.conds if x[0] == 'is_none' and identity(x[1]) == attr and any(
                y == ('const', key) for y in subterms(x))]
            truthy = [(x, b) for x, b in st.conds if identity(x) == attr]
            sets = [e for e in st.events if e[0] == 'set' and ident(e[2]) == attr]
            c.expect(not any(not b for x, b in truthy), 'client options', key, f.loc(), 'a false value is ignored')
            if vals and not vals[-1][1]:
                n += 1
                c.expect(sets and identity(sets[-1][3]) == attr and any(
                    y == ('const', key) for y in subterms(sets[-1][3])), 'client options', key, f.loc(),
                    'a given option is not applied')
        c.expect(n, 'client options', key, f.loc(), 'is not recognised')
    merged = 0
    for t, st in PathSim(f, want=lambda t: t[0] == 'set', raises=no_raise).returns():
        none_given = any((identity(x) is None and not b and x == ('param', 'options')) for x, b in st.conds)
        sets = [e for e in st.events if e[0] == 'set' and e[2] == 'service_kwargs']
        if sets:
            v = sets[-1][3]
            merged += 1
            c.expect(any(y == ('attr', ('param', 'self'), 'service_kwargs') for y in subterms(v)) and any(
                y == ('param', 'options') or y[0] in ('name', 'param', 'call') for y in subterms(v)),
                'client options', 'merging in %s' % f.qual, f.loc(), 'options of the command line are lost')
        else:
            c.expect(none_given, 'client options', f.qual, f.loc(), 'the options are not applied')
    c.expect(merged, 'client options', f.qual, f.loc(), 'the options are never applied')
    g = p.func(NT + 'lsp_server', 'merge_service_options')
    for n in ast.walk(g.node):
        if isinstance(n, ast.Dict) and any(k is None for k in n.keys):
            order = ['base' if any(isinstance(x, ast.Name) and x.id == 'base' for x in ast.walk(v)) else 'options'
                     for v in n.values]
            c.expect(order == ['base', 'options'], 'client options', g.qual, g.loc(n),
                     'the command line wins over the options of the client')
    ok = False
    names = {a.arg for a in g.node.args.args}
    c.expect(any(isinstance(n, ast.Call) and attr_name(n) == 'options_to_kwargs' for n in ast.walk(g.node)) and
             {'base', 'options'} <= names_in(g.node) | names, 'client options', g.qual, g.loc(), 'does not merge the options')
    init = p.func(NT + 'lsp_server', 'initialize')
    c.expect(any(isinstance(n, ast.Call) and attr_name(n) == 'apply_initialization_options' and
                 'initialization_options' in ast.unparse(n) for n in ast.walk(init.node)) or any(
                     isinstance(n, ast.Call) and attr_name(n) == 'apply_initialization_options' for n in ast.walk(init.node))
             and 'initialization_options' in ast.unparse(init.node), 'client options', init.qual, init.loc(),
             'the initialisation options are not applied')
    f = p.func(NT + 'lsp_server', 'main')
    sets = {}
    for _, st in (lambda s: list(s.returns()) + list(s.raises()) + s.exits)(
            PathSim(f, want=lambda t: t[0] == 'set', raises=no_raise)):
        for e in st.events:
            if e[0] == 'set':
                sets.setdefault(e[2], set()).add(e[3])
    c.expect(sets.get('service_kwargs') and all(is_call(v, 'service_kwargs_from_args') for v in sets['service_kwargs']),
             'client options', 'service options in %s' % f.qual, f.loc(), 'the command line options are not used')
    c.expect(sets.get('counterexamples') and all(identity(v) == 'cex' for v in sets['counterexamples']),
             'client options', 'counterexamples in %s' % f.qual, f.loc(), 'the command line option is not used')
    f = p.func(NT + 'mcp_server', 'configure')
    for t, st in PathSim(f, raises=no_raise).returns():
        calls = [e for e in st.events if is_call(e, 'reconfigure')]
        c.expect(calls and any(k is None and is_call(v, 'options_to_kwargs') and v[2] == (('param', 'options'),)
                               for k, v in calls[0][3]), 'client options', f.qual, f.loc(), 'does not apply the options')
        c.expect(is_call(t, 'reconfigure'), 'client options', f.qual, f.loc(), 'does not return the effective options')


SERVICE_SPEC = {   # option -> (action, type, default, values that must be accepted)
    'verifier': (None, None, 'silicon', ('silicon', 'carbon')), 'sif': (None, None, False, ()),
    'int_bitops_size': (None, 'int', 8, ()), 'float_encoding': (None, None, None, ()),
    'disable_branch_conditions': ('store_true', None, False, ()),
    'no_viper_server': ('store_true', None, False, ()),
    'z3': (None, None, 'config.z3_path', ()), 'boogie': (None, None, 'config.boogie_path', ()),
    'mypy_path': (None, None, 'config.mypy_path', ()), 'viper_jar_path': (None, None, 'config.classpath', ()),
}
CLI_SPEC = {k: v for k, v in SERVICE_SPEC.items() if k != 'no_viper_server'}
CLI_SPEC.update({
    'base_dir': (None, None, None, ()), 'select': (None, None, None, ()), 'viper_arg': (None, None, None, ()),
    'benchmark': (None, 'int', -1, ()), 'write_viper_to_file': (None, None, None, ()),
})
CLI_SPEC.update({k: ('store_true', None, False, ()) for k in (
    'print_viper', 'verbose', 'show_viper_errors', 'arp', 'ide_mode', 'ignore_global', 'ignore_obligations',
    'force_obligations', 'server', 'viper_server', 'counterexample', 'submit_for_evaluation',
    'disable_branch_conditions', 'skip_verification', 'extraction')})


def parsers(c, p):
    c.rule('parsers', 'the argument parsers accept the documented options with the documented kind and default, and every '
           'parsed option is used')
    for mod, fn, spec in (('main', 'main', CLI_SPEC), ('service', 'add_service_arguments', SERVICE_SPEC)):
        f = p.func(NT + mod, fn)
        got = dests(f)
        for d, (action, typ, default, values) in spec.items():
            name = '--%s in %s' % (d.replace('_', '-'), f.qual)
            if not c.expect(d in got, 'parsers', name, f.loc(), 'is not accepted'):
                continue
            n, opt = got[d]
            kws = {k.arg: k.value for k in n.keywords}
            lit = lambda e: None if e is None else e.value if isinstance(e, ast.Constant) else (
                -e.operand.value if isinstance(e, ast.UnaryOp) and isinstance(e.operand, ast.Constant) else dotted(e))
            a = lit(kws.get('action'))
            c.expect(a == action, 'parsers', name, f.loc(n), 'action is %s, expected %s' % (a, action))
            c.expect(lit(kws.get('type')) == typ, 'parsers', name, f.loc(n), 'type is %s, expected %s' % (
                lit(kws.get('type')), typ))
            dv = lit(kws.get('default'))
            if action == 'store_true':
                c.expect(not dv, 'parsers', name, f.loc(n), 'is switched on by default')
            else:
                c.expect(dv == default, 'parsers', name, f.loc(n), 'default is %s, expected %s' % (dv, default))
            c.expect('required' not in kws, 'parsers', name, f.loc(n), 'must now be given')
            if 'choices' in kws:
                try:
                    ch = set(ast.literal_eval(kws['choices']))
                except ValueError:
                    ch = None
                want = VOCABULARY.get(ident(d))
                if ch is not None and want is not None:
                    miss = {x for x in want if isinstance(x, str)} - ch
                    c.expect(not miss, 'parsers', name, f.loc(n), 'rejects the documented %s' % ', '.join(map(repr, miss)))
                elif ch is not None:
                    c.bad('parsers', name, f.loc(n), 'accepts only %s' % sorted(map(str, ch)))
        if mod == 'main' and 'sif' in got:
            kws = {k.arg: k.value for k in got['sif'][0].keywords}
            const = kws.get('const')
            c.expect('nargs' not in kws or isinstance(const, ast.Constant) and const.value in ('true', True),
                     'parsers', 'bare --sif', f.loc(got['sif'][0]), 'means %s' % (const and ast.unparse(const)))
        used = set()
        for m in p.modules.values():
            if m.name in (NT + 'main', NT + 'service', NT + 'lsp_server', NT + 'mcp_server'):
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and \
                            n.value.id == 'args' and (mod == 'main') == (m.name == NT + 'main'):
                        used.add(n.attr)
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'getattr' and len(
                            n.args) > 1 and isinstance(n.args[1], ast.Constant):
                        used.add(n.args[1].value)
        for d, (n, opt) in got.items():
            c.expect(d in used, 'parsers', '%s in %s' % (opt, f.qual), f.loc(n), 'is accepted but has no effect')
    # the documented options
    try:
        readme = open(os.path.join(p.repo, 'README.rst'), encoding='utf8').read()
    except OSError:
        readme = ''
    listed = re.findall(r'^    (--[a-z0-9-]+)', readme, re.M)
    f = p.func(NT + 'main', 'main')
    opts = {o for _, o in dests(f).values()}
    for o in listed:
        c.expect(o in opts, 'parsers', 'documented option %s' % o, f.loc(), 'is not accepted')


def vocabulary(c, p):
    c.rule('vocabulary', 'option values are compared only with values the option can have, and every value has an effect')
    used = {}
    for m in p.modules.values():
        if not m.name.startswith(NT) or '.tests' in m.name or m.name.endswith(('conftest', 'tests')):
            continue
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.Compare) or len(n.ops) != 1:
                continue
            for l, r in ((n.left, n.comparators[0]), (n.comparators[0], n.left)):
                i = ident(l.attr) if isinstance(l, ast.Attribute) else ident(l.id) if isinstance(l, ast.Name) else None
                if i not in VOCABULARY:
                    continue
                if i == 'backend' and isinstance(l, ast.Name) and l.id == 'verifier' and m.name != NT + 'main':
                    continue
                vals = []
                if isinstance(r, ast.Constant):
                    vals = [r.value]
                elif isinstance(r, (ast.Tuple, ast.List, ast.Set)) and all(isinstance(e, ast.Constant) for e in r.elts):
                    vals = [e.value for e in r.elts]
                    if isinstance(n.ops[0], ast.NotIn) and i != 'backend' or len(vals) > 2:
                        miss = {x for x in VOCABULARY[i] if isinstance(x, str)} - set(vals)
                        c.expect(not miss, 'vocabulary', 'accepted values of %s' % i, '%s:%d' % (m.relpath, n.lineno),
                                 'the documented %s is rejected' % ', '.join(map(repr, miss)))
                for v in vals:
                    used.setdefault((i, v), []).append('%s:%d' % (m.relpath, n.lineno))
                    c.expect(v in VOCABULARY[i], 'vocabulary', '%s == %r' % (i, v), '%s:%d' % (m.relpath, n.lineno),
                             'the option never has this value')
    for i, v in (('sif', 'poss'), ('sif', 'prob'), ('float', 'real'), ('float', 'ieee32'), ('backend', 'carbon')):
        at = [x for x in used.get((i, v), ()) if '/main.py' not in x or i == 'float']
        c.expect(at, 'vocabulary', 'effect of %s=%s' % (i, v), 'src/nagini_translation', 'nothing depends on it')


def consistent(conds):
    """No value equals two different constants."""
    eq = {}
    for x, b in conds:
        if b and x[0] == 'cmp' and x[1] == '==':
            for l, r in ((x[2], x[3]), (x[3], x[2])):
                if r[0] == 'const' and l[0] != 'const' and eq.setdefault(l, r) != r:
                    return False
    return True


def effects(c, p):
    c.rule('effects', 'options that select a behaviour do so in every function they are handed to')
    skip = {('Carbon', 'filename')}
    allow = {'_construct_classpath', 'load_sil_files'}   # keep parameters only for compatibility
    for mod in ['main', 'service', 'verifier', 'viper_server', 'lsp_server', 'mcp_server', 'translator', 'analyzer',
                'lib.typeinfo', 'lib.errors.manager', 'lib.errors.wrappers']:
        m = p.modules[NT + mod]
        for fi in p.all_functions(prefix=NT + mod):
            if fi.module is not m:
                continue
            for prm in fi.all_params:
                if not ident(prm) or prm == 'path':
                    continue
                used = any(isinstance(n, ast.Name) and n.id == prm and isinstance(n.ctx, ast.Load) for n in ast.walk(fi.node))
                if not used and (fi.name in allow or len(fi.node.body) <= 2 and all(
                        isinstance(s, (ast.Pass, ast.Expr)) for s in fi.node.body)):
                    continue
                if not used and fi.cls is not None and fi.name in ('to_string', 'string'):
                    continue
                c.expect(used, 'effects', '%s of %s' % (prm, fi.qual), fi.loc(), 'the option is accepted but has no effect')
    # resources
    f = p.func(NT + 'main', 'parse_sil_file')
    flo = [x for x in f.all_params if ident(x) == 'float']
    bits = [x for x in f.all_params if ident(x) == 'bits']
    reps = {}
    sim = PathSim(f, raises=no_raise, want=lambda t: t[0] == 'call' and callee_name(t) == 'parse')
    n = 0
    for t, st in sim.returns():
        if not consistent(st.conds):
            continue
        calls = [e for e in st.events if e[0] == 'call' and callee_name(e) == 'parse' and e[2]]
        for e in calls[:1]:
            n += 1
            text = e[2][0]
            rep = {(x[2][0][1], x[2][1]) for x in subterms(text) if x[0] == 'call' and x[1][0] == 'attr' and
                   x[1][2] == 'replace' and len(x[2]) == 2 and x[2][0][0] == 'const'}
            chosen = None
            for x, b in st.conds:
                if x[0] == 'cmp' and x[1] in ('==',) and b:
                    for l, r in ((x[2], x[3]), (x[3], x[2])):
                        if identity(l) == 'float' and r[0] == 'const':
                            chosen = r[1]
            got = {v[1] for k, v in rep if k == 'float.sil' and v[0] == 'const'}
            want = {'real': {'float_real.sil'}, 'ieee32': {'float_ieee32.sil'}, None: set()}[chosen]
            c.expect(got == want, 'effects', 'float encoding %s' % chosen, f.loc(), 'loads %s' % (sorted(got) or 'the default'))
            for k in ('NBITS', 'INT_MIN_VAL', 'INT_MAX_VAL'):
                v = [v for kk, v in rep if kk == k]
                c.expect(v and any(identity(y) == 'bits' for y in subterms(v[0])), 'effects', '%s of the integer resources' % k,
                         f.loc(), 'does not follow the option for bitwise operations')
    c.expect(n, 'effects', 'resource text', f.loc(), 'the resources are not parsed')
    for name in ('float.sil', 'float_real.sil', 'float_ieee32.sil', 'intbv.sil', 'all.sil'):
        c.expect(os.path.exists(os.path.join(p.repo, 'src/nagini_translation/resources', name)), 'effects',
                 'resource %s' % name, 'src/nagini_translation/resources', 'is missing')
    # configuration values reach their consumer
    for attr, consumers in (('mypy_path', 'mypy_path'), ('z3_path', None), ('boogie_path', None)):
        users = [fi for fi in p.all_functions(prefix=NT) if fi.module.name in (
            NT + 'verifier', NT + 'lib.typeinfo') and any(
                isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.ctx, ast.Load) and
                dotted(n.value) == 'config' for n in ast.walk(fi.node))]
        c.expect(users, 'effects', 'config.%s' % attr, 'src/nagini_translation/lib/config.py', 'is never used')
    opt = p.cls(NT + 'lib.typeinfo', 'TypeInfo').methods['_create_options']
    for t, st in PathSim(opt, raises=no_raise, want=lambda t: t[0] == 'set').returns():
        if any(identity(x) == 'mypy path' and not b or x[0] == 'is_none' and b and identity(x[1]) == 'mypy path'
               for x, b in st.conds):
            continue
        c.expect(any(e[0] == 'set' and e[2] == 'mypy_path' and identity(e[3]) == 'mypy path' for e in st.events),
                 'effects', 'mypy path', opt.loc(), 'the type checker does not get it')


def command_line(c, p):
    c.rule('command line', 'switches of the command line have their documented effect before the first program is handled')
    f = p.func(NT + 'main', 'main')
    keep = ('viper_server', 'ignore_obligations', 'force_obligations')
    arg = lambda n: ('attr', ('call', ('attr', ('name', 'parser'), 'parse_args'), (), ()), n)

    def names(t):
        return {x[2] for x in subterms(t) if x[0] == 'attr'}
    sim = PathSim(f, raises=no_raise, limit=600000,
                  noreturn=lambda t: callee_name(t) in ('error', 'exit', '_exit'),
                  want=lambda t: t[0] == 'set' and t[2] in ('disable_all',) or t[0] == 'call' and callee_name(t) in (
                      'enable_viper_server', 'JVM'),
                  relevant=lambda t: bool(names(t) & set(keep)))
    n = 0
    seen = set()
    for _, st in list(sim.returns()) + sim.exits:
        ev = list(st.events)
        jvm = [i for i, e in enumerate(ev) if e[0] == 'call' and callee_name(e) == 'JVM']
        if not jvm:
            continue
        ev = ev[:jvm[0] + 1]
        val = {}
        for x, b in st.conds:
            if x[0] == 'attr' and x[2] in keep:
                val[x[2]] = b
        n += 1
        srv = any(e[0] == 'call' and callee_name(e) == 'enable_viper_server' for e in ev)
        if 'viper_server' in val:
            c.expect(srv == val['viper_server'], 'command line', '--viper-server', f.loc(),
                     'is %s although it was%s given' % ('used' if srv else 'not used', '' if val['viper_server'] else ' not'))
        elif srv:
            c.bad('command line', '--viper-server', f.loc(), 'is used although it was not given')
        dis = [('const', val[e[3][2]]) if e[3][0] == 'attr' and e[3][2] in val else e[3] for e in ev if e[0] == 'set']
        ign, force = val.get('ignore_obligations'), val.get('force_obligations')
        want = ('const', True) if ign else ('const', False) if force else None
        c.expect((dis[-1] if dis else None) == want, 'command line', 'obligation switches', f.loc(),
                 'with ignore=%s, force=%s the setting is %s' % (ign, force, show(dis[-1]) if dis else 'the default'))
        c.expect(not (ign and force), 'command line', 'contradicting obligation switches', f.loc(), 'are accepted')
    c.expect(n >= 4, 'command line', 'paths through main', f.loc(), 'only %d' % n)

    f = p.func(NT + 'main', '_parse_client_request')
    for t, st in PathSim(f, raises=no_raise).returns():
        if t[0] != 'tuple' or len(t[1]) != 2:
            c.bad('command line', f.qual, f.loc(), 'returns %s' % show(t))
            continue
        file, sel = t[1]
        obj = any(x[0] == 'call' and callee_name(x) == 'isinstance' and b for x, b in st.conds)
        if obj:
            c.expect(any(y == ('const', 'file') for y in subterms(file)), 'command line', 'file of a request', f.loc(),
                     'is %s' % show(file))
            given = [b for x, b in st.conds if identity(x) == 'selected']
            if given and given[-1]:
                c.expect(identity(sel) == 'selected' and any(
                    y[0] == 'call' and y[1][0] == 'attr' and y[1][2] == 'split' and y[2] == (('const', ','),)
                    for y in subterms(sel)), 'command line', 'selection of a request', f.loc(), 'is %s' % show(sel))
        else:
            c.expect(file == ('param', f.params[0]), 'command line', 'plain request', f.loc(), 'file is %s' % show(file))
            c.expect(sel == ('const', None), 'command line', 'plain request', f.loc(), 'selects %s' % show(sel))
    f = p.func(NT + 'client', 'main')
    for t, st in PathSim(f, raises=no_raise).returns():
        send = [e for e in st.events if e[0] == 'call' and callee_name(e) in ('send_string', 'send_json')]
        if not c.expect(send, 'command line', 'client request', f.loc(), 'nothing is sent'):
            continue
        txt = show(send[0])
        env = [x for x in subterms(send[0]) if x[0] == 'dict']
        keys = {k[1]: v for d in env for k, v in d[1] if k[0] == 'const'}
        keys.update({e[2][1]: e[3] for e in st.events if e[0] == 'setitem' and e[2][0] == 'const'})
        c.expect('file' in keys and keys['file'][0] == 'attr' and keys['file'][2] == 'python_file', 'command line',
                 'file of the client request', f.loc(), 'is not sent under its name')
        if any(identity(x) == 'selected' and b for x, b in st.conds) or not any(
                identity(x) == 'selected' or x[0] == 'is_none' and identity(x[1]) == 'selected' for x, _ in st.conds):
            c.expect('select' in keys and identity(keys['select']) == 'selected', 'command line',
                     'selection of the client request', f.loc(), 'is not sent under its name')

    f = p.func(NT + 'main', 'translate_and_verify')
    sim = PathSim(f, raises=no_raise, want=lambda t: t[0] == 'call' and callee_name(t) in (
        'translate', 'verify'), relevant=lambda t: True, limit=600000)
    n = 0
    for t, st in sim.returns():
        calls = [e for e in st.events if is_call(e, 'translate')]
        if not calls:
            continue
        n += 1
        args = bound(calls[0], p.func(NT + 'main', 'translate'))
        for prm, i in (('verbose', 'verbose'), ('skip_verification', 'skip'), ('extraction', 'extraction')):
            c.expect(prm in args and identity(args[prm]) == i, 'command line', '%s of the translation' % prm, f.loc(),
                     'the option is not passed on')
        for e in st.events:
            if is_call(e, 'verify'):
                b = bound(e, p.func(NT + 'main', 'verify'))
                be = b.get('backend')
                which = [x[3][1] if x[3][0] == 'const' else x[2][1] for x, v in st.conds
                         if x[0] == 'cmp' and x[1] == '==' and v and 'backend' in (identity(x[2]), identity(x[3])) and
                         'const' in (x[2][0], x[3][0])]
                if be is not None and be[0] == 'attr' and be[2] in ('silicon', 'carbon'):
                    c.expect(which == [be[2]] or not which, 'command line', 'backend', f.loc(),
                             'runs %s for --verifier=%s' % (be[2], which))
    c.expect(n, 'command line', 'translation', f.loc(), 'is never reached')
    for g, tests in ((p.func(NT + 'main', 'get_verifier'), None), (p.cls(NT + 'service', 'VerificationService').methods[
            '_verify_serial'], None)):
        pass
    t_ = p.func(NT + 'main', 'translate')
    c.rule('selection', 'the options of a translation select the matching translator, transformation and output')
    sim = PathSim(t_, raises=no_raise, want=lambda t: t[0] == 'call' and callee_name(t) in (
        'Translator', 'SIFTranslator', 'ViperAST', 'ViperASTExtended', 'transform', 'before_verify', 'translate_program',
        'load_sil_files', 'configure_mpp_transformation', 'process', 'set_all_low_methods'), limit=900000,
        noreturn=None, relevant=lambda t: bool({x[1] for x in subterms(t) if x[0] == 'param'}))
    n = 0
    for t, st in sim.returns():
        val = {x[1]: b for x, b in st.conds if x[0] == 'param'}
        names_ = [callee_name(e) for e in st.events if e[0] == 'call']
        if 'translate_program' not in names_:
            continue
        n += 1
        sif = val.get('sif')
        for yes, no in (('SIFTranslator', 'Translator'), ('ViperASTExtended', 'ViperAST')):
            c.expect((yes in names_) == bool(sif) and (no in names_) == (not sif), 'selection', yes, t_.loc(),
                     'with sif=%s the translation uses %s' % (sif, [x for x in names_ if x in (yes, no)]))
        if t[0] == 'tuple' and len(t[1]) == 2 and t[1][1] != ('const', None):
            prog = t[1][1]
            tr = [e for e in st.events if e[0] == 'call' and callee_name(e) == 'transform']
            c.expect(bool(tr) == bool(sif), 'selection', 'product transformation', t_.loc(),
                     'with sif=%s it is %sapplied' % (sif, '' if tr else 'not '))
            if tr:
                ce = 'Counterexample' in show(tr[0])
                c.expect(ce == bool(val.get('counterexample')), 'selection', 'counterexample transformer', t_.loc(),
                         'used %s counterexamples' % ('without' if ce else 'although there are to be'))
                c.expect(tr[0] in list(subterms(prog)), 'selection', 'product transformation', t_.loc(), 'its result is dropped')
            ar = [e for e in st.events if e[0] == 'call' and callee_name(e) == 'before_verify']
            c.expect(bool(ar) == bool(val.get('arp')), 'selection', 'abstract read permissions', t_.loc(),
                     'with arp=%s they are %sapplied' % (val.get('arp'), '' if ar else 'not '))
            if ar:
                c.expect(ar[0] in list(subterms(prog)), 'selection', 'abstract read permissions', t_.loc(), 'result is dropped')
            c.expect(not val.get('skip_verification'), 'selection', 'skipped verification', t_.loc(),
                     'a program is returned for verification')
        if val.get('extraction') is not None:
            c.expect(('process' in names_) , 'selection', 'extraction', t_.loc(), 'is not done')
    c.expect(n >= 8, 'selection', 'paths through translate', t_.loc(), 'only %d' % n)


def check(c):
    p = c.project
    svc = p.cls(NT + 'service', 'VerificationService')
    flow(c, p)
    concurrent(c, p, svc)
    stored(c, p)
    tables(c, p, svc)
    reconfiguring(c, p, svc)
    given_options(c, p, svc)
    parsers(c, p)
    vocabulary(c, p)
    effects(c, p)
    command_line(c, p)


if __name__ == '__main__':
    run('C17', 'Every option reaches what it controls in every front end', check)

from _common import *

MUTATORS = {'append', 'add', 'update', 'pop', 'clear', 'setdefault', 'extend', 'insert', 'remove', 'discard', 'popitem',
            'appendleft', 'popleft', 'sort', 'reverse', '__setitem__', '__delitem__', 'difference_update',
            'intersection_update', 'symmetric_difference_update', 'move_to_end', 'rotate'}
CONTAINERS = {'dict', 'list', 'set', 'defaultdict', 'OrderedDict', 'deque', 'Counter', 'bytearray'}
# process-wide state and how it is kept from one program to the next
RESET = {'errors.manager:manager': 'registry'}
OPTIONS = {'classpath', 'z3_path', 'boogie_path', 'mypy_path', 'use_viper_server', 'mypy_dir'}
OPTION_WRITERS = {'main', '__init__', 'reconfigure', 'set_verifier', 'enable_viper_server', 'conftest'}
LAZY = {'main:sil_programs', 'viper_server:_MANAGER', 'verifier:_ARP_PLUGIN', 'mcp_server:_service'}
MEMO = {'translators.expression:TAKES_IMPURE_ARGS'}
PATCHED = {'mypy.build.find_cache_meta'}     # put back on every exit: C13
EXTERNAL = {'os.chdir', 'os.putenv', 'os.umask', 'random.seed', 'locale.setlocale', 'logging.disable',
            'sys.setrecursionlimit', 'gc.disable', 'warnings.simplefilter', 'warnings.filterwarnings', 'os.nice'}


def short(name):
    return name[len(NT):] if name.startswith(NT) else name


def container(e):
    return isinstance(e, (ast.Dict, ast.List, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or isinstance(
        e, ast.Call) and attr_name(e) in CONTAINERS


class Roots:
    """Which process-wide object does an expression denote (a part of)?"""

    def __init__(self, p, fi):
        self.p, self.fi = p, fi
        self.globals = set()
        self.local = set()
        f = fi
        while f is not None:
            for n in walk_shallow(f.node):
                if isinstance(n, ast.Global):
                    self.globals |= set(n.names)
                elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    self.local.add(n.id)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not f.node:
                    self.local.add(n.name)
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    self.local.add(n.name)
                elif isinstance(n, ast.comprehension):
                    self.local |= {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
            self.local |= set(f.all_params)
            f = f.outer
        self.local -= self.globals
        self.imports = {}
        f = fi
        while f is not None:
            for n in walk_shallow(f.node):
                if isinstance(n, ast.Import):
                    for a in n.names:
                        self.imports[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
                elif isinstance(n, ast.ImportFrom) and n.module:
                    for a in n.names:
                        self.imports[a.asname or a.name] = n.module + '.' + a.name
            f = f.outer

    def imported(self):
        """Names that the module binds by ``import x``."""
        if not hasattr(self, '_imported'):
            self._imported = {(a.asname or a.name).split('.')[0] for s in self.fi.module.tree.body
                              if isinstance(s, ast.Import) for a in s.names}
        return self._imported

    def aliases(self, name):
        if not hasattr(self, '_aliases'):
            self._aliases = {}
            for n in walk_shallow(self.fi.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            self._aliases.setdefault(t.id, []).append(n.value)
        return self._aliases.get(name, [])

    def of(self, e, depth=0):
        """('module:name', attribute path) candidates."""
        path = []
        while True:
            if isinstance(e, ast.Attribute):
                path.append(e.attr)
                e = e.value
            elif isinstance(e, ast.Subscript):
                path.append('[]')
                e = e.value
            else:
                break
        path = path[::-1]
        if isinstance(e, ast.Call):
            # type(x).attr, x.__class__.attr
            if attr_name(e) == 'type' and path:
                return [('class of ' + ast.unparse(e.args[0]) if e.args else 'class', path)]
            return []
        if not isinstance(e, ast.Name):
            return []
        if e.id in ('cls',) and self.fi.is_classmethod:
            return [(short(self.fi.module.name) + ':' + self.fi.cls.name, path)]
        if '__class__' in path:
            return [('class of ' + e.id, path[path.index('__class__') + 1:])]
        if e.id in self.local and e.id not in self.imports:
            if depth > 3:
                return []
            out = []
            for v in self.aliases(e.id):
                if isinstance(v, (ast.Name, ast.Attribute, ast.Subscript)):
                    for r, q in self.of(v, depth + 1):
                        out.append((r, q + path))
            return out
        full = None
        if e.id in self.imports:
            full = self.imports[e.id]
        else:
            sym = self.p.external_name(e, self.fi.module)
            tgt = self.p.resolve_symbol(self.fi.module.name, e.id)
            if isinstance(tgt, FunctionInfo):
                return [(short(tgt.module.name) + ':' + tgt.name, path)] if path else []
            if isinstance(tgt, ClassInfo):
                return [(short(tgt.module.name) + ':' + tgt.name, path)] if path else []
            full = sym if sym is not None and ('.' in sym or e.id in self.imported()) else None
        return [self.canonical(full, e.id, path)]

    def canonical(self, full, name, path):
        """Name the object independently of how it was imported."""
        dots = (full.split('.') if full else [name]) + [x for x in path]
        if full is None:
            src = self.origin(self.fi.module.name, name)
            return (short(src[0]) + ':' + src[1], path)
        # a module of the project
        for i in range(len(dots), 0, -1):
            mn = '.'.join(dots[:i])
            if mn in self.p.modules:
                if i < len(dots):
                    src = self.origin(mn, dots[i])
                    return (short(src[0]) + ':' + src[1], dots[i + 1:])
                return (short(mn), [])
        return ('.'.join(full.split('.')), path)

    def origin(self, modname, name, seen=()):
        """The module that binds the name (following imports)."""
        m = self.p.modules.get(modname)
        if m is None or (modname, name) in seen:
            return modname, name
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom) and n.module and n.module in self.p.modules:
                for a in n.names:
                    if (a.asname or a.name) == name:
                        return self.origin(n.module, a.name, seen + ((modname, name),))
        return modname, name


_ROOTS = {}
_WRITES = {}


def roots(p, fi):
    if fi not in _ROOTS:
        _ROOTS[fi] = Roots(p, fi)
    return _ROOTS[fi]


def writes(p, fi):
    if fi not in _WRITES:
        _WRITES[fi] = list(find_writes(p, fi))
    return _WRITES[fi]


def find_writes(p, fi):
    """(node, expression whose object is changed, kind)"""
    for n in walk_shallow(fi.node):
        if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
            yield n, n, 'store'
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
            yield n, n.func.value, n.func.attr
        elif isinstance(n, ast.Call) and attr_name(n) in ('setattr', 'delattr') and n.args and isinstance(
                n.func, ast.Name):
            yield n, ast.copy_location(ast.Attribute(n.args[0], n.args[1].value if len(n.args) > 1 and isinstance(
                n.args[1], ast.Constant) else '*', ast.Store()), n), 'store'
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            yield n, n, 'global'


def scope(p):
    for fi in p.all_functions(prefix=NT):
        mn = fi.module.name
        if '.tests' in mn or mn.endswith('.conftest') or '.resources' in mn:
            continue
        yield fi


def enumerate_state(c, p):
    """Every write to process-wide state is of a reviewed kind."""
    c.rule('state', 'translation leaves nothing behind in process-wide variables except state with a reset discipline')
    found = {}
    nfun = 0
    for fi in scope(p):
        nfun += 1
        r = roots(p, fi)
        for node, e, kind in writes(p, fi):
            if kind == 'global':
                if e.id not in r.globals:
                    continue
                src = r.origin(fi.module.name, e.id)
                cands = [(short(src[0]) + ':' + src[1], [])]
            else:
                cands = r.of(e)
            for root, path in cands:
                found.setdefault((root, tuple(path)), []).append((fi, node, kind))
        for n in walk_shallow(fi.node):
            if isinstance(n, ast.Call):
                d = dotted(n.func)
                if d in EXTERNAL and fi.name != 'main':
                    c.bad('state', '%s in %s' % (d, fi.qual), fi.loc(n), 'changes the process for later programs')
    c.ok('state', 'nagini_translation', '%d functions analysed' % nfun)
    for (root, path), sites in sorted(found.items(), key=lambda x: (x[0][0], x[0][1])):
        for fi, node, kind in sites:
            why = judge(root, path, fi, node, kind, p)
            c.expect(why is None, 'state', '%s in %s' % ('.'.join((root,) + path), fi.qual), fi.loc(node), why or '')
    return found


def judge(root, path, fi, node, kind, p):
    full = '.'.join((root,) + tuple(path))
    if full in PATCHED:
        return None
    if root == 'lib.errors.manager:manager':
        if not path and isinstance(node, ast.Call) and node.func.attr == 'clear':
            return None
        if path and path[0] in ('_items', '_conversion_rules') and len(path) == 1:
            return None        # a snapshot is put back: C14
        return 'the diagnostics registry is changed to something that is not reset'
    if root.startswith('lib.config:') or root == 'lib.config':
        name = root.split(':')[1] if ':' in root else ''
        if name in OPTIONS:
            return None if fi.name in OPTION_WRITERS else 'an option is changed while a program is processed'
        if name == 'obligation_config' and 'disable_all' in path or name == 'obligation_config' and path[:1] == ['_info'] \
                or name == 'obligation_config' and path and path[0] in ('_info', 'disable_all'):
            return None        # see rule obligations
        return 'configuration is changed while a program is processed'
    if root in LAZY and not path:
        return None
    if root in MEMO:
        return None
    if root == 'lsp_server:server' and fi.name == 'main':
        return None
    if root.split('.')[0] in ('args', 'self'):
        return None
    return 'a process-wide object is changed, which the next program sees'


def singletons(c, p):
    """State inside objects that live as long as the process."""
    c.rule('singleton', 'objects that live as long as the process keep nothing about a program')
    n = 0
    for m in p.modules.values():
        if not m.name.startswith(NT) or '.tests' in m.name or m.name.endswith('conftest'):
            continue
        for s in m.tree.body:
            v = getattr(s, 'value', None)
            if not isinstance(s, (ast.Assign, ast.AnnAssign)) or not isinstance(v, ast.Call):
                continue
            cl = p.resolve_name_expr(v.func, m)
            if not isinstance(cl, ClassInfo):
                continue
            n += 1
            for k in cl.mro():
                for f in list(k.methods.values()) + list(k.setters.values()):
                    if f.name == '__init__':
                        continue
                    for node, e, kind in writes(p, f):
                        if kind == 'global':
                            continue
                        b, path = e, []
                        while isinstance(b, (ast.Attribute, ast.Subscript)):
                            path.append(b.attr if isinstance(b, ast.Attribute) else '[]')
                            b = b.value
                        if not (isinstance(b, ast.Name) and b.id == 'self') or not path:
                            continue
                        attr = path[-1]
                        ok = cl.name == 'ErrorManager' or k.name == 'ObligationConfig' and f.name == 'disable_all' or \
                            cl.name == 'NaginiLanguageServer' and attr in ALLOWED_LSP
                        c.expect(ok, 'singleton', '%s.%s in %s' % (cl.name, attr, f.qual), f.loc(node),
                                 'is kept for later programs')
    c.expect(n >= 5, 'singleton', 'module-level objects', NT, 'only %d found' % n)
    registry(c, p)


ALLOWED_LSP = {'service', '_last_diagnostics', 'service_kwargs', 'counterexamples', 'ignore_global'}


def registry(c, p):
    c.rule('registry', 'the diagnostics registry is emptied at the start of every translation')
    em = p.cls(NT + 'lib.errors.manager', 'ErrorManager')
    attrs = set()
    for f in em.methods.values():
        for node, e, kind in writes(p, f):
            b, path = e, []
            while isinstance(b, (ast.Attribute, ast.Subscript)):
                path.append(b.attr if isinstance(b, ast.Attribute) else '[]')
                b = b.value
            if isinstance(b, ast.Name) and b.id == 'self' and path:
                attrs.add(path[-1])
    c.expect({'_items', '_conversion_rules'} <= attrs, 'registry', 'registry attributes', em.module.relpath, str(attrs))
    f = em.methods['clear']
    sim = PathSim(f, want=lambda t: t[0] in ('set',) or t[0] == 'call' and callee_name(t) == 'clear')
    for t, st in sim.returns():
        gone = {e[1][1][2] for e in st.events if e[0] == 'call' and e[1][0] == 'attr' and e[1][1][0] == 'attr'} | {
            e[2] for e in st.events if e[0] == 'set' and e[1] == ('param', 'self')}
        for a in sorted(attrs):
            c.expect(a in gone, 'registry', 'clear empties %s' % a, f.loc(), '%s is kept (lines %s)' % (a, sim.where(st)))
    f = p.func(NT + 'main', 'translate')
    sim = PathSim(f, want=lambda t: t[0] == 'call' and (callee_name(t) in (
        'clear', 'Analyzer', 'TypeInfo', 'Translator', 'SIFTranslator', 'GhostChecker', 'process', 'translate_program')))
    n = 0
    for t, st in list(sim.returns()) + list(sim.raises()):
        work = [i for i, e in enumerate(st.events) if callee_name(e) in (
            'Analyzer', 'Translator', 'SIFTranslator', 'process', 'translate_program', 'GhostChecker')]
        clears = [i for i, e in enumerate(st.events) if callee_name(e) == 'clear']
        if not work:
            continue
        n += 1
        c.expect(clears and clears[0] < work[0], 'registry', 'clear before translation', f.loc(),
                 'entries of the previous program are still there (lines %s)' % sim.where(st))
        c.expect(not any(i > work[0] for i in clears), 'registry', 'entries stay until they are used', f.loc(),
                 'the registry is emptied in the middle of a translation')
    c.expect(n, 'registry', 'translations', f.loc(), 'no path translates')


def fresh_objects(c, p):
    c.rule('fresh', 'the objects that collect facts about a program are created for each translation')
    f = p.func(NT + 'main', 'translate')
    sim = PathSim(f, want=lambda t: t[0] == 'call' and callee_name(t) in (
        'process', 'translate_program', 'check', 'collect_modules'))
    n = 0
    for t, st in sim.returns():
        for e in st.events:
            recv = e[2][0] if callee_name(e) == 'collect_modules' and e[2] else e[1][1] if e[1][0] == 'attr' else None
            if recv is None:
                continue
            n += 1
            c.expect(recv[0] == 'call' and recv[1][0] in ('name', 'class', 'global', 'attr') or recv[0] == 'new', 'fresh',
                     'receiver of %s' % callee_name(e), f.loc(), 'is %s' % show(recv)[:100])
    c.expect(n >= 4, 'fresh', 'translation steps', f.loc(), 'only %d' % n)


def obligations(c, p):
    """The automatic switch is undone before the next program."""
    c.rule('obligations', 'the automatically chosen obligation mode of one program is not in effect for the next')
    OC = p.cls(NT + 'lib.config', 'ObligationConfig')
    # who writes it
    writers = {}
    for fi in scope(p):
        r = roots(p, fi)
        for node, e, kind in writes(p, fi):
            if kind == 'global':
                continue
            for root, path in r.of(e):
                if root == 'lib.config:obligation_config' and path and path[0] in ('disable_all', '_info'):
                    writers.setdefault(fi, []).append(node)
    tr = p.func(NT + 'main', 'translate')
    c.expect(tr in writers, 'obligations', 'automatic choice', tr.loc(), 'translate does not choose the mode')
    resetters = {f for f in writers if f is not tr}

    def is_reset(call_or_stmt, fi):
        for n in ast.walk(call_or_stmt):
            if isinstance(n, ast.Call):
                for g in p.resolve_call(n, fi):
                    if g in resetters and g.name not in ('main', '__init__'):
                        return True
        return any(n in list(ast.walk(call_or_stmt)) for n in writers.get(fi, ()))
    # calls that translate
    callers = {tr}
    changed = True
    while changed:
        changed = False
        for fi in scope(p):
            if fi in callers or fi.name in ('_verify_serial', '_verify_concurrent', 'main'):
                continue
            for n in walk_shallow(fi.node):
                if isinstance(n, ast.Call) and any(g in callers for g in p.resolve_call(n, fi)):
                    if fi.module.name.startswith(NT) and fi.name in ('translate_and_verify',):
                        callers.add(fi)
                        changed = True
                        break
    n = 0
    for fi in scope(p):
        sites = [x for x in walk_shallow(fi.node) if isinstance(x, ast.Call) and any(
            g in callers for g in p.resolve_call(x, fi))]
        if not sites or fi in callers and fi.name != 'translate_and_verify':
            continue
        start = 'clean' if fi.name in ('main', 'translate_and_verify') else 'dirty'
        cfg = CFG(fi.node)
        fixed = set(fi.all_params) - {x.id for x in ast.walk(fi.node) if isinstance(x, ast.Name) and
                                      isinstance(x.ctx, ast.Store)}

        def transfer(node, label, st, fi=fi, sites=sites, fixed=fixed):
            if node.ast is None or node.kind not in ('stmt', 'test', 'foriter', 'with_enter'):
                return [st]
            for e in node_exprs(node):
                for call in calls_in(e):
                    if call in sites:
                        arg = ast.dump(call.args[0]) if call.args else ''
                        if st != 'clean' and not (st == ('done', arg) and call.args and isinstance(
                                call.args[0], ast.Name) and call.args[0].id in fixed):
                            bad.append((call, st))
                        st = ('done', arg)
                if is_reset(e, fi) and not any(x in sites for x in calls_in(e)):
                    st = 'clean'
            return [st]
        bad = []
        run_paths(cfg, start, transfer)
        for s in sites:
            n += 1
            c.expect(not any(s is b[0] for b in bad), 'obligations', 'reset before the translation in %s' % fi.qual, fi.loc(s),
                     'the choice made for the previous program is still in effect')
    c.expect(n >= 4, 'obligations', 'translating calls', NT, 'only %d' % n)
    # translate respects an explicit choice
    sim = PathSim(tr, want=lambda t: t[0] == 'set')
    for t, st in list(sim.returns()):
        for e in st.events:
            if e[0] == 'set' and e[2] == 'disable_all':
                c.expect(has(st.conds, lambda x: x[0] == 'is_none' and x[1] == ('attr', e[1], 'disable_all'), True),
                         'obligations', 'explicit choice in translate', tr.loc(),
                         'the choice of the user is overwritten (lines %s)' % sim.where(st))
    # what a reset does
    svc = p.cls(NT + 'service', 'VerificationService')
    init = svc.methods['__init__']
    keep = None
    for x in ast.walk(init.node):
        if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Attribute) and isinstance(x.value, ast.Attribute) \
                and x.value.attr == 'disable_all':
            keep = x.targets[0].attr
    c.expect(keep, 'obligations', 'initial choice is remembered', init.loc(), 'the service does not remember it')
    stores = [(f, x) for f in svc.methods.values() for x in ast.walk(f.node) if isinstance(x, ast.Attribute) and
              x.attr == keep and isinstance(x.ctx, ast.Store)]
    for f, x in stores:
        c.expect(f.name == '__init__', 'obligations', 'initial choice in %s' % f.name, f.loc(x), 'it is overwritten')
    for f in svc.methods.values():
        if f not in resetters or f.name == '__init__':
            continue
        resetting(c, f, ('attr', ('param', 'self'), keep), OC)
    mainf = p.func(NT + 'main', 'main')
    none_resets = setter_resets(OC)
    for w in writers.get(mainf, ()):
        st = enclosing_stmt(w)
        loops = [x for x in parents(w) if isinstance(x, (ast.For, ast.While))]
        if not loops:
            continue
        v = st.value if isinstance(st, ast.Assign) else None
        ok = isinstance(v, ast.Name)
        if ok:
            defs = [x for x in ast.walk(mainf.node) if isinstance(x, ast.Assign) and any(
                isinstance(t, ast.Name) and t.id == v.id for t in x.targets)]
            ok = len(defs) == 1 and isinstance(defs[0].value, ast.Attribute) and defs[0].value.attr == 'disable_all' and \
                not any(isinstance(x, (ast.For, ast.While)) for x in parents(defs[0]))
        c.expect(ok, 'obligations', 'restored choice in main', mainf.loc(w), 'restores %s' % ast.unparse(st))
        c.expect(none_resets, 'obligations', 'restoring the default', OC.module.relpath,
                 'setting None does not return to automatic detection')


def setter_resets(OC):
    f = OC.setters.get('disable_all')
    val = ('param', f.all_params[1])
    sim = PathSim(f, want=lambda t: t[0] in ('setitem', 'del') or t[0] == 'call' and callee_name(t) == 'pop')
    ok = False
    for t, st in sim.returns():
        none = has(st.conds, lambda x: x == ('is_none', val), True)
        if none:
            gone = any(e[0] == 'del' or is_call(e, 'pop') for e in st.events) or has(
                st.conds, lambda x: x[0] == 'cmp' and x[1] == 'in', False)
            if not gone or any(e[0] == 'setitem' for e in st.events):
                return False
            ok = True
        elif not any(e[0] == 'setitem' for e in st.events):
            return False
    return ok


def resetting(c, f, keep, OC):
    sim = PathSim(f, want=lambda t: t[0] in ('set', 'del', 'setitem') or t[0] == 'call' and callee_name(t) in (
        'pop', 'remove_option'))
    n = 0
    for t, st in sim.returns():
        n += 1
        none = (('is_none', keep), True) in st.conds
        some = (('is_none', keep), False) in st.conds
        gone = any(e[0] == 'del' or is_call(e, 'pop') or is_call(e, 'remove_option') for e in st.events)
        absent = has(st.conds, lambda x: x[0] == 'cmp' and x[1] == 'in' and x[2] == ('const', 'disable_all'), False)
        sets = [e for e in st.events if e[0] in ('set',) and e[2] == 'disable_all' or e[0] == 'setitem' and
                e[2] == ('const', 'disable_all')]
        if none:
            ok = (gone or absent) and not sets or any(e[0] == 'set' and e[3] == keep for e in sets) and setter_resets(OC)
        elif some:
            ok = bool(sets) and all(e[3] == keep or e[3] == ('call', ('name', 'str'), (keep,), ()) for e in sets) and not gone
        else:
            ok = setter_resets(OC) and bool(sets) and all(e[0] == 'set' and e[3] == keep for e in sets)
        c.expect(ok, 'obligations', 'reset in %s' % f.qual, f.loc(),
                 'does not restore the initial choice (lines %s)' % sim.where(st))
    c.expect(n, 'obligations', 'reset in %s returns' % f.qual, f.loc(), '')


def lazy(c, p):
    c.rule('lazy', 'objects created once per process do not depend on a program')
    n = 0
    programs = {'path', 'prog', 'program', 'file', 'python_file', 'modules', 'selected', 'base_dir'}
    for fi in scope(p):
        r = roots(p, fi)
        for node, e, kind in writes(p, fi):
            if kind == 'global':
                if e.id not in r.globals:
                    continue
                root = short(r.origin(fi.module.name, e.id)[0]) + ':' + r.origin(fi.module.name, e.id)[1]
                path = []
            else:
                cands = [x for x in r.of(e) if x[0] in LAZY]
                if not cands:
                    continue
                root, path = cands[0]
            if root not in LAZY or path:
                continue
            st = enclosing_stmt(node)
            if not isinstance(st, ast.Assign):
                c.bad('lazy', '%s in %s' % (root, fi.qual), fi.loc(node), 'unexpected write')
                continue
            n += 1
            ex = [st.value]
            used = set()
            seen = set()
            while ex:
                y = ex.pop()
                for x in ast.walk(y):
                    if isinstance(x, ast.Name) and x.id not in seen:
                        seen.add(x.id)
                        used.add(x.id)
                        ex += r.aliases(x.id)
            c.expect(not (used & programs & set(fi.all_params)), 'lazy', '%s in %s' % (root, fi.qual), fi.loc(node),
                     'is made from %s' % sorted(used & programs))
            if root == 'main:sil_programs':
                vals = [st.value]
                if isinstance(st.value, ast.Name):
                    vals = r.aliases(st.value.id) or vals
                c.expect(all(isinstance(v, ast.Call) and attr_name(v) == 'load_sil_files' for v in vals), 'lazy',
                         'resources in %s' % fi.qual, fi.loc(node), 'are %s' % ast.unparse(st.value))
    c.expect(n >= 4, 'lazy', 'created objects', NT, 'only %d' % n)


def memos(c, p):
    c.rule('memo', 'remembered values depend on nothing but their key')
    ALLOWED = {'cached_property'}
    n = 0
    for fi in scope(p):
        for d in fi.node.decorator_list:
            nm = (dotted(d.func) if isinstance(d, ast.Call) else dotted(d)) or ''
            if 'cache' not in nm.split('.')[-1] or nm.split('.')[-1] in ALLOWED:
                continue
            n += 1
            why = impure(p, fi)
            c.expect(why is None, 'memo', 'cached %s' % fi.qual, fi.loc(), 'the result also depends on %s' % why)
        r = roots(p, fi)
        for node, e, kind in writes(p, fi):
            if kind != 'store' or not isinstance(e, ast.Subscript):
                continue
            for root, path in r.of(e):
                if root not in MEMO:
                    continue
                n += 1
                st = enclosing_stmt(node)
                keys = {x.id for x in ast.walk(e.slice) if isinstance(x, ast.Name)}
                used, seen, ex = set(), set(), [st.value]
                comp = {x.id for y in ast.walk(st.value) if isinstance(y, ast.comprehension) for x in ast.walk(y.target)
                        if isinstance(x, ast.Name)}
                while ex:
                    y = ex.pop()
                    for x in ast.walk(y):
                        if isinstance(x, ast.Name) and x.id not in seen:
                            seen.add(x.id)
                            if x.id in keys:
                                continue
                            al = r.aliases(x.id)
                            if al:
                                ex += al
                            elif x.id in r.local and x.id not in comp or x.id == 'self':
                                used.add(x.id)
                if used == {'self'} and fi.cls is not None and agree(fi.cls):
                    used = set()
                c.expect(keys and not used, 'memo', 'memo %s in %s' % (root, fi.qual), fi.loc(node),
                         'the value also depends on %s' % sorted(used))
    c.expect(n, 'memo', 'memos', NT, 'none found')


def agree(cls):
    """Handlers of a name have the same number of parameters in all translators of the kind."""
    for s in cls.all_subclasses():
        for n, f in s.methods.items():
            if not n.startswith('translate_') or n[len('translate_'):] not in dir(ast):
                continue
            g = cls.find(n) or cls.find('translate_generic')
            if (len(f.all_params) > 3) != (len(g.all_params) > 3):
                return False
    return True


def impure(p, fi):
    """What, besides its (immutable) arguments, does a cached function depend on?"""
    if fi.is_method and not fi.is_static and not fi.is_classmethod:
        return 'the state of its object'
    for a in fi.all_params:
        ann = next((x.annotation for x in fi.node.args.args if x.arg == a), None)
        if ann is None or ast.unparse(ann) not in ('str', 'int', 'bool', 'bytes', 'float', 'type', 'tuple'):
            return 'the state of argument %s' % a
    r = roots(p, fi)
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in r.local:
            src = r.origin(fi.module.name, n.id)
            m = p.modules.get(src[0])
            if m is not None and any(isinstance(s, (ast.Assign, ast.AnnAssign)) and any(
                    isinstance(t, ast.Name) and t.id == src[1] for t in (
                        s.targets if isinstance(s, ast.Assign) else [s.target])) and isinstance(s.value, ast.Call)
                    for s in m.tree.body):
                return n.id
    return None


def defaults(c, p):
    c.rule('default', 'default values of parameters and class attributes are never changed')
    # parameters that a function changes (or lets escape into an attribute that is changed)
    changed_attrs = set()
    for fi in scope(p):
        for node, e, kind in writes(p, fi):
            if kind == 'global':
                continue
            b = e.value if kind == 'store' else e
            if isinstance(b, ast.Attribute):
                changed_attrs.add(b.attr)
    memo = {}

    def changes(fi, name, depth=0):
        key = (fi, name)
        if key in memo or depth > 6:
            return memo.get(key)
        memo[key] = None
        res = None
        rebound = [n for n in walk_shallow(fi.node) if isinstance(n, ast.Name) and n.id == name and
                   isinstance(n.ctx, ast.Store)]
        names = {name}
        for n in walk_shallow(fi.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in names:
                names |= {t.id for t in n.targets if isinstance(t, ast.Name)}
        for node, e, kind in writes(p, fi):
            b = e.value if kind == 'store' else e
            if kind != 'global' and isinstance(b, ast.Name) and b.id in names:
                res = fi.loc(node)
        for n in walk_shallow(fi.node):
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id in names and isinstance(
                    n.op, (ast.Add, ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
                res = fi.loc(n)
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in names:
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and t.attr in changed_attrs:
                        res = fi.loc(n) + ' (kept in %s, which is changed)' % t.attr
            if isinstance(n, ast.Call) and res is None:
                for g in p.resolve_call(n, fi, virtual=True):
                    try:
                        b = bind_args(n, g)
                    except Exception:
                        continue
                    for q, v in (b or {}).items():
                        if isinstance(v, ast.Name) and v.id in names:
                            res = res or changes(g, q, depth + 1)
        memo[key] = res
        return res
    n = 0
    for fi in scope(p):
        a = fi.node.args
        pos = a.posonlyargs + a.args
        pairs = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [
            (x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for arg, d in pairs:
            if not container(d):
                continue
            n += 1
            where = changes(fi, arg.arg)
            c.expect(where is None, 'default', 'default of %s in %s' % (arg.arg, fi.qual), fi.loc(),
                     'the shared default value is changed at %s' % where)
    c.expect(n >= 1, 'default', 'mutable defaults', NT, 'none analysed')
    k = 0
    for cl in p.all_classes():
        if not cl.module.name.startswith(NT) or '.tests' in cl.module.name:
            continue
        for s in cl.node.body:
            v = getattr(s, 'value', None)
            if not isinstance(s, (ast.Assign, ast.AnnAssign)) or v is None or not container(v):
                continue
            for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                if not isinstance(t, ast.Name):
                    continue
                k += 1
                own = any(isinstance(x, ast.Attribute) and x.attr == t.id and isinstance(x.ctx, ast.Store) and
                          isinstance(x.value, ast.Name) and x.value.id == 'self'
                          for q in [cl] + cl.mro() if '__init__' in q.methods for x in ast.walk(q.methods['__init__'].node))
                c.expect(own or t.id not in changed_attrs, 'default', 'class attribute %s.%s' % (cl.name, t.id), cl.module.relpath,
                         'is shared by all objects and changed')


def service_state(c, p):
    c.rule('service', 'verifying a program changes no setting of the service')
    svc = p.cls(NT + 'service', 'VerificationService')
    ms = [f for n, f in svc.methods.items() if n not in ('__init__', 'reconfigure')]
    n = 0
    for f in ms:
        for node, e, kind in writes(p, f):
            if kind == 'global':
                continue
            b, path = e, []
            while isinstance(b, (ast.Attribute, ast.Subscript)):
                path.append(b.attr if isinstance(b, ast.Attribute) else '[]')
                b = b.value
            if isinstance(b, ast.Name) and b.id == 'self' and path:
                n += 1
                c.expect(path[-1] in ('_jobs',), 'service', 'self.%s in %s' % (path[-1], f.qual), f.loc(node),
                         'a later request sees it')
    c.expect(n, 'service', 'writes of the service', svc.module.relpath, 'none')


def main(c):
    p = c.project
    enumerate_state(c, p)
    singletons(c, p)
    fresh_objects(c, p)
    obligations(c, p)
    lazy(c, p)
    memos(c, p)
    defaults(c, p)
    service_state(c, p)


if __name__ == '__main__':
    run('C16', 'Consecutive requests do not influence each other', main)

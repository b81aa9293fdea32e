import json
import os
import re

from _common import *
from c17 import no_raise
from c21 import A, E, SELF, show
from c26 import functions

RES = 'src/nagini_translation/resources'
KEEP = ('INTERNAL_NAMES', 'VIPER_KEYWORDS')
LIMIT = 0x110000    # characters are below this number


def module(p, name):
    m = p.modules.get('nagini_translation.' + name)
    if m is None:
        raise AnalysisError('%s has vanished' % name)
    return m


def classes(p, name):
    return [k for m in p.modules.values() for k in m.classes.values() if k.name == name]


def constant(m, name):
    """The strings a list of the module consists of."""
    for s in m.tree.body:
        if isinstance(s, (ast.Assign, ast.AnnAssign)) and any(isinstance(t, ast.Name) and t.id == name for t in (s.targets if isinstance(s, ast.Assign) else [s.target])):
            return strings(m, s.value)
    raise AnalysisError('%s has vanished' % name)


def strings(m, e):
    if isinstance(e, ast.Constant):
        return {e.value}
    if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
        return set().union(*[strings(m, x) for x in e.elts]) if e.elts else set()
    if isinstance(e, ast.Name):
        return constant(m, e.id)
    if isinstance(e, ast.Starred):
        return strings(m, e.value)
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.BitOr)):
        return strings(m, e.left) | strings(m, e.right)
    if isinstance(e, ast.Call) and ast.unparse(e.func) in ('list', 'set', 'frozenset', 'tuple', 'sorted') and len(e.args) == 1:
        return strings(m, e.args[0])
    raise AnalysisError('names of %s cannot be read: %s' % (m.name, ast.unparse(e)[:60]))


def reserved(c, p):
    c.rule('reserved', 'every name the shipped resources declare is one that a program cannot get')
    m = module(p, 'lib.constants')
    keep = set().union(*[constant(m, n) for n in KEEP])
    base = os.path.join(os.environ.get('VERIF_REPO', '/repo'), RES)
    with open(os.path.join(base, 'builtins.json')) as f:
        builtins = json.load(f)
    made = set()
    for cls, d in builtins.items():
        if cls != 'global':
            made.add(cls)
        for kind in ('functions', 'methods', 'predicates'):
            for n in d.get(kind, ()):
                made.add(n if cls == 'global' else cls + '_' + n)
    made |= {x + '_0' for x in made if x in keep}
    n = 0
    for name in sorted(os.listdir(base)):
        if not name.endswith('.sil'):
            continue
        with open(os.path.join(base, name)) as f:
            text = f.read()
        text = re.sub(r'/\*.*?\*/', lambda x: '\n' * x.group().count('\n'), text, flags=re.S)
        text = re.sub(r'//.*', '', text)
        for x in re.finditer(r'\b(domain|function|method|predicate|field|axiom)\s+([A-Za-z_$][\w$]*)', text):
            n += 1
            line = text[:x.start()].count('\n') + 1
            c.expect(x.group(2) in keep or x.group(2) in made or '$' in x.group(2), 'reserved', x.group(2), '%s/%s:%d' % (RES, name, line),
                     'a program can have something of the same name')
    c.expect(n > 300, 'reserved', 'declarations', RES, 'only %d declarations were found' % n)


def source(c, p):
    c.rule('source', 'a fresh name is one that nothing has, and from then on nothing else gets it')
    ks = classes(p, 'PythonScope')
    if not ks:
        raise AnalysisError('PythonScope has vanished')
    k = ks[0]
    f = k.methods['get_fresh_name']
    sim = PathSim(f, want=lambda e: True, raises=no_raise)
    n, ok = 0, True
    for t, st in sim.returns():
        n += 1
        w = 'lines %s' % sim.where(st)
        has = ('call', A(SELF, 'contains_name'), (t,), ())
        add = ('call', A(SELF, '_add_name'), (t,), ())
        free = any(not v and x == has for x, v in st.conds)
        # the last test of a loop
        free = free and not [v for x, v in st.conds if x == has][-1]
        ok &= c.expect(free, 'source', 'get_fresh_name', f.loc(), '%s may be taken already (%s)' % (show(t)[:40], w))
        ok &= c.expect(add in st.events or ('call', A(A(SELF, 'sil_names'), 'add'), (t,), ()) in st.events, 'source', 'get_fresh_name', f.loc(), '%s can be chosen again (%s)' % (show(t)[:40], w))
    if c.expect(n > 0, 'source', 'get_fresh_name', f.loc(), 'never returns') and ok:
        c.ok('source', 'get_fresh_name')
    names, sup = A(SELF, 'sil_names'), A(SELF, 'superscope')
    for fn in ('contains_name', '_add_name'):
        f = k.methods.get(fn)
        if f is None:
            c.expect(False, 'source', fn, k.loc() if hasattr(k, 'loc') else '', 'has vanished')
            continue
        arg = ('param', f.node.args.args[1].arg)
        ok, n = True, set()
        sim = PathSim(f, want=lambda e: True, raises=no_raise)
        for t, st in sim.returns():
            none = [v for x, v in st.conds if x == ('is_none', names)] + [not v for x, v in st.conds if x == names]
            if fn == 'contains_name' and none == [] and t[0] == 'ite':
                none = ['both']
            up = ('call', A(sup, fn), (arg,), ())
            here = ('cmp', 'in', arg, names) if fn == 'contains_name' else ('call', A(names, 'add'), (arg,), ())
            if len(none) != 1:
                ok &= c.expect(False, 'source', fn, f.loc(), 'does not distinguish scopes with and without names of their own')
                continue
            n.add(none[0])
            got = t if fn == 'contains_name' else None
            if fn == 'contains_name':
                good = t == (up if none[0] else here)
            else:
                ev = [e for e in st.events if e[0] == 'call']
                good = (up if none[0] else here) in ev
            ok &= c.expect(good, 'source', fn, f.loc(), 'is wrong for scopes with%s names of their own' % ('out' if none[0] else ''))
        if c.expect(n == {True, False}, 'source', fn, f.loc(), 'does not distinguish scopes with and without names of their own') and ok:
            c.ok('source', fn)
    f = k.methods['__init__']
    sim = PathSim(f, want=lambda e: True, raises=no_raise)
    for t, st in sim.returns():
        sets = {e[2]: e[3] for e in st.events if e[0] == 'set' and e[1] == SELF}
        c.expect(sets.get('sil_names') == ('param', 'sil_names') and sets.get('superscope') == ('param', 'superscope'), 'source', 'scope', f.loc(), 'a scope does not use the names it is given')
    # overriding classes
    for m in p.modules.values():
        for k2 in m.classes.values():
            if k2 is k:
                continue
            for fn in ('get_fresh_name', 'contains_name', '_add_name'):
                f = k2.methods.get(fn)
                if f is None:
                    continue
                for t, st in PathSim(f, want=lambda e: True, raises=no_raise).returns():
                    s = [e for e in [t] + list(st.events) if e[0] == 'call' and callee_name(e) == fn and e[1][0] == 'attr']
                    c.expect(bool(s), 'source', '%s.%s' % (k2.name, fn), f.loc(), 'names are not taken from the common source')


def shared(c, p):
    c.rule('shared', 'all modules of a program share one set of names that starts with all reserved ones and never shrinks')
    ks = classes(p, 'PythonModule')
    if not ks:
        raise AnalysisError('PythonModule has vanished')
    f = ks[0].methods['__init__']
    par = ('param', 'sil_names')
    sim = PathSim(f, want=lambda e: True, raises=no_raise)
    seen, ok = set(), True
    for t, st in sim.returns():
        calls = [e for e in st.events if e[0] == 'call' and callee_path(e) in ('PythonScope.__init__', 'super.__init__') or e[0] == 'call' and callee_name(e) == '__init__']
        calls = [e for e in calls if any(a == SELF or a == NONE for a in e[2])]
        none = [v for x, v in st.conds if x == ('is_none', par)] or [not v for x, v in st.conds if x == par]
        if not c.expect(len(calls) >= 1, 'shared', 'PythonModule', f.loc(), 'has no names'):
            ok = False
            continue
        args = [a for a in calls[0][2] if a != SELF]
        first = args[0] if args else dict(calls[0][3]).get('sil_names', NONE)
        if none[:1] == [False]:
            seen.add('given')
            ok &= c.expect(first == par, 'shared', 'PythonModule', f.loc(), 'does not share the names it is given')
        elif none[:1] == [True]:
            seen.add('new')
            s = show(first) + ' '.join(show(e) for e in st.events if e[0] == 'call' and callee_name(e) in ('update', 'add'))
            for part in KEEP + ('RESULT_NAME', 'ERROR_NAME', 'END_LABEL'):
                ok &= c.expect(re.search(r'\b%s\b' % part, s) is not None, 'shared', part, f.loc(), 'are names that a program can get')
        else:
            s = show(first)
            seen |= {'given', 'new'}
            ok &= c.expect('sil_names' in s and all(x in s for x in KEEP), 'shared', 'PythonModule', f.loc(), 'does not share the names it is given')
    ok &= c.expect(seen == {'given', 'new'}, 'shared', 'PythonModule', f.loc(), 'does not share the names it is given')
    if ok:
        c.ok('shared', 'PythonModule')
    # modules of a program
    params = [a.arg for a in f.node.args.args[1:]]
    i = params.index('sil_names')
    n, fresh = 0, []
    for g in functions(p):
        for x in ast.walk(g.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'PythonModule':
                n += 1
                a = x.args[i] if len(x.args) > i else next((k.value for k in x.keywords if k.arg == 'sil_names'), None)
                if a is None or isinstance(a, ast.Constant):
                    fresh.append((g, x))
                    continue
                s = value(g, a)
                c.expect(s.endswith('.sil_names'), 'shared', g.qual, g.loc(x), 'a module has the names %s' % s)
            if isinstance(x, ast.Attribute) and x.attr == 'sil_names' and isinstance(x.ctx, ast.Store):
                c.expect(g.cls is not None and g.cls.name == 'PythonScope' and g.name == '__init__', 'shared', g.qual, g.loc(x), 'replaces the set of names')
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('remove', 'discard', 'clear', 'pop', 'difference_update', 'intersection_update') and 'sil_names' in ast.unparse(x.func.value):
                c.expect(False, 'shared', g.qual, g.loc(x), 'names are given up')
    c.expect(n >= 3, 'shared', 'modules', f.loc(), 'only %d modules are created' % n)
    for g, x in fresh[1:]:
        c.expect(False, 'shared', g.qual, g.loc(x), 'a module does not share the names of the others')
    # scopes inside modules have no names of their own
    for g in functions(p):
        for x in ast.walk(g.node):
            if isinstance(x, ast.Call) and ast.unparse(x.func) == 'PythonScope.__init__' and g.cls is not None and g.cls.name != 'PythonModule':
                c.expect(len(x.args) == 3 and isinstance(x.args[1], ast.Constant) and x.args[1].value is None, 'shared', g.qual, g.loc(x), 'a scope has names of its own')


NONE = ('const', None)


def value(g, e, depth=0):
    """The text of an expression, through local variables."""
    if isinstance(e, ast.Name) and depth < 4:
        vs = [x.value for x in ast.walk(g.node) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in x.targets)]
        if len(vs) == 1:
            return value(g, vs[0], depth + 1)
    return ast.unparse(e)


def fresh(g, e, depth=0):
    """Whether an expression is a fresh name (or one of the reserved names for results, errors and ends)."""
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'get_fresh_name':
        return True
    if isinstance(e, ast.IfExp):
        return fresh(g, e.body, depth) and fresh(g, e.orelse, depth)
    if isinstance(e, ast.Name):
        if e.id in ('RESULT_NAME', 'ERROR_NAME', 'END_LABEL'):
            return True
        if depth < 4:
            vs = [x.value for x in ast.walk(g.node) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in x.targets)]
            if vs:
                return all(fresh(g, v, depth + 1) for v in vs)
    return False


NAMES = ('post_name', 'finally_name', 'threading_id', 'func_constant')
CALLS = {'PythonTryBlock': (1, 'try_name'), 'PythonExceptionHandler': (3, 'handler_name'), 'create_leak_check': (0, 'var_name')}


def sinks(g):
    """Expressions that become names of labels, blocks and constants."""
    for x in ast.walk(g.node):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('append', 'insert') and isinstance(x.func.value, ast.Attribute) and x.func.value.attr == 'labels' and x.args:
            yield 'label', x.args[-1]
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'extend' and isinstance(x.func.value, ast.Attribute) and x.func.value.attr == 'labels' and x.args and isinstance(x.args[0], (ast.List, ast.Tuple)):
            for e in x.args[0].elts:
                yield 'label', e
        elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Attribute) and x.target.attr == 'labels' and isinstance(x.value, (ast.List, ast.Tuple)):
            for e in x.value.elts:
                yield 'label', e
        elif isinstance(x, ast.Assign):
            for t in x.targets:
                if isinstance(t, ast.Attribute) and t.attr in NAMES and not (isinstance(x.value, ast.Constant) and x.value.value is None):
                    if not (g.name == '__init__' and isinstance(x.value, ast.Name) and x.value.id in [a.arg for a in g.node.args.args]):
                        yield t.attr, x.value
                elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute) and t.value.attr == 'label_aliases':
                    yield 'label', x.value
        elif isinstance(x, ast.Call) and callee(x) == 'LocalVarDecl' and x.args and isinstance(x.args[0], ast.Name) and x.args[0].id not in [a.arg for a in g.node.args.args]:
            vs = [y.value for y in ast.walk(g.node) if isinstance(y, ast.Assign) and any(isinstance(t, ast.Name) and t.id == x.args[0].id for t in y.targets)]
            # (the axioms that the type domain factory builds are closed)
            if vs and not all(isinstance(v, ast.Attribute) for v in vs) and not (g.cls is not None and g.cls.name == 'TypeDomainFactory'):
                yield 'variable', x.args[0]
        elif isinstance(x, ast.Call) and callee(x) in CALLS:
            i, k = CALLS[callee(x)]
            e = x.args[i] if len(x.args) > i else next((y.value for y in x.keywords if y.arg == k), None)
            if e is not None:
                yield callee(x), e


def callee(x):
    return x.func.id if isinstance(x.func, ast.Name) else x.func.attr if isinstance(x.func, ast.Attribute) else ''


def provenance(c, p):
    c.rule('provenance', 'everything that is declared for a part of the program is given a fresh name')
    nodes = module(p, 'lib.program_nodes')
    processing = {k.name for k in nodes.classes.values() if 'process' in k.methods and k.methods['process'].node.args.args[1:2] and k.methods['process'].node.args.args[1].arg == 'sil_name'}
    c.expect(len(processing) >= 5, 'provenance', 'declarations', nodes.loc() if hasattr(nodes, 'loc') else 'src/nagini_translation/lib/program_nodes.py', 'only %s get names' % sorted(processing))
    n = 0
    for g in functions(p):
        for x in ast.walk(g.node):
            if not (isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'process' and x.args):
                continue
            first = x.args[0]
            s = ast.unparse(first)
            if isinstance(x.func.value, ast.Call) and ast.unparse(x.func.value.func) == 'super':
                c.expect(s == g.node.args.args[1].arg, 'provenance', g.qual, g.loc(x), 'passes on %s as name' % s)
                continue
            if s in ('translator', 'self.translator') or len(x.args) == 1 and g.name == 'process' and s == 'translator':
                continue
            n += 1
            if c.expect(fresh(g, first), 'provenance', '%s %s' % (g.qual, ast.unparse(x.func.value)), g.loc(x), 'is given the name %s' % s):
                c.ok('provenance', '%s %s' % (g.qual, ast.unparse(x.func.value)))
        for x in ast.walk(g.node):
            if isinstance(x, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == 'sil_name' for t in x.targets):
                own = isinstance(x.value, ast.Name) and x.value.id in [a.arg for a in g.node.args.args]
                none = isinstance(x.value, ast.Constant) and x.value.value is None
                c.expect(own or none or fresh(g, x.value), 'provenance', g.qual + ' sil_name', g.loc(x), 'is given the name %s' % ast.unparse(x.value))
        own = g.cls.name if g.name == '__init__' and g.cls is not None else g.name
        for what, e in sinks(g):
            n += 1
            if own in CALLS and isinstance(e, ast.Name) and e.id in [a.arg for a in g.node.args.args][CALLS[own][0] + 1:CALLS[own][0] + 2]:
                continue    # the name it was given
            if c.expect(fresh(g, e), 'provenance', '%s %s' % (g.qual, what), g.loc(e), 'is given the name %s' % ast.unparse(e)[:60]):
                c.ok('provenance', '%s %s' % (g.qual, what))
    c.expect(n >= 20, 'provenance', 'declarations', 'src/nagini_translation/lib/program_nodes.py', 'only %d declarations are named' % n)
    # names that are remembered
    k = module(p, 'lib.util').classes.get('SingletonFreshName')
    if k is not None:
        f = k.methods['__call__']
        arg = ('param', f.node.args.args[1].arg)
        sim = PathSim(f, want=lambda e: True, raises=no_raise)
        for t, st in sim.returns():
            s = show(t)
            stored = [e for e in st.events if e[0] in ('setitem', 'setsub')]
            absent = any(x[0] == 'cmp' and x[1] == 'in' and x[2] == arg and not v for x, v in st.conds)
            made = ('call', A(A(SELF, '_scope'), 'get_fresh_name'), (arg,), ())
            if absent:
                c.expect(any(e[-1] == made for e in stored), 'provenance', 'SingletonFreshName', f.loc(), 'a remembered name is not fresh')


DECLARING = ('Method', 'Function', 'Predicate', 'Field', 'Domain', 'DomainFunc', 'DomainAxiom', 'Label')


def text_of(p, g, e):
    """The string a constant expression of a function denotes."""
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        return e.value
    if isinstance(e, ast.Name):
        for m in (g.module, module(p, 'lib.constants')):
            for s in m.tree.body:
                if isinstance(s, ast.Assign) and isinstance(s.value, ast.Constant) and any(isinstance(t, ast.Name) and t.id == e.id for t in s.targets):
                    return s.value.value
    return None


def pieces(p, g, e, depth=0):
    """The possible patterns of a name that an expression builds: literal parts, and * for everything else."""
    t = text_of(p, g, e)
    if t is not None:
        return [t]
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        return [a + b for a in pieces(p, g, e.left, depth) for b in pieces(p, g, e.right, depth)]
    if isinstance(e, ast.JoinedStr):
        out = ['']
        for v in e.values:
            out = [a + b for a in out for b in pieces(p, g, v.value if isinstance(v, ast.FormattedValue) else v, depth)]
        return out
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'format' and isinstance(e.func.value, ast.Constant):
        return [re.sub(r'\{[^}]*\}', '*', e.func.value.value)]
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mod) and isinstance(e.left, ast.Constant):
        return [re.sub(r'%[sdr]', '*', e.left.value)]
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'join' and e.args and isinstance(e.args[0], (ast.List, ast.Tuple)) and isinstance(e.func.value, ast.Constant):
        out = ['']
        for k, v in enumerate(e.args[0].elts):
            out = [a + (e.func.value.value if k else '') + b for a in out for b in pieces(p, g, v, depth)]
        return out
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'str' and len(e.args) == 1:
        return pieces(p, g, e.args[0], depth)
    if isinstance(e, ast.IfExp):
        return pieces(p, g, e.body, depth) + pieces(p, g, e.orelse, depth)
    if isinstance(e, ast.Name) and depth < 4:
        vs = [x.value for x in ast.walk(g.node) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in x.targets)]
        if vs:
            return [t for v in vs for t in pieces(p, g, v, depth + 1)]
    return ['*']


def computed(p, g, e):
    return [x for x in pieces(p, g, e) if '*' in x and re.sub(r'\*+', '*', x) != '*' and '$' not in x]


def declared(c, p):
    c.rule('declared', 'what the translation declares has a reserved name or one that was chosen freshly, not one built out of pieces')
    m = module(p, 'lib.constants')
    keep = set().union(*[constant(m, n) for n in KEEP])
    n = 0
    for g in functions(p):
        if g.module.name.startswith('nagini_translation.lib.viper_ast'):
            continue
        for x in ast.walk(g.node):
            if not (isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)):
                continue
            if x.func.attr == 'create_method_node':
                i = 1
            elif x.func.attr in DECLARING and ast.unparse(x.func.value).split('.')[-1] in ('viper', '_viper'):
                i = 0
            else:
                continue
            name = x.args[i] if len(x.args) > i else next((y.value for y in x.keywords if y.arg == 'name'), None)
            if name is None:
                continue
            n += 1
            if isinstance(name, ast.Name) and text_of(p, g, name) is None:
                vs = [a.value for a in ast.walk(g.node) if isinstance(a, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name.id for t in a.targets)]
                consts = [v for v in map(lambda v: text_of(p, g, v), vs) if v is not None]
            else:
                consts = [text_of(p, g, name)] if text_of(p, g, name) is not None else []
            ok = True
            for t in consts:
                ok &= c.expect(t in keep or '$' in t, 'declared', '%s %s' % (x.func.attr, t), g.loc(x), 'a program can have something of the same name')
            for t in computed(p, g, name) if x.func.attr != 'Field' else ():
                ok &= c.expect(False, 'declared', '%s %s' % (x.func.attr, t), g.loc(x), 'a program can have something of the same name')
            if ok:
                c.ok('declared', '%s:%d' % (g.qual, x.lineno))
        for x in ast.walk(g.node):
            if not (isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('FuncApp', 'DomainFuncApp', 'PredicateAccess', 'MethodCall') and x.args):
                continue
            es = [x.args[0]]
            if isinstance(x.args[0], ast.Name):
                es = [a.value for a in ast.walk(g.node) if isinstance(a, ast.Assign) and any(isinstance(t, ast.Name) and t.id == x.args[0].id for t in a.targets)]
            for e in es:
                if isinstance(e, (ast.BinOp, ast.JoinedStr)):
                    own = [a for a in ast.walk(e) if isinstance(a, ast.Attribute) and a.attr == 'name']
                    c.expect(not own, 'declared', '%s of %s' % (x.func.attr, g.qual), g.loc(x), 'refers to something by the name it has in the program instead of the one that was chosen for it')
    c.expect(n >= 40, 'declared', 'declarations', 'src/nagini_translation/translators', 'only %d declarations were found' % n)


def number(e):
    try:
        return ast.literal_eval(e)
    except ValueError:
        s = ast.unparse(e)
        if s == 'sys.maxunicode + 1':
            return LIMIT
    return None


def encoding(c, p):
    c.rule('encoding', 'different strings are encoded by different numbers')
    m = module(p, 'lib.util')
    f = m.functions.get('string_to_int')
    if f is None:
        raise AnalysisError('string_to_int has vanished')
    consts = {t.id: s.value for s in m.tree.body if isinstance(s, ast.Assign) for t in s.targets if isinstance(t, ast.Name)}

    def base(e):
        if isinstance(e, ast.Name) and e.id in consts:
            e = consts[e.id]
        v = number(e)
        return v if isinstance(v, int) else None
    bases = []
    for x in ast.walk(f.node):
        if isinstance(x, ast.AugAssign) and isinstance(x.op, ast.Mult):
            bases.append(base(x.value))
        elif isinstance(x, ast.Call) and ast.unparse(x.func) == 'pow' and len(x.args) >= 2:
            bases.append(base(x.args[0]) if len(x.args) == 2 else None)
        elif isinstance(x, ast.BinOp) and isinstance(x.op, ast.Pow):
            bases.append(base(x.left))
        elif isinstance(x, ast.BinOp) and isinstance(x.op, ast.LShift):
            b = base(x.right)
            bases.append(2 ** b if b is not None else None)
        elif isinstance(x, ast.BinOp) and isinstance(x.op, ast.Mult) and isinstance(x.left, ast.Name) and base(x.right) is not None:
            bases.append(base(x.right))
    text = ast.unparse(f.node)
    if 'from_bytes' in text:
        good = 'encode' in text and not re.search(r"encode\('(ascii|latin)|errors|ignore|replace", text)
        c.expect(good, 'encoding', 'string_to_int', f.loc(), 'different strings have the same number')
    else:
        c.expect(len(bases) == 1 and bases[0] is not None and bases[0] >= LIMIT, 'encoding', 'string_to_int', f.loc(),
                 'different strings have the same number, as positions have the weight %s although characters may be larger' % bases)
        ords = [x for x in ast.walk(f.node) if isinstance(x, ast.Call) and ast.unparse(x.func) == 'ord']
        loops = [x for x in ast.walk(f.node) if isinstance(x, (ast.For, ast.comprehension))]
        arg = f.node.args.args[0].arg
        its = [ast.unparse(x.iter) for x in loops]
        c.expect(len(ords) == 1 and len(loops) == 1 and its[0] in ('enumerate(%s)' % arg, arg, 'reversed(%s)' % arg), 'encoding', 'string_to_int characters', f.loc(), 'not every character counts (%s)' % its)
        bad = [x for x in ast.walk(f.node) if isinstance(x, (ast.If, ast.Continue, ast.Break, ast.Mod, ast.BitAnd, ast.BitXor, ast.BitOr)) or isinstance(x, ast.Attribute) and x.attr in ('lower', 'upper', 'casefold', 'strip')]
        c.expect(not bad, 'encoding', 'string_to_int characters', f.loc(), 'not every character counts')
    g = m.functions.get('int_to_string')
    if g is not None and bases and bases[0]:
        used = {base(x.right) for x in ast.walk(g.node) if isinstance(x, (ast.BinOp,)) and isinstance(x.op, (ast.Mod, ast.FloorDiv))} | \
            {base(x.value) for x in ast.walk(g.node) if isinstance(x, ast.AugAssign) and isinstance(x.op, (ast.Mod, ast.FloorDiv))} | \
            {base(x.args[1]) for x in ast.walk(g.node) if isinstance(x, ast.Call) and ast.unparse(x.func) == 'divmod'}
        if used:
            c.expect(used == {bases[0]}, 'encoding', 'int_to_string', g.loc(), 'does not read the numbers back (%s)' % used)
    # all encodings use it
    n = 0
    for k in classes(p, 'CommonTranslator'):
        h = k.methods.get('_get_string_value')
        if h is None:
            continue
        arg = ('param', h.node.args.args[1].arg)
        for t, st in PathSim(h, raises=no_raise).returns():
            n += 1
            c.expect(t == ('call', ('name', 'string_to_int'), (arg,), ()), 'encoding', '_get_string_value', h.loc(), 'is %s' % show(t))
    c.expect(n > 0, 'encoding', '_get_string_value', f.loc(), 'has vanished')


def main(c):
    p = c.project
    reserved(c, p)
    source(c, p)
    shared(c, p)
    provenance(c, p)
    declared(c, p)
    encoding(c, p)


if __name__ == '__main__':
    run('C24', 'Generated names never collide', main)

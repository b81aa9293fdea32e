from _common import *
from c17 import no_raise, klass
from c27 import bound
from sa.cover import uncovered, ALL, absent
from sa.sym import PathSim

# What a visitor learns about a part without dealing with it.
NEUTRAL = {'set_contains_ghost', 'define_new', 'isinstance', 'len', 'to_position', 'get_type', 'typeof', 'type', 'isStr', 'isEllipsis', 'isNum', 'get_func_name',
           'repr', 'str', 'print', 'bool', 'all', 'any', 'zip', 'enumerate', 'reversed', 'list', 'tuple', 'sorted', 'iter', 'next',
           'range', 'set', 'construct_lambda_prefix', 'get_column', 'to_info', 'dump', 'id', 'hash', 'iter_fields',
           'get_target', 'get_parent_of_type', 'cast', 'check_not_in_inline_method', 'copy', 'deepcopy', 'ref'}
# Calls and other nodes that stand for parts of the node.
BLOCK = {'protected_region': 'body', 'handlers': 'handlers', 'else_block': 'orelse', 'finally_block': 'finalbody', 'with_item': 'items'}


def fields(name):
    """The parts of a syntax node that are syntax nodes themselves (from the grammar in the documentation of ast)."""
    if name in ('Num', 'Str', 'Bytes', 'NameConstant', 'Ellipsis'):
        return None
    cls = getattr(ast, name, None)
    if cls is None or not isinstance(cls, type) or not issubclass(cls, ast.AST):
        return None
    m = re.search(re.escape(name) + r'\(([^)]*)\)', ' '.join((cls.__doc__ or '').split()))
    out = []
    for f in (m.group(1).split(',') if m else ()):
        t, n = f.split()
        if t.rstrip('*?') in ('expr', 'stmt', 'pattern', 'arg', 'arguments', 'keyword', 'excepthandler', 'withitem',
                              'match_case', 'comprehension'):
            out.append(n)
    return out


def narrow(t, cls):
    """Whether a node of the class is an instance of the class(es) t, if that is known."""
    ts = t[1] if t[0] == 'tuple' else (t,)
    out = []
    for x in ts:
        k = getattr(ast, (callee_path(('call', x, (), ())) or '').split('.')[-1], None)
        if not isinstance(k, type) or not isinstance(getattr(ast, cls, None), type):
            return None
        out.append(issubclass(getattr(ast, cls), k))
    return any(out)


def spread(t):
    """The values a term stands for when it is an element of a display."""
    if t[0] == 'elem':
        out = []
        for x in spread(t[1]):
            out += elements(x)
        return out
    return [t]


def elements(x):
    if x[0] in ('list', 'tuple', 'set'):
        return [y for z in x[1] for y in spread(z)]
    if x[0] == 'map' and all(c[0] == 'cmp' and c[1] in ('is not', '!=') and c[3] == ('const', None) for _, cs in x[2] for c in cs):
        return spread(x[1])
    if x[0] == 'op' and x[1] == 'Add':
        return elements(x[2]) + elements(x[3])
    return [('elem', x)]


def part(t, node, fs):
    """The field of the node that the term is, all of it or an element of it."""
    seen = False
    while True:
        if t == node:
            return ALL + 'self'
        if t[0] == 'attr' and t[1] == node:
            return t[2]
        if t[0] in ('sub', 'elem', 'item', 'attr', 'star'):
            if t[0] == 'sub' and t[2][0] == 'slice' and any(x != ('const', None) and x[0] in ('const', 'unop', 'op') for x in t[2][1:] if x):
                return None
            t = t[1]
        elif t[0] == 'call' and callee_name(t) in ('reversed', 'enumerate', 'zip', 'list', 'tuple', 'iter', 'copy', 'deepcopy', 'sorted') \
                and t[2]:
            ps = [part(x, node, fs) for x in t[2]]
            ps = [x for x in ps if x]
            return ps[0] if ps else None
        elif t[0] == 'call' and t[1][0] == 'attr' and t[1][2] == 'copy' and not t[2]:
            t = t[1][1]
        else:
            return None


TRAVERSE = ('visit_default', 'visit_but_ignore', 'generic_visit', 'mark_ghost', 'check_for_call')
OWN = ('GhostChecker',)
GHOST = {'is_ghost', 'is_assignable'}


class Visits:
    def __init__(self, p, scope, excuse=None):
        self.p, self.scope, self.excuse = p, scope, excuse
        self.memo = {}
        self.by_name = {}
        for fi in p.all_functions(prefix=NT):
            self.by_name.setdefault(fi.node.name, []).append(fi)

    def targets(self, fi, e):
        n = callee_name(e)
        cs = self.by_name.get(n, ())
        if e[1][0] == 'attr' and e[1][1] == ('param', 'self') and fi.cls is not None:
            g = fi.cls.find(n)
            if g is not None and not g.module.name.endswith('translators.abstract'):
                return [g]
        if e[1][0] == 'attr' and is_call(e[1][1], 'super') and fi.cls is not None:
            for b in fi.cls.mro()[1:]:
                if n in b.methods:
                    return [b.methods[n]]
        own = e[1][0] == 'attr' and e[1][1] == ('param', 'self')
        return [c for c in cs if not c.module.name.endswith('translators.abstract') and (own or c is not fi)]

    def covered(self, fi, name, cls, fs, block=False):
        """The fields that fi deals with on every path, when given the node (of the class, or its
        try block) as the named parameter."""
        key = (fi.qual, name, cls, tuple(fs), block)
        if key not in self.memo:
            self.memo[key] = set()
            bad = self.uncovered(fi, name, cls, fs, block=block)
            self.memo[key] = set(fs) - {a for a, _, _ in bad}
        return self.memo[key]

    def unused(self, fi, e):
        """Arguments of the call that the own method it names does not visit on some path."""
        if e[1][0] != 'attr' or e[1][1] != ('param', 'self') or fi.cls is None or fi.cls.name not in OWN:
            return ()
        g = fi.cls.find(e[1][2])
        if g is None or g.node.name.startswith(('visit', 'is_', '_is_', 'check_call', 'check_for_call', 'call_on_')):
            return ()
        return [v for k, v in bound(e, g).items() if k in g.all_params and any(x[0] == 'attr' for x in subterms(v)) and not self.uses(g, k)]

    def uses(self, g, k):
        key = (g.qual, k)
        if key not in self.memo:
            self.memo[key] = True
            root = ('param', '$node')
            self.memo[key] = not uncovered(
                g, root, (k,), lambda e: [] if callee_name(e) in NEUTRAL - {'set_contains_ghost'} else [
                    x for x in e[2] + tuple(v for _, v in e[3])],
                env={k: ('attr', root, k)})
        return self.memo[key]

    def uncovered(self, fi, name, cls, fs, excuse=None, block=False):
        node = ('param', name)
        excuse = excuse or (lambda a, st: self.excuse(cls, a, st, fi))

        def try_block(t):
            return t == node if block else is_call(t, '_get_try_block') and node in t[2]

        def alias(t):
            if t[0] == 'attr' and t[2] == 'node' and try_block(t[1]):
                return node
            if t[0] == 'attr' and BLOCK.get(t[2]) in fs and try_block(t[1]):
                return ('attr', node, BLOCK[t[2]])
            if is_call(t, 'isinstance') and len(t[2]) == 2 and t[2][0] == node and not block:
                k = narrow(t[2][1], cls)
                if k is not None:
                    return ('const', k)
            return t

        def consume(e):
            n = callee_name(e)
            if n in NEUTRAL or n is None or n.startswith(('_is_', 'contains_', 'to_', 'is_')) and n not in GHOST:
                return ()
            if n in TRAVERSE:
                if node in e[2]:
                    return [('attr', node, f) for f in fs]
            out = []
            unused = self.unused(fi, e)
            for x in e[2] + tuple(v for _, v in e[3]):
                if x in unused:
                    continue
                for y in (x[1] if x[0] in ('list', 'tuple', 'set') else (x,)):
                    for z in spread(y):
                        f = part(z, node, fs)
                        if f and f in fs:
                            out.append(('attr', node, f))
            return out

        def delegate(e):
            if e[0] != 'call':
                return None
            args = [x for x in e[2] + tuple(v for _, v in e[3]) if x == node or try_block(x)]
            if not args:
                return None
            if callee_name(e) in self.scope:
                return set(fs)
            ts = self.targets(fi, e)
            if not ts:
                return None
            out = None
            for g in ts:
                b = bound(e, g)
                cov = set()
                for k, v in b.items():
                    if k in g.all_params and (v == node or try_block(v)):
                        cov |= self.covered(g, k, cls, fs, block=try_block(v))
                out = cov if out is None else out & cov
            return out or None
        return uncovered(fi, node, fs, consume, delegate, excuse=excuse, simp=alias,
                         noreturn=lambda t: t[0] == 'call' and callee_name(t) in ('translate_generic', '_raise_error',
                                                                                  '_raise_invalid_operation'))



def test(st, pred):
    return any(pred(t, b) for t, b in st.conds)


def names(t):
    """Constants a condition compares something with."""
    if t[0] == 'cmp' and t[1] == '==':
        return {x[1] for x in t[2:4] if x[0] == 'const'}
    return set()


def excused(cls, a, st, fi):
    """Parts that may be left out on the path, for the reasons given."""
    def true(*callees):
        return test(st, lambda t, b: b and any(is_call(x, c) for x in subterms(t) for c in callees))

    def member(*attrs):
        return test(st, lambda t, b: b and t[0] == 'cmp' and t[1] == 'in' and t[3][0] == 'attr' and t[3][2] in attrs)
    m = fi.module.name.replace(NT, '')
    if cls in ('Assign', 'AnnAssign') and not true('is_get_ghost_output'):
        # Type aliases and type variables have no runtime meaning.
        return true('_visit_single_name_assign') or member('type_vars', 'classes')
    if cls == 'Assign' and true('is_get_ghost_output'):
        return True                                        # interpreted as a whole
    if cls == 'Compare':
        return true('is_wait_level_comparison', 'is_thread_method_definition', 'is_io_existential_defining_equality',
                    'is_type_equality')
    if cls == 'Attribute':
        # A name that stands for a class or a module is resolved, not evaluated.
        return test(st, lambda t, b: b and is_call(t, 'isinstance') and is_call(t[2][0], 'get_target'))
    if cls == 'Try' and m.startswith('translators'):
        return a != 'body'                                 # translated at the end of the method
    if cls == 'Call' and m in ('analyzer_io', 'lib.io_checkers'):
        # Properties and existentials only have positional arguments.
        return a == 'func' or a == 'keywords' and test(st, lambda t, b: b and (
            is_call(t, 'isinstance') and t[2] == (('attr', ('param', 'node'), 'func'), ('attr', ('name', 'ast'), 'Call'))
            or t[0] == 'cmp' and t[1] == 'in' and t[3] == ('name', 'IO_OPERATION_PROPERTY_FUNCS')))
    if cls == 'Expr':
        return true('isStr', 'isEllipsis')                 # docstrings
    if cls == 'FunctionDef':
        return true('is_io_operation') or m.startswith('translators')
    if cls == 'Call' and m == 'analyzer':
        # Only meaningful to the thread constructs that interpret them.
        return test(st, lambda t, b: b and names(t) & {'Thread', 'getOld'})
    if cls == 'Call' and m == 'translators.call':
        # The arguments of start and join are names of methods.  There is at least one target type.
        return a == 'func' or true('_is_thread_method_call') or test(st, lambda t, b: b and names(t) & {'IOExists', 'Thread'}) or any(
            e[0] == 'exhausted' and is_call(e[1], 'toposort_classes') and ('iter', e[1]) not in [x[:2] for x in st.events]
            for e in st.events)
    return False


TYPES = {('FunctionDef', 'decorator_list'), ('FunctionDef', 'returns'), ('FunctionDef', 'args'), ('ClassDef', 'decorator_list'),
         ('ClassDef', 'bases'), ('ClassDef', 'keywords'), ('AnnAssign', 'annotation'), ('FunctionDef', 'type_params'),
         ('ClassDef', 'type_params'),
         ('Assert', 'msg'),            # only evaluated when the assertion fails
         }


def visitors(p, module, pattern):
    for fi in p.all_functions(prefix=NT + module):
        m = re.match(pattern + r'([A-Z]\w*)$', fi.node.name)
        if m and fields(m.group(1)) and not fi.module.name.endswith('translators.abstract'):
            yield fi, m.group(1), [f for f in fields(m.group(1)) if (m.group(1), f) not in TYPES]


NESTED = {'Try': [('handlers', ('type', 'body'))], 'With': [('items', ('context_expr', 'optional_vars'))],
          'Match': [('cases', ('pattern', 'guard', 'body'))], 'Call': [('keywords', ('value',))]}
PATTERNS = {'MatchValue': ('value',), 'MatchSequence': ('patterns',), 'MatchMapping': ('keys', 'patterns'),
            'MatchClass': ('cls', 'patterns', 'kwd_patterns'), 'MatchAs': ('pattern',), 'MatchOr': ('patterns',)}
CAPTURING = {'MatchAs': ('pattern',), 'MatchClass': ('patterns', 'kwd_patterns')}
GROUPS = (('analyzer', 'visit_'), ('analyzer_io', 'visit_'), ('ghost.ghost_checker', 'visit_'),
          ('translators', 'translate_stmt_'), ('translators', 'translate_'), ('translators', 'translate_pure_'),
          ('sif', 'translate_stmt_'), ('sif', 'translate_'), ('lib.io_checkers', 'visit_'))


def nested(V, c, fi, par, n):
    """The parts of elements that the method itself takes apart."""
    for f, subs in NESTED.get(n, ()):
        whole = ('attr', ('param', par), f)
        sources = {whole}
        for t, st in PathSim(fi, want=lambda t: t[0] == 'iter', raises=no_raise, loops=True).returns():
            sources |= {e[1] for e in st.events if part(e[1], ('param', par), ()) == f}
        hits = {}
        for src in sources:
            elem = ('elem', src)

            def consume(e):
                nm = callee_name(e)
                if nm in NEUTRAL or nm is None or nm.startswith(('_is_', 'contains_', 'to_', 'is_')) and nm not in GHOST:
                    return ()
                if nm == 'walk':
                    return ()
                out = []
                for x in e[2] + tuple(v for _, v in e[3]):
                    for y in (x[1] if x[0] in ('list', 'tuple', 'set') else (x,)):
                        if y in (elem, src, whole) or y == ('param', par) and (nm in TRAVERSE or nm in V.scope):
                            out += [('attr', elem, s) for s in subs]
                        elif part(y, elem, subs) in subs:
                            out.append(('attr', elem, part(y, elem, subs)))
                return out
            for x in uncovered(fi, elem, subs, consume, excuse=lambda a, st: not any(
                    e[0] == 'iter' and e[1] == src for e in st.events) or absent_in(st, elem, a)):
                hits.setdefault(x[0], x)
        for s in subs:
            hit = hits.get(s)
            c.expect(not hit, 'elements', '%s|%s.%s' % (fi.qual.replace(NT, ''), f, s), fi.loc(), (
                'the %s of the %s of a %s are ignored on the path %s' % (s, f, n, hit[2].where(hit[1]))) if hit else '')


def absent_in(st, node, a):
    return a in absent(st.conds, node)


def main(c):
    c.rule('visited', 'every visitor looks at all syntactic parts of its node (expressions, statements, patterns, ...) '
                      'on every path that does not reject the program')
    c.rule('elements', 'a visitor that takes the elements of a part apart looks at all of their parts')
    c.rule('patterns', 'every function that interprets patterns considers all parts of every kind of pattern or rejects it')
    c.rule('unknown', 'constructs without a visitor are rejected by translators and traversed completely by the analysis')
    c.rule('arguments', 'all parts of a parameter list are recorded or rejected')
    c.rule('comprehensions', 'whoever takes a comprehension apart looks at its elements, its iterable and its filter')
    c.rule('ghost', 'the classification of expressions looks at all parts of every kind of expression')
    p = c.project
    V = Visits(p, ('translate_Call', 'translate_contractfunc_call', 'translate_io_contractfunc_call', 'translate_obligation_contractfunc_call'), excused)
    done = set()
    for mod, pat in GROUPS:
        for fi, n, fs in visitors(p, mod, pat):
            if fi.qual in done:
                continue
            done.add(fi.qual)
            par = [a for a in fi.all_params if a in ('node', 'stmt', 'n')]
            if not par:
                c.bad('visited', fi.qual.replace(NT, ''), fi.loc(), 'no parameter for the node was found')
                continue
            bad = {a: (st, sim) for a, st, sim in V.uncovered(fi, par[0], n, fs)}
            for a in fs:
                c.expect(a not in bad, 'visited', '%s|%s' % (fi.qual.replace(NT, ''), a), fi.loc(), (
                    'the %s of a %s are ignored on the path %s' % (a, n, bad[a][1].where(bad[a][0]))) if a in bad else '')
            nested(V, c, fi, par[0], n)
    c.floor('visited', 150)
    patterns(c, V)
    ghost(c, V)
    comprehensions(c, V)
    unknown(c)
    arguments(c)


CONDITIONS = ('_translate_match_pattern_cond',)
BINDINGS = ('_translate_match_pattern_assignments', '_translate_match_pattern_defines', '_collect_pure_match_captures',
            '_collect_match_guard_capture_names', '_collect_match_pattern_names')


def patterns(c, V):
    for fi in c.project.all_functions(prefix=NT):
        full = fi.node.name in CONDITIONS
        if not (full or fi.node.name in BINDINGS) or 'pattern' not in fi.all_params:
            continue
        pat = ('param', 'pattern')

        def absent_part(a, st):
            gone = absent(st.conds, pat)
            if a in gone or a == 'kwd_patterns' and 'kwd_attrs' in gone or (('is_none', pat), True) in st.conds:
                return True
            # Positional sub-patterns of classes are rejected by the condition.
            return not full and (('attr', pat, 'patterns'), True) in st.conds
        for k, fs in (PATTERNS if full else CAPTURING).items():
            bad = {a: (st, sim) for a, st, sim in V.uncovered(fi, 'pattern', k, list(fs), excuse=absent_part)}
            for a in fs:
                c.expect(a not in bad, 'patterns', '%s|%s.%s' % (fi.qual.replace(NT, ''), k, a), fi.loc(), (
                    'the %s of a %s are ignored on the path %s' % (a, k, bad[a][1].where(bad[a][0]))) if a in bad else '')
    c.floor('patterns', 20)


def ghost(c, V):
    """The classification of expressions as ghost looks at every part of every kind of expression."""
    for fi in c.project.all_functions(prefix=NT + 'ghost.ghost_checker'):
        if fi.node.name != '_is_expr_ghost':
            continue
        par = fi.params[1]
        for k in EXPRESSIONS:
            bad = {a: (st, sim) for a, st, sim in V.uncovered(fi, par, k, fields(k), excuse=lambda a, st: a == 'value' and test(
                st, lambda t, b: b and t[0] == 'cmp' and any(x == ('const', 'Optional') or x == ('const', 'Union') for x in subterms(t))))}
            for a in fields(k):
                c.expect(a not in bad, 'ghost', '%s.%s' % (k, a), fi.loc(), (
                    'the %s of a %s are ignored on the path %s' % (a, k, bad[a][1].where(bad[a][0]))) if a in bad else '')
    c.floor('ghost', 20)


def comprehensions(c, V):
    """Everybody who takes a comprehension apart looks at its iterable and its filter."""
    for fi in c.project.all_functions(prefix=NT):
        if '.mypy_patches' in fi.module.name:
            continue
        for par in fi.all_params:
            gen = ('sub', ('attr', ('param', par), 'generators'), ('const', 0))
            if not any(isinstance(x, ast.Attribute) and x.attr == 'generators' and dotted(x.value) == par for x in ast.walk(fi.node)):
                continue
            if fi.module.name.endswith('.analyzer'):
                continue                                   # visits the node as a whole, see the rule on visitors
            kinds = COMPREHENSIONS if fi.node.name == '_is_expr_ghost' else {}
            m = re.match(r'translate_(ListComp|SetComp|DictComp)$', fi.node.name)
            if m:
                kinds = {m.group(1): COMPREHENSIONS[m.group(1)]}
            for k, fs in kinds.items():
                def several(a, st):
                    return test(st, lambda t, b: t[0] == 'cmp' and is_call(t[2], 'len') and (t[1] == '!=') == b and t[3] == ('const', 1)
                                and t[2][2][0] == gen[1])
                got = {a: (st, sim) for a, st, sim in V.uncovered(fi, par, k, list(fs), excuse=several)}
                for st, sim in part_of(V, fi, par, k, gen, ('iter', 'ifs'), several):
                    got.setdefault(st[0], (st[1], sim))
                for a in tuple(fs) + ('iter', 'ifs'):
                    c.expect(a not in got, 'comprehensions', '%s|%s.%s' % (fi.qual.replace(NT, ''), k, a), fi.loc(), (
                        'the %s of a %s are ignored on the path %s' % (a, k, got[a][1].where(got[a][0]))) if a in got else '')
    c.floor('comprehensions', 15)


def part_of(V, fi, par, cls, gen, fs, excuse):
    def consume(e):
        nm = callee_name(e)
        if nm in NEUTRAL or nm is None:
            return ()
        out = []
        for x in e[2] + tuple(v for _, v in e[3]):
            for z in spread(x):
                f = part(z, gen, fs)
                if f in fs:
                    out.append(('attr', gen, f))
        return out

    def delegate(e):
        if e[0] != 'call' or callee_name(e) in NEUTRAL:
            return None
        out = None
        for g in V.targets(fi, e):
            cov = set()
            for k, v in bound(e, g).items():
                if v == gen and k in g.all_params:
                    cov |= V.covered(g, k, 'comprehension', fs)
                elif v == ('param', par) and k in g.all_params and g.cls is fi.cls and g is not fi and any(
                        isinstance(x, ast.Attribute) and x.attr == 'generators' for x in ast.walk(g.node)) and not re.match(r'translate_', g.node.name):
                    cov |= {a for a in fs if a not in [x[0][0] for x in part_of(
                        V, g, k, cls, ('sub', ('attr', ('param', k), 'generators'), ('const', 0)), fs, lambda a, st: False)]}
            out = cov if out is None else out & cov
        return out

    def alias(t):
        if is_call(t, 'isinstance') and len(t[2]) == 2 and t[2][0] == ('param', par):
            k = narrow(t[2][1], cls)
            if k is not None:
                return ('const', k)
        return t
    return [((a, st), sim) for a, st, sim in uncovered(fi, gen, fs, consume, delegate, excuse=excuse, simp=alias)]


COMPREHENSIONS = {'ListComp': ('elt',), 'SetComp': ('elt',), 'DictComp': ('key', 'value')}


EXPRESSIONS = ('BoolOp', 'BinOp', 'UnaryOp', 'IfExp', 'Dict', 'Set', 'Compare', 'List', 'Tuple', 'JoinedStr', 'FormattedValue', 'Await',
               'Slice', 'Starred', 'Subscript', 'Lambda', 'Yield')


def rejecting(fi):
    return not PathSim(fi, want=lambda t: False, raises=no_raise).normal


def unknown(c):
    """The visitors used for nodes without one of their own."""
    p = c.project
    n = 0
    for fi in p.all_functions(prefix=NT):
        if '.ghost.' in fi.module.name:
            continue
        for x in ast.walk(fi.node):
            # visitor = getattr(self, <prefix> + <class of the node>, <default>)
            if isinstance(x, ast.Call) and callee_of(x) == 'getattr' and len(x.args) == 3 and not isinstance(x.args[1], ast.Constant) \
                    and isinstance(x.args[2], ast.Attribute) and dotted(x.args[2].value) == 'self' and fi.cls is not None:
                n += 1
                g = fi.cls.find(x.args[2].attr)
                if g is None:
                    c.bad('unknown', '%s|%s' % (fi.qual.replace(NT, ''), x.args[2].attr), fi.loc(x), 'the default visitor does not exist')
                    continue
                c.expect(rejecting(g) or traverses(g), 'unknown', '%s|%s' % (fi.qual.replace(NT, ''), x.args[2].attr), fi.loc(x),
                         'nodes without a visitor of their own are neither rejected nor traversed completely by %s' % g.node.name)
    for cls in ('Analyzer',):
        k = klass(p, cls)
        for nm in ('visit_default', 'visit_but_ignore'):
            g = k.find(nm)
            c.expect(g is not None and traverses(g), 'unknown', '%s.%s' % (cls, nm), g.loc() if g else cls,
                     'the traversal leaves out children of the node')
    c.floor('unknown', 6)


def callee_of(x):
    return (dotted(x.func) or '').split('.')[-1]


def traverses(fi):
    """Whether all children in all fields of the node are visited."""
    node = ('param', 'node')
    sim = PathSim(fi, want=lambda t: t[0] in ('iter', 'exhausted', 'call'), raises=no_raise, loops=True)
    if not sim.normal:
        return False
    for t, st in sim.returns():
        gets = {t for t, b in st.conds}
        src = [e[1] for e in st.events if e[0] == 'iter']
        fields_ = [s for s in src if s in (('attr', node, '_fields'), ('call', ('attr', ('name', 'ast'), 'iter_fields'), (node,), ()))
                   or is_call(s, 'iter_child_nodes') or is_call(s, 'iter_fields')]
        if not fields_ and not any(e[0] == 'exhausted' for e in st.events):
            return False
        if not fields_:
            continue
        # The value of the field, on this path a node, a list with a node in it, or neither.
        for v, b in st.conds:
            if is_call(v, 'isinstance') and b and len(v[2]) == 2 and callee_path(('call', v[2][1], (), ())) in ('ast.AST', 'AST'):
                child = v[2][0]
                if not any(e[0] == 'call' and child in e[2] and callee_name(e) in ('visit', 'visit_but_ignore', 'generic_visit')
                           for e in st.events):
                    return False
        tests = {(v[2][0], callee_path(('call', v[2][1], (), ()))): b for v, b in st.conds if is_call(v, 'isinstance') and len(v[2]) == 2}
        vals = {k[0] for k in tests}
        if not vals:
            return any(e[0] == 'call' and any(x[0] == 'elem' for x in e[2]) for e in st.events)
        other = [(t, b) for t, b in st.conds if not is_call(t, 'isinstance')]
        if other:
            return False
        lists = [k for k in tests if k[1] == 'list' and tests[k]]
        for v, _ in lists:
            if v not in src and ('exhausted', v) not in [e[:2] for e in st.events]:
                return False
    kinds = {callee_path(('call', v[2][1], (), ())) for t, st in sim.returns() for v, b in st.conds
             if is_call(v, 'isinstance') and len(v[2]) == 2 and b}
    return 'list' in kinds or not kinds


def arguments(c):
    """Every part of a parameter list reaches the description of the function or is rejected."""
    fi = klass(c.project, 'Analyzer').find('visit_arguments')
    node = ('param', 'node')
    fs = fields('arguments')
    sim = PathSim(fi, want=lambda t: t[0] in ('iter', 'exhausted', 'call', 'set'), raises=no_raise, loops=True)
    for f in fs:
        hit = None
        for t, st in sim.returns():
            gone = absent(st.conds, node)
            if f in gone:
                continue
            used = False
            for e in st.events:
                if e[0] == 'iter' or e[0] == 'exhausted':
                    if any(x == ('attr', node, f) for x in subterms(e[1])):
                        used = True
                elif e[0] == 'call' and callee_name(e) not in ('len', 'isinstance', 'typeof'):
                    used = used or any(x == ('attr', node, f) for a in e[2] + tuple(v for _, v in e[3]) for x in subterms(a))
            if not used:
                hit = (st,)
        c.expect(hit is None, 'arguments', f, fi.loc(), (
            'the %s of a parameter list are ignored on the path %s' % (f, sim.where(hit[0]))) if hit else '')
    c.floor('arguments', 7)


if __name__ == '__main__':
    run('C05', 'no part of a program is ignored', main)

from _common import *
from c17 import no_raise
from c21 import A, E, SELF, show
import c25
from c26 import klass, method

NODE = ('param', 'node')
_ones = {}


def One(f, loop, env, want):
    key = (f, loop, tuple(sorted(env.items(), key=repr)))
    if key not in _ones:
        one = c25.One(f, loop, env, want)
        one.cases = list(one.paths())
        one.paths = lambda: one.cases
        _ones[key] = one
    return _ones[key]


PASS = ('call', A(('name', 'ast'), 'Pass'), (), ())
NONE = ('const', None)
# fields that cannot contain ghost code, or whose ghost parts are none of the program's
PLAIN = {'name', 'id', 'attr', 'arg', 'op', 'ops', 'ctx', 'simple', 'asname', 'module', 'level', 'annotation', 'vararg', 'kwarg', 'type_params', 'bases', 'keywords@ClassDef', 'type_comment'}
OMIT = {'type_comment', 'type_params'}
BLOCKS = {'body', 'orelse', 'finalbody'}
# fields that may be absent although the node contains ghost code
OPTIONAL = {('ExceptHandler', 'type'), ('match_case', 'guard'), ('AnnAssign', 'value')}
VISITORS = ('Module', 'ClassDef', 'FunctionDef', 'If', 'While', 'For', 'With', 'Try', 'Match', 'Assign', 'AnnAssign', 'AugAssign', 'Return', 'Expr', 'Call')


def call(name, *args):
    return ('call', A(SELF, name), tuple(args), ())


def ctor(t):
    """The class and the fields of a newly built node."""
    if t[0] != 'call':
        return None
    n = callee_path(t)
    if not n or not n.startswith('ast.') or not isinstance(getattr(ast, n[4:], None), type):
        return None
    fields = dict(zip(getattr(ast, n[4:])._fields, t[2]))
    fields.update((k, v) for k, v in t[3])
    return n[4:], fields


def subst(t, old, new):
    if t == old:
        return new
    return tuple(subst(x, old, new) if isinstance(x, tuple) else x for x in t)


def root(t):
    while t[0] == 'map':
        t = t[2][0][0]
    return t


def plain(t):
    """A newly built node with positional arguments."""
    k = ctor(t)
    if k and t[3]:
        fields = getattr(ast, k[0])._fields
        if set(k[1]) == set(fields[:len(k[1])]):
            return ('call', t[1], tuple(k[1][x] for x in fields[:len(k[1])]), ())
    return t


def holds(conds, t, value):
    t, value = norm_cond(t, value)
    return any(norm_cond(x, v) == (t, value) for x, v in conds)


class Rewrite:
    def __init__(self, c, f):
        self.c, self.f, self.rule, self.name, self.good = c, f, 'kept', f.name, True

    def no(self, why):
        self.good = False
        self.c.expect(False, self.rule, self.name, self.f.loc(), why)
        return False

    def extracted(self, t, src, conds, optional=False):
        """Whether a term is the extracted form of a child."""
        if t == call('_extract_child', src):
            return True
        if t == call('extract', src):
            return not optional or holds(conds, ('is_none', src), False) or holds(conds, src, True)
        if optional and t == NONE:
            return holds(conds, ('is_none', src), True) or holds(conds, src, False)
        if t[0] == 'call' and t[1] == call('extract', src) or t[0] == 'call' and t == call('generic_extract', src):
            return True
        return False

    def block(self, t, src, conds, needed):
        """Whether a term is an extracted list of statements, not empty where the grammar wants that."""
        if not (t[0] == 'call' and t[1] == A(SELF, '_extract_body') and t[2][:1] == (src,)):
            return False
        if_empty = t[2][1] if len(t[2]) > 1 else dict(t[3]).get('if_empty', NONE)
        if if_empty[0] == 'ite':
            return False
        return if_empty == PASS or if_empty == NONE and not needed

    def node(self, t, src, kind, conds, events=()):
        """Checks that a term is the node with each of its fields extracted."""
        if t == ('call', A(('name', 'copy'), 'copy'), (src,), ()):
            got = {}
            for e in events:
                if e[0] == 'set' and e[1] == t:
                    got[e[2]] = e[3]
            copied = True
        else:
            k = ctor(t)
            if k is None or k[0] != kind:
                return self.no('is replaced by %s' % show(t)[:80])
            got, copied = k[1], False
        ok = True
        for field in getattr(ast, kind)._fields:
            old = A(src, field)
            new = got.get(field)
            if new is None:
                if copied and (field in PLAIN or field + '@' + kind in PLAIN) or field in OMIT and not (field == 'type_comment' and kind == 'Assign'):
                    continue
                ok &= self.no('the %s of %s %s' % (field, kind, 'may still contain ghost code' if copied else 'is lost'))
                continue
            ok &= self.field(new, old, kind, field, conds, events)
        return ok

    def field(self, new, old, kind, field, conds, events):
        what = 'the %s of %s is %s' % (field, kind, show(new)[:90])
        if field == 'type_comment' and (kind == 'FunctionDef' or kind == 'Assign' and new == NONE):
            return kind == 'FunctionDef' or self.tuples(conds) or self.no(what)
        if (field in PLAIN or field + '@' + kind in PLAIN) and new == old:
            return True
        if field in BLOCKS and kind != 'Lambda':
            needed = field == 'body' and kind != 'Module' or field == 'finalbody' and not holds(conds, old, False)
            return self.block(new, old, conds, needed) or self.no(what)
        special = getattr(self, '%s_%s' % (kind, field), None)
        if special:
            return special(new, old, conds, events) or self.no(what)
        if field in ('handlers', 'cases', 'items'):
            return self.every(new, old, {'handlers': 'ExceptHandler', 'cases': 'match_case', 'items': 'withitem'}[field], what)
        return self.extracted(new, old, conds, (kind, field) in OPTIONAL) or self.no(what)

    def tuples(self, conds):
        return any(is_call(x, 'isinstance') and v and 'ast.Tuple' in show(x) or x[0] == 'call' and callee_path(x) in ('any', 'all') and 'ast.Tuple' in show(x) for x, v in conds) or \
            holds(conds, ('cmp', '==', ('call', ('name', 'len'), (A(NODE, 'targets'),), ()), ('const', 1)), False)

    # ------------------------------------------------------------------ lists
    def list(self, t, env=None):
        """The list that a term is built from, and (conditions, parts, events) per case of an element; None if it is something else."""
        if t[0] == 'map' and len(t[2]) == 1:
            src, ifs = t[2][0]
            while src[0] == 'map' and len(src[2]) == 1:
                t = subst(t, E(src), src[1])
                ifs = tuple(src[2][0][1]) + tuple(t[2][0][1])
                src = src[2][0][0]
            cases = [([norm_cond(x, True) for x in ifs], [plain(t[1])], [])]
            return src, cases, ifs, None
        if t[0] != 'loop':
            return None
        loop = self.loop(t[1])
        if loop is None:
            return None
        inits = [x for x in ast.walk(self.f.node) if isinstance(x, (ast.Assign, ast.AnnAssign)) and x.value is not None and
                 any(isinstance(y, ast.Name) and y.id == t[1] for y in (x.targets if isinstance(x, ast.Assign) else [x.target]))]
        if len(inits) != 1 or ast.unparse(inits[0].value) not in ('[]', 'list()'):
            self.no('%s does not start empty' % t[1])
            return None
        e = dict(env or {'node': NODE, 'self': SELF})
        for outer in self.outer(loop):
            e = One(self.f, outer, e, lambda e: True).env
        e[t[1]] = ACC
        one = One(self.f, loop, e, lambda e: True)
        cases = []
        for r, cs, ev, w in one.paths():
            if r == ('const', 'break'):
                self.no('elements after the first are left out (%s)' % w)
            parts = []
            for x in ev:
                if x[0] == 'call' and x[1][0] == 'attr' and x[1][1] == ACC:
                    if x[1][2] in ('append', 'extend') and len(x[2]) == 1:
                        parts.append(plain(x[2][0]) if x[1][2] == 'append' else ('many', x[2][0]))
                    else:
                        self.no('changes the order of the elements (%s)' % w)
            cases.append((cs, parts, ev))
        return one.src, cases, None, one

    def loop(self, name):
        found, fstarts = None, False
        for x in ast.walk(self.f.node):
            if isinstance(x, ast.For) and any(isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and isinstance(y.func.value, ast.Name) and y.func.value.id == name and
                                              y.func.attr in ('append', 'extend', 'insert') for y in ast.walk(x)):
                starts = any(isinstance(y, (ast.Assign, ast.AnnAssign)) and any(isinstance(z, ast.Name) and z.id == name for z in (y.targets if isinstance(y, ast.Assign) else [y.target])) for y in ast.walk(x))
                if found is None or not any(y is x for y in ast.walk(found)) or fstarts:
                    found, fstarts = x, starts      # the outermost one that does not start the list
        return found

    def outer(self, loop):
        return [x for x in ast.walk(self.f.node) if isinstance(x, ast.For) and x is not loop and any(y is loop for y in ast.walk(x))]

    def filtered(self, t, src, get=lambda e: e, wrap=None, special=None):
        """Whether a list has the extracted form of every element that is not ghost, in order."""
        l = self.list(t)
        if l is None or l[0] != src:
            return False
        el = E(src)
        ok = True
        forms = [call('extract', get(el)), call('_extract_child', get(el))]
        for cs, parts, ev in l[1]:
            if special and special(el, cs):
                ok &= special(el, cs)(parts)
                continue
            gone = [v for x, v in cs if x[0] == 'is_none' and x[1] in forms]
            want = [w for f in forms for w in ([f] if wrap is None else [wrap(el, f)])]
            if len(parts) == 1 and parts[0] in want:
                ok &= gone == [False] or self.no('ghost elements of %s are kept' % show(src))
            elif not parts:
                ok &= gone == [True] or self.no('elements of %s that are not ghost are left out' % show(src))
            else:
                ok &= self.no('elements of %s become %s' % (show(src), ', '.join(show(x) for x in parts)[:80]))
        if l[2] is not None:
            ok &= len(l[2]) == 1 or self.no('elements of %s that are not ghost are left out' % show(src))
        return ok

    def every(self, t, src, kind, what):
        """Whether a list has every element with extracted fields."""
        l = self.list(t)
        if l is None or l[0] != src:
            return self.no(what)
        if l[2]:
            return self.no('some %s are left out' % show(src))
        ok = True
        for cs, parts, ev in l[1]:
            if len(parts) != 1:
                ok &= self.no('some %s are left out' % show(src))
            elif not self.extracted(parts[0], E(src), cs):
                ok &= self.node(parts[0], E(src), kind, cs, ev)
        return ok

    # ------------------------------------------------------------------ special fields
    def Call_args(self, new, old, conds, events):
        def starred(el, cs):
            conv = [(x, v) for x, v in cs if 'converted_elements' in show(x) and x[0] != 'cmp']
            ghost = [v for x, v in cs if x == A(el, 'is_ghost')]
            if not conv or not all(v for x, v in conv) or ghost != [False]:
                return None
            cv = conv[0][0]
            while cv[0] in ('not', 'is_none'):
                cv = cv[1]

            src = ('call', ('name', 'range'), (A(el, 'nof_elements'),), ())

            def subscript(elt):
                k = ctor(elt)
                return k and k[0] == 'Subscript' and k[1].get('value') == A(el, 'value') and k[1].get('slice') in (
                    ('call', A(('name', 'ast'), 'Constant'), (E(src),), ()), ('call', A(('name', 'ast'), 'Constant'), (), (('value', E(src)),)))

            def check(parts):
                cv2 = ('cmp', 'in', E(src), cv)
                inner = any(isinstance(x, ast.For) and 'nof_elements' in ast.unparse(x.iter) for x in ast.walk(self.f.node))
                if inner and all(subscript(x) for x in parts) and len(parts) <= 1:
                    return not parts or holds(cs, cv2, False) or self.no('starred arguments that belong to ghost parameters are kept')
                if not (len(parts) == 1 and parts[0][0] == 'many' and parts[0][1][0] == 'map'):
                    return self.no('starred arguments become %s' % [show(x)[:60] for x in parts])
                _, elt, its = parts[0][1]
                ok = len(its) == 1 and its[0][0] == src and [norm_cond(x, True) for x in its[0][1]] == [norm_cond(('cmp', 'not in', E(src), cv), True)] and subscript(elt)
                return ok or self.no('the elements of starred arguments are %s' % show(parts[0][1])[:120])
            return check
        return self.filtered(new, old, special=starred)

    def Call_keywords(self, new, old, conds, events):
        return self.filtered(new, old, get=lambda e: A(e, 'value'), wrap=lambda e, f: ('call', A(('name', 'ast'), 'keyword'), (A(e, 'arg'), f), ()))

    def FunctionDef_decorator_list(self, new, old, conds, events):
        return new == call('_extract_decorators', old)
    ClassDef_decorator_list = FunctionDef_decorator_list

    def FunctionDef_args(self, new, old, conds, events):
        k = ctor(new)
        if k is None or k[0] != 'arguments':
            return False
        ok = True
        for field in ast.arguments._fields:
            v, o = k[1].get(field), A(old, field)
            if field in ('vararg', 'kwarg'):
                good = v == o
            elif field == 'kw_defaults':
                good = v is not None and self.kw_defaults(v, A(old, 'kwonlyargs'), o)
            else:
                good = v == call('_extract_args_or_defaults', o)
            ok &= good or self.no('the %s of the function are %s' % (field, show(v)[:80] if v else 'lost'))
        return ok

    def kw_defaults(self, t, args, defaults):
        l = self.list(t)
        if l is None:
            return False
        src, cases, ifs, _ = l
        z = ('call', ('name', 'zip'), (args, defaults), ())
        if src != z:
            return False
        el = E(z)
        if ifs is not None:
            return cases[0][1] in ([('item', el, 1)], [('sub', el, ('const', 1))], [E(defaults)]) and len(ifs) == 1 and \
                norm_cond(ifs[0], True) in [norm_cond(A(a, 'is_ghost'), False) for a in (('item', el, 0), ('sub', el, ('const', 0)), E(args))]
        ok = True
        for cs, parts, ev in cases:
            g = [v for x, v in cs if x[0] == 'attr' and x[2] == 'is_ghost']
            ok &= g == [not parts] and len(parts) <= 1 and all('defaults' in show(x) or x[0] in ('item', 'sub') for x in parts)
        return ok

    def FunctionDef_returns(self, new, old, conds, events):
        if holds(conds, ('is_none', old), True) or holds(conds, A(old, 'contains_ghost'), False):
            return new == old or new == NONE and holds(conds, ('is_none', old), True)
        if not holds(conds, A(old, 'contains_ghost'), True):
            return False
        if holds(conds, A(old, 'is_ghost'), True):
            return new in [('call', A(('name', 'ast'), 'Constant'), a, k) for a, k in (((NONE,), ()), ((), (('value', NONE),)))]
        return holds(conds, A(old, 'is_ghost'), False) and new == ('sub', A(A(old, 'slice'), 'elts'), ('const', 0))

    def Return_value(self, new, old, conds, events):
        two = ('cmp', '==', ('call', ('name', 'len'), (A(old, 'elts'),), ()), ('const', 2))
        pair = any(is_call(x, 'isinstance') and x[2][0] == old and v for x, v in conds) and holds(conds, two, True) and holds(conds, A(old, 'is_ghost'), False)
        if not pair:
            out = any(is_call(x, 'isinstance') and x[2][0] == old and not v for x, v in conds) or holds(conds, two, False) or holds(conds, A(old, 'is_ghost'), True) or \
                not any(is_call(x, 'isinstance') for x, v in conds)
            return out and self.extracted(new, old, conds)
        lists = {x for y in [new] + [x for x, _ in conds] for x in subterms(y) if x[0] in ('loop', 'map') and (x[0] == 'loop' or root(x) == A(old, 'elts'))}
        lists = {x for x in lists if not any(x != y and x in subterms(y) for y in lists)}
        if len(lists) != 1:
            return False
        L = lists.pop()
        if not self.filtered(L, A(old, 'elts')):
            return False
        ok = True
        for n in sizes(L, conds, range(3)):
            good = new == (NONE if n == 0 else ('sub', L, ('const', 0)) if n == 1 else None) or \
                n == 2 and ctor(new) is not None and ctor(new)[0] == 'Tuple' and ctor(new)[1].get('elts') == L and ctor(new)[1].get('ctx') in (A(old, 'ctx'), LOAD)
            ok &= good
        return ok

    def Assign_targets(self, new, old, conds, events):
        l = self.list(new)
        if l is None or l[0] != old:
            return False
        el = E(old)
        ok = True
        for cs, parts, ev in l[1]:
            cs = [(x, v) for x, v in cs]
            if any(v and x[0] == 'is_none' and (ctor(x[1]) or x[1][0] == 'sub' or x[1][0] == 'call' and x[1][1][0] == 'call' and callee_path(x[1][1]) == 'type') for x, v in cs):
                continue        # a new node is never None
            kinds = [v for x, v in cs if is_call(x, 'isinstance') and x[2][0] == el]
            if not any(kinds):
                gone = [v for x, v in cs if x == ('is_none', call('extract', el))]
                ok &= gone == [not parts] and parts in ([], [call('extract', el)]) or self.no('targets become %s' % [show(x)[:60] for x in parts])
                continue
            lists = {x for y in parts + [x for x, _ in cs] for x in subterms(y) if x[0] in ('loop', 'map') and x != new and (x[0] == 'loop' or root(x) == A(el, 'elts'))}
            lists = {x for x in lists if not any(x != y and x in subterms(y) for y in lists)}
            if len(lists) != 1:
                ok &= self.no('the elements of tuple targets are not extracted')
                continue
            L = lists.pop()
            ok &= self.filtered(L, A(el, 'elts')) or self.no('the elements of tuple targets are lost')
            total = ('call', ('name', 'len'), (A(el, 'elts'),), ())
            for m in (1, 2, 3):
                for n in range(m + 1):
                    if not all(compare(x, v, {('call', ('name', 'len'), (L,), ()): n, total: m, L: n, A(el, 'elts'): m}) for x, v in cs):
                        continue
                    if n == 0:
                        good = not parts
                    elif n == 1 and m > 1:
                        good = parts == [('sub', L, ('const', 0))]
                    else:
                        good = len(parts) == 1 and sequence(parts[0], el, L)
                    ok &= good or self.no('tuple targets with %d of %d regular elements become %s' % (n, m, [show(x)[:60] for x in parts]))
        return ok


ACC = ('param', '<accumulator>')
LOAD = ('call', A(('name', 'ast'), 'Load'), (), ())


def sequence(t, el, L):
    """Whether a term is a tuple (or list) target with the given elements."""
    k = ctor(t)
    if k:
        return k[0] in ('Tuple', 'List') and k[1].get('elts') == L and k[1].get('ctx') == A(el, 'ctx')
    return t[0] == 'call' and t[1] in [('call', ('name', 'type'), (el,), ()), A(el, '__class__')] and t[2] == (L, A(el, 'ctx')) or \
        t[0] == 'call' and t[1] in [('call', ('name', 'type'), (el,), ())] and dict(t[3]) == {'elts': L, 'ctx': A(el, 'ctx')}


OPS = {'==': lambda a, b: a == b, '!=': lambda a, b: a != b, '<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b}


def compare(x, v, lengths):
    """Whether a condition may hold for the given lengths."""
    x, v = norm_cond(x, v)
    if x in lengths:
        return bool(lengths[x]) == v
    if x[0] == 'cmp' and x[1] in OPS:
        vals = [lengths[y] if y in lengths else y[1] if y[0] == 'const' and isinstance(y[1], int) else None for y in x[2:4]]
        if None not in vals:
            return OPS[x[1]](*vals) == v
    return True


def sizes(L, conds, ns):
    for n in ns:
        if all(compare(x, v, {('call', ('name', 'len'), (L,), ()): n, L: n}) for x, v in conds):
            yield n


# -------------------------------------------------------------------------------------------
def paths(f):
    sim = PathSim(f, want=lambda e: True, raises=no_raise, totals=True)
    for t, st in sim.returns():
        yield t, st.conds, st.events, 'lines %s' % sim.where(st)


def visitors(c, p, k):
    c.rule('kept', 'a node that contains ghost code is rebuilt with every field, each extracted, in its place')
    for name in VISITORS:
        f = k.methods.get('extract_' + name)
        if not c.expect(f is not None, 'kept', name, k.loc() if hasattr(k, 'loc') else 'src/nagini_translation/ghost/extraction.py', 'has no rewriting rule of its own'):
            continue
        if name == 'Module':
            continue
        visitor(c, f, name)
    for n, f in k.methods.items():
        if n.startswith('extract_') and n[8:] not in VISITORS and isinstance(getattr(ast, n[8:], None), type):
            visitor(c, f, n[8:])


def visitor(c, f, name):
    r = Rewrite(c, f)
    param = f.node.args.args[1].arg
    n = 0
    for t, cs, ev, w in paths(f):
        t, cs, ev = (rename(x, param) for x in (t, tuple(cs), tuple(ev)))
        if any(v and x[0] == 'is_none' and (ctor(x[1]) or x[1] == PASS) for x, v in cs):
            continue
        r.name = name
        value = A(NODE, 'value')
        if t == NONE:
            spec = any(v and 'SPEC_ONLY_DECORATORS' in show(x) and decorator_test(x) for x, v in cs)
            if not (name == 'FunctionDef' and spec):
                r.no('is left out (%s)' % w)
            continue
        n += 1
        if name == 'Call' and transparent(t, cs):
            continue
        k = ctor(t)
        if name in ('Assign', 'AnnAssign', 'AugAssign') and k and k[0] == 'Expr':
            v = k[1].get('value')
            if name == 'Assign':
                lists = [y for x, _ in cs for y in subterms(x) if y[0] in ('loop', 'map')]
                gone = bool(lists) and any(list(sizes(L, cs, range(3))) == [0] and r.list(L) and r.list(L)[0] == A(NODE, 'targets') for L in lists)
            else:
                gone = any(v2 and x[0] == 'is_none' and r.extracted(x[1], A(NODE, 'target'), ()) for x, v2 in cs)
            r.extracted(v, value, cs) and gone or r.no('is replaced by its value although its target remains (%s)' % w)
            continue
        if name == 'Assign' and k and k[0] == 'Assign':
            L = k[1].get('targets')
            if L and L[0] in ('loop', 'map') and 0 in sizes(L, cs, range(3)):
                r.no('has no targets (%s)' % w)
        if name in ('AnnAssign', 'AugAssign') and k and k[0] == name:
            tgt = k[1].get('target')
            if not holds(cs, ('is_none', tgt), False) and not holds(cs, tgt, True) and not (name == 'AnnAssign' and k[1].get('value') == NONE):
                r.no('is kept without a target (%s)' % w)
        r.node(t, NODE, name, cs, ev)
    if c.expect(n > 0, 'kept', name, f.loc(), 'is never kept') and r.good:
        c.ok('kept', name)


def rename(t, param):
    if t == ('param', param):
        return NODE
    return tuple(rename(x, param) if isinstance(x, tuple) else x for x in t) if isinstance(t, tuple) else t


def decorator_test(x):
    """Whether a condition asks for a decorator of the function in the list of specification only decorators."""
    s = show(x)
    if x == ('cmp', 'in', A(E(A(NODE, 'decorator_list')), 'id'), ('name', 'SPEC_ONLY_DECORATORS')):
        return True
    return 'decorator_list' in s and ('any(' in s or 'BitAnd' in s or 'intersection' in s or 'isdisjoint' in s)


def transparent(t, cs):
    """Whether a path replaces a transparent call by its regular argument."""
    tc = ('name', 'TRANSPARENT_CALLS')
    fn = ('call', ('name', 'get_func_name'), (NODE,), ())
    idx = [('sub', tc, fn), ('call', A(tc, 'get'), (fn,), ())]
    args = A(NODE, 'args')
    inside = holds(cs, ('cmp', 'in', fn, tc), True) or any(not v and x == ('is_none', idx[1]) for x, v in cs)
    big = any(holds(cs, ('cmp', '>', ('call', ('name', 'len'), (args,), ()), i), True) or holds(cs, ('cmp', '<', i, ('call', ('name', 'len'), (args,), ())), True) for i in idx)
    return inside and big and t in [call(m, ('sub', args, i)) for m in ('extract', '_extract_child') for i in idx]


def dispatch(c, k):
    c.rule('dispatch', 'ghost nodes are left out, nodes without ghost code are kept, all others are rebuilt')
    f = method(k, 'extract')
    ok = True
    seen = set()
    for t, cs, ev, w in paths(f):
        ghost, contains = A(NODE, 'is_ghost'), A(NODE, 'contains_ghost')
        if holds(cs, ghost, True):
            seen.add('ghost')
            ok &= c.expect(t == NONE, 'dispatch', 'extract', f.loc(), 'ghost nodes become %s (%s)' % (show(t)[:60], w))
        elif holds(cs, ghost, False) and holds(cs, contains, False):
            seen.add('regular')
            ok &= c.expect(t in (NODE, call('generic_extract', NODE)), 'dispatch', 'extract', f.loc(), 'regular nodes become %s (%s)' % (show(t)[:60], w))
        elif holds(cs, ghost, False) and holds(cs, contains, True):
            seen.add('mixed')
            s = show(t)
            good = t[0] == 'call' and t[2] == (NODE,) and 'extract_' in s and '__name__' in s and ('generic_extract' in s) and t[1][0] == 'call' and callee_path(t[1]) == 'getattr'
            ok &= c.expect(good or t == call('generic_extract', NODE) and any('extract_' in show(x) or 'None' in show(x) for x, v in cs) or t[0] == 'call' and t[2] == (NODE,) and 'extract_' in s and '__name__' in s,
                           'dispatch', 'extract', f.loc(), 'nodes with ghost parts become %s (%s)' % (s[:60], w))
        else:
            ok &= c.expect(False, 'dispatch', 'extract', f.loc(), 'does not distinguish ghost and regular nodes (%s)' % w)
    ok &= c.expect(seen == {'ghost', 'regular', 'mixed'}, 'dispatch', 'extract', f.loc(), 'does not distinguish ghost and regular nodes')
    if ok:
        c.ok('dispatch', 'extract')
    f = method(k, '_extract_child')
    ok = True
    ext = call('_is_extractable', NODE)
    for t, cs, ev, w in paths(f):
        is_ast = [v for x, v in cs if is_call(x, 'isinstance') and 'ast.AST' in show(x)]
        if holds(cs, ext, True) or any(v and is_call(x, 'hasattr') for x, v in cs):
            good = t == call('extract', NODE)
        elif holds(cs, ext, False) or any(not v and is_call(x, 'hasattr') for x, v in cs):
            good = t == call('generic_extract', NODE) if True in is_ast else t == NODE and False in is_ast
        else:
            good = t == NODE and is_ast == [False]
        ok &= c.expect(good, 'dispatch', '_extract_child', f.loc(), 'becomes %s (%s)' % (show(t)[:60], w))
    if ok:
        c.ok('dispatch', '_extract_child')
    f = k.methods.get('_is_extractable')
    if f:
        for t, cs, ev, w in paths(f):
            s = show(t)
            c.expect("hasattr(node, 'is_ghost')" in s and ('not' not in s.split('hasattr')[0]) or t == ('const', False) and any(not v for x, v in cs), 'dispatch', '_is_extractable', f.loc(), 'is %s (%s)' % (s, w))


def lists(c, k):
    c.rule('lists', 'statements, arguments and defaults that are not ghost are all kept, in order')
    f = method(k, '_extract_body')
    r = Rewrite(c, f)
    r.rule = 'lists'
    body, empty = (('param', a.arg) for a in f.node.args.args[1:3])
    n = 0
    for t, cs, ev, w in paths(f):
        n += 1
        L = t
        if t[0] in ('or', 'bool'):
            L = t[2][0] if t[0] == 'bool' else t[1]
        if t == ('list', (empty,)):
            cand = [x for y, _ in cs for x in subterms(y) if x[0] in ('loop', 'map')]
            if cand and list(sizes(cand[0], cs, range(3))) == [0] and holds(cs, ('is_none', empty), False):
                continue
            r.no('the placeholder replaces statements (%s)' % w)
            continue
        extra = []
        if L[0] == 'op' and L[1] == 'Add' and L[3][0] == 'list':
            L, extra = L[2], list(L[3][1])
        if L[0] not in ('loop', 'map'):
            r.no('is %s (%s)' % (show(t)[:60], w))
            continue
        adds = [e for e in ev if e[0] == 'call' and e[1][0] == 'attr' and e[1][1] == L and e[2] == (empty,)] + [x for x in extra if x == empty]
        if len(adds) < len(extra):
            r.no('is %s (%s)' % (show(t)[:60], w))
        if adds:
            if not (list(sizes(L, cs, range(3))) == [0] and (holds(cs, ('is_none', empty), False) or holds(cs, empty, True)) and len(adds) == 1):
                r.no('the placeholder is added to other statements (%s)' % w)
        elif 0 in sizes(L, cs, range(3)) and not (holds(cs, ('is_none', empty), True) or holds(cs, empty, False)):
            r.no('the body is empty although there is a placeholder (%s)' % w)
        body_list(r, L, body)
    if c.expect(n > 0, 'lists', '_extract_body', f.loc(), 'returns nothing') and r.good:
        c.ok('lists', '_extract_body')
    # arguments and defaults
    f = method(k, '_extract_args_or_defaults')
    r = Rewrite(c, f)
    r.rule = 'lists'
    src = ('param', f.node.args.args[1].arg)
    el = E(src)
    n = 0
    for t, cs, ev, w in paths(f):
        n += 1
        l = r.list(t, {'self': SELF, src[1]: src})
        if l is None or l[0] != src:
            r.no('is %s (%s)' % (show(t)[:60], w))
            continue
        for cs2, parts, ev2 in l[1]:
            if l[2] is not None:
                flat = [show(x) for x in l[2]]
                good = parts == [el] and flat in (['((elem(%s) is None) or not elem(%s).is_ghost)' % (src[1], src[1])],) or \
                    parts == [el] and len(l[2]) == 1 and ghostly(l[2][0], el)
            else:
                gone = holds(cs2, A(el, 'is_ghost'), True)
                good = gone and not parts or parts == [el] and (holds(cs2, ('is_none', el), True) or holds(cs2, A(el, 'is_ghost'), False))
            if not good:
                r.no('arguments become %s (%s)' % ([show(x)[:40] for x in parts], w))
    if c.expect(n > 0, 'lists', '_extract_args_or_defaults', f.loc(), 'returns nothing') and r.good:
        c.ok('lists', '_extract_args_or_defaults')
    # decorators
    f = method(k, '_extract_decorators')
    r = Rewrite(c, f)
    r.rule = 'lists'
    src = ('param', f.node.args.args[1].arg)
    el = E(src)
    for t, cs, ev, w in paths(f):
        l = r.list(t, {'self': SELF, src[1]: src})
        if l is None or l[0] != src:
            r.no('is %s (%s)' % (show(t)[:60], w))
            continue
        for cs2, parts, ev2 in l[1]:
            name = ('call', ('name', 'isinstance'), (el, A(('name', 'ast'), 'Name')), ())
            ours = ('cmp', 'in', A(el, 'id'), ('name', 'NAGINI_DECORATORS'))
            if l[2] is not None:
                good = parts == [el] and len(l[2]) == 1 and all(evaluate(l[2][0], {name: a, ours: b}) == (not (a and b)) for a in (False, True) for b in (False, True))
            else:
                both = holds(cs2, name, True) and holds(cs2, ours, True)
                good = not parts and both or parts == [el] and (holds(cs2, name, False) or holds(cs2, ours, False))
            if not good:
                r.no('other decorators than those of Nagini are removed, or those are kept')
    if r.good:
        c.ok('lists', '_extract_decorators')


def evaluate(t, known):
    """The value of a condition."""
    t2, pos = norm_cond(t, True)
    for k, v in known.items():
        k2, kp = norm_cond(k, True)
        if k2 == t2:
            return v == (pos == kp)
    if t[0] == 'not':
        v = evaluate(t[1], known)
        return None if v is None else not v
    if t[0] == 'bool':
        vs = [evaluate(x, known) for x in t[2]]
        if None in vs:
            return None
        return all(vs) if t[1] == 'and' else any(vs)
    return None


def ghostly(t, el):
    none, ghost = ('is_none', el), A(el, 'is_ghost')
    vals = [(a, b, evaluate(t, {none: a, ghost: b})) for a in (False, True) for b in (False, True)]
    return all(v is not None and (a or v == (not b)) and (not a or v) for a, b, v in vals)


def body_list(r, L, body):
    l = r.list(L, {'self': SELF, body[1]: body})
    if l is None or l[0] != body:
        r.no('is not built from the statements of the body')
        return
    el = E(body)
    x = call('extract', el)
    inner = ('map', x, ((body, ()),))
    for cs, parts, ev in l[1]:
        gone = [v for y, v in cs if y == ('is_none', x)]
        if parts == [x] and gone == [False] or not parts and gone == [True]:
            continue
        r.no('statements become %s' % [show(y)[:40] for y in parts])
    if l[2] is not None and len(l[2]) != 1:
        r.no('statements that are not ghost are left out')


def generic(c, k):
    c.rule('generic', 'nodes without a rule of their own keep every field, each extracted')
    f = method(k, 'generic_extract')
    r = Rewrite(c, f)
    r.rule = 'generic'
    copy = ('call', A(('name', 'copy'), 'copy'), (NODE,), ())
    for t, cs, ev, w in paths(f):
        if t != copy:
            r.no('becomes %s (%s)' % (show(t)[:60], w))
    fields = ('call', A(('name', 'ast'), 'iter_fields'), (NODE,), ())
    outer = [x for x in ast.walk(f.node) if isinstance(x, ast.For) and 'iter_fields' in ast.unparse(x.iter)]
    if not outer:
        r.no('the fields are not visited')
        return
    env = {'node': NODE, 'self': SELF}
    for x in ast.walk(f.node):
        if isinstance(x, ast.Assign) and isinstance(x.value, ast.Call) and ast.unparse(x.value) == 'copy.copy(node)':
            env[x.targets[0].id] = copy
    one = One(f, outer[0], env, lambda e: True)
    fld, val = (one.env.get(x.id) for x in outer[0].target.elts) if isinstance(outer[0].target, ast.Tuple) else (None, None)
    if one.src != fields or fld is None:
        r.no('the fields are not visited')
        return
    n = 0
    for t, cs, ev, w in one.paths():
        islist = [v for x, v in cs if is_call(x, 'isinstance') and x[2][0] == val and 'list' in show(x)]
        sets = [e for e in ev if is_call(e, 'setattr')]
        child = call('_extract_child', val)
        n += 1
        if islist == [False]:
            none = [v for x, v in cs if x == ('is_none', child)]
            good = sets == [] and none == [True] or len(sets) == 1 and sets[0][2] == (copy, fld, child) and none in ([], [False])
            if not good:
                r.no('fields that are no lists are not replaced by their extracted form (%s)' % w)
        elif islist == [True]:
            if len(sets) != 1 or sets[0][2][:2] != (copy, fld):
                r.no('lists are not replaced by their extracted form (%s)' % w)
                continue
            L = sets[0][2][2]
            l = r.list(L, env)
            if l is None or l[0] != val:
                r.no('lists become %s (%s)' % (show(L)[:60], w))
                continue
            el = E(val)
            x = call('_extract_child', el)
            for cs2, parts, ev2 in l[1]:
                none = holds(cs2, ('is_none', el), True)
                gone = holds(cs2, ('is_none', x), True)
                there = holds(cs2, ('is_none', x), False)
                good = parts == [x] and (there or none) or not parts and gone and holds(cs2, ('is_none', el), False)
                if l[2] is not None:
                    good = parts == [x] and len(l[2]) == 1 and all(evaluate(l[2][0], {('is_none', el): a, ('is_none', x): b}) == (a or not b) for a in (False, True) for b in (False, True))
                if not good:
                    r.no('the elements of lists become %s (%s)' % ([show(y)[:40] for y in parts], w))
        else:
            r.no('lists and other fields are not distinguished (%s)' % w)
    if r.good and n:
        c.ok('generic', 'generic_extract')


def whole(c, p, k):
    c.rule('whole', 'the extracted main module has exactly the extracted statements and the imports they need, and is what the user sees')
    f = method(k, 'extract_Module')
    body = call('_extract_body', A(NODE, 'body'))
    ok = True
    for t, cs, ev, w in paths(f):
        core = t
        while core[0] == 'call' and (callee_path(core) == 'ast.fix_missing_locations' or core[1] == A(SELF, '_restore_type_comments')):
            core = core[2][0]
        m = ctor(core)
        ok &= c.expect(m is not None and m[0] == 'Module' and m[1].get('body') in (body, call('_restore_needed_imports', A(NODE, 'body'), body)), 'whole', 'Module', f.loc(),
                       'the body of the module becomes %s (%s)' % (show(core)[:80], w))
        ok &= c.expect('fix_missing_locations' in show(t), 'whole', 'Module', f.loc(), 'the new nodes have no positions, so they cannot be printed (%s)' % w)
    if ok:
        c.ok('whole', 'Module')
    f = k.methods.get('_restore_needed_imports')
    if f:
        ok = True
        a, b = (('param', x.arg) for x in f.node.args.args[1:3])
        for t, cs, ev, w in paths(f):
            good = t == b
            if t[0] == 'op' and t[1] == 'Add' and t[3] == b and t[2][0] == 'map':
                src, ifs = t[2][2][0]
                flat = [y for x in ifs for y in (x[2] if x[0] == 'bool' and x[1] == 'and' else (x,))]
                good = src == a and t[2][1] == E(a) and any(x[0] == 'cmp' and x[1] == 'not in' and x[3] == b for x in flat) and any(x == call('_is_nagini_import', E(a)) for x in flat) and \
                    any('_provided_names' in show(x) for x in flat) and any(is_call(x, 'isinstance') and 'ast.Import' in show(x) for x in flat)
            ok &= c.expect(good, 'whole', 'imports', f.loc(), 'the statements of the module become %s (%s)' % (show(t)[:80], w))
        if ok:
            c.ok('whole', 'imports')
    f = k.methods.get('_restore_type_comments')
    if f:
        ok = True
        cp = ('call', A(('name', 'copy'), 'deepcopy'), (NODE,), ())
        for t, cs, ev, w in paths(f):
            ok &= c.expect(t == cp, 'whole', 'type comments', f.loc(), 'changes the original program (%s)' % w)
            for e in ev:
                if e[0] in ('setitem', 'setsub', 'set') or e[0] == 'call' and callee_name(e) in ('setattr', 'remove', 'pop', 'insert', 'append', 'clear', 'extend'):
                    good = e[0] in ('setitem', 'setsub') and '_to_annotated_assign' in show(e[-1]) and any(not v and x[0] == 'is_none' and x[1] == e[-1] for x, v in cs)
                    ok &= c.expect(good, 'whole', 'type comments', f.loc(), 'changes other statements (%s)' % w)
        for loop in [x for x in ast.walk(f.node) if isinstance(x, ast.For) and isinstance(x.iter, ast.Call) and ast.unparse(x.iter.func) == 'enumerate']:
            i, s = (x.id for x in loop.target.elts)
            lst = ast.unparse(loop.iter.args[0])
            for x in ast.walk(loop):
                if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Subscript):
                    ok &= c.expect(ast.unparse(x.targets[0]) == '%s[%s]' % (lst, i), 'whole', 'type comments', f.loc(x), 'replaces another statement')
                if isinstance(x, ast.Call) and ast.unparse(x.func) == 'self._to_annotated_assign':
                    ok &= c.expect(ast.unparse(x.args[0]) == s, 'whole', 'type comments', f.loc(x), 'replaces another statement')
        if ok:
            c.ok('whole', 'type comments')
    f = k.methods.get('_to_annotated_assign')
    if f:
        ok = True
        target = ('sub', A(NODE, 'targets'), ('const', 0))
        for t, cs, ev, w in paths(f):
            if t == NONE:
                continue
            m = ctor(t)
            one = holds(cs, ('cmp', '==', ('call', ('name', 'len'), (A(NODE, 'targets'),), ()), ('const', 1)), True)
            isname = [v for x, v in cs if is_call(x, 'isinstance') and x[2][0] == target and show(x).endswith('ast.Name)')]
            simple = m[1].get('simple') if m else None
            ok &= c.expect(m is not None and m[0] == 'AnnAssign' and m[1].get('target') == target and m[1].get('value') == A(NODE, 'value') and one and
                           'ast.parse' in show(m[1].get('annotation', NONE)) and 'type_comment' in show(m[1]['annotation']) and
                           any(v and is_call(x, 'isinstance') and x[2][0] == target for x, v in cs) | (isname == [True]), 'whole', 'annotated', f.loc(), 'an assignment becomes %s (%s)' % (show(t)[:80], w))
            if isname and simple in (('const', 0), ('const', 1)):
                ok &= c.expect(bool(simple[1]) == isname[0], 'whole', 'annotated', f.loc(), 'the form of the target is wrong (%s)' % w)
        if ok:
            c.ok('whole', 'annotated')
    f = method(k, 'process')
    for t, cs, ev, w in paths(f):
        main = A(('sub', A(SELF, 'modules'), ('const', 1)), 'node')
        if c.expect(t in (call('extract_Module', main), call('extract', main)), 'whole', 'process', f.loc(), 'extracts %s (%s)' % (show(t)[:60], w)):
            c.ok('whole', 'process')
    # the user interface
    m = p.modules.get('nagini_translation.main')
    f = m.functions['translate'] if m else None
    if f is None:
        raise AnalysisError('main.translate has vanished')
    rel = lambda t: 'extraction' in show(t)
    n = {True: 0, False: 0}
    ok = True
    for t, st in PathSim(f, raises=no_raise, relevant=rel, want=lambda e: e[0] == 'call' and callee_name(e) in ('print', 'process', 'translate_program', 'check', 'write')).returns():
        on = [v for x, v in st.conds if x == ('param', 'extraction')]
        names = [(callee_name(e), e) for e in st.events if e[0] == 'call']
        tr = next((i for i, (x, _) in enumerate(names) if x == 'translate_program'), None)
        pr = [i for i, (x, e) in enumerate(names) if x in ('print', 'write') and 'ProgramExtractor' in show(e) and 'ast.unparse' in show(e)]
        ck = [i for i, (x, e) in enumerate(names) if x == 'check' and 'GhostChecker' in show(e)]
        if tr is None or len(on) != 1:
            continue
        n[on[0]] += 1
        if on[0]:
            ok &= c.expect(len(pr) == 1 and pr[0] < tr, 'whole', 'translate', f.loc(), 'the extracted program is not printed before the translation changes the nodes')
            ok &= c.expect(bool(ck) and bool(pr) and ck[0] < pr[0], 'whole', 'translate', f.loc(), 'the program is extracted before ghost code is marked')
        else:
            ok &= c.expect(not pr, 'whole', 'translate', f.loc(), 'a program is printed although no extraction is wanted')
    if c.expect(n[True] > 0 and n[False] > 0, 'whole', 'translate', f.loc(), 'does not depend on the extraction option') and ok:
        c.ok('whole', 'translate')


def main(c):
    p = c.project
    k = klass(p, 'ProgramExtractor', 'ghost.extraction')
    visitors(c, p, k)
    dispatch(c, k)
    lists(c, k)
    generic(c, k)
    whole(c, p, k)


if __name__ == '__main__':
    run('C22', 'Extraction removes all ghost code and nothing else', main)

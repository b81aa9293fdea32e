from _common import *
from c17 import no_raise, klass, bound
from sa.sym import State
import sa.terms

_shown = {}


def show(t):
    r = _shown.get(t)
    if r is None:
        r = _shown[t] = sa.terms.show(t)
    return r

SELF = ('param', 'self')
CTX = ('attr', SELF, 'in_ghost_ctx')
N = ('param', 'node')


def A(t, *names):
    for n in names:
        t = ('attr', t, n)
    return t


def E(t):
    return ('elem', t)


def gh(t):
    return ('call', A(SELF, 'is_ghost'), (t,), ())


# truth ---------------------------------------------------------------------------------------
def truth(t, known):
    """True, False or None: the truth value of a term under the known values of some terms."""
    nt, pos = norm_cond(t, True)
    for k, v in known:
        if k == nt:
            return v == pos
    if t[0] == 'const':
        return bool(t[1])
    if t[0] == 'not':
        v = truth(t[1], known)
        return None if v is None else not v
    if t[0] == 'bool':
        vs = [truth(x, known) for x in t[2]]
        stop = t[1] == 'or'
        if stop in vs:
            return stop
        return None if None in vs else not stop
    if t[0] == 'call' and callee_path(t) in ('any', 'all') and len(t[2]) == 1:
        if t[2][0][0] in ('list', 'tuple', 'set'):
            return truth(('bool', 'or' if callee_path(t) == 'any' else 'and', t[2][0][1]), known)
    if t[0] == 'call' and callee_path(t) == 'bool' and len(t[2]) == 1:
        return truth(t[2][0], known)
    if t[0] == 'cmp' and t[1] in ('==', '!=', 'is', 'is not'):
        for x, y in ((t[2], t[3]), (t[3], t[2])):
            if y[0] == 'const' and isinstance(y[1], bool):
                v = truth(x, known)
                return None if v is None else (v == y[1]) == (t[1] in ('==', 'is'))
        l, r = truth(t[2], known), truth(t[3], known)
        if l is not None and r is not None and known:
            return (l == r) == (t[1] in ('==', 'is'))
    if t[0] == 'cmp' and t[1] in ('in', 'not in') and t[3][0] in ('list', 'tuple') and all(x[0] == 'const' for x in t[3][1]):
        pass
    if nt != t and nt[0] not in ('const',):
        v = truth(nt, known)
        return None if v is None else v == pos
    return None


def value(t, conds, **assume):
    return truth(t, frozenset(conds))


def with_(conds, *more):
    """The conditions together with assumed ones; None if they contradict each other."""
    out = dict()
    for t, v in list(conds) + [(norm_cond(t, v)) for t, v in more]:
        if out.get(t, v) != v:
            return None
        out[t] = v
    # conditions that are decided by the others
    ks = frozenset(out.items())
    for t, v in conds:
        rest = frozenset(x for x in ks if x != (t, v))
        w = truth(t, rest)
        if w is not None and w != v:
            return None
    return ks


def denied(conds, x, events=()):
    """Whether the path is only taken if the part is regular (or absent)."""
    if truth(gh(x), conds) is False or (('is_none', x), True) in conds:
        return True
    for t, v in conds:
        if not v and t[0] == 'call' and callee_path(t) == 'any' and t[2] and t[2][0][0] == 'map':
            elt, its = t[2][0][1], t[2][0][2]
            if all(c in ((norm(x, 'is not')), x) for _, cs in its for c in cs) and truth(elt, {(gh(x), True)}) is True:
                return True
            if elt == gh(x):
                return True
    y = x
    while y[0] == 'attr':
        y = y[1]
    if y[0] == 'elem':
        return ('iter', y[1]) not in events and (('exhausted', y[1]) in events)
    return False


def norm(x, op):
    return ('cmp', op, x, ('const', None))


OWN = ('visit', 'check_call', 'check_for_call', 'check_control_flow', 'check_assign', 'check_unpacking', 'make_ghost', 'is_assignable',
       'call_on_vars', 'generic_visit')


def wanted(t):
    if t[0] == 'set':
        return t[2] == 'in_ghost_ctx' or t[2] == 'is_ghost' and t[1] != SELF
    return t[0] in ('iter', 'exhausted') or t[0] == 'call' and (
        t[1][0] == 'attr' and t[1][1] == SELF and (t[1][2] in OWN or t[1][2].startswith(('_check', 'check', 'visit'))))


class Checker:
    def __init__(self, c, p):
        self.c, self.p = c, p
        self.ci = klass(p, 'GhostChecker')
        self.sims, self.ends = {}, {}

    def method(self, name):
        return self.ci.methods.get(name)

    def never(self, t):
        """Whether the call is to an own method that cannot return."""
        g = self.method(t[1][2]) if t[0] == 'call' and t[1][0] == 'attr' and t[1][1] == SELF else None
        if g is None:
            return False
        if g.name not in self.ends:
            cfg = CFG(g.node, no_raise)
            seen, work = set(), [cfg.entry]
            while work:
                n = work.pop()
                if n not in seen:
                    seen.add(n)
                    work += [m for _, m in n.succ]
            self.ends[g.name] = cfg.exit in seen
        return not self.ends[g.name]

    def sim(self, name, env=None, relevant=None, node=None):
        f = self.method(name)
        key = (name, tuple(sorted((env or {}).items())), node)
        if key not in self.sims:
            e = {q: ('param', q) for q in f.all_params}
            if f.params[1:]:
                pass
            e.update(env or {})
            if name.startswith('visit_') and env is None and len(f.params) == 2:
                e[f.params[1]] = N
            kw = {'node': node} if node is not None else {}
            self.sims[key] = PathSim(f, raises=no_raise, loops=True, env=e, repeat=True, noreturn=self.never,
                                     want=wanted, relevant=relevant, **kw)
        return self.sims[key]

    def paths(self, name, **kw):
        s = self.sim(name, **kw)
        out = list(s.returns())
        return [(t, st, s.where(st)) for t, st in out]


def last_set(st, base, attr):
    evs = [e for e in st.events if e[0] == 'set' and e[1] == base and e[2] == attr]
    return evs[-1][3] if evs else None


def contexts(st):
    """[(event, value of the ghost context when it happens)], value at the end"""
    cur, out = CTX, []
    for e in st.events:
        if e[0] == 'set' and e[1] == SELF and e[2] == 'in_ghost_ctx':
            cur = e[3]
        else:
            out.append((e, cur))
    return out, cur


# Statements that only exist in regular code, and their parts that must be regular.
REGULAR = {
    'Raise': ('exc', 'cause'), 'Assert': ('test', 'msg'), 'Break': (), 'Continue': (),
    'With': ('items[].context_expr', 'items[].optional_vars'), 'Try': ('handlers[].type',),
}


def term(path):
    t = N
    for x in path.split('.'):
        t = A(t, x.replace('[]', ''))
        if x.endswith('[]'):
            t = E(t)
    return t


def regular(c, k):
    c.rule('regular', 'statements with an effect outside ghost code are rejected in ghost code and with ghost parts')
    for s, ps in REGULAR.items():
        f = k.method('visit_' + s)
        if not c.expect(f is not None, 'regular', s, k.method("check").loc(), 'is not checked'):
            continue
        ok = True
        for t, st, w in k.paths('visit_' + s):
            ok &= c.expect((CTX, False) in st.conds, 'regular', s + ' in ghost code', f.loc(), 'is accepted (lines %s)' % w)
            for p in ps:
                ok &= c.expect(denied(st.conds, term(p), st.events), 'regular', '%s.%s' % (s, p), f.loc(), 'may be ghost (lines %s)' % w)
            v = last_set(st, N, 'is_ghost')
            ok &= c.expect(v is not None and value(v, st.conds) is False, 'regular', s + ' flag', f.loc(), 'is marked ghost or not marked (lines %s)' % w)
            if not ok:
                break
        if ok:
            c.ok('regular', s)


# Statements with bodies that become ghost with a part of them.
BODIES = {'If': ('test', ('body[]', 'orelse[]')), 'While': ('test', ('body[]', 'orelse[]')),
          'For': ('iter', ('body[]', 'orelse[]')), 'Match': ('subject', ('cases[].body[]',))}


def expand(k, st, depth=0):
    """The events of a path with those of the checker's own methods that visit parts in place of their calls."""
    outs = [([], st.conds)]
    for e in st.events:
        g = k.method(e[1][2]) if e[0] == 'call' and e[1][0] == 'attr' and e[1][1] == SELF else None
        if g is not None and g.name.startswith('check_control') and depth < 2:
            env = {n: x for n, x in bound(e, g).items()}
            new = []
            for _, st2 in k.sim(g.name, env=env).returns():
                for evs2, _ in expand(k, st2, depth + 1):
                    for evs, conds in outs:
                        cs = with_(conds, *st2.conds)
                        if cs is not None:
                            new.append((evs + evs2, cs))
            outs = new
        else:
            outs = [(evs + [e], cs) for evs, cs in outs]
    return outs


def bodies(c, k):
    c.rule('bodies', 'the bodies of a statement that depends on a ghost value are checked as ghost code')
    for s, (cond, bs) in BODIES.items():
        f = k.method('visit_' + s)
        if not c.expect(f is not None, 'bodies', s, k.method("check").loc(), 'is not checked'):
            continue
        g = gh(term(cond))
        ok, seen = True, set()
        for t, st, w in k.paths('visit_' + s):
            if not ok:
                break
            for ghost in (True, False):
                cs0 = with_(st.conds, (g, ghost))
                if cs0 is None:
                    continue
                v = last_set(st, N, 'is_ghost')
                r = None if v is None else truth(v, cs0)
                if ghost:
                    ok &= c.expect(r is True, 'bodies', s + ' flag', f.loc(), 'is not marked ghost with a ghost %s (lines %s)' % (cond, w))
                else:
                    cs1 = with_(cs0, (CTX, False))
                    if cs1 is not None:
                        ok &= c.expect(v is not None and truth(v, cs1) is False, 'bodies', s + ' flag', f.loc(),
                                       'is marked ghost with a regular %s (lines %s)' % (cond, w))
                for evs, conds in expand(k, st):
                    cs = with_(conds, *cs0)
                    if cs is None:
                        continue
                    cur, scanned = CTX, False
                    for e in evs:
                        if e[0] == 'set' and e[1] == SELF and e[2] == 'in_ghost_ctx':
                            cur = e[3]
                        elif is_call(e, 'visit') and e[2]:
                            for b in bs:
                                if e[2][0] == E(term(b[:-2])) or e[2][0] == term(b):
                                    seen.add(b)
                                    if ghost:
                                        ok &= c.expect(truth(cur, cs) is True, 'bodies', '%s.%s' % (s, b[:-2]), f.loc(),
                                                       'is not checked as ghost code (lines %s)' % w)
                                    else:
                                        ok &= c.expect(cur == CTX or all(with_(cs, (CTX, g2)) is None or truth(cur, with_(cs, (CTX, g2))) is g2 for g2 in (True, False)), 'bodies', '%s.%s' % (s, b[:-2]), f.loc(),
                                                       'is checked as ghost code (lines %s)' % w)
                        elif e[0] == 'call' and callee_name(e) in ('check_call', 'check_for_call') and e[2] and e[2][0] == term(cond):
                            if truth(cur, cs) is True:
                                call = [v for t2, v in cs if is_call(t2, 'isinstance') and t2[2][0] == term(cond) and
                                        callee_path(('call', t2[2][1], (), ())) == 'ast.Call']
                                if callee_name(e) == 'check_call' or call == [False]:
                                    scanned = True
                    if ghost:
                        ok &= c.expect(scanned, 'bodies', '%s.%s' % (s, cond), f.loc(),
                                       'may call regular code with an effect although it is ghost (lines %s)' % w)
                    ok &= c.expect(cur == CTX, 'bodies', s + ' context', f.loc(), 'is not restored (lines %s)' % w)
        for b in bs:
            ok &= c.expect(b in seen, 'bodies', '%s.%s' % (s, b), f.loc(), 'is not visited')
        if ok:
            c.ok('bodies', s)


def compat(k, name, *assume, **kw):
    """(result, state, lines, conditions) of the paths of a method that return and agree with the assumptions"""
    for t, st, w in k.paths(name, **kw):
        cs = with_(st.conds, *assume)
        if cs is not None:
            yield t, st, w, cs


def me(name, *args):
    return ('call', A(SELF, name), args, ())


def assigned(conds, src, dst=None):
    """Whether an assignment of src (to dst) has been found to be allowed."""
    return any(v and t[0] == 'call' and t[1] == A(SELF, 'is_assignable') and t[2] and t[2][0] == src and
               (dst is None or len(t[2]) > 1 and t[2][1] == dst) for t, v in conds)


def assignable(c, k):
    c.rule('assignable', 'ghost values are not assigned to regular targets, and regular targets are not assigned in ghost code')
    f = k.method('is_assignable')
    src, dst = [('param', x) for x in f.params[1:3]]
    conv = ('param', f.params[3])
    ok = True
    for e1, e2, cv, g in [(a, b, d, e) for a in (True, False) for b in (True, False) for d in (True, False) for e in (True, False)]:
        if not (e1 and not e2 or g and not e2 or not cv and e1 != e2):
            continue
        for t, st, w, cs in compat(k, 'is_assignable', (gh(src), e1), (gh(dst), e2), (conv, cv), (CTX, g)):
            ok &= c.expect(truth(t, cs) is False, 'assignable', f.qual, f.loc(), 'allows to assign a %s value to a %s target %s%s (lines %s)' % (
                'ghost' if e1 else 'regular', 'ghost' if e2 else 'regular', 'in ghost code' if g else 'in regular code',
                '' if cv else ' without conversion', w))
    if ok:
        c.ok('assignable', f.qual)


def assign(c, k):
    c.rule('assign', 'every target of every kind of assignment is checked, and unchecked kinds of state are not assigned')
    # single targets
    f = k.method('check_assign')
    val, tgt = [('param', x) for x in f.params[1:3]]
    ok = True
    name_attr = [('call', ('name', 'isinstance'), (tgt, x), ()) for x in ()]
    for t, st, w in k.paths('check_assign'):
        sub = any(v and is_call(x, 'isinstance') and x[2][0] == tgt and 'Subscript' in show(x[2][1]) for x, v in st.conds)
        if sub:
            good = truth(gh(tgt), st.conds) is False and truth(gh(val), st.conds) is False and (CTX, False) in st.conds
            ok &= c.expect(good, 'assign', 'elements of collections', f.loc(), 'may be assigned by or with ghost code (lines %s)' % w)
        else:
            ok &= c.expect(assigned(st.conds, val, tgt), 'assign', 'names and attributes', f.loc(), 'are assigned without being compared (lines %s)' % w)
            ok &= c.expect((me('is_regular_state', tgt), False) in st.conds, 'assign', 'attributes of ghost references', f.loc(),
                           'may be assigned although they are regular (lines %s)' % w)
    f = k.method('is_regular_state')
    x = ('param', f.params[1])
    isattr = ('call', ('name', 'isinstance'), (x, A(('name', 'ast'), 'Attribute')), ())
    for t, st, w, cs in compat(k, 'is_regular_state', (isattr, True), (gh(x), True), (me('resolve_target_ghost', x), False)):
        ok &= c.expect(truth(t, cs) is True, 'assign', f.qual, f.loc(), 'does not hold for regular fields of ghost references (lines %s)' % w)
    # statements
    for s, tgts in (('Assign', E(A(N, 'targets'))), ('AugAssign', A(N, 'target')), ('AnnAssign', A(N, 'target'))):
        f = k.method('visit_' + s)
        if not c.expect(f is not None, 'assign', s, k.method('check').loc(), 'is not checked'):
            continue
        v = A(N, 'value')
        for t, st, w in k.paths('visit_' + s):
            calls = [e for e in st.events if e[0] == 'call' and callee_name(e) in ('check_assign', 'check_unpacking') and len(e[2]) > 1 and e[2][1] == tgts]
            if s == 'Assign' and ('iter', A(N, 'targets')) not in st.events:
                ok &= c.expect(('exhausted', A(N, 'targets')) in st.events, 'assign', s, f.loc(), 'targets are not checked (lines %s)' % w)
            elif s == 'AnnAssign' and ('is_none', v) in [x for x, b in st.conds if b]:
                pass
            else:
                ok &= c.expect(bool(calls) and all(x[2][0] in (v, gh(v)) for x in calls), 'assign', s, f.loc(), 'does not check a target with its value (lines %s)' % w)
                for x in calls:
                    tup = [b for t2, b in st.conds if is_call(t2, 'isinstance') and t2[2][0] == tgts and {'ast.Tuple', 'ast.List'} & set(map(show, t2[2][1][1] if t2[2][1][0] in ('tuple', 'list') else (t2[2][1],)))]
                    if callee_name(x) == 'check_assign' and s == 'Assign':
                        ok &= c.expect(tup == [False], 'assign', s, f.loc(), 'does not unpack a tuple (lines %s)' % w)
            cur = contexts(st)[1]
            ok &= c.expect(cur == CTX, 'assign', s + ' context', f.loc(), 'is not restored (lines %s)' % w)
            for e, cx in contexts(st)[0]:
                if e in calls and cx != CTX:
                    # raising the context to ghost is only fine for ghost targets
                    ok &= c.expect(truth(cx, st.conds) is True, 'assign', s, f.loc(), 'is checked as regular code (lines %s)' % w)
    # unpacking
    f = k.method('check_unpacking')
    val, tgt = [('param', x) for x in f.params[1:3]]
    elts = A(tgt, 'elts')
    call = ('call', ('name', 'isinstance'), (val, A(('name', 'ast'), 'Call')), ())
    cc = me('check_call', val)
    for t, st, w in k.paths('check_unpacking'):
        its = [e for e in st.events if e[0] == 'iter']
        star = any(v and 'Starred' in show(x) for x, v in st.conds)
        srcs = [e[1] for e in st.events if e[0] in ('iter', 'exhausted')]
        ok &= c.expect(bool(srcs), 'assign', 'unpacking', f.loc(), 'does not look at the targets (lines %s)' % w)
        if (call, True) in st.conds:
            func_ghost = [v for x, v in st.conds if x == ('item', cc, 0)]
            need = True if func_ghost == [True] else ('item', cc, 1)
        else:
            need = gh(val)
        for src in srcs:
            parts = list(src[2]) if is_call(src, 'zip') else [src[2], src[3]] if src[0] == 'op' and src[1] == 'Add' else [src]
            ok &= c.expect(elts in parts, 'assign', 'unpacking', f.loc(), 'does not look at all targets (lines %s)' % w)
            vals = [x for x in parts if x != elts]
            if len(vals) == 1:
                one = vals[0][2][1] if vals[0][0] == 'op' and vals[0][1] == 'Mult' and vals[0][2][0] == 'list' else vals[0][1] if vals[0][0] == 'list' else ()
                mixed = any(v and x[0] == 'cmp' and x[1] == '==' and 'MIXED_RETURN' in show(x) for x, v in st.conds)
                isbool = any(v and is_call(x, 'isinstance') and x[2] == (('item', cc, 1), ('name', 'bool')) for x, v in st.conds)
                if need is True:
                    good = one == (('const', True),)
                elif need == gh(val):
                    good = one == (need,)
                elif mixed:
                    good = one == (('const', False), ('const', True))
                elif isbool:
                    good = one == (need,)
                else:
                    good = True
                ok &= c.expect(good, 'assign', 'unpacking', f.loc(), 'takes the wrong parts of the value for ghost (lines %s)' % w)
        for e in its:
            if star:
                ok &= c.expect(truth(gh(E(e[1])), st.conds) is False, 'assign', 'starred unpacking', f.loc(), 'of ghost values is allowed (lines %s)' % w)
            else:
                done = [x for x in st.events if x[0] == 'call' and callee_name(x) in ('check_assign', 'check_unpacking') and len(x[2]) > 1 and x[2][1] == E(elts)]
                ok &= c.expect(bool(done), 'assign', 'unpacking', f.loc(), 'does not check a target (lines %s)' % w)
    if ok:
        c.ok('assign', 'targets')


def delete(c, k):
    c.rule('delete', 'ghost code does not delete regular targets')
    f = k.method('visit_Delete')
    ok = c.expect(f is not None, 'delete', 'Delete', k.method('check').loc(), 'is not checked')
    x = E(A(N, 'targets'))
    for t, st, w in k.paths('visit_Delete') if ok else ():
        if ('iter', A(N, 'targets')) in st.events:
            ok &= c.expect(with_(st.conds, (CTX, True), (gh(x), False)) is None, 'delete', 'in ghost code', f.loc(), 'may delete regular targets (lines %s)' % w)
            ok &= c.expect((me('is_regular_state', x), False) in st.conds, 'delete', 'fields of ghost references', f.loc(), 'may be deleted (lines %s)' % w)
        ok &= c.expect(('exhausted', A(N, 'targets')) in st.events, 'delete', 'targets', f.loc(), 'are not all checked (lines %s)' % w)
        ok &= c.expect((me('has_mixed_elems', A(N, 'targets')), False) in st.conds, 'delete', 'targets', f.loc(), 'may mix ghost and regular (lines %s)' % w)
    if ok:
        c.ok('delete', 'Delete')


def returns(c, k):
    c.rule('return', 'regular functions do not return from ghost code, or ghost values in regular parts of their result')
    f = k.method('visit_Return')
    if not c.expect(f is not None, 'return', 'Return', k.method('check').loc(), 'is not checked'):
        return
    v = A(N, 'value')
    fg = A(SELF, 'ctx', 'actual_function', 'is_ghost')
    ok = True
    for t, st, w in k.paths('visit_Return'):
        ghost = truth(fg, st.conds)
        if ghost:
            ok &= c.expect(any(e in st.events for e in (me('check_for_call', N), me('check_call', v))), 'return', 'in ghost functions', f.loc(),
                           'may call regular code with an effect (lines %s)' % w)
            continue
        ok &= c.expect(ghost is False and (CTX, False) in st.conds, 'return', 'in ghost code', f.loc(), 'is accepted in a regular function (lines %s)' % w)
        if (('is_none', v), True) in st.conds:
            continue
        info = [x[2] for x, b in st.conds if b and x[0] == 'cmp' and 'MIXED_RETURN' in show(x) and is_call(x[2], 'get_return_info')]
        if info:
            zs = [e for e in st.events if e[0] == 'iter']
            whole = any(b and x[0] == 'cmp' and x[1] == '==' and x[2] == me('check_call', v) and x[3][0] == 'tuple' or x[3] == ('list', (('const', False), ('name', 'MIXED_RETURN')))
                        for x, b in st.conds if x[0] == 'cmp' and len(x) > 3 and b)
            parts = [x for x, b in st.conds if b and is_call(x, 'is_assignable')]
            ok &= c.expect(whole or not zs and ('exhausted',) == tuple(e[0] for e in st.events if e[0] == 'exhausted')[:1] or
                           any(x[2][0] == E(A(v, 'elts')) for x in parts), 'return', 'of mixed results', f.loc(), 'is not checked (lines %s)' % w)
        else:
            good = [x for x, b in st.conds if b and is_call(x, 'is_assignable') and x[2][0] == v]
            ok &= c.expect(any('get_return_info' in show(x[2][1]) for x in good), 'return', 'of results', f.loc(), 'is not compared with the declared result (lines %s)' % w)
    if ok:
        c.ok('return', 'Return')


def special(p, name):
    return Evaluator(p).module_value(NT + 'ghost.ghost_checker', name) if hasattr(Evaluator, 'module_value') else None


def is_ghost_test(n, var, attr):
    """self.is_ghost(var) or self.is_ghost(var.attr)"""
    if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'is_ghost' and len(n.args) == 1):
        return False
    return dotted(n.args[0]) == (var if attr is None else var + '.' + attr)


def calls(c, k):
    c.rule('calls', 'regular functions with an effect are not called in ghost code or on ghost receivers, and regular parameters get regular arguments')
    f = k.method('check_call')
    call = ('param', f.params[1])

    def rel(t):
        s = show(t)
        return any(x in s for x in ('is_ghost', 'in_ghost_ctx', 'check_receiver', '.pure', 'is_assignable', 'THREADING', 'get_func_name(call) in'))

    def want(t):
        if t[0] in ('iter', 'exhausted'):
            return A(call, 'keywords') in set(subterms(t[1])) or ('loop', 'args') in set(subterms(t[1])) or t[1] == A(call, 'args')
        return t[0] == 'call' and t[1][0] == 'attr' and t[1][1] == SELF and t[1][2].startswith(('_check', 'check_for', 'check_receiver'))
    sim = PathSim(f, raises=no_raise, loops=True, repeat=True, want=want, relevant=rel, noreturn=k.never)
    ok, n = True, 0
    recv = me('check_receiver', call)
    for t, st in sim.returns():
        n += 1
        w = lambda: sim.where(st)
        names = {show(x[3]) for x, v in st.conds if v and x[0] == 'cmp' and x[1] == 'in' and is_call(x[2], 'get_func_name')}
        if names & {'TRANSPARENT_CALLS', 'IO_MIXED_RETURN_FUNCS', 'IGNORE_REG_CALLS', 'ALL_CONTRACT_ELEMS', 'PURE_REG_CALLS'}:
            continue
        done = [callee_name(e) for e in st.events if e[0] == 'call' and callee_name(e) != 'check_receiver']
        thread = any(v and 'THREADING' in show(x) for x, v in st.conds)
        if thread:
            ok &= bool(set(done) & {'_check_thread_call', '_check_thread_creation', '_check_thread_arguments'}) or c.expect(
                False, 'calls', 'of threads', f.loc(), 'are not checked (lines %s)' % w())
            continue
        if '_check_unresolved_call' in done:
            e = [e for e in st.events if callee_name(e) == '_check_unresolved_call'][-1]
            ok &= with_(st.conds, (recv, True)) is None or truth(e[2][1], with_(st.conds, (recv, True))) is True or c.expect(
                False, 'calls', 'of unresolved functions', f.loc(), 'are regular on a ghost receiver (lines %s)' % w())
            continue
        # what is known about the called function
        pure = [v for x, v in st.conds if x[0] == 'attr' and x[2] == 'pure']
        io = any(v and 'is_ghost_type' in show(x) for x, v in st.conds)
        own = [v for x, v in st.conds if is_call(x, 'is_ghost') and not any(y[0] == 'elem' and ('loop', 'args') in set(subterms(y)) or y == A(call, 'keywords')
                                                                           for y in subterms(x)) and not any(
            y[0] == 'call' and y[1] == ('name', 'OrderedDict') for y in subterms(x))]
        if '_check_ghost_func' in done:
            ok &= (True in pure or True in own or io or not pure and not own) or c.expect(
                False, 'calls', 'of regular functions with an effect', f.loc(), 'are ghost (lines %s)' % w())
            continue
        # a regular call
        ok &= (CTX, False) in st.conds and (recv, False) in st.conds or c.expect(
            False, 'calls', 'of regular functions', f.loc(), 'stay regular in ghost code or on a ghost receiver (lines %s)' % w())
        ok &= True not in own or c.expect(False, 'calls', 'of ghost functions', f.loc(), 'are regular (lines %s)' % w())
        ok &= truth(t[1][0], st.conds) is False if t[0] in ('tuple', 'list') and len(t[1]) == 2 else c.expect(
            False, 'calls', 'of regular functions', f.loc(), 'have the result %s' % show(t))
        for e in st.events:
            if e[0] == 'iter':
                x = E(e[1])
                if e[1] == A(call, 'args'):
                    ok &= ('exhausted', e[1]) in st.events or c.expect(False, 'calls', 'arguments', f.loc(), 'are not all checked (lines %s)' % w())
                    continue
                if is_call(e[1], 'enumerate') or is_call(e[1], 'zip'):
                    x = E(e[1][2][0])
                xs = (x, A(x, 'value'))
                good = any(assigned(st.conds, y) for y in xs) or any(truth(gh(y), st.conds) is False for y in xs)
                bad = any(not v and is_call(y, 'is_assignable') and y[2][0] in xs for y, v in st.conds)
                ok &= good and not bad or c.expect(False, 'calls', 'arguments', f.loc(), 'are not compared with their parameters (lines %s)' % w())
        ok &= ('exhausted', A(call, 'keywords')) in st.events or c.expect(False, 'calls', 'keyword arguments', f.loc(), 'are not checked (lines %s)' % w())
        if not ok:
            break
    many(n, 50)
    # ghost and unresolved calls, threads
    g = k.method('_check_ghost_func')
    for t, st, w in k.paths(g.name):
        evs, end = contexts(st)
        ok &= c.expect(any(e == me('check_for_call', ('param', g.params[1])) and truth(cx, st.conds) is True for e, cx in evs), 'calls', g.qual, g.loc(),
                       'does not check the arguments as ghost code (lines %s)' % w)
        ok &= c.expect(end == CTX, 'calls', g.qual, g.loc(), 'does not restore the context (lines %s)' % w)
    g = k.method('_check_unresolved_call')
    x = ('param', g.params[1])
    for src, part in ((A(x, 'args'), E(A(x, 'args'))), (A(x, 'keywords'), A(E(A(x, 'keywords')), 'value'))):
        for t, st, w in k.paths(g.name):
            ok &= c.expect(('exhausted', src) in st.events or src in set(subterms(t)), 'calls', g.qual, g.loc(), 'does not look at the arguments (lines %s)' % w)
    rcv = ('param', g.params[2])
    for asm in ((CTX, True), (rcv, True)):
        for t, st, w, cs in compat(k, g.name, asm):
            r = t[1][0] if t[0] in ('tuple', 'list') else t
            good = growing(g, r[1], [asm]) if r[0] == 'loop' else truth(r, cs) is True
            ok &= c.expect(good, 'calls', g.qual, g.loc(), 'is regular in ghost code or on a ghost receiver (lines %s)' % w)
    for t, st, w in k.paths(g.name):
        r = t[1][0] if t[0] in ('tuple', 'list') else t
        if r[0] == 'loop':
            # every argument contributes to the flag
            for src, part in (('args', None), ('keywords', 'value')):
                found = False
                for l in [n for n in ast.walk(g.node) if isinstance(n, ast.For) and isinstance(n.target, ast.Name)]:
                    if src in [y.attr for y in ast.walk(l.iter) if isinstance(y, ast.Attribute)]:
                        body = ast.Module(l.body, [])
                        found |= any(is_ghost_test(n, l.target.id, part) for n in ast.walk(body)) and not any(isinstance(n, ast.Continue) for n in ast.walk(body))
                ok &= c.expect(found, 'calls', g.qual, g.loc(), 'ignores whether %s are ghost' % src)
        else:
            for part in (E(A(x, 'args')), A(E(A(x, 'keywords')), 'value')):
                ok &= c.expect(implied(r, part, st.conds, gh), 'calls', g.qual, g.loc(), 'ignores whether %s is ghost' % show(part))
    g = k.method('_check_thread_call')
    x = ('param', g.params[1])
    for t, st, w in k.paths(g.name):
        ok &= c.expect((CTX, False) in st.conds and any(not v and (y == me('check_receiver', x) or 'is_receiver_ghost' in show(y)) for y, v in st.conds), 'calls', g.qual,
                       g.loc(), 'accepts starting or joining threads in ghost code (lines %s)' % w)
        ok &= c.expect(me('_check_thread_arguments', x) in st.events, 'calls', g.qual, g.loc(), 'does not check the arguments (lines %s)' % w)
    g = k.method('_check_thread_creation')
    for t, st, w in k.paths(g.name):
        ok &= c.expect(me('_check_thread_arguments', ('param', g.params[1])) in st.events, 'calls', g.qual, g.loc(), 'does not check the arguments (lines %s)' % w)
    g = k.method('_check_thread_arguments')
    for t, st, w in k.paths(g.name):
        for e in st.events:
            if e[0] == 'iter':
                pred = any(v and show(y).endswith('.predicate') for y, v in st.conds)
                ok &= c.expect(pred or truth(gh(E(e[1])), st.conds) is False, 'calls', g.qual, g.loc(), 'accepts ghost arguments of threads (lines %s)' % w)
                ok &= c.expect({A(('param', g.params[1]), 'args'), A(('param', g.params[1]), 'keywords')} <= set(subterms(e[1])), 'calls', g.qual, g.loc(),
                               'does not check all arguments (lines %s)' % w)
    # all calls inside of an expression are found
    g = k.method('check_for_call')
    x = ('param', g.params[1])
    fields = ('call', A(('name', 'ast'), 'iter_fields'), (x,), ())
    ch = ('call', A(('name', 'ast'), 'iter_child_nodes'), (x,), ())
    wk = ('call', A(('name', 'ast'), 'walk'), (x,), ())
    for t, st, w in k.paths(g.name):
        its = [e[1] for e in st.events if e[0] == 'iter']
        ok &= c.expect(('exhausted', fields) in st.events or ('exhausted', ch) in st.events or ('exhausted', wk) in st.events, 'calls', g.qual, g.loc(),
                       'does not look at all parts (lines %s)' % w)
        for src in its:
            val = ('item', E(src), 1) if src == fields else E(src)
            vals = [y[2][0] for y, v in st.conds if is_call(y, 'isinstance')]
            islist = [v for y, v in st.conds if is_call(y, 'isinstance') and y[2][0] == val and show(y[2][1]) == 'list']
            if True in islist:
                ok &= c.expect(('iter', val) in st.events or ('exhausted', val) in st.events, 'calls', g.qual, g.loc(), 'does not look at all elements of lists (lines %s)' % w)
                continue
            iscall = [v for y, v in st.conds if is_call(y, 'isinstance') and y[2][0] == val and show(y[2][1]) == 'ast.Call']
            isast = [v for y, v in st.conds if is_call(y, 'isinstance') and y[2][0] == val and show(y[2][1]) == 'ast.AST']
            if True in iscall:
                good = me('check_call', val) in st.events
            elif isast == [False]:
                good = True
            else:
                good = me('check_for_call', val) in st.events
            ok &= c.expect(good, 'calls', g.qual, g.loc(), 'misses calls in parts (lines %s)' % w)
    # receivers
    g = k.method('is_receiver_ghost')
    x = A(('param', g.params[1]), 'value')
    for t, st, w, cs in compat(k, g.name, (gh(x), True)):
        mod = any(v and 'PythonModule' in show(y) for y, v in st.conds)
        ok &= c.expect(mod or truth(t, cs) is True, 'calls', g.qual, g.loc(), 'is false for a ghost receiver (lines %s)' % w)
    g = k.method('check_receiver')
    x = A(('param', g.params[1]), 'func')
    isattr = ('call', ('name', 'isinstance'), (x, A(('name', 'ast'), 'Attribute')), ())
    for t, st, w, cs in compat(k, g.name, (isattr, True)):
        ok &= c.expect(truth(t, with_(cs, (me('is_receiver_ghost', x), True)) or cs) is True, 'calls', g.qual, g.loc(), 'is false for a ghost receiver (lines %s)' % w)
    if ok:
        c.ok('calls', 'calls')


# ghostness -----------------------------------------------------------------------------------
def contains(t, part):
    """Whether a list term contains (all elements of) the part (an expression or the elements of a list)."""
    if part[0] == 'elem' and t == part[1] or t == ('list', (part,)):
        return True
    if t[0] in ('list', 'tuple'):
        return part in t[1] or any(x[0] == 'star' and contains(x[1], part) for x in t[1])
    if t[0] == 'op' and t[1] == 'Add':
        return contains(t[2], part) or contains(t[3], part)
    if t[0] == 'call' and callee_path(t) in ('list', 'tuple', 'chain', 'itertools.chain') and t[2]:
        return any(contains(x, part) for x in t[2])
    if t[0] == 'map' and len(t[2]) == 1:
        src, ifs = t[2][0]
        if t[1] == E(src) and all(x == norm_not_none(E(src)) or norm_cond(x, True) == (('is_none', E(src)), False) for x in ifs):
            return contains(src, part)
        if part[0] == 'attr' and contains(src, part[1]) and not ifs:
            return t[1] == A(E(src), part[2]) or t[1] == part
        if not ifs and t[1] == part:
            return True
    return False


def norm_not_none(x):
    return ('cmp', 'is not', x, ('const', None))


def implied(t, part, conds, pred):
    """Whether the term is true as soon as the part is ghost."""
    g = pred(part)
    cs = with_(conds, (g, True))
    if cs is None or truth(t, cs) is True:
        return True
    if t[0] == 'bool' and t[1] == 'or':
        return any(implied(x, part, conds, pred) for x in t[2])
    if t[0] == 'call' and callee_path(t) == 'any' and len(t[2]) == 1:
        m = t[2][0]
        if m[0] == 'map' and len(m[2]) == 1:
            src, ifs = m[2][0]
            if all(norm_cond(x, True) == (('is_none', E(src)), False) for x in ifs) and m[1] == pred(E(src)):
                return contains(src, part)
            if m[1] == pred(part) and not ifs:
                return True
            if part[0] == 'attr' and m[1] == pred(A(E(src), part[2])) and contains(src, part[1]) and not ifs:
                return True
        if m[0] in ('list', 'tuple'):
            return any(implied(x, part, conds, pred) for x in m[1])
        if m[0] == 'op' and m[1] == 'Add':
            return any(implied(('call', ('name', 'any'), (x,), ()), part, conds, pred) for x in m[2:])
    return False


EXPRS = {
    'BoolOp': ('values[]',), 'BinOp': ('left', 'right'), 'UnaryOp': ('operand',), 'IfExp': ('test', 'body', 'orelse'),
    'Dict': ('keys[]', 'values[]'), 'Set': ('elts[]',), 'List': ('elts[]',), 'Tuple': ('elts[]',),
    'ListComp': ('elt', 'generators[0].iter', 'generators[0].ifs[]'), 'SetComp': ('elt', 'generators[0].iter', 'generators[0].ifs[]'),
    'DictComp': ('key', 'value', 'generators[0].iter', 'generators[0].ifs[]'),
    'JoinedStr': ('values[]',), 'FormattedValue': ('value', 'format_spec'), 'Await': ('value',), 'Compare': ('left', 'comparators[]'),
    'Subscript': ('value', 'slice'), 'Slice': ('lower', 'upper', 'step'), 'Starred': ('value',), 'NamedExpr': ('value',),
}


def part_of(base, path):
    t = base
    for x in path.split('.'):
        nm = x.split('[')[0]
        t = A(t, nm)
        if x.endswith('[]'):
            t = E(t)
        elif x.endswith('[0]'):
            t = ('sub', t, ('const', 0))
    return t


def ghostness(c, k):
    c.rule('ghostness', 'an expression is ghost as soon as a part of it that its value depends on is ghost')
    f = k.method('_is_expr_ghost')
    ex = ('param', f.params[1])
    paths = k.paths(f.name)
    kinds = {}
    for t, st, w in paths:
        for x, v in st.conds:
            if v and is_call(x, 'isinstance') and x[2][0] == ex:
                for kd in (x[2][1][1] if x[2][1][0] in ('tuple', 'list') else (x[2][1],)):
                    kinds.setdefault(show(kd).split('.')[-1], []).append((t, st, w))
    ok = True
    allowed = {kd for kd in dir(ast) if isinstance(getattr(ast, kd), type) and issubclass(getattr(ast, kd), ast.expr)}
    for t, st, w in paths:
        pos = [x for x, v in st.conds if v and is_call(x, 'isinstance') and x[2][0] == ex]
        ok &= c.expect(bool(pos), 'ghostness', 'other expressions', f.loc(), 'are accepted (lines %s)' % w)
    for kd, ps in sorted(kinds.items()):
        for t, st, w in ps:
            if any(not v and is_call(x, 'isinstance') and x[2][0] == ex and kd in [show(y).split('.')[-1] for y in (
                    x[2][1][1] if x[2][1][0] in ('tuple', 'list') else (x[2][1],))] for x, v in st.conds):
                continue
            cs = st.conds
            if kd == 'Lambda':
                evs, end = contexts(st)
                ok &= c.expect(truth(t, cs) is True and end == CTX and any(callee_name(e) == 'check_for_call' and truth(cx, cs) for e, cx in evs if e[0] == 'call'),
                               'ghostness', kd, f.loc(), 'is not ghost code (lines %s)' % w)
                continue
            if kd == 'Call':
                r = me('check_call', ex)
                mixed = ('cmp', '==', ('item', r, 1), ('name', 'MIXED_RETURN'))
                known = [frozenset({(('item', r, 0), True)}), frozenset({(mixed, True), (norm_cond(('cmp', 'is', ('item', r, 1), ('const', True)), True)[0], False)})]
                for a in known:
                    ok &= c.expect(truth(t, with_(cs, *a) or a) is True, 'ghostness', kd, f.loc(), 'is regular with a ghost function or result (lines %s)' % w)
                isT = ('cmp', 'is', ('item', r, 1), ('const', True))
                ok &= c.expect(truth(t, with_(cs, (isT, True)) or cs) is True, 'ghostness', kd, f.loc(), 'is regular with a ghost result (lines %s)' % w)
                continue
            if kd == 'Attribute':
                for g in (me('is_receiver_ghost', ex), me('resolve_target_ghost', ex)):
                    cs2 = with_(cs, (g, True))
                    ok &= c.expect(cs2 is None or truth(t, cs2) is True, 'ghostness', kd, f.loc(), 'is regular although %s (lines %s)' % (show(g), w))
                continue
            if kd == 'Name':
                for g in (me('is_ghost_name', A(ex, 'id')), me('resolve_target_ghost', ex)):
                    cs2 = with_(cs, (g, True))
                    tv = any(v and 'type_vars' in show(x) for x, v in cs) and g[1][2] == 'resolve_target_ghost'
                    ok &= c.expect(cs2 is None or tv or truth(t, cs2) is True, 'ghostness', kd, f.loc(), 'is regular although %s (lines %s)' % (show(g), w))
                continue
            if kd in ('Constant', 'GeneratorExp'):
                continue
            if not c.expect(kd in EXPRS, 'ghostness', kd, f.loc(), 'is not known'):
                ok = False
                continue
            if kd.endswith('Comp'):
                one = [v for x, v in cs if x[0] == 'cmp' and x[1] == '==' and 'len(' in show(x) and 'generators' in show(x)]
                only = {show(x[2][1]).split('.')[-1] for x, v in cs if v and is_call(x, 'isinstance') and x[2][0] == ex and x[2][1][0] not in ('tuple', 'list')}
                if one == [False] or only - {kd}:
                    continue
            for path in EXPRS[kd]:
                part = part_of(ex, path)
                if kd == 'Subscript' and path == 'value' and any(v and 'get_subscript_name' in show(x) for x, v in cs):
                    continue
                if kd == 'Subscript' and path == 'slice' and any(v and x[0] == 'call' and 'ast.Tuple' in show(x) for x, v in cs):
                    part = E(A(ex, 'slice', 'elts'))
                if (('is_none', part), True) in cs:
                    continue
                ok &= c.expect(implied(t, part, cs, gh), 'ghostness', '%s.%s' % (kd, path), f.loc(), 'is ignored: the result is %s (lines %s)' % (show(t), w))
    many(len(kinds), 20)
    if ok:
        c.ok('ghostness', 'expressions')
    # elements
    g = k.method('is_ghost')
    x = ('param', g.params[1])
    gt = lambda t: me('is_ghost_type', t)
    ROWS = {'PythonVarBase': [[(A(x, 'is_ghost'), True)], [(gt(A(x, 'type')), True)]],
            'PythonField': [[(A(x, 'is_ghost'), True)], [(gt(A(x, 'type')), True)], [(A(x, 'cls', 'is_ghost'), True), (('is_none', A(x, 'cls')), False)]],
            'PythonMethod': [[(A(x, 'is_ghost'), True), (me('is_library_module', A(x, 'module')), False)]], 'PythonIOOperation': [[]], 'PythonType': [[(gt(x), True)]]}
    ok = True
    for kd, rows in ROWS.items():
        seen = False
        for t, st, w in k.paths(g.name):
            if not any(v and is_call(y, 'isinstance') and y[2][0] == x and kd in show(y[2][1]) for y, v in st.conds):
                continue
            seen = True
            for row in rows:
                cs = with_(st.conds, *row)
                ok &= c.expect(cs is None or truth(t, cs) is True, 'ghostness', kd, g.loc(), 'is regular although %s (lines %s)' % (
                    ' and '.join(show(y) for y, v in row if v), w))
        ok &= c.expect(seen, 'ghostness', kd, g.loc(), 'is not classified')
    for t, st, w in k.paths(g.name):
        if any(v and is_call(y, 'isinstance') and y[2][0] == x and show(y[2][1]) == 'ast.expr' for y, v in st.conds):
            ok &= c.expect(t == me('_is_expr_ghost', x), 'ghostness', 'expressions', g.loc(), 'are classified as %s (lines %s)' % (show(t), w))
    # types
    g = k.method('is_ghost_type')
    x = ('param', g.params[1])
    base = A(x, 'python_class')
    for t, st, w in k.paths(g.name):
        pos = {kd: [v for y, v in st.conds if is_call(y, 'isinstance') and y[2][0] == x and show(y[2][1]) == kd] for kd in ('UnionType', 'GenericType', 'PythonClass')}
        if True in pos['UnionType']:
            ok &= c.expect(implied(t, E(('call', A(x, 'get_types'), (), ())), st.conds, gt) or 'get_types' in show(t) and callee_path(t) == 'any', 'ghostness', 'unions', g.loc(), 'ignore ghost parts (lines %s)' % w)
            continue
        b = x
        if True in pos['GenericType']:
            b = base
            arg = [v for y, v in st.conds if 'type_args' in show(y) and is_call(y, 'any')]
            ok &= c.expect(bool(arg) and (arg != [True] or truth(t, st.conds) is True) or implied(t, E(A(x, 'type_args')), st.conds, gt), 'ghostness', 'generic types', g.loc(),
                           'ignore ghost type arguments (lines %s)' % w)
            if arg == [True]:
                continue
        cls = [v for y, v in st.conds if v and is_call(y, 'isinstance') and y[2][0] == b and show(y[2][1]) == 'PythonClass']
        if cls:
            for y in (A(b, 'is_ghost'), ('cmp', 'in', A(b, 'name'), ('name', 'ALL_GHOST_TYPE_NAMES'))):
                cs = with_(st.conds, (y, True))
                ok &= c.expect(cs is None or truth(t, cs) is True, 'ghostness', 'classes', g.loc(), 'are regular although %s (lines %s)' % (show(y), w))
    # targets
    g = k.method('resolve_target_ghost')
    x = ('param', g.params[1])
    tg = me('get_target', x, A(SELF, 'ctx'))
    for t, st, w in k.paths(g.name):
        if (('is_none', tg), True) in st.conds:
            ok &= c.expect(is_call(t, 'is_ghost_type'), 'ghostness', 'unresolved names', g.loc(), 'are not classified by their type (lines %s)' % w)
        else:
            cs = with_(st.conds, (gh(tg), True))
            ok &= c.expect(cs is None or truth(t, cs) is True, 'ghostness', 'names', g.loc(), 'are regular although they refer to a ghost element (lines %s)' % w)
            cs = with_(st.conds, (gh(tg), False))
            var = [v for y, v in st.conds if is_call(y, 'isinstance') and y[2][0] == tg and 'PythonVarBase' in show(y[2][1])]
    s2 = PathSim(g, raises=no_raise, want=lambda t: is_call(t, 'add'), noreturn=k.never)
    for t, st in s2.returns():
        if (gh(tg), False) in st.conds and any(v and is_call(y, 'isinstance') and 'PythonVarBase' in show(y[2][1]) for y, v in st.conds):
            ok &= c.expect(any(e[2] == (tg,) and e[1][1] == A(SELF, 'regular_vars') for e in st.events), 'ghostness', 'regular variables', g.loc(),
                           'are not remembered (lines %s)' % s2.where(st))
    if ok:
        c.ok('ghostness', 'elements')


def captures(c, k):
    c.rule('captures', 'ghost code only binds variables that no regular code uses, regular code does not bind ghost variables')
    g = k.method('make_ghost')
    ok = True
    var = ('param', g.params[1])
    for t, st, w in k.paths(g.name):
        used = [v for y, v in st.conds if y[0] == 'cmp' and y[1] == 'in' and y[2] == var]
        ok &= c.expect(truth(gh(var), st.conds) is True or used == [False], 'captures', g.qual, g.loc(), 'accepts regular variables that have been used (lines %s)' % w)
        v = last_set(st, var, 'is_ghost')
        ok &= c.expect(v is not None and truth(v, st.conds) is True, 'captures', g.qual, g.loc(), 'does not make the variable ghost (lines %s)' % w)
    # loops
    f = k.method('visit_For')
    it = gh(A(N, 'iter'))
    defs = {n.name: n for n in ast.walk(f.node) if isinstance(n, ast.FunctionDef) and n is not f.node}

    def makes(t):
        if t[0] == 'def' and t[1] in defs:
            d = defs[t[1]]
            return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'make_ghost' and n.args and
                       isinstance(n.args[0], ast.Name) and n.args[0].id == d.args.args[0].arg for n in ast.walk(d))
        return t[0] == 'lambda' and 'make_ghost' in show(t)
    for ghost in (True, False):
        for asm in ([(it, True)], [(CTX, True), (it, False)]) if ghost else ([(CTX, False), (it, False)],):
            for t, st, w, cs in compat(k, 'visit_For', *asm):
                cv = [(x, v) for x, v in st.conds if is_call(x, 'call_on_vars') and x[2][0] == A(N, 'target')]
                ev = [e for e in st.events if is_call(e, 'call_on_vars') and e[2][0] == A(N, 'target')]
                direct = True
                if ghost:
                    ok &= c.expect(any(v for x, v in cv), 'captures', 'For', f.loc(), 'with a ghost target that is no variable is accepted (lines %s)' % w)
                    ok &= c.expect(bool(ev) and all(makes(e[2][1]) for e in ev), 'captures', 'For', f.loc(), 'does not make its variables ghost (lines %s)' % w)
                else:
                    ok &= c.expect(bool(ev) and not any(makes(e[2][1]) for e in ev), 'captures', 'For', f.loc(), 'does not check its variables (lines %s)' % w)
                    for e in ev:
                        if e[2][1][0] == 'def':
                            d = defs[e[2][1][1]]
                            s3 = PathSim(f, node=d, env={'self': SELF}, raises=no_raise)
                            y = ('param', d.args.args[0].arg)
                            for t3, st3 in s3.returns():
                                ok &= c.expect((A(y, 'is_ghost'), False) in st3.conds or (gh(y), False) in st3.conds, 'captures', 'For', f.loc(),
                                               'of a regular collection may bind ghost variables (lines %s)' % s3.where(st3))
    g = k.method('call_on_vars')
    x, fn = ('param', g.params[1]), ('param', g.params[2])
    s4 = PathSim(g, raises=no_raise, want=lambda t: t[0] == 'call', noreturn=k.never)
    for t, st in s4.returns():
        inst = lambda kd: any(v and is_call(y, 'isinstance') and y[2][0] == x and kd in show(y[2][1]) for y, v in st.conds)
        if truth(t, st.conds) is False:
            continue
        if inst('Starred'):
            good = t == me('call_on_vars', A(x, 'value'), fn)
        elif inst('Tuple'):
            good = t[0] == 'call' and callee_path(t) == 'all' and me('call_on_vars', E(A(x, 'elts')), fn) in set(subterms(t)) and all(not ifs for y in subterms(t) if y[0] == 'map' for _, ifs in y[2])
        else:
            good = any(e[0] == 'call' and e[1] == fn for e in st.events) and any(v and 'PythonVarBase' in show(y) for y, v in st.conds)
        ok &= c.expect(good, 'captures', g.qual, g.loc(), 'does not reach all variables (lines %s)' % s4.where(st))
    # match
    f = k.method('visit_Match')
    sg = gh(A(N, 'subject'))
    case = E(A(N, 'cases'))
    caps = me('get_captured_vars', A(case, 'pattern'))
    for asm, ghost in (([(sg, True)], True), ([(CTX, True), (sg, False)], True), ([(CTX, False), (sg, False)], False)):
        for t, st, w, cs in compat(k, 'visit_Match', *asm):
            if ('iter', A(N, 'cases')) not in st.events:
                continue
            if ('iter', caps) in st.events:
                made = any(is_call(e, 'make_ghost') and e[2][0] == E(caps) for e in st.events)
                if ghost:
                    ok &= c.expect(made, 'captures', 'Match', f.loc(), 'does not make its captures ghost (lines %s)' % w)
                else:
                    ok &= c.expect(not made and truth(gh(E(caps)), st.conds) is False, 'captures', 'Match', f.loc(), 'of a regular value may capture into ghost variables (lines %s)' % w)
            else:
                ok &= c.expect(('exhausted', caps) in st.events, 'captures', 'Match', f.loc(), 'does not look at its captures (lines %s)' % w)
            if not ghost:
                for bad in (me('is_pattern_ghost', A(case, 'pattern')), gh(A(case, 'guard'))):
                    good = truth(bad, st.conds) is False or bad[1][2] == 'is_ghost' and (('is_none', A(case, 'guard')), True) in st.conds
                    ok &= c.expect(good, 'captures', 'Match', f.loc(), 'of a regular value may depend on a ghost pattern or guard (lines %s)' % w)
    if ok:
        c.ok('captures', 'bindings')


def functions(c, k):
    c.rule('functions', 'the bodies of functions and classes are checked as what they are, defaults and variadic parameters are regular')
    f = k.method('visit_FunctionDef')
    cls = {}
    ok, n = True, 0

    def rel(t):
        s = show(t)
        return any(x in s for x in ('is_ghost', 'is_assignable', 'vararg', 'kwarg', 'in_ghost_ctx', 'default', 'DECORATOR', 'contract'))

    def want(t):
        return t[0] in ('iter', 'exhausted') and ('.body' in show(t[1]) or '.args.values' in show(t[1])) or t[0] == 'set' and t[2] == 'in_ghost_ctx' or is_call(t, 'visit') or is_call(t, 'mark_ghost')
    sim = PathSim(f, raises=no_raise, loops=True, repeat=True, want=want, relevant=rel, noreturn=k.never, env={f.params[1]: N})
    body = A(N, 'body')
    for t, st in sim.returns():
        w = lambda: sim.where(st)
        n += 1
        if any(e == me('mark_ghost', N) for e in st.events):
            continue
        evs, end = contexts(st)
        ok &= end == CTX or c.expect(False, 'functions', 'context of functions', f.loc(), 'is not restored (lines %s)' % w())
        fg = None
        for e, cx in evs:
            if e == me('visit', E(body)):
                fg = cx
                ok &= cx != CTX and cx[0] == 'attr' and cx[2] == 'is_ghost' or c.expect(False, 'functions', 'bodies', f.loc(), 'are checked with the context %s (lines %s)' % (show(cx), w()))
        marked = me('mark_ghost', E(body)) in st.events
        ok &= ('exhausted', body) in st.events or c.expect(False, 'functions', 'bodies', f.loc(), 'are not checked (lines %s)' % w())
        if ('iter', body) in st.events:
            ok &= fg is not None or marked and any(v and ('contract' in show(y).lower()) for y, v in st.conds) or c.expect(
                False, 'functions', 'bodies', f.loc(), 'are not checked (lines %s)' % w())
        ghost = [v for y, v in st.conds if y[0] == 'attr' and y[2] == 'is_ghost' and y[1][0] != 'elem']
        for a in ('vararg', 'kwarg'):
            x = A(N, 'args', a)
            if ghost and ghost[0]:
                good = (('is_none', x), True) in st.conds
            else:
                good = (('is_none', x), True) in st.conds or (('is_none', A(x, 'annotation')), True) in st.conds or (me('check_annotation', A(x, 'annotation')), False) in st.conds
            ok &= good or c.expect(False, 'functions', 'variadic parameters', f.loc(), 'may be ghost (lines %s)' % w())
        for e in st.events:
            if e[0] == 'iter' and '.args.values' in show(e[1]):
                d = A(E(e[1]), 'default')
                ok &= (('is_none', d), True) in st.conds or assigned(st.conds, d, E(e[1])) or c.expect(
                    False, 'functions', 'default values', f.loc(), 'are not compared with their parameter (lines %s)' % w())
        if ghost and not ghost[0]:
            ok &= any(e[0] == 'exhausted' and '.args.values' in show(e[1]) for e in st.events) or c.expect(
                False, 'functions', 'default values', f.loc(), 'are not checked (lines %s)' % w())
        if not ok:
            break
    many(n, 10)
    f = k.method('visit_ClassDef')
    for t, st, w in k.paths(f.name):
        evs, end = contexts(st)
        ok &= c.expect(end == CTX, 'functions', 'context of classes', f.loc(), 'is not restored (lines %s)' % w)
        for e, cx in evs:
            if e == me('visit', E(body)):
                ok &= c.expect(cx[0] == 'attr' and cx[2] == 'is_ghost', 'functions', 'classes', f.loc(), 'are checked with the context %s (lines %s)' % (show(cx), w))
        ok &= c.expect(('exhausted', body) in st.events, 'functions', 'classes', f.loc(), 'are not checked (lines %s)' % w)
        sup = [v for y, v in st.conds if y[0] == 'cmp' and 'superclass' in show(y)]
        ok &= c.expect(True in sup, 'functions', 'base classes', f.loc(), 'may be ghost for a regular class (lines %s)' % w)
    if ok:
        c.ok('functions', 'definitions')


def declared(c, k, p):
    c.rule('declared', 'declarations in ghost code or with a ghost type, and marked definitions, are ghost')
    an = klass(p, 'Analyzer')
    d = an.methods['defines_ghost']
    x = ('param', d.params[1])
    sim = PathSim(d, raises=no_raise, want=lambda t: False)
    ok = True
    cc, cf = A(SELF, 'current_class'), A(SELF, 'current_function')
    ingc = [(('is_none', cc), False), (A(cc, 'is_ghost'), True)]
    ingf = [(('is_none', cf), False), (A(cf, 'is_ghost'), True)]
    ann = [(me('is_ghost_annotation', A(x, 'annotation')), True)]
    rows = {'FunctionDef': [ingc], 'arg': [ingc, ingf, ann], 'AnnAssign': [ingc, ingf, ann], 'Assign': [ingc, ingf], 'ClassDef': []}
    for kd, rs in rows.items():
        seen = False
        for t, st in sim.returns():
            inst = [y for y, v in st.conds if v and is_call(y, 'isinstance') and y[2][0] == x and kd in [show(z).split('.')[-1] for z in (y[2][1][1] if y[2][1][0] in ('tuple', 'list') else (y[2][1],))]]
            if not inst:
                continue
            seen = True
            for r in rs:
                cs = with_(st.conds, *r)
                ok &= c.expect(cs is None or truth(t, cs) is True, 'declared', kd, d.loc(), 'is regular although %s (lines %s)' % (' and '.join(show(y) for y, v in r if v), sim.where(st)))
            if kd in ('ClassDef', 'FunctionDef'):
                marks = [y for y in subterms(t) if y[0] == 'cmp' and y[1] == 'in' and y[2] == ('const', 'Ghost')]
                marks += [y for y, v in st.conds if v and y[0] == 'cmp' and y[2] == ('const', 'Ghost')]
                cs = with_(st.conds, (marks[0], True)) if marks else None
                ok &= c.expect(truth(t, st.conds) is True or bool(marks) and (cs is None or truth(t, cs) is True), 'declared', kd, d.loc(), 'is not ghost when it is marked (lines %s)' % sim.where(st))
        ok &= c.expect(seen, 'declared', kd, d.loc(), 'is not handled')
    # users
    for m, target in (('visit_ClassDef', None), ('visit_arg', None), ('visit_Assign', 'set_ghost_if_var'), ('visit_AnnAssign', 'set_ghost_if_var')):
        f = an.methods.get(m)
        if not c.expect(f is not None, 'declared', m, d.loc(), 'is missing'):
            ok = False
            continue
        nd = ('param', f.params[1])
        dg = me('defines_ghost', nd)
        s2 = PathSim(f, raises=no_raise, loops=True, want=lambda t: t[0] in ('iter', 'exhausted') or t[0] == 'set' and t[2] == 'is_ghost' or is_call(t, 'set_ghost_if_var') or is_call(t, 'visit_default'),
                     relevant=lambda t: 'defines_ghost' in show(t))
        for t, st in s2.returns():
            if target is None:
                sets = [e for e in st.events if e[0] == 'set' and e[2] == 'is_ghost']
                good = any(e[3] == dg for e in sets)
            else:
                if not any(is_call(e, 'visit_default') for e in st.events):
                    continue
                dst = E(A(nd, 'targets')) if m == 'visit_Assign' else A(nd, 'target')
                good = (dg, False) in st.conds or any(e == me(target, dst) for e in st.events) or dst[0] == 'elem' and ('iter', dst[1]) not in st.events and ('exhausted', dst[1]) in st.events
            ok &= c.expect(good, 'declared', m, f.loc(), 'does not record whether it declares a ghost element (lines %s)' % s2.where(st))
    f = an.methods['visit_FunctionDef']
    news = [n for n in ast.walk(f.node) if isinstance(n, ast.Attribute) and n.attr == 'is_ghost' and isinstance(n.ctx, ast.Store)]
    s2 = PathSim(f, raises=no_raise, want=lambda t: t[0] == 'set' and t[2] in ('is_ghost',) or is_call(t, 'create_python_method') or t[0] == 'set' and t[2] == 'node', relevant=lambda t: False)
    for t, st in s2.returns():
        if any(is_call(e, 'create_python_method') or e[0] == 'set' and e[2] == 'node' and e[3] == ('param', f.params[1]) for e in st.events):
            ok &= c.expect(any(e[0] == 'set' and e[2] == 'is_ghost' and e[3] == me('defines_ghost', ('param', f.params[1])) for e in st.events), 'declared', 'visit_FunctionDef', f.loc(),
                           'does not record whether it declares a ghost element (lines %s)' % s2.where(st))
    if ok:
        c.ok('declared', 'declarations')


def iteration(loop):
    """A function that does what one iteration of the loop does."""
    class R(ast.NodeTransformer):
        def visit_Continue(self, n):
            return ast.copy_location(ast.Return(value=None), n)

        def visit_For(self, n):
            return n
        visit_While = visit_For
    body = [R().visit(clone(x)) for x in loop.body]
    fn = ast.FunctionDef(name='iteration', args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=loop.target.id)], kwonlyargs=[], kw_defaults=[], defaults=[]),
                         body=body, decorator_list=[], type_params=[])
    return ast.fix_missing_locations(ast.copy_location(fn, loop))


def growing(g, name, asm):
    """Whether a flag that is computed in loops is true if the assumption holds: it starts true and is never reset."""
    loops = [n for n in ast.walk(g.node) if isinstance(n, (ast.For, ast.While))]
    inside = {id(x) for l in loops for x in ast.walk(l)}
    ev = PathSim(g, raises=no_raise).ev
    start = False
    for n in ast.walk(g.node):
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == name:
            if not isinstance(n.op, ast.BitOr):
                return False
        elif isinstance(n, ast.Assign) and any(isinstance(x, ast.Name) and x.id == name for x in n.targets):
            keeps = isinstance(n.value, ast.Constant) and n.value.value is True or isinstance(n.value, ast.BoolOp) and isinstance(n.value.op, ast.Or) and any(
                isinstance(x, ast.Name) and x.id == name for x in n.value.values)
            if id(n) in inside:
                if not keeps:
                    return False
            else:
                t = ev.ev(n.value, {q: ('param', q) for q in g.all_params}, frozenset())[0][0]
                if truth(t, frozenset(asm)) is True:
                    start = True
                elif not keeps:
                    return False
    return start


def pipeline(c, k, p):
    c.rule('pipeline', 'every program is checked before it is extracted or translated; ghost statements have to terminate')
    f = p.func(NT + 'main', 'translate')
    sim = PathSim(f, raises=no_raise, want=lambda t: t[0] == 'call' and (callee_name(t) in ('check', 'translate_program') or t[1][0] == 'attr' and t[1][2] == 'process' and 'Extractor' in show(t)), relevant=lambda t: False)
    ok, n = True, 0
    for t, st in sim.returns():
        evs = [(callee_name(e), e) for e in st.events]
        names = [x for x, _ in evs]
        chk = [i for i, (x, e) in enumerate(evs) if x == 'check' and 'GhostChecker' in show(e)]
        for i, x in enumerate(names):
            if x in ('translate_program', 'process'):
                n += 1
                ok &= c.expect(bool(chk) and chk[0] < i, 'pipeline', x, f.loc(), 'happens without the check (lines %s)' % sim.where(st))
                for j in chk:
                    arg = [y for y in subterms(evs[j][1]) if y[0] == 'call' and callee_path(y).endswith('GhostChecker')]
                    mods = [a for e in (evs[i][1],) for y in subterms(e) if y[0] == 'call' for a in y[2]]
                    ok &= c.expect(bool(arg) and arg[0][2][0] in mods, 'pipeline', x, f.loc(), 'gets other modules than the check')
    ok &= c.expect(n > 0, 'pipeline', f.qual, f.loc(), 'does not translate')
    g = k.method('check')
    mods = A(SELF, 'modules')
    for t, st, w in k.paths('check'):
        its = [e[1] for e in st.events if e[0] == 'exhausted']
        ok &= c.expect(any(x == ('sub', mods, ('slice', ('const', 1), ('const', None), ('const', None))) or x == mods for x in its), 'pipeline', g.qual, g.loc(), 'does not check all modules (lines %s)' % w)
        for e, cx in contexts(st)[0]:
            if is_call(e, 'visit'):
                ok &= c.expect(truth(cx, st.conds) is False, 'pipeline', g.qual, g.loc(), 'does not start with regular code (lines %s)' % w)
    for loop in [n for n in ast.walk(g.node) if isinstance(n, ast.For) and isinstance(n.target, ast.Name)]:
        m = ('param', loop.target.id)
        s2 = PathSim(g, node=iteration(loop), env={'self': SELF}, raises=no_raise, want=lambda t: is_call(t, 'visit'))
        for t, st in s2.returns():
            skip = any(v and (y == ('is_none', A(m, 'node')) or y == me('is_library_module', m) or y[0] == 'cmp' and y[1] == 'in' and is_call(y[2], 'id')) for y, v in st.conds)
            ok &= c.expect(skip or me('visit', A(m, 'node')) in st.events, 'pipeline', g.qual, g.loc(), 'does not check a module (lines %s)' % s2.where(st))
    # termination
    g = k.method('needs_terminating_section')
    x = ('param', g.params[1])
    exempt = {'FunctionDef', 'AsyncFunctionDef', 'ClassDef', 'Import', 'ImportFrom', 'Pass', 'Assert', 'Global', 'Nonlocal'}
    for t, st, w in k.paths(g.name):
        if truth(t, st.conds) is not False:
            continue
        flag = any(not v and 'is_ghost' in show(y) for y, v in st.conds)
        kinds = [show(z).split('.')[-1] for y, v in st.conds if v and is_call(y, 'isinstance') and y[2][0] == x for z in (y[2][1][1] if y[2][1][0] in ('tuple', 'list') else (y[2][1],))]
        spec = any(v and y[0] == 'cmp' and y[1] == 'in' and 'ALL_CONTRACT_ELEMS' in show(y[3]) for y, v in st.conds)
        ok &= c.expect(flag or bool(kinds) and set(kinds) <= exempt or kinds == ['Expr'] and spec, 'pipeline', g.qual, g.loc(),
                       'does not require ghost statements to terminate (%s, lines %s)' % (', '.join(kinds), w))
    v = k.method('visit')
    s2 = PathSim(v, raises=no_raise, want=lambda t: t[0] == 'set')
    nd = ('param', v.params[1])
    for t, st in s2.returns():
        if any(b and is_call(y, 'isinstance') and y[2][0] == nd and show(y[2][1]) == 'ast.stmt' for y, b in st.conds):
            got = last_set(st, nd, 'needs_terminating_section')
            ok &= c.expect(got == me('needs_terminating_section', nd), 'pipeline', v.qual, v.loc(), 'does not record which statements have to terminate')
    if ok:
        c.ok('pipeline', 'order')


def many(n, least):
    if n < least:
        raise AnalysisError('only %d paths or kinds instead of %d: the anchor has vanished' % (n, least))


def main(c):
    p = c.project
    k = Checker(c, p)
    regular(c, k)
    bodies(c, k)
    assignable(c, k)
    assign(c, k)
    delete(c, k)
    returns(c, k)
    calls(c, k)
    ghostness(c, k)
    captures(c, k)
    functions(c, k)
    declared(c, k, p)
    pipeline(c, k, p)


if __name__ == '__main__':
    run('C21', 'Ghost code cannot influence regular code', main)

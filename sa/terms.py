"""
Abstract evaluation of small functions to terms: each way of leaving the function gives
(conditions, outcome), where outcome is ('ret', term) or ('raise', term) and conditions is a
frozenset of (condition term, bool).  Loops are summarised by havocking what they assign.
No values are computed; terms only record how a result is put together from parameters.
"""
import ast
from .project import dotted, AnalysisError


class Limit(Exception):
    pass


def boolean(t):
    """Terms that are True or False."""
    return t[0] in ('not', 'cmp', 'is_none') or t[0] == 'call' and t[1][0] == 'name' and t[1][1] in (
        'isinstance', 'issubclass', 'hasattr', 'callable', 'bool', 'any', 'all')


def norm_cond(t, val):
    """Normalises a condition term."""
    while True:
        if t[0] == 'not':
            t, val = t[1], not val
            continue
        if t[0] == 'cmp':
            op, l, r = t[1], t[2], t[3]
            if op in ('is', 'is not', '==', '!=') and r == ('const', None):
                return ('is_none', l), val == (op in ('is', '=='))
            if op in ('is', 'is not', '==', '!=') and l == ('const', None):
                return ('is_none', r), val == (op in ('is', '=='))
            if op in ('is', 'is not', '==', '!=') and r in (('const', True), ('const', False)) and type(
                    r[1]) is bool and boolean(l):
                t, val = l, (val == r[1]) == (op in ('is', '=='))
                continue
            if op == '!=':
                return ('cmp', '==', l, r), not val
            if op == 'is not':
                return ('cmp', 'is', l, r), not val
            if op == 'not in':
                return ('cmp', 'in', l, r), not val
        return t, val


OPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=',
       ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}


class TermEval:
    def __init__(self, fi, env=None, limit=4000, resolve=None, simp=None, params=True):
        self.fi = fi
        self.simp_hook = simp        # optional term -> term (applied to calls, subscripts, tests)
        self.first_loops = []
        self.loops = []              # (stmt, entry env, [(env, conds, effects) after the body])
        self.limit = limit
        self.count = 0
        self.resolve = resolve       # optional hook(call term parts) -> term or None
        self.effects = []            # (conds, term) of expression statements, in order
        env = dict(env or {})
        for p in fi.all_params:
            env.setdefault(p, ('param', p))
        self.paths = []
        self.run(fi.node.body, env, frozenset(), (), self._end)

    def _end(self, env, conds, effects):
        self.paths.append((conds, ('ret', ('const', None)), effects, env))

    def simp(self, t):
        return self.simp_hook(t) if self.simp_hook is not None else t

    def tick(self):
        self.count += 1
        if self.count > self.limit:
            raise AnalysisError('term evaluation of %s exceeded its limit' % self.fi.qual)

    # ------------------------------------------------------------ statements
    def run(self, stmts, env, conds, eff, k):
        self.tick()
        if not stmts:
            return k(env, conds, eff)
        s, rest = stmts[0], stmts[1:]
        nxt = lambda e, c, f: self.run(rest, e, c, f, k)
        if isinstance(s, ast.Return):
            if s.value is None:
                self.paths.append((conds, ('ret', ('const', None)), eff, env))
                return
            for t, c in self.ev(s.value, env, conds):
                self.paths.append((c, ('ret', t), eff, env))
            return
        if isinstance(s, ast.Raise):
            t = ('const', None)
            if s.exc is not None:
                for t, c in self.ev(s.exc, env, conds):
                    self.paths.append((c, ('raise', t), eff, env))
                return
            self.paths.append((conds, ('raise', t), eff, env))
            return
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            if s.value is None:
                return nxt(env, conds, eff)
            for t, c in self.ev(s.value, env, conds):
                e2, f2 = dict(env), eff
                for tg in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                    f2 = self.bind(tg, t, e2, c, f2)
                nxt(e2, c, f2)
            return
        if isinstance(s, ast.AugAssign):
            for t, c in self.ev(s.value, env, conds):
                e2 = dict(env)
                cur = [x for x, _ in self.ev(_load(s.target), env, c)][0]
                new = cat(cur, t) if isinstance(s.op, ast.Add) and (is_listish(cur) or is_listish(t)) \
                    else ('op', type(s.op).__name__, cur, t)
                f2 = self.bind(s.target, new, e2, c, eff)
                nxt(e2, c, f2)
            return
        if isinstance(s, ast.If):
            for b, c in self.cond(s.test, env, conds):
                self.run((s.body if b else s.orelse), dict(env), c, eff, nxt)
            return
        if isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Constant):
                return nxt(env, conds, eff)
            v = s.value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and \
                    isinstance(v.func.value, ast.Name) and len(v.args) == 1 and not v.keywords and \
                    v.func.attr in ('append', 'extend') and \
                    is_listish(env.get(v.func.value.id)):
                for t, c in self.ev(v.args[0], env, conds):
                    e2 = dict(env)
                    cur = env[v.func.value.id]
                    e2[v.func.value.id] = cat(cur, ('list', (t,)) if v.func.attr == 'append' else t)
                    nxt(e2, c, eff)
                return
            for t, c in self.ev(s.value, env, conds):
                nxt(env, c, eff + (t,))
            return
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            e2 = dict(env)
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    e2[n.id] = ('loop', n.id)
                elif isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, ast.Store):
                    e2.pop('.' + (dotted(n) or ''), None)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                        isinstance(n.func.value, ast.Name) and n.func.attr in (
                            'append', 'extend', 'insert', 'add', 'update', 'pop', 'remove') and \
                        n.func.value.id in e2 and e2[n.func.value.id][0] != 'param':
                    e2[n.func.value.id] = ('loop', n.func.value.id)
            # the body is evaluated once, from an arbitrary iteration
            e3 = dict(e2)
            ends = []
            if isinstance(s, ast.While):
                starts = [c for b, c in self.cond(s.test, e3, conds) if b]
                it = None
            else:
                it = self.ev(s.iter, env, conds)[0][0]
                self.bind(s.target, elem_of(it), e3, conds, ())
                starts = [conds]
            for c0 in starts:
                self.run(s.body, dict(e3), c0, eff + (('loopbody',),),
                         lambda e, c, f: ends.append((e, c, f)))
            self.loops.append((s, it, e3, ends))
            # a list filled by appending one thing per element is a comprehension
            if it is not None and len(ends) == 1 and ends[0][1] == conds:
                for n, v in list(e2.items()):
                    if v == ('loop', n) and env.get(n) == ('list', ()):
                        w = ends[0][0].get(n)
                        if w and w[0] == 'op' and w[1] == 'Add' and w[2] == v and \
                                v not in set(subterms(w[3])):
                            if w[3][0] == 'list' and len(w[3][1]) == 1:
                                e2[n] = ('map', w[3][1][0], ((it, ()),))
                            else:
                                e2[n] = ('concat', w[3], ((it, ()),))
            if not any(l[0] is s for l in self.loops[:-1]):
                self.first_loops.append(self.loops[-1])
            return self.run(s.orelse, e2, conds, eff + (('loop', s),), nxt)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            e2 = dict(env)
            for it in s.items:
                for t, c in self.ev(it.context_expr, env, conds)[:1]:
                    eff = eff + (('with', t),)
                    if it.optional_vars is not None:
                        self.bind(it.optional_vars, ('enter', t), e2, c, eff)
            return self.run(s.body, e2, conds, eff, nxt)
        if isinstance(s, ast.Try):
            def fin(e, c, f):
                self.run(s.finalbody, e, c, f, nxt)
            self.run(s.body + s.orelse, dict(env), conds, eff, fin)
            e2 = dict(env)
            for n in ast.walk(ast.Module(s.body, [])):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    e2[n.id] = ('maybe', n.id)
            for h in s.handlers:
                e3 = dict(e2)
                if h.name:
                    e3[h.name] = ('exc', h.name)
                self.run(h.body, e3, conds | {(('handler', ast.unparse(h.type) if h.type else ''), True)},
                         eff, fin)
            return
        if isinstance(s, (ast.Break, ast.Continue)):
            return k(env, conds, eff)
        if isinstance(s, ast.Assert):
            for b, c in self.cond(s.test, env, conds):
                if b:
                    nxt(env, c, eff)
            return
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            e2 = dict(env)
            e2[s.name] = ('def', s.name)
            return nxt(e2, conds, eff)
        return nxt(env, conds, eff)

    def bind(self, tg, t, env, conds, eff):
        if isinstance(tg, ast.Name):
            env[tg.id] = t
        elif isinstance(tg, (ast.Tuple, ast.List)):
            if t[0] in ('tuple', 'list') and len(t[1]) == len(tg.elts) and not any(
                    isinstance(x, ast.Starred) for x in tg.elts):
                for x, y in zip(tg.elts, t[1]):
                    eff = self.bind(x, y, env, conds, eff)
            else:
                for i, x in enumerate(tg.elts):
                    if isinstance(x, ast.Starred):
                        x = x.value
                    eff = self.bind(x, ('item', t, i), env, conds, eff)
        elif isinstance(tg, (ast.Attribute, ast.Subscript)):
            d = dotted(tg)
            base = [x for x, _ in self.ev(tg.value, env, conds)][0]
            if isinstance(tg, ast.Attribute):
                eff = eff + (('set', base, tg.attr, t),)
                if d:
                    env['.' + d] = t
            else:
                idx = [x for x, _ in self.ev(tg.slice, env, conds)][0]
                eff = eff + (('setitem', base, idx, t),)
        return eff

    # ----------------------------------------------------------- conditions
    def cond(self, e, env, conds):
        """[(bool, conds)]"""
        self.tick()
        if isinstance(e, ast.BoolOp):
            out = [(isinstance(e.op, ast.And), conds)]
            res = []
            for i, v in enumerate(e.values):
                new = []
                for b, c in out:
                    for b2, c2 in self.cond(v, env, c):
                        short = b2 != isinstance(e.op, ast.And)
                        if short or i == len(e.values) - 1:
                            res.append((b2, c2))
                        else:
                            new.append((b2, c2))
                out = new
            return res
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(not b, c) for b, c in self.cond(e.operand, env, conds)]
        res = []
        for t, c in self.ev(e, env, conds):
            res += self.truth(t, c)
        return res

    def truth(self, t, c):
        """[(bool, conds)] for a term that is tested."""
        if t[0] == 'cmp' and t[2][0] == t[3][0] == 'const' and t[1] in ('==', '!=', 'is', 'is not'):
            return [((t[2][1] == t[3][1]) == (t[1] in ('==', 'is')), c)]
        if t[0] in ('class', 'list', 'tuple') and not (t[0] != 'class' and not t[1]):
            return [(True, c)]
        if t[0] == 'const':
            return [(bool(t[1]), c)]
        if t[0] == 'not':
            return [(not b, c2) for b, c2 in self.truth(t[1], c)]
        if t[0] == 'bool' and t[2]:
            both = t[1] == 'and'
            out, res = [c], []
            for i, x in enumerate(t[2]):
                new = []
                for c1 in out:
                    for b, c2 in self.truth(x, c1):
                        if b != both or i == len(t[2]) - 1:
                            res.append((b, c2))
                        else:
                            new.append(c2)
                out = new
            return res
        res = []
        for b in (True, False):
            nt, nv = norm_cond(t, b)
            if (nt, not nv) in c:
                continue
            res.append((b, c | {(nt, nv)}))
        return res

    # ---------------------------------------------------------- expressions
    def ev(self, e, env, conds):
        """[(term, conds)]"""
        self.tick()
        if e is None:
            return [(('const', None), conds)]
        if isinstance(e, ast.Constant):
            return [(('const', e.value), conds)]
        if isinstance(e, ast.Name):
            return [(env.get(e.id, ('name', e.id)), conds)]
        if isinstance(e, ast.Attribute):
            d = dotted(e)
            if d and '.' + d in env:
                return [(env['.' + d], conds)]
            return [(self.simp(('attr', b, e.attr)), c) for b, c in self.ev(e.value, env, conds)]
        if isinstance(e, ast.IfExp):
            out = []
            for b, c in self.cond(e.test, env, conds):
                out += self.ev(e.body if b else e.orelse, env, c)
            return out
        if isinstance(e, ast.BoolOp):
            outs = self.many(e.values, env, conds)
            return [(('bool', 'and' if isinstance(e.op, ast.And) else 'or', ts), c) for ts, c in outs]
        if isinstance(e, ast.UnaryOp):
            if isinstance(e.op, ast.Not):
                return [(('not', t), c) for t, c in self.ev(e.operand, env, conds)]
            return [(('unop', type(e.op).__name__, t), c) for t, c in self.ev(e.operand, env, conds)]
        if isinstance(e, ast.BinOp):
            outs = self.many([e.left, e.right], env, conds)
            res = []
            for (l, r), c in outs:
                if isinstance(e.op, ast.Add) and (is_listish(l) or is_listish(r)):
                    res.append((cat(l, r), c))
                else:
                    res.append((('op', type(e.op).__name__, l, r), c))
            return res
        if isinstance(e, ast.Compare):
            outs = self.many([e.left] + e.comparators, env, conds)
            res = []
            for ts, c in outs:
                if len(e.ops) == 1:
                    res.append((self.simp(('cmp', OPS[type(e.ops[0])], ts[0], ts[1])), c))
                else:
                    res.append((('cmps', tuple(OPS[type(o)] for o in e.ops), ts), c))
            return res
        if isinstance(e, (ast.Tuple, ast.List)):
            kind = 'tuple' if isinstance(e, ast.Tuple) else 'list'
            return [((kind, ts), c) for ts, c in self.many(e.elts, env, conds)]
        if isinstance(e, ast.Set):
            return [(('set', ts), c) for ts, c in self.many(e.elts, env, conds)]
        if isinstance(e, ast.Dict):
            ks = self.many([k for k in e.keys if k is not None], env, conds)
            out = []
            for kt, c in ks:
                for vt, c2 in self.many(e.values, env, c):
                    keys, pairs = list(kt), []
                    for k, v in zip(e.keys, vt):
                        if k is not None:
                            pairs.append((keys.pop(0), v))
                        elif v[0] == 'dict':
                            pairs += v[1]
                        else:
                            pairs.append((('star',), v))
                    out.append((('dict', tuple(pairs)), c2))
            return out
        if isinstance(e, ast.Starred):
            return [(('star', t), c) for t, c in self.ev(e.value, env, conds)]
        if isinstance(e, ast.Subscript):
            return [(self.simp(_sub(ts[0], ts[1])), c) for ts, c in
                    self.many([e.value, e.slice], env, conds)]
        if isinstance(e, ast.Slice):
            return [(('slice',) + ts, c) for ts, c in
                    self.many([e.lower, e.upper, e.step], env, conds)]
        if isinstance(e, ast.Call):
            out = []
            for f, c in self.ev(e.func, env, conds):
                for args, c2 in self.many(e.args, env, c):
                    for kws, c3 in self.many([k.value for k in e.keywords], env, c2):
                        pairs = []
                        for k, v in zip([k.arg for k in e.keywords], kws):
                            if k is None and v[0] == 'dict' and all(
                                    x[0] == 'const' and isinstance(x[1], str) for x, _ in v[1]):
                                pairs += [(x[1], y) for x, y in v[1]]
                            else:
                                pairs.append((k, v))
                        t = ('call', f, args, tuple(pairs))
                        if f == ('name', 'dict') and not args and all(k.arg for k in e.keywords):
                            t = ('dict', tuple((('const', n), v) for n, v in t[3]))
                        if self.resolve is not None:
                            r = self.resolve(t, e)
                            if r is not None:
                                t = r
                        out.append((self.simp(t), c3))
            return out
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            e2 = dict(env)
            its = []
            for i, g in enumerate(e.generators):
                it = self.ev(g.iter, e2, conds)[0][0]
                self.bind(g.target, elem_of(it), e2, conds, ())
                its.append((it, tuple(self.ev(x, e2, conds)[0][0] for x in g.ifs)))
            elt = self.ev(e.elt, e2, conds)
            if len(elt) == 1:
                return [(('map', elt[0][0], tuple(its)), conds)]
            return [(('map', ('ite', tuple((tuple(sorted(map(repr, c - conds))), t) for t, c in elt)),
                      tuple(its)), conds)]
        if isinstance(e, ast.JoinedStr):
            ts = []
            for v in e.values:
                if isinstance(v, ast.Constant):
                    ts.append(('const', v.value))
                else:
                    ts.append(self.ev(v.value, env, conds)[0][0])
            return [(('fstr', tuple(ts)), conds)]
        if isinstance(e, ast.NamedExpr):
            out = self.ev(e.value, env, conds)
            if len(out) == 1 and isinstance(e.target, ast.Name):
                env[e.target.id] = out[0][0]
            return out
        if isinstance(e, (ast.Await, ast.YieldFrom)):
            return self.ev(e.value, env, conds)
        if isinstance(e, ast.Yield):
            return [(('yield', t), c) for t, c in self.ev(e.value, env, conds)]
        if isinstance(e, ast.Lambda):
            return [(('lambda', ast.unparse(e)), conds)]
        return [(('unknown', ast.dump(e)), conds)]

    def many(self, es, env, conds):
        out = [((), conds)]
        for e in es:
            new = []
            for ts, c in out:
                for t, c2 in self.ev(e, env, c):
                    new.append((ts + (t,), c2))
            out = new
            self.tick()
        return out


def is_listish(t):
    return t is not None and (t[0] in ('list', 'map', 'concat') or t[0] == 'loop' or (
        t[0] == 'op' and t[1] == 'Add' and (is_listish(t[2]) or is_listish(t[3]))))


def cat(l, r):
    """List concatenation, normalised."""
    if l == ('list', ()):
        return r
    if r == ('list', ()):
        return l
    if l[0] == r[0] == 'list':
        return ('list', l[1] + r[1])
    if r[0] == 'op' and r[1] == 'Add' and is_listish(r):
        return cat(cat(l, r[2]), r[3])
    if l[0] == 'op' and l[1] == 'Add' and l[3][0] == 'list' and r[0] == 'list':
        return ('op', 'Add', l[2], ('list', l[3][1] + r[1]))
    return ('op', 'Add', l, r)


def parts(t):
    """Flattens a concatenation into its pieces."""
    if t[0] == 'op' and t[1] == 'Add':
        return parts(t[2]) + parts(t[3])
    if t == ('list', ()):
        return []
    if t[0] == 'list':
        return [('list', (x,)) for x in t[1]]
    return [t]


def elem_of(it):
    """Term of an arbitrary element of an iterable."""
    if it[0] == 'call':
        cp = callee_path(it)
        if cp == 'enumerate' and len(it[2]) == 1:
            return ('tuple', (('idx', it[2][0]), elem_of(it[2][0])))
        if cp == 'zip' and not it[3]:
            return ('tuple', tuple(elem_of(x) for x in it[2]))
        if cp == 'range' and len(it[2]) == 1 and it[2][0][0] == 'call' and \
                callee_path(it[2][0]) == 'len':
            return ('idx', it[2][0][2][0])
        if cp in ('list', 'tuple', 'iter') and len(it[2]) == 1:
            return elem_of(it[2][0])
    return ('elem', it)


def _sub(b, i):
    if i == ('idx', b):
        return ('elem', b)
    if b[0] in ('list', 'tuple') and i[0] == 'const' and isinstance(i[1], int) and \
            -len(b[1]) <= i[1] < len(b[1]) and not any(x[0] == 'star' for x in b[1]):
        return b[1][i[1]]
    return ('sub', b, i)


def _load(t):
    import copy
    t2 = copy.copy(t)
    t2.ctx = ast.Load()
    return t2


def show(t):
    """Readable form of a term."""
    k = t[0]
    if k == 'param' or k == 'name':
        return t[1]
    if k == 'const':
        return repr(t[1])
    if k == 'attr':
        return show(t[1]) + '.' + t[2]
    if k == 'call':
        return '%s(%s)' % (show(t[1]), ', '.join(
            [show(a) for a in t[2]] + ['%s=%s' % (n, show(v)) for n, v in t[3]]))
    if k in ('list', 'tuple'):
        return '[' + ', '.join(show(x) for x in t[1]) + ']'
    if k == 'op':
        return '(%s %s %s)' % (show(t[2]), t[1], show(t[3]))
    if k == 'cmp':
        return '(%s %s %s)' % (show(t[2]), t[1], show(t[3]))
    if k == 'not':
        return 'not ' + show(t[1])
    if k == 'is_none':
        return show(t[1]) + ' is None'
    if k == 'sub':
        return '%s[%s]' % (show(t[1]), show(t[2]))
    if k == 'item':
        return '%s#%d' % (show(t[1]), t[2])
    if k == 'map':
        return '[%s for %s]' % (show(t[1]) if t[1][0] != 'ite' else '..', ', '.join(
            show(i) + (' if ' + ' and '.join(show(x) for x in c) if c else '') for i, c in t[2]))
    if k == 'elem':
        return 'elem(%s)' % show(t[1])
    if k == 'bool':
        return '(' + (' %s ' % t[1]).join(show(x) for x in t[2]) + ')'
    return repr(t)


def subterms(t):
    """All sub-terms (tuples starting with a string tag), including t."""
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)


def subst(t, old, new):
    if t == old:
        return new
    if isinstance(t, tuple):
        return tuple(subst(x, old, new) for x in t)
    return t


def callee_path(t):
    """('call', f, ..) -> dotted callee, e.g. 'self.ast.Add'."""
    def path(f):
        if f[0] in ('param', 'name', 'def'):
            return f[1]
        if f[0] == 'attr':
            b = path(f[1])
            return None if b is None else b + '.' + f[2]
        if f[0] == 'call':
            b = path(f[1])
            return None if b is None else b + '()'
        return None
    return path(t[1]) if t[0] == 'call' else None


def callee_name(t):
    """Last component of the callee of a call term."""
    if t[0] != 'call':
        return None
    f = t[1]
    if f[0] == 'attr':
        return f[2]
    if f[0] in ('param', 'name', 'def'):
        return f[1]
    return None


def is_call(t, name):
    return t[0] == 'call' and callee_name(t) == name

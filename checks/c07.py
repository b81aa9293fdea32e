from _common import *
from sa.terms import TermEval, show, subterms, callee_path, callee_name, is_call
from sa.spec import ClassSpec
from sa import decide

EXPR = NT + 'translators.expression'
STMT = NT + 'translators.statement'
CONST = NT + 'lib.constants'

# Python data model, section 3.3.8
NAMES = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'MatMult': 'matmul', 'Div': 'truediv',
         'FloorDiv': 'floordiv', 'Mod': 'mod', 'Pow': 'pow', 'LShift': 'lshift',
         'RShift': 'rshift', 'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor'}
COMPARE = {'Eq': '__eq__', 'NotEq': '__ne__', 'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__',
           'GtE': '__ge__'}
PRIM = {'Add': 'Add', 'Sub': 'Sub', 'Mult': 'Mul', 'FloorDiv': 'Div', 'Mod': 'Mod', 'Is': 'EqCmp',
        'Eq': 'EqCmp', 'NotEq': 'NeCmp', 'IsNot': 'NeCmp', 'Lt': 'LtCmp', 'LtE': 'LeCmp',
        'Gt': 'GtCmp', 'GtE': 'GeCmp'}
UNARY = {'UAdd': '__pos__', 'USub': '__neg__', 'Invert': '__invert__'}
P = lambda n: ('param', n)
A = lambda t, n: ('attr', t, n)


def main(c):
    p = c.project
    ex = p.cls(EXPR, 'ExpressionTranslator')
    tables(c)
    comparison(c, ex)
    chain(c, ex)
    operator(c, ex)
    primitive(c, ex)
    unary(c, ex)
    boolop(c, ex)
    ifexp(c, ex)
    typeeq(c, ex)
    binop(c, ex)
    augassign(c)
    permissions(c)
    pure(c)
    resolver(c)
    patterns(c)
    waitlevel(c)
    c.floor('table', 30)
    c.floor('comparison', 13)
    c.floor('operator', 13)


def params(f, spec):
    """Maps the method's parameters, by position, to the canonical names of the rule."""
    return {n: P(s) for n, s in zip(f.all_params, spec)}


def evaluate(c, f, spec, classes, tables=None, extra=None, facts=None):
    env = params(f, spec)
    return TermEval(f, env=env, simp=ClassSpec(c.ev, f.module, classes, tables, facts), limit=20000)


# ------------------------------------------------------------------------------ tables
def tables(c):
    c.rule('table', 'operator tables map each Python operator to the special method of the data model')
    for tab, fmt in (('LEFT_OPERATOR_FUNCTIONS', '__%s__'), ('RIGHT_OPERATOR_FUNCTIONS', '__r%s__'),
                     ('INPLACE_OPERATOR_FUNCTIONS', '__i%s__')):
        v = c.ev.const(CONST, tab)
        where = c.project.module(CONST).relpath
        for k, n in NAMES.items():
            got = v.get('ast.' + k)
            c.expect(got == fmt % n, 'table', '%s[%s]' % (tab, k), where,
                     'maps %s to %r, the data model says %r' % (k, got, fmt % n))
        for k in v:
            if str(k)[4:] not in NAMES:
                c.bad('table', '%s[%s]' % (tab, k), where, 'entry for something that is no operator')
        for k in getattr(v, 'duplicates', ()):
            c.bad('table', '%s[%s] twice' % (tab, k), where, 'operator listed twice')


# -------------------------------------------------------------------------- comparisons
CMP_SIG = ['self', 'op', 'left', 'left_type', 'right', 'right_type', 'node', 'ctx']


def comparison(c, ex):
    c.rule('comparison', 'a single comparison is encoded by the operation of its operator with the '
                         'operands in the order the data model prescribes')
    f = ex.methods['_translate_comparison']
    L, R = P('left'), P('right')

    prims = set()
    for k in ('In', 'NotIn'):
        te = evaluate(c, ex.methods['_is_primitive_operation'], ['self', 'op', 'left_type', 'right_type'],
                      {P('op'): getattr(ast, k)})
        if any(o[1] != ('const', False) for _, o, _, _ in te.paths):
            prims.add(k)

    def base(t):          # operand possibly unboxed from an enumeration
        if is_call(t, 'to_int') and t[2]:
            return t[2][0]
        return t
    for op in ('Eq', 'NotEq', 'Lt', 'LtE', 'Gt', 'GtE', 'Is', 'IsNot', 'In', 'NotIn'):
        te = evaluate(c, f, CMP_SIG, {P('op'): getattr(ast, op)})
        n = 0
        problems = set()
        for conds, out, eff, env in te.paths:
            if out[0] == 'raise':
                continue
            n += 1
            t = out[1]
            if is_call(t, '_translate_contains'):
                a = t[2]
                if op not in ('In', 'NotIn'):
                    problems.add('becomes a containment test')
                elif len(a) < 4 or (base(a[0]), base(a[1])) != (L, R) or a[4] != P('node'):
                    problems.add('operands of the containment test are ' + show(t))
                continue
            if t[0] != 'tuple' or len(t[1]) != 2:
                problems.add('result ' + show(t))
                continue
            e = t[1][1]
            if op in ('Is', 'IsNot'):
                want = 'EqCmp' if op == 'Is' else 'NeCmp'
                if not (is_call(e, want) and {e[2][0], e[2][1]} == {L, R}):
                    problems.add('identity becomes ' + show(e))
                continue
            if is_call(e, '_translate_primitive_operation'):
                if op in ('In', 'NotIn') and op not in prims:
                    continue
                if op in ('In', 'NotIn') or (base(e[2][0]), base(e[2][1])) != (L, R) or e[2][3] != P('op'):
                    problems.add('primitive operation on ' + show(e))
                continue
            if op in COMPARE:
                name, neg = COMPARE[op], False
                ee = e
                if op == 'NotEq' and is_call(e, 'Not'):
                    ee = e[2][0]
                    if is_call(ee, 'to_bool'):
                        ee = ee[2][0]
                    name = '__eq__'
                    # only when the class does not define __ne__
                    if not any(is_call(ct, 'get_function') and ct[2] == (('const', '__ne__'),) and not v
                               for ct, v in conds):
                        problems.add('__ne__ ignored in favour of negated __eq__')
                if not (is_call(ee, 'get_function_call') or is_call(ee, 'get_func_or_method_call')):
                    problems.add('becomes ' + show(e))
                    continue
                a = ee[2]
                if a[1] != ('const', name):
                    problems.add('calls %s' % show(a[1]))
                if a[2][0] != 'list' or [base(x) for x in a[2][1]] != [L, R]:
                    problems.add('operands ' + show(a[2]))
                if a[3][0] != 'list' or len(a[3][1]) != 2 or not typ_ok(a[3][1][0], 'left_type') or \
                        not typ_ok(a[3][1][1], 'right_type') or a[0] != a[3][1][0]:
                    problems.add('operand types ' + show(a[3]) + ' for receiver ' + show(a[0]))
            else:
                problems.add('containment becomes ' + show(e))
        c.expect(not problems and n, 'comparison', op, f.loc(), '; '.join(sorted(problems)) or 'no encoding')
    # a comparison no branch knows is rejected
    te = evaluate(c, f, CMP_SIG, {P('op'): ast.cmpop})
    esc = [o for cd, o, e, env in te.paths if o[0] == 'ret' and not (
        o[1][0] == 'tuple' and is_call(o[1][1][1], '_translate_primitive_operation'))]
    c.expect(not esc, 'comparison', 'unknown operator', f.loc(),
             'an unknown comparison operator is translated as ' + (show(esc[0][1]) if esc else ''))
    g = ex.methods['_translate_contains']
    for op in ('In', 'NotIn'):
        te = evaluate(c, g, ['self', 'left', 'right', 'left_type', 'right_type', 'node', 'ctx'],
                      {('sub', A(P('node'), 'ops'), ('const', 0)): getattr(ast, op)})
        for conds, out, eff, env in te.paths:
            if out[0] == 'raise':
                continue
            t = out[1]
            ok, why = False, show(t)
            if t[0] == 'tuple' and len(t[1]) == 2:
                e = t[1][1]
                neg = 0
                while is_call(e, 'Not'):
                    neg += 1
                    e = e[2][0]
                    if is_call(e, 'to_bool'):
                        e = e[2][0]
                if e[0] == 'item' and e[2] == 1 and is_call(e[1], 'get_func_or_method_call'):
                    a = e[1][2]
                    ok = a[0] == P('right_type') and a[1] == ('const', '__contains__') and \
                        a[2] == ('list', (R, L)) and a[3] == ('list', (P('right_type'), P('left_type'))) and \
                        neg == (1 if op == 'NotIn' else 0)
                    # statements of the call are kept
                    ok = ok and any(x == ('item', e[1], 0) for x in subterms(t[1][0]))
            c.expect(ok, 'comparison', 'containment ' + op, g.loc(), 'encoded as ' + why)


def typ_ok(t, name):
    return t == P(name) or (t[0] == 'sub' and show(t).endswith('classes[INT_TYPE]'))


def chain(c, ex):
    c.rule('chain', 'a chained comparison is the conjunction of its links, each between neighbouring operands')
    f = ex.methods['translate_Compare']
    te = evaluate(c, f, ['self', 'node', 'ctx'], {}, None)
    node = P('node')
    operands = None
    found = 0
    for s, it, entry, ends in te.first_loops:
        for env, conds, eff in ends:
            for name, t in env.items():
                calls = [x for x in subterms(t) if is_call(x, '_translate_comparison')]
                if not calls or not isinstance(t, tuple) or t == entry.get(name):
                    continue
                if t[0] == 'item' and t[2] == 1 and is_call(t[1], '_translate_comparison'):
                    pass
                elif is_call(t, 'And'):
                    l, r = t[2][0], t[2][1]
                    ok = l == ('loop', name) and r[0] == 'item' and r[2] == 1
                    c.expect(ok, 'chain', 'conjunction', f.loc(), 'links are combined as ' + show(t)[:120])
                    found += 1
                elif t[0] == 'call' and not is_call(t, '_translate_comparison'):
                    c.bad('chain', 'conjunction', f.loc(), 'links are combined by ' + show(t)[:60])
                a = calls[0][2]
                if len(a) < 7:
                    continue
                idx = ('idx', A(node, 'ops'))
                nxt = ('op', 'Add', idx, ('const', 1))

                def at(t, i, what):
                    if t[0] != 'sub' or t[2] != i or t[1][0] != 'map':
                        return False
                    return what in {(callee_path(x) or '').split('.')[-1] for x in subterms(t[1][1])}
                ok = a[0] == ('elem', A(node, 'ops')) and at(a[1], idx, 'translate_expr') and \
                    at(a[2], idx, 'get_type') and at(a[3], nxt, 'translate_expr') and at(a[4], nxt, 'get_type')
                c.expect(ok, 'chain', 'operands', f.loc(), 'a link compares %s and %s with %s' % (
                    show(a[1])[-60:], show(a[3])[-60:], show(a[0])))
                src = a[1][1][2][0][0] if ok else None
                if ok:
                    c.expect(show(src) == '([node.left] Add node.comparators)', 'chain', 'operand list', f.loc(),
                             'the operands of the chain are ' + show(src))
                found += 1
    pn = ex.methods.get('_chained_comparison_pair')
    c.floor('chain', 2)


# ----------------------------------------------------------------------- binary operators
def operator(c, ex):
    c.rule('operator', 'a binary operation calls the left operand\'s method, or the reflected method '
                       'of the right operand with swapped operands exactly when Python does, or is rejected')
    f = ex.methods['translate_operator']
    sig = ['self', 'left', 'right', 'left_type', 'right_type', 'node', 'ctx']
    L, R, LT, RT = P('left'), P('right'), P('left_type'), P('right_type')
    op_t = A(P('node'), 'op')
    for op, nm in NAMES.items():
        te = evaluate(c, f, sig, {op_t: getattr(ast, op)})
        ln, rn = ('const', '__%s__' % nm), ('const', '__r%s__' % nm)
        unr = ('const', '__pow_unrolled__')

        def getfn(t, recv, name, args):
            return is_call(t, 'get_compatible_func_or_method') and t[1][1] == recv and \
                t[2] == (name, ('list', args))

        def recognise(t):
            if t == ('cmp', '==', LT, RT) or t == ('cmp', '==', RT, LT):
                return 'same'
            if is_call(t, 'isinstance') and t[2] == (RT, ('name', 'TypeVar')):
                return 'tv'
            if is_call(t, '_is_primitive_operation'):
                return 'prim'
            if getfn(t, RT, rn, (RT, LT)):
                return 'rf'
            if getfn(t, LT, ln, (LT, RT)):
                return 'lf'
            if getfn(t, LT, rn, (RT, LT)):
                return 'base'
            if is_call(t, 'issubtype') and t[1][1] == RT and t[2] == (LT,):
                return 'sub'
            if t[0] == 'attr' and t[2] == 'overrides' and getfn(t[1], RT, rn, (RT, LT)):
                return 'ovr'
            return None

        def classify(path):
            conds, out, eff, env = path
            if out[0] == 'raise':
                t = out[1]
                # a missing left method found only by calling is a rejection, not an outcome
                if any(x[0] == 'is_none' and v for x, v in conds) and any(
                        recognise(x) == 'same' and v or recognise(x) == 'tv' and v for x, v in conds):
                    return None
                return 'reject'
            t = out[1]
            if t[0] != 'tuple' or len(t[1]) != 2:
                return 'returns ' + show(t)
            e = t[1][1]
            if is_call(e, '_translate_primitive_operation'):
                return 'prim' if e[2][:2] == (L, R) and e[2][3] == op_t else 'primitive with ' + show(e)
            if not (e[0] == 'item' and e[2] == 1 and is_call(e[1], 'get_func_or_method_call')):
                return 'yields ' + show(e)
            a = e[1][2]
            if ('item', e[1], 0) not in set(subterms(t[1][0])):
                return 'loses the statements of the call'
            if a[0] == LT and a[2] == ('list', (L, R)) and a[3] == ('list', (LT, RT)) and a[1] == ln:
                return 'left'
            if op == 'Pow' and a[0] == LT and a[1] == unr and a[2] == ('list', (L, R)) and \
                    a[3] == ('list', (LT, RT)):
                return 'left'
            if a[0] == RT and a[2] == ('list', (R, L)) and a[3] == ('list', (RT, LT)) and a[1] == rn:
                return 'right'
            return 'calls %s of %s with %s' % (show(a[1]), show(a[0]), show(a[2]))

        def spec(x):
            if x['prim']:
                return 'prim'
            if x['same'] or x['tv']:
                return 'left'
            if x['sub'] and x['rf'] and (x['ovr'] or not x['base']):
                return 'right'
            if x['lf']:
                return 'left'
            if x['rf']:
                return 'right'
            return 'reject'
        atoms = ['prim', 'same', 'tv', 'sub', 'rf', 'ovr', 'base', 'lf']
        seen = set()
        for asg, path, got, want in decide.table(te.paths, atoms, recognise, classify, spec):
            when = ', '.join(k for k in atoms if asg[k])
            seen.add('%s instead of %s (e.g. when %s)' % (got or 'no outcome', want, when or 'nothing holds'))
        uniq = {}
        for s in sorted(seen):
            uniq.setdefault(s.split(' (')[0], s)
        c.expect(not uniq, 'operator', op, f.loc(), '; '.join(uniq.values()))


def binop(c, ex):
    c.rule('binop', 'both operands are translated once, in source order, and combined by the operator')
    f = ex.methods['translate_BinOp']
    te = evaluate(c, f, ['self', 'node', 'ctx'], {})
    node = P('node')
    for conds, out, eff, env in te.paths:
        if out[0] == 'raise':
            continue
        t = out[1]
        ops = [x for x in subterms(t) if is_call(x, 'translate_operator')]
        ok, why = False, show(t)
        if ops:
            a = ops[0][2]

            def tr(t, n):
                return t[0] == 'item' and t[2] == 1 and is_call(t[1], 'translate_expr') and \
                    t[1][2][0] == A(node, n)

            def ty(t, n):
                return is_call(t, 'get_type') and t[2][0] == A(node, n)
            ok = tr(a[0], 'left') and tr(a[1], 'right') and ty(a[2], 'left') and ty(a[3], 'right') and a[4] == node
            if ok and t[0] == 'tuple':
                from sa.terms import parts
                order = [x[1][2][0][2] if x[0] == 'item' and is_call(x[1], 'translate_expr') else 'op'
                         for x in parts(t[1][0])]
                ok = order == ['left', 'right', 'op'] and t[1][1] == ('item', ops[0], 1)
                why = 'statements in order ' + str(order)
        c.expect(ok, 'binop', 'translate_BinOp', f.loc(), why)
    c.floor('binop', 1)


def primitive(c, ex):
    c.rule('primitive', 'primitive operations use the intermediate operation of the same meaning')
    init = ex.methods['__init__']
    te = evaluate(c, init, ['self'], {})
    tabs = [t for e in te.paths for x in e[2] if x[0] == 'set' and x[2] == '_primitive_operations' for t in [x[3]]]
    if not tabs:
        raise AnalysisError('_primitive_operations no longer set')
    got = {}
    for k, v in tabs[0][1]:
        got[show(k)] = show(v)
    for k, v in got.items():
        n = k.replace('ast.', '')
        c.expect(PRIM.get(n) == v.split('.')[-1], 'primitive', n, init.loc(), '%s is encoded as %s' % (n, v))
    g = ex.methods['_translate_primitive_operation']
    for n in PRIM:
        if 'ast.' + n not in got:
            continue
        tb = {A(P('self'), '_primitive_operations'): {getattr(ast, k[4:]): pt(v) for k, v in got.items()}}
        te = evaluate(c, g, ['self', 'left', 'right', 'op_type', 'op', 'pos', 'ctx'], {P('op'): getattr(ast, n)}, tb)
        for conds, out, eff, env in te.paths:
            if out[0] == 'raise':
                continue
            t = out[1]

            def unwrap(x):
                return x[2][0] if x[0] == 'call' and (callee_path(x) or '').startswith('self.to_') else x
            ok = t[0] == 'call' and show(t[1]).split('.')[-1] == PRIM[n] and len(t[2]) >= 2 and \
                (unwrap(t[2][0]), unwrap(t[2][1])) == (P('left'), P('right')) and t[2][2:3] == (P('pos'),)
            c.expect(ok, 'primitive', 'apply ' + n, g.loc(), 'built as ' + show(t))
    # an operation is primitive only if it is in the table
    h = ex.methods['_is_primitive_operation']
    for n in list(COMPARE) + ['Is', 'In', 'NotIn'] + list(NAMES):
        te = evaluate(c, h, ['self', 'op', 'left_type', 'right_type'], {P('op'): getattr(ast, n)},
                      {A(P('self'), '_primitive_operations'): {getattr(ast, k[4:]): pt(v) for k, v in got.items()}})
        for conds, out, eff, env in te.paths:
            if out[0] == 'ret' and out[1] != ('const', False):
                both = sum(1 for x, v in conds if v and x[0] == 'attr' and x[2] == 'is_adt')
                ok = 'ast.' + n in got and (n in ('Eq', 'NotEq') and both == 2 or out[1][0] != 'const')
                c.expect(ok, 'primitive', 'is primitive ' + n, h.loc(),
                         'an operation on values without primitive representation is taken as primitive')


def pt(s):
    parts = s.split('.')
    t = P(parts[0]) if parts[0] == 'self' else ('name', parts[0])
    for x in parts[1:]:
        t = ('attr', t, x)
    return t


def unary(c, ex):
    c.rule('unary', 'unary operators are encoded by their special method or by negation')
    f = ex.methods['translate_UnaryOp']
    node = P('node')
    for op in ('Not', 'UAdd', 'USub', 'Invert', 'unaryop'):
        te = evaluate(c, f, ['self', 'node', 'ctx'], {A(node, 'op'): getattr(ast, op)})
        n = 0
        for conds, out, eff, env in te.paths:
            if out[0] == 'raise':
                continue
            n += 1
            t = out[1]
            if op == 'Not':
                ok = t[0] == 'tuple' and is_call(t[1][1], 'Not') and \
                    t[1][1][2][0][0] == 'item' and is_call(t[1][1][2][0][1], 'translate_expr') and \
                    t[1][1][2][0][1][2][0] == A(node, 'operand') and \
                    t[1][0] == ('item', t[1][1][2][0][1], 0) and \
                    ('target_type', A(A(P('self'), 'viper'), 'Bool')) in t[1][1][2][0][1][3]
            elif op in UNARY:
                if t[0] == 'tuple' and len(t[1]) == 2 and t[1][1][0] == 'item' and t[1][1][2] == 1:
                    g = t[1][1][1]
                    keeps = ('item', g, 0) in set(subterms(t[1][0]))
                else:
                    g, keeps = t, True
                ok = keeps and is_call(g, 'get_func_or_method_call')
                if ok:
                    a = g[2]
                    ok = is_call(a[0], 'get_type') and a[0][2][0] == A(node, 'operand') and \
                        a[1] == ('const', UNARY[op]) and a[2][0] == 'list' and len(a[2][1]) == 1 and \
                        a[2][1][0][0] == 'item' and a[2][1][0][1][2][0] == A(node, 'operand')
            else:
                ok = False
            c.expect(ok, 'unary', op, f.loc(), 'encoded as ' + show(t))
        if op == 'unaryop':
            c.expect(n == 0, 'unary', 'unknown', f.loc(), 'an unknown operator is not rejected')
        else:
            c.expect(n, 'unary', op, f.loc(), 'never encoded')


def boolop(c, ex):
    c.rule('boolop', 'and/or are encoded by conjunction/disjunction of truth values, or by a '
                     'conditional yielding the operand Python yields')
    f = ex.methods['translate_BoolOp']
    # the connectives are the local functions given to the joining helpers
    for kind in ('And', 'Or'):
        spec = ClassSpec(c.ev, f.module, {A(P('node'), 'op'): getattr(ast, kind)})
        reach = reachable(f, spec)
        lams = [(st, n) for st in reach for n in ast.walk(st) if isinstance(n, ast.Lambda)] if True else []
        two = {ast.unparse(n) for st, n in lams if len(n.args.args) == 2}
        three = {ast.unparse(n) for st, n in lams if len(n.args.args) == 3}
        for st, n in lams:
            a = [x.arg for x in n.args.args]
            b = n.body
            if not isinstance(b, ast.Call) or attr_name(b) not in ('And', 'Or', 'CondExp'):
                continue
            args = [x.id if isinstance(x, ast.Name) else '?' for x in b.args]
            if len(a) == 2:
                ok = attr_name(b) == kind and args[:2] == a
                c.expect(ok, 'boolop', kind + ' of truth values', f.loc(n), 'joined by ' + ast.unparse(b))
            elif len(a) == 3:
                l, lb, r = a
                want = [lb, r, l] if kind == 'And' else [lb, l, r]
                ok = attr_name(b) == 'CondExp' and args[:3] == want
                c.expect(ok, 'boolop', kind + ' of values', f.loc(n), 'joined by ' + ast.unparse(b))
    # conversion of statements: guarded by the joined truth value of the operands before,
    # negated for a disjunction
    joins(c, f)
    statements(c, ex, f)
    c.floor('boolop', 4)


def reachable(f, spec):
    """Statements of f (simple ones) that are reached when the type tests are decided as in spec."""
    te = TermEval.__new__(TermEval)
    te.simp_hook = spec
    te.limit, te.count, te.resolve, te.fi = 10 ** 6, 0, None, f
    env = {p: ('param', p) for p in f.all_params}
    out = []

    def decide_(e):
        r = {b for b, c in te.cond(e, dict(env), frozenset())}
        return r

    def go(stmts):
        for s in stmts:
            if isinstance(s, ast.If):
                r = decide_(s.test)
                if True in r:
                    go(s.body)
                if False in r:
                    go(s.orelse)
            elif isinstance(s, (ast.For, ast.While)):
                go(s.body)
                go(s.orelse)
            elif isinstance(s, (ast.With,)):
                go(s.body)
            elif isinstance(s, ast.Try):
                go(s.body)
                for h in s.handlers:
                    go(h.body)
                go(s.finalbody)
            else:
                out.append(s)
    go(f.node.body)
    return out


def joins(c, f):
    """The joining helpers fold the operands without changing their order, and a joined part
    covers the operands up to and including its index."""
    p = c.project
    g = p.func(NT + 'lib.util', 'join_three_expressions')
    op, es, bs = g.all_params[:3]
    te = TermEval(g)
    for s, it, entry, ends in te.first_loops:
        for env, conds, eff in ends:
            for n, t in env.items():
                if not (isinstance(t, tuple) and t[0] == 'call' and t[1] == P(op)):
                    continue
                a = t[2]

                def earlier(x, base):
                    return x[0] == 'elem' and P(base) in set(subterms(x)) and ('loop', n) not in set(subterms(x))
                rev = any(is_call(x, 'reversed') or x[0] == 'slice' and x[-1] == ('unop', 'USub', ('const', 1))
                          for x in subterms(a[0]))
                last = ('loop', n) == a[-1]
                init = [ep[3] for ep in te.paths]
                ok = len(a) == 3 and earlier(a[0], es) and earlier(a[1], bs) and last and rev
                c.expect(ok, 'boolop', 'fold', g.loc(), 'operands are folded by ' + show(t))
    g2 = p.func(NT + 'lib.util', 'join_expressions')
    inner = [n for n in ast.walk(g2.node) if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not g2.node]
    for n in inner:
        ps = [x.arg for x in n.args.args]
        ret = n.body if isinstance(n, ast.Lambda) else next(
            (x.value for x in ast.walk(n) if isinstance(x, ast.Return)), None)
        if isinstance(ret, ast.Call) and len(ps) == 3 and len(ret.args) == 2:
            got = [x.id if isinstance(x, ast.Name) else '?' for x in ret.args]
            c.expect(got in (ps[1:], [ps[0], ps[2]]), 'boolop', 'fold of two', g2.loc(),
                     'operands are folded by ' + ast.unparse(ret))
    # prefixes
    te = TermEval(f, limit=200000)
    seen = set()
    for conds, out, eff, env in te.paths:
        for n, t in env.items():
            if not isinstance(t, tuple) or t[0] != 'map' or t in seen:
                continue
            seen.add(t)
            el = t[1]
            if callee_name(el) in ('join_expressions', 'join_three_expressions'):
                src = t[2][0][0]
                for x in subterms(el):
                    if x[0] == 'sub' and x[2][0] == 'slice':
                        up = x[2][2]
                        ok = up[0] == 'op' and up[1] == 'Add' and up[3] == ('const', 1) and up[2][0] in ('idx', 'elem') \
                            and x[2][1] == ('const', None)
                        c.expect(ok, 'boolop', 'prefix', f.loc(), 'part %s joins %s' % (n, show(up)))


def statements(c, ex, f):
    """Statements needed by operand i are executed only if the operands before it do not decide
    the result."""
    for kind in ('And', 'Or'):
        te = TermEval(f, simp=ClassSpec(c.ev, f.module, {A(P('node'), 'op'): getattr(ast, kind)}), limit=200000)
        n = 0
        for s, it, entry, ends in te.first_loops:
            for env, conds, eff in ends:
                for x in [y for t in list(env.values()) + list(eff) if isinstance(t, tuple) for y in subterms(t)]:
                    if not is_call(x, 'If'):
                        continue
                    n += 1
                    cond, neg = x[2][0], 0
                    while is_call(cond, 'Not'):
                        neg, cond = neg + 1, cond[2][0]
                    ok = neg % 2 == (1 if kind == 'Or' else 0)
                    c.expect(ok, 'boolop', kind + ' short circuit', f.loc(),
                             'statements of later operands are guarded by the %s of the earlier ones' % (
                                 'negation' if neg else 'truth'))
                    shift = cond[0] == 'sub' and cond[2][0] == 'op'
                    c.expect(not shift and (cond[0] in ('elem', 'sub')), 'boolop', kind + ' guard', f.loc(),
                             'statements are guarded by ' + show(cond)[:100])
                    blk = [y for y in subterms(x[2][1]) if y[0] == 'elem']
                    blk2 = [y for y in subterms(x[2][2]) if y[0] == 'elem']
                    c.expect(blk and not blk2, 'boolop', kind + ' block', f.loc(), 'statements in the wrong branch')
        c.expect(n, 'boolop', kind + ' short circuit', f.loc(), 'statements of later operands are not guarded')


def ifexp(c, ex):
    c.rule('ifexp', 'a conditional expression yields its first branch if the condition holds')
    f = ex.methods['translate_IfExp']
    te = evaluate(c, f, ['self', 'node', 'ctx', 'impure'], {})
    node = P('node')

    def tr(t, n, i=1):
        return t[0] == 'item' and t[2] == i and is_call(t[1], 'translate_expr') and t[1][2][0] == A(node, n)
    for conds, out, eff, env in te.paths:
        if out[0] == 'raise':
            continue
        t = out[1]
        ok = t[0] == 'tuple' and is_call(t[1][1], 'CondExp')
        if ok:
            a = t[1][1][2]
            ok = tr(a[0], 'test') and tr(a[1], 'body') and tr(a[2], 'orelse')
            ifs = [x for x in subterms(t[1][0]) if is_call(x, 'If')]
            for x in ifs:
                b = x[2]

                def has(t, n):
                    return any(tr(y, n, 0) for y in subterms(t))
                ok = ok and tr(b[0], 'test') and has(b[1], 'body') and not has(b[1], 'orelse') and \
                    has(b[2], 'orelse') and not has(b[2], 'body')
            need = [x for x, v in conds if v and (tr(x, 'body', 0) or tr(x, 'orelse', 0))]
            if need and not ifs:
                ok = False
        c.expect(ok, 'ifexp', 'translate_IfExp', f.loc(), 'encoded as ' + show(t)[:300])
    c.floor('ifexp', 1)


def typeeq(c, ex):
    c.rule('typeeq', 'type comparisons keep the sense of the operator')
    f = ex.methods['translate_type_equality']
    g = ex.methods['is_type_equality']
    opt = ('sub', A(P('node'), 'ops'), ('const', 0))
    accepted = set()
    for op in ('Eq', 'NotEq', 'Is', 'IsNot', 'Lt', 'LtE', 'Gt', 'GtE', 'In', 'NotIn'):
        te = evaluate(c, g, ['self', 'node', 'ctx'], {opt: getattr(ast, op)})
        if any(o == ('ret', ('const', True)) or o[0] == 'ret' and o[1][0] != 'const' for _, o, _, _ in te.paths):
            accepted.add(op)
    for op in sorted(accepted):
        te = evaluate(c, f, ['self', 'node', 'ctx'], {opt: getattr(ast, op)})
        want = {'Eq': 'EqCmp', 'Is': 'EqCmp', 'NotEq': 'NeCmp', 'IsNot': 'NeCmp'}.get(op)
        for conds, out, eff, env in te.paths:
            if out[0] == 'ret':
                t = out[1]
                ok = want and t[0] == 'tuple' and is_call(t[1][1], want) and len(set(t[1][1][2][:2])) == 2
                c.expect(ok, 'typeeq', op, f.loc(), 'a comparison with %s becomes %s' % (op, show(t)[:100]))
    for name, want in (('is_thread_method_definition', {'Eq', 'Is'}),):
        h = ex.methods[name]
        for op in ('Eq', 'NotEq', 'Is', 'IsNot', 'Lt', 'LtE', 'Gt', 'GtE', 'In', 'NotIn'):
            te = evaluate(c, h, ['self', 'node', 'ctx'], {opt: getattr(ast, op)})
            acc = any(o[0] == 'ret' and o[1] != ('const', False) for _, o, _, _ in te.paths)
            c.expect(not acc or op in want, 'typeeq', '%s %s' % (name, op), h.loc(),
                     'a comparison with %s is taken as an equality' % op)


def augassign(c):
    c.rule('augassign', 'an augmented assignment uses the in-place method if there is one and the '
                        'binary operator otherwise, and assigns the result to its target')
    cl = c.project.cls(STMT, 'StatementTranslator')
    f = cl.methods['translate_stmt_AugAssign']
    node = P('node')
    for op, nm in NAMES.items():
        te = evaluate(c, f, ['self', 'node', 'ctx'], {A(node, 'op'): getattr(ast, op)})
        probs = set()
        n = 0
        for conds, out, eff, env in te.paths:
            if out[0] == 'raise':
                continue
            n += 1
            t = out[1]
            asg = [x for x in subterms(t) if is_call(x, 'assign_to')] + \
                  [x for e in eff for x in subterms(e) if is_call(x, 'assign_to')]
            if not asg or asg[0][2][0] != A(node, 'target'):
                probs.add('result is not assigned to the target')
                continue
            v = asg[0][2][1]
            while is_call(v, 'to_ref'):
                v = v[2][0]
            if v[0] != 'item' or v[2] != 1:
                probs.add('assigned value is ' + show(v))
                continue
            call = v[1]
            a = call[2]

            def tr(t, n):
                return t[0] == 'item' and t[2] == 1 and is_call(t[1], 'translate_expr') and t[1][2][0] == A(node, n)

            def ty(t, n):
                return is_call(t, 'get_type') and t[2][0] == A(node, n)

            def inpl(t):
                return is_call(t, 'get_compatible_func_or_method') and t[2][0] == ('const', '__i%s__' % nm) \
                    and ty(t[1][1], 'target')
            has = [v2 if x[0] != 'is_none' else not v2 for x, v2 in conds
                   if inpl(x) or x[0] == 'is_none' and inpl(x[1])]
            if ('item', call, 0) not in set(subterms(t)) | {y for e in eff for y in subterms(e)}:
                probs.add('statements of the operation are lost')
            if is_call(call, 'get_func_or_method_call'):
                ok = ty(a[0], 'target') and a[1] == ('const', '__i%s__' % nm) and a[2][0] == 'list' and \
                    len(a[2][1]) == 2 and tr(a[2][1][0], 'target') and tr(a[2][1][1], 'value') and \
                    a[3][0] == 'list' and ty(a[3][1][0], 'target') and ty(a[3][1][1], 'value')
                if not ok:
                    probs.add('in-place call ' + show(call)[:150])
                if has != [True]:
                    probs.add('in-place method used although it may not exist')
            elif is_call(call, 'translate_operator'):
                ok = tr(a[0], 'target') and tr(a[1], 'value') and ty(a[2], 'target') and ty(a[3], 'value') and a[4] == node
                if not ok:
                    probs.add('operator applied to ' + show(call)[:150])
                if has != [False]:
                    probs.add('binary operator used although an in-place method exists')
            else:
                probs.add('computed by ' + show(call)[:100])
        c.expect(not probs and n, 'augassign', op, f.loc(), '; '.join(sorted(probs)) or 'no encoding')


def permissions(c):
    c.rule('permission', 'arithmetic on permission amounts uses the operation of the same meaning')
    cl = c.project.cls(NT + 'translators.permission', 'PermTranslator')
    f = cl.methods['translate_perm_BinOp']
    node = P('node')
    OK = {'Add': {'PermAdd'}, 'Sub': {'PermSub'}, 'Mult': {'Mul', 'IntPermMul', 'PermMul'},
          'Div': {'FractionalPerm', 'PermDiv'}}
    for op in list(NAMES):
        te = evaluate(c, f, ['self', 'node', 'ctx'], {A(node, 'op'): getattr(ast, op)})
        for conds, out, eff, env in te.paths:
            if out[0] == 'raise':
                continue
            t = out[1]
            name = show(t[1]).split('.')[-1] if t[0] == 'call' else show(t)

            def side(x):
                s = [y[2][0][2] for y in subterms(x) if y[0] == 'call' and y[2] and y[2][0] in (
                    A(node, 'left'), A(node, 'right')) and (callee_path(y) or '').split('.')[-1].startswith('translate')]
                return s[0] if s else '?'
            if not feasible(conds):
                continue
            ok = op in OK and name in OK[op]
            if ok:
                s = (side(t[2][0]), side(t[2][1]))
                ok = s == ('left', 'right') or (op == 'Mult' and s == ('right', 'left'))
            c.expect(ok, 'permission', '%s %s' % (op, name), f.loc(), 'encoded as ' + show(t)[:160])
    # the mixed product needs the integer on the left
    te = evaluate(c, f, ['self', 'node', 'ctx'], {A(node, 'op'): ast.Mult})
    for conds, out, eff, env in te.paths:
        if out[0] == 'ret' and is_call(out[1], 'IntPermMul') and feasible(conds):
            l = out[1][2][0]
            isint = lambda t: any(v and x == ('item', l[1], 1) for x, v in conds) if l[0] == 'item' else False
            c.expect(isint(l), 'permission', 'integer factor', f.loc(),
                     'the first factor of a mixed product is not known to be the integer')


def feasible(conds):
    d = dict(conds)
    return not any(t[0] == 'cmp' and t[1] == '==' and t[2] in d and t[3] in d and
                   (d[t[2]] == d[t[3]]) != v for t, v in conds)


def pure(c):
    c.rule('pure', 'augmented assignments in pure functions use the operation of their operator')
    cl = c.project.cls(NT + 'translators.pure', 'PureTranslator')
    f = cl.methods['_translate_wrapper_expr']
    opt = A(A(P('wrapper'), 'expr'), 'op')
    MEAN = {'Add': 'Add', 'Sub': 'Sub', 'Mult': 'Mul', 'FloorDiv': 'Div', 'Mod': 'Mod'}
    facts = {('call', ('name', 'isinstance'), (A(P('wrapper'), 'expr'), ('name', 'BinOpWrapper')), ()): ('const', True)}
    for op in NAMES:
        te = evaluate(c, f, ['self', 'wrapper', 'ctx'], {opt: getattr(ast, op)}, facts=facts)
        for conds, out, eff, env in te.paths:
            if out[0] != 'ret':
                continue
            t = out[1]
            calls = [x for x in subterms(t) if x[0] == 'call' and show(x[1]).startswith('self.viper.') and
                     len(x[2]) >= 2 and show(x[1]).split('.')[-1] in
                     ('Add', 'Sub', 'Mul', 'Div', 'Mod', 'And', 'Or')]
            opc = [x for x in calls if any(is_call(y, 'translate_expr') for y in subterms(x))]
            val = lambda x: any(is_call(y, 'translate_expr') for y in subterms(x))
            ok = bool(opc) and show(opc[0][1]).split('.')[-1] == MEAN.get(op) and \
                not val(opc[0][2][0]) and val(opc[0][2][1])
            c.expect(ok, 'pure', op, f.loc(), 'becomes ' + show(t)[:160])
    c.floor('pure', 3)


def resolver(c):
    c.rule('resolver', 'the type of an operation is that of the method the translation calls')
    p = c.project
    f = None
    for g in p.module(NT + 'lib.resolver').functions.values():
        if g.name == '_do_get_type':
            f = g
    if f is None:
        raise AnalysisError('_do_get_type not found')
    node = P('node')
    sig = ['node', 'containers', 'container']
    cache = {}
    for op, nm in NAMES.items():
        sub = branch(f, 'BinOp')
        te = run_block(c, f, sub, {node: ast.BinOp, A(node, 'op'): getattr(ast, op)})
        ln, rn = ('const', '__%s__' % nm), ('const', '__r%s__' % nm)
        lt = lambda t: is_call(t, 'get_type') and t[2][0] == A(node, 'left')
        rt = lambda t: is_call(t, 'get_type') and t[2][0] == A(node, 'right')

        def fn(t, recv, name, first):
            return (is_call(t, 'get_compatible_func_or_method') or is_call(t, 'get_func_or_method')) and \
                recv(t[1][1]) and t[2][0] == name and (len(t[2]) < 2 or first(t[2][1][1][0]))

        def recognise(t):
            if t[0] == 'cmp' and t[1] == '==' and (lt(t[2]) and rt(t[3]) or rt(t[2]) and lt(t[3])):
                return 'same'
            if is_call(t, 'isinstance') and rt(t[2][0]):
                return 'tv'
            if fn(t, rt, rn, rt):
                return 'rf'
            if is_call(t, 'get_compatible_func_or_method') and fn(t, lt, ln, lt):
                return 'lf'
            if fn(t, lt, rn, rt):
                return 'base'
            if is_call(t, 'issubtype') and rt(t[1][1]) and lt(t[2][0]):
                return 'sub'
            if t[0] == 'attr' and t[2] == 'overrides' and fn(t[1], rt, rn, rt):
                return 'ovr'

        def classify(path):
            conds, out, eff, env = path
            if out[0] == 'raise':
                return 'reject'
            t = out[1]
            if t[0] == 'attr' and t[2] == 'type':
                if fn(t[1], lt, ln, lt):
                    return 'left'
                if fn(t[1], rt, rn, rt):
                    return 'right'
            return 'type ' + show(t)

        def spec(x):
            if x['same'] or x['tv']:
                return {'left', 'reject'}
            if x['sub'] and x['rf'] and (x['ovr'] or not x['base']):
                return 'right'
            if x['lf']:
                return 'left'
            if x['rf']:
                return 'right'
            return 'reject'
        atoms = ['same', 'tv', 'sub', 'rf', 'ovr', 'base', 'lf']
        bad = {}
        for asg, path, got, want in decide.table(te.paths, atoms, recognise, classify, spec):
            bad.setdefault((got, str(want)), ', '.join(k for k in atoms if asg[k]))
        # a local "func" that stays None is a rejection
        c.expect(not bad, 'resolver', op, f.loc(), '; '.join(
            '%s instead of %s when %s' % (g, w, k) for (g, w), k in list(bad.items())[:3]))
    for op in ('Not', 'UAdd', 'USub', 'Invert'):
        te = run_block(c, f, branch(f, 'UnaryOp'), {node: ast.UnaryOp, A(node, 'op'): getattr(ast, op)})
        for conds, out, eff, env in te.paths:
            if out[0] != 'ret':
                continue
            s = show(out[1])
            if op == 'Not':
                ok = s.endswith('classes[BOOL_TYPE]')
            else:
                ok = s.endswith(".type") and UNARY[op] in s and 'node.operand' in s
            c.expect(ok, 'resolver', op, f.loc(), 'type of the operation is ' + s)
    c.floor('resolver', 16)


def branch(f, cls):
    """The statements of the branch of f that handles nodes of the class."""
    for n in ast.walk(f.node):
        if isinstance(n, ast.If):
            for x in ast.walk(n.test):
                if isinstance(x, ast.Call) and attr_name(x) == 'isinstance' and len(x.args) == 2 and \
                        dotted(x.args[1]) == 'ast.' + cls and dotted(x.args[0]) == 'node':
                    return n.body
    raise AnalysisError('no branch for %s in %s' % (cls, f.qual))


def run_block(c, f, body, classes):
    import copy
    fi = copy.copy(f)
    fn = copy.copy(f.node)
    fn.body = body
    fi.node = fn
    return TermEval(fi, env={f.all_params[0]: P('node')}, simp=ClassSpec(c.ev, f.module, classes), limit=20000)


def patterns(c):
    c.rule('pattern', 'match patterns compare with the operation of the language definition')
    cl = c.project.cls(STMT, 'StatementTranslator')
    f = cl.methods['_pattern_py_cond']
    pat = P('pattern')
    for kind, want in (('MatchSingleton', 'ast.Is'), ('MatchValue', 'ast.Eq')):
        te = evaluate(c, f, ['self', 'pattern', 'node'], {pat: getattr(ast, kind)})
        for conds, out, eff, env in te.paths:
            t = out[1]
            if out[0] == 'ret' and t[0] == 'call' and callee_path(t) == 'ast.Compare':
                kw = dict(t[3])
                ops = kw.get('ops') or (t[2][1] if len(t[2]) > 1 else ('const', None))
                c.expect(show(ops) == '[%s()]' % want, 'pattern', kind, f.loc(), 'compared with ' + show(ops))
    te = evaluate(c, f, ['self', 'pattern', 'node'], {pat: ast.MatchOr})
    for conds, out, eff, env in te.paths:
        t = out[1]
        if out[0] == 'ret' and t[0] == 'call' and callee_path(t) == 'ast.BoolOp':
            kw = dict(t[3])
            op = kw.get('op') or t[2][0]
            c.expect(show(op) == 'ast.Or()', 'pattern', 'MatchOr', f.loc(), 'alternatives joined by ' + show(op))
    g = cl.methods['_translate_match_pattern_cond']
    te = evaluate(c, g, ['self', 'pattern', 'subj', 'subj_type', 'node', 'ctx'], {pat: ast.MatchOr})
    for s, it, entry, ends in te.first_loops:
        for env, conds, eff in ends:
            for n, t in env.items():
                if isinstance(t, tuple) and t != entry.get(n) and (is_call(t, 'Or') or is_call(t, 'And')) and \
                        ('loop', n) in t[2]:
                    c.expect(is_call(t, 'Or'), 'pattern', 'MatchOr encoding', g.loc(), 'alternatives joined by And')
    c.floor('pattern', 3)


def waitlevel(c):
    c.rule('waitlevel', 'only a strict order between levels is taken as a wait level comparison, operands in order')
    cl = c.project.cls(NT + 'translators.obligation.waitlevel', 'WaitLevelTranslator')
    f = cl.methods['is_wait_level_comparison']
    opt = ('sub', A(P('node'), 'ops'), ('const', 0))
    for op in ('Eq', 'NotEq', 'Is', 'IsNot', 'Lt', 'LtE', 'Gt', 'GtE', 'In', 'NotIn'):
        te = evaluate(c, f, ['self', 'node', 'ctx'], {opt: getattr(ast, op)})
        acc = any(o[0] == 'ret' and decided(o[1]) is not False for _, o, _, _ in te.paths)
        c.expect(acc == (op == 'Lt'), 'waitlevel', op, f.loc(), 'comparison with %s %s a level comparison' % (
            op, 'is taken as' if acc else 'is not taken as'))
    g = cl.methods['translate_wait_level_comparison']
    te = evaluate(c, g, ['self', 'node', 'ctx'], {})
    for conds, out, eff, env in te.paths:
        for x in subterms(out[1]):
            if x[0] == 'call' and show(x[1]).split('.')[-1].startswith('Perm') and show(x[1]).endswith('Cmp'):
                l, r = x[2][0], x[2][1]
                ok = show(x[1]).endswith('PermLtCmp') and 'node.left' in show(l) and 'comparators' in show(r)
                c.expect(ok, 'waitlevel', 'operands', g.loc(), 'encoded as ' + show(x))
    for name in ('_translate_waitlevel_loop', '_translate_waitlevel_method', 'create_level_below'):
        h = cl.methods.get(name)


def decided(t):
    if t[0] == 'const':
        return bool(t[1])
    if t[0] == 'bool' and t[1] == 'and':
        vs = [decided(x) for x in t[2]]
        return False if False in vs else None
    return None


if __name__ == '__main__':
    run('C07', 'operators', main)

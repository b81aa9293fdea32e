from _common import *

# intermediate-language statement factories: a statement that is built must be emitted
STMT_NODES = {'LocalVarAssign', 'FieldAssign', 'Inhale', 'Exhale', 'Assert', 'Assume', 'MethodCall',
              'NewStmt', 'If', 'While', 'Seqn', 'Fold', 'Unfold', 'Label', 'Goto', 'Refute',
              'Break', 'Continue', 'Return', 'Try', 'Raise'}
PKG = ('nagini_translation.translators', 'nagini_translation.sif.translators')
# Reviewed places where dropping is right.
ALLOWED = {
    ('ContractTranslator.translate_fold', 'translate_expr'):
        'the whole fold is ignored while family folds are ignored',
    ('ContractTranslator.translate_unfold', 'translate_expr'):
        'the whole unfold is ignored while family folds are ignored',
    ('PredicateTranslator.translate_predicate_family', 'MethodCall'):
        'built only to record a dependency',
    ('ProgramTranslator._create_enum_func_box_and_unbox', 'translate_expr'):
        'values of enumerations are static fields, whose purity translate_static_field_value enforces',
    ('StatementTranslator._assign_with_subscript', 'get_func_or_method_call'):
        'the re-read element is not used',
    ('CallTranslator.translate_call_in_union', 'LocalVarAssign'):
        'appended to the list that guard_stmts_expr holds',
    ('CallTranslator.translate_call_in_union', 'arg_stmts'):
        'a union has at least one member, whose call receives them',
    ('ObligationMethod.prepend_body', 'statements'):
        'a method without a body has nothing to prepend to',
    ('StatementTranslator.translate_stmt_Break', 'Goto'):
        'replaced by the jump to the finally block (C23)',
    ('StatementTranslator.translate_stmt_Continue', 'Goto'):
        'replaced by the jump to the finally block (C23)',
    ('MethodTranslator.translate_finally', 'Goto'):
        'which jumps are needed depends on the surrounding blocks (C23)',
    ('MethodTranslator.translate_finally', 'LocalVarAssign'):
        'which jumps are needed depends on the surrounding blocks (C23)',
    ('MethodTranslator.translate_finally', 'translate_block'):
        'which jumps are needed depends on the surrounding blocks (C23)',
    ('ObligationMethodForkConstructor._remember_old_expressions', 'translate_expr'):
        'contracts are rejected when impure where they are declared',
    ('ObligationMethodForkConstructor._add_precondition_exhales', 'translate_expr'):
        'contracts are rejected when impure where they are declared',
    ('CallTranslator._inhale_possible_thread_post', 'translate_expr'):
        'contracts are rejected when impure where they are declared',
}
MEASURE = {'len', 'bool', 'any', 'all', 'isinstance', 'type', 'str', 'repr', 'print'}


def component(ann):
    """Index of the statements in a returned value: int, 'all' or None."""
    if ann is None:
        return None
    s = ast.unparse(ann).replace("'", '').replace('"', '')
    if s == 'StmtsAndExpr':
        return 0
    if s in ('List[Stmt]', 'Stmt', 'Optional[Stmt]'):
        return 'all'
    if s.startswith('Tuple['):
        e = ann
        if isinstance(ann, ast.Constant):
            e = ast.parse(ann.value, mode='eval').body
        for i, x in enumerate(e.slice.elts if isinstance(e.slice, ast.Tuple) else []):
            if ast.unparse(x) in ('List[Stmt]', 'List[ast.stmt]') or ast.unparse(x) == 'List' and 'Expr' in s:
                return i
    return None


def inferred(fn):
    """The component for a function without a (precise) annotation, from the names it returns."""
    k = component(fn.returns)
    if k is not None:
        return k
    ks = set()
    for r in walk_shallow(fn):
        if isinstance(r, ast.Return) and isinstance(r.value, ast.Tuple):
            e = [i for i, x in enumerate(r.value.elts) if isinstance(x, ast.Name) and
                 x.id.endswith(('stmt', 'stmts'))]
            ks.add(e[0] if len(e) == 1 else None)
        elif isinstance(r, ast.Return):
            ks.add(None)
    if len(ks) == 1 and fn.returns is None:
        return ks.pop()
    return None


class Sources:
    def __init__(self, c):
        self.c = c
        self.by_name = {}
        for f in c.project.all_functions():
            if f.module.name.startswith(PKG):
                self.by_name.setdefault(f.name, []).append((inferred(f.node), f))
        self.empty = {}

    def always_empty(self, f, depth=0):
        """Every return statement of f has a literally empty statement part."""
        k = inferred(f.node)
        rets = [n for n in walk_shallow(f.node) if isinstance(n, ast.Return)]
        if k != 0 or not rets:
            return False
        for r in rets:
            v = r.value
            if isinstance(v, ast.Tuple) and isinstance(v.elts[0], ast.List) and not v.elts[0].elts:
                continue
            if depth < 3 and isinstance(v, ast.Call):
                n = attr_name(v)
                ds = [g for kk, g in self.by_name.get(n, ()) if not abstract(g)]
                if ds and all(self.always_empty(g, depth + 1) for g in ds):
                    continue
            return False
        return True

    def of(self, call, fi):
        """component of the call's value that holds statements, or None"""
        n = attr_name(call)
        if n is None:
            return None
        if n == 'translate' and dotted(call.func) != 'self.translate':
            return None
        d = dotted(call.func) or ''
        if n in STMT_NODES and (d.startswith(('self.viper.', 'translator.viper.', 'viper.')) and d.count('.') <= 2):
            return 'all'
        ds = [(k, f) for k, f in self.by_name.get(n, ()) if not abstract(f)]
        if not ds:
            return None
        ks = {k for k, f in ds}
        if len(ks) > 1:
            own = [(k, f) for k, f in ds if fi.cls is not None and d.startswith('self.') and d.count('.') == 1 and
                   f.cls is not None and (f.cls is fi.cls or f.cls in fi.cls.mro())]
            if own:
                ds = own[:1]
            elif d.startswith('self.') and d.count('.') == 1:
                # inherited or delegated through the common translator
                ds = [(k, f) for k, f in ds if k is not None and 'io_operation' not in f.module.name]
            else:
                ds = [(k, f) for k, f in ds if k is not None]
            ks = {k for k, f in ds}
            if len(ks) != 1:
                return None
        k = ks.pop()
        if k == 0 and all(self.always_empty(f) for _, f in ds):
            return None
        return k


def abstract(f):
    b = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    cl = f.cls.name if f.cls else ''
    if cl in ('AbstractTranslator', 'CommonTranslator') and len(b) == 1:
        return True
    return all(isinstance(s, ast.Pass) for s in b) or (
        len(b) == 1 and isinstance(b[0], ast.Raise))


def targets(t):
    if isinstance(t, ast.Name):
        return {t.id}
    if isinstance(t, (ast.Tuple, ast.List)):
        return set().union(*[targets(e) for e in t.elts]) if t.elts else set()
    if isinstance(t, ast.Starred):
        return targets(t.value)
    return set()


def uses(expr, carriers, whole):
    """Does evaluating expr hand on a carrier (not merely measure or test it)?"""
    if isinstance(expr, ast.Name):
        return expr.id in carriers
    if isinstance(expr, ast.Subscript) and isinstance(expr.value, ast.Name) and expr.value.id in whole:
        if isinstance(expr.slice, ast.Constant) and expr.slice.value != whole[expr.value.id]:
            return False
    if isinstance(expr, ast.Compare):
        return any(isinstance(o, (ast.In, ast.NotIn)) for o in expr.ops) and False
    if isinstance(expr, ast.UnaryOp) and isinstance(expr.op, ast.Not):
        return False
    if isinstance(expr, ast.Call) and isinstance(expr.func, ast.Name) and expr.func.id in MEASURE:
        return False
    if isinstance(expr, ast.IfExp):
        return uses(expr.body, carriers, whole) or uses(expr.orelse, carriers, whole)
    return any(uses(x, carriers, whole) for x in ast.iter_child_nodes(expr))


def contains(tree, node):
    return any(x is node for x in ast.walk(tree))


def stmt_contains(node, call):
    return any(contains(e, call) for e in node_exprs(node))


def lost_component(parents_of, call, k):
    """The call's value is immediately reduced to a part without statements."""
    par = parents_of.get(call)
    if k != 'all' and isinstance(par, ast.Subscript) and par.value is call:
        i = par.slice
        if isinstance(i, ast.Constant) and i.value != k:
            return True
    return False


class Token:
    def __init__(self, call, k):
        self.call, self.k = call, k


def analyse(c, src, fi):
    fn = fi.node
    par = {}
    for n in ast.walk(fn):
        for x in ast.iter_child_nodes(n):
            par[x] = n
    calls = [n for n in walk_shallow(fn) if isinstance(n, ast.Call)]
    toks = []
    for call in calls:
        k = src.of(call, fi)
        if k is None:
            continue
        toks.append((call, k))
    sparams = stmt_params(fi)
    if not toks and not sparams:
        return
    cfg = CFG(fn)
    locals_ = set(local_defs(fn))
    params = set(fi.all_params)
    for p in sparams:
        verdict = solve(fn, cfg, p, 'all', None, locals_ | {p.arg}, params, par)
        if verdict and (fi.qual.split(':')[1], p.arg) in ALLOWED:
            verdict = None
        c.expect(verdict is None, 'kept', '%s: parameter %s' % (fi.qual, p.arg), fi.loc(fn),
                 'statements of parameter %s are lost: %s' % (p.arg, verdict), fi.qual)
    for call, k in toks:
        construct = '%s: %s' % (fi.qual, ast.unparse(call)[:60])
        if lost_component(par, call, k):
            c.bad('kept', construct, fi.loc(call), 'only a part without the statements of %s is used' % attr_name(call))
            continue
        # nearest statement
        st = call
        chain = [st]
        while not isinstance(st, ast.stmt):
            st = par[st]
            chain.append(st)
        verdict = solve(fn, cfg, call, k, st, locals_, params, par)
        if verdict and (fi.qual.split(':')[1], attr_name(call)) in ALLOWED:
            c.ok('kept', fi.loc(call), 'reviewed: ' + ALLOWED[fi.qual.split(':')[1], attr_name(call)])
            continue
        c.expect(verdict is None, 'kept', construct, fi.loc(call),
                 'statements of %s are lost: %s' % (attr_name(call), verdict), fi.qual)


def stmt_params(fi):
    fn = fi.node
    out = []
    for p in fn.args.args:
        if p.annotation is not None and ast.unparse(p.annotation).strip("'") in ('List[Stmt]', 'List') and not abstract(fi) and \
                ('Stmt' in ast.unparse(p.annotation) or p.arg.endswith('stmts')):
            grown = any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and
                        n.func.attr in ('append', 'extend', 'insert') and dotted(n.func.value) == p.arg
                        for n in ast.walk(fn))
            if not grown:
                out.append(p)
    return out


def facts_of(fn):
    """Tests that occur more than once in the function (correlated branches)."""
    seen = {}
    for n in ast.walk(fn):
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            todo = [n.test]
            while todo:
                t = todo.pop()
                if isinstance(t, ast.BoolOp):
                    todo += t.values
                elif isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                    todo.append(t.operand)
                else:
                    seen.setdefault(ast.dump(t), []).append(t)
    out = {k for k, v in seen.items() if len(v) > 1}
    return out


def live_tests(cfg):
    """Per node: the tests and the presence-tested names that are reachable after it."""
    own = {}
    for n in cfg.nodes:
        own[n] = (frozenset(), frozenset())
        if n.kind == 'test':
            nt = none_test(n.ast)
            own[n] = (frozenset([ast.dump(n.ast)]), frozenset([nt[0]] if nt else []))
    out = {n: (frozenset(), frozenset()) for n in cfg.nodes}
    changed = True
    while changed:
        changed = False
        for n in reversed(cfg.nodes):
            a, b = out[n]
            for _, m in n.succ:
                if m in own:
                    a |= out[m][0] | own[m][0]
                    b |= out[m][1] | own[m][1]
            if (a, b) != out[n]:
                out[n] = (a, b)
                changed = True
    return out


def none_test(e):
    """(name, label on which it is not None) for tests of the presence of a local."""
    if isinstance(e, ast.Name):
        return e.id, 'T'
    if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.left, ast.Name) and \
            isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value is None:
        if isinstance(e.ops[0], (ast.Is, ast.Eq)):
            return e.left.id, 'F'
        if isinstance(e.ops[0], (ast.IsNot, ast.NotEq)):
            return e.left.id, 'T'
    return None


def solve(fn, cfg, call, k, stmt, locals_, params, par):
    """First without, then (for reports only) with knowledge of correlated branches."""
    v = solve1(fn, cfg, call, k, stmt, locals_, params, par, False)
    if v is not None:
        v = solve1(fn, cfg, call, k, stmt, locals_, params, par, True)
    return v


def solve1(fn, cfg, call, k, stmt, locals_, params, par, correlated):
    """None, or a description of a path on which the statements are lost."""
    lost = []

    def begin(node):
        """state after the statement that contains the call"""
        a = node.ast
        if isinstance(stmt, (ast.Return,)):
            return 'done'
        if isinstance(a, ast.Expr):
            if a.value is call:
                lost.append('value discarded')
                return 'done'
            return hand_on(a, call)
        if isinstance(a, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            tg = a.targets if isinstance(a, ast.Assign) else [a.target]
            direct = a.value is call or isinstance(a.value, ast.IfExp) and call in (a.value.body, a.value.orelse)
            if direct and k != 'all' and len(tg) == 1 and isinstance(tg[0], (ast.Tuple, ast.List)):
                el = tg[0].elts
                if k < len(el):
                    return carry(targets(el[k]), {}) if not isinstance(el[k], (ast.Attribute, ast.Subscript)) else 'done'
            ts = set()
            for t in tg:
                if isinstance(t, (ast.Attribute, ast.Subscript)):
                    b = t
                    while isinstance(b, (ast.Attribute, ast.Subscript)):
                        b = b.value
                    if isinstance(t, ast.Subscript) and isinstance(b, ast.Name) and b.id in locals_ and b.id not in params:
                        ts.add(b.id)
                    else:
                        return 'done'
                ts |= targets(t)
            whole = {}
            if direct and k != 'all' and len(tg) == 1 and isinstance(tg[0], ast.Name):
                whole = {tg[0].id: k}
            return carry(ts, whole)
        if node.kind == 'test':
            return 'done' if a is not call else 'lost'
        return 'done'

    def carry(names, whole):
        return (frozenset(names), frozenset(whole.items()))

    def hand_on(st, call):
        # x.append(call) with a local x: x carries
        v = st.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and \
                v.func.attr in ('append', 'extend', 'insert', 'add', 'update', 'setdefault'):
            b = v.func.value
            while isinstance(b, (ast.Subscript, ast.Attribute)) :
                b = b.value
            if isinstance(b, ast.Name) and isinstance(v.func.value, (ast.Name, ast.Subscript)) and \
                    b.id in locals_ and b.id not in params:
                return carry({b.id}, {})
        return 'done'

    # The same source expression, or one that contains it, is translated again from scratch.
    src_arg = dotted(call.args[0]) if isinstance(call, ast.Call) and call.args else None

    def redone(node):
        if stmt_contains(node, call):
            return False
        if any(isinstance(x, ast.Call) and attr_name(x) == '_inline_call' for e in node_exprs(node) for x in ast.walk(e)):
            return True     # translates the whole call, receiver and arguments included, from scratch
        if src_arg is None:
            return False
        for e in node_exprs(node):
            for x in ast.walk(e):
                if isinstance(x, ast.Call) and attr_name(x) == 'translate_expr':
                    for y in x.args:
                        d = dotted(y)
                        if d and (src_arg == d or src_arg.startswith(d + '.')):
                            return True
        return False

    vnames = set()
    if isinstance(stmt, ast.Assign) and stmt.value is call and k != 'all' and isinstance(stmt.targets[0], ast.Tuple):
        for i, e in enumerate(stmt.targets[0].elts):
            if i != k:
                vnames |= targets(e)

    def nonempty(state):
        """The statements were tested and exist: they may be dropped if the value is not used."""
        if vnames and '?U' not in state[0]:
            return [(state[0] | {'?T'}, state[1])]
        return [state]

    def reads_value(node):
        return any(isinstance(x, ast.Name) and x.id in vnames and isinstance(x.ctx, ast.Load)
                   for e in node_exprs(node) for x in ast.walk(e))

    def step0(node, label, state):
        a = node.ast
        if not isinstance(state, str) and '?T' in state[0] and node.kind != 'handler' and reads_value(node):
            state = (state[0] - {'?T'} | {'?U'}, state[1])
        if not isinstance(state, str) and a is not None and redone(node):
            return ['done']
        here = a is not None and node.kind in ('stmt', 'test', 'foriter', 'with_enter') and any(
            contains(e, call) for e in node_exprs(node))
        if here and label != 'x':
            new = begin(node)
            if state not in ('none', 'done') and new != 'done':
                if isinstance(a, ast.AugAssign):
                    return [(state[0] | new[0], state[1])]
                names = state[0] - (new[0] if not isinstance(new, str) else set())
                # the earlier value is overwritten without having been handed on
                tgt = new[0]
                if not (state[0] - tgt) and not any(uses(e, state[0], dict(state[1])) for e in values(a)):
                    lost.append('overwritten by the next one')
                    return [new]
                if state[0] - tgt or True:
                    return [new, (state[0] - tgt, frozenset((n, kk) for n, kk in state[1] if n not in tgt))] \
                        if state[0] - tgt - {'?U', '?T'} else [new]
            return [new]
        if state in ('none', 'done'):
            return [state]
        if label == 'x':
            return [state]
        names, whole = state[0], dict(state[1])
        if node.kind == 'test':
            e = a
            simple = isinstance(e, ast.Name) or isinstance(e, ast.BinOp) or (
                isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('len', 'any', 'bool')) or (
                isinstance(e, ast.Subscript))
            if simple and names_in(e) & names:
                return ['done'] if label == 'F' else nonempty(state)
            if isinstance(e, ast.Compare) and names_in(e) & names and isinstance(e.left, ast.Call) and \
                    attr_name(e.left) == 'len':
                zero = isinstance(e.ops[0], ast.Eq)
                return ['done'] if (label == 'T') == zero else nonempty(state)
            if uses(e, names, whole):
                return ['done']
            return [state]
        if node.kind == 'foriter':
            if isinstance(a.iter, ast.Name) and a.iter.id in names or uses(a.iter, names, whole):
                return ['done']
            return [state]
        if node.kind == 'for':
            dead = targets(a.target) & names
            return kill(state, dead)
        if node.kind == 'with_enter':
            return [state]
        if node.kind == 'def':
            if any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(a)):
                return ['done']
            return [state]
        if node.kind != 'stmt':
            return [state]
        if isinstance(a, ast.Assert):
            t = a.test
            if isinstance(t, ast.UnaryOp) and names_in(t) & names:
                return ['done']
            return [state]
        if isinstance(a, (ast.Return, ast.Expr)) or isinstance(a, ast.Delete):
            if getattr(a, 'value', None) is not None and uses(a.value, names, whole):
                if isinstance(a, ast.Expr):
                    r = hand_on(a, None)
                    if r != 'done':
                        if set(r[0]) <= names:
                            return [state]
                        return [(names | r[0], state[1])]
                return ['done']
            return [state]
        if isinstance(a, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            tg = a.targets if isinstance(a, ast.Assign) else [a.target]
            ts = set().union(*[targets(t) for t in tg])
            if a.value is not None and uses(a.value, names, whole):
                for t in tg:
                    if isinstance(t, ast.Attribute):
                        return ['done']
                    if isinstance(t, ast.Subscript):
                        b = t.value
                        while isinstance(b, (ast.Attribute, ast.Subscript)):
                            b = b.value
                        if not isinstance(b, ast.Name) or b.id in params or b.id not in locals_:
                            return ['done']
                        ts = ts | {b.id}
                # unpacking of the whole tuple
                if isinstance(a.value, ast.Name) and a.value.id in whole and isinstance(tg[0], ast.Tuple):
                    kk = whole[a.value.id]
                    if kk < len(tg[0].elts):
                        return [(frozenset(targets(tg[0].elts[kk])) | names, state[1])]
                keep = names if isinstance(a, ast.AugAssign) else frozenset(
                    n for n in names if n not in ts or True)
                w2 = tuple((n, kk) for n, kk in state[1] if n not in ts)
                return [(frozenset(keep | ts), frozenset(w2))]
            if isinstance(a, ast.AugAssign):
                return [state]
            return kill(state, ts & names)
        return [state]

    def kill(state, dead):
        if not dead:
            return [state]
        rest = state[0] - dead
        if '?T' in state[0] and not rest - {'?T'}:
            return ['done']
        if not rest - {'?U'}:
            lost.append('the variable holding them is overwritten')
            return ['done']
        return [(rest, state[1])]
    repeated = facts_of(fn) if correlated else set()

    def step(node, label, full):
        state, facts = full
        a = node.ast
        if not correlated:
            return [(s2, facts) for s2 in step0(node, label, state)]
        if node.kind == 'test':
            d = ast.dump(a)
            known = dict(facts)
            nt = none_test(a)
            if nt and ('some', nt[0]) in known and label in 'TF':
                if (label == nt[1]) != known[('some', nt[0])]:
                    return []
            if d in repeated and label in 'TF':
                if d in known and known[d] != label:
                    return []
                if state not in ('done',):
                    known[d] = label
                    facts = frozenset(known.items())
        elif node.kind in ('stmt', 'for', 'with_enter') and facts or node.kind == 'stmt':
            st = set()
            for n in ast.walk(a if node.kind == 'stmt' else a.target if node.kind == 'for' else (
                    a.optional_vars or ast.Pass())):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    st.add(n.id)
            if st:
                facts = frozenset((k, v) for k, v in facts if not (
                    k[1] in st if isinstance(k, tuple) else any("id='%s'" % x in k for x in st)))
            if isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and label != 'x':
                v = a.value
                nm = a.targets[0].id
                if nm in tested:
                    if isinstance(v, ast.Constant) and v.value is None:
                        facts = facts | {(('some', nm), False)}
                    elif isinstance(v, ast.Call) and (dotted(v.func) or '').startswith('self.viper.'):
                        facts = facts | {(('some', nm), True)}
        out = []
        if facts:
            lv = live[node]
            facts = frozenset((k, v) for k, v in facts if (
                any(k[1] == n for n in lv[1]) if isinstance(k, tuple) else k in lv[0]))
        for s2 in step0(node, label, state):
            out.append((s2, facts if s2 != 'done' else frozenset()))
        return out
    live = live_tests(cfg) if correlated else {}
    tested = {nt[0] for n in ast.walk(fn) if isinstance(n, ast.expr) for nt in [none_test(n)] if nt}
    start = 'none' if stmt is not None else (frozenset([call.arg]), frozenset())
    if stmt is None:
        call = ast.Call(func=ast.Name(id='?'), args=[], keywords=[])
    normal, exc, seen = run_paths(cfg, (start, frozenset()), step)
    for full in normal:
        st = full[0]
        if st not in ('none', 'done') and '?T' not in st[0]:
            return 'a path returns without using %s (lines %s)' % (
                ', '.join(sorted(st[0])) or 'them', witness(seen, cfg.exit, full))
    if lost:
        return lost[0]
    return None


def values(a):
    return [a.value] if isinstance(a, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Expr)) and a.value else []


def main(c):
    c.rule('kept', 'the statements returned by a translation call are returned, emitted, handed on or '
                   'proven empty on every path that does not reject the program')
    src = Sources(c)
    for f in c.project.all_functions():
        if f.module.name.startswith(PKG):
            analyse(c, src, f)
    c.floor('kept', 400)


if __name__ == '__main__':
    run('C06', 'statements are never lost', main)

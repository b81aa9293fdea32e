from _common import *
import string

MSG = NT + 'lib.errors.messages'
RULES = NT + 'lib.errors.rules'
WRAP = NT + 'lib.errors.wrappers'

# Error ids of the Viper constructs this translator emits (frozen list: id -> the construct
# whose failing check has it).
BACKEND_ERRORS = {
    'assignment.failed': 'LocalVarAssign', 'call.failed': 'MethodCall',
    'not.wellformed': 'contracts', 'call.precondition': 'MethodCall',
    'application.precondition': 'FuncApp', 'exhale.failed': 'Exhale',
    'inhale.failed': 'Inhale', 'if.failed': 'If', 'while.failed': 'While',
    'assert.failed': 'Assert', 'postcondition.violated': 'Method',
    'fold.failed': 'Fold', 'unfold.failed': 'Unfold',
    'invariant.not.preserved': 'While', 'invariant.not.established': 'While',
    'function.not.wellformed': 'Function', 'predicate.not.wellformed': 'Predicate',
    'termination.failed': 'decreases clauses', 'refute.failed': 'Refute',
    'predicateinstance.no.access': 'decreases clauses', 'internal': 'any',
}
BACKEND_REASONS = {
    'assertion.false': 'any assertion', 'receiver.null': 'field access',
    'division.by.zero': 'Div/Mod', 'negative.permission': 'accessibility predicates',
    'permission.not.positive': 'Fold/Unfold', 'insufficient.permission': 'accesses',
    'internal': 'any', 'qp.not.injective': 'quantified permissions',
    'tuple.false': 'decreases tuples', 'termination.condition.false': 'decreases conditions',
    'refutation.true': 'Refute',
}


def lambda_of(c, v, m):
    if isinstance(v, ast.Lambda):
        return v
    if isinstance(v, Sym):
        r = c.project.resolve_symbol(m.name, str(v))
        if isinstance(r, FunctionInfo):
            return r.node
    return None


def one_arg(fn):
    a = fn.args
    n = len(a.posonlyargs + a.args)
    req = n - len(a.defaults)
    return req <= 1 and (n >= 1 or a.vararg is not None) and not [
        k for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]


def fields(s):
    """Positional fields of a format string: (max index or count, named)."""
    auto, mx, named = 0, 0, set()
    for _, name, spec, _ in string.Formatter().parse(s):
        if name is None:
            continue
        first = name.split('.')[0].split('[')[0]
        if first == '':
            auto += 1
        elif first.isdigit():
            mx = max(mx, int(first) + 1)
        else:
            named.add(first)
    return max(auto, mx), auto, named


def main(c):
    p, ev = c.project, c.ev
    m = p.module(MSG)
    errors = ev.const(MSG, 'ERRORS')
    reasons = ev.const(MSG, 'REASONS')
    vague = ev.const(MSG, 'VAGUE_REASONS')

    c.rule('table-entry', 'each message table entry is a function of one argument; keys are unique')
    for tname, table in (('ERRORS', errors), ('REASONS', reasons)):
        for d in getattr(table, 'duplicates', []):
            c.bad('table-entry', '%s duplicate %s' % (tname, d), m.relpath,
                  'two rows for the same id: the first message is unreachable')
        for k, v in table.items():
            fn = lambda_of(c, v, m)
            c.expect(isinstance(k, str) and fn is not None and one_arg(fn), 'table-entry',
                     '%s[%s]' % (tname, k), m.relpath,
                     'is not a function that accepts the one node it is rendered with')
    c.floor('table-entry', 60)

    c.rule('backend-id', 'each error and reason id the backend reports for emitted constructs has a message')
    for k, why in BACKEND_ERRORS.items():
        c.expect(k in errors, 'backend-id', 'ERRORS[%s]' % k, m.relpath,
                 'no message for the error id of %s' % why)
    for k, why in BACKEND_REASONS.items():
        c.expect(k in reasons, 'backend-id', 'REASONS[%s]' % k, m.relpath,
                 'no message for the reason id of %s' % why)

    c.rule('vague', 'each vague reason is also a reason and its text is a string')
    for k, v in vague.items():
        c.expect(k in reasons and isinstance(v, str), 'vague', 'VAGUE_REASONS[%s]' % k, m.relpath,
                 'no such reason, or not a text')

    # A reason can be rendered without a node (unregistered offending position); a message that
    # dereferences or pretty-prints its node then needs a vague fallback if the backend itself
    # reports that reason.
    c.rule('vague-fallback', 'backend reasons whose message uses the node have a node-free fallback')
    for k in BACKEND_REASONS:
        fn = lambda_of(c, reasons.get(k), m)
        if fn is None:
            continue
        arg = fn.args.args[0].arg
        body = fn.body if isinstance(fn, ast.Lambda) else ast.Module(fn.body, [])
        uses = any(isinstance(n, ast.Name) and n.id == arg for n in ast.walk(body))
        c.expect(not uses or k in vague, 'vague-fallback', k, m.relpath,
                 'message needs a node but there is no fallback text for node-less reasons')

    # ------------------------------------------------------------- rules
    rm = p.module(RULES)
    c.rule('rule-target', 'each conversion maps an (error, reason) pair to ids that have messages')
    tables = {}
    for name in rm.assigns:
        if name.startswith('__') or not name.isupper():
            continue
        v = ev.const(RULES, name)
        if not isinstance(v, dict):
            continue
        tables[name] = v
        if getattr(v, 'duplicates', None):
            c.bad('rule-target', name + ' duplicate key', rm.relpath, str(v.duplicates))
        for k, t in v.items():
            okk = isinstance(k, tuple) and len(k) == 2 and k[0] in errors and k[1] in reasons
            c.expect(okk and k[0] in BACKEND_ERRORS and k[1] in BACKEND_REASONS, 'rule-target',
                     '%s key %s' % (name, k), rm.relpath,
                     'not an (error id, reason id) pair that the backend reports: the rule never applies')
            okt = isinstance(t, tuple) and len(t) == 2 and t[0] in errors and t[1] in reasons
            c.expect(okt, 'rule-target', '%s target %s' % (name, t), rm.relpath,
                     'conversion produces an id without a message')
    c.floor('rule-target', 60)

    # Every conversion that produces a specific id must come from at least one rule: ids that are
    # not backend ids and that no rule produces are dead rows (allowed), the converse is above.
    c.rule('rule-use', 'each conversion rule attached to a position is a defined rule table')
    for mod in p.modules.values():
        if not mod.name.startswith(NT):
            continue
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and \
                    p.resolve_symbol(mod.name, n.value.id) is rm and n.attr != 'Rules' and \
                    not shadowed(n, n.value.id):
                c.expect(n.attr in tables, 'rule-use', '%s uses %s' % (mod.name, n.attr),
                         '%s:%d' % (mod.relpath, n.lineno), 'no such conversion rule')
            if isinstance(n, ast.keyword) and n.arg in ('rules', 'conversion_rules'):
                ok = True
                v = n.value
                if isinstance(v, ast.Constant) and v.value is not None:
                    ok = False
                c.expect(ok, 'rule-use', '%s passes %s' % (mod.name, ast.unparse(v)),
                         '%s:%d' % (mod.relpath, v.lineno), 'not a rule table')
    c.floor('rule-use', 40)
    exp = None
    try:
        exp = ev.const(RULES, '__all__')
    except AnalysisError:
        pass
    if exp is not None:
        for n in exp:
            c.expect(n in tables or n in rm.classes, 'rule-use', '__all__ ' + n, rm.relpath,
                     'exported name is not defined')

    # --------------------------------------------------- lookups of the tables
    c.rule('lookup', 'the message tables are indexed by the converted ids')
    wm = p.module(WRAP)
    ecls, rcls = p.cls(WRAP, 'Error'), p.cls(WRAP, 'Reason')
    init = ecls.find('__init__')
    check_error_init(c, init)
    for cls, table in ((ecls, 'ERRORS'), (rcls, 'REASONS')):
        hits = 0
        for f in cls.methods.values():
            for n in walk_shallow(f.node):
                if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and \
                        n.value.id in ('ERRORS', 'REASONS', 'VAGUE_REASONS'):
                    want = ('ERRORS',) if table == 'ERRORS' else ('REASONS', 'VAGUE_REASONS')
                    idx = resolve_local(f.node, n.slice)
                    c.expect(n.value.id in want and is_self_attr(idx, 'identifier'), 'lookup',
                             '%s.%s %s' % (cls.name, f.name, n.value.id), f.loc(n),
                             '%s message is looked up in the wrong table or by another key' % cls.name)
                    hits += 1
                    if n.value.id == 'VAGUE_REASONS':
                        guarded(c, f, n)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Subscript) and \
                        isinstance(n.func.value, ast.Name) and n.func.value.id in ('ERRORS', 'REASONS'):
                    c.expect(len(n.args) == 1 and not n.keywords, 'lookup',
                             '%s.%s call' % (cls.name, f.name), f.loc(n),
                             'message function is not called with exactly one node')
        if not hits:
            raise AnalysisError('no lookup of %s in class %s' % (table, cls.name))
    # Reason.__init__ stores its first argument as identifier
    ri = rcls.find('__init__')
    params = ri.params
    st = [n for n in walk_shallow(ri.node) if isinstance(n, ast.Assign) and
          any(is_self_attr(t, 'identifier') for t in n.targets)]
    if not st:
        raise AnalysisError('Reason no longer stores identifier')
    idp = None
    for s in st:
        v = resolve_local(ri.node, s.value)
        idp = v.id if isinstance(v, ast.Name) else None
        c.expect(idp in params, 'lookup', 'Reason.identifier', ri.loc(s), 'not set from a parameter')
    # all constructions of Reason pass the converted reason id there
    for n in walk_shallow(init.node):
        if isinstance(n, ast.Call) and p.resolve_callee(n.func, init) == [ri]:
            a = bind_args(n, ri, True).get(idp)
            ok = a is not None and isinstance(a, ast.Name) and a.id in REASON_VARS
            c.expect(ok, 'lookup', 'Error builds Reason', init.loc(n),
                     'the reason is not built with the converted reason id')

    # -------------------------------------------------------- format strings
    c.rule('format', 'diagnostic format strings have exactly the fields that are supplied')
    for mod in p.modules.values():
        if not mod.name.startswith(NT):
            continue
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                    n.func.attr == 'format' and isinstance(n.func.value, ast.Constant) and \
                    isinstance(n.func.value.value, str):
                if any(isinstance(a, ast.Starred) for a in n.args) or \
                        any(k.arg is None for k in n.keywords):
                    continue
                try:
                    need, auto, named = fields(n.func.value.value)
                except ValueError as e:
                    c.bad('format', '%s %r' % (mod.name, n.func.value.value[:40]),
                          '%s:%d' % (mod.relpath, n.lineno), str(e))
                    continue
                kws = {k.arg for k in n.keywords}
                c.expect(need <= len(n.args) and named <= kws, 'format',
                         '%s %r' % (mod.name, n.func.value.value[:40]),
                         '%s:%d' % (mod.relpath, n.lineno),
                         'needs %d positional / %s named values, gets %d / %s' % (
                             need, sorted(named), len(n.args), sorted(kws)))
                if mod.name in (MSG, WRAP):
                    c.expect(len(n.args) <= need, 'format', '%s unused %r' % (
                        mod.name, n.func.value.value[:40]), '%s:%d' % (mod.relpath, n.lineno),
                        'a supplied value is not shown')
    c.floor('format', 60)

    manager(c)


REASON_VARS = set()


def check_error_init(c, init):
    """(error id, reason id) is the lookup key; both results replace the ids that are stored."""
    fn = init.node
    d = local_defs(fn)
    # variables by origin
    err_vars, reas_vars = set(), set()
    params = init.params
    errp = params[1]
    reason_objs = {n for n, ds in d.items() if any(
        isinstance(x, ast.Call) and dotted(x.func) == errp + '.reason'
        for v, _ in ds for x in ast.walk(v) if not isinstance(v, ast.ExceptHandler))}
    for n, ds in d.items():
        for v, path in ds:
            if isinstance(v, ast.ExceptHandler):
                continue
            for x in ast.walk(v):
                if isinstance(x, ast.Call) and dotted(x.func) == errp + '.id':
                    err_vars.add(n)
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and \
                        x.func.attr == 'id' and isinstance(x.func.value, ast.Name) and \
                        x.func.value.id in reason_objs:
                    reas_vars.add(n)
    if not err_vars or not reas_vars:
        raise AnalysisError('Error.__init__ no longer computes the ids as expected')
    REASON_VARS.update(reas_vars)
    rules_param = params[2]
    found = False
    for n in walk_shallow(fn):
        key = None
        if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == rules_param:
            key = n.slice
        elif isinstance(n, ast.Call) and dotted(n.func) == rules_param + '.get':
            key = n.args[0]
        if key is None:
            continue
        found = True
        kexpr = resolve_local(fn, key)
        ok = isinstance(kexpr, ast.Tuple) and len(kexpr.elts) == 2 and \
            names_in(kexpr.elts[0]) & err_vars and names_in(kexpr.elts[1]) & reas_vars
        c.expect(ok, 'lookup', 'conversion key', init.loc(n),
                 'rules are not looked up by (error id, reason id)')
        # where does the result go
        st = enclosing_stmt(n)
        ok = isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Tuple) and \
            len(st.targets[0].elts) == 2 and \
            dotted(st.targets[0].elts[0]) in err_vars and dotted(st.targets[0].elts[1]) in reas_vars
        if not ok and isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name):
            t = st.targets[0].id
            for s2 in walk_shallow(fn):
                if isinstance(s2, ast.Assign) and isinstance(s2.value, ast.Name) and \
                        s2.value.id == t and isinstance(s2.targets[0], ast.Tuple):
                    e = s2.targets[0].elts
                    ok = len(e) == 2 and dotted(e[0]) in err_vars and dotted(e[1]) in reas_vars
        c.expect(ok, 'lookup', 'conversion result', init.loc(n),
                 'the converted pair does not replace (error id, reason id)')
    if not found:
        c.bad('lookup', 'conversion applied', init.loc(), 'conversion rules are never applied')
    st = [n for n in walk_shallow(fn) if isinstance(n, ast.Assign) and
          any(is_self_attr(t, 'identifier') for t in n.targets)]
    for s in st:
        c.expect(isinstance(s.value, ast.Name) and s.value.id in err_vars, 'lookup',
                 'Error.identifier', init.loc(s), 'is not the converted error id')
    if not st:
        raise AnalysisError('Error no longer stores identifier')
    # conversion precedes the stores
    lookup_line = None
    cfg = CFG(fn)

    def tr(node, label, state):
        if node.kind in ('stmt', 'test'):
            a = node.ast
            for x in ast.walk(a):
                if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and \
                        x.value.id == rules_param and isinstance(x.ctx, ast.Load):
                    if 'stored' in state:
                        bad.append(a)
                    return [state | {'conv'}]
                if isinstance(x, ast.Attribute) and is_self_attr(x, 'identifier') and \
                        isinstance(x.ctx, ast.Store):
                    return [state | {'stored'}]
        return [state]
    bad = []
    run_paths(cfg, frozenset(), tr)
    c.expect(not bad, 'lookup', 'conversion before store', init.loc(),
             'ids are stored before they are converted')


def guarded(c, f, sub):
    """VAGUE_REASONS[...] only after a membership test on the path."""
    cfg = CFG(f.node)
    bad = []

    def tr(node, label, state):
        if node.kind == 'test':
            t = node.ast
            if isinstance(t, ast.Compare) and len(t.ops) == 1 and \
                    isinstance(t.comparators[0], ast.Name) and t.comparators[0].id == 'VAGUE_REASONS':
                yes = (label == 'T') == isinstance(t.ops[0], ast.In)
                return [yes]
        if node.kind in ('stmt', 'test') and any(x is sub for x in ast.walk(node.ast)) and not state:
            bad.append(node)
        return [state]
    run_paths(cfg, False, tr)
    c.expect(not bad, 'lookup', '%s guarded' % f.qual.split(':')[1], f.loc(sub),
             'fallback text looked up without testing that it exists')


def shadowed(n, name):
    for q in parents(n):
        if isinstance(q, (ast.FunctionDef, ast.AsyncFunctionDef)):
            a = q.args
            if name in [x.arg for x in a.args + a.kwonlyargs + a.posonlyargs]:
                return not isinstance(getattr(n, 'ctx', None), ast.Load) or in_body(n, q)
    return False


def in_body(n, fn):
    for b in fn.body:
        if any(x is n for x in ast.walk(b)):
            return True
    return False


def manager(c):
    """The registry pairs every item with the rules of the same position."""
    p = c.project
    cls = p.cls(NT + 'lib.errors.manager', 'ErrorManager')
    c.rule('registry', 'items and rules are registered and looked up under the same position id')
    add = cls.find('add_error_information')
    ids = {}
    for n in walk_shallow(add.node):
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Subscript) and \
                isinstance(n.targets[0].value, ast.Attribute) and is_self_attr(n.targets[0].value):
            ids[n.targets[0].value.attr] = (ast.dump(resolve_local_name(add.node, n.targets[0].slice)), n)
    if len(ids) < 2:
        raise AnalysisError('add_error_information no longer fills both tables')
    rets = [n for n in walk_shallow(add.node) if isinstance(n, ast.Return)]
    keys = {k for k, _ in ids.values()}
    for r in rets:
        c.expect(r.value is not None and {ast.dump(resolve_local_name(add.node, r.value))} == keys,
                 'registry', 'returned id', add.loc(r), 'is not the id under which the item is stored')
    # stored values are the parameters of the same meaning
    for attr, (k, n) in ids.items():
        vals = influences(add.node, n.value)
        ps = [x for x in add.params[1:] if x in vals]
        c.expect(bool(ps), 'registry', 'stored ' + attr, add.loc(n), 'does not store what was passed')
        if isinstance(n.value, ast.Call) and dotted(n.value.func) == 'Item':
            flds = None
            for v in p.module(cls.module.name).assigns.get('Item', []):
                if isinstance(v, ast.Call) and len(v.args) > 1 and isinstance(v.args[1], ast.Constant):
                    flds = v.args[1].value.replace(',', ' ').split()
            if flds:
                got = [dotted(a) for a in n.value.args]
                kw = {x.arg: dotted(x.value) for x in n.value.keywords}
                for i, fl in enumerate(flds):
                    val = got[i] if i < len(got) else kw.get(fl)
                    c.expect(val == fl, 'registry', 'Item.' + fl, add.loc(n),
                             'is filled with %s' % val)
    # lookups by pos.id()
    for name in cls.methods:
        f = cls.methods[name]
        if f is add:
            continue
        for n in walk_shallow(f.node):
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Attribute) and \
                    is_self_attr(n.value) and n.value.attr in ids:
                v = resolve_local(f.node, n.slice)
                ok = isinstance(v, ast.Call) and attr_name(v) == 'id' or \
                    isinstance(v, ast.Name) and v.id in f.params
                c.expect(ok, 'registry', '%s lookup' % name, f.loc(n),
                         'table is not indexed by the id of a position')
    # no rule is lost for compound conditions: both operands are searched
    f = cls.find('_try_get_rules_workaround')
    if f:
        attrs = {n.attr for n in walk_shallow(f.node) if isinstance(n, ast.Attribute)}
        c.expect({'left', 'right'} <= attrs, 'registry', 'compound offending node', f.loc(),
                 'rules attached to one operand of a conjunction are not found')


def resolve_local_name(fn, e):
    return e


if __name__ == '__main__':
    run('C03', 'Diagnostic tables are complete and closed under conversion', main)

from _common import *
from sa.terms import TermEval, show, subterms, callee_path

VA = NT + 'lib.viper_ast'
EXT = NT + 'sif.lib.viper_ast_extended'

# Constructor signatures of the intermediate language: factory parameter roles in the order the
# node's constructor takes them.  x: passed as is, x*: sequence, x?: option, x!: always Some,
# x#: map, n~: big integer, []: empty sequence, none: no option; the trailing position, info and
# (no) transformation arguments are implied by @.
SIG = {
    'Program': 'domains* fields* functions* predicates* methods* [] @',
    'Function': 'name args* type pres* posts* body? @',
    'Field': 'name type @',
    'Predicate': 'name args* body? @',
    'PredicateAccess': 'args* pred_name @',
    'PredicateAccessPredicate': 'loc perm! @',
    'Fold': 'predicate @', 'Unfold': 'predicate @', 'Unfolding': 'predicate expr @',
    'Asserting': 'ass expr @',
    'SeqType': 'element_type', 'SetType': 'element_type', 'MapType': 'key_type value_type',
    'MultisetType': 'element_type',
    'Domain': 'name functions* axioms* typevars* none @',
    'DomainFunc': 'name args* type unique none position info domain_name NoTrafos',
    'DomainAxiom': 'NamedDomainAxiom: name expr position info domain_name NoTrafos',
    'DomainType': 'name type_vars_map# type_vars*',
    'DomainFuncApp': 'func_name args* type_var_map# position info type_passed domain_name NoTrafos',
    'TypeVar': 'name',
    'MethodCall': 'method_name args* targets* @',
    'NewStmt': 'lhs fields* @',
    'Label': 'name [] @', 'Goto': 'name @',
    'Seqn': 'body* locals* @',
    'LocalVarAssign': 'lhs rhs @', 'FieldAssign': 'lhs rhs @', 'FieldAccess': 'receiver field @',
    'FieldAccessPredicate': 'fieldacc perm! @',
    'Old': 'expr @', 'LabelledOld': 'expr label @', 'Inhale': 'expr @', 'Exhale': 'expr @',
    'InhaleExhaleExp': 'inhale exhale @',
    'Assert': 'expr @', 'Refute': 'expr @',
    'DecreasesTuple': 'measures* condition? @', 'DecreasesWildcard': 'condition? @',
    'PredicateInstance': 'pred_name args* @',
    'FullPerm': '@', 'NoPerm': '@', 'WildcardPerm': '@', 'FractionalPerm': 'left right @',
    'CurrentPerm': 'location @', 'ForPerm': 'variable1 access body @', 'PermMinus': 'exp @',
    'PermAdd': 'left right @', 'PermSub': 'left right @', 'PermMul': 'left right @',
    'IntPermMul': 'left right @', 'PermDiv': 'left right @',
    'PermLtCmp': 'left right @', 'PermLeCmp': 'left right @', 'PermGtCmp': 'left right @',
    'PermGeCmp': 'left right @',
    'Not': 'expr @', 'Minus': 'expr @', 'CondExp': 'cond then els @',
    'EqCmp': 'left right @', 'NeCmp': 'left right @', 'GtCmp': 'left right @',
    'GeCmp': 'left right @', 'LtCmp': 'left right @', 'LeCmp': 'left right @',
    'IntLit': 'num~ @', 'Implies': 'left right @',
    'FuncApp': 'name args* position info type NoTrafos',
    'ExplicitSeq': 'elems* @', 'ExplicitSet': 'elems* @', 'ExplicitMultiset': 'elems* @',
    'EmptySeq': 'type @', 'EmptySet': 'type @', 'EmptyMultiset': 'type @',
    'LocalVarDecl': 'name type @', 'LocalVar': 'name type @', 'Result': 'type @',
    'AnySetContains': 'elem s @', 'AnySetUnion': 'left right @', 'AnySetSubset': 'left right @',
    'MapContains': 'key m @', 'MapLookup': 'm key @',
    'SeqAppend': 'left right @', 'SeqContains': 'elem s @', 'SeqLength': 's @',
    'SeqIndex': 's ind @', 'SeqTake': 's end @', 'SeqDrop': 's end @',
    'Add': 'left right @', 'Sub': 'left right @', 'Mul': 'left right @', 'Div': 'left right @',
    'Mod': 'left right @', 'And': 'left right @', 'Or': 'left right @',
    'TrueLit': '@', 'FalseLit': '@', 'NullLit': '@',
    'Exists': 'variables* triggers* exp @', 'Trigger': 'exps* @',
    'Let': 'variable exp body @',
    'SimpleInfo': 'comments*', 'ConsInfo': 'head tail',
}

SELF = ('param', 'self')
NOTRAFOS = ('attr', SELF, 'NoTrafos')
NONE = ('attr', SELF, 'none')


def seq(t):
    return ('call', ('attr', SELF, 'to_seq'), (t,), ())


def some(t):
    return ('call', ('attr', ('attr', SELF, 'scala'), 'Some'), (t,), ())


def expected(role, conds, body_hook=None):
    """Acceptable terms for one constructor argument under path conditions."""
    if role == '[]':
        return [seq(('list', ()))]
    if role == 'none':
        return [NONE]
    if role in ('NoTrafos', 'NoPosition', 'NoInfo'):
        return [('attr', SELF, role)]
    if role == '{}':
        return [('call', ('attr', SELF, 'to_map'), (('dict', ()),), ())]
    if role.endswith('*'):
        return [seq(('param', role[:-1]))]
    if role.endswith('1'):
        return [seq(('list', (('param', role[:-1]),)))]
    if role.endswith('!'):
        return [some(('param', role[:-1]))]
    if role.endswith('#'):
        return [('call', ('attr', SELF, 'to_map'), (('param', role[:-1]),), ())]
    if role.endswith('~'):
        return [('call', ('attr', SELF, 'to_big_int'), (('param', role[:-1]),), ())]
    if role.endswith('?'):
        p = ('param', role[:-1])
        for c, v in conds:
            if c == ('is_none', p):
                return [NONE] if v else [some(p)]
            if c == p:
                return [some(p)] if v else [NONE]
        return [some(p)] if False else []
    return [('param', role)]


def is_node_call(t, kind):
    """t constructs intermediate language node ``kind`` (self.ast.K(..), plugin path, or
    getobject(.., 'K').apply(..))."""
    if t[0] != 'call':
        return False
    cp = callee_path(t)
    if cp and cp.startswith(('self.ast.', 'self.ast_extensions.', 'self.jvm.viper.')) and cp.split('.')[-1] == kind:
        return True
    f = t[1]
    if f[0] == 'attr' and f[2] == 'apply' and f[1][0] == 'call':
        g = f[1]
        if callee_path(g) in ('getobject',) and ('const', kind) in g[2]:
            return True
    return False


def contradictory(conds):
    return False


def main(c):
    p = c.project
    cls = p.cls(VA, 'ViperAST')
    c.rule('factory', 'each factory builds the node of its name from its parameters in constructor order, '
                      'with the given position and info, on every path')
    special = {'Method', 'If', 'While', 'Forall', 'FuncAppWithInfo', 'AnnotationInfo'}
    for name, f in cls.methods.items():
        if not name[0].isupper():
            continue
        if name in special:
            continue
        if name not in SIG:
            # a factory the table does not know: every parameter must at least be used
            check_unknown(c, f)
            continue
        check_factory(c, f, SIG[name], name)
    for name in SIG:
        if name not in cls.methods:
            if any(isinstance(n, ast.Attribute) and n.attr == name and dotted(n.value) in (
                    'self.viper', 'translator.viper') for m in p.modules.values() for n in ast.walk(m.tree)):
                c.bad('factory', name, cls.module.relpath, 'factory is used but not defined')
    c.floor('factory', 85)

    # nodes with nested blocks
    chk(c, cls, 'Method', method_ok)
    chk(c, cls, 'If', if_ok)
    chk(c, cls, 'While', while_ok)
    chk(c, cls, 'Forall', forall_ok)
    chk(c, cls, 'FuncAppWithInfo', fawi_ok)
    helpers(c, cls)
    extended(c, p)
    position(c, cls)


def check_factory(c, f, sig, name, rule='factory', prefix='ViperAST.'):
    kind = name
    if ':' in sig:
        kind, sig = sig.split(':')
        kind = kind.strip()
    roles = []
    for r in sig.split():
        roles += ['position', 'info', 'NoTrafos'] if r == '@' else [r]
    known = {r.rstrip('*?!#~1') for r in roles}
    ev = TermEval(f)
    rets = 0
    for conds, out, eff, env in ev.paths:
        if out[0] == 'raise':
            continue
        t = out[1]
        rets += 1
        cn = prefix + name
        if name == 'Assert' and trivially_true(conds):
            okk = t[0] == 'call' and callee_path(t) == 'self.Seqn' or is_node_call(t, 'Assert')
            c.expect(okk, rule, cn + ' trivial', f.loc(),
                     'trivially true assertion becomes ' + show(t))
            continue
        if not is_node_call(t, kind):
            c.bad(rule, cn, f.loc(), 'a path returns %s instead of a %s node' % (show(t), kind))
            continue
        args = t[2]
        if t[3]:
            c.bad(rule, cn, f.loc(), 'node built with keyword arguments')
            continue
        # roles are matched by the parameter *position* in the factory signature, so that a
        # renamed parameter is not an alarm
        ok = len(args) == len(roles)
        why = '%d arguments for %d parts' % (len(args), len(roles))
        if ok:
            for a, r in zip(args, roles):
                exp = [rename(x, f, name) for x in expected(r, unrename(conds, f, name))]
                if not exp and r.endswith('?'):
                    ok, why = False, 'optional part %s does not depend on its presence' % r[:-1]
                    break
                if a not in exp:
                    ok = False
                    why = 'part %s is %s' % (r, show(a))
                    break
        c.expect(ok, rule, cn, f.loc(), why, kind)
    if not rets:
        c.bad(rule, prefix + name, f.loc(), 'never returns a node')


PARAMS = {}   # reference parameter names per factory (for renamed parameters)


def ref_params(name):
    """Reference order of factory parameters (the names used in SIG)."""
    return REF.get(name)


def rename(t, f, name):
    ref = ref_params(name)
    if ref is None or len(ref) != len(f.params) - 1 or f.params[1:] == ref:
        return t
    m = dict(zip(ref, f.params[1:]))

    def go(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'param' and x[1] in m:
                return ('param', m[x[1]])
            return tuple(go(y) for y in x)
        return x
    return go(t)


def unrename(conds, f, name):
    ref = ref_params(name)
    if ref is None or len(ref) != len(f.params) - 1 or f.params[1:] == ref:
        return conds
    m = dict(zip(f.params[1:], ref))

    def go(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'param' and x[1] in m:
                return ('param', m[x[1]])
            return tuple(go(y) for y in x)
        return x
    return frozenset((go(a), b) for a, b in conds)


def trivially_true(conds):
    for t, v in conds:
        if v and t[0] == 'call' and callee_path(t) == 'isinstance' and \
                len(t[2]) == 2 and show(t[2][1]) == 'self.ast.TrueLit' and t[2][0][0] == 'param':
            return True
    return False


def check_unknown(c, f):
    ev = TermEval(f)
    for conds, out, eff, env in ev.paths:
        if out[0] == 'raise':
            continue
        used = {t[1] for t in subterms(out[1]) if t[0] == 'param'}
        missing = [x for x in f.params[1:] if x not in used]
        c.expect(not missing, 'factory', 'ViperAST.%s (new)' % f.name, f.loc(),
                 'parameters %s do not reach the node' % missing)


def chk(c, cls, name, fn):
    f = cls.find(name)
    if f is None:
        raise AnalysisError('factory %s vanished' % name)
    n = 0
    for conds, out, eff, env in TermEval(f).paths:
        if out[0] == 'raise':
            continue
        n += 1
        r = fn(f, conds, out[1])
        c.expect(r is None, 'factory', 'ViperAST.' + name, f.loc(), r or '')
    if not n:
        c.bad('factory', 'ViperAST.' + name, f.loc(), 'never returns a node')


def P(x):
    return ('param', x)


def seqn_parts(t):
    """(statements term, locals term, position, info) of a Seqn built by the factory."""
    if callee_path(t) == 'self.Seqn':
        a = list(t[2]) + [('list', ())] * (4 - len(t[2]))
        kw = dict(t[3])
        if 'locals' in kw:
            a[3] = kw['locals']
        return a[0], a[3], a[1], a[2]
    return None


def method_ok(f, conds, t):
    if not is_node_call(t, 'Method'):
        return 'returns %s instead of a method' % show(t)
    a = t[2]
    want = [P('name'), seq(P('args')), seq(P('returns')), seq(P('pres')), seq(P('posts')), None,
            P('position'), P('info'), NOTRAFOS]
    if len(a) != len(want):
        return 'wrong number of parts'
    for x, w in zip(a, want):
        if w is not None and x != w:
            return 'part %s is %s' % (show(w), show(x))
    none = None
    for cnd, v in conds:
        if cnd == ('is_none', P('body')):
            none = v
        elif cnd == P('body'):
            none = not v
    b = a[5]
    if none:
        return None if b == NONE else 'abstract method gets body ' + show(b)
    if b[0] == 'call' and callee_path(b) == 'self.scala.Some':
        sp = seqn_parts(b[2][0])
        if sp and sp[0] == ('list', (P('body'),)) and sp[1] == P('locals'):
            return None
    return 'body is %s' % show(b)


def if_ok(f, conds, t):
    if not is_node_call(t, 'If') or len(t[2]) != 6:
        return 'returns ' + show(t)
    a = t[2]
    if a[0] != P('cond'):
        return 'condition is ' + show(a[0])
    for x, n in ((a[1], 'thn'), (a[2], 'els')):
        sp = seqn_parts(x)
        if not sp or sp[0] != ('list', (P(n),)) or sp[1] != ('list', ()):
            return '%s branch is %s' % (n, show(x))
    return None if a[3:] == (P('position'), P('info'), NOTRAFOS) else 'wrong position or info'


def while_ok(f, conds, t):
    if not is_node_call(t, 'While') or len(t[2]) != 6:
        return 'returns ' + show(t)
    a = t[2]
    sp = seqn_parts(a[2])
    if a[0] != P('cond') or a[1] != seq(P('invariants')):
        return 'condition or invariants wrong'
    if not sp or sp[0] != ('list', (P('body'),)) or sp[1] != P('locals'):
        return 'body is ' + show(a[2])
    return None if a[3:] == (P('position'), P('info'), NOTRAFOS) else 'wrong position or info'


def forall_ok(f, conds, t):
    q = ('call', ('attr', ('attr', SELF, 'ast'), 'Forall'),
         (seq(P('variables')), seq(P('triggers')), P('exp'), P('position'), P('info'), NOTRAFOS), ())
    if t == q:
        return None
    # impure: conjunction of all desugared quantifiers
    if t[0] == 'loop' or any(x[0] == 'loop' for x in subterms(t)):
        loops = [n for n in walk_shallow(f.node) if isinstance(n, ast.For)]
        src = any(isinstance(n, ast.Call) and attr_name(n) == 'desugarSourceQuantifiedPermissionSyntax'
                  for n in walk_shallow(f.node))
        for lp in loops:
            acc = [n for n in ast.walk(lp) if isinstance(n, ast.Call) and dotted(n.func) in (
                'self.And', 'self.ast.And')]
            tgt = lp.target.id if isinstance(lp.target, ast.Name) else None
            if acc and src and len(acc) == 1 and tgt in names_in(acc[0]) and \
                    not any(isinstance(n, (ast.Break, ast.Continue, ast.If)) for n in ast.walk(lp)):
                asg = enclosing_stmt(acc[0])
                if isinstance(asg, ast.Assign) and isinstance(asg.targets[0], ast.Name) and \
                        asg.targets[0].id in names_in(acc[0]):
                    return None
        return 'desugared quantifiers are not all conjoined'
    if any(x[0] == 'call' and callee_path(x) in ('reduce', 'functools.reduce') for x in subterms(t)):
        return None
    return 'returns ' + show(t)


def fawi_ok(f, conds, t):
    if not is_node_call(t, 'FuncApp'):
        return 'returns ' + show(t)
    fa = f.params[1]
    def acc(n):
        return ('call', ('attr', P(fa), n), (), ())
    want = (acc('funcname'), acc('args'), acc('pos'), P(f.params[2]), acc('typ'), acc('errT'))
    return None if t[2] == want else 'parts are not copied in order: ' + show(t)


def helpers(c, cls):
    """Collection conversions are total and order preserving."""
    c.rule('conversion', 'conversions of Python collections to the backend\'s and back keep every element, in order')
    for name in ('to_seq', 'to_list', 'to_map', 'to_set'):
        f = cls.find(name)
        if f is None:
            raise AnalysisError('conversion %s vanished' % name)
        src = f.params[1]
        loops = [n for n in walk_shallow(f.node) if isinstance(n, (ast.For, ast.While, ast.ListComp,
                                                                   ast.GeneratorExp))]
        bad = None
        if not loops:
            bad = 'no iteration over the elements'
        for lp in loops:
            bad = bad or total_loop(f, lp, src, name)
        bad = bad or size_ok(f, src, name)
        c.expect(bad is None, 'conversion', 'ViperAST.' + name, f.loc(), bad or '')
    f = cls.find('to_big_int')
    num = f.params[1]
    for conds, out, eff, env in TermEval(f).paths:
        t = out[1]
        neg = None
        for cn, v in conds:
            if cn == ('cmp', '<', P(num), ('const', 0)):
                neg = v
            if cn == ('cmp', '>=', P(num), ('const', 0)):
                neg = not v
            if cn[0] == 'cmp' and cn not in (('cmp', '<', P(num), ('const', 0)),
                                            ('cmp', '>=', P(num), ('const', 0))):
                neg = neg if cn[1] in ('<', '>=') else None
        negated = any(x[0] == 'attr' and x[2] == 'negate' for x in subterms(t))
        usub = any(x == ('unop', 'USub', P(num)) for x in subterms(t))
        has = any(x == P(num) for x in subterms(t))
        ok = has and (negated == usub) and (neg is None or not usub or neg)
        c.expect(ok, 'conversion', 'ViperAST.to_big_int', f.loc(),
                 'sign or value is lost: ' + show(t))


def total_loop(f, lp, src, name):
    if isinstance(lp, (ast.ListComp, ast.GeneratorExp)):
        if lp.generators[0].ifs:
            return 'elements are filtered'
        return None if src in names_in(lp.generators[0].iter) else 'does not iterate over the input'
    for n in ast.walk(lp):
        if isinstance(n, (ast.Break, ast.Continue, ast.If, ast.Return)):
            return 'the loop may skip elements'
    if isinstance(lp, ast.While):
        # iterator protocol
        t = lp.test
        ok = isinstance(t, ast.Call) and attr_name(t) == 'hasNext' and any(
            isinstance(n, ast.Call) and attr_name(n) == 'next' for n in ast.walk(ast.Module(lp.body, [])))
        if ok and not any(isinstance(n, ast.Call) and attr_name(n) in ('append', 'insert') and
                          any(isinstance(a, ast.Call) and attr_name(a) == 'next' or
                              isinstance(a, ast.Name) for a in n.args)
                          for n in ast.walk(ast.Module(lp.body, []))):
            return 'elements are not collected'
        if any(isinstance(n, ast.Call) and attr_name(n) == 'insert' for n in ast.walk(lp)):
            return 'order changes'
        return None if ok else 'does not iterate over the input'
    it = lp.iter
    if isinstance(it, ast.Call):
        fn = dotted(it.func)
        if fn == 'range':
            args = it.args
            hi = args[0] if len(args) == 1 else args[1]
            if len(args) == 2 and not (isinstance(args[0], ast.Constant) and args[0].value == 0) or len(args) > 2:
                return 'iteration does not start at the first element'
            hi = resolve_local(f.node, hi)
            if not (isinstance(hi, ast.Call) and dotted(hi.func) == 'len' and dotted(hi.args[0]) == src):
                return 'iteration does not end at the last element'
            idx = lp.target.id
            for n in ast.walk(ast.Module(lp.body, [])):
                if isinstance(n, ast.Call) and attr_name(n) == 'update' and len(n.args) == 2:
                    a, b = n.args
                    b = resolve_loop(lp, b)
                    if not (dotted(a) == idx and isinstance(b, ast.Subscript) and
                            dotted(b.value) == src and dotted(b.slice) == idx):
                        return 'element is stored at another index'
            return None
        if fn == 'enumerate' and dotted(it.args[0]) == src and len(it.args) == 1 and not it.keywords:
            i, v = lp.target.elts
            for n in ast.walk(ast.Module(lp.body, [])):
                if isinstance(n, ast.Call) and attr_name(n) == 'update' and len(n.args) == 2:
                    if dotted(n.args[0]) != i.id or dotted(n.args[1]) != v.id:
                        return 'element is stored at another index'
            return None
        if attr_name(it) == 'items' and dotted(it.func.value) == src:
            k, v = lp.target.elts
            for n in ast.walk(ast.Module(lp.body, [])):
                if isinstance(n, ast.Call) and attr_name(n) in ('updated', 'update', 'put') and len(n.args) == 2:
                    if dotted(n.args[0]) != k.id or dotted(n.args[1]) != v.id:
                        return 'key and value are mixed up'
            return None
        if fn in ('reversed', 'sorted') and name in ('to_seq', 'to_list'):
            return 'order changes'
    if src in names_in(it):
        return None if not isinstance(it, ast.Subscript) else 'only a part of the input is used'
    if dotted(it) and src in influences(f.node, it):
        return None
    return 'does not iterate over the input'


def resolve_loop(lp, e):
    if isinstance(e, ast.Name):
        for n in ast.walk(lp):
            if isinstance(n, ast.Assign) and dotted(n.targets[0]) == e.id:
                return n.value
    return e


def size_ok(f, src, name):
    for n in walk_shallow(f.node):
        if isinstance(n, ast.Call) and attr_name(n) == 'get_array':
            sz = resolve_local(f.node, n.args[-1])
            if not (isinstance(sz, ast.Call) and dotted(sz.func) == 'len' and dotted(sz.args[0]) == src):
                return 'sequence of the wrong length'
    return None


SIF_SIG = {
    'Return': 'SIFReturnStmt: expr? res_var? @', 'Break': 'SIFBreakStmt: @',
    'Continue': 'SIFContinueStmt: @', 'Raise': 'SIFRaiseStmt: assignment? @',
    'SIFExceptionHandler': 'SIFExceptionHandler: err_var exception handler NoPosition NoInfo NoTrafos',
    'SIFWhileElse': 'SIFWhileElse: loop els NoPosition NoInfo NoTrafos',
    'Try': 'SIFTryCatchStmt: body catch_blocks* else_block? finally_block? @',
    'Low': 'SIFLowExp: expr comp? {} @', 'LowEvent': 'SIFLowEventExp: @',
    'LowExit': 'SIFLowExitExp: @', 'Declassify': 'SIFDeclassifyStmt: expr @',
    'InlinedCall': 'SIFInlinedCallStmt: stmts @',
    'AssertNoException': 'SIFAssertNoException: @', 'TerminatesSif': 'SIFTerminatesExp: cond @',
    'SIFInfo': 'SIFInfo: comments* continue_unaware obligation_var',
    'SIFDynCheckInfo': 'SIFDynCheckInfo: comments* dyn_check dyn_check_only',
}


def extended(c, p):
    """Information-flow node factories."""
    c.rule('factory-sif', 'factories of information-flow nodes build the node from their parameters in order')
    cls = p.cls(EXT, 'ViperASTExtended')
    for name, f in cls.methods.items():
        if not name[0].isupper() or name in ('Goto', 'Label', 'Skip'):
            # jumps and labels are represented structurally in the extended syntax tree
            continue
        if name in SIF_SIG:
            check_factory(c, f, SIF_SIG[name], name, 'factory-sif', 'ViperASTExtended.')
        elif name == 'PredicateAccessPredicate':
            for conds, out, eff, env in TermEval(f).paths:
                t = out[1]
                a = t[2] if t[0] == 'call' else ()
                ok = t[0] == 'call' and callee_path(t) == 'super().PredicateAccessPredicate' and \
                    len(a) == 4 and a[:3] == (P('loc'), P('perm'), P('position')) and \
                    (a[3] == P('info') or a[3][0] == 'call' and callee_path(a[3]) == 'self.ConsInfo'
                     and P('info') in a[3][2])
                c.expect(ok, 'factory-sif', 'ViperASTExtended.' + name, f.loc(), show(t))
        elif p.cls(VA, 'ViperAST').find(name):
            check_factory(c, f, SIG.get(name, '@'), name, 'factory-sif', 'ViperASTExtended.')
        else:
            check_unknown(c, f)
    c.floor('factory-sif', 20)


def position(c, cls):
    """to_position is covered by C19; here only that every caller's node registers error information."""


REF = {}


def fill_ref():
    """Reference parameter order per factory, taken from SIG roles plus the factory's own order
    (frozen)."""
    REF.update({
        'SIFInfo': ['comments', 'continue_unaware', 'obligation_var'],
        'Program': ['domains', 'fields', 'functions', 'predicates', 'methods', 'position', 'info'],
        'DomainFunc': ['name', 'args', 'type', 'unique', 'position', 'info', 'domain_name'],
        'DomainAxiom': ['name', 'expr', 'position', 'info', 'domain_name'],
        'DomainFuncApp': ['func_name', 'args', 'type_passed', 'position', 'info', 'domain_name', 'type_var_map'],
        'FuncApp': ['name', 'args', 'position', 'info', 'type', 'formalargs'],
        'PredicateInstance': ['args', 'pred_name', 'position', 'info'],
        'Seqn': ['body', 'position', 'info', 'locals'],
    })
    for k, s in list(SIG.items()) + list(SIF_SIG.items()):
        if k in REF:
            continue
        if ':' in s:
            s = s.split(':')[1]
        r = []
        for x in s.split():
            if x == '@':
                r += ['position', 'info']
            elif x not in ('[]', '{}', 'none', 'NoTrafos', 'NoPosition', 'NoInfo'):
                r.append(x.rstrip('*?!#~1'))
        REF[k] = r


fill_ref()
if __name__ == '__main__':
    run('C08', 'Every intermediate-language node is built from exactly the given parts', main)

from _common import *
import builtins
from sa.project import Project
from sa.types import Types

EXTRA_GLOBALS = {'__file__', '__name__', '__doc__', '__package__', '__spec__', 'WindowsError'}
# Library modules whose classes may be extended with members this analysis cannot see.
FAMILY_MODULES = {NT + 'lib.program_nodes'}
SKIP_MODULES = {NT + 'conftest', NT + 'tests'}


def bind_ok(call, fi, bound):
    """None if the call binds to the signature, else a reason."""
    a = fi.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    if bound:
        if not pos and not a.vararg:
            return 'takes no receiver'
        pos = pos[1:]
    if any(isinstance(x, ast.Starred) for x in call.args) or \
            any(k.arg is None for k in call.keywords):
        star = True
    else:
        star = False
    n = len([x for x in call.args if not isinstance(x, ast.Starred)])
    if n > len(pos) and not a.vararg:
        return 'takes %d positional argument(s), gets %d' % (len(pos), n)
    given = set(pos[:n])
    kwonly = [k.arg for k in a.kwonlyargs]
    posonly = {x.arg for x in a.posonlyargs}
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg in given:
            return 'gets %s twice' % k.arg
        if k.arg not in pos + kwonly and not a.kwarg or k.arg in posonly:
            return 'has no parameter %s' % k.arg
        given.add(k.arg)
    if star:
        return None
    req = pos[:len(pos) - len(a.defaults)] if len(a.defaults) <= len(pos) else []
    req = req + [k for k, d in zip(kwonly, a.kw_defaults) if d is None]
    miss = [r for r in req if r not in given]
    if miss:
        return 'misses argument(s) %s' % ', '.join(miss)
    return None


def scope_names(fn):
    """Names bound in a function scope."""
    a = fn.args
    out = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    if a.vararg:
        out.add(a.vararg.arg)
    if a.kwarg:
        out.add(a.kwarg.arg)
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    todo = list(body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            todo += n.decorator_list
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for x in n.names:
                out.add((x.asname or x.name).split('.')[0])
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            out |= set(n.names)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
        todo += list(ast.iter_child_nodes(n))
    return out


class Names:
    def __init__(self, c, p, m):
        self.c, self.p, self.m = c, p, m
        g = set(dir(builtins)) | EXTRA_GLOBALS | set(m.classes) | set(m.functions) | \
            set(m.assigns) | set(m.imports)
        mod = ast.Module(m.tree.body, [])
        fake = ast.FunctionDef(name='m', args=ast.arguments([], [], None, [], [], None, []),
                               body=m.tree.body, decorator_list=[])
        g |= scope_names(fake)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                g |= set(n.names)
        self.star = bool(m.star_imports)
        if self.star:
            for s in m.star_imports:
                sm = p.modules.get(s)
                if sm is None:
                    self.open = True
                    break
                g |= set(sm.classes) | set(sm.functions) | set(sm.assigns) | set(sm.imports)
                for t in sm.star_imports:
                    if t not in p.modules:
                        self.open = True
            else:
                self.open = getattr(self, 'open', False)
        else:
            self.open = False
        self.g = g
        self.where = []

    def visit(self, n, scopes, cls):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in n.decorator_list:
                self.visit(d, scopes, cls)
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                self.visit(d, scopes, cls)
            sc = [s for s in scopes if s is not cls] + [scope_names(n)]
            for b in n.body:
                self.visit(b, sc, None)
            return
        if isinstance(n, ast.Lambda):
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                self.visit(d, scopes, cls)
            self.visit(n.body, [s for s in scopes if s is not cls] + [scope_names(n)], None)
            return
        if isinstance(n, ast.ClassDef):
            for d in n.decorator_list + n.bases + [k.value for k in n.keywords]:
                self.visit(d, scopes, cls)
            fake = ast.FunctionDef(name='m', args=ast.arguments([], [], None, [], [], None, []),
                                   body=n.body, decorator_list=[])
            cs = scope_names(fake)
            for b in n.body:
                self.visit(b, scopes + [cs], cs)
            return
        if isinstance(n, (ast.arg,)):
            return
        if isinstance(n, ast.AnnAssign):
            if n.value is not None:
                self.visit(n.value, scopes, cls)
            self.visit(n.target, scopes, cls)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            names = {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            sc = scopes + [names]
            for ch in ast.iter_child_nodes(n):
                self.visit(ch, sc, cls)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            if n.id in self.g or any(n.id in s for s in scopes):
                self.c.obligations += 1
                self.c.discharged += 1
                self.c._count('name')
            elif not self.open:
                self.c.bad('name', '%s: %s' % (self.m.name, n.id),
                           '%s:%d' % (self.m.relpath, n.lineno), 'name is not defined')
            return
        for ch in ast.iter_child_nodes(n):
            self.visit(ch, scopes, cls)


def members(p, cls, cache={}):
    """All member names known in the hierarchy of cls (bases and subclasses), or None if a base
    is external."""
    key = cls.qual
    if key in cache:
        return cache[key]
    out = set(dir(object))
    family = set(cls.mro()) | {x for s in cls.all_subclasses() for x in s.mro()}
    if cls.module.name in FAMILY_MODULES:
        # Annotations in the project name one class of this family for another (a class and its
        # generic instances, a scope and the things looked up in it): judge against the family.
        family |= {x for x in cls.module.classes.values()}
    if cls.name == 'Translator':
        # 'Translator' is also used as annotation for the component translators.
        family |= set(p.find_class('AbstractTranslator')[0].all_subclasses())
    for c in family:
        if [b for b in c.ext_bases if b not in ('object', 'ABC', 'abc.ABC', 'Exception', 'Generic')] or \
                c.node.keywords and any(k.arg == 'metaclass' and 'ABC' not in ast.unparse(k.value)
                                        for k in c.node.keywords) or \
                any(not isinstance(b, (ast.Name, ast.Attribute)) for b in c.node.bases):
            cache[key] = None
            return None
        if '__getattr__' in c.methods or '__getattribute__' in c.methods:
            cache[key] = None
            return None
        if c.node.decorator_list:
            pass
        out |= set(c.methods) | set(c.setters) | set(c.assigns)
        for b in c.node.body:
            if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                out.add(b.target.id)
            if isinstance(b, ast.ClassDef):
                out.add(b.name)
        for n in ast.walk(c.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and \
                    isinstance(n.value, ast.Name):
                out.add(n.attr)
        out |= {'args', '__name__', '__dict__', '__class__', '__traceback__'}
    cache[key] = out
    return out


def outside_stores(p):
    """attr names assigned on anything anywhere (obj.attr = ...), plus setattr constants."""
    out = {}
    for m in p.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                out.setdefault(n.attr, 0)
                if not (isinstance(n.value, ast.Name) and n.value.id == 'self'):
                    out[n.attr] += 1
    return {k for k, v in out.items() if v}


def main(c):
    p = Project(normalize=False)
    c.project = p
    ty = Types(p)
    ext_store = outside_stores(p)

    c.rule('name', 'every name that is read is bound in an enclosing scope, the module or builtins')
    for m in p.modules.values():
        if m.name in SKIP_MODULES:
            continue
        nv = Names(c, p, m)
        for b in m.tree.body:
            nv.visit(b, [], None)
    c.floor('name', 30000)

    c.rule('import', 'every name imported from a project module exists there')
    c.rule('module-member', 'every member accessed on a project module exists')
    for m in p.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom) and n.module and not n.level:
                base = n.module
                if base in p.modules:
                    for a in n.names:
                        if a.name == '*':
                            continue
                        r = p.resolve_symbol(base, a.name)
                        ok = r is not None or a.name in p.modules[base].imports or \
                            any(s not in p.modules for s in p.modules[base].star_imports)
                        c.expect(ok, 'import', '%s from %s import %s' % (m.name, base, a.name),
                                 '%s:%d' % (m.relpath, n.lineno), 'no such name')
                elif base.split('.')[0] in ('nagini_translation', 'nagini_contracts'):
                    c.bad('import', '%s imports %s' % (m.name, base),
                          '%s:%d' % (m.relpath, n.lineno), 'no such module')
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                base = p.resolve_name_expr(n.value, m)
                if isinstance(base, Module) and not bound_locally(n, n.value):
                    ok = p.resolve_symbol(base.name, n.attr) is not None or n.attr in base.imports \
                        or n.attr.startswith('__') or base.star_imports or \
                        base.name + '.' + n.attr in p.modules
                    c.expect(ok, 'module-member', '%s: %s.%s' % (m.name, base.name, n.attr),
                             '%s:%d' % (m.relpath, n.lineno), 'module has no such member')
    c.floor('import', 500)
    c.floor('module-member', 30)

    c.rule('call-arity', 'arguments of every resolved call bind to the callee\'s parameters')
    c.rule('member', 'every member accessed on self or on a receiver of known project type exists')
    c.rule('slot', 'every translator method called through the translator configuration exists')
    refs, code_refs, dead = references(p), references(p, False), []
    # dynamic dispatch: name prefixes that occur as string constants ('visit_' + ...)
    prefixes = tuple({n.value for m in p.modules.values() for n in ast.walk(m.tree)
                      if isinstance(n, ast.Constant) and isinstance(n.value, str) and
                      n.value.endswith('_') and n.value.isidentifier() and n.value.strip('_')} | {'__', 'visit_'})
    c.notes.append('dynamic dispatch prefixes: %s' % ', '.join(sorted(prefixes)))
    for f in p.all_functions():
        if f.module.name in SKIP_MODULES:
            continue
        if f.name not in refs and not f.name.startswith(prefixes) and not f.decorators or \
                f.cls is not None and f.cls.name not in code_refs:
            dead.append(f.qual)
            continue
        check_function(c, p, ty, f, ext_store)
    c.notes.append('functions nobody refers to (not judged): ' + ', '.join(dead))
    c.floor('call-arity', 4000)
    c.floor('member', 8000)
    c.floor('slot', 30)

    exceptions(c, p)
    c.rule('grammar', 'every member read from a syntax node of known class is a member of that class')
    grammar(c, p)


def references(p, strings=True):
    out = set()
    for m in p.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute):
                out.add(n.attr)
            elif isinstance(n, ast.Name):
                out.add(n.id)
            elif strings and isinstance(n, ast.Constant) and isinstance(n.value, str) and \
                    n.value.isidentifier():
                st = enclosing_stmt(n)
                if isinstance(st, ast.Assign) and any(dotted(t) == '__all__' for t in st.targets):
                    continue
                out.add(n.value)
    return out


def bound_locally(n, v):
    first = v
    while isinstance(first, ast.Attribute):
        first = first.value
    if not isinstance(first, ast.Name):
        return True
    for q in parents(n):
        if isinstance(q, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            if first.id in scope_names(q):
                # imported inside the function?
                for x in ast.walk(q):
                    if isinstance(x, (ast.Import, ast.ImportFrom)) and any(
                            (a.asname or a.name).split('.')[0] == first.id for a in x.names):
                        return False
                return True
    return False


def check_function(c, p, ty, f, ext_store):
    for n in all_nodes(f.node):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            v = n.value
            d = dotted(v)
            if isinstance(v, ast.Name) and v.id == 'self' and f.cls is not None and self_is_param(f):
                mem = members(p, f.cls)
                if mem is not None:
                    if n.attr in mem or n.attr in ext_store:
                        count_ok(c, 'member')
                    else:
                        c.bad('member', '%s: self.%s' % (f.qual, n.attr), f.loc(n),
                              'class %s has no such member' % f.cls.name)
                continue
            if d and d.endswith('.' + d.split('.')[-1]) and '.' in d and \
                    d.split('.')[-1] in p.slots() and d.split('.')[-2] == 'config':
                slot = d.split('.')[-1]
                ok = all(p._method(k, n.attr, False) or n.attr in (members(p, k) or {n.attr})
                         for lst in p.slots()[slot].values() for k in lst)
                c.expect(ok, 'slot', '%s: config.%s.%s' % (f.qual, slot, n.attr), f.loc(n),
                         'the component in this role has no such member')
                continue
            t = ty.expr(v, f)
            if t is not None:
                mem = members(p, t)
                if mem is not None:
                    if n.attr in mem or n.attr in ext_store or guarded_by_hasattr(n):
                        count_ok(c, 'member')
                    else:
                        c.bad('member', '%s: %s.%s' % (f.qual, ast.unparse(v), n.attr), f.loc(n),
                              'no class related to %s has such a member' % t.name)
        elif isinstance(n, ast.Call):
            fn = n.func
            if isinstance(fn, ast.Name) and local_shadow(fn, f):
                continue
            targets = p.resolve_callee(fn, f)
            bound = None
            if not targets and isinstance(fn, ast.Attribute):
                t = ty.expr(fn.value, f)
                if t is not None:
                    cands = [t.find(fn.attr)] if t.find(fn.attr) else \
                        [s.methods[fn.attr] for s in t.all_subclasses() if fn.attr in s.methods]
                    # any signature in the hierarchy may be meant
                    if cands:
                        reasons = [bind_ok(n, g, not g.is_static) for g in cands if not g.is_property]
                        if not reasons:
                            continue
                        if None in reasons:
                            count_ok(c, 'call-arity')
                        else:
                            c.bad('call-arity', '%s calls %s' % (f.qual, cands[0].qual), f.loc(n), reasons[0])
                continue
            for g in targets:
                if g.is_property or [d for d in g.decorators if d not in (
                        'staticmethod', 'classmethod', 'abstractmethod', 'abc.abstractmethod', 'property')]:
                    continue
                r = bind_ok(n, g, is_bound(p, fn, g, f))
                if r is None:
                    count_ok(c, 'call-arity')
                else:
                    c.bad('call-arity', '%s calls %s' % (f.qual, g.qual), f.loc(n), r)


def is_bound(p, fn, g, f):
    if g.is_static:
        return False
    if g.cls is None or g.outer is not None:
        return False
    if isinstance(fn, ast.Name):
        return True          # constructor
    if isinstance(fn, ast.Attribute):
        r = p.resolve_name_expr(fn, f.module)
        if r is g:
            # Class.method(...) : receiver passed explicitly unless classmethod
            return g.is_classmethod
        return True
    return True


def self_is_param(f):
    o = f
    while o.outer is not None:
        if 'self' in o.all_params:
            return False
        o = o.outer
    return bool(o.params) and o.params[0] == 'self'


def local_shadow(name, f):
    o = f
    while o is not None:
        if name.id in o.nested:
            return False
        if name.id in scope_names(o.node):
            imps = {(a.asname or a.name).split('.')[0] for x in ast.walk(o.node)
                    if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names}
            return name.id not in imps
        o = o.outer
    return False


def guarded_by_hasattr(n):
    for q in parents(n):
        if isinstance(q, (ast.If, ast.IfExp, ast.BoolOp)):
            for x in ast.walk(q):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and \
                        x.func.id in ('hasattr', 'isinstance'):
                    return True
    return False


def count_ok(c, rule):
    c.obligations += 1
    c.discharged += 1
    c._count(rule)


def all_nodes(fn):
    """Nodes of a function including lambdas, excluding nested defs and classes."""
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def exceptions(c, p):
    c.rule('rejection', 'each rejection names a node and, where it has one, a literal error kind')
    util = p.module(NT + 'lib.util')
    inv = p.cls(NT + 'lib.util', 'InvalidProgramException')
    uns = p.cls(NT + 'lib.util', 'UnsupportedException')
    for m in p.modules.values():
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.Call):
                continue
            r = p.resolve_name_expr(n.func, m)
            if r not in (inv, uns):
                continue
            init = r.find('__init__')
            a = bind_args(n, init, True)
            ps = init.params[1:]
            node = a.get(ps[0])
            key = '%s: %s' % (m.name, fn_name(n))
            where = '%s:%d' % (m.relpath, n.lineno)
            bad_node = node is None or isinstance(node, (ast.Constant, ast.JoinedStr)) or \
                is_stringy(node)
            c.expect(not bad_node, 'rejection', key + ' node', where,
                     'does not name the source node it blames')
            if r is inv:
                code = a.get(ps[1])
                okc = code is not None and not (isinstance(code, ast.Constant) and
                                                not isinstance(code.value, str)) and \
                    not looks_like_node(code)
                c.expect(okc, 'rejection', key + ' code', where, 'has no error kind')
            par = getattr(n, '_sa_parent', None)
            used = not isinstance(par, ast.Expr)
            c.expect(used, 'rejection', key + ' raised', where,
                     'the rejection is created but not raised')
    c.floor('rejection', 300)
    # what is raised is an exception
    c.rule('raise', 'what is raised is an exception class or instance')
    for f in p.all_functions():
        for n in walk_shallow(f.node):
            if isinstance(n, ast.Raise) and n.exc is not None:
                e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
                ok = not isinstance(n.exc, (ast.Constant, ast.JoinedStr, ast.Tuple, ast.BinOp))
                r = p.resolve_name_expr(e, f.module) if isinstance(e, (ast.Name, ast.Attribute)) else None
                if isinstance(r, ClassInfo):
                    ok = r.is_subclass_of('Exception') or r.is_subclass_of('BaseException')
                if isinstance(e, ast.Name) and e.id == 'NotImplemented':
                    ok = False
                c.expect(ok, 'raise', '%s raises %s' % (f.qual, ast.unparse(e)), f.loc(n),
                         'is not an exception')


import warnings
warnings.simplefilter('ignore', DeprecationWarning)


def grammar(c, p):
    """Members of syntax nodes whose class is known from a test or from the visitor's name."""
    extra = {'_parent', '_fields', '_attributes'}
    for m in p.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and not (
                    isinstance(n.value, ast.Name) and n.value.id == 'self'):
                extra.add(n.attr)
            elif isinstance(n, ast.Call) and attr_name(n) == 'setattr' and len(n.args) == 3 and isinstance(n.args[1], ast.Constant):
                extra.add(n.args[1].value)

    def concrete(k):
        if issubclass(k, ast.Constant):
            return [ast.Constant]
        return [x for x in [k] if not x.__subclasses__()] or [y for s in k.__subclasses__() for y in concrete(s)]

    extra -= {f for k in concrete(ast.AST) for f in k._fields}

    def elem_of(e, env):
        """Class of the elements of a part of a known node, if there is only one."""
        while isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('reversed', 'list', 'enumerate') and e.args:
            e = e.args[0]
        return part_class(e, env, True)

    def part_class(e, env, many):
        if not isinstance(e, ast.Attribute):
            return None
        ks = known(e.value, env)
        if not ks:
            return None
        out = set()
        for k in ks:
            d = re.search(re.escape(k.__name__) + r'\(([^)]*)\)', ' '.join((k.__doc__ or '').split()))
            ts = [f.split() for f in d.group(1).split(',')] if d else []
            ts = [t[0] for t in ts if t[1] == e.attr]
            if not ts or ts[0].endswith('*') != many:
                return None
            t = {'excepthandler': 'ExceptHandler'}.get(ts[0].rstrip('*?'), ts[0].rstrip('*?'))
            if t not in ('ExceptHandler', 'match_case', 'arg', 'arguments', 'keyword', 'withitem', 'comprehension', 'alias'):
                return None
            out.add(getattr(ast, t))
        return out

    def known(e, env):
        if isinstance(e, (ast.Name, ast.Attribute, ast.Subscript)):
            ks = env.get(ast.unparse(e))
            return ks if ks is not None else part_class(e, env, False)

    def cls_of(m, e):
        if isinstance(e, ast.Tuple):
            out = set()
            for x in e.elts:
                k = cls_of(m, x)
                if k is None:
                    return None
                out |= k
            return out
        d = dotted(e) or ''
        if d.split('.')[0] != 'ast' or d.count('.') != 1 or m.imports.get('ast', ('ast',))[-1] != 'ast':
            return None
        k = getattr(ast, d[4:], None)
        return {k} if isinstance(k, type) and issubclass(k, ast.AST) else None

    def has(k, attr):
        return all(attr in x._fields or attr in x._attributes or hasattr(x, attr) for x in concrete(k))

    def facts(m, t, pos):
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return facts(m, t.operand, not pos)
        if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And if pos else ast.Or):
            return [f for v in t.values for f in facts(m, v, pos)]
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == 'isinstance' and len(t.args) == 2:
            k = cls_of(m, t.args[1])
            if k:
                return [(ast.unparse(t.args[0]), k, pos)]
        if pos and isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == 'hasattr' and len(t.args) == 2 \
                and isinstance(t.args[1], ast.Constant):
            return [('%s.%s' % (ast.unparse(t.args[0]), t.args[1].value), None, pos)]
        return []

    def learn(env, fs):
        env = dict(env)
        for path, k, pos in fs:
            if pos:
                env[path] = k
            elif path in env and env[path]:
                left = {y for x in env[path] for y in concrete(x) if not any(issubclass(y, z) for z in k)}
                if left:
                    env[path] = left
                else:
                    env.pop(path)
        return env

    def leaves(body):
        return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))

    def kill(env, nodes):
        gone = set()
        for n in nodes:
            for x in ast.walk(n):
                if isinstance(x, (ast.Name, ast.Attribute, ast.Subscript)) and isinstance(getattr(x, 'ctx', None), (ast.Store, ast.Del)):
                    gone.add(ast.unparse(x))
                elif isinstance(x, ast.arg):
                    gone.add(x.arg)
                elif isinstance(x, ast.ExceptHandler) and x.name:
                    gone.add(x.name)
                elif isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
                    gone.add(x.name)
        return {k: v for k, v in env.items() if not any(re.search(r'(?<![\w.])' + re.escape(g) + r'(?!\w)', k) for g in gone)}

    def expr(m, fi, e, env):
        if isinstance(e, ast.BoolOp):
            env = dict(env)
            for v in e.values:
                expr(m, fi, v, env)
                env = learn(env, facts(m, v, isinstance(e.op, ast.And)))
            return
        if isinstance(e, ast.IfExp):
            expr(m, fi, e.test, env)
            expr(m, fi, e.body, learn(env, facts(m, e.test, True)))
            expr(m, fi, e.orelse, learn(env, facts(m, e.test, False)))
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            env = kill(env, [g.target for g in e.generators])
            for g in e.generators:
                expr(m, fi, g.iter, env)
                if isinstance(g.target, ast.Name) and elem_of(g.iter, env):
                    env[g.target.id] = elem_of(g.iter, env)
                for i in g.ifs:
                    expr(m, fi, i, env)
                    env = learn(env, facts(m, i, True))
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                expr(m, fi, x, env)
            return
        if isinstance(e, ast.Lambda):
            expr(m, fi, e.body, kill(env, [e.args]))
            return
        if isinstance(e, ast.Attribute) and isinstance(e.ctx, ast.Load):
            ks = known(e.value, env)
            if ks is not None:
                bad = [] if ast.unparse(e) in env else sorted(k.__name__ for k in ks if not has(k, e.attr) and e.attr not in extra and not e.attr.startswith('__'))
                c.expect(not bad, 'grammar', '%s %s' % (fi.qual.replace(NT, ''), ast.unparse(e)), fi.loc(e),
                         'a %s has no member %s' % ('/'.join(bad), e.attr))
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.comprehension):
                continue
            if isinstance(x, (ast.expr, ast.keyword)):
                expr(m, fi, x, env)

    def block(m, fi, stmts, env):
        env = dict(env)
        for s in stmts:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                if not isinstance(s, ast.ClassDef):
                    block(m, fi, s.body, kill(env, [s.args]))
                continue
            if isinstance(s, (ast.For, ast.AsyncFor, ast.While, ast.Try, ast.With, ast.AsyncWith, ast.Match)):
                inner = kill(env, [s])
                for f in ('iter', 'test', 'subject'):
                    if hasattr(s, f):
                        expr(m, fi, getattr(s, f), inner)
                for i in getattr(s, 'items', ()):
                    expr(m, fi, i.context_expr, inner)
                body = dict(inner)
                if isinstance(s, ast.For) and isinstance(s.target, ast.Name) and elem_of(s.iter, inner):
                    body[s.target.id] = elem_of(s.iter, inner)
                if isinstance(s, ast.While):
                    body = learn(body, facts(m, s.test, True))
                for f in ('body', 'orelse', 'finalbody'):
                    block(m, fi, getattr(s, f, ()), body if f == 'body' else inner)
                for h in getattr(s, 'handlers', ()):
                    block(m, fi, h.body, inner)
                for k in getattr(s, 'cases', ()):
                    block(m, fi, k.body, inner)
                env = inner
            elif isinstance(s, ast.If):
                expr(m, fi, s.test, env)
                block(m, fi, s.body, learn(env, facts(m, s.test, True)))
                block(m, fi, s.orelse, learn(env, facts(m, s.test, False)))
                after = kill(env, s.body + s.orelse)
                if leaves(s.body):
                    after = learn(kill(env, s.orelse), facts(m, s.test, False)) if not s.orelse else after
                elif leaves(s.orelse):
                    after = kill(learn(env, facts(m, s.test, True)), s.body)
                env = after
            else:
                for x in ast.iter_child_nodes(s):
                    if isinstance(x, (ast.expr, ast.keyword)):
                        expr(m, fi, x, env)
                env = kill(env, [s])
                if isinstance(s, ast.Assert):
                    env = learn(env, facts(m, s.test, True))
                elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and \
                        isinstance(s.value, (ast.Name, ast.Attribute)) and ast.unparse(s.value) in env:
                    env[s.targets[0].id] = env[ast.unparse(s.value)]

    for fi in p.all_functions():
        env = {}
        mt = re.match(r'(?:visit|translate|translate_stmt|translate_pure|extract)_([A-Z]\w*)$', fi.node.name)
        k = getattr(ast, mt.group(1), None) if mt else None
        if isinstance(k, type) and issubclass(k, ast.AST) and 'node' in fi.all_params:
            env['node'] = {k}
        block(fi.module, fi, fi.node.body, env)
    c.floor('grammar', 600)


def fn_name(n):
    f = enclosing_function(n)
    return f.name if f is not None else '<module>'


def is_stringy(e):
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Mod, ast.Add)):
        return any(isinstance(x, (ast.Constant, ast.JoinedStr)) for x in (e.left, e.right))
    if isinstance(e, ast.Call) and attr_name(e) in ('format', 'str', 'join'):
        return True
    return False


def looks_like_node(e):
    return isinstance(e, ast.Name) and e.id in ('node', 'stmt', 'expr')


if __name__ == '__main__':
    run('C04', 'Every rejection is well formed and every internal call is well formed', main)

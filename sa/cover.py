"""
Which parts of a syntax node does a visitor method look at on every path?

A part (attribute of the node parameter) is covered on a path if a call that the caller of this
module regards as a visit consumes it (or an element of it), if the method hands the node to a
method that covers it, if the path is only taken when the part is absent, or if a loop over the
part is left without having run.  An iteration that skips its element is a path of its own.
"""
from .sym import PathSim
from .terms import subterms, callee_path, callee_name, is_call


def no_raise(n):
    import ast
    return any(isinstance(x, ast.Raise) for x in ast.walk(n))


ALL = '*'
# Lists of the same length by the grammar.
PARALLEL = {'keys': 'values', 'values': 'keys', 'ops': 'comparators', 'comparators': 'ops', 'kwd_attrs': 'kwd_patterns',
            'kwd_patterns': 'kwd_attrs'}


def attrs_of(t, node):
    """Attributes of the node that the term is (a part of); indices and lengths do not count."""
    out = set()

    def go(t):
        if not isinstance(t, tuple) or not t:
            return
        if t == node:
            out.add(ALL + 'self')
            return
        if t[0] == 'attr' and t[1] == node:
            out.add(t[2])
            return
        if t[0] == 'call':
            cp = callee_path(t) or ''
            if cp == 'len':
                return
            if cp == 'getattr' and len(t[2]) >= 2 and t[2][0] == node and t[2][1][0] == 'const':
                out.add(t[2][1][1])
                return
            if cp.split('.')[-1] in ('iter_fields', 'iter_child_nodes', 'walk') and t[2] and t[2][0] == node:
                out.add(ALL)
                return
        if t[0] == 'sub':
            if not (t[2][0] == 'slice' and any(x[0] in ('const', 'unop') and x[1:] != (None,) for x in t[2][1:] if x)):
                go(t[1])
            return
        if t[0] == 'idx':
            return
        for x in t:
            if isinstance(x, tuple):
                go(x)
    go(t)
    return out


def absent(conds, node):
    """Attributes that are known to be empty on the path."""
    out = set()

    def direct(t):
        while t[0] in ('sub', 'elem', 'item'):
            t = t[1]
        if t[0] == 'attr' and t[1] == node:
            out.add(t[2])
        elif is_call(t, 'getattr') and len(t[2]) >= 2 and t[2][0] == node and t[2][1][0] == 'const':
            out.add(t[2][1][1])

    for t, b in conds:
        if t[0] == 'is_none' and b:
            direct(t[1])
        elif t[0] in ('attr', 'sub', 'elem', 'item', 'call') and not b:
            direct(t[2][0] if is_call(t, 'len') and t[2] else t)
        elif t[0] == 'cmp' and t[3] == ('const', 0) and is_call(t[2], 'len') and (
                t[1] == '==' and b or t[1] in ('>', '!=') and not b):
            direct(t[2][2][0])
        elif t[0] == 'cmp' and t[1] in ('==',) and t[3] in (('list', ()), ('tuple', ())) and b:
            direct(t[2])
    return out


def uncovered(fi, node, wanted, consume, delegate=None, groups=(), excuse=None, **kw):
    """
    [(attribute, state, sim)] for the paths of fi on which a wanted attribute is not covered.
    consume(call) -> terms that the call visits, delegate(call) -> attributes covered by the
    method that is called, excuse(attribute, state) -> whether the attribute may be left out.
    """
    def want(t):
        return t[0] in ('iter', 'exhausted', 'call')
    kw.setdefault('raises', no_raise)
    sim = PathSim(fi, want=want, loops=True, **kw)
    out = {}
    for t, st in sim.returns():
        cov = absent(st.conds, node)
        evs = list(st.events)
        ran = {e[1] for e in evs if e[0] == 'iter'}
        for e in evs:
            if e[0] == 'exhausted' and e[1] not in ran:
                gone = attrs_of(e[1], node) - {ALL + 'self'}
                cov |= gone | {PARALLEL[a] for a in gone if a in PARALLEL}
            elif e[0] == 'call':
                for x in consume(e):
                    cov |= attrs_of(x, node) - {ALL + 'self'}
                d = delegate(e) if delegate else None
                if d:
                    cov |= d
        for g in groups:
            if any(e[0] == 'exhausted' and e[1] not in ran and set().union(
                    *[attrs_of(y, node) for y in _lens(e[1])], set()) & set(g) for e in evs):
                cov |= set(g)
        if ALL in cov:
            continue
        for a in wanted:
            if a not in cov and not (excuse and excuse(a, st)):
                out.setdefault(a, (a, st, sim))
    return list(out.values())


def _lens(t):
    return [x[2][0] for x in subterms(t) if is_call(x, 'len') and x[2]] + [x[1] for x in subterms(t) if x[0] == 'idx']

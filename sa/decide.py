"""
Decision-table checks over the paths of a function: every assignment of truth values to the
atoms named by the specification must lead to the specified kind of outcome on every path that
is consistent with it (conditions the specification does not mention are unconstrained).
"""
import itertools


def atom_of(cond, recognise):
    """cond: (term, bool) of a path.  recognise(term) -> atom name or None.
    Returns (name, value) or None."""
    t, v = cond
    a = recognise(t)
    if a is not None:
        return (a[1:], not v) if a.startswith('!') else (a, v)
    if t[0] == 'is_none':
        a = recognise(t[1])
        if a is not None:
            return (a[1:], v) if a.startswith('!') else (a, not v)
    return None


def table(paths, atoms, recognise, classify, spec, possible=None):
    """Yields (assignment dict, path, got, wanted) for every disagreement, and
    (assignment, None, None, wanted) when no path is consistent with an assignment."""
    prepared = []
    for path in paths:
        req = {}
        ok = True
        for c in path[0]:
            a = atom_of(c, recognise)
            if a is None:
                continue
            if req.get(a[0], a[1]) != a[1]:
                ok = False
            req[a[0]] = a[1]
        if ok:
            prepared.append((req, path))
    for vals in itertools.product((True, False), repeat=len(atoms)):
        asg = dict(zip(atoms, vals))
        if possible is not None and not possible(asg):
            continue
        want = spec(asg)
        if want is None:
            continue
        n = 0
        for req, path in prepared:
            if all(asg.get(k, v) == v for k, v in req.items()):
                n += 1
                got = classify(path)
                if got is not None and got != want and not (
                        isinstance(want, (set, frozenset)) and got in want):
                    yield asg, path, got, want
        if not n:
            yield asg, None, None, want

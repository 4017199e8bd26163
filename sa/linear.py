"""Linear arithmetic component of the domain (convex polyhedra): entailment of signs of linear combinations of
opaque terms from the sign facts of a path. Switched on per obligation by facts.linear = True."""
from fractions import Fraction as Q
from math import gcd, lcm
from .terms import mk, isint, I

_lin = {}


def form(t, subst):
    """(coefficients {term: Q}, constant) of t over its non-arithmetic subterms"""
    s = subst.get(t.id)
    if s is not None and s is not t:
        return form(s, subst)
    op, a = t.op, t.args
    if isint(t):
        return {}, Q(a[0])
    if op == 'neg':
        c, k = form(a[0], subst)
        return {v: -q for v, q in c.items()}, -k
    if op in ('add', 'sub'):
        c, k = form(a[0], subst)
        d, l = form(a[1], subst)
        z = 1 if op == 'add' else -1
        c = dict(c)
        for v, q in d.items():
            n = c.get(v, 0) + z * q
            if n:
                c[v] = n
            else:
                c.pop(v, None)
        return c, k + z * l
    if op == 'mul':
        c, k = form(a[0], subst)
        d, l = form(a[1], subst)
        if not c:
            return ({v: q * k for v, q in d.items()}, k * l) if k else ({}, Q(0))
        if not d:
            return ({v: q * l for v, q in c.items()}, k * l) if l else ({}, Q(0))
        return {t: Q(1)}, Q(0)
    if op == 'div':
        d, l = form(a[1], subst)
        if not d and l:
            c, k = form(a[0], subst)
            return {v: q / l for v, q in c.items()}, k / l
    return {t: Q(1)}, Q(0)


def feasible(cons):
    """is the system of (coefficients, constant, strict): sum + constant >= 0 (> 0) satisfiable over the reals?
    exact simplex on integer rows: maximise eps with sum + constant >= eps for strict rows, eps <= 1"""
    rows, seen = [], set()
    for c, k, s in cons:
        if not c:
            if k < 0 or (s and k == 0):
                return False
            continue
        key = (frozenset(c.items()), k, s)
        if key not in seen:
            seen.add(key)
            rows.append((c, k, s))
    if not rows:
        return True
    vs = sorted({v for c, k, s in rows for v in c}, key=lambda v: v.id)
    ix = {v: i for i, v in enumerate(vs)}
    n = len(vs)
    m = len(rows) + 1
    # columns: x+ (n), x- (n), eps, slacks (m), right hand side;   row: -(c.x) + [s]eps + slack = k
    T = []
    for i, (c, k, s) in enumerate(rows):
        d = lcm(k.denominator, *[q.denominator for q in c.values()])
        r = [0] * (2 * n + 1 + m + 1)
        for v, q in c.items():
            q = int(q * d)
            r[ix[v]] = -q
            r[n + ix[v]] = q
        if s:
            r[2 * n] = d
        r[2 * n + 1 + i] = 1          # (any positive multiple of the slack is a slack)
        r[-1] = int(k * d)
        T.append(r)
    r = [0] * (2 * n + 1 + m + 1)
    r[2 * n] = r[2 * n + m] = r[-1] = 1
    T.append(r)
    strict = any(s for c, k, s in rows)
    basis = [2 * n + 1 + i for i in range(m)]
    W = 2 * n + 1 + m
    if any(r[-1] < 0 for r in T):
        for r in T:
            r.insert(W, -1)
        z = [0] * W + [1, 0]
        i = min(range(m), key=lambda i: T[i][-1])
        _pivot(T, z, basis, i, W)
        _run(T, z, basis)
        for i in range(m):
            if basis[i] == W:
                if T[i][-1] > 0:
                    return False
                j = next((j for j in range(W) if T[i][j] != 0), None)
                if j is not None:
                    _pivot(T, z, basis, i, j)
        for r in T:
            del r[W]
    if not strict:
        return True
    z = [0] * (W + 1)
    z[2 * n] = -1
    for i in range(m):
        _elim(z, T[i], basis[i])
    _run(T, z, basis)
    return z[-1] > 0


def _elim(r, row, j):
    """r -= (r[j]/row[j]) * row, scaled to coprime integers by a positive factor"""
    q = r[j]
    if q == 0:
        return
    p = row[j]
    if p < 0:
        p, q = -p, -q
    r[:] = [x * p - q * y for x, y in zip(r, row)]
    g = gcd(*r)
    if g > 1:
        r[:] = [x // g for x in r]


def _run(T, z, basis):
    while True:
        j = next((j for j in range(len(z) - 1) if z[j] < 0), None)     # Bland
        if j is None:
            return
        best = None
        for i, r in enumerate(T):
            if r[j] > 0:
                if best is None:
                    best = i
                else:
                    b = T[best]
                    x, y = r[-1] * b[j], b[-1] * r[j]
                    if x < y or (x == y and basis[i] < basis[best]):
                        best = i
        if best is None:
            return
        _pivot(T, z, basis, best, j)


def _pivot(T, z, basis, i, j):
    row = T[i]
    if row[j] < 0:
        row[:] = [-x for x in row]
    for k, r in enumerate(T):
        if k != i:
            _elim(r, row, j)
    _elim(z, row, j)
    basis[i] = j


def _cons(c, k, s, integer):
    """constraints for sign set s of the form"""
    neg = {v: -q for v, q in c.items()}
    if s == {1}:
        return [(c, k - 1, False)] if integer else [(c, k, True)]
    if s == {-1}:
        return [(neg, -k - 1, False)] if integer else [(neg, -k, True)]
    if s == {0, 1}:
        return [(c, k, False)]
    if s == {0, -1}:
        return [(neg, -k, False)]
    if s == {0}:
        return [(c, k, False), (neg, -k, False)]
    return []


def system(f):
    """linear constraints of the facts, and the disequalities"""
    cons, diff = [], []
    seen = set()
    vs = set()
    for x, s in f.signs:
        if s == frozenset((-1, 0, 1)):
            continue
        c, k = form(x, f.subst)
        s = frozenset(s)
        key = (frozenset(c.items()), k, s)
        if key in seen:
            continue
        seen.add(key)
        vs |= set(c)
        integer = k.denominator == 1 and all(q.denominator == 1 and f.is_integer(v) for v, q in c.items())
        if s == frozenset((-1, 1)):
            diff.append((c, k, integer))
        else:
            cons += _cons(c, k, s, integer)
    return cons, diff, vs


def bounds(vs, f):
    """constraints that hold by the meaning of the variables"""
    out = []
    todo = list(vs)
    seen = set(vs)
    while todo:
        v = todo.pop()
        if v.op == 'tdiv' and isint(v.args[1]) and v.args[1].args[0] > 0:
            d = v.args[1].args[0]
            c, k = form(v.args[0], f.subst)
            lo, hi = dict(c), {}
            for u, q in c.items():
                hi[u] = -q
            lo[v] = lo.get(v, 0) - d
            hi[v] = hi.get(v, 0) + d
            out.append((lo, k + (d - 1), False))      # x - d*q >= -(d-1)
            out.append((hi, -k + (d - 1), False))     # d*q - x >= -(d-1)
            for u in c:
                if u not in seen:
                    seen.add(u)
                    todo.append(u)
        elif v.op in ('clog', 'flog', 'U', 'plen', 'abs'):
            out.append(({v: Q(1)}, Q(0), False))
        if v.op == 'clog':
            u = mk('flog', *v.args)
            out.append(({v: Q(1), u: Q(-1)}, Q(0), False))       # flog <= clog <= flog + 1
            out.append(({v: Q(-1), u: Q(1)}, Q(1), False))
    return out


def possible(f, t, s):
    """can t have the sign s under the facts?"""
    c, k = form(t, f.subst)
    cons, diff, vs = f.lincache()
    integer = k.denominator == 1 and all(q.denominator == 1 and f.is_integer(v) for v, q in c.items())
    base = cons + bounds(vs | set(c), f)
    # only what is connected to the question (the facts alone are consistent)
    vs = set(c)
    while True:
        n = len(vs)
        for q in base:
            if any(v in vs for v in q[0]):
                vs.update(q[0])
        for q in diff:
            if any(v in vs for v in q[0]):
                vs.update(q[0])
        if len(vs) == n:
            break
    base = [q for q in base if not q[0] or any(v in vs for v in q[0])] + _cons(c, k, frozenset((s,)), integer)
    diff = [q for q in diff if any(v in vs for v in q[0])]
    return _split(base, diff[:5])


def _split(base, diff):
    if not feasible(base):
        return False
    if not diff:
        return True
    c, k, i = diff[0]
    return any(_split(base + _cons(c, k, frozenset((s,)), i), diff[1:]) for s in (1, -1))

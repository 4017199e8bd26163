"""Real roots of integer polynomials: bounds, isolation, counting. Polynomials have a fixed small number of symbolic
coefficients; loops over coefficients and intervals are followed exactly."""
import itertools
from fractions import Fraction as Q
from .terms import *
from .state import *
from .interp import Outcome
from . import flint, specs
from .flint import ret, new_heap, free
from .special import Run

UN = {'unroll': 12, 'unroll_any': True, 'unroll_states': 4000, 'maxsteps': 4000000, 'cap': 4000, 'fork_sgn': True}


# ------------------------------------------------------------------ vectors of a known number of coefficients
MV = dict(flint.M)


def mv(*names):
    def d(f):
        for n in names:
            old = flint.M.get(n)

            def g(A, st, args, inst, f=f, old=old):
                r = f(A, st, args, inst)
                return old(A, st, args, inst) if r is None else r
            MV[n] = g
        return f
    return d


def conc(t):
    v = sval(t)
    return v.args[0] if isint(v) else None


def vget(A, st, p, n):
    return [A.read(st, 'fmpz', ptr_add(p, I(8 * i))) for i in range(n)]


def vput(A, st, p, vs):
    for i, v in enumerate(vs):
        A.write(st, 'fmpz', ptr_add(p, I(8 * i)), v)


@mv('_fmpz_vec_init')
def _(A, st, args, inst):
    n = conc(args[0])
    if n is None:
        return None
    p = new_heap(A, st, 'fmpz vector', I(8 * n))
    A.vlens = getattr(A, 'vlens', {})
    A.vlens[p.args[0]] = n
    for i in range(n):
        st.wreg(p.args[0])[8 * i] = Cell('fmpz', ZERO)
    return ret(st, p)


@mv('_fmpz_vec_clear')
def _(A, st, args, inst):
    n = conc(args[1])
    k = getattr(A, 'vlens', {}).get(args[0].args[0]) if args[0].op == 'ptr' else None
    if k is not None and n is not None and (k != n or args[0].args[1] is not ZERO):
        A.event('clear-length', st, 'vector of %d integers is cleared from %s with length %d' % (k, A.pname(args[0]), n))
    free(A, st, args[0])
    return ret(st)


@mv('_fmpz_vec_set')
def _(A, st, args, inst):
    n = conc(args[2])
    if n is None:
        return None
    vput(A, st, args[0], vget(A, st, args[1], n))
    return ret(st)


@mv('_fmpz_vec_zero')
def _(A, st, args, inst):
    n = conc(args[1])
    if n is None:
        return None
    vput(A, st, args[0], [ZERO] * n)
    return ret(st)


@mv('_fmpz_vec_neg')
def _(A, st, args, inst):
    n = conc(args[2])
    if n is None:
        return None
    vput(A, st, args[0], [neg(v) for v in vget(A, st, args[1], n)])
    return ret(st)


@mv('_fmpz_vec_sum')
def _(A, st, args, inst):
    n = conc(args[2])
    if n is None:
        return None
    A.write(st, 'fmpz', args[0], lincomb(vget(A, st, args[1], n), [1] * n))
    return ret(st)


@mv('_fmpz_poly_taylor_shift', '_fmpz_poly_taylor_shift_horner', '_fmpz_poly_taylor_shift_divconquer', '_fmpz_poly_taylor_shift_multi_mod')
def _(A, st, args, inst):
    n = conc(args[2])
    if n is None:
        return None
    vs = vget(A, st, args[0], n)
    c = A.read(st, 'fmpz', args[1])
    out = []
    for k in range(n):
        t = ZERO
        for i in range(k, n):
            m = vs[i]
            for _ in range(i - k):
                m = mul(m, c)
            t = add(t, m if comb(i, k) == 1 else mul(I(comb(i, k)), m))
        out.append(t)
    vput(A, st, args[0], out)
    return ret(st)


@mv('_fmpz_poly_scale_2exp')
def _(A, st, args, inst):
    n, k = conc(args[1]), conc(args[2])
    if n is None:
        return None
    vs = vget(A, st, args[0], n)
    if k is None:
        # p(2^k x) with symbolic k; FLINT works up to a power of two
        e = mk('exp2', sval(args[2]))
        out = []
        for i, v in enumerate(vs):
            for _ in range(i):
                v = mul(v, e)
            out.append(v)
        vput(A, st, args[0], out)
        return ret(st)
    out = [v if not (k * i if k > 0 else -k * (n - 1 - i)) else mul(I(2 ** (k * i if k > 0 else -k * (n - 1 - i))), v) for i, v in enumerate(vs)]
    vput(A, st, args[0], out)
    return ret(st)


@mv('fmpz_mul_2exp')
def _(A, st, args, inst):
    a, e = A.read(st, 'fmpz', args[1]), conc(args[2])
    if e is None or not isint(a):
        return None
    A.write(st, 'fmpz', args[0], I(a.args[0] << e))
    return ret(st)


@mv('fmpz_fdiv_q_2exp', 'fmpz_tdiv_q_2exp')
def _(A, st, args, inst):
    a, e = A.read(st, 'fmpz', args[1]), conc(args[2])
    if e is None or not isint(a) or a.args[0] < 0:
        return None
    A.write(st, 'fmpz', args[0], I(a.args[0] >> e))
    return ret(st)


@mv('fmpz_val2')
def _(A, st, args, inst):
    a = A.read(st, 'fmpz', args[0])
    if not isint(a):
        return None
    a = abs(a.args[0])
    return ret(st, mconst((a & -a).bit_length() - 1 if a else 0, 64))


def gcd_(a, b):
    return mk('gcd', *sorted((a, b), key=lambda t: t.id))


@mv('fmpz_gcd')
def _(A, st, args, inst):
    g = gcd_(A.read(st, 'fmpz', args[1]), A.read(st, 'fmpz', args[2]))
    A.write(st, 'fmpz', args[0], g)
    return ret(st)


@mv('fmpz_lcm')
def _(A, st, args, inst):
    a, b = A.read(st, 'fmpz', args[1]), A.read(st, 'fmpz', args[2])
    if not st.facts.sign(mul(a, b)) <= {1}:
        return None
    A.write(st, 'fmpz', args[0], div(mul(a, b), gcd_(a, b)))
    return ret(st)


def coeffs(r, name, n, signs=None, lead=True):
    """array of n coefficients; -> pointer, list of coefficient terms"""
    p = r.reg(name)
    cs = []
    for i in range(n):
        c = atom('%s%d' % (name, i), 'Z')
        cs.append(c)
        r.put(name, 8 * i, Cell('fmpz', c))
        if signs is not None:
            r.st.facts.assume(csign(c, (signs[i],)))
        elif lead and i == n - 1:
            r.st.facts.assume(csign(c, (-1, 1)))
    return p, cs


def sign_vectors(n):
    for s in itertools.product((-1, 0, 1), repeat=n - 1):
        for l in (1, -1):
            yield s + (l,)


def ob_upper_bound(prog, n, s, opts=None):
    name = '_fmpz_poly_positive_root_upper_bound_2exp_local_max'
    r = Run(prog, name, 'coefficient signs %s' % ''.join('-0+'[x + 1] for x in s), opts=dict(UN, **(opts or {})), models=MV)
    p, cs = coeffs(r, 'pol', n, s)
    r.st.facts.linear = True
    for i in range(n):
        if s[i]:
            for op in ('clog', 'flog'):
                for a in (mk('abs', cs[i]), mabs(cs[i], s[i])):
                    x = mk(op, a, I(2))
                    r.st.facts.assume(csign(x, (0, 1)))
                    r.st.facts.assume(csign(sub(x, I(1 << 40)), (-1,)))
    for o in r.go([p, mconst(n, 64)]):
        f = o.st.facts
        b0 = sval(o.val)
        neg_ = [i for i in range(n - 1) if s[i] == -s[n - 1]]
        if not neg_:
            r.check(f.equal(b0, sval(mconst(-2 ** 63, 64))), 'bound', 'returns %s for a polynomial without positive roots' % show(b0), o, b0.unk)
            continue
        A_ = [mk('clog', mk('abs', cs[i]), I(2)) if s[i] else None for i in range(n)]
        B_ = [mk('flog', mk('abs', cs[i]), I(2)) if s[i] else None for i in range(n)]
        ok = covered(f, b0, neg_, [j for j in range(n) if s[j] == s[n - 1]], A_, B_)
        r.check(ok, 'bound', 'returns %s, which is not shown to dominate all terms of the other sign' % show(b0), o, b0.unk or bool(f.opaque))
    return r.R


def mabs(c, s):
    return c if s > 0 else neg(c)


def covered(f, b0, negs, poss, cl, fl):
    """is there an assignment of the negative terms to positive ones such that the share 2^-c of term j
    dominates each of them from 2^b0 on?"""
    negs = sorted(negs, reverse=True)

    def go(k, used):
        if k == len(negs):
            return True
        i = negs[k]
        for j in poss:
            if j <= i:
                continue
            c = used.get(j, 0) + 1
            need = sub(add(I(c), cl[i]), fl[j])          # b0 * (j - i) >= need
            if ge(f, b0, need, j - i):
                u = dict(used)
                u[j] = c
                if go(k + 1, u):
                    return True
        return False
    return go(0, {})


def ge(f, b0, need, d):
    if f.sign(sub(mul(b0, I(d)), need)) <= {0, 1}:
        return True
    t = need if d == 1 else mk('tdiv', add(need, I(d - 1)), I(d))
    return f.sign(sub(b0, t)) <= {0, 1}


def comb(n, k):
    from math import comb as c
    return c(n, k) if 0 <= k <= n else 0


def lincomb(cs, ks):
    t = ZERO
    for c, k in zip(cs, ks):
        if k:
            t = add(t, c if k == 1 else mul(I(k), c))
    return t


def split(f, ts, k=0, signs=()):
    """all sign vectors of the terms consistent with the facts"""
    if k == len(ts):
        yield signs, f
        return
    s = f.sign(ts[k])
    for x in sorted(s):
        g = f
        if len(s) > 1:
            g = f.copy()
            try:
                g.assume(csign(ts[k], (x,)))
            except Contradiction:
                continue
        yield from split(g, ts, k + 1, signs + (x,))


def variations(s):
    s = [x for x in s if x]
    return sum(1 for a, b in zip(s, s[1:]) if a != b)


def ob_descartes(prog, n, bound, lead, opts=None):
    name = '_fmpz_poly_descartes_bound_0_1'
    r = Run(prog, name, '%d coefficients, bound %d, leading sign %+d' % (n, bound, lead), opts=dict(UN, **(opts or {})), models=MV)
    p, cs = coeffs(r, 'p', n, lead=False)
    r.st.facts.linear = True
    r.st.facts.assume(csign(cs[-1], (lead,)))
    d = n - 1
    ts = [lincomb(cs, [comb(d - i, k) for i in range(n)]) for k in range(n)]
    for o in r.go([p, mconst(n, 64), mconst(bound, 64)]):
        v = sval(o.val)
        bad = None
        for sv, g in split(o.st.facts, ts):
            w = variations(sv)
            if w > bound:
                w = 2 ** 63 - 1
            if not g.equal(v, I(w)):
                bad = bad or (sv, w)
        r.check(bad is None, 'count', 'returns %s although the number of sign variations on the unit interval gives %s' % (show(v), bad and bad[1]), o, v.unk or bool(o.st.facts.opaque))
        for i, c in enumerate(cs):
            q = o.st.reg('p').get(8 * i)
            r.check(q is not None and o.st.facts.equal(q.val, c), 'operand-changed', 'coefficient %d of the polynomial changed' % i, o)
    return r.R


# ------------------------------------------------------------------ bisection (Vincent-Collins-Akritas)
POW2 = {pow(2, m, PRIME): m for m in range(-300, 301)}


def affine(vals, a, b):
    """coefficients (as residues) of P(a x + b) for residues vals"""
    n = len(vals)
    out = []
    for k in range(n):
        t = 0
        for i in range(k, n):
            t += vals[i] * comb(i, k) * pow(a, k, PRIME) * pow(b, i - k, PRIME)
        out.append(t % PRIME)
    return out


def half(k):
    return pow(2, -k, PRIME)


def same_up_to_pow2(v, e):
    r = None
    for x, y in zip(v, e):
        if y == 0:
            if x:
                return False
            continue
        q = x * pow(y, -1, PRIME) % PRIME
        if r is None:
            r = q
        elif q != r:
            return False
    return r in POW2


def cell(st, reg, off):
    """machine integer stored in memory"""
    c = st.reg(reg).get(off)
    return c.val if c is not None and c.kind == 'int' else mk('atom', '?missing', 'M64')


class Vca:
    """bookkeeping of one isolation run in the state: tuple (base residues, c0, k0, leaves)"""

    def __init__(self, r, depth, many, allow=None):
        self.r, self.depth, self.many, self.allow = r, depth, many, allow
        self.bad = []

    def spec(self, A, st, args, inst):
        """Descartes test: which interval of the original polynomial does this vector describe?"""
        n, bound = conc(args[1]), conc(args[2])
        if n is None or bound is None:
            A.event('unsure:descartes', st, 'length unknown')
            return []
        f = st.facts
        cells = vget(A, st, args[0], n)
        v = [f.fp(c) for c in cells]
        terms, c0, k0, leaves, const = st.eff
        base = [f.fp(t) for t in terms]
        hit = None
        for k in range(self.depth + 2):
            for c in range(2 ** k):
                # x0 = 2^(k0-k) (x + c) - c0 in the coordinates of the base polynomial
                a = half(k - k0)
                e = affine(base, a, (a * c - c0) % PRIME)
                for z in range(0, len(base) - n + 1):
                    # exact zeros at the left end of this node are divided out
                    if any(e[:z]):
                        break
                    if len(e) - z == n and same_up_to_pow2(v, e[z:]):
                        hit = (c, k, z)
                        break
                if hit:
                    break
            if hit:
                break
        if hit is None:
            self.bad.append(('node', 'the polynomial handed to the root test is not the given polynomial on a dyadic interval', st))
            A.event('vca-node', st, 'the polynomial handed to the root test is not the given polynomial rescaled to a dyadic interval of [0,1)')
            return []
        c, k, z = hit
        if z:
            terms, c0, k0 = tuple(cells), c, k
        outs = []
        res = [0]
        if n > 1:
            res.append(1)
            if k < self.depth and n > 2 and (self.allow is None or (c, k) in self.allow):
                res += [2] if self.many else [2 ** 63 - 1]
        for x in res:
            s = st.copy() if len(res) > 1 else st
            l = leaves + ((c, k, x if x < 2 else None, z),)
            s.eff = (terms, c0, k0, l, const or n == 1)
            outs.append(Outcome(s, 'ret', mconst(x, 64)))
        return outs


def ob_vca(prog, n, depth, many, exact=True, inter=True, start=0, allow=None, opts=None):
    name = '_fmpz_poly_isolate_real_roots_0_1_vca'
    r = Run(prog, name, '%d coefficients, depth %d%s%s%s%s' % (n, depth, ', undecided at once' if not many else '', '' if exact else ', no exact roots', '' if inter is True else ', only one interval array' if inter else ', no intervals', ', appending' if start else '') + (', chosen bisections' if allow else ''),
            opts=dict(UN, unroll=40, **(opts or {})), models=dict(MV))
    V = Vca(r, depth, many, allow)
    r.A.specs['_fmpz_poly_descartes_bound_0_1'] = V.spec
    p, cs = coeffs(r, 'pol', n)
    f = r.st.facts
    f.linear = True
    r.st.eff = (tuple(cs), 0, 0, (), False)
    for q in ('ne', 'ni'):
        r.reg(q)
        r.put(q, 0, Cell('int', mconst(start, 64), size=8))
    ex = NULL
    if exact:
        ex = r.reg('ex', lazy=True)
        r.A.regions['ex'].array = True
    ca = ka = NULL
    if inter:
        ca, ka = r.reg('ca', lazy=True), r.reg('ka', lazy=True)
        r.A.regions['ca'].array = r.A.regions['ka'].array = True
        if inter == 'c':
            ka = NULL
        elif inter == 'k':
            ca = NULL
    rs = r.go([ex, ptr('ne'), ca, ka, ptr('ni'), p, mconst(n, 64)])
    for o in rs:
        f = o.st.facts
        leaves = o.st.eff[3]
        # the final nodes tile [0,1)
        done = sorted((Q(c, 2 ** k), Q(c + 1, 2 ** k), x, c, k) for c, k, x, z in leaves if x is not None)
        x = Q(0)
        ok = True
        for a, b, _, _, _ in done:
            ok = ok and a == x
            x = b
        ok = (ok and x == 1) or o.st.eff[4]          # nothing is left to find in a constant
        r.check(ok, 'cover', 'the intervals examined do not cover [0,1): %s' % ', '.join('[%s,%s)' % d[:2] for d in done), o)
        want = [(c, k) for a, b, v, c, k in done if v == 1]
        roots = sorted(Q(c, 2 ** k) for c, k, v, z in leaves for _ in range(z))
        ne = conc(cell(o.st, 'ne', 0))
        ni = conc(cell(o.st, 'ni', 0))
        r.check(ni == start + len(want), 'count', 'reports %s intervals, %d contain a root' % (ni, len(want)), o, ni is None)
        r.check(ne == start + len(roots), 'count', 'reports %s exact roots, there are %d' % (ne, len(roots)), o, ne is None)
        if inter is True:
            for i, (c, k) in enumerate(want):
                g = r.A.read(o.st, 'fmpz', ptr_add(ca, I(8 * (start + i))))
                h_ = sval(cell(o.st, 'ka', 8 * (start + i)))
                r.check(g is not None and h_ is not None and f.equal(g, I(c)) and f.equal(h_, I(-k)), 'interval', 'interval %d is given as (%s, %s), must be (%d, %d)' % (i, show(g), show(h_) if h_ is not None else '?', c, -k), o, g.unk or h_ is None or h_.unk)
        if exact:
            for i, q in enumerate(roots):
                g = flint.rq(r.A, o.st, ptr_add(ex, I(16 * (start + i))))
                w = div(I(q.numerator), I(q.denominator))
                r.check(f.equal(g, w), 'root', 'exact root %d is %s, must be %s' % (i, show(g), q), o, g.unk)
        for i, c in enumerate(cs):
            r.check(f.equal(r.A.read(o.st, 'fmpz', ptr_add(p, I(8 * i))), c), 'operand-changed', 'coefficient %d of the polynomial changed' % i, o)
    return r.R


# ------------------------------------------------------------------ the whole real line
def put_poly(r, name, cs):
    """fmpz_poly_t with the given coefficients; -> pointers to the structure and the coefficients"""
    p = r.reg(name)
    q = r.reg(name + '.coeffs')
    n = len(cs)
    r.put(name, 0, Cell('int', q, size=8))
    r.put(name, 8, Cell('int', mconst(max(n, 1), 64), size=8))
    r.put(name, 16, Cell('int', mconst(n, 64), size=8))
    for i, c in enumerate(cs):
        r.put(name + '.coeffs', 8 * i, Cell('fmpz', c))
    return p, q


def zlen(A, st, p):
    if p.op != 'ptr' or not isint(p.args[1]):
        return None
    c = st.reg(p.args[0]).get(p.args[1].args[0] + 16)
    return conc(c.val) if c is not None and c.kind == 'int' else None


def zcoeffs(A, st, p):
    return st.reg(p.args[0]).get(p.args[1].args[0]).val


@mv('fmpz_poly_is_zero')
def _(A, st, args, inst):
    n = zlen(A, st, args[0])
    return None if n is None else ret(st, mconst(int(n == 0), inst.ty.n))


@mv('fmpz_poly_length')
def _(A, st, args, inst):
    n = zlen(A, st, args[0])
    return None if n is None else ret(st, mconst(n, 64))


@mv('fmpz_poly_degree')
def _(A, st, args, inst):
    n = zlen(A, st, args[0])
    return None if n is None else ret(st, mconst(n - 1, 64))


class Line:
    """stand-ins for the bound and the isolation on [0,1): first call negative half, second call positive half"""

    def __init__(self, r, cs, ks, ms, es, arrays):
        self.r, self.cs, self.ks, self.ms, self.es, self.arrays = r, cs, ks, ms, es, arrays

    def side(self, A, st, p, n, k):
        """+1 / -1: the half line this vector describes; 0: none"""
        f = st.facts
        if n != len(self.cs):
            return 0
        v = [f.fp(x) for x in vget(A, st, p, n)]
        for s in (1, -1):
            e = [f.fp(c) * pow(s, i, PRIME) * pow(2, k * i, PRIME) % PRIME for i, c in enumerate(self.cs)]
            for g in (1, -1):
                if same_up_to_pow2([x * g % PRIME for x in v], e):
                    return s
        return 0

    def bound(self, A, st, args, inst):
        n = conc(args[1])
        s = self.side(A, st, args[0], n, 0) if n is not None else 0
        if not s:
            A.event('line-bound', st, 'the bound is computed for a polynomial other than P(x) and P(-x)')
            return []
        outs = []
        for k in self.ks:
            t = st.copy()
            d = dict(t.eff)
            d['k', s] = k
            t.eff = d
            outs.append(Outcome(t, 'ret', mconst(k if k is not None else -2 ** 63, 64)))
        return outs

    def vca(self, A, st, args, inst):
        n = conc(args[6])
        s = 0
        if n is not None:
            for c in (1, -1):
                k = st.eff.get(('k', c))
                if k is not None and self.side(A, st, args[5], n, k) == c:
                    s = c
        if not s or ('m', s) in st.eff:
            A.event('line-scale', st, 'the roots in [0,1) are isolated for a polynomial other than P(2^k x), P(-2^k x) with the bound 2^k of that half line')
            return []
        outs = []
        for m in self.ms:
            for e in self.es:
                t = st.copy()
                d = dict(t.eff)
                d['m', s], d['e', s] = m, e
                d['order'] = d.get('order', ()) + (s,)
                t.eff = d
                ok = True
                for j, (q, cnt) in enumerate(((args[1], e), (args[4], m))):
                    v = conc(cell(t, q.args[0], q.args[1].args[0])) if q.op == 'ptr' else None
                    if v is None:
                        ok = False
                        break
                    if j == 0 and args[0] is not NULL:
                        for i in range(e):
                            flint.wq(A, t, ptr_add(args[0], I(16 * (v + i))), rootname(s, i))
                    if j == 1 and args[2] is not NULL and args[3] is not NULL:
                        for i in range(m):
                            A.write(t, 'fmpz', ptr_add(args[2], I(8 * (v + i))), cname(s, i))
                            t.wreg(args[3].args[0])[args[3].args[1].args[0] + 8 * (v + i)] = Cell('int', mconst(kval(s, i), 64), size=8)
                    t.wreg(q.args[0])[q.args[1].args[0]] = Cell('int', mconst(v + cnt, 64), size=8)
                if not ok:
                    A.event('unsure:line', st, 'unknown count')
                outs.append(Outcome(t, 'ret', None))
        return outs


def rootname(s, i):
    return atom('root%s%d' % ('+' if s > 0 else '-', i), 'Q')


def cname(s, i):
    return atom('c%s%d' % ('+' if s > 0 else '-', i), 'Z')


def kval(s, i):
    return -1 - i - (3 if s > 0 else 0)


def ob_line(prog, n, zeros, ks, ms, es, exact=True, inter=True, opts=None):
    name = 'fmpz_poly_isolate_real_roots'
    r = Run(prog, name, '%d coefficients, %d roots at zero%s%s, %s' % (n, zeros, '' if exact else ', no exact roots', '' if inter is True else ', only one interval array' if inter else ', no intervals', 'up to %d intervals and %d exact roots on each side' % (max(ms), max(es))),
            opts=dict(UN, **(opts or {})), models=dict(MV))
    cs = [atom('p%d' % i, 'Z') for i in range(n)]
    f = r.st.facts
    f.linear = True
    f.assume(csign(cs[0], (-1, 1)))
    if n > 1:
        f.assume(csign(cs[-1], (-1, 1)))
    L = Line(r, cs, ks, ms, es, inter)
    for b in ('_fmpz_poly_positive_root_upper_bound_2exp', '_fmpz_poly_positive_root_upper_bound_2exp_local_max'):
        r.A.specs[b] = L.bound
    r.A.specs['_fmpz_poly_isolate_real_roots_0_1_vca'] = L.vca
    r.st.eff = {}
    pol, co = put_poly(r, 'pol', [ZERO] * zeros + cs)
    for q in ('ne', 'ni'):
        r.reg(q)
        r.put(q, 0, Cell('int', mk('atom', '?old', 'M64'), size=8))
    ex = ca = ka = NULL
    if exact:
        ex = r.reg('ex', lazy=True)
        r.A.regions['ex'].array = True
    if inter:
        ca, ka = r.reg('ca', lazy=True), r.reg('ka', lazy=True)
        r.A.regions['ca'].array = r.A.regions['ka'].array = True
        if inter == 'c':
            ka = NULL
        elif inter == 'k':
            ca = NULL
    rs = r.go([ex, ptr('ne'), ca, ka, ptr('ni'), pol])
    for o in rs:
        f, d = o.st.facts, o.st.eff
        kn, kp = d.get(('k', -1), 'x'), d.get(('k', 1), 'x')
        r.check(kn != 'x' and kp != 'x', 'side', 'no bound for the %s roots is asked for' % ('negative' if kn == 'x' else 'positive'), o)
        if kn == 'x' or kp == 'x':
            continue
        for s, k in ((-1, kn), (1, kp)):
            if k is not None:
                r.check(('m', s) in d, 'side', 'the %s roots are not isolated' % ('positive' if s > 0 else 'negative'), o)
        if any(k is not None and ('m', s) not in d for s, k in ((-1, kn), (1, kp))):
            continue
        mn, mp, en, ep = (d.get(x, 0) for x in (('m', -1), ('m', 1), ('e', -1), ('e', 1)))
        wi = [(neg(add(cname(-1, i), ONE)), kval(-1, i) + kn) for i in reversed(range(mn))] + [(cname(1, i), kval(1, i) + kp) for i in range(mp)]
        we = [neg(sc(rootname(-1, i), kn)) for i in reversed(range(en))] + [ZERO] * zeros + [sc(rootname(1, i), kp) for i in range(ep)]
        ne, ni = conc(cell(o.st, 'ne', 0)), conc(cell(o.st, 'ni', 0))
        r.check(ni == len(wi), 'count', 'reports %s intervals instead of %d' % (ni, len(wi)), o, ni is None)
        r.check(ne == len(we), 'count', 'reports %s exact roots instead of %d' % (ne, len(we)), o, ne is None)
        if inter is True:
            for i, (c, k) in enumerate(wi):
                g, h_ = r.A.read(o.st, 'fmpz', ptr_add(ca, I(8 * i))), sval(cell(o.st, 'ka', 8 * i))
                r.check(f.equal(g, c) and f.equal(h_, I(k)), 'interval', 'interval %d of %d is given as (%s, %s), must be (%s, %d)' % (i, len(wi), show(g), show(h_), show(c), k), o, g.unk or h_.unk)
        if exact:
            for i, q in enumerate(we):
                g = flint.rq(r.A, o.st, ptr_add(ex, I(16 * i)))
                r.check(f.equal(g, q), 'root', 'exact root %d of %d is %s, must be %s' % (i, len(we), show(g), show(q)), o, g.unk)
        for i, c in enumerate([ZERO] * zeros + cs):
            r.check(f.equal(r.A.read(o.st, 'fmpz', ptr_add(co, I(8 * i))), c), 'operand-changed', 'coefficient %d of the polynomial changed' % i, o)
    return r.R


def sc(x, k):
    return mul(x, I(2 ** k)) if k > 0 else div(x, I(2 ** -k)) if k < 0 else x


# ------------------------------------------------------------------ counting
def ob_count(prog, name, line, e, m, opts=None):
    r = Run(prog, name, '%d exact roots and %d intervals' % (e, m), opts=dict(UN, **(opts or {})), models=dict(MV))
    cs = [atom('p%d' % i, 'Z') for i in range(3)]
    pol, co = put_poly(r, 'pol', cs)
    r.st.facts.assume(csign(cs[-1], (-1, 1)))
    r.st.eff = 0

    def spec(A, st, args, inst, struct):
        ok = (args[5] is pol) if struct else (args[5] is co and conc(args[6]) == 3)
        if struct and not ok and args[5].op == 'ptr':
            n = zlen(A, st, args[5])
            ok = n == 3 and all(st.facts.equal(x, y) for x, y in zip(vget(A, st, zcoeffs(A, st, args[5]), 3), cs))
        if not struct and not ok and args[5].op == 'ptr' and conc(args[6]) == 3:
            ok = all(st.facts.equal(x, y) for x, y in zip(vget(A, st, args[5], 3), cs))
        if not ok:
            A.event('count-poly', st, 'counts the roots of a different polynomial')
        if args[0] is not NULL or args[2] is not NULL or args[3] is not NULL:
            A.event('unsure:count', st, 'arrays')
        for q, k in ((args[1], e), (args[4], m)):
            v = 0 if struct else conc(cell(st, q.args[0], q.args[1].args[0])) if q.op == 'ptr' else None
            if v is None:
                A.event('uninit', st, 'a counter is not initialised')
                v = 0
            st.wreg(q.args[0])[q.args[1].args[0]] = Cell('int', mconst(v + k, 64), size=8)
        st.eff += 1
        return ret(st)
    r.A.specs['_fmpz_poly_isolate_real_roots_0_1_vca'] = lambda A, st, a, i: spec(A, st, a, i, False)
    r.A.specs['fmpz_poly_isolate_real_roots'] = lambda A, st, a, i: spec(A, st, a, i, True)
    for o in r.go([pol]):
        v = sval(o.val)
        if o.st.eff != 1:
            r.R.undecided.append(('count', 'roots are counted by other means', o.loc, []))
            continue
        r.check(o.st.facts.equal(v, I(e + m)), 'count', 'returns %s for %d exact roots and %d isolating intervals' % (show(v), e, m), o, v.unk)
    return r.R


# ------------------------------------------------------------------ Sturm
def zset(A, st, p, vs):
    """give the fmpz_poly_t at p the coefficients vs"""
    rn = A.fresh('coeffs')
    A.region(rn, 'param', lazy=False, info=rn)
    for i, v in enumerate(vs):
        st.wreg(rn)[8 * i] = Cell('fmpz', v)
    m = st.wreg(p.args[0])
    o = p.args[1].args[0]
    m[o] = Cell('int', ptr(rn), size=8)
    m[o + 8] = Cell('int', mconst(len(vs), 64), size=8)
    m[o + 16] = Cell('int', mconst(len(vs), 64), size=8)


def zget(A, st, p):
    n = zlen(A, st, p)
    return None if n is None else vget(A, st, zcoeffs(A, st, p), n)


def structs():
    """models of polynomials with a known number of coefficients"""
    M = dict(MV)

    def d(*names):
        def g(f):
            for n in names:
                M[n] = f
        return g

    @d('fmpz_poly_init', 'fmpz_poly_init2')
    def _(A, st, args, inst):
        zset(A, st, args[0], [])
        return ret(st)

    @d('fmpz_poly_clear', 'fmpz_poly_fit_length')
    def _(A, st, args, inst):
        return ret(st)

    @d('fmpz_poly_set')
    def _(A, st, args, inst):
        zset(A, st, args[0], zget(A, st, args[1]))
        return ret(st)

    @d('fmpz_poly_neg')
    def _(A, st, args, inst):
        zset(A, st, args[0], [neg(v) for v in zget(A, st, args[1])])
        return ret(st)

    @d('fmpz_poly_derivative')
    def _(A, st, args, inst):
        zset(A, st, args[0], [v if i == 0 else mul(I(i + 1), v) for i, v in enumerate(zget(A, st, args[1])[1:])])
        return ret(st)

    @d('fmpz_poly_swap')
    def _(A, st, args, inst):
        a, b = zget(A, st, args[0]), zget(A, st, args[1])
        zset(A, st, args[0], b)
        zset(A, st, args[1], a)
        return ret(st)

    @d('fmpz_poly_zero')
    def _(A, st, args, inst):
        zset(A, st, args[0], [])
        return ret(st)

    @d('fmpz_poly_one')
    def _(A, st, args, inst):
        zset(A, st, args[0], [ONE])
        return ret(st)

    @d('fmpz_poly_content')
    def _(A, st, args, inst):
        v = zget(A, st, args[1])
        if not v:
            A.write(st, 'fmpz', args[0], ZERO)
            return ret(st)
        outs = []
        for k in ((1, 3) if len(v) == 1 else (3,)):
            s = st.copy()
            A.write(s, 'fmpz', args[0], I(k))
            outs.append(Outcome(s, 'ret', None))
        return outs
    return M


def ob_sturm(prog, lens, opts=None):
    """lens: numbers of coefficients of the successive polynomials of the sequence"""
    name = 'fmpz_poly_num_real_roots_0_1_sturm'
    M = structs()
    r = Run(prog, name, 'a sequence of polynomials with %s coefficients' % ', '.join(map(str, lens)), opts=dict(UN, unroll=len(lens) + 6, **(opts or {})), models=M)
    n = lens[0]
    cs = [atom('p%d' % i, 'Z') for i in range(n)]
    f = r.st.facts
    f.linear = True
    f.assume(csign(cs[-1], (-1, 1)))
    pol, co = put_poly(r, 'pol', cs)
    if n > 1:
        r.put('pol', 8, Cell('int', mconst(n, 64), size=8))
    seq = [tuple(cs)]
    if n > 1:
        seq.append(tuple(v if i == 0 else mul(I(i + 1), v) for i, v in enumerate(cs[1:])))
    r.st.eff = (tuple(seq), None)

    def at(vs):
        return vs[0], lincomb(vs, [1] * len(vs))

    def fork(st, ts):
        """decide the signs of all the terms"""
        sts = [st]
        for t in ts:
            nx = []
            for s in sts:
                ss = sorted(s.facts.sign(t))
                for k in ss:
                    s2 = s
                    if len(ss) > 1:
                        s2 = s.copy()
                        try:
                            s2.facts.assume(csign(t, (k,)))
                        except Contradiction:
                            continue
                    nx.append(s2)
            sts = nx
        return sts

    def prop(f, v, w):
        """+1 / -1 when v is a positive / negative multiple of w, else 0"""
        if len(v) != len(w):
            return 0
        x, y = [f.fp(t) for t in v], [f.fp(t) for t in w]
        q = None
        for a, b in zip(x, y):
            if b == 0:
                if a:
                    return 0
                continue
            z = a * pow(b, -1, PRIME) % PRIME
            if q is None:
                q = z
            elif q != z:
                return 0
        for m in range(-6, 7):
            p3 = pow(3, m, PRIME)
            if q == p3:
                return 1
            if q == -p3 % PRIME:
                return -1
        return 0

    def prem(A, st, args, inst):
        a, b = zget(A, st, args[2]), zget(A, st, args[3])
        seq, _ = st.eff
        j = len(seq) - 1
        fx = st.facts
        sa = prop(fx, a, seq[j - 1]) if j > 0 else 0
        sb = prop(fx, b, seq[j]) if j > 0 else 0
        if sa != 1 or sb == 0:
            A.event('sturm-seq', st, 'the remainder is not formed of the last two polynomials of the Sturm sequence')
            return []
        if sb != 1:
            A.event('sturm-seq', st, 'a polynomial of the sequence has the wrong sign')
            return []
        outs = []
        last = len(seq) == len(lens)
        m = 0 if last else lens[len(seq)]
        new = tuple(atom('s%d_%d' % (len(seq), i), 'Z') for i in range(m))
        for s in fork(st, ([b[-1]] if m else []) + list(at(seq[j])) + list(at(seq[j - 1]))):
            if m:
                s = s.copy()
                s.facts.assume(csign(new[-1], (-1, 1)))
            for s2 in (fork(s, at(new)) if m else [s]):
                ff = s2.facts
                bad = False
                for e in (0, 1):
                    x, y = ff.sign(at(seq[j - 1])[e]), ff.sign(at(seq[j])[e])
                    z = ff.sign(at(new)[e]) if m else frozenset((0,))
                    x, y, z = next(iter(x)), next(iter(y)), next(iter(z))
                    # neighbours of a zero have opposite signs
                    if y == 0 and (x == 0 or z != -x):
                        bad = True
                if bad:
                    continue
                for d in ((1, 2) if m else (1,)):
                    s3 = s2.copy()
                    sg = -1
                    lb = next(iter(s3.facts.sign(b[-1]))) if m else 1
                    if d % 2 and lb < 0:
                        sg = 1
                    zset(A, s3, args[0], [v if sg > 0 else neg(v) for v in new])
                    q = args[1]
                    s3.wreg(q.args[0])[q.args[1].args[0]] = Cell('int', mconst(d, 64), size=8)
                    s3.eff = (seq + ((new,) if m else ()), None)
                    outs.append(Outcome(s3, 'ret', None))
        return outs
    M['fmpz_poly_pseudo_rem'] = prem
    for o in r.go([pol]):
        f = o.st.facts
        seq = o.st.eff[0]
        s0 = [f.sign(at(v)[0]) for v in seq]
        s1 = [f.sign(at(v)[1]) for v in seq]
        if any(len(x) != 1 for x in s0 + s1):
            if len(seq) < len(lens) or n > 1:
                r.check(False, 'count', 'answers before the Sturm sequence is complete', o, True)
                continue
        s0, s1 = [next(iter(x)) for x in s0], [next(iter(x)) for x in s1]
        r.check(len(seq) == len(lens), 'count', 'uses only %d of the %d polynomials of the Sturm sequence' % (len(seq), len(lens)), o, bool(f.opaque))
        want = variations(s0) - variations(s1) + (s0[0] == 0)
        v = sval(o.val)
        sh = lambda s: ''.join('-0+'[x + 1] for x in s)
        r.check(f.equal(v, I(want)), 'count', 'returns %s for the signs %s at 0 and %s at 1, there are %d roots' % (show(v), sh(s0), sh(s1), want), o, v.unk)
        for i, c in enumerate(cs):
            r.check(f.equal(r.A.read(o.st, 'fmpz', ptr_add(co, I(8 * i))), c), 'operand-changed', 'coefficient %d of the polynomial changed' % i, o)
    return r.R


# ------------------------------------------------------------------ small helpers of the root code
def ob_scale(prog, n, opts=None):
    name = '_fmpz_poly_scale_0_1_fmpq'
    M = dict(MV)

    def prim(A, st, args, inst):
        k = conc(args[2])
        c = A.fresh_atom('content', 'Z') if hasattr(A, 'fresh_atom') else atom(A.fresh('content'), 'Z')
        st.facts.assume(csign(c, (1,)))
        vput(A, st, args[0], [div(v, c) for v in vget(A, st, args[1], k)])
        return ret(st)
    M['_fmpz_poly_primitive_part'] = prim
    r = Run(prog, name, '%d coefficients' % n, opts=dict(UN, **(opts or {})), models=M)
    p, cs = coeffs(r, 'pol', n)
    a, b = atom('a', 'Q'), atom('b', 'Q')
    f = r.st.facts
    f.rational += [a, b]
    f._clean()
    for nm, v in (('a', a), ('b', b)):
        r.reg(nm)
        r.put(nm, 0, Cell('fmpz', num(v)))
        r.put(nm, 8, Cell('fmpz', den(v)))
    f.assume(csign(sub(b, a), (1,)))
    for o in r.go([p, mconst(n, 64), ptr('a'), ptr('b')]):
        f = o.st.facts
        cells = vget(r.A, o.st, p, n)
        v = [f.fp(c) for c in cells]
        fa, fd = f.fp(a), f.fp(sub(b, a))
        e = affine([f.fp(c) for c in cs], fd, fa)
        ok = n < 2 or (any(v) and all((v[i] * e[j] - v[j] * e[i]) % PRIME == 0 for i in range(n) for j in range(i)))
        r.check(ok, 'transform', 'the result is not a multiple of P(a + (b - a) x)', o, any(c.unk for c in cells))
        if n == 1:
            r.check(f.equal(cells[0], cs[0]) or 0 not in f.sign(cells[0]), 'transform', 'a constant becomes %s' % show(cells[0]), o, cells[0].unk)
        for nm, w in (('a', a), ('b', b)):
            r.check(f.equal(flint.rq(r.A, o.st, ptr(nm)), w), 'operand-changed', 'end point %s changed' % nm, o)
    return r.R


def ob_zabs(prog, n, alias, opts=None):
    name = 'fmpz_poly_abs'
    M = structs()
    r = Run(prog, name, '%d coefficients%s' % (n, ', in place' if alias else ''), opts=dict(UN, **(opts or {})), models=M)
    cs = [atom('p%d' % i, 'Z') for i in range(n)]
    pol, co = put_poly(r, 'pol', cs)
    if n:
        r.st.facts.assume(csign(cs[-1], (-1, 1)))
    res = pol

    def fit(A, st, args, inst):
        k = conc(args[1])
        have = zget(A, st, args[0])
        if k is None or have is None:
            return flint.M['fmpz_poly_fit_length'](A, st, args, inst) if 'fmpz_poly_fit_length' in flint.M else ret(st)
        m = zlen(A, st, args[0])
        zset(A, st, args[0], have + [ZERO] * (k - len(have)))
        st.wreg(args[0].args[0])[args[0].args[1].args[0] + 16] = Cell('int', mconst(m, 64), size=8)
        return ret(st)

    def setlen(A, st, args, inst):
        st.wreg(args[0].args[0])[args[0].args[1].args[0] + 16] = Cell('int', sval_cell(args[1]), size=8)
        return ret(st)
    M['fmpz_poly_fit_length'] = fit
    M['_fmpz_poly_set_length'] = setlen
    if not alias:
        res, _ = put_poly(r, 'res', [atom('old', 'Z')])
    for o in r.go([res, pol]):
        f = o.st.facts
        v = zget(r.A, o.st, res)
        r.check(v is not None and len(v) == n, 'value', 'the result has %s coefficients instead of %d' % (v and len(v), n), o, v is None)
        if v is None or len(v) != n:
            continue
        for i in range(n):
            ok = f.equal(v[i], mk('abs', cs[i]))
            if not ok:
                # decided signs on this path
                ok = all(g.equal(v[i], cs[i] if s[0] >= 0 else neg(cs[i])) for s, g in split(f, [cs[i]]))
            r.check(ok, 'value', 'coefficient %d is %s, must be the absolute value' % (i, show(v[i])), o, v[i].unk)
        if not alias:
            w = zget(r.A, o.st, pol)
            r.check(w is not None and all(f.equal(x, y) for x, y in zip(w, cs)), 'operand-changed', 'the polynomial changed', o)
    return r.R


def sval_cell(t):
    return t


def ob_has_root(prog, n, name='_fmpz_poly_has_real_root', opts=None):
    r = Run(prog, name, '%d coefficients' % n, inline=('_fmpz_poly_has_real_root',), opts=dict(UN, **(opts or {})), models=dict(MV))
    cs = [atom('p%d' % i, 'Z') for i in range(n)]
    pol, co = put_poly(r, 'pol', cs)
    f = r.st.facts
    f.assume(csign(cs[-1], (-1, 1)))
    r.st.eff = None

    def count(A, st, args, inst, struct):
        v = zget(A, st, args[0]) if struct else (vget(A, st, args[0], conc(args[1])) if conc(args[1]) is not None else None)
        if v is None or len(v) != n or not all(st.facts.equal(x, y) for x, y in zip(v, cs)):
            A.event('count-poly', st, 'counts the roots of a different polynomial')
        outs = []
        for k in (0, 1, 2):
            s = st.copy()
            s.eff = k
            outs.append(Outcome(s, 'ret', mconst(k, 64)))
        return outs
    for nm in ('_fmpz_poly_num_real_roots',):
        r.A.models[nm] = lambda A, st, a, i: count(A, st, a, i, False)
    for nm in ('fmpz_poly_num_real_roots', 'fmpz_poly_num_real_roots_sturm'):
        r.A.models[nm] = lambda A, st, a, i: count(A, st, a, i, True)
    r.A.specs['fmpz_poly_num_real_roots_vca'] = lambda A, st, a, i: count(A, st, a, i, True)
    for o in r.go([co, mconst(n, 64)] if name[0] == '_' else [pol]):
        f = o.st.facts
        v = sval(o.val)
        sv = f.sign(v)
        k = o.st.eff
        for s, g in split(f, [cs[0], cs[-1]]):
            sure = n % 2 == 0 or s[0] * s[1] <= 0 or bool(k)
            none = n == 1 or k == 0
            if n == 1:
                sure = False
            if 0 in sv and sure and not (k == 0):
                r.check(False, 'answer', 'says there is no real root although there is one (signs %+d, %+d at the ends)' % s, o, v.unk or len(sv) > 1)
            elif 0 in sv and not none:
                r.check(False, 'answer', 'says there is no real root without a proof', o, v.unk or len(sv) > 1 or bool(f.opaque))
            elif sv - {0} and not sure:
                r.check(False, 'answer', 'says there is a real root although there may be none', o, v.unk or len(sv) > 1 or bool(f.opaque))
            else:
                r.check(True, 'answer', '', o)
    return r.R


def ob_root_bound(prog, n, zeros, opts=None):
    """number of real roots is bounded by zeros at 0 + variations on both sides"""
    name = 'fmpz_poly_num_real_roots_upper_bound'
    r = Run(prog, name, '%d coefficients, %d roots at zero' % (n, zeros), opts=dict(UN, **(opts or {})), models=dict(MV))
    cs = [atom('p%d' % i, 'Z') for i in range(n)]
    f = r.st.facts
    f.linear = True
    f.assume(csign(cs[0], (-1, 1)))
    f.assume(csign(cs[-1], (-1, 1)))
    L = Line(r, cs, (2, None), (0,), (0,), False)
    pol, co = put_poly(r, 'pol', [ZERO] * zeros + cs)

    def desc(A, st, args, inst):
        m = conc(args[1])
        s = 0
        for c in (1, -1):
            k = st.eff.get(('k', c))
            if m is not None and k is not None and L.side(A, st, args[0], m, k) == c:
                s = c
        if not s:
            A.event('line-scale', st, 'the root test is applied to a polynomial other than P(2^k x), P(-2^k x) with the bound 2^k of that half line')
            return []
        b = conc(args[2])
        outs = []
        for v in (0, 1, m - 1):
            t = st.copy()
            d = dict(t.eff)
            d['m', s] = v
            t.eff = d
            outs.append(Outcome(t, 'ret', mconst(v if b is None or v <= b else 2 ** 63 - 1, 64)))
        return outs
    for b in ('_fmpz_poly_positive_root_upper_bound_2exp', '_fmpz_poly_positive_root_upper_bound_2exp_local_max'):
        r.A.specs[b] = L.bound
    r.A.specs['_fmpz_poly_descartes_bound_0_1'] = desc
    r.st.eff = {}
    for o in r.go([pol]):
        d = o.st.eff
        v = sval(o.val)
        want = zeros
        for s in (1, -1):
            if ('k', s) not in d or (d['k', s] is not None and ('m', s) not in d):
                want = None
            elif d['k', s] is not None:
                want += d['m', s]
        if want is None:
            r.check(n == 1 and o.st.facts.equal(v, I(zeros)), 'side', 'one of the half lines is not examined', o, n == 1)
            continue
        r.check(o.st.facts.sign(sub(v, I(want))) <= {0, 1}, 'bound', 'returns %s, less than the %d roots there may be' % (show(v), want), o, v.unk)
        r.check(o.st.facts.equal(v, I(want)), 'bound', 'returns %s instead of %d' % (show(v), want), o, v.unk)
    return r.R


def ob_bound_wrapper(prog, n, zeros, name='fmpz_poly_positive_root_upper_bound_2exp', opts=None):
    vec = name[0] == '_'
    r = Run(prog, name, '%d coefficients, %d roots at zero' % (n, zeros), opts=dict(UN, **(opts or {})), models=dict(MV))
    cs = [atom('p%d' % i, 'Z') for i in range(n)]
    f = r.st.facts
    f.assume(csign(cs[0], (-1, 1)))
    f.assume(csign(cs[-1], (-1, 1)))
    pol, co = put_poly(r, 'pol', [ZERO] * zeros + cs)
    b = atom('bound', 'M64')
    r.st.eff = 0

    def bound(A, st, args, inst):
        m = conc(args[1])
        v = vget(A, st, args[0], m) if m is not None else None
        # dividing out x (or not) and multiples do not change the positive roots
        while v and v[0] is ZERO:
            v = v[1:]
        if v is None or len(v) != n or not all(st.facts.equal(x, y) for x, y in zip(v, cs)):
            A.event('line-bound', st, 'the bound is computed for a different polynomial')
        st.eff += 1
        return ret(st, b)
    for q in ('_fmpz_poly_positive_root_upper_bound_2exp', '_fmpz_poly_positive_root_upper_bound_2exp_local_max'):
        if q != name:
            r.A.specs[q] = bound
    for o in r.go([co, mconst(n, 64)] if vec else [pol]):
        v = sval(o.val)
        r.check(o.st.eff > 0 and o.st.facts.equal(v, sval(b)), 'bound', 'returns %s instead of the bound' % show(v), o, v.unk or not o.st.eff)
    return r.R


def ob_squarefree(prog, shape, alias, opts=None):
    """shape: number of coefficients 0, 1 or 'n' (at least two)"""
    name = 'fmpz_poly_squarefree_part'
    M = structs()
    n = {'n': 4}.get(shape, shape)
    r = Run(prog, name, '%s coefficients%s' % (shape, ', in place' if alias else ''), opts=dict(UN, **(opts or {})), models=M)
    cs = [atom('p%d' % i, 'Z') for i in range(n)]
    f = r.st.facts
    if n:
        f.assume(csign(cs[-1], (-1, 1)))
    pol, co = put_poly(r, 'pol', cs)
    res = pol
    if not alias:
        res, _ = put_poly(r, 'res', [atom('old', 'Z')])
    r.st.eff = None
    der = [v if i == 0 else mul(I(i + 1), v) for i, v in enumerate(cs[1:])]
    qs = [atom('q%d' % i, 'Z') for i in range(3)]
    G = [atom('g%d' % i, 'Z') for i in range(2)]

    def is_(A, st, p, vs, sign=False):
        v = zget(A, st, p)
        if v is None or len(v) != len(vs):
            return False
        return all(st.facts.equal(x, y) for x, y in zip(v, vs)) or (sign and all(st.facts.equal(x, neg(y)) for x, y in zip(v, vs)))

    def gcd(A, st, args, inst):
        ok = (is_(A, st, args[1], cs, True) and is_(A, st, args[2], der, True)) or (is_(A, st, args[2], cs, True) and is_(A, st, args[1], der, True))
        if not ok:
            A.event('unsure:gcd', st, 'gcd of other polynomials')
            st.eff = 'other'
        zset(A, st, args[0], G)
        return ret(st)

    def dv(A, st, args, inst):
        ok = st.eff is None and is_(A, st, args[1], cs, True) and is_(A, st, args[2], G)
        s = 1 if is_(A, st, args[1], cs) else -1
        outs = []
        for k in (1, -1):
            t = st.copy()
            t.eff = 'quot' if ok else 'other'
            try:
                t.facts.assume(csign(qs[-1], (k,)))
            except Contradiction:
                continue
            zset(A, t, args[0], [v if s > 0 else neg(v) for v in qs])
            outs.append(Outcome(t, 'ret', mconst(1, 32) if inst.ty.k == 'int' else None))
        return outs
    M['fmpz_poly_gcd'] = gcd
    for q in ('fmpz_poly_div', 'fmpz_poly_divexact', 'fmpz_poly_divides'):
        M[q] = dv
    for o in r.go([res, pol]):
        f = o.st.facts
        v = zget(r.A, o.st, res)
        if n == 0:
            r.check(v == [], 'value', 'the squarefree part of 0 is %s' % (v,), o, v is None)
        elif n == 1:
            r.check(v is not None and len(v) == 1 and f.equal(v[0], ONE), 'value', 'the squarefree part of a constant is not 1', o, v is None)
        else:
            ok = v is not None and len(v) == 3 and o.st.eff == 'quot'
            sg = 1 if ok and all(f.equal(x, y) for x, y in zip(v, qs)) else -1 if ok and all(f.equal(x, neg(y)) for x, y in zip(v, qs)) else 0
            r.check(ok and sg, 'value', 'the result is not the polynomial divided by its gcd with its derivative', o, o.st.eff == 'other')
            if ok and sg:
                r.check(f.sign(v[-1]) == {1}, 'value', 'the leading coefficient of the squarefree part may be negative', o)
    return r.R


BADEV = ('abort', 'null-deref', 'vca-node', 'clear-length', 'line-bound', 'line-scale', 'count-poly', 'sturm-seq', 'uninit', 'out-of-bounds', 'use-after-free', 'double-free', 'double-clear')


def jobs(tier):
    """(group, name, function, arguments) of every obligation"""
    deep = tier == 'thorough'
    out = []

    def j(g, f, *a):
        out.append((g, f, a))
    for n in range(1, 6 if deep else 5):
        for s in sign_vectors(n):
            j('bound', ob_upper_bound, n, s)
    for n, z in ((1, 0), (3, 0), (3, 1), (4, 2)):
        j('bound', ob_bound_wrapper, n, z)
    j('bound', ob_bound_wrapper, 3, 0, '_fmpz_poly_positive_root_upper_bound_2exp')
    for n in range(1, 6 if deep else 5):
        for b in (0, 1, 2, n):
            for l in (1, -1):
                if b <= 2 or n > 2:
                    j('descartes', ob_descartes, n, b, l)
    for a in ((1, 1, True), (2, 1, True), (2, 2, False), (3, 1, True), (3, 2, True), (3, 1, False, True, True, 2), (3, 1, True, False, False), (3, 2, True, False, True, 1), (3, 2, True, True, False, 1), (4, 1, True), (4, 2, True)):
        j('vca', ob_vca, *a)
    for al in (((0, 0), (0, 1), (1, 2)), ((0, 0), (1, 1), (2, 2), (0, 1)), ((0, 0), (1, 1), (3, 2)), ((0, 0), (0, 1), (0, 2), (1, 2), (3, 3))):
        j('vca', ob_vca, 3, 4, True, True, True, 0, frozenset(al))
    for w in 'ck':
        j('vca', ob_vca, 3, 1, True, True, w)
        j('line', ob_line, 3, 1, (3, None), (0, 2), (0, 2), True, w)
    if deep:
        for a in ((5, 2, True), (3, 3, True), (5, 1, False)):
            j('vca', ob_vca, *a)
    for a in ((2, 0, (2, None), (4, 3), (0,)), (3, 0, (3, None), (0, 1, 2, 3), (0,)), (3, 1, (3, 0, -2, None), (0, 1), (0, 1, 2)), (4, 2, (2,), (0, 2), (0, 3)),
              (4, 0, (2, None), (2,), (0, 3), True, False), (4, 1, (2, -1, None), (0, 1, 2, 3), (0, 2), False), (4, 0, (2,), (0, 1, 2, 3), (0, 2), False, False), (5, 1, (-1, 1), (5,), (4,))):
        j('line', ob_line, *a)
    for nm in ('fmpz_poly_num_real_roots_0_1_vca', 'fmpz_poly_num_real_roots_vca', 'fmpz_poly_num_real_roots_0_1'):
        for e, m in ((0, 0), (1, 0), (0, 1), (2, 3)):
            j('count', ob_count, nm, 0, e, m)
    for l in ((1,), (2, 1), (3, 2, 1), (3, 2), (4, 3, 1)):
        j('sturm', ob_sturm, l)
    for n in (1, 2, 3, 4):
        j('scale', ob_scale, n)
    for n in (1, 2, 3, 4, 5):
        j('hasroot', ob_has_root, n)
    j('hasroot', ob_has_root, 3, 'fmpz_poly_has_real_root')
    for n in (2, 3, 4):
        for z in (0, 1, 2):
            j('ubound', ob_root_bound, n, z)
    for n in (0, 1, 'n'):
        for a in (0, 1):
            j('squarefree', ob_squarefree, n, a)
    for n in (0, 1, 3):
        for a in (0, 1):
            j('abs', ob_zabs, n, a)
    return out

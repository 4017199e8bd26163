"""Abstract value domain.

Values are hash-consed expressions ("terms") over opaque atoms.  Two terms are
considered equal when they agree modulo the axioms of fields (plus the axioms
listed in `Facts.fp`); this is decided by global value numbering in the style
of random interpretation (Gulwani & Necula): every atom gets one fixed
pseudo-random image in GF(2^127-1) and terms are compared by their images.
No program path is executed and no solver is involved.

`Facts` is the must-information that a program point carries: sign facts,
predicates and substitutions that hold on every execution reaching the point.
"""
import hashlib

PRIME = (1 << 127) - 1


class T:
    __slots__ = ('op', 'args', 'id', 'unk', '__weakref__')
    table = {}
    n = 0

    def __repr__(self):
        return show(self)


def mk(op, *args):
    key = (op,) + tuple(('T', a.id) if isinstance(a, T) else a for a in args)
    t = T.table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        T.n += 1
        t.id = T.n
        t.unk = (op == 'atom' and args[1].startswith('?')) or any(isinstance(a, T) and a.unk for a in args)
        T.table[key] = t
    return t


def I(n):
    return mk('int', int(n))


ZERO = I(0)
ONE = I(1)


def atom(name, sort):
    """sort: K element, Q rational, Z integer, M<w> machine int, P poly, V coefficient vector,
    R real, arf, mag, B(all handled by ballatom), D double.  A leading '?' marks an unknown (join/havoc) value."""
    return mk('atom', name, sort)


def isint(t):
    return t.op == 'int'


def neg(a):
    if isint(a):
        return I(-a.args[0])
    if a.op == 'neg':
        return a.args[0]
    if a.op == 'sub':
        return sub(a.args[1], a.args[0])
    return mk('neg', a)


def add(a, b):
    if isint(a) and isint(b):
        return I(a.args[0] + b.args[0])
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    # canonical (base + const)
    if isint(b) and a.op == 'add' and isint(a.args[1]):
        return add(a.args[0], I(a.args[1].args[0] + b.args[0]))
    if isint(a):
        return add(b, a)
    return mk('add', a, b)


def sub(a, b):
    if isint(b):
        return add(a, I(-b.args[0]))
    if b is ZERO:
        return a
    if a is b:
        return ZERO
    if a is ZERO:
        return neg(b)
    if b.op == 'neg':
        return add(a, b.args[0])
    return mk('sub', a, b)


def mul(a, b):
    if isint(a) and isint(b):
        return I(a.args[0] * b.args[0])
    if a is ONE:
        return b
    if b is ONE:
        return a
    if a is ZERO or b is ZERO:
        return ZERO
    return mk('mul', a, b)


def div(a, b):
    if b is ONE:
        return a
    if isint(a) and isint(b) and b.args[0] != 0 and a.args[0] % b.args[0] == 0:
        return I(a.args[0] // b.args[0])
    if a.op == 'num' and b.op == 'den' and a.args[0] is b.args[0]:
        return a.args[0]
    return mk('div', a, b)


def power(x, e):
    if x.op == 'div' and x.args[0] is ONE:
        return power(x.args[1], neg(e))
    if isint(e) and e.args[0] == 1:
        return x
    if isint(e) and e.args[0] == 0:
        return ONE
    return mk('pow', x, e)


def num(q):
    if isint(q):
        return q
    return mk('num', q)


def den(q):
    if isint(q):
        return ONE
    return mk('den', q)


def sgn(t):
    if isint(t):
        n = t.args[0]
        return I((n > 0) - (n < 0))
    if t.op == 'sgn':
        return t
    if t.op == 'neg' and t.args[0].op == 'sgn':
        return t
    return mk('sgn', t)


# ------------------------------------------------------------------ balls
NOENCL = mk('noencl')


def ball(name, encl, *args):
    """a ball-valued term; `encl` is a real-valued term that the ball is guaranteed to contain"""
    return mk('ball', name, encl if encl is not None else NOENCL, *args)


def encl(b):
    if b.op == 'ball':
        e = b.args[1]
        return None if e is NOENCL else e
    return None


def mid(b):
    if b.op == 'ball' and b.args[0] == 'exact':
        return b.args[2]
    return mk('mid', b)


def rad(b):
    if b.op == 'ball' and b.args[0] == 'exact':
        return mk('mag0')
    return mk('rad', b)


MAG0 = mk('mag0')


def exact_ball(x):
    """ball of radius zero at the arf value x"""
    return ball('exact', x, x)


# order of the ends (o: rounded outwards) and the centre of one ball
RANK = {'olo': -2, 'lo': -1, 'mid': 0, 'hi': 1, 'ohi': 2}


def part_of_ball(m, r):
    """ends of the ball with exact centre m and radius r when these are an exact part of another ball: its ends and its centre"""
    from . import linear
    c, k = linear.form(m, {})
    d, l = linear.form(r, {})
    if k or l or len(d) != 1 or len(c) > 2:
        return None
    rd = next(iter(d))
    if rd.op != 'rad':
        return None
    B = rd.args[0]
    md = mk('mid', B)
    if c.get(md) != 1 or any(x not in (md, rd) for x in c):
        return None
    ends = []
    for e in (c.get(rd, 0) - d[rd], c.get(rd, 0) + d[rd]):
        if e not in (-1, 0, 1):
            return None
        ends.append({-1: mk('lo', B), 0: md, 1: mk('hi', B)}[int(e)])
    return ends


def assemble(m, r):
    if m.op == 'mid' and r.op == 'rad' and m.args[0] is r.args[0]:
        return m.args[0]
    if r is MAG0:
        return exact_ball(m)
    p = part_of_ball(m, r)
    if p is not None:
        return ball('part', mk('between', *p), m, r)
    if m.op != 'mid' and m.op != 'arfround' and not m.op.startswith('arf:'):
        return ball('assemble', mk('within', m, r), m, r)
    return ball('assemble', None, m, r)


# ------------------------------------------------------------------ machine integers
def mconst(n, w):
    n &= (1 << w) - 1
    return mk('mi', n, w)


def mwidth(t):
    if t.op == 'mi':
        return t.args[1]
    if t.op in ('sext', 'zext', 'trunc', 'tomach', 'mop', 'mphi'):
        return t.args[1] if t.op != 'mop' else t.args[1]
    if t.op == 'atom' and t.args[1].lstrip('?').startswith('M'):
        return int(t.args[1].lstrip('?')[1:])
    return 64


def smin(w):
    return -(1 << (w - 1))


def sval(t):
    """signed mathematical value of a machine integer term"""
    op = t.op
    if op == 'mi':
        n, w = t.args
        return I(n - (1 << w) if w > 1 and n >> (w - 1) else n)
    if op == 'sext':
        return sval(t.args[0])
    if op == 'zext':
        return uval(t.args[0])
    if op == 'tomach':
        if len(t.args) > 2 and t.args[2] == 'u' and t.args[0].op not in ('ind', 'plen', 'slen'):
            return mk('S', t)
        return t.args[0]
    if op == 'trunc':
        x, w = t.args
        y = x
        if y.op in ('sext', 'zext') and mwidth(y.args[0]) <= w:
            if mwidth(y.args[0]) == w or y.op == 'sext':
                return sval(y.args[0])
            return uval(y.args[0])
        if y.op == 'tomach' and (len(y.args) < 3 or y.args[2] != 'u') and y.args[0].op in ('ind', 'sgn', 'arfsgn', 'plen', 'slen'):
            return y.args[0]
        return mk('S', t)
    if op == 'mop':
        o, w, fl, a, b = t.args
        if 'nsw' in fl:
            if o == 'add':
                return add(sval(a), sval(b))
            if o == 'sub':
                return sub(sval(a), sval(b))
            if o == 'mul':
                return mul(sval(a), sval(b))
            if o == 'shl' and b.op == 'mi':
                return mul(sval(a), I(1 << b.args[0]))
        if o == 'sdiv' and b.op == 'mi':
            d = sval(b).args[0]
            if d == 1:
                return sval(a)
            if d > 1:
                return mk('tdiv', sval(a), I(d))
        return mk('S', t)
    if op == 'atom' and t.args[1] in ('Z', 'Q', 'K', 'R'):
        return t
    if op in ('ind',):
        return t
    return mk('S', t)


def uval(t):
    op = t.op
    if op == 'mi':
        return I(t.args[0])
    if op == 'zext':
        return uval(t.args[0])
    if op == 'tomach':
        if isint(t.args[0]) and t.args[0].args[0] >= 0:
            return t.args[0]
        if t.args[0].op in ('ind', 'U', 'plen', 'slen'):
            return t.args[0]
        if len(t.args) > 2 and t.args[2] == 'u':
            return t.args[0]
        return mk('U', t)
    if op == 'ind':
        return t
    if op == 'mop':
        o, w, fl, a, b = t.args
        if 'nuw' in fl:
            if o == 'add':
                return add(uval(a), uval(b))
            if o == 'mul':
                return mul(uval(a), uval(b))
    return mk('U', t)


def tomach(x, w, signed='s'):
    if isint(x):
        return mconst(x.args[0], w)
    if signed == 's':
        return mk('tomach', x, w)
    return mk('tomach', x, w, 'u')


def mop(o, w, fl, a, b):
    if a.op == 'mi' and b.op == 'mi':
        x, y = a.args[0], b.args[0]
        sx, sy = sval(a).args[0], sval(b).args[0]
        r = None
        if o == 'add': r = x + y
        elif o == 'sub': r = x - y
        elif o == 'mul': r = x * y
        elif o == 'and': r = x & y
        elif o == 'or': r = x | y
        elif o == 'xor': r = x ^ y
        elif o == 'shl' and y < w: r = x << y
        elif o == 'lshr' and y < w: r = x >> y
        elif o == 'ashr' and y < w: r = sx >> y
        elif o == 'udiv' and y: r = x // y
        elif o == 'urem' and y: r = x % y
        elif o == 'sdiv' and sy: r = int(abs(sx) // abs(sy)) * (1 if (sx < 0) == (sy < 0) else -1)
        elif o == 'srem' and sy: r = sx - sy * (int(abs(sx) // abs(sy)) * (1 if (sx < 0) == (sy < 0) else -1))
        if r is not None:
            return mconst(r, w)
    if o in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr') and b.op == 'mi' and b.args[0] == 0:
        return a
    if o == 'add' and a.op == 'mi' and a.args[0] == 0:
        return b
    if o == 'mul' and b.op == 'mi' and b.args[0] == 1:
        return a
    if o == 'mul' and a.op == 'mi' and a.args[0] == 1:
        return b
    if o == 'and':
        if b.op == 'mi' and b.args[0] == 0:
            return b
        if a.op == 'bits':
            return bits_and(a, b, w)
        if b.op == 'bits':
            return bits_and(b, a, w)
    if o == 'xor' and w == 1 and b.op == 'mi' and b.args[0] == 1:
        return mnot(a)
    if o == 'xor' and w == 1 and a.op == 'mi' and a.args[0] == 1:
        return mnot(b)
    if o == 'sub' and a is b:
        return mconst(0, w)
    if o in ('add', 'sub') and 'nsw' not in fl and _narrow_bits(a, w) < w - 1 and _narrow_bits(b, w) < w - 1:
        fl = frozenset(fl) | {'nsw'}
    return mk('mop', o, w, frozenset(fl), a, b)


def _narrow_bits(t, w):
    """bits (with sign) that hold the value of t read as a signed word"""
    if t.op == 'mi':
        return sval(t).args[0].bit_length() + 1
    if t.op == 'sext':
        return mwidth(t.args[0])
    if t.op == 'zext':
        return mwidth(t.args[0]) + 1
    return w


def bits_and(a, b, w):
    # bits(known_mask, known_value, name): partially known machine word
    km, kv, nm = a.args
    if b.op == 'mi':
        m = b.args[0]
        if m & km == m:
            return mconst(kv & m, w)
    return mk('mop', 'and', w, frozenset(), a, b)


def mnot(a):
    if a.op == 'ind':
        return ind(cnot(a.args[0]))
    if a.op == 'mi':
        return mconst(1 - a.args[0], 1)
    return mk('mnot', a)


# ------------------------------------------------------------------ conditions
# ('csign', t, frozenset)  : sign(t) in set
# ('cpred', term, bool)    : predicate term has truth value
# ('ctrue',) ('cfalse',) ; ('cand', c1, c2) ('cor', c1, c2)
CTRUE = mk('ctrue')
CFALSE = mk('cfalse')
NEG, ZER, POS = -1, 0, 1
ANY = frozenset((-1, 0, 1))


def csign(t, s):
    s = frozenset(s)
    if isint(t):
        n = t.args[0]
        v = (n > 0) - (n < 0)
        return CTRUE if v in s else CFALSE
    if s == ANY:
        return CTRUE
    if not s:
        return CFALSE
    if t.op == 'neg':
        return csign(t.args[0], frozenset(-x for x in s))
    if t.op == 'sgn':
        return csign(t.args[0], s)
    if t.op in ('S', 'U') and t.args[0].op == 'tomach' and len(t.args[0].args) > 2 and (s == {0} or s == {-1, 1}):
        return csign(t.args[0].args[0], s)          # a word is zero iff the value it holds is
    if t.op in ('add', 'sub'):
        # sign of (sign value + constant)
        for x, y in ((t.args[0], t.args[1]), (t.args[1], t.args[0])):
            if isint(y) and _signlike(x):
                k = y.args[0]
                v, m = _unsgn(x)
                mx, my = 1, 1
                if t.op == 'sub':
                    if y is t.args[1]:
                        my = -1
                    else:
                        mx = -1
                q = lambda n: (n > 0) - (n < 0)
                return csign(v, frozenset(i for i in (-1, 0, 1) if q(mx * m * i + my * k) in s))
        c = _small_sum(t, s)
        if c is not None:
            return c
    return mk('csign', t, s)


def _lin_atoms(t, k, out):
    """t as an integer combination of truth values and signs: fills out, returns the constant or None"""
    if isint(t):
        return k * t.args[0]
    if t.op == 'neg':
        return _lin_atoms(t.args[0], -k, out)
    if t.op in ('add', 'sub'):
        a = _lin_atoms(t.args[0], k, out)
        if a is None:
            return None
        b = _lin_atoms(t.args[1], k if t.op == 'add' else -k, out)
        return None if b is None else a + b
    if t.op == 'ind' or t.op == 'sgn':
        out.append((t, k))
        return 0
    return None


def _small_sum(t, s):
    """sign(t) in s as a condition on the operands, for a sum of truth values and signs"""
    atoms = []
    k = _lin_atoms(t, 1, atoms)
    if k is None or not 1 <= len(atoms) <= 4 or not any(a.op == 'ind' for a, _ in atoms):
        return None
    base = {}     # base conditions the truth of every atom depends on
    for a, _ in atoms:
        if a.op == 'sgn':
            base[('s', a.args[0].id)] = a.args[0]
            continue
        c = a.args[0]
        if c.op == 'csign':
            base[('s', c.args[0].id)] = c.args[0]
        elif c.op == 'cpred':
            base[('p', c.args[0].id)] = c.args[0]
        else:
            return None
    if len(base) > 2:
        return None
    keys = list(base)
    import itertools
    rows = []
    for vals in itertools.product(*[((-1, 0, 1) if key[0] == 's' else (True, False)) for key in keys]):
        env = dict(zip(keys, vals))
        v = k
        for a, m in atoms:
            if a.op == 'sgn':
                v += m * env[('s', a.args[0].id)]
            else:
                c = a.args[0]
                x = env[('s' if c.op == 'csign' else 'p', c.args[0].id)]
                v += m * int(x in c.args[1] if c.op == 'csign' else x == c.args[1])
        if ((v > 0) - (v < 0)) in s:
            rows.append(vals)

    def one(key, vs):
        if key[0] == 's':
            return csign(base[key], vs)
        if len(set(vs)) == 2:
            return CTRUE
        return mk('cpred', base[key], vs[0]) if vs else CFALSE
    if len(keys) == 1:
        return one(keys[0], [r[0] for r in rows])
    groups = {}
    for v0, v1 in rows:
        groups.setdefault(v0, []).append(v1)
    merged = {}
    for v0, v1s in groups.items():
        merged.setdefault(tuple(v1s), []).append(v0)
    r = CFALSE
    for v1s, v0s in merged.items():
        r = cor(r, cand(one(keys[0], v0s), one(keys[1], list(v1s))))
    return r


def splits(c, limit=8):
    """disjoint conjunctions (lists of elementary conditions) whose union is c; None when there are too many"""
    if c.op == 'cand':
        a, b = splits(c.args[0], limit), splits(c.args[1], limit)
        if a is None or b is None or len(a) * len(b) > limit:
            return None
        return [x + y for x in a for y in b]
    if c.op == 'cor':
        a, n, b = splits(c.args[0], limit), splits(cnot(c.args[0]), limit), splits(c.args[1], limit)
        if a is None or b is None or n is None or len(a) + len(n) * len(b) > limit:
            return None
        return a + [x + y for x in n for y in b]
    return [[c]]


def cpred(name, *args):
    return mk('cpred', mk('p:' + name, *args), True)


def cnot(c):
    if c is CTRUE:
        return CFALSE
    if c is CFALSE:
        return CTRUE
    if c.op == 'csign':
        return csign(c.args[0], ANY - c.args[1])
    if c.op == 'cpred':
        return mk('cpred', c.args[0], not c.args[1])
    if c.op == 'cand':
        return mk('cor', cnot(c.args[0]), cnot(c.args[1]))
    if c.op == 'cor':
        return mk('cand', cnot(c.args[0]), cnot(c.args[1]))
    raise ValueError(c.op)


def cand(a, b):
    if a is CTRUE: return b
    if b is CTRUE: return a
    if a is CFALSE or b is CFALSE: return CFALSE
    return mk('cand', a, b)


def cor(a, b):
    if a is CFALSE: return b
    if b is CFALSE: return a
    if a is CTRUE or b is CTRUE: return CTRUE
    return mk('cor', a, b)


def ind(c):
    """indicator integer of a condition: 1 when it holds, else 0"""
    if c is CTRUE:
        return ONE_M1
    if c is CFALSE:
        return ZERO_M1
    return mk('ind', c)


ONE_M1 = mconst(1, 1)
ZERO_M1 = mconst(0, 1)


def cond_of(v):
    """condition for: machine value v != 0"""
    if v.op == 'mi':
        return CTRUE if v.args[0] else CFALSE
    if v.op == 'ind':
        return v.args[0]
    if v.op in ('zext', 'sext'):
        return cond_of(v.args[0])
    if v.op == 'tomach':
        x = v.args[0]
        if x.op == 'ind':
            return x.args[0]
        return csign(x, (-1, 1))
    if v.op == 'mnot':
        return cnot(cond_of(v.args[0]))
    if v.op == 'mop' and v.args[0] == 'and' and mwidth(v) == 1:
        return cand(cond_of(v.args[3]), cond_of(v.args[4]))
    if v.op == 'mop' and v.args[0] == 'or':
        return cor(cond_of(v.args[3]), cond_of(v.args[4]))
    return csign(sval(v), (-1, 1))


def icmp(pred, a, b):
    if pred in ('eq', 'ne'):
        # boolean valued operands
        for x, y in ((a, b), (b, a)):
            if y.op == 'mi':
                k = sval(y).args[0]
                base = x
                while base.op in ('zext',):
                    base = base.args[0]
                if base.op == 'tomach' and base.args[0].op == 'ind':
                    base = base.args[0]
                if base.op in ('ind', 'mnot'):
                    c = cond_of(base)
                    if k == 0:
                        r = cnot(c)
                    elif k == 1 or (mwidth(y) == 1 and k != 0):
                        r = c
                    else:
                        r = CFALSE
                    return ind(r if pred == 'eq' else cnot(r))
                # x + c1 = c2 exactly for x = c2 - c1, also when the sum wraps around
                if base is x and x.op == 'mop' and x.args[0] in ('add', 'sub') and x.args[4].op == 'mi':
                    w = mwidth(y)
                    c1 = x.args[4].args[0] if x.args[0] == 'add' else -x.args[4].args[0]
                    return icmp(pred, x.args[3], mconst((y.args[0] - c1) % (1 << w), w))
        d = sub(sval(a), sval(b))
        c = csign(d, (0,))
        return ind(c if pred == 'eq' else cnot(c))
    s = {'lt': (-1,), 'le': (-1, 0), 'gt': (1,), 'ge': (1, 0)}[pred[1:]]
    if pred[0] == 's':
        d = sub(sval(a), sval(b))
    else:
        d = sub(uval(a), uval(b))
    return ind(csign(d, s))


# ------------------------------------------------------------------ helpers
def h(*xs):
    m = hashlib.blake2b(repr(xs).encode(), digest_size=16).digest()
    return int.from_bytes(m, 'big') % PRIME


def inv(x):
    return pow(x, PRIME - 2, PRIME) if x else 0


def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, frozenset):
            return '{' + ','.join(str(x) for x in sorted(t, key=str)) + '}'
        return str(t)
    if d > 7:
        return '…'
    o, a = t.op, t.args
    if o == 'int':
        return str(a[0])
    if o == 'atom':
        return a[0]
    if o == 'mi':
        return str(sval(t).args[0])
    if o in ('add', 'sub', 'mul', 'div'):
        return '(%s%s%s)' % (show(a[0], d + 1), {'add': '+', 'sub': '-', 'mul': '*', 'div': '/'}[o], show(a[1], d + 1))
    if o == 'neg':
        return '-' + show(a[0], d + 1)
    if o == 'ball':
        e = encl(t)
        return 'ball<%s:%s>' % (a[0], show(e, d + 1) if e is not None else '?')
    if o in ('tomach', 'sext', 'zext', 'S', 'U'):
        return (o + '(%s)' % show(a[0], d + 1)) if o in ('S', 'U') else show(a[0], d + 1)
    if o == 'csign':
        return 'sign(%s) in %s' % (show(a[0], d + 1), show(a[1]))
    if o == 'cpred':
        return ('' if a[1] else 'not ') + show(a[0], d + 1)
    if o == 'ind':
        return '[%s]' % show(a[0], d + 1)
    return '%s(%s)' % (o, ', '.join(show(x, d + 1) for x in a))


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    if t.id in seen:
        return
    seen.add(t.id)
    yield t
    for x in t.args:
        if isinstance(x, T):
            yield from subterms(x, seen)


BALLSIDE = {'arb_is_positive': 1, 'arb_is_nonnegative': 1, 'arb_is_negative': -1, 'arb_is_nonpositive': -1}


class Contradiction(Exception):
    pass


class Facts:
    """must-facts at a program point"""

    def __init__(self):
        self.subst = {}       # term id -> term
        self.signs = []       # [(term, frozenset)]
        self.preds = {}       # predicate term -> bool
        self.rational = []    # terms known rational
        self.irrational = []  # terms known irrational
        self.integer = []
        self.irrelevant = 0
        self.rootpolys = ()
        self.predterms = []
        self.opaque = []      # conditions taken that the domain does not interpret
        self.linear = False   # linear arithmetic component (sa/linear.py)
        self._memo = {}
        self._clean()

    def _clean(self):
        self._memo = {}
        self._sm = {}
        self._lc = None

    def lincache(self):
        if self._lc is None or self._lc[0] != (len(self.signs), len(self.subst)):
            from . import linear
            self._lc = ((len(self.signs), len(self.subst)), linear.system(self))
        return self._lc[1]

    def copy(self):
        f = Facts.__new__(Facts)
        f.subst = dict(self.subst)
        f.signs = list(self.signs)
        f.preds = dict(self.preds)
        f.rational = list(self.rational)
        f.irrational = list(self.irrational)
        f.integer = list(self.integer)
        f.opaque = list(self.opaque)
        f.irrelevant = 0
        f.linear = self.linear
        f._lc = None
        f.rootpolys = self.rootpolys
        f.predterms = list(self.predterms)
        f._memo = self._memo
        f._sm = self._sm
        return f

    # ---------------------------------------------------------- fingerprints
    def fp(self, t):
        r = self._memo.get(t.id)
        if r is None:
            r = self._fp(t)
            self._memo[t.id] = r
        return r

    def _fp(self, t):
        s = self.subst.get(t.id)
        if s is not None and s is not t:
            return self.fp(s)
        op, a = t.op, t.args
        fp = self.fp
        if op == 'int':
            return a[0] % PRIME
        if op == 'atom':
            return h('atom', a[0], a[1])
        if op == 'add':
            return (fp(a[0]) + fp(a[1])) % PRIME
        if op == 'sub':
            return (fp(a[0]) - fp(a[1])) % PRIME
        if op == 'neg':
            return -fp(a[0]) % PRIME
        if op == 'mul':
            return fp(a[0]) * fp(a[1]) % PRIME
        if op == 'div':
            return fp(a[0]) * inv(fp(a[1])) % PRIME
        if op == 'pow':
            if isint(a[1]) and abs(a[1].args[0]) <= 4096:
                e = a[1].args[0]
                b = fp(a[0])
                return pow(b if e >= 0 else inv(b), abs(e), PRIME)
            b, e = fp(a[0]), fp(a[1])
            ib = inv(b)
            if ib < b:             # (1/b)^e = b^(-e)
                b, e = ib, -e % PRIME
            if e > PRIME - e:      # b^(-e) = 1/b^e
                return inv(h('pow', b, PRIME - e))
            return h('pow', b, e)
        if op == 'num':
            return fp(a[0]) * fp(den(a[0])) % PRIME
        if op == 'den':
            if self.is_integer(a[0]):
                return 1
            return h('den', fp(a[0]))
        if op == 'sgn':
            s = self.sign(a[0])
            if len(s) == 1:
                return next(iter(s)) % PRIME
            x = self.strip_pos(a[0])
            f = fp(x)
            g = -f % PRIME
            return h('sgn', f) if f <= g else -h('sgn', g) % PRIME
        if op == 'exp2':
            e, k = a[0], 0
            if e.op == 'add' and isint(e.args[1]):
                e, k = e.args[0], e.args[1].args[0]
            if isint(e):
                e, k = None, e.args[0]
            if abs(k) < 4096:
                f = 1 if e is None else h('exp2', fp(e))
                return f * (pow(2, k, PRIME) if k >= 0 else inv(pow(2, -k, PRIME))) % PRIME
        if op == 'dround':
            return self._fp_dround(a[0], a[1])
        if op == 'rndint':
            if self.is_integer(a[0]):
                return fp(a[0])
            return h('rndint', fp(a[0]), fp(a[1]))
        if op == 'coefq':
            if a[1] is ZERO and self.is_rational(a[0]):
                return fp(a[0])
            return h('coefq', fp(a[0]), fp(a[1]))
        if op in ('floor', 'ceil'):
            if self.is_integer(a[0]):
                return fp(a[0])
            if self.predterms:
                u = self._uniq_rule(a[0] if op == 'floor' else neg(a[0]))
                if u is not None:
                    v = u[0]
                    if u[1]:
                        f = h('floormid', fp(v.args[0]))
                    else:
                        f = fp(v)
                    return f if op == 'floor' else -f % PRIME
                if a[0].op == 'mid' and op == 'floor':
                    B = a[0].args[0]
                    if self.predval(mk('p:arb_contains_int', B)) is False and encl(B) is not None:
                        return h('floormid', fp(a[0]))
            f = fp(a[0])
            g = -f % PRIME
            # floor(-x) = -ceil(x)
            if f <= g:
                return h(op, f)
            return -h('ceil' if op == 'floor' else 'floor', g) % PRIME
        if op == 'qc1':
            if self.is_rational(a[0]):
                return 0
            return h('qc1', fp(a[0]))
        if op == 'qc0':
            v, alpha = a
            return (fp(v) * fp(den(v)) - fp(mk('qc1', v, alpha)) * fp(alpha)) % PRIME
        if op == 'pcoef':   # numerator coefficient of a polynomial
            P, i = a
            return self._fp_pcoef(P, i)
        if op == 'pden':
            P = a[0]
            if P.op == 'polyof':
                return fp(den(P.args[0]))
            if P.op == 'poly0':
                return 1
            return h('pden', fp(P))
        if op == 'plen':
            P = a[0]
            if P.op == 'poly0':
                return 0
            if P.op == 'polyof':
                s = self.sign(P.args[0])
                if s == frozenset((0,)):
                    return 0
                if self.is_rational(P.args[0]) and 0 not in s:
                    return 1
                return h('plenof', fp(P.args[0]))
            if P.op == 'deriv':
                return (fp(mk('plen', P.args[0])) - 1) % PRIME
            return h('plen', fp(P))
        if op in ('ptrunc', 'ptail'):
            V, n = a
            if op == 'ptrunc':
                if self.sign(sub(n, mk('plen', V))) <= {0, 1}:
                    return fp(V)
                if self.sign(n) <= {0, -1}:
                    return fp(mk('poly0'))
            else:
                if self.sign(n) <= {0, -1}:
                    return fp(V)
                if self.sign(sub(n, mk('plen', V))) <= {0, 1}:
                    return fp(mk('poly0'))
            return h(op, fp(V), fp(n))
        if op == 'setcoeff':
            Q, j, c = a
            if c.op in ('pcoef', 'qcoef') and fp(c.args[1]) == fp(j):
                V = c.args[0]
                if Q.op == 'poly0' and self.sign(j) == {0}:
                    return fp(mk('ptrunc', V, add(j, ONE)))
                if Q.op == 'ptrunc' and Q.args[0] is V and fp(Q.args[1]) == fp(j):
                    return fp(mk('ptrunc', V, add(j, ONE)))
                if Q.op == 'poly0' and fp(add(j, ONE)) == fp(mk('plen', V)):
                    return fp(mk('ptail', V, j))
                if Q.op == 'ptail' and Q.args[0] is V and fp(Q.args[1]) == fp(add(j, ONE)):
                    return fp(mk('ptail', V, j))
        if op == 'qcoef':
            P = a[0]
            if P.op == 'poly0':
                return 0
            if P.op == 'polyconst':
                return fp(P.args[0]) if a[1] is ZERO else 0 if isint(a[1]) else h('qcoef', fp(P), fp(a[1]))
            if P.op == 'setcoeff':
                sd = self.sign(sub(a[1], P.args[1]))
                if sd == {0}:
                    return fp(P.args[2])
                if 0 not in sd:
                    return fp(mk('qcoef', P.args[0], a[1]))
            return fp(div(mk('pcoef', P, a[1]), mk('pden', P)))
        if op == 'ev':      # value of a polynomial (with denominator) at a point
            return self._fp_ev(a[0], a[1])
        if op == 'horner':  # tail sum over numerator coefficients from index j
            return self._fp_horner(a[0], a[1], a[2])
        if op == 'ball':
            return h('ball', a[0], tuple(fp(x) if isinstance(x, T) else str(x) for x in a[2:]))
        if op == 'arfsgn':
            x = a[0]
            r = self._arfsgn(x)
            if r is not None:
                return fp(r)
            return h('arfsgn', fp(x))
        if op == 'tomach':
            return h('tomach', fp(a[0])) if False else fp(a[0])
        if op in ('S', 'U') and a[0].op == 'mop' and a[0].args[0] in ('add', 'sub') and a[0].args[4].op == 'mi':
            u = self._nowrap(a[0])
            if u is not None:
                return fp(u)
        if op == 'U':
            x = sval(a[0])
            if self._nonneg(x):
                return fp(x)
        if op in ('sext', 'trunc') and False:
            pass
        if op == 'mi':
            return fp(sval(t))
        if op == 'ind':
            v = self.decide(a[0])
            if v is not None:
                return 1 if v else 0
            return h('ind', self._fpc(a[0]))
        if op in ('csign', 'cpred', 'cand', 'cor', 'ctrue', 'cfalse'):
            return self._fpc(t)
        if op == 'mop' and a[0] in ('add', 'mul', 'and', 'or', 'xor'):
            x, y = sorted((fp(a[3]), fp(a[4])))
            return h('mop', a[0], a[1], x, y)
        return h(op, tuple(fp(x) if isinstance(x, T) else ('s', str(x)) for x in a))

    def _nonneg(self, x):
        """x >= 0 by a recorded fact about x itself (no inference: used while fingerprinting)"""
        if isint(x):
            return x.args[0] >= 0
        if x.op in ('U', 'plen', 'ind', 'slen'):
            return True
        if x.op == 'neg':
            return any(y is x.args[0] and 1 not in s for (y, s) in self.signs)
        return any(y is x and -1 not in s for (y, s) in self.signs)

    def _nowrap(self, t):
        """exact value of a machine addition x+1 / subtraction x-1 that cannot wrap around because of a known bound"""
        o, w, fl, x, c = t.args
        k = sval(c).args[0]
        if o == 'sub':
            k = -k
        if k == 1:
            for (y, s) in self.signs:
                if y.op == 'sub' and y.args[0] is sval(x) and s == {-1} and self._nonneg(sval(x)):
                    return add(sval(x), ONE)
                if y.op == 'sub' and y.args[0].op in ('S', 'U') and y.args[0].args[0] is x and s == {-1}:
                    if y.args[0].op == 'U' or self._nonneg(sval(x)):
                        return add(mk('S', x), ONE)
        elif k == -1:
            if any(y is sval(x) and s == {1} for (y, s) in self.signs):
                return add(sval(x), I(-1))
        return None

    def _fp_dround(self, x, r):
        fp = self.fp
        m = r.args[0] if isint(r) else None
        # round in direction r first to at least 53 bits, then to double: same as rounding once
        if x.op == 'arfround' and isint(x.args[1]) and x.args[1].args[0] >= 53 and (x.args[2] is r) and (x.args[1].args[0] == 53 or m != 4):
            x = x.args[0]
        if m in (0, 1):
            s = self.sign(x)
            if s == {1}:
                m = 2 if m == 0 else 3
            elif s == {-1}:
                m = 3 if m == 0 else 2
        f = fp(x)
        g = -f % PRIME
        if m is None:
            return h('dround', f, fp(r))
        if f <= g:
            return h('dround', f, m)
        return -h('dround', g, {2: 3, 3: 2}.get(m, m)) % PRIME

    def _isint(self, t):
        """x if t is den(x) - 1 for a rational x"""
        if t.op == 'add' and t.args[0].op == 'den' and isint(t.args[1]) and t.args[1].args[0] == -1 and self.is_rational(t.args[0].args[0]):
            return t.args[0].args[0]
        return None

    def _fpc(self, c):
        if c.op == 'csign':
            x = self._isint(c.args[0])
            if x is not None and (0 in c.args[1]) != (1 in c.args[1]):
                return self._fpc(mk('cpred', mk('p:integer', x), 0 in c.args[1]))
            f = self.fp(self.strip_pos(c.args[0]))
            g = -f % PRIME
            s = c.args[1]
            if f <= g:
                return h('csign', f, tuple(sorted(s)))
            return h('csign', g, tuple(sorted(-x for x in s)))
        if c.op == 'cpred':
            p = c.args[0]
            return h('cpred', p.op, tuple(self.fp(x) if isinstance(x, T) else str(x) for x in p.args), c.args[1])
        if c.op in ('cand', 'cor'):
            return h(c.op, tuple(sorted((self._fpc(c.args[0]), self._fpc(c.args[1])))))
        return h(c.op)

    def _fp_pcoef(self, P, i):
        fp = self.fp
        s = self.subst.get(P.id)
        if s is not None:
            P = s
        if P.op == 'polyof':
            v, alpha = P.args
            if self.is_rational(v):
                if i is ZERO:
                    return fp(v) * fp(den(v)) % PRIME
                if isint(i):
                    return 0
            return h('pcoefof', fp(v), fp(i))
        if P.op == 'poly0':
            return 0
        if P.op == 'setcoeff':   # setcoeff(P, i, c) with denominators ignored only when integral
            Q, j, c = P.args
            if isint(i) and isint(j):
                if i is j:
                    return fp(c) * fp(mk('pden', P)) % PRIME
                return fp(mk('pcoef', Q, i)) * fp(mk('pden', P)) * inv(fp(mk('pden', Q))) % PRIME
        if P.op == 'fieldpol':   # minimal polynomial of a field: (alpha, kind)
            al, kind = P.args
            if kind == 'L':
                if i is ZERO:
                    return -fp(al) * h('lead', fp(al)) % PRIME
                if i is ONE:
                    return h('lead', fp(al))
        if P.op == 'deriv':
            Q = P.args[0]
            return fp(mul(add(i, ONE), mk('pcoef', Q, add(i, ONE))))
        return h('pcoef', fp(P), fp(i))

    def _fp_ev(self, P, x):
        fp = self.fp
        if P.op == 'polyof':
            v, alpha = P.args
            if fp(x) == fp(alpha) or self.is_rational(v):
                return fp(v)
        if P.op == 'poly0':
            return 0
        if P.op == 'atom' and any(t.op == 'plen' and t.args[0] is P and s == {0} for t, s in self.signs):
            return 0
        if P.op == 'polyconst':
            return fp(P.args[0])
        if P.op == 'setcoeff' and P.args[2].op in ('pcoef', 'qcoef') and not isint(P.args[1]):
            return h('ev', fp(P), fp(x))
        if P.op == 'setcoeff':
            Q, j, c = P.args
            return (fp(mk('ev', Q, x)) + (fp(c) - fp(mk('qcoef', Q, j))) * fp(power(x, j))) % PRIME
        if P.op == 'neg':
            return -fp(mk('ev', P.args[0], x)) % PRIME
        if P.op == 'add':
            return (fp(mk('ev', P.args[0], x)) + fp(mk('ev', P.args[1], x))) % PRIME
        if P.op == 'fieldpol' and fp(x) == fp(P.args[0]):
            return 0
        # mean value theorem: f(m) = (m - root) * slope over the ball A with centre m that contains the root
        r = self.mvt(P, x)
        if r is not None:
            return fp(r)
        return h('ev', fp(P), fp(x))

    def mvt(self, P, x):
        if x.op == 'mid':
            A = x.args[0]
            e = encl(A)
            if e is not None and self.is_root(P, e):
                return div(mul(sub(x, e), mk('slope', P, A)), mk('pden', P))
        return None

    def is_root(self, P, e):
        if P.op == 'fieldpol':
            return self.fp(P.args[0]) == self.fp(e)
        if e.op == 'rootof':
            return e.args[0] is P
        return False

    def _fp_horner(self, P, x, j):
        """sum_{k>=j} numcoef(P,k) x^(k-j)"""
        fp = self.fp
        base, k = (j.args[0], j.args[1].args[0]) if (j.op == 'add' and isint(j.args[1])) else (j, 0)
        if isint(j):
            base, k = ZERO, j.args[0]
        sb = self.subst.get(base.id)
        if sb is not None and isint(sb):
            base, k = ZERO, k + sb.args[0]
        f0 = None
        n = mk('plen', P)
        if fp(base) == fp(n) and not isint(base):
            f0 = 0
        elif base is ZERO:
            f0 = fp(mk('ev', P, x)) * fp(mk('pden', P)) % PRIME
        else:
            # relate to plen by constant difference
            for c in range(-4, 5):
                if (fp(base) - fp(n)) % PRIME == c % PRIME:
                    base, k, f0 = n, k + c, 0
                    break
            else:
                f0 = h('horner', fp(P), fp(x), fp(base))
        if abs(k) > 64:
            return h('horner', fp(P), fp(x), fp(j))
        X = fp(x)
        while k < 0:
            # value at base+k from base+k+1 : walk downwards
            idx = -1
            f0 = (f0 * X + fp(mk('pcoef', P, add(base, I(idx))))) % PRIME
            base = add(base, I(-1))
            k += 1
        while k > 0:
            f0 = (f0 - fp(mk('pcoef', P, base))) * inv(X) % PRIME
            base = add(base, ONE)
            k -= 1
        return f0

    def _arfsgn(self, x):
        """sign of an arf value x when it is certified by facts"""
        if x.op == 'mid':
            B = x.args[0]
            e = encl(B)
            if e is not None and 0 not in self.sign_ball(B):
                return sgn(e)
        if x.op == 'mid':
            return None
        return sgn(x)

    def sign_ball(self, B):
        """possible signs of *elements of the ball* that facts allow: certified sign of whole ball"""
        r = ANY
        v = self.predval(mk('p:arb_contains_zero', B))
        if v is False:
            r = r - {0}
        v = self.predval(mk('p:arb_is_positive', B))
        if v is True:
            r = r & {1}
        v = self.predval(mk('p:arb_is_negative', B))
        if v is True:
            r = r & {-1}
        return r

    def predval(self, p):
        v = self.preds.get(p.id)
        if v is not None:
            return v
        if self.preds:
            f = h('cpred', p.op, tuple(self.fp(x) if isinstance(x, T) else str(x) for x in p.args))
            return self.preds.get(('f', f))
        return None

    # ---------------------------------------------------------- classification
    def _in(self, t, lst):
        if not lst:
            return False
        f = self._fp_noclass(t)
        return any(x is t or self._fp_noclass(x) == f for x in lst)

    def _fp_noclass(self, t):
        return self.fp(t)

    def is_integer(self, t):
        op = t.op
        if op == 'int':
            return True
        s = self.subst.get(t.id)
        if s is not None and s is not t:
            return self.is_integer(s)
        if op == 'atom':
            return t.args[1].lstrip('?') == 'Z' or any(x is t for x in self.integer)
        if op in ('add', 'sub', 'mul'):
            if self.is_integer(t.args[0]) and self.is_integer(t.args[1]):
                return True
        if op == 'neg':
            return self.is_integer(t.args[0])
        if op in ('num', 'den', 'sgn', 'floor', 'ceil', 'S', 'U', 'plen', 'qc0', 'qc1', 'pcoef', 'pden', 'ind', 'qceil', 'arfsgn', 'rndint'):
            return True
        return any(x is t for x in self.integer)

    def is_rational(self, t):
        op = t.op
        if op == 'int':
            return True
        s = self.subst.get(t.id)
        if s is not None and s is not t:
            return self.is_rational(s)
        if op == 'atom':
            if t.args[1].lstrip('?') in ('Q', 'Z'):
                return True
            return any(x is t for x in self.rational) or any(x is t for x in self.integer)
        if op in ('add', 'sub', 'mul', 'div'):
            if self.is_rational(t.args[0]) and self.is_rational(t.args[1]):
                return True
        if op == 'neg':
            return self.is_rational(t.args[0])
        if op == 'pow':
            if self.is_rational(t.args[0]):
                return True
        if self.is_integer(t):
            return True
        return any(x is t for x in self.rational)

    def is_irrational(self, t):
        s = self.subst.get(t.id)
        if s is not None and s is not t:
            return self.is_irrational(s)
        if any(x is t for x in self.irrational):
            return True
        if t.op == 'neg':
            return self.is_irrational(t.args[0])
        if t.op in ('add', 'sub'):
            a, b = t.args
            return (self.is_irrational(a) and self.is_rational(b)) or (self.is_irrational(b) and self.is_rational(a))
        if t.op == 'div' and t.args[0] is ONE:
            return self.is_irrational(t.args[1])
        if t.op == 'mul':
            a, b = t.args
            for x, y in ((a, b), (b, a)):
                if self.is_irrational(x) and self.is_rational(y) and 0 not in self.sign(y):
                    return True
        return False

    def is_noninteger(self, t):
        return self.predval(mk('p:integer', t)) is False or self.is_irrational(t)

    def strip_pos(self, t):
        """drop positive factors (sign preserving)"""
        while True:
            s = self.subst.get(t.id)
            if s is not None and s is not t:
                t = s
                continue
            if t.op == 'num':
                t = t.args[0]
            elif t.op == 'sgn':
                t = t.args[0]
            elif t.op == 'arfsgn' and self._arfsgn(t.args[0]) is not None:
                t = self._arfsgn(t.args[0]).args[0] if self._arfsgn(t.args[0]).op == 'sgn' else self._arfsgn(t.args[0])
            elif t.op == 'qc0' and self.is_rational(t.args[0]):
                t = t.args[0]
            elif t.op == 'pcoef' and t.args[0].op == 'polyof' and t.args[1] is ZERO and self.is_rational(t.args[0].args[0]):
                t = t.args[0].args[0]
            elif t.op in ('mul', 'div') and self._pos_struct(t.args[1]):
                t = t.args[0]
            elif t.op == 'mul' and self._pos_struct(t.args[0]):
                t = t.args[1]
            elif t.op == 'neg':
                u = self.strip_pos(t.args[0])
                if u is t.args[0]:
                    return t
                t = neg(u)
            elif t.op == 'sub' and t.args[0].op == 'mid' and t.args[1].op == 'mid' and self._apart(t.args[0].args[0], t.args[1].args[0]):
                # the midpoints of balls that do not overlap are ordered like their points
                t = sub(encl(t.args[0].args[0]), encl(t.args[1].args[0]))
            else:
                r = self._cross(t)
                if r is None:
                    return t
                t = r

    def _cross(self, t):
        """num(a)*den(b) - num(b)*den(a)  ->  a - b   (same sign)"""
        return None

    def _pos_struct(self, t):
        if t.op in ('den', 'pden', 'exp2'):
            return True
        if isint(t):
            return t.args[0] > 0
        if t.op == 'mul':
            return self._pos_struct(t.args[0]) and self._pos_struct(t.args[1])
        return False

    # ---------------------------------------------------------- signs
    def sign(self, t):
        r = self._sm.get(t.id)
        if r is None:
            self._sm[t.id] = ANY  # recursion guard
            r = self._sign(t)
            self._sm[t.id] = r
        return r

    def _sign(self, t):
        s = self.subst.get(t.id)
        if s is not None and s is not t:
            return self.sign(s)
        if isint(t):
            n = t.args[0]
            return frozenset(((n > 0) - (n < 0),))
        r = ANY
        u = self.strip_pos(t)
        if u is not t:
            r = r & self.sign(u)
        op, a = t.op, t.args
        if op in ('den', 'pden', 'exp2'):
            r = r & {1}
        elif op == 'gcd':
            r = r & ({1} if any(0 not in self.sign(x) for x in a) else {0, 1})
        elif op in ('U', 'plen'):
            r = r & {0, 1}
            if op == 'plen' and a[0].op == 'polyof':
                s = self.sign(a[0].args[0])
                if s == {0}:
                    r = r & {0}
                elif 0 not in s:
                    r = r & {1}
            if self.signs and len(r) > 1:
                r = r & self._bounded(t, 0)
        elif op == 'pcoef' and a[0].op == 'fieldpol' and isint(a[1]) and a[1].args[0] == {'L': 1, 'Q': 2}.get(a[0].args[1]):
            r = r - {0}          # leading coefficient of the field's polynomial
        elif op == 'ind':
            v = self.decide(a[0])
            r = r & ({0, 1} if v is None else {1} if v else {0})
        elif op == 'neg':
            r = r & frozenset(-x for x in self.sign(a[0]))
        elif op == 'sgn':
            r = r & self.sign(a[0])
        elif op == 'pow':
            x = self.sign(a[0])
            if x == {1}:
                r = r & {1}
            elif 0 not in x:
                r = r & {-1, 1}
        elif op in ('mul', 'div'):
            x, y = self.sign(a[0]), self.sign(a[1])
            r = r & frozenset(i * j for i in x for j in y)
        elif op == 'add':
            x, y = self.sign(a[0]), self.sign(a[1])
            r = r & _sumsigns(x, y)
            if isint(a[1]):
                r = r & self._sgn_const(a[0], a[1].args[0])
        elif op == 'sub':
            x, y = self.sign(a[0]), frozenset(-k for k in self.sign(a[1]))
            r = r & _sumsigns(x, y)
            if a[0].op in RANK and a[1].op in RANK and a[0].args[0] is a[1].args[0]:
                d = RANK[a[0].op] - RANK[a[1].op]
                r = r & ({0} if d == 0 else {0, 1} if d > 0 else {0, -1})
            if (self.is_irrational(a[0]) and self.is_rational(a[1])) or (self.is_irrational(a[1]) and self.is_rational(a[0])):
                r = r - {0}
            if 0 in r and self.preds and ((self.is_noninteger(a[0]) and self.is_integer(a[1])) or (self.is_noninteger(a[1]) and self.is_integer(a[0]))):
                r = r - {0}
            if self.signs:
                if a[0].op == 'rootof' or self.rootpolys:
                    r = r & self._root_side(a[0], a[1])
                if a[1].op == 'rootof' or self.rootpolys:
                    r = r & frozenset(-k for k in self._root_side(a[1], a[0]))
        elif op == 'S' and a[0].op == 'zext':
            r = r & {0, 1}
        elif op == 'S' and a[0].op == 'mop' and a[0].args[0] in ('add', 'sub') and a[0].args[4].op == 'mi':
            q = self._nowrap(a[0])
            if q is not None:
                r = r & self.sign(q)
        elif op == 'arfsgn':
            q = self._arfsgn(a[0])
            if q is not None:
                r = r & self.sign(q)
        if self.is_irrational(t):
            r = r - {0}
        if self.signs:
            f = self.fp(u)
            g = -f % PRIME
            for (x, s) in self.signs:
                fx = self.fp(self.strip_pos(x))
                if fx == f:
                    r = r & s
                elif fx == g:
                    r = r & frozenset(-k for k in s)
        if len(r) > 1 and op in ('sub', 'add') and self.signs and self.is_integer(t):
            r = r & self._int_shift(t)
        f = self.fp(t) if len(r) > 1 else 1
        if f == 0 and op not in ('sgn', 'ind', 'arfsgn'):
            r = r & {0}
        if self.linear and len(r) > 1:
            from . import linear
            r = frozenset(k for k in r if linear.possible(self, t, k))
        return r

    def _exactify(self, t):
        if t.op in ('sub', 'add'):
            a, b = self._exactify(t.args[0]), self._exactify(t.args[1])
            if a is not t.args[0] or b is not t.args[1]:
                return sub(a, b) if t.op == 'sub' else add(a, b)
        elif t.op == 'S' and t.args[0].op == 'mop' and t.args[0].args[0] in ('add', 'sub') and t.args[0].args[4].op == 'mi':
            q = self._nowrap(t.args[0])
            if q is not None:
                return q
        return t

    def _int_shift(self, t):
        """sign of an integer term from the known sign of the term next to it"""
        t = self._exactify(t)
        f = self.fp(t)
        r = ANY
        for (x, s) in self.signs:
            if s == ANY or x.op == 'int' or not self.is_integer(x):
                continue
            for sg, ss in ((1, s), (-1, frozenset(-k for k in s))):
                fx = self.fp(x) * sg % PRIME
                if fx == f:
                    r = r & ss
                elif (fx - 1 - f) % PRIME == 0:    # t = x - 1
                    if ss == {1}:
                        r = r & {0, 1}
                    elif 1 not in ss:
                        r = r & {-1}
                elif (fx + 1 - f) % PRIME == 0:    # t = x + 1
                    if ss == {-1}:
                        r = r & {0, -1}
                    elif -1 not in ss:
                        r = r & {1}
        return r

    def _sgn_const(self, x, c):
        """sign set of x + c for sign-valued x"""
        if x.op in ('sgn', 'arfsgn') or (x.op == 'neg' and x.args[0].op in ('sgn', 'arfsgn')):
            vs = self.sign(x)
            return frozenset(((v + c) > 0) - ((v + c) < 0) for v in vs)
        if x.op == 'ind':
            v = self.decide(x.args[0])
            vs = (0, 1) if v is None else ((1,) if v else (0,))
            return frozenset(((v + c) > 0) - ((v + c) < 0) for v in vs)
        if x.op in ('U', 'plen') and c > 0:
            return frozenset((1,))
        if x.op == 'plen' and x.args[0].op == 'polyof':
            v = x.args[0].args[0]
            s = self.sign(v)
            if s == {0}:
                return frozenset(((c > 0) - (c < 0),))
            if self.is_rational(v) and 0 not in s:
                return frozenset((((1 + c) > 0) - ((1 + c) < 0),))
            if self.is_irrational(v):  # length >= 2
                return frozenset((1,)) if 2 + c > 0 else ANY
            if self.is_rational(v):    # 0 or 1
                return frozenset(((k + c) > 0) - ((k + c) < 0) for k in (0, 1))
        if x.op in ('plen', 'U', 'S', 'slen'):
            return self._bounded(x, c)
        return ANY

    def _bounded(self, x, c):
        """sign set of x + c from what is known about the integers x + c'"""
        lo, hi = (None, None) if x.op == 'S' else (0, None)
        for t, s in self.signs:
            if t is x:
                k = 0
            elif t.op == 'add' and t.args[0] is x and isint(t.args[1]):
                k = t.args[1].args[0]
            else:
                continue
            if -1 not in s:
                b = -k if 0 in s else 1 - k
                lo = b if lo is None or b > lo else lo
            if 1 not in s:
                b = -k if 0 in s else -1 - k
                hi = b if hi is None or b < hi else hi
        r = set((-1, 0, 1))
        if lo is not None:
            r -= {-1, 0} if lo + c > 0 else {-1} if lo + c == 0 else set()
        if hi is not None:
            r -= {1, 0} if hi + c < 0 else {1} if hi + c == 0 else set()
        return frozenset(r) or ANY

    # ---------------------------------------------------------- conditions
    def decide(self, c):
        """True / False / None"""
        if c is CTRUE:
            return True
        if c is CFALSE:
            return False
        if c.op == 'csign':
            x = self._isint(c.args[0])
            if x is not None and (0 in c.args[1]) != (1 in c.args[1]):
                v = self.decide(mk('cpred', mk('p:integer', x), True))
                if v is not None:
                    return v is (0 in c.args[1])
            s = self.sign(c.args[0])
            if s and s <= c.args[1]:
                return True
            if not (s & c.args[1]):
                return False
            return None
        if c.op == 'cpred':
            v = self._decide_pred(c.args[0])
            if v is None:
                return None
            return v == c.args[1]
        if c.op == 'cand':
            a, b = self.decide(c.args[0]), self.decide(c.args[1])
            if a is False or b is False:
                return False
            if a is True and b is True:
                return True
            return None
        if c.op == 'cor':
            a, b = self.decide(c.args[0]), self.decide(c.args[1])
            if a is True or b is True:
                return True
            if a is False and b is False:
                return False
            return None
        return None

    def _decide_pred(self, p):
        n = p.op[2:]
        if n == 'rational':
            if self.is_rational(p.args[0]):
                return True
            if self.is_irrational(p.args[0]):
                return False
        elif n == 'integer':
            if self.is_integer(p.args[0]):
                return True
            if self.is_irrational(p.args[0]):
                return False
        elif n == 'arb_contains_zero':
            B = p.args[0]
            e = encl(B)
            if e is not None and self.sign(e) == {0}:
                return True
            if 0 not in self.sign_ball(B):
                return False
        return self.predval(p)

    def assume(self, c):
        """add a condition; raises Contradiction when it is refuted"""
        d = self.decide(c)
        if d is False:
            raise Contradiction()
        if d is True:
            return
        if c.op == 'csign':
            self.assume_sign(c.args[0], c.args[1])
        elif c.op == 'cpred':
            self.assume_pred(c.args[0], c.args[1])
        elif c.op == 'cand':
            self.assume(c.args[0])
            self.assume(c.args[1])
        elif c.op == 'cor':
            a, b = self.decide(c.args[0]), self.decide(c.args[1])
            if a is False:
                self.assume(c.args[1])
            elif b is False:
                self.assume(c.args[0])
            else:
                self.opaque.append(c)

    def bind(self, t, v):
        self.subst[t.id] = v
        self._clean()

    def assume_sign(self, t, s):
        x = self._isint(t)
        if x is not None and (0 in s) != bool(set(s) & {1}):
            self.assume_pred(mk('p:integer', x), 0 in s)
        s = self.sign(t) & frozenset(s)
        if not s:
            raise Contradiction()
        u = self.strip_pos(t)
        op = u.op
        # sgn(x) + c
        if op == 'add' and isint(u.args[1]) and (u.args[0].op in ('sgn', 'arfsgn') or (u.args[0].op == 'neg' and u.args[0].args[0].op in ('sgn', 'arfsgn'))):
            x, k = u.args[0], u.args[1].args[0]
            vs = frozenset(v for v in self.sign(x) if (((v + k) > 0) - ((v + k) < 0)) in s)
            if not vs:
                raise Contradiction()
            self.assume_sign(x, vs)
            return
        if op == 'ind':
            if s == {0}:
                self.assume(cnot(u.args[0]))
            elif 0 not in s:
                self.assume(u.args[0])
            return
        if op == 'add' and u.args[0].op == 'ind' and isint(u.args[1]):
            k = u.args[1].args[0]
            vs = [v for v in (0, 1) if (((v + k) > 0) - ((v + k) < 0)) in s]
            if not vs:
                raise Contradiction()
            if len(vs) == 1:
                self.assume(u.args[0].args[0] if vs[0] else cnot(u.args[0].args[0]))
            return
        if op == 'neg':
            return self.assume_sign(u.args[0], frozenset(-x for x in s))
        if op == 'plen' and u.args[0].op == 'polyof':
            v = u.args[0].args[0]
            if s == {0}:
                return self.assume_sign(v, {0})
            if s == {1}:
                return self.assume_sign(v, {-1, 1})
        if op == 'add' and u.args[0].op == 'plen' and u.args[0].args[0].op == 'polyof' and isint(u.args[1]):
            v = u.args[0].args[0].args[0]
            k = -u.args[1].args[0]    # sign(len - k)
            if k == 1:
                if s == {0}:
                    self._add_class(v, 'rational')
                    return self.assume_sign(v, {-1, 1})
                if s == {-1}:
                    return self.assume_sign(v, {0})
                if s <= {0, 1}:
                    if s == {1}:
                        self._add_class(v, 'irrational')
                    return self.assume_sign(v, {-1, 1})
                if s == {-1, 0}:
                    self._add_class(v, 'rational')
                    return
            if k == 2:
                if s == {-1}:
                    self._add_class(v, 'rational')
                    return
                if s == {0, 1}:
                    self._add_class(v, 'irrational')
                    return
        if op == 'sub' and (s == {0} or s == {-1, 1}) and _signlike(self._cert(u.args[0])) and _signlike(self._cert(u.args[1])):
            x, y = self._cert(u.args[0]), self._cert(u.args[1])
            for x, y in ((x, y), (y, x)):
                if 0 not in self.sign(y):
                    xx, sx = _unsgn(x)
                    yy, sy = _unsgn(y)
                    self.signs.append((u, s))
                    q = div(xx, yy)
                    if sx * sy < 0:
                        q = neg(q)
                    self.assume_sign(q, {1} if s == {0} else {-1, 0})
                    return
        if op in ('mul',) and 0 not in s:
            # product known nonzero: both factors nonzero
            for x in u.args:
                if 0 in self.sign(x) and self.sign(x) != {0}:
                    self.signs.append((x, self.sign(x) - {0}))
            self._clean()
        if op in ('mul', 'div'):
            x, y = u.args
            sy = self.sign(y)
            if len(sy) == 1 and 0 not in sy:
                k = next(iter(sy))
                self.assume_sign(x, frozenset(v * k for v in s))
                return
            sx = self.sign(x)
            if op == 'mul' and len(sx) == 1 and 0 not in sx:
                k = next(iter(sx))
                self.assume_sign(y, frozenset(v * k for v in s))
                return
            if op == 'mul' and u.args[0].op in ('sgn', 'arfsgn') and u.args[1].op in ('sgn', 'arfsgn') and len(s) == 1:
                pass
        if op == 'add' and u.args[0].op == 'mul' and isint(u.args[1]):
            # product of signs + const, e.g. s1*s2 == -1
            m = u.args[0]
            k = u.args[1].args[0]
            vs = frozenset(v for v in self.sign(m) if (((v + k) > 0) - ((v + k) < 0)) in s)
            if m.args[0].op in ('sgn', 'arfsgn') and m.args[1].op in ('sgn', 'arfsgn'):
                if not vs:
                    raise Contradiction()
                self.assume_sign(m, vs)
                return
        if op == 'S' and (s == {-1} or s == {1}):
            k = -1 if s == {-1} else 1
            if self.sign(add(u, I(-k))) <= {0, -k}:
                self.bind(u, I(k))
                return
        self.signs.append((u, s))
        self._clean()
        if s == frozenset((0,)):
            self._equal(u)
        if op == 'arfsgn' or op == 'sgn':
            pass

    def _cert(self, t):
        """sign of a ball's midpoint -> sign of the enclosed real, where certified"""
        if t.op == 'arfsgn':
            r = self._arfsgn(t.args[0])
            if r is not None:
                return r
        if t.op == 'neg' and t.args[0].op == 'arfsgn':
            r = self._arfsgn(t.args[0].args[0])
            if r is not None:
                return neg(r)
        return t

    def _root_side(self, xi, m):
        """sign of xi - m for an isolated simple root xi of P, from the sign of P at m and at the ends of an
        isolating interval (intermediate value theorem)"""
        P = self._poly_of_root(xi)
        if P is None:
            return ANY
        cand = []
        for (x, _) in self.signs:
            for t in subterms(x):
                if t.op in ('lo', 'hi') and encl(t.args[0]) is not None and self.equal(encl(t.args[0]), xi) and not any(c is t.args[0] for c in cand):
                    cand.append(t.args[0])
        r = ANY
        for A in cand:
            l, u = mk('lo', A), mk('hi', A)
            if not (self.sign(sub(m, l)) <= {0, 1} and self.sign(sub(u, m)) <= {0, 1}):
                continue
            s = self.sign(div(mk('ev', P, m), mk('ev', P, l)))
            if len(s) == 1:
                r = r & {next(iter(s))}
            s = self.sign(div(mk('ev', P, m), mk('ev', P, u)))
            if len(s) == 1:
                r = r & {-next(iter(s))}
        return r

    def _poly_of_root(self, xi):
        if xi.op == 'rootof':
            return xi.args[0]
        for P in self.rootpolys:
            if self.is_root(P, xi):
                return P
        return None

    def _equal(self, u):
        """u == 0 : derive substitutions"""
        if self.linear:
            from . import linear
            c, k = linear.form(u, self.subst)
            vs = sorted((v for v in c if v.op == 'atom'), key=lambda v: (abs(c[v]) != 1, v.id))
            if vs and not any(_occurs(vs[0], w) for w in c if w is not vs[0]):
                v = vs[0]
                t = div(I(-k.numerator), I(k.denominator)) if k else ZERO
                for w, q in c.items():
                    if w is not v:
                        t = sub(t, w if q == 1 else mul(div(I(q.numerator), I(q.denominator)), w))
                q = c[v]
                self.bind(v, t if q == 1 else div(mul(t, I(q.denominator)), I(q.numerator)))
                return
        if u.op == 'atom' or u.op in ('pcoef', 'qcoef') and u.args[0].op == 'atom' and isint(u.args[1]):
            self.bind(u, ZERO)
            return
        if u.op == 'add' and u.args[0].op == 'atom' and isint(u.args[1]):
            self.bind(u.args[0], I(-u.args[1].args[0]))
            return
        if u.op == 'add' and u.args[0].op in ('S', 'U') and isint(u.args[1]):
            self.bind(u.args[0], I(-u.args[1].args[0]))
            return
        if u.op in ('S', 'U'):
            self.bind(u, ZERO)
            return
        if u.op == 'sub':
            a, b = u.args
            for x, y in ((a, b), (b, a)):
                if x.op == 'atom' and not _occurs(x, y) and not (x.args[1] in ('Z', 'Q') and y.op == 'atom' and y.args[1] == 'K'):
                    self.bind(x, y)
                    return
            # monotone function of both ends of one ball: value determined
            for x, y in ((a, b), (b, a)):
                if x.op == y.op and x.op in ('floor', 'ceil', 'dround', 'rndint') and x.args[1:] == y.args[1:]:
                    l, r = x.args[0], y.args[0]
                    if l.op == 'lo' and r.op == 'hi' and l.args[0] is r.args[0]:
                        e = encl(l.args[0])
                        if e is not None:
                            v = mk(x.op, e, *x.args[1:])
                            self.bind(x, v)
                            self.bind(y, v)
                            return

    def _add_class(self, v, cls):
        if cls == 'rational':
            if self.is_irrational(v):
                raise Contradiction()
            self.rational.append(v)
        elif cls == 'irrational':
            if self.is_rational(v):
                raise Contradiction()
            self.irrational.append(v)
        elif cls == 'integer':
            if self.is_irrational(v):
                raise Contradiction()
            self.integer.append(v)
            self.rational.append(v)
        self._clean()

    def assume_pred(self, p, val):
        n = p.op[2:]
        self.preds[p.id] = val
        if not any(q is p for q, _ in self.predterms):
            self.predterms.append((p, val))
        self.preds[('f', h('cpred', p.op, tuple(self.fp(x) if isinstance(x, T) else str(x) for x in p.args)))] = val
        self._clean()
        if n == 'rational':
            self._add_class(p.args[0], 'rational' if val else 'irrational')
        elif n == 'integer':
            if val:
                self._add_class(p.args[0], 'integer')
        elif n == 'arb_contains_zero' and not val:
            self._nz_ball(p.args[0], ANY - {0})
        elif n == 'arb_is_positive' and val:
            self._nz_ball(p.args[0], frozenset((1,)))
        elif n == 'arb_is_negative' and val:
            self._nz_ball(p.args[0], frozenset((-1,)))
        elif n == 'arb_is_nonnegative' and val:
            self._nz_ball(p.args[0], frozenset((0, 1)))
        elif n == 'arb_is_nonpositive' and val:
            self._nz_ball(p.args[0], frozenset((0, -1)))
        elif n == 'arb_lt' and val:
            a, b = encl(p.args[0]), encl(p.args[1])
            if a is not None and b is not None:
                self.assume_sign(sub(a, b), {-1})
        elif n == 'arb_le' and val:
            a, b = encl(p.args[0]), encl(p.args[1])
            if a is not None and b is not None:
                self.assume_sign(sub(a, b), {-1, 0})
        elif n == 'arb_overlaps' and not val:
            a, b = encl(p.args[0]), encl(p.args[1])
            if a is not None and b is not None:
                self.assume_sign(sub(a, b), {-1, 1})

        if n in BALLSIDE or n in ('arb_contains_zero', 'arb_overlaps', 'arb_lt', 'arb_le'):
            self._sides(p)

    def _sides(self, p):
        """a ball that does not contain zero lies on one side of it, balls that do not overlap are ordered"""
        if len(p.args) == 1:
            B = p.args[0]
            if self.preds.get(mk('p:arb_contains_zero', B).id) is False:
                for n, s in BALLSIDE.items():
                    if self.preds.get(mk('p:' + n, B).id) is False:
                        self._nz_ball(B, frozenset((-s,)))
            return
        A, B = p.args
        if self.preds.get(mk('p:arb_overlaps', *sorted((A, B), key=lambda t: t.id)).id) is False:
            for X, Y in ((A, B), (B, A)):
                if self.preds.get(mk('p:arb_lt', X, Y).id) is False or self.preds.get(mk('p:arb_le', X, Y).id) is False:
                    x, y = encl(X), encl(Y)
                    if x is not None and y is not None:
                        self.assume_sign(sub(x, y), {1})

    def _apart(self, A, B):
        if encl(A) is None or encl(B) is None:
            return False
        return self.preds.get(mk('p:arb_overlaps', *sorted((A, B), key=lambda t: t.id)).id) is False

    def _nz_ball(self, B, s):
        e = encl(B)
        if e is not None:
            if self.sign(e) & s:
                self.assume_sign(e, self.sign(e) & s)
            else:
                raise Contradiction()

    # ---------------------------------------------------------- certificates
    def between(self, x, l, h):
        """is l <= x <= h known?"""
        for (p, val) in self.predterms:
            if val and p.op == 'p:between' and self.equal(p.args[0], x) and self.equal(p.args[1], l) and self.equal(p.args[2], h):
                return True
        lo_ok = (l.op == 'lo' and encl(l.args[0]) is not None and self.equal(encl(l.args[0]), x)) or self.sign(sub(x, l)) <= {0, 1}
        hi_ok = (h.op == 'hi' and encl(h.args[0]) is not None and self.equal(encl(h.args[0]), x)) or self.sign(sub(x, h)) <= {0, -1}
        return lo_ok and hi_ok

    def encloses(self, e, x):
        """a ball guaranteed to contain e is guaranteed to contain x"""
        if self.equal(e, x):
            return True
        if e.op == 'anyreal':
            return True
        if e.op == 'between':
            return self.between(x, e.args[0], e.args[1])
        if e.op == 'anyof':
            return self.encloses(e.args[0], x) or self.encloses(e.args[1], x)
        return False

    DBLMAX = ('0x7FEFFFFFFFFFFFFF', 'DBL_MAX')

    def double_ok(self, v, x, r):
        """v is the double nearest to x in direction r (infinite beyond the finite range)"""
        if v.op == 'fconst':
            s = str(v.args[0])
            if s in ('0.000000e+00', '0.0') and self.sign(x) == {0}:
                return True
            for lit, sg in (('0x7FF0000000000000', 1), ('0xFFF0000000000000', -1)):
                if s == lit:
                    m = mk('trunc_d', mk('fconst', '0x7FEFFFFFFFFFFFFF'))
                    m2 = mk('fconst', '0x7FEFFFFFFFFFFFFF')
                    for b in (m, m2):
                        if self.sign(sub(x, b if sg == 1 else neg(b))) == {sg}:
                            return True
                    return False
            return False
        return self.equal(v, mk('dround', x, r))

    def _uniq_rule(self, x):
        """floor(x) from a ball around x known to contain at most one integer"""
        for (p, val) in self.predterms:
            if p.op == 'p:arb_contains_int':
                B = p.args[0]
                e = encl(B)
                if e is None or self._raw(e) != self._raw(x):
                    continue
                if not val:
                    return mk('floor', mid(B)), True
                if self._narrow(B):
                    n = mk('uniq', B)
                    s = self._sign_above(n, x)
                    if s == {1}:
                        return add(n, I(-1)), False
                    if s <= {0, -1}:
                        return n, False
            if p.op == 'p:uniqint' and val:
                B = p.args[0]
                e = encl(B)
                if e is not None and self._raw(e) == self._raw(x):
                    n = mk('uniq', B)
                    s = self._sign_above(n, x)
                    if s == {1}:
                        return add(n, I(-1)), False
                    if s <= {0, -1}:
                        return n, False
        return None

    def _sign_above(self, n, x):
        """sign set of n - x"""
        s = self.sign(sub(n, x))
        neg_ = x.op == 'neg'
        q = x.args[0] if neg_ else x
        if len(s) > 1 and q.op == 'div':
            a, b = q.args
            if neg_:
                a = neg(a)
            d = sub(mul(n, b), a)
            s = s & frozenset(i * j for i in self.sign(d) for j in self.sign(b) if j)
        return s

    def _narrow(self, B):
        """radius of B is less than 1/2"""
        r = rad(B)
        for k in range(1, 9):
            if self.sign(sub(r, mk('exp2', I(-k)))) == {-1}:
                return True
        return False

    def _raw(self, t):
        return self.fp(t)

    # ---------------------------------------------------------- comparison
    def equal(self, a, b):
        if a is b:
            return True
        return self.fp(a) == self.fp(b)


def _sumsigns(x, y):
    r = set()
    for i in x:
        for j in y:
            if i == 0:
                r.add(j)
            elif j == 0 or i == j:
                r.add(i)
            else:
                return ANY
    return frozenset(r)


def _signlike(t):
    return t.op == 'sgn' or (t.op == 'neg' and t.args[0].op == 'sgn')


def _unsgn(t):
    if t.op == 'neg':
        return t.args[0].args[0], -1
    return t.args[0], 1


def _occurs(x, t):
    return any(s is x for s in subterms(t))

"""Contracts of the C++ element class."""
from .terms import *
from .state import *
from . import cxx, flint, specs, roots
from .cxx import World, XL, exc_type, exc_match
from .specs import Lay

E = 'eantic::renf_elem_class'
K = 'eantic::renf_class const&'
EC = E + ' const&'
TYPES = [('short', 's16'), ('unsigned short', 'u16'), ('int', 's32'), ('unsigned int', 'u32'), ('long', 's64'), ('unsigned long', 'u64'),
         ('long long', 's64'), ('unsigned long long', 'u64'), ('mpz_class const&', 'mpz'), ('mpq_class const&', 'mpq')]
FTYPES = TYPES + [('long const*', 'fmpz'), ('fmpq const*', 'fmpq')]
OPS = {'+': add, '-': sub, '*': mul, '/': div}
DEG = {'L': 'degree 1', 'Q': 'degree 2', 'G': 'degree>=3', 'T': 'rational field'}
SAME = ['L', 'Q', 'G', 'T']
DIFF = [(a, b) for a in 'LQG' for b in 'LQG'] + [('T', b) for b in 'LQG'] + [(a, 'T') for a in 'LQG']


class Ob:
    def __init__(self, group, name, label, run):
        self.group, self.name, self.label, self.run = group, name, label, run


OBS = []


def ob(group, name, label):
    def d(f):
        OBS.append(Ob(group, name, label, f))
        return f
    return d


def env_strict(st):
    """the path has established that the strict-mode environment variable is set"""
    for (p, v) in getattr(st.facts, 'preds', {}).items() if isinstance(getattr(st.facts, 'preds', None), dict) else []:
        pass
    n = st.trace
    while n:
        loc, c, truth, n = n
        if 'ptreq' in c and ('*env' in c or 'STRICT' in c or '@' in c):
            return (not truth) if not c.startswith('not') and not c.startswith('!') else truth
    return False


def parents_of(w, ka, kb):
    return {ka, kb}


def mkfields(w, a, b=None):
    """create field regions for the kinds a (and b); -> region names"""
    ra = 'T' if a == 'T' else 'K'
    if ra == 'K':
        w.field('K', a)
    if b is None:
        return ra, None
    rb = 'T' if b == 'T' else 'K2'
    if rb == 'K2':
        w.field('K2', b)
    return ra, rb


def unchanged(w, o, olds, visible):
    """on an exception every operand keeps value and parent"""
    for obj, (val, k) in olds.items():
        if obj in visible:
            w.check_elem(o, obj, val, {k}, obj, 'operand-changed')


def judge_throw(w, o, rational_ok, allowed, olds, visible):
    t = exc_type(o.val)
    w.check(bool(allowed), 'throw', 'exits with exception %s' % (t or '?'), o)
    unchanged(w, o, olds, visible)
    w.check_resources(o, visible)


def finish(w, outs, visible_ret, olds, writes, allowed=None, scal=(), retcheck=None):
    """generic judge
    olds: obj -> (value, parent) of operands on entry
    writes: obj -> (value, parents) required on return"""
    for o in outs:
        if o.kind == 'throw':
            vis = [x for x in olds]
            al = allowed(o) if allowed else False
            judge_throw(w, o, None, al, olds, vis)
            for p, k, v, n in scal:
                w.check_scalar(o, p, k, v, n)
            continue
        vis = visible_ret
        for obj, (val, ps) in writes.items():
            w.check_elem(o, obj, val, ps, obj)
        for obj, (val, k) in olds.items():
            if obj not in writes:
                w.check_elem(o, obj, val, {k}, obj, 'operand-changed')
        for p, k, v, n in scal:
            w.check_scalar(o, p, k, v, n)
        if retcheck:
            retcheck(o)
        w.check_resources(o, vis, extra_live=getattr(w, 'extra_live', ()))
    return w.done()


def ret_ptr(w, want):
    def f(o):
        w.check(o.val is want, 'return', 'returns %s instead of a reference to the object itself' % show(o.val), o, o.val.op not in ('ptr', 'null'))
    return f


def ret_bool(w, cond):
    def f(o):
        fa = o.st.facts
        g = cond_of(o.val)
        d, e = fa.decide(g), fa.decide(cond)
        ok = (d is not None and d == e) or (d is None and e is None and fa._fpc(cond) == fa._fpc(g))
        w.check(ok, 'return', 'returns %s, must be %s' % (show(o.val), show(cond)), o, o.val.unk or bool(fa.opaque))
    return f


def ret_mpz(w, reg, want, kind='mpz'):
    """value returned through the result slot"""
    def f(o):
        A, st = w.A, o.st
        if kind == 'mpz':
            got = A.read(st, 'mpz', ptr(reg))
            rids = [st.reg(reg)[0].rid] if 0 in st.reg(reg) else []
        else:
            got = flint.rmpq(A, st, ptr(reg))
            rids = [st.reg(reg)[k].rid for k in (0, 16) if k in st.reg(reg)]
        w.extra_live = set(rids)
        w.check(st.facts.equal(got, want), 'value', 'returns %s, must be %s' % (show(got), show(want)), o, got.unk or bool(st.facts.opaque))
        for r in rids:
            w.check(r is None or st.live.get(r) == 'live', 'dangling', 'the returned number was already released', o)
    return f


def ret_int(w, want):
    def f(o):
        got = sval(o.val)
        w.check(o.st.facts.equal(sgn(got), sgn(want)), 'return', 'returns %s, must have the sign of %s' % (show(got), show(want)), o, o.val.unk or bool(o.st.facts.opaque))
    return f


def ret_double(w, x):
    def f(o):
        w.check(o.st.facts.double_ok(o.val, x, I(4)), 'return', 'returns %s, must be %s rounded to nearest' % (show(o.val), show(x)), o, o.val.unk or bool(o.st.facts.opaque))
    return f


def both_irrational(w, va, vb):
    def f(o):
        fa = o.st.facts
        return fa.is_irrational(va) and fa.is_irrational(vb)
    return f


def table(cp):
    """all obligations of the element class for the program cp"""
    out = []

    def addob(group, name, label, f):
        out.append(Ob(group, name, label, f))

    # ---------------------------------------------------------------- construction
    def ctor_scalar(sig, kind, fk):
        def run():
            w = World(cp, cp.find(sig), sig, DEG[fk] if fk else 'into the rationals')
            args = []
            k = 'T'
            if fk:
                k = mkfields(w, fk)[0]
                if k != 'T':
                    w.ext[k] = 1
                    cxx.ref_add(w.A, w.st, k, 1)
            this = w.blank('this')
            args = [this] + ([ptr(k)] if fk else [])
            sc = []
            v = ZERO
            if kind:
                a, v = w.scalar('x', kind)
                args.append(a)
                if kind in ('mpz', 'mpq', 'fmpz', 'fmpq'):
                    sc.append((a, kind, v, 'argument'))
            outs = w.go(args)
            return finish(w, outs, ['this'], {}, {'this': (v, {k})}, None, sc)
        addob('ctor', sig, fk or '', run)

    ctor_scalar('%s::renf_elem_class()' % E, None, None)
    for fk in SAME:
        ctor_scalar('%s::renf_elem_class(%s)' % (E, K), None, fk)
    for t, kd in FTYPES:
        ctor_scalar('%s::renf_elem_class(%s)' % (E, t), kd, None)
        for fk in SAME:
            ctor_scalar('%s::renf_elem_class(%s, %s)' % (E, K, t), kd, fk)

    def ctor_copy(fk, move):
        sig = '%s::renf_elem_class(%s)' % (E, E + '&&' if move else EC)

        def run():
            w = World(cp, cp.find(sig), sig, DEG[fk])
            k, _ = mkfields(w, fk)
            x, v = w.elem('x', k)
            this = w.blank('this')
            outs = w.go([this, x])
            if move:
                return finish(w, outs, ['this', 'x'], {}, {'this': (v, {k})})
            return finish(w, outs, ['this', 'x'], {'x': (v, k)}, {'this': (v, {k})})
        addob('ctor', sig, fk, run)
    for fk in SAME:
        ctor_copy(fk, False)
        ctor_copy(fk, True)

    def ctor_move_empty():
        sig = '%s::renf_elem_class(%s)' % (E, E + '&&')

        def run():
            w = World(cp, cp.find(sig), sig, 'from a moved-from object')
            x = w.moved('x')
            this = w.blank('this')
            outs = w.go([this, x])
            return finish(w, outs, ['this', 'x'], {}, {})
        addob('ctor', sig, 'moved', run)
    ctor_move_empty()

    def ctor_coerce(ka, kb, same):
        sig = '%s::renf_elem_class(%s, %s)' % (E, K, EC)

        def run():
            w = World(cp, cp.find(sig), sig, 'field %s, element %s' % (DEG[ka], 'of the same field' if same else DEG[kb]))
            ra, rb = mkfields(w, ka, None if same else kb)
            if same:
                rb = ra
            if ra != 'T':
                w.ext[ra] = 1
                cxx.ref_add(w.A, w.st, ra, 1)
            x, v = w.elem('x', rb)
            this = w.blank('this')
            outs = w.go([this, ptr(ra), x])
            return finish(w, outs, ['this', 'x'], {'x': (v, rb)}, {'this': (v, {ra})}, lambda o: not same and w.A.cxx_fields[ra] is not w.A.cxx_fields[rb] and o.st.facts.is_irrational(v))
        addob('ctor', sig, ka + (kb or '='), run)
    for a in SAME:
        ctor_coerce(a, None, True)
    for a, b in DIFF:
        ctor_coerce(a, b, False)

    # ---------------------------------------------------------------- destruction
    def dtor(fk):
        sig = '%s::~renf_elem_class()' % E

        def run():
            w = World(cp, cp.find(sig), sig, DEG[fk] if fk else 'moved-from object')
            if fk:
                k, _ = mkfields(w, fk)
                x, v = w.elem('x', k)
            else:
                x = w.moved('x')
            outs = w.go([x])
            return finish(w, outs, [], {}, {})
        addob('dtor', sig, fk or 'moved', run)
    for fk in SAME + [None]:
        dtor(fk)

    # ---------------------------------------------------------------- assignment
    def assign_scalar(t, kd, fk):
        sig = '%s::operator=(%s)' % (E, t)

        def run():
            w = World(cp, cp.find(sig), sig, 'onto an element: %s' % DEG[fk] if fk else 'onto a moved-from object')
            if fk:
                k, _ = mkfields(w, fk)
                this, old = w.elem('this', k)
            else:
                this = w.moved('this')
            a, v = w.scalar('x', kd)
            sc = [(a, kd, v, 'argument')] if not kd[1:].isdigit() else []
            outs = w.go([this, a])
            return finish(w, outs, ['this'], {}, {'this': (v, {'T'})}, None, sc, ret_ptr(w, this))
        addob('assign', sig, fk or 'moved', run)
    for t, kd in FTYPES:
        for fk in SAME + [None]:
            assign_scalar(t, kd, fk)

    def assign_elem(ka, kb, mode, move):
        sig = '%s::operator=(%s)' % (E, E + '&&' if move else EC)

        def run():
            lab = {'same': 'same field', 'self': 'self assignment', 'diff': 'different fields', 'moved': 'onto a moved-from object'}[mode]
            w = World(cp, cp.find(sig), sig, '%s %s %s' % (lab, DEG.get(ka, ''), DEG.get(kb, '')))
            if mode == 'diff':
                ra, rb = mkfields(w, ka, kb)
            else:
                ra, _ = mkfields(w, ka)
                rb = ra
            if mode == 'moved':
                this, old = w.moved('this'), None
            else:
                this, old = w.elem('this', ra)
            if mode == 'self':
                x, v = this, old
                vis = ['this']
                olds = {}
            else:
                x, v = w.elem('x', rb)
                vis = ['this', 'x']
                olds = {} if move else {'x': (v, rb)}
            outs = w.go([this, x])
            return finish(w, outs, vis, olds, {'this': (v, {rb})}, None, (), ret_ptr(w, this))
        addob('assign', sig, mode + ka + (kb or ''), run)
    for move in (False, True):
        for a in SAME:
            assign_elem(a, None, 'same', move)
            assign_elem(a, None, 'self', move)
            assign_elem(a, None, 'moved', move)
        for a, b in DIFF:
            assign_elem(a, b, 'diff', move)

    # ---------------------------------------------------------------- compound arithmetic
    def compound_scalar(op, t, kd, fk):
        sig = '%s::operator%s=(%s)' % (E, op, t)

        def run():
            w = World(cp, cp.find(sig), sig, DEG[fk])
            k, _ = mkfields(w, fk)
            this, old = w.elem('this', k)
            a, v = w.scalar('x', kd)
            if op == '/':
                w.st.facts.assume(csign(v, (-1, 1)))
            sc = [(a, kd, v, 'argument')] if not kd[1:].isdigit() else []
            outs = w.go([this, a])
            return finish(w, outs, ['this'], {}, {'this': (OPS[op](old, v), {k})}, None, sc, ret_ptr(w, this))
        addob('arith', sig, fk, run)
    for op in OPS:
        for t, kd in TYPES:
            for fk in SAME:
                compound_scalar(op, t, kd, fk)

    def compound_elem(op, ka, kb, mode):
        sig = '%s::operator%s=(%s)' % (E, op, EC)

        def run():
            w = World(cp, cp.find(sig), sig, '%s %s %s' % (mode, DEG[ka], DEG.get(kb, '')))
            ra, rb = mkfields(w, ka, kb)
            if mode != 'different fields':
                rb = ra
            this, old = w.elem('this', ra)
            if mode == 'same object':
                x, v = this, old
                vis, olds = ['this'], {}
            else:
                x, v = w.elem('x', rb)
                vis, olds = ['this', 'x'], {'x': (v, rb)}
            if op == '/':
                w.st.facts.assume(csign(v, (-1, 1)))
            outs = w.go([this, x])

            def allowed(o):
                if mode != 'different fields':
                    return False
                if exc_match(exc_type(o.val), 'std::logic_error') and o.st.facts.is_irrational(v) and o.st.facts.is_irrational(old):
                    return True
                return ka != 'T' and kb != 'T' and exc_type(o.val) == 'std::invalid_argument' and env_strict(o.st)
            olds2 = dict(olds)
            # 'this' must survive an exception unchanged
            for o in outs:
                if o.kind == 'throw':
                    w.check_elem(o, 'this', old, {ra}, 'this', 'operand-changed')
            res = OPS[op](old, v)
            for o in outs:
                if o.kind == 'throw':
                    w.check(allowed(o), 'throw', 'exits with exception %s' % exc_type(o.val), o)
                    for obj, (val, k) in olds.items():
                        w.check_elem(o, obj, val, {k}, obj, 'operand-changed')
                    w.check_resources(o, vis)
                else:
                    w.check_elem(o, 'this', res, {ra, rb}, 'this')
                    for obj, (val, k) in olds.items():
                        w.check_elem(o, obj, val, {k}, obj, 'operand-changed')
                    ret_ptr(w, this)(o)
                    w.check_resources(o, vis)
            return w.done()
        addob('arith', sig, mode + ka + (kb or ''), run)
    for op in OPS:
        for a in SAME:
            compound_elem(op, a, None, 'same field')
            compound_elem(op, a, None, 'same object')
        for a, b in DIFF:
            compound_elem(op, a, b, 'different fields')

    # ---------------------------------------------------------------- comparison
    REL = {'==': (0,), '<': (-1,), '>': (1,)}

    def rel_scalar(op, t, kd, fk):
        sig = 'eantic::operator%s(%s, %s)' % (op, EC, t)

        def run():
            w = World(cp, cp.find(sig), sig, DEG[fk])
            k, _ = mkfields(w, fk)
            x, xv = w.elem('x', k)
            a, v = w.scalar('y', kd)
            sc = [(a, kd, v, 'argument')] if not kd[1:].isdigit() else []
            outs = w.go([x, a])
            return finish(w, outs, ['x'], {'x': (xv, k)}, {}, None, sc, ret_bool(w, csign(sub(xv, v), REL[op])))
        addob('cmp', sig, fk, run)
    for op in REL:
        for t, kd in TYPES:
            for fk in SAME:
                rel_scalar(op, t, kd, fk)

    def rel_elem(op, ka, kb, mode):
        sig = 'eantic::operator%s(%s, %s)' % (op, EC, EC)

        def run():
            w = World(cp, cp.find(sig), sig, '%s %s %s' % (mode, DEG[ka], DEG.get(kb, '')))
            ra, rb = mkfields(w, ka, kb)
            if mode != 'different fields':
                rb = ra
            x, xv = w.elem('x', ra)
            if mode == 'same object':
                y, v = x, xv
                vis, olds = ['x'], {'x': (xv, ra)}
            else:
                y, v = w.elem('y', rb)
                vis, olds = ['x', 'y'], {'x': (xv, ra), 'y': (v, rb)}
            outs = w.go([x, y])
            al = (lambda o: exc_match(exc_type(o.val), 'std::logic_error') and both_irrational(w, xv, v)(o)) if mode == 'different fields' else None
            return finish(w, outs, vis, olds, {}, al, (), ret_bool(w, csign(sub(xv, v), REL[op])))
        addob('cmp', sig, mode + ka + (kb or ''), run)
    for op in ('==', '<'):
        for a in SAME:
            rel_elem(op, a, None, 'same field')
            rel_elem(op, a, None, 'same object')
        for a, b in DIFF:
            rel_elem(op, a, b, 'different fields')

    # ---------------------------------------------------------------- queries
    def query(group, name, mkret, rettype=None, pre=None, free=False):
        """method without further arguments; rettype None/'mpz'/'mpq'/'elem' (returned through a result slot)"""
        sig = name if free else '%s::%s' % (E, name)
        for fk in SAME:
            def run(fk=fk):
                w = World(cp, cp.find(sig), sig, DEG[fk])
                k, _ = mkfields(w, fk)
                x, v = w.elem('x', k)
                F = w.A.cxx_fields[k]
                if pre:
                    pre(w, v)
                args = []
                vis = ['x']
                writes = {}
                rc = None
                if rettype in ('mpz', 'mpq'):
                    args.append(w.raw('ret'))
                    rc = ret_mpz(w, 'ret', mkret(w, v, F), rettype)
                elif rettype == 'elem':
                    args.append(w.blank('ret'))
                    vis = ['x', 'ret']
                    writes = {'ret': (mkret(w, v, F), {k})}
                else:
                    rc = mkret(w, v, F)
                outs = w.go(args + [x])
                return finish(w, outs, vis, {'x': (v, k)}, writes, None, (), rc)
            addob(group, sig, fk, run)

    def rat(w, v):
        w.st.facts.rational.append(v)
        w.st.facts._clean()

    def integer(w, v):
        w.st.facts.rational.append(v)
        w.st.facts.integer.append(v)
        w.st.facts._clean()

    query('pred', 'is_zero() const', lambda w, v, F: ret_bool(w, csign(v, (0,))))
    query('pred', 'is_one() const', lambda w, v, F: ret_bool(w, csign(sub(v, ONE), (0,))))
    query('pred', 'is_integer() const', lambda w, v, F: ret_bool(w, cpred('integer', v)))
    query('pred', 'is_rational() const', lambda w, v, F: ret_bool(w, cpred('rational', v)))
    query('pred', 'operator bool() const', lambda w, v, F: ret_bool(w, csign(v, (-1, 1))))
    query('pred', 'sgn() const', lambda w, v, F: ret_int(w, v))
    query('conv', 'operator double() const', lambda w, v, F: ret_double(w, v))
    query('conv', 'get_d() const', lambda w, v, F: ret_double(w, v))
    query('conv', 'floor() const', lambda w, v, F: mk('floor', v), 'mpz')
    query('conv', 'ceil() const', lambda w, v, F: mk('ceil', v), 'mpz')
    query('conv', 'eantic::floor(%s)' % EC, lambda w, v, F: mk('floor', v), 'mpz', free=True)
    query('conv', 'eantic::ceil(%s)' % EC, lambda w, v, F: mk('ceil', v), 'mpz', free=True)
    query('conv', 'num() const', lambda w, v, F: num(v), 'mpz', rat)
    query('conv', 'get_num() const', lambda w, v, F: num(v), 'mpz', rat)
    query('conv', 'den() const', lambda w, v, F: den(v), 'mpz')
    query('conv', 'get_den() const', lambda w, v, F: den(v), 'mpz')
    query('conv', 'operator mpz_class() const', lambda w, v, F: v, 'mpz', integer)
    query('conv', 'operator mpq_class() const', lambda w, v, F: v, 'mpq', rat)
    query('conv', 'get_rational() const', lambda w, v, F: v, 'mpq', rat)
    query('arith', 'operator-() const', lambda w, v, F: neg(v), 'elem')
    query('arith', 'operator+() const', lambda w, v, F: v, 'elem')

    def pown(name, free):
        sig = name
        for fk in SAME:
            for part in ('negative', 'nonnegative'):
                def run(fk=fk, part=part):
                    w = World(cp, cp.find(sig), sig, '%s, %s exponent' % (DEG[fk], part))
                    k, _ = mkfields(w, fk)
                    x, v = w.elem('x', k)
                    e = atom('e', 'M32')
                    if part == 'negative':
                        w.st.facts.assume(csign(v, (-1, 1)))
                        w.st.facts.assume(csign(sval(e), (-1,)))
                        want = power(div(ONE, v), neg(sval(e)))
                    else:
                        w.st.facts.assume(csign(sval(e), (0, 1)))
                        want = power(v, sval(e))
                    r = w.blank('ret')
                    outs = w.go([r, x, e])
                    return finish(w, outs, ['x', 'ret'], {'x': (v, k)}, {'ret': (want, {k})})
                addob('arith', sig, fk + part, run)
    pown('%s::pow(int) const' % E, False)
    pown('eantic::pow(%s, int)' % EC, True)

    def fdiv(ka, kb, mode):
        sig = '%s::floordiv(%s) const' % (E, EC)

        def run():
            w = World(cp, cp.find(sig), sig, '%s %s %s' % (mode, DEG[ka], DEG.get(kb, '')))
            ra, rb = mkfields(w, ka, kb)
            if mode != 'different fields':
                rb = ra
            x, xv = w.elem('x', ra)
            if mode == 'same object':
                y, v = x, xv
                vis, olds = ['x'], {'x': (xv, ra)}
            else:
                y, v = w.elem('y', rb)
                vis, olds = ['x', 'y'], {'x': (xv, ra), 'y': (v, rb)}
            w.st.facts.assume(csign(v, (-1, 1)))
            outs = w.go([w.raw('ret'), x, y])

            def al(o):
                if mode != 'different fields':
                    return False
                if exc_match(exc_type(o.val), 'std::logic_error') and both_irrational(w, xv, v)(o):
                    return True
                return ka != 'T' and kb != 'T' and exc_type(o.val) == 'std::invalid_argument' and env_strict(o.st)
            return finish(w, outs, vis, olds, {}, al, (), ret_mpz(w, 'ret', mk('floor', div(xv, v))))
        addob('conv', sig, mode + ka + (kb or ''), run)
    for a in SAME:
        fdiv(a, None, 'same field')
        fdiv(a, None, 'same object')
    for a, b in DIFF:
        fdiv(a, b, 'different fields')

    def swp(ka, kb, mode):
        sig = 'eantic::swap(%s&, %s&)' % (E, E)

        def run():
            w = World(cp, cp.find(sig), sig, '%s %s %s' % (mode, DEG[ka], DEG.get(kb, '')))
            ra, rb = mkfields(w, ka, kb)
            if mode != 'different fields':
                rb = ra
            x, xv = w.elem('x', ra)
            if mode == 'same object':
                outs = w.go([x, x])
                return finish(w, outs, ['x'], {}, {'x': (xv, {ra})})
            if mode == 'moved':
                y = w.moved('y')
                outs = w.go([x, y])
                return finish(w, outs, ['x', 'y'], {}, {'y': (xv, {ra})})
            y, v = w.elem('y', rb)
            outs = w.go([x, y])
            return finish(w, outs, ['x', 'y'], {}, {'x': (v, {rb}), 'y': (xv, {ra})})
        addob('assign', sig, mode + ka + (kb or ''), run)
    for a in SAME:
        swp(a, None, 'same field')
        swp(a, None, 'same object')
        swp(a, None, 'moved')
    for a, b in DIFF:
        swp(a, b, 'different fields')

    # accessors of the field class
    for nm, val in (('zero', lambda F: ZERO), ('one', lambda F: ONE), ('gen', lambda F: F.alpha)):
        sig = 'eantic::renf_class::%s() const' % nm
        for fk in SAME:
            def run(fk=fk, sig=sig, val=val):
                w = World(cp, cp.find(sig), sig, DEG[fk])
                k, _ = mkfields(w, fk)
                if k != 'T':
                    w.ext[k] = 1
                    cxx.ref_add(w.A, w.st, k, 1)
                outs = w.go([ptr(k)])
                for o in outs:
                    p = o.val
                    ok = p.op == 'ptr' and p.args[0] == k + '.cache' and isint(p.args[1])
                    w.check(ok, 'return', 'returns %s, not an element kept by the field' % show(p), o, p.unk)
                    if ok:
                        got = w.A.read(o.st, 'nfe', ptr_add(p, I(XL.a + Lay.elem)), w.A.cxx_fields[k])
                        w.check(o.st.facts.equal(got, val(w.A.cxx_fields[k])), 'value', 'returns %s, must be %s' % (show(got), show(val(w.A.cxx_fields[k]))), o, got.unk)
                    w.check_resources(o, [])
                return w.done()
            addob('pred', sig, fk, run)

    from . import cxxstr
    cxxstr.add(cp, addob)
    from . import cxxreg
    cxxreg.table(cp, addob)
    from . import cxxio
    cxxio.add(cp, addob)
    from . import cxxmake
    cxxmake.add(cp, addob)
    return out

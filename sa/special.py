"""Obligations whose shape does not fit the element contract table: polynomial evaluation, root refinement,
field construction."""
from .terms import *
from .state import *
from .state import _o
from .interp import Interp, Budget, trace_list
from . import flint, specs, roots
from .specs import Lay
from .roots import Result, mk_field, mk_elem


class Run:
    """one analysis run with hand-made initial state"""

    def __init__(self, prog, name, label, inline=(), opts=None, extra_specs=None, models=None):
        self.prog, self.name = prog, name
        self.R = Result(name, label, ())
        self.R.label = lambda: '%s[%s]' % (name, label)
        self.func = prog.defs.get(name)
        self.R.missing = self.func is None
        sp = specs.base_specs()
        for n in tuple(inline) + (name,):
            sp.pop(n, None)
        if extra_specs:
            sp.update(extra_specs)
        self.A = Interp(prog, models or flint.M, sp, dict(opts or {}))
        self.st = State(self.A)
        self.outs = []

    def reg(self, name, lazy=False, **kw):
        self.A.region(name, 'param', lazy=lazy, info=name, **kw)
        return ptr(name)

    def put(self, name, off, cell):
        self.st.wreg(name)[off] = cell

    def go(self, args):
        R = self.R
        if self.func is None:
            R.undecided.append(('missing', 'function %s is not defined' % self.name, '', []))
            return []
        self.func.parse()
        self.A.root = self.name
        try:
            self.outs = self.A.run_function(self.st, self.func, args)
        except Budget as e:
            R.undecided.append(('budget', str(e), '', []))
            self.outs = []
        R.stats = self.A.stats
        R.uses = set(self.A.uses)
        R.events = list(self.A.events.values())
        R.func = self.func
        r = [o for o in self.outs if o.kind != 'abort']
        R.exits = len(r)
        return r

    def check(self, ok, rule, msg, o, unk=False):
        if ok:
            self.R.ok += 1
        else:
            unk = unk or any(c.op == 'unkcall' for c in o.st.facts.opaque)
            (self.R.undecided if unk else self.R.viol).append((rule, msg, o.loc, trace_list(o.st)))

    def encloses(self, o, p, want, what):
        b = self.A.read(o.st, 'arb', p)
        e = encl(b)
        ok = e is not None and o.st.facts.encloses(e, want)
        self.check(ok, 'enclosure', '%s holds %s but must enclose %s' % (what, show(e) if e is not None else 'nothing provable (%s)' % b.args[0], show(want)), o, b.unk or bool(o.st.facts.opaque) or (e is not None and e.unk))

    def same(self, o, kind, p, want, what, rule='operand-changed'):
        v = self.A.read(o.st, kind, p)
        self.check(o.st.facts.equal(v, want), rule, '%s is %s, must be %s' % (what, show(v), show(want)), o, v.unk)


def sball(name, e):
    return ball('some', e, atom(name, 'ball'))


def ob_eval_vec(prog, opts=None):
    r = Run(prog, '_fmpz_poly_evaluate_arb', 'Horner scheme', opts=opts)
    P = atom('P', 'PZ')
    x = atom('x', 'R')
    res, pol, a = r.reg('res'), r.reg('pol'), r.reg('a')
    r.put('res', 0, Cell('arb', sball('old', atom('old', 'R'))))
    r.put('pol', 0, Cell('vec', P))
    A0 = sball('a', x)
    r.put('a', 0, Cell('arb', A0))
    for o in r.go([res, pol, tomach(mk('plen', P), 64), a, atom('prec', 'M64')]):
        r.encloses(o, res, mul(mk('ev', P, x), mk('pden', P)), 'result')
        r.same(o, 'arb', a, A0, 'argument ball')
    return r.R


def ob_eval_poly(prog, name, kind, alias, opts=None):
    r = Run(prog, name, 'res==a' if alias else 'distinct', opts=opts)
    P = atom('P', 'PZ' if kind == 'zpoly' else 'PQ')
    x = atom('x', 'R')
    a = r.reg('a')
    res = a if alias else r.reg('res')
    if not alias:
        r.put('res', 0, Cell('arb', sball('old', atom('old', 'R'))))
    pol = r.reg('pol')
    r.put('pol', 0, Cell(kind, P))
    r.put('a', 0, Cell('arb', sball('a', x)))
    want = mk('ev', P, x)
    for o in r.go([res, pol, a, atom('prec', 'M64')]):
        f = o.st.facts
        b = r.A.read(o.st, 'arb', res)
        e = encl(b)
        ok = e is not None and (f.equal(e, want) or (kind == 'zpoly' and f.equal(e, mul(want, mk('pden', P)))))
        r.check(ok, 'enclosure', 'result holds %s but must enclose %s' % (show(e) if e is not None else 'nothing', show(want)), o, b.unk)
        if not alias:
            r.encloses(o, a, x, 'argument ball')
    return r.R


def inside(f, b, A0):
    """is the ball b certified to be a subset of A0?  True / False / None"""
    if b is A0 or f.decide(cpred('arb_contains', A0, b)) is True:
        return True
    if b.op != 'ball' or b.unk:
        return None
    if b.args[0] == 'part':
        e = encl(b)
        if all(x.op in ('lo', 'mid', 'hi') and x.args[0] is A0 for x in e.args):
            return True
    return None if b.args[0] in ('phi', 'unk', 'some') else False


def ob_newton(prog, name='_fmpz_poly_newton_step_arb', wrap=False, opts=None):
    r = Run(prog, name, 'root in ball', opts=opts)
    P = atom('P', 'PZ')
    xi = mk('rootof', P)
    res, a = r.reg('res'), r.reg('a')
    pol, der = r.reg('pol'), r.reg('der')
    r.put('res', 0, Cell('arb', sball('old', atom('old', 'R'))))
    A0 = sball('a', xi)
    r.put('a', 0, Cell('arb', A0))
    k = 'zpoly' if wrap else 'vec'
    r.put('pol', 0, Cell(k, P))
    r.put('der', 0, Cell(k, mk('deriv', P)))
    args = [res, pol, der] + ([] if wrap else [tomach(mk('plen', P), 64)]) + [a, atom('prec', 'M64')]
    for o in r.go(args):
        f = o.st.facts
        d = f.decide(cond_of(o.val))
        if d is False:
            r.R.ok += 1
            r.same(o, 'arb', a, A0, 'argument ball')
            continue
        st = o.st.copy()
        o2 = type(o)(st, o.kind, o.val, o.loc)
        try:
            if d is None:
                st.facts.assume(cond_of(o.val))
        except Contradiction:
            continue
        r.encloses(o2, res, xi, 'refined ball')
        r.same(o2, 'arb', a, A0, 'argument ball')
        b = r.A.read(st, 'arb', res)
        ins = wrap or inside(st.facts, b, A0)
        r.check(ins, 'enclosure', 'refined ball %s need not be inside of the previous ball: it may contain another root' % show(b), o2, ins is None)
        if not wrap:
            shr = st.facts.decide(cpred('arb_contains', A0, b)) is True
            neq = st.facts.decide(cpred('arb_equal', *sorted((A0, b), key=lambda t: t.id))) is False
            r.shrinks = shr and neq
            r.R.progress = (shr, neq, o.loc, trace_list(st), b.unk)
    return r.R


def ob_bisect(prog, name='_fmpz_poly_bisection_step_arb', wrap=False, opts=None):
    r = Run(prog, name, 'root in ball', opts=dict(opts or {}, ends=True))
    P = atom('P', 'PZ')
    xi = mk('rootof', P)
    res, a = r.reg('res'), r.reg('a')
    pol = r.reg('pol')
    r.put('res', 0, Cell('arb', sball('old', atom('old', 'R'))))
    A0 = sball('a', xi)
    r.put('a', 0, Cell('arb', A0))
    k = 'zpoly' if wrap else 'vec'
    r.put('pol', 0, Cell(k, P))
    args = [res, pol] + ([] if wrap else [tomach(mk('plen', P), 64)]) + [a, atom('prec', 'M64')]
    for o in r.go(args):
        f = o.st.facts
        d = f.decide(cond_of(o.val))
        r.same(o, 'arb', a, A0, 'argument ball')
        if d is False:
            r.R.ok += 1
            continue
        r.encloses(o, res, xi, 'refined ball')
        b = r.A.read(o.st, 'arb', res)
        ins = wrap or inside(f, b, A0)
        r.check(ins, 'enclosure', 'refined ball %s need not be inside of the previous ball: it may contain another root' % show(b), o, ins is None)
        if b is A0 and not wrap:
            r.R.progress = (True, False, o.loc, trace_list(o.st), False)
    return r.R


def ob_bisect_arf(prog, sl, opts=None):
    """[l, r] with a change of sign is replaced by a part of it that has a change of sign"""
    r = Run(prog, '_fmpz_poly_bisection_step_arf', 'sign %d on the left' % sl, opts=dict(opts or {}, fork_sgn=True, cap=2000))
    P = atom('P', 'PZ')
    L, U = atom('l', 'R'), atom('r', 'R')
    l, u, pol = r.reg('l'), r.reg('r'), r.reg('pol')
    r.put('l', 0, Cell('arf', L))
    r.put('r', 0, Cell('arf', U))
    r.put('pol', 0, Cell('vec', P))
    f0 = r.st.facts
    f0.assume(csign(sub(U, L), {1}))
    f0.assume(csign(mk('ev', P, L), {sl}))
    f0.assume(csign(mk('ev', P, U), {-sl}))
    for o in r.go([l, u, pol, tomach(mk('plen', P), 64), mconst(sl, 32), mconst(-sl, 32), atom('prec', 'M64')]):
        f = o.st.facts
        for end, p, want, was in (('left', l, sl, L), ('right', u, -sl, U)):
            v = r.A.read(o.st, 'arf', p)
            if v is was:
                r.R.ok += 1
                continue
            r.check(f.sign(mk('ev', P, v)) == {want}, 'sign', 'the %s end becomes %s where the polynomial need not have the sign it had at the %s end' % (end, show(v), end), o, v.unk)
            r.check(f.sign(sub(v, L)) <= {0, 1} and f.sign(sub(U, v)) <= {0, 1}, 'enclosure', 'the %s end becomes %s, which need not be inside of the interval' % (end, show(v)), o, v.unk)
    return r.R


def ob_refine(prog, kind, opts=None):
    r = Run(prog, 'renf_refine_embedding', {'L': 'degree 1', 'Q': 'degree 2', 'G': 'degree>=3'}[kind], opts=opts)
    nf = r.reg('nf', lazy=True)
    F = mk_field(r.A, r.st, 'nf', kind)
    r.put('nf', Lay.immutable, Cell('int', mconst(0, 32), None, 4))
    P = mk('fieldpol', F.alpha, kind)
    emb = ptr('nf', Lay.nfemb)

    def watch(st, kind, p, val):
        if kind == 'arb' and p is emb and val.op == 'ball' and val.args[0] in WIDER:
            r.R.viol.append(('enclosure', 'the embedding becomes %s, which is wider than the ball it comes from: it may contain another root' % show(val), r.A.here_repo()[0], trace_list(st)))
    r.A.watch = watch
    outs = r.go([nf, atom('prec', 'M64')])
    r.A.watch = None
    for o in outs:
        r.encloses(o, ptr('nf', Lay.nfemb), F.alpha, 'embedding of the generator')
        r.same(o, 'qpoly', ptr('nf', Lay.nf), P, 'defining polynomial', 'field')
        r.same(o, 'zpoly', ptr('nf', Lay.der), mk('deriv', P), 'derivative', 'field')
        im = r.A.load(o.st, flint.Ty('int', None, 32), ptr('nf', Lay.immutable)) if False else o.st.reg('nf').get(Lay.immutable)
        v = im.val if im is not None else None
        r.check(v is not None and o.st.facts.equal(sval(v), ZERO), 'immutable-flag', 'immutable flag is %s after a refinement that was permitted' % (show(v) if v is not None else '?'), o, v is None or v.unk)
        pc = o.st.reg('nf').get(Lay.prec)
        r.check(pc is not None and pc.val is atom('prec_nf', 'M64'), 'field', 'default precision of the field changed', o, pc is None or pc.val.unk)
    # every refinement step must have been given the field's own data
    for what, P2, okk, where, unk, tr in getattr(r.A, 'rsteps', ()):
        if okk:
            r.R.ok += 1
        else:
            (r.R.undecided if unk else r.R.viol).append(('step-arguments', '%s step is not given the field polynomial, its derivative, its length and the current embedding' % what, where[0], tr))
    return r.R


def ob_refine_frozen(prog, kind, opts=None):
    """an embedding that was declared immutable is never refined"""
    r = Run(prog, 'renf_refine_embedding', 'immutable field', opts=opts)
    nf = r.reg('nf', lazy=True)
    F = mk_field(r.A, r.st, 'nf', kind)
    r.put('nf', Lay.immutable, Cell('int', mconst(1, 32), None, 4))
    b0 = r.st.reg('nf')[Lay.nfemb].val
    for o in r.go([nf, atom('prec', 'M64')]):
        b = r.A.read(o.st, 'arb', ptr('nf', Lay.nfemb))
        r.check(b is b0, 'immutable', 'an immutable embedding is replaced', o, False)
    return r.R


def ob_init(prog, opts=None):
    r = Run(prog, 'renf_init', 'any polynomial', opts=opts)
    A, st = r.A, r.st
    nf, pol, emb = r.reg('nf'), r.reg('pol'), r.reg('emb')
    P = atom('P', 'PQ')
    r.put('pol', 0, Cell('qpoly', P))
    xi = mk('rootof', P)
    E0 = sball('emb', xi)
    r.put('emb', 0, Cell('arb', E0))
    prec = atom('prec', 'M64')

    def refine(A, st, args, inst):
        st.note('refine-call', sval(A.simp(st, args[1])), A.here_repo())
        b = A.read(st, 'arb', ptr_add(args[0], I(Lay.nfemb)))
        p = A.read(st, 'qpoly', ptr_add(args[0], I(Lay.nf)))
        d = A.read(st, 'zpoly', ptr_add(args[0], I(Lay.der)))
        im = st.reg(args[0].args[0]).get(Lay.immutable) if args[0].op == 'ptr' else None
        ok = encl(b) is not None and st.facts.equal(p, P) and st.facts.equal(d, mk('deriv', P)) and st.facts.equal(encl(b), xi) \
            and im is not None and st.facts.equal(sval(im.val), ZERO)
        st.note('refine-pre', ok, A.here_repo())
        if encl(b) is not None:
            A.write(st, 'arb', ptr_add(args[0], I(Lay.nfemb)), specs.fresh_ball(A, encl(b)))
        return flint.ret(st)
    A.specs['renf_refine_embedding'] = refine
    for o in r.go([nf, pol, emb, prec]):
        f = o.st.facts
        r.check(f.decide(cpred('uniqueroot', P, E0)) is True, 'isolation', 'field is built without establishing that the ball isolates one root', o, bool(f.opaque))
        r.same(o, 'qpoly', ptr('nf', Lay.nf), P, 'defining polynomial', 'field')
        r.same(o, 'zpoly', ptr('nf', Lay.der), mk('deriv', P), 'derivative of the defining polynomial', 'field')
        r.encloses(o, ptr('nf', Lay.nfemb), xi, 'embedding')
        pc = o.st.reg('nf').get(Lay.prec)
        r.check(pc is not None and f.equal(sval(pc.val), sval(prec)), 'field', 'default precision is not the requested one', o, pc is None or pc.val.unk)
        im = o.st.reg('nf').get(Lay.immutable)
        r.check(im is not None and f.equal(sval(im.val), ZERO), 'immutable-flag', 'a new field must be mutable', o, im is None or im.val.unk)
        r.same(o, 'qpoly', pol, P, 'polynomial argument')
        r.same(o, 'arb', emb, E0, 'embedding argument')
        for t, d in o.st.notes():
            if t == 'refine-pre':
                r.check(d[0], 'field', 'embedding is refined before polynomial, derivative, embedding and flag are all in place', o, False)
    return r.R


# balls that may be wider than the ball they were computed from
WIDER = ('arb_set_round', 'widened', 'union', 'arb_trim', 'arb_neg_round')


def ob_init_set(prog, kind, opts=None):
    r = Run(prog, 'renf_init_set', {'L': 'degree 1', 'Q': 'degree 2', 'G': 'degree>=3'}[kind], opts=opts)
    A, st = r.A, r.st
    d, s = r.reg('dest'), r.reg('src', lazy=True)
    F = mk_field(A, st, 'src', kind)
    P = mk('fieldpol', F.alpha, kind)
    for o in r.go([d, s]):
        r.same(o, 'qpoly', ptr('dest', Lay.nf), P, 'defining polynomial of the copy', 'field')
        r.same(o, 'zpoly', ptr('dest', Lay.der), mk('deriv', P), 'derivative of the copy', 'field')
        r.encloses(o, ptr('dest', Lay.nfemb), F.alpha, 'embedding of the copy')
        b = r.A.read(o.st, 'arb', ptr('dest', Lay.nfemb))
        r.check(b.op != 'ball' or b.args[0] not in WIDER, 'field', 'the ball of the copy is %s, which is wider than the ball of the source: nothing certifies that it still isolates the root' % show(b), o)
        pc = o.st.reg('dest').get(Lay.prec)
        r.check(pc is not None and o.st.facts.equal(sval(pc.val), sval(atom('prec_src', 'M64'))), 'field', 'default precision not copied', o, pc is None or pc.val.unk)
        im = o.st.reg('dest').get(Lay.immutable)
        r.check(im is not None and o.st.facts.equal(sval(im.val), ZERO), 'immutable-flag', 'a copied field must be mutable', o, im is None or im.val.unk)
        r.same(o, 'qpoly', ptr('src', Lay.nf), P, 'source polynomial')
        r.encloses(o, ptr('src', Lay.nfemb), F.alpha, 'source embedding')
    return r.R


def ob_nth_root(prog, opts=None):
    r = Run(prog, 'renf_init_nth_root_fmpq', 'd^(1/n)', opts=opts)
    A, st = r.A, r.st
    got = []

    def init(A, st, args, inst):
        P = A.read(st, 'qpoly', args[1])
        b = A.read(st, 'arb', args[2])
        st.note('renf_init', args[0], P, b, args[3])
        return flint.ret(st)
    A.specs['renf_init'] = init
    nf, d = r.reg('nf'), r.reg('d')
    q = atom('d', 'Q')
    r.put('d', 0, Cell('fmpz', num(q)))
    r.put('d', 8, Cell('fmpz', den(q)))
    n = atom('n', 'M64')
    prec = atom('prec', 'M64')
    X = atom('X', 'R')
    for v in (sval(n), uval(n)):
        st.facts.assume(csign(v, (1,)))
    for o in r.go([nf, d, n, prec]):
        f = o.st.facts
        calls = [x for t, x in o.st.notes() if t == 'renf_init']
        r.check(len(calls) == 1, 'field', 'field is not initialised exactly once', o, bool(A.stats['unknown']))
        for (p, P, b, pr) in calls:
            r.check(p is nf, 'field', 'another field object is initialised', o, p.unk)
            e = encl(b)
            # value at a generic point must be X^n - d (n != 0)
            for N in (sval(n), uval(n)):
                want = sub(power(X, N), q)
                have = mk('ev', P, X)
                if f.equal(want, have):
                    break
            r.check(f.equal(want, have), 'field', 'defining polynomial evaluates to %s instead of X^n - d' % show(have), o, P.unk)
            ok = e is not None and any(f.equal(e, mk('nroot', q, N)) for N in (sval(n), uval(n)))
            r.check(ok, 'enclosure', 'initial embedding holds %s instead of the n-th root of d' % (show(e) if e is not None else 'nothing'), o, b.unk)
    return r.R


def itv_of(e):
    """(centre, radius) of an enclosure term built from a ball with explicit centre and radius"""
    if e.op == 'within':
        return e.args[0], e.args[1]
    if e.op in ('mul', 'div'):
        for x, y in ((0, 1), (1, 0)) if e.op == 'mul' else ((0, 1),):
            c = itv_of(e.args[x])
            if c is not None:
                f = mul if e.op == 'mul' else div
                return f(c[0], e.args[y]), f(c[1], e.args[y])
    if e.op == 'add' and itv_of(e.args[0]) is not None and itv_of(e.args[1]) is None:
        c = itv_of(e.args[0])
        return add(c[0], e.args[1]), c[1]
    return None


def ob_set_embeddings(prog, opts=None):
    r = Run(prog, 'renf_set_embeddings_fmpz_poly', 'all real roots', opts=opts)
    A, st = r.A, r.st
    inits = []

    def isolate(A, st, args, inst):
        P = A.read(st, 'zpoly', args[5])
        A.write_vec(st, args[2], mk('isolC', P)) if args[2].op == 'ptr' else None
        if args[3].op == 'ptr':
            st.wreg(args[3].args[0]).clear()
            st.havoc.discard(args[3].args[0])
            st.note('isolK', args[3].args[0])
            A.isolK = args[3].args[0]
        if args[1].op == 'ptr':
            A.store(st, flint.I64, atom('~nexact', 'M64'), args[1])
        if args[4].op == 'ptr':
            A.store(st, flint.I64, atom('~ninterval', 'M64'), args[4])
        A.isolP = P
        A.isolCreg = args[2]
        return flint.ret(st)

    def init(A, st, args, inst):
        P = A.read(st, 'qpoly', args[1])
        b = A.read(st, 'arb', args[2])
        inits.append((st, args[0], P, b, args[3], A.here()[0]))
        return flint.ret(st)
    A.specs['fmpz_poly_isolate_real_roots'] = isolate
    A.specs['renf_init'] = init
    A.specs['fmpz_poly_num_real_roots_upper_bound'] = lambda A, st, args, inst: flint.ret(st, atom('~ub', 'M64'))
    P = atom('P', 'PZ')
    nf, pol = r.reg('nf', lazy=True, array=True), r.reg('pol')
    r.put('pol', 0, Cell('zpoly', P))
    outs = r.go([nf, pol, atom('lim', 'M64'), atom('prec', 'M64')])
    for o in outs:
        f = o.st.facts
        r.check(f.equal(sval(o.val), sval(atom('~ninterval', 'M64'))), 'return', 'returns %s instead of the number of real roots' % show(o.val), o, o.val.unk)
        r.same(o, 'zpoly', pol, P, 'polynomial argument')
    for (s, p, Q, b, pr, loc) in inits:
        class O:
            pass
        o = O()
        o.st, o.loc = s, loc
        f = s.facts
        X = atom('X', 'R')
        same = f.equal(Q, P) or (Q.op in ('setlen', 'setden', 'withnum') and False)
        r.check(same, 'field', 'fields are built with polynomial %s instead of the given one' % show(Q), o, Q.unk)
        cr = itv_of(encl(b)) if encl(b) is not None else None
        ix = [t.args[1] for t in subterms(b) if t.op == 'pcoef' and t.args[0].op == 'isolC']
        if cr is None or not ix or not hasattr(A, 'isolK'):
            rounded = b.op == 'ball' and b.args[0] in ('assemble', 'arb_mul_2exp_si') and any(t.op == 'mid' for t in subterms(b))
            r.check(False, 'isolation', 'the ball given to the field has a rounded centre but the radius of the isolating interval' if rounded else 'the ball given to the field is not built from the isolating interval', o, not rounded)
            continue
        i = ix[0]
        kc = s.reg(A.isolK).get(off_key(mul(i, I(8))))
        if kc is None or kc.kind != 'int':
            r.check(False, 'isolation', 'the exponent of the isolating interval is not used', o, True)
            continue
        kk = mk('exp2', add(sval(kc.val), I(-1)))
        c_ = mk('pcoef', mk('isolC', P), i)
        ok = f.equal(cr[0], mul(add(mul(c_, I(2)), ONE), kk)) and f.equal(cr[1], kk)
        r.check(ok, 'isolation', 'field %s is given centre %s radius %s instead of the isolating interval [c,c+1]*2^k' % (show(i), show(cr[0]), show(cr[1])), o, any(x.unk and not i.unk for x in cr))
        r.check(p.op == 'ptr' and f.equal(p.args[1], mul(i, I(Lay.size))), 'field', 'root %s initialises another array slot (%s)' % (show(i), show(p)), o, p.op != 'ptr')
    r.inits = inits
    return r.R


def ob_embeddings_count(prog, ni, lim, opts=None):
    """exactly the first min(lim, number of roots) slots are built, each from its own interval"""
    r = Run(prog, 'renf_set_embeddings_fmpz_poly', '%d roots, at most %d fields' % (ni, lim), opts=dict(opts or {}, unroll=12))
    A, st = r.A, r.st

    def isolate(A, st, args, inst):
        P = A.read(st, 'zpoly', args[5])
        if args[2].op == 'ptr':
            A.write_vec(st, args[2], mk('isolC', P))
        if args[3].op == 'ptr':
            st.wreg(args[3].args[0]).clear()
            st.havoc.discard(args[3].args[0])
        for k, v in ((1, 0), (4, ni)):
            if args[k].op == 'ptr':
                A.store(st, flint.I64, mconst(v, 64), args[k])
        return flint.ret(st)

    def init(A, st, args, inst):
        b = A.read(st, 'arb', args[2])
        ix = sorted({t.args[1] for t in subterms(b) if t.op == 'pcoef' and t.args[0].op == 'isolC'}, key=lambda t: t.id)
        st.note('emb-init', args[0], ix[0] if len(ix) == 1 else None)
        return flint.ret(st)
    A.specs['fmpz_poly_isolate_real_roots'] = isolate
    A.specs['renf_init'] = init
    A.specs['fmpz_poly_num_real_roots_upper_bound'] = lambda A, st, args, inst: flint.ret(st, mconst(ni + 2, 64))
    nf, pol = r.reg('nf', lazy=True, array=True), r.reg('pol')
    r.put('pol', 0, Cell('zpoly', atom('P', 'PZ')))
    for o in r.go([nf, pol, mconst(lim, 64), atom('prec', 'M64')]):
        got = [d for t, d in o.st.notes() if t == 'emb-init']
        n = max(0, min(ni, lim))
        slots = [p.args[1].args[0] // Lay.size if p.op == 'ptr' and p.args[0] == 'nf' and isint(p.args[1]) and p.args[1].args[0] % Lay.size == 0 else None for p, i in got]
        ids = [i.args[0] if i is not None and isint(i) else None for p, i in got]
        r.check(slots == list(range(n)) and ids == slots, 'isolation', 'for %d roots and at most %d fields, the fields %s are built from the intervals %s instead of the first %d' % (ni, lim, slots, ids, n), o, None in slots or None in ids)
        r.check(o.st.facts.equal(sval(o.val), I(ni)), 'return', 'returns %s instead of the number of real roots' % show(o.val), o, o.val.unk)
    return r.R


def ob_equal(prog, opts=None):
    """renf_equal: fields with different polynomials or disjoint embeddings are different; a field equals itself"""
    res = []
    for case in ('self', 'poly', 'disjoint'):
        r = Run(prog, 'renf_equal', {'self': 'same field', 'poly': 'different polynomials', 'disjoint': 'disjoint embeddings'}[case], opts=opts)
        A, st = r.A, r.st
        n1 = r.reg('nf1', lazy=True)
        F1 = mk_field(A, st, 'nf1', 'G')
        if case == 'self':
            n2 = n1
        else:
            n2 = r.reg('nf2', lazy=True)
            F2 = mk_field(A, st, 'nf2', 'G')
        if case != 'self':
            P1, P2 = mk('fieldpol', F1.alpha, 'G'), mk('fieldpol', F2.alpha, 'G')
            b1, b2 = st.reg('nf1')[Lay.nfemb].val, st.reg('nf2')[Lay.nfemb].val
            pe = cpred('polyeq', *sorted((P1, P2), key=lambda t: t.id))
            ov = cpred('arb_overlaps', *sorted((b1, b2), key=lambda t: t.id))
            st.facts.assume(cnot(pe) if case == 'poly' else cnot(ov))
        else:
            b1 = st.reg('nf1')[Lay.nfemb].val
            st.facts.assume(cpred('arb_overlaps', b1, b1))
        for o in r.go([n1, n2]):
            d = o.st.facts.decide(cond_of(o.val))
            want = case == 'self'
            r.check(d is want, 'return', 'returns %s, must be %s for %s' % (show(o.val), 'nonzero' if want else '0', r.R.label()), o, o.val.unk or bool(o.st.facts.opaque))
        res.append(r.R)
    return res


def ob_set_immutable(prog, opts=None):
    r = Run(prog, 'renf_set_immutable', 'any flag', opts=opts)
    nf = r.reg('nf', lazy=True)
    F = mk_field(r.A, r.st, 'nf', 'G')
    v = atom('flag', 'M32')
    old = r.st.reg('nf')[Lay.immutable].val
    for o in r.go([nf, v]):
        im = o.st.reg('nf').get(Lay.immutable)
        f = o.st.facts
        same = im is not None and f._fpc(cond_of(im.val)) == f._fpc(cond_of(v)) or (im is not None and f.decide(cond_of(im.val)) is not None and f.decide(cond_of(im.val)) == f.decide(cond_of(v)))
        r.check(same, 'immutable-flag', 'flag stored is %s' % (show(im.val) if im else '?'), o, im is None or im.val.unk)
        c1, c2 = cond_of(o.val), cond_of(old)
        same = f._fpc(c1) == f._fpc(c2) or (f.decide(c1) is not None and f.decide(c1) == f.decide(c2))
        r.check(same, 'return', 'returns %s instead of the previous flag' % show(o.val), o, o.val.unk)
        r.encloses(o, ptr('nf', Lay.nfemb), F.alpha, 'embedding')
    return r.R


def ob_degree(prog, opts=None):
    r = Run(prog, 'renf_degree', 'any field', opts=opts)
    nf = r.reg('nf', lazy=True)
    F = mk_field(r.A, r.st, 'nf', 'G')
    for o in r.go([nf]):
        f = o.st.facts
        P = mk('fieldpol', F.alpha, 'G')
        r.check(f.equal(sval(o.val), add(mk('plen', P), I(-1))), 'return', 'returns %s instead of the degree' % show(o.val), o, o.val.unk)
    return r.R


def ob_unique(prog, opts=None):
    """nonzero answer => a certificate that exactly one root lies in the ball"""
    r = Run(prog, 'fmpq_poly_check_unique_real_root', 'nonzero answer', opts=dict(opts or {}, ends=True, evop='evnum', fork_sgn=True, cap=2000))
    A, st = r.A, r.st
    pol, a = r.reg('pol'), r.reg('a')
    P = atom('P', 'PQ')
    B = sball('a', atom('x', 'R'))
    r.put('pol', 0, Cell('qpoly', P))
    r.put('a', 0, Cell('arb', B))

    def scale(A, st, args, inst):
        v = A.read_vec(st, args[0])
        l, h = flint.rq(A, st, args[2]), flint.rq(A, st, args[3])
        A.write_vec(st, args[0], mk('scaled01', v, l, h))
        return flint.ret(st)

    def nroots(A, st, args, inst):
        v = A.read(st, 'zpoly', args[0])
        return flint.ret(st, tomach(mk('nroots01', v), 64))
    A.specs['_fmpz_poly_scale_0_1_fmpq'] = scale
    A.specs['fmpz_poly_num_real_roots_0_1'] = nroots
    ev = {'evals': []}

    def evalv(A, st, args, inst):
        Q = A.read_vec(st, args[1])
        x = A.read(st, 'arb', args[3])
        n = sval(A.simp(st, args[2]))
        okl = st.facts.equal(n, mk('plen', Q))
        e = encl(x)
        en = mk('evnum', Q, e) if okl and e is not None else mk('evpart', Q, n, x)
        A.write(st, 'arb', args[0], ball('evalv', en, Q, x, I(1 if okl else 0), args[4]))
        return flint.ret(st)
    A.specs['_fmpz_poly_evaluate_arb'] = evalv
    lo, hi = mk('lo', B), mk('hi', B)
    for o in r.go([pol, a, atom('prec', 'M64')]):
        f = o.st.facts
        r.same(o, 'arb', a, B, 'ball argument')
        r.same(o, 'qpoly', pol, P, 'polynomial argument')
        d = f.decide(cond_of(o.val))
        if d is False:
            r.R.ok += 1
            continue
        s = o.st.copy()
        try:
            if d is None:
                s.facts.assume(cond_of(o.val))
        except Contradiction:
            continue
        f = s.facts
        ok = False
        # (a) length two and the rational root lies in the ball
        root = neg(div(mk('pcoef', P, ZERO), mk('pcoef', P, ONE)))
        if f.decide(cpred('arb_contains_real', B, root)) is True and f.sign(add(mk('plen', P), I(-2))) == {0}:
            ok = True
        # sign change between the ends
        sl, sr = f.sign(mk('evnum', P, lo)), f.sign(mk('evnum', P, hi))
        change = len(sl) == 1 and len(sr) == 1 and 0 not in sl and 0 not in sr and sl != sr
        prod = f.sign(mul(mk('evnum', P, lo), mk('evnum', P, hi))) == {-1}
        change = change or prod
        # (b) sign change and derivative without zero on the ball
        for (p, v) in f.predterms:
            if p.op == 'p:arb_contains_zero' and not v:
                b = p.args[0]
                if b.op == 'ball' and b.args[0] == 'evalv' and b.args[2].op == 'deriv' and f.equal(b.args[2].args[0], P) and b.args[3] is B and b.args[4] is ONE and change:
                    ok = True
        # (c) exact count of the rescaled polynomial
        for Pn in (P, mk('numpoly', P)):
            if f.sign(add(mk('nroots01', mk('scaled01', Pn, lo, hi)), I(-1))) == {0}:
                ok = True
        r.check(ok, 'isolation', 'answers "unique root" without a certificate on this path', o, bool(f.opaque) or o.val.unk)
    return r.R


def ob_cfrac(prog, kind, n, alias, opts=None):
    r = Run(prog, 'renf_elem_get_cfrac', '%s, %d quotients%s' % ({'L': 'degree 1', 'Q': 'degree 2', 'G': 'degree>=3'}[kind], n, ', remainder == element' if alias else ''), opts=dict(opts or {}, unroll=8))
    nf = r.reg('nf', lazy=True)
    F = mk_field(r.A, r.st, 'nf', kind)
    c, rem = r.reg('c', lazy=True), r.reg('rem')
    r.A.regions['c'].array = True
    v = atom('v', 'K')
    if kind == 'L':
        r.st.facts.rational.append(v)
        r.st.facts._clean()
    mk_elem(r.A, r.st, 'rem', F, v if alias else atom('old', 'K'))
    a = rem
    if not alias:
        a = r.reg('a')
        mk_elem(r.A, r.st, 'a', F, v)
    rs = [v]
    for i in range(n):
        rs.append(div(ONE, sub(rs[-1], mk('floor', rs[-1]))))
    for o in r.go([c, rem, a, mconst(n, 64), nf]):
        f = o.st.facts
        m = sval(o.val)
        r.check(isint(m) and 0 <= m.args[0] <= n, 'return', 'returns %s for at most %d partial quotients' % (show(m), n), o, m.unk)
        if not isint(m) or not 0 <= m.args[0] <= n:
            continue
        m = m.args[0]
        for i in range(m):
            k = o.st.reg('c').get(8 * i)
            g = k.val if k is not None and k.kind == 'fmpz' else None
            r.check(g is not None and f.equal(g, mk('floor', rs[i])), 'value', 'partial quotient %d is %s, must be %s' % (i, show(g) if g is not None else 'not set', show(mk('floor', rs[i]))), o, g is None and n > 0 and k is not None or (g is not None and g.unk))
        for i in range(m - 1):
            r.check(0 not in f.sign(sub(rs[i], mk('floor', rs[i]))), 'value', 'continues after partial quotient %d although nothing may remain' % i, o, bool(f.opaque))
        x = r.A.read(o.st, 'nfe', ptr_add(rem, I(Lay.elem)), F)
        if m == 0:
            r.check(n == 0 or f.sign(v) == {0}, 'return', 'returns no partial quotient of a nonzero element', o, bool(f.opaque))
            r.check(f.equal(x, v), 'value', 'the remainder is %s, must be the element' % show(x), o, x.unk)
        else:
            fr = sub(rs[m - 1], mk('floor', rs[m - 1]))
            s = f.sign(fr)
            if s == {0}:
                r.check(f.sign(x) == {0}, 'value', 'the remainder is %s after a terminated expansion' % show(x), o, x.unk)
            else:
                r.check(m == n, 'return', 'stops after %d of %d partial quotients although the expansion continues' % (m, n), o, bool(f.opaque))
                r.check(0 not in s and f.equal(x, rs[m]), 'value', 'the remainder is %s, must be %s' % (show(x), show(rs[m])), o, x.unk)
        if not alias:
            r.check(f.equal(r.A.read(o.st, 'nfe', ptr_add(a, I(Lay.elem)), F), v), 'operand-changed', 'the element changed', o)
    return r.R


def all_special(prog, opts=None, guard=None):
    """list of results; guard(f, name) protects each obligation from analysis failures"""
    out = []

    def g(f, name, *a):
        r = guard(lambda: f(prog, *a, opts=opts), name) if guard else f(prog, *a, opts=opts)
        out.extend(r if isinstance(r, list) else [r])
    g(ob_eval_vec, '_fmpz_poly_evaluate_arb')
    for n, k in (('fmpz_poly_evaluate_arb', 'zpoly'), ('fmpq_poly_evaluate_arb', 'qpoly')):
        for al in (0, 1):
            g(ob_eval_poly, n, n, k, al)
    for n, w in (('_fmpz_poly_newton_step_arb', False), ('fmpz_poly_newton_step_arb', True)):
        g(ob_newton, n, n, w)
    for n, w in (('_fmpz_poly_bisection_step_arb', False), ('fmpz_poly_bisection_step_arb', True)):
        g(ob_bisect, n, n, w)
    for sl in (1, -1):
        g(ob_bisect_arf, '_fmpz_poly_bisection_step_arf', sl)
    for k in 'QG':
        g(ob_refine, 'renf_refine_embedding', k)
    g(ob_refine_frozen, 'renf_refine_embedding', 'G')
    g(ob_init, 'renf_init')
    for k in 'LQG':
        g(ob_init_set, 'renf_init_set', k)
    g(ob_nth_root, 'renf_init_nth_root_fmpq')
    g(ob_set_embeddings, 'renf_set_embeddings_fmpz_poly')
    for ni, lim in ((0, 2), (1, 3), (2, 2), (3, 2), (2, 0)):
        g(ob_embeddings_count, 'renf_set_embeddings_fmpz_poly', ni, lim)
    g(ob_equal, 'renf_equal')
    g(ob_set_immutable, 'renf_set_immutable')
    g(ob_degree, 'renf_degree')
    g(ob_unique, 'fmpq_poly_check_unique_real_root')
    return out

"""Contracts of the C API (from the public headers' documentation).

One table serves two purposes: as the summary used at call sites (assume) and
as the obligation checked on the function's own code (guarantee).
"""
from .terms import *
from .state import *
from .state import _o
from .interp import Outcome
from . import flint
from .flint import ret, rq, wq, sig, pred

# ---- layout of the library's structs, filled from debug/LLVM types
class Lay:
    elem = 0        # renf_elem.elem
    emb = 32        # renf_elem.emb
    nf = 0          # renf.nf
    der = 112
    prec = 136
    nfemb = 144
    immutable = 192
    flag = 104
    pol = 0
    size = 200


def set_layout(mod):
    from .ir import Ty
    L = mod.layout
    def off(s, i):
        return L.field_off(Ty('named', s), i)[0]
    def have(s):
        return s in mod.types
    for n in ('struct.renf_elem', '%struct.renf_elem'):
        if n in mod.types:
            Lay.elem, Lay.emb = off(n, 0), off(n, 1)
    for n in ('struct.renf', '%struct.renf'):
        if n in mod.types:
            Lay.nf, Lay.der, Lay.prec, Lay.nfemb, Lay.immutable = (off(n, i) for i in range(5))
            Lay.size = L.size(Ty('named', n))
    for n in ('struct.nf_struct', '%struct.nf_struct'):
        if n in mod.types:
            t = mod.types[n]
            Lay.flag = off(n, len(t.a) - 1)


def fld_at(st, p):
    """field object for a renf pointer"""
    return st.A.field_at(ptr_add(p, I(Lay.nf)))


def el(p):
    return ptr_add(p, I(Lay.elem))


def emb(p):
    return ptr_add(p, I(Lay.emb))


def fresh_ball(A, e):
    return ball('some', e, atom(A.fresh('~b'), 'ball'))


def wr_elem(A, st, p, v, F, init=False):
    A.write(st, 'nfe', el(p), v, F, init=init)
    A.write(st, 'arb', emb(p), fresh_ball(A, v), init=init)


def rd_elem(A, st, p, F):
    v = A.read(st, 'nfe', el(p), F)
    A.read(st, 'arb', emb(p))
    return v


def touch(A, st, p, v):
    """the enclosure of an inspected element may be tightened"""
    A.write(st, 'arb', emb(p), fresh_ball(A, v))


def refresh_field(A, st, p, F):
    if F is not None:
        st.note('refine', F.name)
        b = fresh_ball(A, F.alpha)
        A.refined.add(b.id)
        A.write(st, 'arb', ptr_add(p, I(Lay.nfemb)), b)


class C:
    """contract: params string over
       E out element (initialised), I element being initialised, X element being cleared
       e element read (const), t element read, enclosure may be tightened
       z/q/s/u scalars, Y out fmpz, B out arb, P fmpq_poly, p slong precision, N const field, M field that may be refined, r rounding mode
       '.' ignored"""

    def __init__(self, params, val=None, retv=None, rets=None, out=None, pre=None, retd=None, nz=None):
        self.params, self.val, self.retv, self.rets, self.out, self.pre, self.retd, self.nz = params, val, retv, rets, out, pre, retd, nz


def nonzero(i):
    return lambda vals: csign(vals[i], (-1, 1))


S = {}


def c(name, params, **kw):
    S[name] = C(params, **kw)


# construction, assignment
c('renf_elem_init', 'IN', val=lambda v: ZERO)
c('renf_elem_clear', 'XN')
c('renf_elem_zero', 'EN', val=lambda v: ZERO)
c('renf_elem_one', 'EN', val=lambda v: ONE)
c('renf_elem_gen', 'EN', val=lambda v: v['F'].alpha)
c('renf_elem_set', 'EeN', val=lambda v: v[1])
c('renf_elem_set_si', 'EsN', val=lambda v: v[1])
c('renf_elem_set_ui', 'EuN', val=lambda v: v[1])
c('renf_elem_set_fmpz', 'EzN', val=lambda v: v[1])
c('renf_elem_set_fmpq', 'EqN', val=lambda v: v[1])
c('renf_elem_set_mpz', 'EgN', val=lambda v: v[1])
c('renf_elem_set_mpq', 'EhN', val=lambda v: v[1])
c('renf_elem_set_fmpq_poly', 'EPN', val=lambda v: mk('ev', v[1], v['F'].alpha))
c('renf_elem_set_nf_elem', 'EnMp', val=lambda v: v[1])
# arithmetic
c('renf_elem_neg', 'EeN', val=lambda v: neg(v[1]))
c('renf_elem_inv', 'EeN', val=lambda v: div(ONE, v[1]), nz=1)
for op, f in (('add', add), ('sub', sub), ('mul', mul), ('div', div)):
    for s, k in (('', 'e'), ('_si', 's'), ('_ui', 'u'), ('_fmpz', 'z'), ('_fmpq', 'q')):
        c('renf_elem_%s%s' % (op, s), 'Ee%sN' % k, val=(lambda f: lambda v: f(v[1], v[2]))(f), nz=2 if op == 'div' else None)
c('renf_elem_fmpq_sub', 'EqeN', val=lambda v: sub(v[1], v[2]))
c('renf_elem_fmpq_div', 'EqeN', val=lambda v: div(v[1], v[2]), nz=2)
c('renf_elem_pow', 'EeuN', val=lambda v: power(v[1], v[2]))
# predicates
c('renf_elem_is_zero', 'eN', retv=lambda v: csign(v[0], (0,)))
c('renf_elem_is_one', 'eN', retv=lambda v: csign(sub(v[0], ONE), (0,)))
c('renf_elem_is_rational', 'eN', retv=lambda v: cpred('rational', v[0]))
c('renf_elem_is_integer', 'eN', retv=lambda v: cpred('integer', v[0]))
for s, k in (('', 'e'), ('_si', 's'), ('_ui', 'u'), ('_fmpz', 'z'), ('_fmpq', 'q')):
    c('renf_elem_equal' + s, 'e%sN' % k, retv=lambda v: csign(sub(v[0], v[1]), (0,)))
    c('renf_elem_cmp' + s, 't%sM' % ('t' if k == 'e' else k), rets=lambda v: sub(v[0], v[1]))
c('renf_elem_sgn', 'tM', rets=lambda v: v[0])
# conversions
c('renf_elem_floor', 'YtM', out=lambda v: mk('floor', v[1]))
c('renf_elem_ceil', 'YtM', out=lambda v: mk('ceil', v[1]))
c('renf_elem_fdiv', 'YttM', out=lambda v: mk('floor', div(v[1], v[2])), nz=2)
c('renf_elem_get_arb', 'BtMp', out=lambda v: v[1])
c('renf_elem_get_d', 'tMr', retd=lambda v: (v[0], v[2]))
c('renf_elem_set_evaluation', 'TNp', val=lambda v: v[0])


def summary(name):
    ct = S[name]

    def m(A, st, args, inst):
        pr = ct.params
        fi = next(i for i, k in enumerate(pr) if k in 'NM')
        F = fld_at(st, args[fi])
        vals = {'F': F}
        alias = []
        for i, k in enumerate(pr):
            if k in 'et':
                vals[i] = rd_elem(A, st, args[i], F)
                alias.append(args[i])
            elif k == 'T':
                vals[i] = A.read(st, 'nfe', el(args[i]), F)
            elif k == 'n':
                vals[i] = A.read(st, 'nfe', args[i], F)
            elif k == 'z':
                vals[i] = A.read(st, 'fmpz', args[i])
            elif k == 'q':
                vals[i] = rq(A, st, args[i])
            elif k == 's':
                vals[i] = sval(A.simp(st, args[i]))
            elif k == 'u':
                vals[i] = uval(A.simp(st, args[i]))
            elif k == 'g':
                vals[i] = flint.mpz_value(A, st, args[i])
            elif k == 'h':
                vals[i] = flint.rmpq(A, st, args[i])
            elif k == 'P':
                vals[i] = A.read(st, 'qpoly', args[i])
            elif k == 'r':
                vals[i] = sval(A.simp(st, args[i]))
        A.uses.add((name, F.kind if F else '?', alias_pattern(pr, args)))
        if F is None:
            # unknown field: values unknown, typestate still applies
            for i, k in enumerate(pr):
                if k in 'EIT':
                    wr_unknown(A, st, args[i], k == 'I')
                elif k == 'X':
                    A.clear(st, 'nfe', el(args[i]))
                    A.clear(st, 'arb', emb(args[i]))
                elif k == 'Y':
                    A.write(st, 'fmpz', args[i], A.unknown('Z', 'nf'))
                elif k == 'B':
                    A.write(st, 'arb', args[i], A._unk_kind('arb'))
            return ret(st, None if inst.ty.k == 'void' else A._unk_ty(inst.ty))
        if ct.nz is not None:
            d = vals.get(ct.nz)
            if d is not None:
                flint.nonzero(A, st, d)
        if 'M' in pr:
            refresh_field(A, st, args[fi], F)
        for i, k in enumerate(pr):
            if k == 't':
                touch(A, st, args[i], vals[i])
        for i, k in enumerate(pr):
            if k in 'EI':
                wr_elem(A, st, args[i], ct.val(vals), F, init=(k == 'I'))
            elif k == 'T':
                A.write(st, 'arb', emb(args[i]), fresh_ball(A, vals[i]))
            elif k == 'X':
                flint.M['nf_elem_clear'](A, st, [el(args[i]), ptr_add(args[fi], I(Lay.nf))], inst)
                A.clear(st, 'arb', emb(args[i]))
            elif k == 'Y':
                A.write(st, 'fmpz', args[i], ct.out(vals))
            elif k == 'B':
                A.write(st, 'arb', args[i], fresh_ball(A, ct.out(vals)))
        st.note('api', name, tuple(args), tuple(sorted((k, v) for k, v in vals.items() if k != 'F')), F, A.here_repo())
        if ct.retv is not None:
            v = ind(ct.retv(vals))
            return ret(st, mconst(v.args[0], 32) if v.op == 'mi' else mk('zext', v, 32))
        if ct.rets is not None:
            return ret(st, tomach(sgn(ct.rets(vals)), 32))
        if ct.retd is not None:
            x, r = ct.retd(vals)
            return ret(st, mk('dround', x, r))
        return ret(st)
    return m


def wr_unknown(A, st, p, init):
    A.write(st, 'nfe', el(p), A.unknown('K', 'nf'), None, init=init)
    A.write(st, 'arb', emb(p), ball('unk', None, A.unknown('ball', 'b')), init=init)


def alias_pattern(pr, args):
    """which element arguments coincide"""
    els = [i for i, k in enumerate(pr) if k in 'EetIXT']
    cls = {}
    out = []
    for i in els:
        k = args[i].id
        cls.setdefault(k, len(cls))
        out.append(cls[k])
    return tuple(out)


# ---- other repository functions used as summaries
def sp_cond(A, st, args, inst):
    F = fld_at(st, args[2])
    A.read(st, 'nfe', el(args[1]), F)
    A.store(st, flint.I64, A.unknown('M64', 'cond'), args[0])
    return ret(st, A.unknown('M32', 'c'))


def sp_refine(A, st, args, inst):
    F = fld_at(st, args[0])
    st.note('refine-call', sval(A.simp(st, args[1])), A.here_repo())
    if args[0].op == 'ptr' and args[0].args[0] in A.shared_nfs:
        c = st.reg(args[0].args[0]).get(Lay.immutable)
        if c is None or c.val is not atom('immutable_' + args[0].args[0], 'M32'):
            A.event('shared-field', st, 'the field is refined although it may be marked immutable')
    if F is None:
        # some other copy of a field: the ball keeps the root of its polynomial
        p = ptr_add(args[0], I(Lay.nfemb))
        e = isolates(st, A.read(st, 'qpoly', ptr_add(args[0], I(Lay.nf))), A.read(st, 'arb', p))
        A.write(st, 'arb', p, A._unk_kind('arb') if e is None else ball('step', e, atom(A.fresh('~r'), 'ball')))
    else:
        refresh_field(A, st, args[0], F)
    return ret(st)


def sp_check(A, st, args, inst):
    return ret(st)


def sp_eval(kind):
    def m(A, st, args, inst):
        P = A.read(st, kind, args[1])
        x = A.read(st, 'arb', args[2])
        e = encl(x)
        en = mk('ev', P, e) if e is not None else None
        A.write(st, 'arb', args[0], ball('polyeval', en, P, x, args[3]))
        return ret(st)
    return m


def sp_eval_vec(A, st, args, inst):
    # void _fmpz_poly_evaluate_arb(arb_t res, const fmpz * pol, slong len, const arb_t a, slong prec)
    P = A.read_vec(st, args[1])
    x = A.read(st, 'arb', args[3])
    e = encl(x)
    n = sval(A.simp(st, args[2]))
    en = None
    st.note('evalv', P, x)
    if e is not None and st.facts.equal(n, mk('plen', P)):
        en = mul(mk('ev', P, e), mk('pden', P))
        if P.op == 'deriv' and st.facts.is_root(P.args[0], e):
            # f' over a ball containing a root: encloses every difference quotient with that root (mean value theorem)
            en = mk('slope', P.args[0], x)
    elif e is not None:
        en = mk('evpart', P, n, e)
    A.write(st, 'arb', args[0], ball('polyevalv', en, P, x, args[4]))
    return ret(st)


def isolates(st, P, a):
    """the ball a is known to contain the distinguished root of P"""
    e = encl(a)
    if e is None or P is None:
        return None
    return e if st.facts.is_root(P, e) else None


def sp_step(newton):
    def m(A, st, args, inst):
        f = st.facts
        P = A.read_vec(st, args[1])
        j = 3 if newton else 2
        n = sval(A.simp(st, args[j]))
        a = A.read(st, 'arb', args[j + 1])
        e = isolates(st, P, a)
        ok = e is not None and f.equal(n, mk('plen', P))
        if newton:
            d = A.read_vec(st, args[2])
            ok = ok and f.equal(d, mk('deriv', P))
        if not hasattr(A, 'rsteps'):
            A.rsteps = []
        A.rsteps.append(('newton' if newton else 'bisection', P, ok, A.here_repo(), P.unk or n.unk or a.unk or (newton and d.unk) or (e is None and encl(a) is None and a.unk), []))
        st.note('step', 'newton' if newton else 'bisection', P, ok, A.here_repo(), sval(A.simp(st, args[j + 2])))
        s0 = st.copy()
        A.write(s0, 'arb', args[0], ball('failed-step', mk('failedstep', atom(A.fresh('~s'), 'ball')), atom(A.fresh('~s'), 'ball')))
        s0.note('step-result', 0)
        s0.trace = (A.here()[0], ('newton' if newton else 'bisection') + ' step succeeds', False, s0.trace)
        tm = atom(A.fresh('~s'), 'ball')
        st.trace = (A.here()[0], ('newton' if newton else 'bisection') + ' step succeeds', True, st.trace)
        A.write(st, 'arb', args[0], ball('step', e if ok else mk('badstep', P, n, tm), tm))
        st.note('step-result', 1)
        return [Outcome(st, 'ret', mconst(1, 32)), Outcome(s0, 'ret', mconst(0, 32))]
    return m


def sp_cond_poly(A, st, args, inst):
    A.store(st, flint.I64, atom(A.fresh('~cond'), 'M64'), args[0])
    if len(args) >= 4:
        A.read_vec(st, args[1])
    return ret(st, atom(A.fresh('~c'), 'M32'))


def sp_unique(A, st, args, inst):
    P = A.read(st, 'qpoly', args[0])
    a = A.read(st, 'arb', args[1])
    c_ = cpred('uniqueroot', P, a)
    return ret(st, mk('zext', ind(c_), 32))


def base_specs():
    d = {n: summary(n) for n in S}
    d['renf_elem_relative_condition_number_2exp'] = sp_cond
    d['renf_refine_embedding'] = sp_refine
    d['renf_elem_check_embedding'] = sp_check
    d['fmpq_poly_evaluate_arb'] = sp_eval('qpoly')
    d['fmpz_poly_evaluate_arb'] = sp_eval('zpoly')
    d['_fmpz_poly_evaluate_arb'] = sp_eval_vec
    d['_fmpz_poly_newton_step_arb'] = sp_step(True)
    d['_fmpz_poly_bisection_step_arb'] = sp_step(False)
    d['_fmpz_poly_relative_condition_number_2exp'] = sp_cond_poly
    d['fmpq_poly_check_unique_real_root'] = sp_unique
    return d

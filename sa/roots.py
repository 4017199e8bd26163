"""Obligations: run the abstract interpreter on one API function for one field kind and one aliasing
configuration and compare every normal exit with the contract."""
import itertools
from .terms import *
from .state import *
from .state import _o
from .interp import Interp, Outcome, Budget, trace_list
from . import flint, specs
from .specs import Lay, S


def mk_field(A, st, region, kind, name=None, off=0):
    al = atom('alpha_' + (name or region), 'K')
    F = Field(name or region, kind, al, (region, off + Lay.nf))
    A.fields[(region, off + Lay.nf)] = F
    m = st.wreg(region)
    P = mk('fieldpol', al, kind)
    flag = {'L': 2, 'Q': 4, 'G': 0}[kind]
    m[off + Lay.nf] = Cell('qpoly', P)
    # MONIC and GAUSSIAN bits stay unknown
    m[off + Lay.nf + Lay.flag] = Cell('int', mk('bits', (1 << 64) - 1 - 1 - (8 if kind == 'Q' else 0), flag, name or region), None, 8)
    m[off + Lay.der] = Cell('zpoly', mk('deriv', P))
    m[off + Lay.prec] = Cell('int', atom('prec_' + region, 'M64'), None, 8)
    m[off + Lay.nfemb] = Cell('arb', ball('some', al, atom('emb0_' + region, 'ball')))
    m[off + Lay.immutable] = Cell('int', atom('immutable_' + region, 'M32'), None, 4)
    if kind == 'L':
        st.facts.rational.append(al)
    else:
        st.facts.irrational.append(al)
    return F


def mk_elem(A, st, region, F, val, off=0):
    m = st.wreg(region)
    m[off + Lay.elem] = Cell('nfe', val, fld=F)
    m[off + Lay.emb] = Cell('arb', ball('some', val, atom('emb_' + region + str(off), 'ball')))


def partitions(n, fixed=()):
    """set partitions of range(n) as class tuples"""
    out = []

    def rec(i, cur, mx):
        if i == n:
            out.append(tuple(cur))
            return
        for c in range(mx + 1):
            rec(i + 1, cur + [c], max(mx, c + 1))
    rec(0, [], 0)
    return out


class Result:
    def __init__(self, name, kind, alias):
        self.name, self.kind, self.alias = name, kind, alias
        self.viol = []       # (rule, message, location, trace)
        self.undecided = []
        self.ok = 0
        self.exits = 0
        self.uses = set()
        self.events = []
        self.stats = None
        self.func = None

    def label(self):
        return '%s[%s,%s]' % (self.name, {'L': 'degree 1', 'Q': 'degree 2', 'G': 'degree>=3'}.get(self.kind, self.kind), ''.join(map(str, self.alias)))


RND = {0: 'DOWN', 1: 'UP', 2: 'FLOOR', 3: 'CEIL', 4: 'NEAR'}


def run_contract(prog, name, kind, alias, opts=None, rnd=None, inline=()):
    """analyse one repository function against its contract"""
    ct = S[name]
    func = prog.defs.get(name)
    R = Result(name, kind, alias)
    if func is None:
        R.undecided.append(('missing', 'function %s is not defined' % name, '', []))
        R.missing = True
        return R
    func.parse()
    sp = specs.base_specs()
    for n in inline:
        sp.pop(n, None)
    if name not in ('renf_elem_overflows_d',):
        # recursive calls of the function itself use its contract
        pass
    A = Interp(prog, flint.M, sp, dict(opts or {}))
    st = State(A)
    args = []
    vals = {}
    pr = ct.params
    A.region('nf', 'param', lazy=True, info='nf')
    F = mk_field(A, st, 'nf', kind)
    vals['F'] = F
    els = [i for i, k in enumerate(pr) if k in 'EetIXT']
    cls = dict(zip(els, alias))
    pn = [p for p in getattr(func, 'argnames', [])] or None
    reg_of = {}
    A.region('x', 'param')
    val_of = {}
    for i, k in enumerate(pr):
        if k in 'EetXTI':
            rn = 'el%d' % cls[i]
            if rn not in reg_of:
                reg_of[rn] = True
                A.region(rn, 'param', lazy=False, info=rn)
                if k != 'I':
                    v = atom('v%d' % cls[i], 'K')
                    mk_elem(A, st, rn, F, v)
                    val_of[rn] = v
                    if kind == 'L':
                        st.facts.rational.append(v)
            args.append(ptr(rn))
            vals[i] = val_of.get(rn)
        elif k in 'NM':
            args.append(ptr('nf'))
        elif k == 'z':
            A.region('z%d' % i, 'param')
            v = atom('z%d' % i, 'Z')
            st.wreg('z%d' % i)[0] = Cell('fmpz', v)
            args.append(ptr('z%d' % i))
            vals[i] = v
        elif k == 'q':
            A.region('q%d' % i, 'param')
            v = atom('q%d' % i, 'Q')
            st.wreg('q%d' % i)[0] = Cell('fmpz', num(v))
            st.wreg('q%d' % i)[8] = Cell('fmpz', den(v))
            args.append(ptr('q%d' % i))
            vals[i] = v
        elif k == 's':
            t = atom('s%d' % i, 'M64')
            args.append(t)
            vals[i] = sval(t)
        elif k == 'u':
            t = atom('u%d' % i, 'M64')
            args.append(t)
            vals[i] = uval(t)
        elif k == 'p':
            args.append(atom('p%d' % i, 'M64'))
        elif k == 'r':
            args.append(mconst(rnd, 32))
            vals[i] = I(rnd)
        elif k == 'g':
            A.region('g%d' % i, 'param', lazy=True)
            args.append(ptr('g%d' % i))
            vals[i] = flint.mpz_value(A, st, args[-1])
        elif k == 'h':
            A.region('h%d' % i, 'param', lazy=True)
            args.append(ptr('h%d' % i))
            v = atom('h%d' % i, 'Q')
            st.wreg('h%d' % i)[0] = Cell('mpz', num(v))
            st.wreg('h%d' % i)[16] = Cell('mpz', den(v))
            vals[i] = v
        elif k == 'P':
            A.region('P%d' % i, 'param')
            v = atom('P%d' % i, 'PQ')
            st.wreg('P%d' % i)[0] = Cell('qpoly', v)
            args.append(ptr('P%d' % i))
            vals[i] = v
        elif k == 'n':
            A.region('n%d' % i, 'param')
            v = atom('n%d' % i, 'K')
            st.wreg('n%d' % i)[0] = Cell('nfe', v, fld=F)
            if kind == 'L':
                st.facts.rational.append(v)
            args.append(ptr('n%d' % i))
            vals[i] = v
        elif k == 'Y':
            A.region('Y%d' % i, 'param')
            st.wreg('Y%d' % i)[0] = Cell('fmpz', atom('old%d' % i, 'Z'))
            args.append(ptr('Y%d' % i))
        elif k == 'B':
            A.region('B%d' % i, 'param')
            st.wreg('B%d' % i)[0] = Cell('arb', ball('some', atom('oldB', 'R'), atom('oldB', 'ball')))
            args.append(ptr('B%d' % i))
        else:
            raise ValueError(k)
    if ct.nz is not None:
        st.facts.assume(csign(vals[ct.nz], (-1, 1)))
    A.root = name
    watch_shared(A, pr, args)
    try:
        outs = A.run_function(st, func, args)
    except Budget as e:
        R.undecided.append(('budget', str(e), '', []))
        outs = []
    R.stats = A.stats
    R.uses = set(A.uses)
    R.events = list(A.events.values())
    R.func = func
    judge(A, R, ct, pr, args, vals, F, outs, val_of)
    return R


def watch_shared(A, pr, args):
    """a field changes only by a refinement, which an immutable field refuses; elements taken as constant are not written"""
    nfs = {args[i].args[0] for i, k in enumerate(pr) if k in 'NM'}
    ro = {args[i].args[0] for i, k in enumerate(pr) if k in 'e'} - {args[i].args[0] for i, k in enumerate(pr) if k in 'EItTX'}

    def watch(st, kind, p, val):
        if p.op != 'ptr' or p.args[0] not in nfs and p.args[0] not in ro:
            return
        c = st.reg(p.args[0]).get(p.args[1].args[0]) if isint(p.args[1]) else None
        if c is not None and c.val is val:
            return
        if p.args[0] in ro:
            A.event('shared-operand', st, 'an element that the function only reads is written to')
        elif val.id not in A.refined:
            A.event('shared-field', st, 'the field is written to without a refinement')
    A.watch = watch
    A.shared_nfs = nfs


def judge(A, R, ct, pr, args, vals, F, outs, val_of):
    def bad(rule, msg, o, unk):
        e = (rule, msg, o.loc, trace_list(o.st))
        unk = unk or any(c.op == 'unkcall' for c in o.st.facts.opaque)
        (R.undecided if unk else R.viol).append(e)

    for o in outs:
        if o.kind == 'abort':
            continue
        R.exits += 1
        if o.kind == 'throw':
            bad('throw', 'C function exits by exception', o, False)
            continue
        st = o.st
        f = st.facts
        op = bool(f.opaque)
        # elements
        writes = {}
        for i, k in enumerate(pr):
            if k in 'EI':
                writes[args[i].args[0]] = ct.val(vals)
        for i, k in enumerate(pr):
            if k in 'EetTI':
                rn = args[i].args[0]
                expect = writes.get(rn, val_of.get(rn))
                A.malformed = None
                got = A.read(st, 'nfe', ptr(rn, Lay.elem), F)
                if f.equal(got, expect) and A.malformed:
                    bad('value' if rn in writes else 'operand-changed', A.malformed, o, got.unk or op)
                elif f.equal(got, expect):
                    R.ok += 1
                else:
                    bad('value' if rn in writes else 'operand-changed', '%s: exact value is %s, contract requires %s' % (rn, show(got), show(expect)), o, got.unk or op)
                b = A.read(st, 'arb', ptr(rn, Lay.emb))
                e = encl(b)
                if e is not None and f.encloses(e, expect):
                    R.ok += 1
                else:
                    bad('enclosure', '%s: enclosure holds %s but the exact value is %s' % (rn, show(e) if e is not None else 'nothing provable (%s)' % b.args[0], show(expect)), o, b.unk or op or got.unk)
            elif k == 'Y':
                got = A.read(st, 'fmpz', args[i])
                exp = ct.out(vals)
                if f.equal(got, exp):
                    R.ok += 1
                else:
                    bad('result', 'integer result is %s, contract requires %s' % (show(got), show(exp)), o, got.unk or op)
            elif k == 'B':
                b = A.read(st, 'arb', args[i])
                e = encl(b)
                exp = ct.out(vals)
                if e is not None and f.encloses(e, exp):
                    R.ok += 1
                else:
                    bad('enclosure', 'ball result holds %s but must enclose %s' % (show(e) if e is not None else 'nothing provable', show(exp)), o, b.unk or op)
            elif k in 'NM':
                # field data
                r = args[i].args[0]
                P = A.read(st, 'qpoly', ptr(r, Lay.nf + Lay.pol))
                if not f.equal(P, mk('fieldpol', F.alpha, F.kind)):
                    bad('field', 'defining polynomial changed to %s' % show(P), o, P.unk)
                else:
                    R.ok += 1
                b = A.read(st, 'arb', ptr(r, Lay.nfemb))
                e = encl(b)
                if e is not None and f.encloses(e, F.alpha):
                    R.ok += 1
                else:
                    bad('field', 'embedding of the generator no longer certified', o, b.unk)
                for off, nm, t in ((Lay.prec, 'precision', atom('prec_' + r, 'M64')), (Lay.immutable, 'mark as immutable', atom('immutable_' + r, 'M32'))):
                    c = st.reg(r).get(off)
                    if c is not None and c.val is t:
                        R.ok += 1
                    else:
                        bad('shared-field', 'the %s of the field is overwritten' % nm, o, c is None)
            elif k in 'z':
                got = A.read(st, 'fmpz', args[i])
                if f.equal(got, vals[i]):
                    R.ok += 1
                else:
                    bad('operand-changed', 'integer operand changed to %s' % show(got), o, got.unk)
            elif k in 'q':
                got = rqv(A, st, args[i])
                if f.equal(got, vals[i]):
                    R.ok += 1
                else:
                    bad('operand-changed', 'rational operand changed to %s' % show(got), o, got.unk)
        if ct.retv is not None:
            exp = ct.retv(vals)
            got = cond_of(o.val)
            d, g = f.decide(exp), f.decide(got)
            ok = (d is not None and d == g) or (d is None and g is None and f._fpc(exp) == f._fpc(got))
            if ok:
                R.ok += 1
            else:
                bad('return', 'returns %s, contract requires %s' % (show(o.val), show(exp)), o, o.val.unk or op)
        if ct.rets is not None:
            x = ct.rets(vals)
            g = sval(o.val)
            if f.equal(sgn(g), sgn(x)):
                R.ok += 1
            else:
                bad('return', 'returns sign of %s, contract requires sign of %s' % (show(g), show(x)), o, o.val.unk or op)
        if ct.retd is not None:
            x, r = ct.retd(vals)
            if f.double_ok(o.val, x, r):
                R.ok += 1
            else:
                bad('return', 'returns %s, contract requires %s rounded %s' % (show(o.val), show(x), RND.get(r.args[0])), o, o.val.unk or op)


def rqv(A, st, p):
    return flint.rq(A, st, p)

"""Effect models of the FLINT / Arb / libc functions that the library calls.

Each model states what the function's documentation guarantees: which objects
it reads, which it initialises, overwrites or releases, the value written (as a
term), for ball arithmetic the exact real number that the result is guaranteed
to enclose, and the meaning of its return value.
"""
import re
from .terms import *
from .state import *
from .state import _o
from .interp import Outcome
from . import text

M = {}


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


def ret(st, v=None):
    return [Outcome(st, 'ret', v)]


# ------------------------------------------------------------------ accessors
def rq(A, st, p):
    n = A.read(st, 'fmpz', p)
    d = A.read(st, 'fmpz', ptr_add(p, I(8)))
    return div(n, d)


def wq(A, st, p, v, init=False):
    A.write(st, 'fmpz', p, num(v), init=init)
    A.write(st, 'fmpz', ptr_add(p, I(8)), den(v), init=init)


def field(A, st, p):
    return st.note_field_of(p)


def R(A, st, k, v, fld=None):
    """read argument value v according to spec letter"""
    if k == 'z':
        return A.read(st, 'fmpz', v)
    if k == 'q':
        return rq(A, st, v)
    if k == 's':
        return sval(A.simp(st, v))
    if k == 'u':
        return uval(A.simp(st, v))
    if k == 'f':
        return A.read(st, 'arf', v)
    if k == 'm':
        return A.read(st, 'mag', v)
    if k == 'b':
        return A.read(st, 'arb', v)
    if k == 'e':
        return A.read(st, 'nfe', v, fld)
    if k == 'P':
        return A.read(st, 'qpoly', v)
    if k == 'Z':
        return A.read(st, 'zpoly', v)
    if k == 'v':
        return A.read_vec(st, v)
    if k == 'd':
        return v
    if k == 'n':           # precision or rounding mode: opaque machine value
        return v
    raise ValueError(k)


KIND = {'z': 'fmpz', 'f': 'arf', 'm': 'mag', 'b': 'arb', 'e': 'nfe', 'P': 'qpoly', 'Z': 'zpoly'}


def W(A, st, k, p, val, fld=None, init=False):
    if k == 'q':
        wq(A, st, p, val, init)
    elif k == 'v':
        A.write_vec(st, p, val)
    else:
        A.write(st, KIND[k], p, val, fld, init)


def nonzero(A, st, v, what='divisor'):
    """FLINT aborts on a division by zero"""
    if not isinstance(v, T):
        return
    if 0 not in st.facts.sign(v):
        return
    s = st.copy()
    try:
        s.facts.assume(csign(v, (0,)))
    except Contradiction:
        return
    A.event('div-zero', s, 'divides by %s, which may be zero' % show(v))
    try:
        st.facts.assume(csign(v, (-1, 1)))
    except Contradiction:
        pass


def sig(spec, f, init=False, nz=False):
    """spec 'o=ab' : first argument written with kind o, others read; f(values)->term"""
    o, ins = spec.split('=')

    def m(A, st, args, inst):
        fld = None
        vals = []
        for j, k in enumerate(ins):
            if k == 'N':
                fld = field(A, st, args[1 + j])
        for j, k in enumerate(ins):
            if k == 'N':
                vals.append(fld)
            elif k == '.':
                vals.append(None)
            else:
                vals.append(R(A, st, k, args[1 + j], fld))
        if nz:
            nonzero(A, st, [v for v, k in zip(vals, ins) if k not in 'N.'][-1])
        W(A, st, o, args[0], f(*vals), fld, init)
        return ret(st)
    return m


def pred(ins, f, w=32):
    """f(values) -> condition"""
    def m(A, st, args, inst):
        fld = None
        for j, k in enumerate(ins):
            if k == 'N':
                fld = field(A, st, args[j])
        vals = [fld if k == 'N' else None if k == '.' else R(A, st, k, args[j], fld) for j, k in enumerate(ins)]
        c = f(*vals)
        v = ind(c)
        return ret(st, mconst(v.args[0], w) if v.op == 'mi' else mk('zext', v, w))
    return m


def func(ins, f, w=32):
    """f(values) -> integer valued term"""
    def m(A, st, args, inst):
        fld = None
        for j, k in enumerate(ins):
            if k == 'N':
                fld = field(A, st, args[j])
        vals = [fld if k == 'N' else None if k == '.' else R(A, st, k, args[j], fld) for j, k in enumerate(ins)]
        ww = inst.ty.n if inst.ty.k == 'int' else w
        v = f(*vals)
        if A.opts.get('fork_sgn') and v.op == 'sgn':
            return forksgn(st, v.args[0], ww)
        return ret(st, tomach(v, ww))
    return m


def forksgn(st, t, w):
    """one outcome per possible sign"""
    ss = sorted(st.facts.sign(t))
    out = []
    for k in ss:
        s2 = st.copy() if len(ss) > 1 else st
        if len(ss) > 1:
            try:
                s2.facts.assume(csign(t, (k,)))
            except Contradiction:
                continue
        out.append(Outcome(s2, 'ret', mconst(k, w)))
    return out


def pure(A, st, args, inst):
    return ret(st, None if inst.ty.k == 'void' else A._unk_ty(inst.ty))


def noreturn(A, st, args, inst):
    k = 'abort' if not st.facts.opaque else 'unsure:abort'
    A.event(k, st, 'the program is stopped although the arguments are valid')
    return [Outcome(st, 'abort', None)]


for n in ('abort', '__assert_fail', 'exit', 'flint_abort', 'flint_throw', '_Exit', '__cxa_pure_virtual', '_ZSt9terminatev', '__clang_call_terminate'):
    M[n] = noreturn
for n in ('fprintf', 'printf', 'fputs', 'puts', 'putchar', 'fputc', 'flint_printf', 'flint_fprintf', 'arb_print', 'arb_fprint', 'arb_printd',
          'fmpq_poly_print_pretty', 'fmpz_print', 'fmpz_poly_print_pretty', 'fmpz_poly_print', 'fmpq_print', 'arb_printn', '__ctype_b_loc', '__errno_location',
          'llvm.dbg.value', 'llvm.dbg.declare', 'llvm.lifetime.start.p0', 'llvm.lifetime.end.p0', 'llvm.assume', 'llvm.donothing',
          'llvm.dbg.assign', 'strncmp', 'strcmp', 'fflush', 'strchr', 'isspace', 'isdigit', 'n_randint', 'fmpz_sizeinbase', 'llvm.experimental.noalias.scope.decl'):
    M[n] = pure


# ------------------------------------------------------------------ fmpz
def o1(f):
    return f


for k, (nm, kind, zero) in {
        'z': ('fmpz', 'fmpz', ZERO), 'f': ('arf', 'arf', ZERO), 'm': ('mag', 'mag', MAG0)}.items():
    def mkk(kind=kind, zero=zero):
        def init(A, st, args, inst):
            A.write(st, kind, args[0], zero, init=True)
            return ret(st)

        def clear(A, st, args, inst):
            A.clear(st, kind, args[0])
            return ret(st)

        def swap(A, st, args, inst):
            swap_cells(A, st, kind, args[0], args[1])
            return ret(st)
        return init, clear, swap
    M[nm + '_init'], M[nm + '_clear'], M[nm + '_swap'] = mkk()


def swap_cells(A, st, kind, p, q, fld=None):
    """exchange two objects: values and ownership move together"""
    a = A.read(st, kind, p, fld) if fld else A.read(st, kind, p)
    b = A.read(st, kind, q, fld) if fld else A.read(st, kind, q)
    if p.op != 'ptr' or q.op != 'ptr' or p is q:
        return
    st.note('write', kind, p, b)
    st.note('write', kind, q, a)
    if A.watch is not None:
        A.watch(st, kind, p, b)
        A.watch(st, kind, q, a)
    k1, k2 = off_key(p.args[1]), off_key(q.args[1])
    if p.args[0].startswith('co:') or q.args[0].startswith('co:'):
        A.write(st, kind, p, b)
        A.write(st, kind, q, a)
        return
    # assemble split representations first so that the whole object moves
    for r, k, v in ((p.args[0], k1, a), (q.args[0], k2, b)):
        c = st.reg(r).get(k)
        if c is None or c.kind != kind:
            if kind == 'fmpz' and c is None:
                kk, cc = st.covering(r, k)
                if cc is not None and cc.kind == 'nfe':
                    st.explode(r, kk)
                    continue
                if cc is not None:
                    A.write(st, kind, p, b)
                    A.write(st, kind, q, a)
                    return
            m = st.wreg(r)
            rid = c.rid if c is not None else None
            if kind == 'arb':
                m.pop(_o(k, 32), None)
            m[k] = Cell(kind, v, rid)
    m1 = st.wreg(p.args[0])
    c1, c2 = m1.get(k1), st.reg(q.args[0]).get(k2)
    if c1 is None or c2 is None:
        return
    m1[k1] = Cell(kind, c2.val, c2.rid, fld=c2.fld)
    m2 = st.wreg(q.args[0])
    m2[k2] = Cell(kind, c1.val, c1.rid, fld=c1.fld)


def absv(x):
    return mk('abs', x) if not isint(x) else I(abs(x.args[0]))


def truncd(d):
    if d.op == 'fneg':
        return neg(truncd(d.args[0]))
    if d.op == 'fconst':
        t = str(d.args[0])
        if t.startswith('-'):
            return neg(mk('trunc_d', mk('fconst', t[1:])))
        if re.fullmatch(r'0x[89A-Fa-f][0-9A-Fa-f]{15}', t):
            return neg(mk('trunc_d', mk('fconst', '0x%016X' % (int(t, 16) - (1 << 63)))))
    return mk('trunc_d', d)


def floordiv(a, b):
    return mk('floor', div(a, b))


def ceildiv(a, b):
    return mk('ceil', div(a, b))


Zf = {
    'fmpz_set': ('z=z', lambda a: a), 'fmpz_set_si': ('z=s', lambda a: a), 'fmpz_set_ui': ('z=u', lambda a: a),
    'fmpz_zero': ('z=', lambda: ZERO), 'fmpz_one': ('z=', lambda: ONE),
    'fmpz_neg': ('z=z', neg), 'fmpz_abs': ('z=z', absv),
    'fmpz_add': ('z=zz', add), 'fmpz_sub': ('z=zz', sub), 'fmpz_mul': ('z=zz', mul),
    'fmpz_add_si': ('z=zs', add), 'fmpz_sub_si': ('z=zs', sub), 'fmpz_mul_si': ('z=zs', mul),
    'fmpz_add_ui': ('z=zu', add), 'fmpz_sub_ui': ('z=zu', sub), 'fmpz_mul_ui': ('z=zu', mul),
    'fmpz_fdiv_q': ('z=zz', floordiv), 'fmpz_cdiv_q': ('z=zz', ceildiv),
    'fmpz_fdiv_q_si': ('z=zs', floordiv), 'fmpz_cdiv_q_si': ('z=zs', ceildiv),
    'fmpz_fdiv_q_ui': ('z=zu', floordiv), 'fmpz_cdiv_q_ui': ('z=zu', ceildiv),
    'fmpz_tdiv_q': ('z=zz', lambda a, b: mk('tdiv', a, b)),
    'fmpz_fdiv_r': ('z=zz', lambda a, b: mk('fmod', a, b)), 'fmpz_mod': ('z=zz', lambda a, b: mk('fmod', a, b)),
    'fmpz_fdiv_q_2exp': ('z=zu', lambda a, e: floordiv(a, mk('exp2', e))),
    'fmpz_cdiv_q_2exp': ('z=zu', lambda a, e: ceildiv(a, mk('exp2', e))),
    'fmpz_divexact': ('z=zz', div), 'fmpz_divexact_si': ('z=zs', div), 'fmpz_divexact_ui': ('z=zu', div),
    'fmpz_mul_2exp': ('z=zu', lambda a, e: mul(a, mk('exp2', e))),
    'fmpz_pow_ui': ('z=zu', power),
    'fmpz_gcd': ('z=zz', lambda a, b: mk('gcd', a, b)), 'fmpz_lcm': ('z=zz', lambda a, b: mk('lcm', a, b)),
    'fmpz_set_d': ('z=d', lambda d: truncd(d)),
    'fmpq_set': ('q=q', lambda a: a), 'fmpq_zero': ('q=', lambda: ZERO), 'fmpq_one': ('q=', lambda: ONE),
    'fmpq_set_fmpz_frac': ('q=zz', div), 'fmpq_set_fmpz': ('q=z', lambda a: a),
    'fmpq_set_si': ('q=su', div), 'fmpq_set_ui': ('q=uu', div),
    'fmpq_neg': ('q=q', neg), 'fmpq_abs': ('q=q', absv), 'fmpq_inv': ('q=q', lambda a: div(ONE, a)),
    'fmpq_add': ('q=qq', add), 'fmpq_sub': ('q=qq', sub), 'fmpq_mul': ('q=qq', mul), 'fmpq_div': ('q=qq', div),
    'fmpq_add_fmpz': ('q=qz', add), 'fmpq_sub_fmpz': ('q=qz', sub), 'fmpq_mul_fmpz': ('q=qz', mul), 'fmpq_div_fmpz': ('q=qz', div),
    'fmpq_add_si': ('q=qs', add), 'fmpq_sub_si': ('q=qs', sub), 'fmpq_mul_si': ('q=qs', mul),
    'fmpq_mul_2exp': ('q=qu', lambda a, e: mul(a, mk('exp2', e))), 'fmpq_div_2exp': ('q=qu', lambda a, e: div(a, mk('exp2', e))),
    'fmpq_pow_si': ('q=qs', power),
}
DIVIDES = re.compile(r'(fdiv|cdiv|tdiv|divexact|fmpz_mod$|set_fmpz_frac|_inv$|fmpq_div|nf_elem_div|scalar_div|fmpz_fdiv_r)(?!.*2exp)')
for n, (s, f) in Zf.items():
    M[n] = sig(s, f, nz=bool(DIVIDES.search(n)))


@model('fmpz_init_set')
def _(A, st, args, inst):
    v = A.read(st, 'fmpz', args[1])
    A.write(st, 'fmpz', args[0], v, init=True)
    return ret(st)


@model('fmpz_init_set_si')
def _(A, st, args, inst):
    A.write(st, 'fmpz', args[0], sval(args[1]), init=True)
    return ret(st)


@model('fmpz_init_set_ui')
def _(A, st, args, inst):
    A.write(st, 'fmpz', args[0], uval(args[1]), init=True)
    return ret(st)


@model('fmpz_init2')
def _(A, st, args, inst):
    A.write(st, 'fmpz', args[0], ZERO, init=True)
    return ret(st)


@model('fmpz_addmul')
def _(A, st, args, inst):
    a, b, c = (A.read(st, 'fmpz', x) for x in args[:3])
    A.write(st, 'fmpz', args[0], add(a, mul(b, c)))
    return ret(st)


@model('fmpz_submul')
def _(A, st, args, inst):
    a, b, c = (A.read(st, 'fmpz', x) for x in args[:3])
    A.write(st, 'fmpz', args[0], sub(a, mul(b, c)))
    return ret(st)


def mpz_value(A, st, p):
    return A.read(st, 'mpz', p)


def rmpq(A, st, p):
    return div(A.read(st, 'mpz', p), A.read(st, 'mpz', ptr_add(p, I(16))))


def wmpq(A, st, p, v, init=False):
    A.write(st, 'mpz', p, num(v), init=init)
    A.write(st, 'mpz', ptr_add(p, I(16)), den(v), init=init)


@model('fmpz_init_set_readonly')
def _(A, st, args, inst):
    A.write(st, 'fmpz', args[0], mpz_value(A, st, args[1]), init=True)
    return ret(st)


@model('fmpz_clear_readonly')
def _(A, st, args, inst):
    A.clear(st, 'fmpz', args[0])
    return ret(st)


@model('fmpz_set_mpz')
def _(A, st, args, inst):
    A.write(st, 'fmpz', args[0], mpz_value(A, st, args[1]))
    return ret(st)


@model('fmpq_init_set_readonly')
def _(A, st, args, inst):
    p = args[1]
    q = rmpq(A, st, p)
    wq(A, st, args[0], q, init=True)
    return ret(st)


@model('fmpq_set_mpq')
def _(A, st, args, inst):
    p = args[1]
    q = rmpq(A, st, p)
    wq(A, st, args[0], q)
    return ret(st)


@model('fmpq_init')
def _(A, st, args, inst):
    wq(A, st, args[0], ZERO, init=True)
    return ret(st)


@model('fmpq_clear', 'fmpq_clear_readonly')
def _(A, st, args, inst):
    A.clear(st, 'fmpz', args[0])
    A.clear(st, 'fmpz', ptr_add(args[0], I(8)))
    return ret(st)


@model('fmpq_swap')
def _(A, st, args, inst):
    swap_cells(A, st, 'fmpz', args[0], args[1])
    swap_cells(A, st, 'fmpz', ptr_add(args[0], I(8)), ptr_add(args[1], I(8)))
    return ret(st)


@model('fmpq_canonicalise', )
def _(A, st, args, inst):
    v = rq(A, st, args[0])
    wq(A, st, args[0], v)
    return ret(st)


@model('_fmpq_canonicalise')
def _(A, st, args, inst):
    v = div(A.read(st, 'fmpz', args[0]), A.read(st, 'fmpz', args[1]))
    A.write(st, 'fmpz', args[0], num(v))
    A.write(st, 'fmpz', args[1], den(v))
    return ret(st)


@model('fmpq_numref', )
def _(A, st, args, inst):
    return ret(st, args[0])


@model('fmpz_set_str', 'fmpq_set_str', 'fmpz_set_str')
def _(A, st, args, inst):
    nm = inst.x['callee'].v
    s = cstr(A, st, args[1])
    if nm.startswith('fmpq'):
        q = mk('strq', s)
        wq(A, st, args[0], q)
        st.facts.rational.append(q)
    else:
        q = mk('strz', s)
        A.write(st, 'fmpz', args[0], q)
        st.facts.integer.append(q)
        st.facts.rational.append(q)
    return ret(st, mk('sext', mk('atomerr', s), 32) if False else tomach(mk('strerr', s), 32))


def cstr(A, st, p):
    """abstract content of a C string"""
    return A.text(st, p)


Zc = {
    'fmpz_sgn': ('z', lambda a: sgn(a)), 'fmpq_sgn': ('q', lambda a: sgn(a)),
    'fmpz_cmp': ('zz', lambda a, b: sgn(sub(a, b))), 'fmpz_cmp_si': ('zs', lambda a, b: sgn(sub(a, b))), 'fmpz_cmp_ui': ('zu', lambda a, b: sgn(sub(a, b))),
    'fmpq_cmp': ('qq', lambda a, b: sgn(sub(a, b))), 'fmpq_cmp_fmpz': ('qz', lambda a, b: sgn(sub(a, b))),
    'fmpq_cmp_si': ('qs', lambda a, b: sgn(sub(a, b))), 'fmpq_cmp_ui': ('qu', lambda a, b: sgn(sub(a, b))),
    '_fmpq_cmp': ('zzzz', lambda a, b, c, d: sgn(sub(div(a, b), div(c, d)))),
    '_fmpq_cmp_fmpz': ('zzz', lambda a, b, c: sgn(sub(div(a, b), c))),
    '_fmpq_cmp_si': ('zzs', lambda a, b, c: sgn(sub(div(a, b), c))),
    '_fmpq_cmp_ui': ('zzu', lambda a, b, c: sgn(sub(div(a, b), c))),
    'arf_cmp': ('ff', lambda a, b: sgn(sub(a, b))), 'arf_cmp_si': ('fs', lambda a, b: sgn(sub(a, b))), 'arf_cmp_d': ('fd', lambda a, b: sgn(sub(a, b))),
    'arf_sgn': ('f', lambda a: mk('arfsgn', a)),
    'mag_cmp_2exp_si': ('ms', lambda m, e: sgn(sub(m, mk('exp2', e)))),
    'mag_cmp': ('mm', lambda a, b: sgn(sub(a, b))),
    'fmpz_bits': ('z', lambda a: mk('zbits', a)), 'fmpz_val2': ('z', lambda a: mk('val2', a)),
    'fmpz_clog_ui': ('zu', lambda a, b: mk('clog', a, b)), 'fmpz_flog_ui': ('zu', lambda a, b: mk('flog', a, b)),
    'arf_bits': ('f', lambda a: mk('abits', a)),
    'arb_rel_accuracy_bits': ('b', lambda b: mk('relacc', b)), 'arb_rel_error_bits': ('b', lambda b: mk('relerr', b)), 'arb_bits': ('b', lambda b: mk('bbits', b)),
    'fmpq_poly_length': ('P', lambda p: mk('plen', p)), 'fmpz_poly_length': ('Z', lambda p: mk('plen', p)),
    'fmpq_poly_degree': ('P', lambda p: add(mk('plen', p), I(-1))), 'fmpz_poly_degree': ('Z', lambda p: add(mk('plen', p), I(-1))),
}
for n, (s, f) in Zc.items():
    M[n] = func(s, f)



def getmach(signed):
    """fmpz_get_si/fmpz_get_ui: the value if it fits, otherwise something else"""
    def m(A, st, args, inst):
        a = R(A, st, 'z', args[0], None)
        f = st.facts
        if isint(a):
            n = a.args[0]
            v = a if (-2**63 <= n < 2**63 if signed else abs(n) < 2**64) else mk('lowbits', a)
            return ret(st, tomach(I(abs(n)) if v is a and not signed else v, 64))
        if signed:
            fits = a.op in ('S', 'plen', 'slen', 'ind', 'sgn', 'clog', 'flog', 'zbits', 'abits') or f.decide(cpred('fits_si', a)) is True or A.opts.get('small_ints')
            return ret(st, tomach(a if fits else mk('lowbits', a), 64))
        fits = a.op in ('U', 'plen', 'slen', 'ind') or A.opts.get('small_ints') or f.decide(cpred('fits_ui', a)) is True
        sg = f.sign(a)
        if fits and -1 not in sg:
            return ret(st, mk('tomach', a, 64, 'u'))
        if fits and sg <= {-1, 0}:
            return ret(st, mk('tomach', neg(a), 64, 'u'))
        return ret(st, mk('tomach', absv(a) if fits else mk('lowbits', absv(a)), 64, 'u'))
    return m


M['fmpz_get_si'] = getmach(True)
M['fmpz_get_ui'] = getmach(False)

eqz = lambda a, b: csign(sub(a, b), (0,))
Zp = {
    'fmpz_is_zero': ('z', lambda a: csign(a, (0,))), 'fmpz_is_one': ('z', lambda a: csign(sub(a, ONE), (0,))),
    'fmpz_is_pm1': ('z', lambda a: cpred('pm1', a)),
    'fmpz_equal': ('zz', eqz), 'fmpz_equal_si': ('zs', eqz), 'fmpz_equal_ui': ('zu', eqz),
    'fmpz_fits_si': ('z', lambda a: cpred('fits_si', a)), 'fmpz_abs_fits_ui': ('z', lambda a: cpred('fits_ui', a)),
    'fmpq_is_zero': ('q', lambda a: csign(a, (0,))), 'fmpq_is_one': ('q', lambda a: csign(sub(a, ONE), (0,))), 'fmpq_equal': ('qq', eqz),
    'fmpq_equal_si': ('qs', eqz), 'fmpq_equal_ui': ('qu', eqz), 'fmpq_equal_fmpz': ('qz', eqz), 'fmpq_is_canonical': ('q', lambda a: CTRUE),
    'arf_equal': ('ff', eqz), 'arf_is_zero': ('f', lambda a: csign(a, (0,))),
    'arf_is_inf': ('f', lambda a: cpred('arfinf', a)), 'arf_is_finite': ('f', lambda a: cpred('arffin', a)), 'arf_is_nan': ('f', lambda a: cpred('arfnan', a)),
    'arf_is_int': ('f', lambda a: cpred('arfint', a)), 'arf_is_special': ('f', lambda a: cpred('arfspecial', a)),
    'mag_is_inf': ('m', lambda a: cpred('maginf', a)), 'mag_is_zero': ('m', lambda a: cpred('magzero', a)), 'mag_is_special': ('m', lambda a: cpred('magspecial', a)),
    'mag_is_finite': ('m', lambda a: cnot(cpred('maginf', a))),
    'arb_contains_zero': ('b', lambda b: cpred('arb_contains_zero', b)),
    'arb_is_nonzero': ('b', lambda b: cnot(cpred('arb_contains_zero', b))),
    'arb_is_zero': ('b', lambda b: cpred('arb_is_zero', b)),
    'arb_is_exact': ('b', lambda b: cpred('arb_is_exact', b)),
    'arb_is_positive': ('b', lambda b: cpred('arb_is_positive', b)), 'arb_is_negative': ('b', lambda b: cpred('arb_is_negative', b)),
    'arb_is_nonnegative': ('b', lambda b: cpred('arb_is_nonnegative', b)), 'arb_is_nonpositive': ('b', lambda b: cpred('arb_is_nonpositive', b)),
    'arb_is_finite': ('b', lambda b: cpred('arb_is_finite', b)), 'arb_is_int': ('b', lambda b: cpred('arb_is_int', b)),
    'arb_contains_int': ('b', lambda b: cpred('arb_contains_int', b)),
    'arb_contains': ('bb', lambda a, b: cpred('arb_contains', a, b)),
    'arb_contains_arf': ('bf', lambda a, b: cpred('arb_contains_real', a, b)),
    'arb_contains_fmpq': ('bq', lambda a, b: cpred('arb_contains_real', a, b)),
    'arb_contains_fmpz': ('bz', lambda a, b: cpred('arb_contains_real', a, b)),
    'arb_contains_si': ('bs', lambda a, b: cpred('arb_contains_real', a, b)),
    'arb_lt': ('bb', lambda a, b: cpred('arb_lt', a, b)), 'arb_gt': ('bb', lambda a, b: cpred('arb_lt', b, a)),
    'arb_le': ('bb', lambda a, b: cpred('arb_le', a, b)), 'arb_ge': ('bb', lambda a, b: cpred('arb_le', b, a)),
    'arb_overlaps': ('bb', lambda a, b: cpred('arb_overlaps', *sorted((a, b), key=lambda t: t.id))),
    'arb_equal': ('bb', lambda a, b: CTRUE if a is b else cpred('arb_equal', *sorted((a, b), key=lambda t: t.id))),
    'arb_ne': ('bb', lambda a, b: cnot(cpred('arb_overlaps', *sorted((a, b), key=lambda t: t.id)))),
    'fmpq_poly_equal': ('PP', lambda a, b: CTRUE if a is b else cpred('polyeq', *sorted((a, b), key=lambda t: t.id))),
    'fmpz_poly_equal': ('ZZ', lambda a, b: CTRUE if a is b else cpred('polyeq', *sorted((a, b), key=lambda t: t.id))),
    'fmpz_poly_is_zero': ('Z', lambda a: csign(mk('plen', a), (0,))), 'fmpq_poly_is_zero': ('P', lambda a: csign(mk('plen', a), (0,))),
    'nf_elem_is_zero': ('eN', lambda a, F: csign(a, (0,))), 'nf_elem_is_one': ('eN', lambda a, F: csign(sub(a, ONE), (0,))),
    'nf_elem_is_rational': ('eN', lambda a, F: cpred('rational', a)), 'nf_elem_is_integer': ('eN', lambda a, F: cpred('integer', a)),
    'nf_elem_is_gen': ('eN', lambda a, F: csign(sub(a, F.alpha), (0,)) if F else cpred('isgen', a)),
    'nf_elem_equal': ('eeN', lambda a, b, F: eqz(a, b)), 'nf_elem_equal_si': ('esN', lambda a, b, F: eqz(a, b)), 'nf_elem_equal_ui': ('euN', lambda a, b, F: eqz(a, b)),
    'nf_elem_equal_fmpz': ('ezN', lambda a, b, F: eqz(a, b)), 'nf_elem_equal_fmpq': ('eqN', lambda a, b, F: eqz(a, b)),
}
for n, (s, f) in Zp.items():
    M[n] = pred(s, f)

# ------------------------------------------------------------------ nf_elem
NE = {
    'nf_elem_set': ('e=eN', lambda a, F: a), 'nf_elem_set_si': ('e=sN', lambda a, F: a), 'nf_elem_set_ui': ('e=uN', lambda a, F: a),
    'nf_elem_set_fmpz': ('e=zN', lambda a, F: a), 'nf_elem_set_fmpq': ('e=qN', lambda a, F: a),
    'nf_elem_zero': ('e=N', lambda F: ZERO), 'nf_elem_one': ('e=N', lambda F: ONE), 'nf_elem_gen': ('e=N', lambda F: F.alpha if F else mk('genunk')),
    'nf_elem_neg': ('e=eN', lambda a, F: neg(a)), 'nf_elem_inv': ('e=eN', lambda a, F: div(ONE, a)),
    'nf_elem_add': ('e=eeN', lambda a, b, F: add(a, b)), 'nf_elem_sub': ('e=eeN', lambda a, b, F: sub(a, b)),
    'nf_elem_mul': ('e=eeN', lambda a, b, F: mul(a, b)), 'nf_elem_div': ('e=eeN', lambda a, b, F: div(a, b)),
    'nf_elem_pow': ('e=euN', lambda a, b, F: power(a, b)),
    'nf_elem_set_fmpq_poly': ('e=PN', lambda p, F: mk('ev', p, F.alpha) if F else mk('evunk', p)),
    'nf_elem_set_fmpz_poly': ('e=ZN', lambda p, F: mk('ev', p, F.alpha) if F else mk('evunk', p)),
}
for s, k in (('si', 's'), ('ui', 'u'), ('fmpz', 'z'), ('fmpq', 'q')):
    NE['nf_elem_add_' + s] = ('e=e%sN' % k, lambda a, b, F: add(a, b))
    NE['nf_elem_sub_' + s] = ('e=e%sN' % k, lambda a, b, F: sub(a, b))
    NE['nf_elem_scalar_mul_' + s] = ('e=e%sN' % k, lambda a, b, F: mul(a, b))
    NE['nf_elem_scalar_div_' + s] = ('e=e%sN' % k, lambda a, b, F: div(a, b))
    NE['nf_elem_%s_sub' % s] = ('e=%seN' % k, lambda a, b, F: sub(a, b))
for n, (s, f) in NE.items():
    M[n] = sig(s, f, nz=bool(DIVIDES.search(n)))


@model('nf_elem_init')
def _(A, st, args, inst):
    A.write(st, 'nfe', args[0], ZERO, field(A, st, args[1]), init=True)
    return ret(st)


@model('nf_elem_clear')
def _(A, st, args, inst):
    fld = field(A, st, args[1])
    p = args[0]
    if p.op == 'ptr':
        c = st.get_cell_at(p)
        if c is not None and fld is not None and c.fld is not None and c.fld is not fld and c.kind in ('nfe', 'qpoly') and c.fld.kind != fld.kind:
            A.event('field-mismatch', st, 'element of field %s cleared with field %s' % (c.fld.name, fld.name), data=(c.fld.name, fld.name))
    A.clear(st, 'nfe', p)
    return ret(st)


@model('nf_elem_swap')
def _(A, st, args, inst):
    swap_cells(A, st, 'nfe', args[0], args[1], field(A, st, args[2]))
    return ret(st)


@model('nf_elem_get_coeff_fmpq')
def _(A, st, args, inst):
    F = field(A, st, args[3])
    v = A.read(st, 'nfe', args[1], F)
    i = sval(A.simp(st, args[2]))
    wq(A, st, args[0], mk('coefq', v, i))
    return ret(st)


@model('nf_elem_get_coeff_fmpz')
def _(A, st, args, inst):
    F = field(A, st, args[3])
    v = A.read(st, 'nfe', args[1], F)
    A.write(st, 'fmpz', args[0], mk('coefz', v, sval(A.simp(st, args[2]))))
    return ret(st)


@model('nf_elem_get_fmpq_poly')
def _(A, st, args, inst):
    F = field(A, st, args[2])
    v = A.read(st, 'nfe', args[1], F)
    A.write(st, 'qpoly', args[0], mk('polyof', v, F.alpha) if F else A.unknown('PQ', 'gp'))
    return ret(st)


@model('nf_elem_get_den', )
def _(A, st, args, inst):
    F = field(A, st, args[2])
    v = A.read(st, 'nfe', args[1], F)
    A.write(st, 'fmpz', args[0], den(v))
    return ret(st)


@model('nf_elem_randtest', 'nf_elem_randtest_not_zero')
def _(A, st, args, inst):
    F = field(A, st, args[3])
    A.write(st, 'nfe', args[0], atom(A.fresh('rand'), 'K'), F)
    return ret(st)


@model('nf_init')
def _(A, st, args, inst):
    A.read(st, 'qpoly', args[1])
    A.write_nf(st, args[0], A.read(st, 'qpoly', args[1]))
    return ret(st)


@model('nf_clear')
def _(A, st, args, inst):
    A.clear_nf(st, args[0])
    return ret(st)


# ------------------------------------------------------------------ arf / mag
def arfop(name, f):
    def g(*v):
        return mk('arf:' + name, f(*v[:-2]) if f else mk('t', *v[:-2]), v[-2], v[-1])
    return g


AF = {
    'arf_set': ('f=f', lambda a: a), 'arf_neg': ('f=f', neg), 'arf_abs': ('f=f', absv), 'arf_zero': ('f=', lambda: ZERO), 'arf_one': ('f=', lambda: ONE),
    'arf_set_si': ('f=s', lambda a: a), 'arf_set_ui': ('f=u', lambda a: a), 'arf_set_fmpz': ('f=z', lambda a: a), 'arf_set_d': ('f=d', lambda a: a),
    'arf_floor': ('f=f', lambda a: mk('floor', a)), 'arf_ceil': ('f=f', lambda a: mk('ceil', a)),
    'arf_mul_2exp_si': ('f=fs', lambda a, e: mul(a, mk('exp2', e))),
    'mag_zero': ('m=', lambda: MAG0), 'mag_one': ('m=', lambda: ONE), 'mag_set': ('m=m', lambda a: a), 'mag_inf': ('m=', lambda: mk('maginf')),
    'arf_pos_inf': ('f=', lambda: mk('inf')), 'arf_neg_inf': ('f=', lambda: neg(mk('inf'))), 'arf_nan': ('f=', lambda: mk('nan')),
}
for n, (s, f) in AF.items():
    M[n] = sig(s, f)


def arf_round(name, ins, f, exactable=True):
    def m(A, st, args, inst):
        vals = [R(A, st, k, args[1 + j]) for j, k in enumerate(ins)]
        prec, rnd = args[1 + len(ins)], (args[2 + len(ins)] if len(args) > 2 + len(ins) else mconst(0, 32))
        x = f(*vals)
        p = sval(A.simp(st, prec))
        if isint(p) and p.args[0] == (1 << 63) - 1:
            v = x
        else:
            v = mk('arfround', x, p, sval(A.simp(st, rnd)))
        A.write(st, 'arf', args[0], v)
        return ret(st, A.unknown('M32', 'inexact'))
    return m


for n, (i, f) in {
        'arf_add': ('ff', add), 'arf_sub': ('ff', sub), 'arf_mul': ('ff', mul), 'arf_div': ('ff', div), 'arf_mul_rnd_any': ('ff', mul), 'arf_mul_rnd_down': ('ff', mul),
        'arf_add_fmpz': ('fz', add), 'arf_sub_fmpz': ('fz', sub), 'arf_mul_fmpz': ('fz', mul), 'arf_div_fmpz': ('fz', div), 'arf_fmpz_div': ('zf', div),
        'arf_add_si': ('fs', add), 'arf_sub_si': ('fs', sub), 'arf_mul_si': ('fs', mul), 'arf_div_si': ('fs', div),
        'arf_add_ui': ('fu', add), 'arf_sub_ui': ('fu', sub), 'arf_mul_ui': ('fu', mul), 'arf_div_ui': ('fu', div),
        'arf_set_fmpq': ('q', lambda a: a), 'arf_set_round': ('f', lambda a: a), 'arf_set_round_fmpz': ('z', lambda a: a), 'arf_neg_round': ('f', neg),
        'arf_fmpz_div_fmpz': ('zz', div)}.items():
    M[n] = arf_round(n, i, f)


@model('arf_get_fmpz')
def _(A, st, args, inst):
    x = A.read(st, 'arf', args[1])
    rnd = sval(A.simp(st, args[2]))
    # ARF_RND_DOWN 0, UP 1, FLOOR 2, CEIL 3, NEAR 4
    if isint(rnd) and rnd.args[0] in (2, 3):
        v = mk('floor' if rnd.args[0] == 2 else 'ceil', x)
    else:
        v = mk('rndint', x, rnd)
    A.write(st, 'fmpz', args[0], v)
    return ret(st, A.unknown('M32', 'inexact'))


@model('arf_get_fmpz_fixed_si')
def _(A, st, args, inst):
    x = A.read(st, 'arf', args[1])
    A.write(st, 'fmpz', args[0], mk('fixed', x, sval(args[2])))
    return ret(st, A.unknown('M32', 'inexact'))


@model('arf_get_fmpq')
def _(A, st, args, inst):
    x = A.read(st, 'arf', args[1])
    st.facts.rational.append(x)
    wq(A, st, args[0], x)
    return ret(st)


@model('arf_get_d')
def _(A, st, args, inst):
    x = A.read(st, 'arf', args[0])
    return ret(st, mk('dround', x, sval(A.simp(st, args[1]))))


@model('arf_abs_bound_lt_2exp_fmpz', 'arf_abs_bound_le_2exp_fmpz')
def _(A, st, args, inst):
    x = A.read(st, 'arf', args[1])
    A.write(st, 'fmpz', args[0], mk('absbound', x))
    return ret(st)


@model('arf_abs_bound_lt_2exp_si')
def _(A, st, args, inst):
    x = A.read(st, 'arf', args[0])
    return ret(st, tomach(mk('absbound', x), 64))


# ------------------------------------------------------------------ arb
@model('arb_init')
def _(A, st, args, inst):
    A.write(st, 'arb', args[0], exact_ball(ZERO), init=True)
    return ret(st)


@model('arb_clear')
def _(A, st, args, inst):
    A.clear(st, 'arb', args[0])
    return ret(st)


@model('arb_swap')
def _(A, st, args, inst):
    swap_cells(A, st, 'arb', args[0], args[1])
    return ret(st)


def E(b):
    return encl(b) if b.op == 'ball' else None


def ballop(name, ins, f):
    def m(A, st, args, inst):
        vals = [R(A, st, k, args[1 + j]) for j, k in enumerate(ins)]
        es = []
        ok = True
        for k, v in zip(ins, vals):
            if k == 'b':
                e = E(v)
                if e is None:
                    ok = False
                es.append(e)
            else:
                es.append(v)
        en = f(*es) if ok else None
        prec = args[1 + len(ins)] if len(args) > 1 + len(ins) else None
        extra = [prec] if prec is not None else []
        if f in EXACT_OPS and all(k not in 'b' or (v.op == 'ball' and v.args[0] == 'exact') for k, v in zip(ins, vals)):
            p = sval(A.simp(st, prec)) if prec is not None else None
            if p is None or isint(p) and p.args[0] == (1 << 63) - 1:
                A.write(st, 'arb', args[0], exact_ball(f(*[v.args[2] if k == 'b' else v for k, v in zip(ins, vals)])))
                return ret(st)
        A.write(st, 'arb', args[0], ball(name, en, *vals, *extra))
        return ret(st)
    return m


idf = lambda a: a
mul2 = lambda a, e: mul(a, mk('exp2', e))
EXACT_OPS = (neg, add, sub, mul, idf, mul2)
for n, (i, f) in {
        'arb_neg': ('b', neg), 'arb_add': ('bb', add), 'arb_sub': ('bb', sub), 'arb_mul': ('bb', mul), 'arb_div': ('bb', div),
        'arb_set_round': ('b', idf), 'arb_neg_round': ('b', neg),
        'arb_set_fmpq': ('q', idf), 'arb_set_round_fmpz': ('z', idf),
        'arb_fmpz_div_fmpz': ('zz', div), 'arb_inv': ('b', lambda a: div(ONE, a)), 'arb_ui_div': ('ub', div),
        'arb_pow_ui': ('bu', power), 'arb_sqr': ('b', lambda a: mul(a, a)), 'arb_abs': ('b', absv),
        'arb_mul_2exp_si': ('bs', mul2), 'arb_mul_2exp_fmpz': ('bz', mul2),
        'arb_root_ui': ('bu', lambda a, n: mk('nroot', a, n)), 'arb_sqrt': ('b', lambda a: mk('nroot', a, I(2))),
        'arb_pow_fmpz': ('bz', power), 'arb_pow_fmpq': ('bq', power)}.items():
    M[n] = ballop(n, i, f)
for s, k in (('si', 's'), ('ui', 'u'), ('fmpz', 'z'), ('arf', 'f')):
    for o, f in (('add', add), ('sub', sub), ('mul', mul), ('div', div)):
        M['arb_%s_%s' % (o, s)] = ballop('arb_' + o, 'b' + k, f)


def ballset(spec, f):
    return sig(spec, f)


for n, (s, f) in {
        'arb_set': ('b=b', idf), 'arb_zero': ('b=', lambda: exact_ball(ZERO)), 'arb_one': ('b=', lambda: exact_ball(ONE)),
        'arb_set_arf': ('b=f', exact_ball), 'arb_set_si': ('b=s', exact_ball), 'arb_set_ui': ('b=u', exact_ball), 'arb_set_fmpz': ('b=z', exact_ball), 'arb_set_d': ('b=d', exact_ball),
        'arb_get_mid_arb': ('b=b', lambda b: exact_ball(mid(b)))}.items():
    M[n] = ballset(s, f)


@model('arb_addmul', 'arb_submul')
def _(A, st, args, inst):
    a, b, c = (A.read(st, 'arb', x) for x in args[:3])
    es = [E(a), E(b), E(c)]
    sb = inst.x['callee'].v == 'arb_submul'
    en = None if None in es else (sub if sb else add)(es[0], mul(es[1], es[2]))
    A.write(st, 'arb', args[0], ball('muladd%d' % sb, en, a, b, c, args[3]))
    return ret(st)


@model('arb_zero_pm_inf', 'arb_indeterminate')
def _(A, st, args, inst):
    # the whole line encloses every real number
    A.write(st, 'arb', args[0], ball('line', mk('anyreal')))
    return ret(st)


@model('arb_add_error_2exp_si', 'arb_add_error_mag', 'arb_add_error_arf', 'arb_add_error', 'arb_add_error_2exp_fmpz')
def _(A, st, args, inst):
    b = A.read(st, 'arb', args[0])
    x = args[1]
    A.write(st, 'arb', args[0], ball('widened', E(b), b, x))
    return ret(st)


@model('arb_get_interval_arf')
def _(A, st, args, inst):
    b = A.read(st, 'arb', args[2])
    k = end_op(A, st, args[3])
    A.write(st, 'arf', args[0], mk(k + 'lo', b))
    A.write(st, 'arf', args[1], mk(k + 'hi', b))
    return ret(st)


def end_op(A, st, prec):
    """where it matters that the ends of a ball are not rounded outwards: only the exact precision gives the ends themselves"""
    if not A.opts.get('ends'):
        return ''
    p = sval(A.simp(st, prec))
    return '' if isint(p) and p.args[0] == (1 << 63) - 1 else 'o'


@model('arb_get_lbound_arf')
def _(A, st, args, inst):
    b = A.read(st, 'arb', args[1])
    A.write(st, 'arf', args[0], mk(end_op(A, st, args[2]) + 'lo', b))
    return ret(st)


@model('arb_get_ubound_arf')
def _(A, st, args, inst):
    b = A.read(st, 'arb', args[1])
    A.write(st, 'arf', args[0], mk(end_op(A, st, args[2]) + 'hi', b))
    return ret(st)


@model('arb_get_abs_ubound_arf', 'arb_get_abs_lbound_arf')
def _(A, st, args, inst):
    b = A.read(st, 'arb', args[1])
    A.write(st, 'arf', args[0], mk('absb' + inst.x['callee'].v[12], b))
    return ret(st)


@model('arb_set_interval_arf')
def _(A, st, args, inst):
    l, h = A.read(st, 'arf', args[1]), A.read(st, 'arf', args[2])
    A.write(st, 'arb', args[0], itv_ball(st, l, h))
    return ret(st)


def itv_ball(st, l, h):
    """ball around [l,h]: encloses every real known to lie between"""
    return ball('itv', mk('between', l, h), l, h)


@model('arb_union')
def _(A, st, args, inst):
    a, b = A.read(st, 'arb', args[1]), A.read(st, 'arb', args[2])
    e1, e2 = E(a), E(b)
    en = e1 if e1 is not None and e2 is not None and st.facts.equal(e1, e2) else (mk('anyof', e1, e2) if e1 is not None and e2 is not None else None)
    A.write(st, 'arb', args[0], ball('union', en, a, b))
    return ret(st)


@model('arb_intersection')
def _(A, st, args, inst):
    a, b = A.read(st, 'arb', args[1]), A.read(st, 'arb', args[2])
    e1, e2 = E(a), E(b)
    f = st.facts
    en = None
    if e1 is not None and e2 is not None:
        if f.equal(e1, e2):
            en = e1
        elif e1.op == 'between' and f.between(e2, e1.args[0], e1.args[1]):
            en = e2
        elif e2.op == 'between' and f.between(e1, e2.args[0], e2.args[1]):
            en = e1
        elif e1.op == 'anyreal':
            en = e2
        elif e2.op == 'anyreal':
            en = e1
    A.write(st, 'arb', args[0], ball('inter', en, a, b, args[3]))
    c = CTRUE if en is not None else cpred('intersects', *sorted((a, b), key=lambda t: t.id))
    v = ind(c)
    return ret(st, mconst(1, 32) if v.op == 'mi' else mk('zext', v, 32))


@model('arb_get_unique_fmpz')
def _(A, st, args, inst):
    b = A.read(st, 'arb', args[1])
    c = cpred('uniqint', b)
    A.write(st, 'fmpz', args[0], mk('uniq', b))
    v = ind(c)
    return ret(st, mk('zext', v, 32))


@model('arb_get_str', 'fmpq_poly_get_str_pretty', 'nf_elem_get_str_pretty', 'fmpz_get_str', 'fmpq_get_str', 'fmpz_poly_get_str_pretty', 'fmpq_poly_get_str')
def _(A, st, args, inst):
    nm = inst.x['callee'].v
    # argument must be live
    if nm == 'arb_get_str':
        s = mk('fmtball', A.read(st, 'arb', args[0]), sval(args[1]), sval(args[2]))
    elif nm == 'nf_elem_get_str_pretty':
        F = field(A, st, args[2])
        s = mk('fmtelem', A.read(st, 'nfe', args[0], F), cstr(A, st, args[1]))
    elif nm in ('fmpz_get_str', 'fmpq_get_str'):
        if args[0] is not NULL:
            A.havoc_region(st, args[0])
            return ret(st, args[0])
        v = A.read(st, 'fmpz', args[2]) if nm == 'fmpz_get_str' else rq(A, st, args[2])
        s = mk('fmtnum', v)
    else:
        k = 'qpoly' if nm.startswith('fmpq') else 'zpoly'
        s = mk('fmtpoly', A.read(st, k, args[0]), *([cstr(A, st, args[1])] if len(args) > 1 else []))
    p = new_heap(A, st, 'string', mk('strlen1', s))
    A.set_txt(st, p, s)
    return ret(st, p)


# ------------------------------------------------------------------ polynomials
for nm, kind in (('fmpq_poly', 'qpoly'), ('fmpz_poly', 'zpoly')):
    L = 'P' if kind == 'qpoly' else 'Z'

    def mkp(nm=nm, kind=kind, L=L):
        def init(A, st, args, inst):
            A.write(st, kind, args[0], mk('poly0'), init=True)
            return ret(st)

        def clear(A, st, args, inst):
            A.clear(st, kind, args[0])
            return ret(st)

        def swap(A, st, args, inst):
            swap_cells(A, st, kind, args[0], args[1])
            return ret(st)

        def setc(k):
            def m(A, st, args, inst):
                P = A.read(st, kind, args[0])
                i = sval(A.simp(st, args[1]))
                c = R(A, st, k, args[2])
                A.write(st, kind, args[0], mk('setcoeff', P, i, c))
                return ret(st)
            return m

        def getc(k):
            def m(A, st, args, inst):
                P = A.read(st, kind, args[1])
                i = sval(A.simp(st, args[2]))
                W(A, st, k, args[0], mk('qcoef', P, i))
                return ret(st)
            return m
        for n in ('_init', '_init2'):
            M[nm + n] = init
        M[nm + '_clear'] = clear
        M[nm + '_swap'] = swap
        M[nm + '_zero'] = sig(L + '=', lambda: mk('poly0'))
        M[nm + '_one'] = sig(L + '=', lambda: mk('polyconst', ONE))
        M[nm + '_set'] = sig('%s=%s' % (L, L), idf)
        M[nm + '_neg'] = sig('%s=%s' % (L, L), lambda a: mk('neg', a))
        M[nm + '_add'] = sig('%s=%s%s' % (L, L, L), lambda a, b: mk('add', a, b))
        M[nm + '_sub'] = sig('%s=%s%s' % (L, L, L), lambda a, b: mk('sub', a, b))
        M[nm + '_mul'] = sig('%s=%s%s' % (L, L, L), lambda a, b: mk('mul', a, b))
        for s, k in (('si', 's'), ('ui', 'u'), ('fmpz', 'z'), ('fmpq', 'q')):
            M['%s_set_coeff_%s' % (nm, s)] = setc(k)
        M[nm + '_get_coeff_fmpz'] = getc('z')
        M[nm + '_get_coeff_fmpq'] = getc('q')
        M[nm + '_derivative'] = sig('%s=%s' % (L, L), lambda a: mk('deriv', a.args[0] if a.op == 'numpoly' else a))
        M[nm + '_fit_length'] = lambda A, st, args, inst: (A.read(st, kind, args[0]), ret(st))[1]
        M[nm + '_div'] = sig('%s=%s%s' % (L, L, L), lambda a, b: mk('pdiv', a, b))
        M[nm + '_gcd'] = sig('%s=%s%s' % (L, L, L), lambda a, b: mk('pgcd', a, b))
    mkp()
M['fmpz_poly_content'] = sig('z=Z', lambda a: mk('content', a))
M['fmpz_poly_primitive_part'] = sig('Z=Z', lambda a: mk('primpart', a))
M['fmpq_poly_set_fmpz_poly'] = sig('P=Z', idf)
M['fmpq_poly_get_numerator'] = sig('Z=P', lambda a: mk('numpoly', a))
M['fmpz_poly_scalar_mul_fmpz'] = sig('Z=Zz', lambda a, b: mk('pscale', a, b))
M['fmpz_poly_scalar_divexact_fmpz'] = sig('Z=Zz', lambda a, b: mk('pscalediv', a, b))
M['fmpq_poly_set_si'] = sig('P=s', lambda a: mk('polyconst', a))
M['fmpq_poly_set_fmpz'] = sig('P=z', lambda a: mk('polyconst', a))
M['fmpq_poly_set_fmpq'] = sig('P=q', lambda a: mk('polyconst', a))
M['fmpz_poly_set_si'] = sig('Z=s', lambda a: mk('polyconst', a))
M['fmpz_poly_set_fmpz'] = sig('Z=z', lambda a: mk('polyconst', a))


@model('fmpq_poly_canonicalise')
def _(A, st, args, inst):
    return ret(st)


@model('_fmpz_poly_set_length', '_fmpq_poly_set_length')
def _(A, st, args, inst):
    k = 'qpoly' if 'fmpq' in inst.x['callee'].v else 'zpoly'
    P = A.read(st, k, args[0])
    n = sval(A.simp(st, args[1]))
    if not st.facts.equal(n, mk('plen', P)):
        A.write(st, k, args[0], mk('setlen', P, n))
    return ret(st)


@model('_fmpz_poly_normalise', '_fmpq_poly_normalise')
def _(A, st, args, inst):
    return ret(st)


@model('fmpz_poly_pseudo_rem', 'fmpz_poly_pseudo_div')
def _(A, st, args, inst):
    a, b = A.read(st, 'zpoly', args[2]), A.read(st, 'zpoly', args[3])
    A.write(st, 'zpoly', args[0], mk(inst.x['callee'].v, a, b))
    if args[1].op == 'ptr':
        A.store(st, I64, A.unknown('M64', 'pd'), args[1])
    return ret(st)


def vecn(A, st, v, n):
    """the first n entries of the coefficient vector v"""
    n = sval(A.simp(st, n))
    if st.facts.equal(n, mk('plen', v)) or v.unk:
        return v
    return mk('vecpart', v, n)


@model('_fmpz_poly_derivative')
def _(A, st, args, inst):
    v = vecn(A, st, A.read_vec(st, args[1]), args[2])
    A.write_vec(st, args[0], mk('deriv', v.args[0] if v.op == 'numpoly' else v))
    return ret(st)


@model('_fmpz_poly_content', '_fmpz_vec_content')
def _(A, st, args, inst):
    A.write(st, 'fmpz', args[0], mk('content', vecn(A, st, A.read_vec(st, args[1]), args[2])))
    return ret(st)


@model('_fmpz_vec_set')
def _(A, st, args, inst):
    v = vecn(A, st, A.read_vec(st, args[1]), args[2])
    A.write_vec(st, args[0], v)
    return ret(st)


@model('_fmpz_vec_neg')
def _(A, st, args, inst):
    v = A.read_vec(st, args[1])
    A.write_vec(st, args[0], mk('neg', v))
    return ret(st)


@model('_fmpz_vec_zero')
def _(A, st, args, inst):
    A.write_vec(st, args[0], mk('poly0'))
    return ret(st)


@model('_fmpz_vec_sum')
def _(A, st, args, inst):
    v = A.read_vec(st, args[1])
    A.write(st, 'fmpz', args[0], mk('vecsum', v, sval(args[2])))
    return ret(st)


@model('_fmpz_vec_init')
def _(A, st, args, inst):
    p = new_heap(A, st, 'fmpz vector', mul(sval(args[0]), I(8)))
    st.wreg(p.args[0])[0] = Cell('vec', mk('poly0'))
    return ret(st, p)


@model('_fmpz_vec_clear')
def _(A, st, args, inst):
    free(A, st, args[0])
    return ret(st)


@model('_fmpz_poly_scale_2exp', '_fmpz_poly_taylor_shift', '_fmpz_poly_scale_0_1', '_fmpz_poly_taylor_shift_horner')
def _(A, st, args, inst):
    v = A.read_vec(st, args[0])
    A.write_vec(st, args[0], A.unknown('PZ', 'tr'))
    return ret(st)


@model('_fmpz_poly_primitive_part')
def _(A, st, args, inst):
    v = A.read_vec(st, args[1])
    A.write_vec(st, args[0], mk('primpart', v))
    return ret(st)


@model('_fmpz_poly_num_real_roots')
def _(A, st, args, inst):
    v = A.read_vec(st, args[0])
    return ret(st, tomach(mk('numrealroots', v), 64))


# ------------------------------------------------------------------ memory
from .ir import Ty
try:
    I64 = Ty('int', None, 64)
except Exception:
    I64 = None


def new_heap(A, st, what, size=None):
    rn = A.fresh('heap')
    rid = A.fresh('r')
    A.rids[rid] = (what, A.here_repo())
    st.live[rid] = 'live'
    A.region(rn, 'heap', lazy=True, array=True, rid=rid, info=what)
    A.regions[rn].size = size
    return ptr(rn)


def free(A, st, p, nullok=True):
    if p is NULL:
        return
    if p.op != 'ptr':
        return
    r = A.regions.get(p.args[0])
    if r is None or r.rid is None:
        return
    s = st.live.get(r.rid)
    if s in ('dead', 'maybe'):
        A.event('double-free', st, '%s freed twice' % A.pname(p))
    st.live[r.rid] = 'dead'


@model('flint_malloc', 'flint_calloc', 'malloc', 'calloc', '_Znwm', '_Znam')
def _(A, st, args, inst):
    n = uval(args[0]) if len(args) == 1 else mul(uval(args[0]), uval(args[1]))
    p = new_heap(A, st, 'allocation', n)
    if 'calloc' in inst.x['callee'].v:
        A.set_txt(st, p, text.lit(''))
    return ret(st, p)


@model('flint_realloc', 'realloc')
def _(A, st, args, inst):
    old = args[0]
    p = new_heap(A, st, 'allocation', uval(args[1]))
    if old.op == 'ptr':
        r = A.regions.get(old.args[0])
        if r is not None and r.rid is not None:
            if st.live.get(r.rid) == 'dead':
                A.event('use-after-free', st, 'realloc of freed memory')
            st.live[r.rid] = 'dead'
        m = st.mem.get(old.args[0])
        if m:
            st.mem[p.args[0]] = dict(m)
        if old.args[0] in st.havoc:
            st.havoc.add(p.args[0])
        v = st.txt.get(old.args[0])
        if v is not None:
            A.set_txt(st, p, v)
    return ret(st, p)


@model('flint_free', 'free', '_ZdlPv', '_ZdlPvm', '_ZdaPv')
def _(A, st, args, inst):
    free(A, st, args[0])
    return ret(st)


@model('flint_cleanup')
def _(A, st, args, inst):
    return ret(st)


# ------------------------------------------------------------------ strings
@model('strlen')
def _(A, st, args, inst):
    return ret(st, tomach(A.slen(st, args[0]), 64, 'u'))


@model('strcpy', 'stpcpy')
def _(A, st, args, inst):
    t = A.text(st, args[1])
    A.write_text(st, args[0], t)
    return ret(st, args[0] if inst.x['callee'].v == 'strcpy' else ptr_add(args[0], text.tlen(t)))


@model('strdup', '__strdup')
def _(A, st, args, inst):
    t = A.text(st, args[0])
    p = new_heap(A, st, 'string', mk('strlen1', t))
    A.set_txt(st, p, t)
    return ret(st, p)


@model('strcat')
def _(A, st, args, inst):
    d = args[0]
    if d.op == 'ptr':
        old, t = A.text(st, d), A.text(st, args[1])
        A.buffer(st, d, add(add(text.tlen(old), text.tlen(t)), ONE))
        A.set_txt(st, d, text.scat(old, t) if d.args[1] is ZERO else None)
    return ret(st, args[0])


@model('strncpy')
def _(A, st, args, inst):
    n = sval(A.simp(st, args[2]))
    A.buffer(st, args[0], n)
    if args[0].op == 'ptr':
        A.set_txt(st, args[0], mk('unterminated', A.text(st, args[1]), n) if args[0].args[1] is ZERO else None)
    return ret(st, args[0])


def formatted(A, st, fmt, args):
    """text produced by a printf format, None when not understood"""
    if fmt.op != 'lit':
        return None
    out, i, s = text.lit(''), 0, fmt.args[0]
    args = list(args)
    while i < len(s):
        if s[i] != '%':
            j = s.find('%', i)
            j = len(s) if j < 0 else j
            out = text.scat(out, text.lit(s[i:j]))
            i = j
            continue
        m = re.match(r'%(%|s|ld|lu|d|u|c)', s[i:])
        if not m:
            return None
        k = m.group(1)
        i += len(m.group(0))
        if k == '%':
            out = text.scat(out, text.lit('%'))
            continue
        if not args:
            return None
        a = args.pop(0)
        out = text.scat(out, A.text(st, a) if k == 's' else mk('fmtnum', (uval if k.endswith('u') else sval)(a)) if k != 'c' else mk('chr', a))
    return out


@model('printf', 'flint_printf', 'fprintf', 'flint_fprintf', 'fputs', 'puts')
def _(A, st, args, inst):
    n = inst.x['callee'].v
    if n in ('fputs', 'puts'):
        t = A.text(st, args[0])
        if n == 'puts':
            t = text.scat(t, text.lit('\n'))
    else:
        k = 1 if 'fprintf' in n else 0
        t = formatted(A, st, A.text(st, args[k]), args[k + 1:])
    st.note('out', t)
    return ret(st, A.unknown('M32', 'printf') if inst.ty.k != 'void' else None)


@model('fmpq_poly_print_pretty', 'fmpz_poly_print_pretty', 'arb_printn', 'arb_printd', 'arb_print', 'nf_elem_print_pretty')
def _(A, st, args, inst):
    n = inst.x['callee'].v
    if n.startswith('arb'):
        t = mk('fmtball', A.read(st, 'arb', args[0]), *[sval(a) for a in args[1:]])
    elif n.startswith('nf'):
        t = mk('fmtelem', A.read(st, 'nfe', args[0], field(A, st, args[1])), cstr(A, st, args[2]))
    else:
        t = mk('fmtpoly', A.read(st, 'qpoly' if 'fmpq' in n else 'zpoly', args[0]), cstr(A, st, args[1]))
    st.note('out', t)
    return ret(st, A.unknown('M32', 'printf') if inst.ty.k != 'void' else None)


@model('sprintf', 'flint_sprintf', 'snprintf')
def _(A, st, args, inst):
    k = 2 if inst.x['callee'].v == 'snprintf' else 1
    t = formatted(A, st, A.text(st, args[k]), args[k + 1:])
    if t is None:
        A.set_txt(st, args[0], None)
        return ret(st, A.unknown('M32', 'printf'))
    if args[0] is not NULL:
        if k == 2:
            n = uval(A.simp(st, args[1]))
            A.buffer(st, args[0], n)
            A.set_txt(st, args[0], t if text.fits(n, add(text.tlen(t), ONE)) and args[0].args[1] is ZERO else None)
        else:
            A.write_text(st, args[0], t)
    return ret(st, tomach(text.tlen(t), 32))


@model('strtol', 'strtoul')
def _(A, st, args, inst):
    if len(args) > 1 and args[1].op == 'ptr':
        A.store(st, Ty('ptr'), A.unknown('ptr', 'end'), args[1])
    return ret(st, tomach(mk('strtol', cstr(A, st, args[0])), 64))


@model('llvm.memcpy.p0.p0.i64', 'llvm.memmove.p0.p0.i64', 'memcpy', 'memmove')
def _(A, st, args, inst):
    A.memcpy(st, args[0], args[1], uval(A.simp(st, args[2])))
    return ret(st, args[0] if inst.ty.k != 'void' else None)


@model('llvm.memset.p0.i64', 'memset')
def _(A, st, args, inst):
    p = args[0]
    if p.op == 'ptr':
        n = uval(args[2])
        v = args[1]
        o = off_key(p.args[1])
        if isint(n) and isinstance(o, int) and v.op == 'mi' and v.args[0] == 0:
            m = st.wreg(p.args[0])
            for k in [k for k, c in m.items() if isinstance(k, int) and k < o + n.args[0] and o < k + c.size]:
                del m[k]
            for i in range(0, n.args[0], 8):
                m[o + i] = Cell('int', mconst(0, 64), None, min(8, n.args[0] - i))
        else:
            st.havoc.add(p.args[0])
    return ret(st, args[0] if inst.ty.k != 'void' else None)


@model('llvm.fabs.f64', 'fabs')
def _(A, st, args, inst):
    return ret(st, mk('fabs', args[0]))


def minmax(name):
    def m(A, st, args, inst):
        return ret(st, mk('mop', name, inst.ty.n, frozenset(), args[0], args[1]))
    return m


for n in ('llvm.smax.i64', 'llvm.smin.i64', 'llvm.umax.i64', 'llvm.umin.i64', 'llvm.smax.i32', 'llvm.smin.i32'):
    M[n] = minmax(n)
for n in ('fmpz_mod_ctx_clear', 'fmpz_mod_ctx_init', 'fmpz_mod_poly_clear', 'fmpz_mod_poly_get_fmpz_poly', 'fmpz_mod_poly_init', 'fmpz_mod_poly_randtest_irreducible', 'fmpz_randprime'):
    M[n] = None
    del M[n]


# ------------------------------------------------------------------ further functions a change may start to use
def two(st, c, yes, no):
    """one outcome per truth value of the condition"""
    v = ind(c)
    if v.op == 'mi':
        return yes(st) if v.args[0] else no(st)
    out = []
    for val, f in ((c, yes), (cnot(c), no)):
        s2 = st.copy()
        try:
            s2.facts.assume(val)
        except Contradiction:
            continue
        out += f(s2)
    return out


def _split(a, m):
    return a.args[0] if a.op == 'mid' and m.op == 'rad' and a.args[0] is m.args[0] else None


def _cmpabsmag(flip):
    def f(A, st, args, inst):
        a, m = A.read(st, 'arf', args[flip]), A.read(st, 'mag', args[1 - flip])
        B = _split(a, m)
        k = -1 if flip else 1
        t = sub(absv(a), m)
        if B is None:
            return ret(st, tomach(sgn(t) if k == 1 else neg(sgn(t)), 32))

        def zero(s):
            # zero in the ball: |mid| <= radius
            try:
                s.facts.assume(csign(t, (-1, 0)))
            except Contradiction:
                return []
            return ret(s, tomach(sgn(t) if k == 1 else neg(sgn(t)), 32))
        return two(st, cpred('arb_contains_zero', B), zero, lambda s: ret(s, mconst(k, 32)))
    return f


M['arf_cmpabs_mag'] = _cmpabsmag(0)
M['arf_mag_cmpabs'] = _cmpabsmag(1)


@model('arb_sgn_nonzero')
def _(A, st, args, inst):
    b = A.read(st, 'arb', args[0])
    return two(st, cpred('arb_contains_zero', b), lambda s: ret(s, mconst(0, 32)), lambda s: ret(s, tomach(mk('arfsgn', mid(b)), 32)))


@model('arb_eq')
def _(A, st, args, inst):
    a, b = A.read(st, 'arb', args[0]), A.read(st, 'arb', args[1])

    def same(s):
        x, y = E(a), E(b)
        if x is not None and y is not None:
            try:
                s.facts.assume(csign(sub(x, y), (0,)))
            except Contradiction:
                return []
        return ret(s, mconst(1, 32))
    return two(st, cpred('arb_eq', *sorted((a, b), key=lambda t: t.id)), same, lambda s: ret(s, mconst(0, 32)))


for n, k in (('arb_contains_negative', 'arb_is_nonnegative'), ('arb_contains_nonnegative', 'arb_is_negative'),
             ('arb_contains_positive', 'arb_is_nonpositive'), ('arb_contains_nonpositive', 'arb_is_positive')):
    M[n] = pred('b', lambda b, k=k: cnot(cpred(k, b)))


def _fma(name, k, s, three):
    def m(A, st, args, inst):
        if three:
            z, x, y = R(A, st, 'b', args[3]), R(A, st, 'b', args[1]), R(A, st, k, args[2])
        else:
            z, x, y = R(A, st, 'b', args[0]), R(A, st, 'b', args[1]), R(A, st, k, args[2])
        ez, ex, ey = E(z), E(x), E(y) if k == 'b' else y
        en = None if None in (ez, ex, ey) else (add if s > 0 else sub)(ez, mul(ex, ey))
        A.write(st, 'arb', args[0], ball(name, en, z, x, y, args[-1]))
        return ret(st)
    return m


for s, k in (('_si', 's'), ('_ui', 'u'), ('_fmpz', 'z'), ('_arf', 'f')):
    M['arb_addmul' + s] = _fma('muladd0', k, 1, False)
    M['arb_submul' + s] = _fma('muladd1', k, -1, False)
    M['arb_fma' + s] = _fma('muladd0', k, 1, True)
M['arb_fma'] = _fma('muladd0', 'b', 1, True)
for n, (i, f) in {'arb_floor': ('b', lambda a: mk('floor', a)), 'arb_ceil': ('b', lambda a: mk('ceil', a)), 'arb_trim': ('b', idf), 'arb_max': ('bb', lambda a, b: mk('max', a, b)),
                  'arb_min': ('bb', lambda a, b: mk('min', a, b))}.items():
    M[n] = ballop(n, i, f)
M['arb_get_rad_arb'] = sig('b=b', lambda b: exact_ball(rad(b)))
M['arb_get_mag'] = sig('m=b', lambda b: mk('magub', b))
M['arb_get_mag_lower'] = sig('m=b', lambda b: mk('maglb', b))
M['arb_equal_si'] = pred('bs', lambda a, b: cpred('arb_equal', *sorted((a, exact_ball(b)), key=lambda t: t.id)))
M['arb_is_one'] = pred('b', lambda a: cpred('arb_equal', *sorted((a, exact_ball(ONE)), key=lambda t: t.id)))

_cmp = lambda a, b: sgn(sub(a, b))
_cmpa = lambda a, b: sgn(sub(absv(a), absv(b)))
for n, (i, f) in {'arf_cmp_ui': ('fu', _cmp), 'arf_cmpabs': ('ff', _cmpa), 'arf_cmpabs_ui': ('fu', _cmpa), 'fmpz_cmpabs': ('zz', _cmpa)}.items():
    M[n] = func(i, f)
for n, (i, f) in {'arf_equal_si': ('fs', eqz), 'arf_equal_ui': ('fu', eqz), 'arf_equal_d': ('fd', eqz), 'arf_is_one': ('f', lambda a: csign(sub(a, ONE), (0,))),
                  'mag_equal': ('mm', eqz), 'fmpq_is_pm1': ('q', lambda a: cpred('pm1', a)), 'arf_is_normal': ('f', lambda a: cnot(cpred('arfspecial', a))),
                  'fmpz_divisible': ('zz', lambda a, b: cpred('divides', b, a)), 'fmpz_divisible_si': ('zs', lambda a, b: cpred('divides', b, a)),
                  'fmpz_is_even': ('z', lambda a: cpred('even', a)), 'fmpz_is_odd': ('z', lambda a: cnot(cpred('even', a))),
                  'fmpz_is_square': ('z', lambda a: cpred('square', a)), 'nf_elem_den_is_one': ('eN', lambda a, F: csign(sub(den(a), ONE), (0,)))}.items():
    M.setdefault(n, pred(i, f))
for n, (s, f) in {'arf_max': ('f=ff', lambda a, b: mk('max', a, b)), 'arf_min': ('f=ff', lambda a, b: mk('min', a, b)), 'arf_set_mag': ('f=m', lambda m: MAGV(m)),
                  'arf_get_mag': ('m=f', lambda a: mk('magub', a)), 'arf_get_mag_lower': ('m=f', lambda a: mk('maglb', a)),
                  'fmpz_tdiv_q_si': ('z=zs', lambda a, b: mk('tdiv', a, b)), 'fmpz_tdiv_q_ui': ('z=zu', lambda a, b: mk('tdiv', a, b)), 'fmpz_neg_ui': ('z=u', neg),
                  'fmpz_gcd_ui': ('z=zu', lambda a, b: mk('gcd', a, b)), 'fmpq_add_ui': ('q=qu', add), 'fmpq_sub_ui': ('q=qu', sub), 'fmpq_mul_ui': ('q=qu', mul),
                  'nf_elem_mul_gen': ('e=eN', lambda a, F: mul(a, F.alpha) if F else mk('genunk'))}.items():
    M.setdefault(n, sig(s, f))
for n, f in {'mag_add': 'ub+', 'mag_mul': 'ub*', 'mag_div': 'ub/', 'mag_max': 'max', 'mag_min': 'min', 'mag_sub': 'ub-', 'mag_add_lower': 'lb+', 'mag_mul_lower': 'lb*', 'mag_sub_lower': 'lb-'}.items():
    M.setdefault(n, sig('m=mm', lambda a, b, f=f: mk('mag' + f, a, b)))
for n, k in {'mag_set_ui': 'u', 'mag_set_d': 'd', 'mag_set_fmpz': 'z', 'mag_set_ui_lower': 'u', 'mag_set_fmpz_lower': 'z'}.items():
    M.setdefault(n, sig('m=' + k, lambda a, n=n: mk('magof', a, int('lower' in n))))
for n, k in {'mag_add_ui': 'u', 'mag_mul_ui': 'u', 'mag_div_ui': 'u', 'mag_mul_fmpz': 'z', 'mag_div_fmpz': 'z'}.items():
    M.setdefault(n, sig('m=m' + k, lambda a, b, n=n: mk(n, a, b)))


def MAGV(m):
    return ZERO if m is MAG0 else m


def scale2(a, e):
    if a is MAG0:
        return a
    if isint(e):
        return mul(a, I(1 << e.args[0])) if 0 <= e.args[0] < 64 else div(a, I(1 << -e.args[0])) if -64 < e.args[0] < 0 else mul(a, mk('exp2', e))
    return mul(a, mk('exp2', e))


M['mag_mul_2exp_si'] = sig('m=ms', scale2)


for n, (k, s) in {'fmpz_addmul_si': ('s', 1), 'fmpz_addmul_ui': ('u', 1), 'fmpz_submul_si': ('s', -1), 'fmpz_submul_ui': ('u', -1)}.items():
    def _fa(A, st, args, inst, k=k, s=s):
        a, b, c = A.read(st, 'fmpz', args[0]), A.read(st, 'fmpz', args[1]), R(A, st, k, args[2])
        A.write(st, 'fmpz', args[0], (add if s > 0 else sub)(a, mul(b, c)))
        return ret(st)
    M.setdefault(n, _fa)
for n, s in {'fmpq_addmul': 1, 'fmpq_submul': -1}.items():
    def _qa(A, st, args, inst, s=s):
        a, b, c = (rq(A, st, x) for x in args[:3])
        wq(A, st, args[0], (add if s > 0 else sub)(a, mul(b, c)))
        return ret(st)
    M.setdefault(n, _qa)
for n, f in {'fmpz_fdiv_qr': floordiv, 'fmpz_cdiv_qr': ceildiv, 'fmpz_tdiv_qr': lambda a, b: mk('tdiv', a, b)}.items():
    def _qr(A, st, args, inst, f=f):
        a, b = A.read(st, 'fmpz', args[2]), A.read(st, 'fmpz', args[3])
        q = f(a, b)
        A.write(st, 'fmpz', args[0], q)
        A.write(st, 'fmpz', args[1], sub(a, mul(b, q)))
        return ret(st)
    M.setdefault(n, _qr)


@model('nf_elem_canonicalise')
def _(A, st, args, inst):
    F = field(A, st, args[1])
    A.write(st, 'nfe', args[0], A.read(st, 'nfe', args[0], F), F)
    return ret(st)


@model('arf_init_set_si', 'arf_init_set_ui')
def _(A, st, args, inst):
    A.write(st, 'arf', args[0], (sval if inst.x['callee'].v.endswith('si') else uval)(args[1]), init=True)
    return ret(st)


for n, k in (('arf_set_round_si', 's'), ('arf_set_round_ui', 'u')):
    M.setdefault(n, arf_round(n, k, lambda a: a))


@model('_fmpz_poly_evaluate_fmpq')
def _(A, st, args, inst):
    P = A.read_vec(st, args[2])
    n = sval(A.simp(st, args[3]))
    x = div(A.read(st, 'fmpz', args[4]), A.read(st, 'fmpz', args[5]))
    v = mk(A.opts.get('evop', 'ev'), P, x) if st.facts.equal(n, mk('plen', P)) else mk('evpart', P, n, x)
    A.write(st, 'fmpz', args[0], num(v))
    A.write(st, 'fmpz', args[1], den(v))
    return ret(st)


@model('fmpz_poly_evaluate_fmpq')
def _(A, st, args, inst):
    wq(A, st, args[0], mk(A.opts.get('evop', 'ev'), A.read(st, 'zpoly', args[1]), rq(A, st, args[2])))
    return ret(st)

"""Printed forms: which text the printing functions produce, for every output format."""
from .terms import *
from .state import *
from . import flint, specs, roots, text
from .special import Run, sball
from .specs import Lay
from .roots import mk_field

ALG, DBL, ARB = 1, 2, 4


def noradius(t):
    return len(t.args) > 2 and isint(t.args[2]) and t.args[2].args[0] & 2 != 0


def approx_ok(st, t, v, dbl):
    """t is a decimal rendering of the value v: from a ball around v, or of v rounded to a double"""
    f = st.facts
    if t.op == 'fmtball':
        b = t.args[0]
        e = encl(b)
        if e is None or not dbl and noradius(t):
            return False
        if f.encloses(e, v):
            return True
        x = e
        while x.op in ('dval', 'fval'):
            x = x.args[0]
        return f.double_ok(x, v, I(4)) if dbl else False
    if t.op == 'lit' and t.args[0] in ('inf', '-inf'):
        return inf_ok(f, t.args[0], v)
    return False


def inf_ok(f, s, v):
    """an infinity is printed only when the nearest double is that infinity"""
    d = mk('dround', v, I(4))
    INF = [mk('fconst', c) for c in ('0x7FF0000000000000', '0xFFF0000000000000', '0x7FEFFFFFFFFFFFFF', '0xFFEFFFFFFFFFFFFF')]
    big, neg = False, None
    for x in (d, mk('fabs', d)):
        for c in INF:
            q = f.sign(sub(x, c))
            if c.args[0][2] == '7' and (q <= {0, 1} if c.args[0][4] == 'F' and c.args[0][5:] == '0' * 13 else q <= {1}):
                big, neg = True, (False if x is d else neg)
            if c.args[0][2] == 'F' and (q <= {0, -1} if c.args[0][5:] == '0' * 13 else q <= {-1}):
                big, neg = True, True
    for z in [mk('fconst', '0.000000e+00'), ZERO]:
        q = f.sign(sub(d, z)) if z is not ZERO else f.sign(v)
        if q <= {-1}:
            neg = True
        elif q <= {0, 1}:
            neg = False
    q = f.sign(mk('S', d))
    if neg is None and q <= {-1}:
        neg = True
    elif neg is None and q <= {0, 1}:
        neg = False
    return big and neg is (s == '-inf')


def elem_text_ok(st, t, v, var, flags):
    """-> (ok, what is wrong)"""
    ps = text.parts(t)
    f = st.facts
    if flags & ALG:
        if not ps or ps[0].op != 'fmtelem' or not f.equal(ps[0].args[0], v):
            return False, 'does not start with the exact expression of the element'
        if ps[0].args[1] is not var:
            return False, 'prints the generator as %s' % show(ps[0].args[1])
        ps = ps[1:]
    a = flags & (DBL | ARB)
    if flags & ALG and a:
        if not ps or ps[0].op != 'lit' or not ps[0].args[0].startswith(' ~ '):
            return False, 'does not separate the exact expression and the approximation by " ~ "'
        rest = ps[0].args[0][3:]
        ps = ([text.lit(rest)] if rest else []) + ps[1:]
    if a:
        if len(ps) != 1 or not approx_ok(st, ps[0], v, bool(flags & DBL)):
            return False, 'the approximation printed is not one of the value of the element'
        ps = ps[1:]
    if ps and not (len(ps) == 1 and ps[0] is text.lit('')):
        return False, 'has additional text'
    return True, ''


def ob_elem_str(prog, kind, flags, opts=None):
    name = 'renf_elem_get_str_pretty'
    r = Run(prog, name, '%s flags %d' % ({'L': 'degree 1', 'Q': 'degree 2', 'G': 'degree >= 3'}[kind], flags), opts=opts)
    A, st = r.A, r.st
    A.region('nf', 'param', lazy=True, info='nf')
    F = mk_field(A, st, 'nf', kind)
    v = atom('v0', 'K')
    r.reg('a')
    r.put('a', Lay.elem, Cell('nfe', v, None, fld=F))
    r.put('a', Lay.emb, Cell('arb', sball('emb_a', v)))
    r.reg('var')
    var = atom('var', 'str')
    A.set_txt(st, ptr('var'), var)
    for o in r.go([ptr('a'), ptr('var'), ptr('nf'), atom('n', 'M64'), mconst(flags, 32)]):
        if o.kind == 'throw':
            r.check(False, 'throw', 'exits by exception', o)
            continue
        t = A.text(o.st, o.val)
        ok, why = elem_text_ok(o.st, t, v, var, flags)
        r.check(ok, 'text', 'prints %s: %s' % (show(t)[:160], why), o, t.unk or o.val.unk or 'str(' in show(t) or bool(o.st.facts.opaque))
        # the caller releases it with flint_free
        r.check(o.val.op == 'ptr' and o.val.args[1] is ZERO and A.regions[o.val.args[0]].kind == 'heap', 'text', 'does not return a fresh allocation', o, o.val.op != 'ptr')
    return r.R


def ob_renf_str(prog, kind, opts=None):
    name = 'renf_get_str'
    r = Run(prog, name, {'L': 'degree 1', 'Q': 'degree 2', 'G': 'degree >= 3'}[kind], opts=opts)
    A, st = r.A, r.st
    A.region('nf', 'param', lazy=True, info='nf')
    F = mk_field(A, st, 'nf', kind)
    r.reg('var')
    var = atom('var', 'str')
    A.set_txt(st, ptr('var'), var)
    P = mk('fieldpol', F.alpha, F.kind)
    for o in r.go([ptr('nf'), ptr('var'), atom('n', 'M64')]):
        if o.kind == 'throw':
            r.check(False, 'throw', 'exits by exception', o)
            continue
        t = A.text(o.st, o.val)
        r.check(field_text_ok(o.st, t, P, F.alpha, var), 'text', 'prints %s instead of NumberField(polynomial, ball around the root)' % show(t)[:200], o, t.unk or o.val.unk or 'str(' in show(t))
    return r.R


def field_text_ok(st, t, P, alpha, var):
    ps = text.parts(t)
    if len(ps) != 5 or [p.op for p in ps] != ['lit', 'fmtpoly', 'lit', 'fmtball', 'lit']:
        return False
    e = encl(ps[3].args[0])
    if noradius(ps[3]):
        return False
    return ps[0].args[0] == 'NumberField(' and ps[2].args[0] == ', ' and ps[4].args[0] == ')' and st.facts.equal(ps[1].args[0], P) and (var is None or ps[1].args[1] is var) and e is not None and st.facts.encloses(e, alpha)


def ob_print(prog, name, kind, flags=None, opts=None):
    r = Run(prog, name, '%s%s' % ({'L': 'degree 1', 'Q': 'degree 2', 'G': 'degree >= 3'}[kind], '' if flags is None else ' flags %d' % flags), opts=opts)
    A, st = r.A, r.st
    A.region('nf', 'param', lazy=True, info='nf')
    F = mk_field(A, st, 'nf', kind)
    r.reg('var')
    var = atom('var', 'str')
    A.set_txt(st, ptr('var'), var)
    v = atom('v0', 'K')
    if flags is None:
        args = [ptr('nf'), ptr('var'), atom('n', 'M64')]
    else:
        r.reg('a')
        r.put('a', Lay.elem, Cell('nfe', v, None, fld=F))
        r.put('a', Lay.emb, Cell('arb', sball('emb_a', v)))
        args = [ptr('a'), ptr('var'), ptr('nf'), atom('n', 'M64'), mconst(flags, 32)]
    for o in r.go(args):
        if o.kind == 'throw':
            r.check(False, 'throw', 'exits by exception', o)
            continue
        outs = [x[0] for t, x in o.st.notes() if t == 'out']
        t = text.lit('')
        for x in outs:
            t = text.scat(t, x) if x is not None and t is not None else None
        if t is None:
            r.check(False, 'text', 'output not understood', o, True)
            continue
        if flags is None:
            ok, why = field_text_ok(o.st, t, mk('fieldpol', F.alpha, F.kind), F.alpha, None), 'must be NumberField(polynomial, ball around the root)'
        else:
            ok, why = elem_text_ok(o.st, t, v, var, flags)
        r.check(ok, 'text', 'prints %s: %s' % (show(t)[:160], why), o, t.unk or 'str(' in show(t) or bool(o.st.facts.opaque))
    return r.R


def all_text(prog, guard):
    out = []
    for k in 'LQG':
        for fl in range(8):
            out.append(guard(lambda: ob_elem_str(prog, k, fl), 'renf_elem_get_str_pretty'))
        out.append(guard(lambda: ob_renf_str(prog, k), 'renf_get_str'))
        out.append(guard(lambda: ob_print(prog, 'renf_print', k), 'renf_print'))
        for fl in range(8):
            out.append(guard(lambda: ob_print(prog, 'renf_elem_print_pretty', k, fl), 'renf_elem_print_pretty'))
    return out

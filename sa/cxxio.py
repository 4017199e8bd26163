"""Contracts of the C++ classes: text output, hashing, coefficients, accessors."""
from .terms import *
from .state import *
from .interp import subst_term
from . import cxx, flint, specs, roots, text, textspec
from .cxx import World, XL, exc_type
from .cxxspec import E, K, EC, DEG, SAME, mkfields
from .cxxreg import leaf_check
from .specs import Lay

OS = 'std::basic_ostream<char, std::char_traits<char> >&'


def unpar(t):
    """content of a text in parentheses, None otherwise"""
    ps = text.parts(t)
    if len(ps) < 2 or ps[0].op != 'lit' or ps[-1].op != 'lit' or not ps[0].args[0].startswith('(') or not ps[-1].args[0].endswith(')'):
        return None
    ps = [text.lit(ps[0].args[0][1:])] + ps[1:-1] + [text.lit(ps[-1].args[0][:-1])]
    r = text.lit('')
    for p in ps:
        r = text.scat(r, p)
    return r


def text_ok(st, t, v, var, flags):
    if flags in (1, 2, 4):
        return textspec.elem_text_ok(st, t, v, var, flags)
    u = unpar(t)
    if u is None:
        return False, 'is not enclosed in parentheses'
    return textspec.elem_text_ok(st, u, v, var, flags)


def hold(w, k):
    if k != 'T':
        w.ext[k] = 1
        cxx.ref_add(w.A, w.st, k, 1)


def outtext(o, dst=None):
    t = text.lit('')
    for tag, x in o.st.notes():
        if tag == 'out':
            if x[0] is None:
                return None
            t = text.scat(t, x[0])
    return t


def add(cp, addob):
    for fk in SAME:
        # ---- element to text
        for sig, fl in [('%s::to_string(int) const' % E, f) for f in range(6)] + [('%s::get_str(int) const' % E, f) for f in (1, 3, 5)] + [('%s::operator std::string() const' % E, None)]:
            def tostr(fk=fk, sig=sig, fl=fl):
                w = World(cp, cp.find(sig), sig, DEG[fk] + ('' if fl is None else ' flags %d' % fl))
                k, _ = mkfields(w, fk)
                x, v = w.elem('x', k)
                w.raw('ret')
                outs = w.go([ptr('ret'), x] + ([] if fl is None else [mconst(fl, 32)]))
                for o in outs:
                    if o.kind == 'throw':
                        w.check(False, 'throw', 'throws %s' % exc_type(o.val), o)
                        continue
                    if fl != 0:
                        t = cxx.sread(w.A, o.st, ptr('ret'))
                        ok, why = text_ok(o.st, t, v, atom('name_' + k, 'str'), 3 if fl is None else fl)
                        w.check(ok, 'text', 'gives %s: %s' % (show(t)[:160], why), o, t.unk or 'str(' in show(t))
                    w.check_elem(o, 'x', v, {k}, 'the element', 'operand-changed')
                    w.check_resources(o, ['x'])
                return w.done()
            addob('io', sig, '%s%s' % (fk, fl), tostr)

        # ---- element to stream
        sig = 'eantic::operator<<(%s, %s)' % (OS, EC)

        def ostr(fk=fk, sig=sig):
            w = World(cp, cp.find(sig), sig, DEG[fk])
            k, _ = mkfields(w, fk)
            x, v = w.elem('x', k)
            os = w.raw('os', True)
            for o in w.go([os, x]):
                if o.kind == 'throw':
                    w.check(False, 'throw', 'throws %s' % exc_type(o.val), o)
                    continue
                t = outtext(o)
                if t is None:
                    w.check(False, 'text', 'output not understood', o, True)
                else:
                    whole = o.st.facts.decide(cpred('integer', v))
                    unk = t.unk or 'str(' in show(t) or whole is None
                    ok, why = text_ok(o.st, t, v, atom('name_' + k, 'str'), 1 if whole else 3)
                    if not ok and whole:
                        ok, _ = text_ok(o.st, t, v, atom('name_' + k, 'str'), 3)
                    w.check(ok, 'text', 'writes %s: %s' % (show(t)[:160], why), o, unk)
                w.check(o.val is os, 'return', 'does not return the stream', o, o.val.unk)
                w.check_elem(o, 'x', v, {k}, 'the element', 'operand-changed')
                w.check_resources(o, ['x'])
            return w.done()
        addob('io', sig, fk, ostr)

        # ---- field to text
        for sig in ('eantic::renf_class::to_string() const', 'eantic::operator<<(%s, %s)' % (OS, K)):
            def fstr(fk=fk, sig=sig):
                w = World(cp, cp.find(sig), sig, DEG[fk])
                k, _ = mkfields(w, fk)
                hold(w, k)
                F = w.A.cxx_fields[k]
                if 'operator' in sig:
                    os = w.raw('os', True)
                    args = [os, ptr(k)]
                else:
                    w.raw('ret')
                    args = [ptr('ret'), ptr(k)]
                for o in w.go(args):
                    if o.kind == 'throw':
                        w.check(False, 'throw', 'throws %s' % exc_type(o.val), o)
                        continue
                    t = outtext(o) if 'operator' in sig else cxx.sread(w.A, o.st, ptr('ret'))
                    if t is None:
                        w.check(False, 'text', 'output not understood', o, True)
                    else:
                        w.check(textspec.field_text_ok(o.st, t, mk('fieldpol', F.alpha, F.kind), F.alpha, atom('name_' + k, 'str')), 'text', 'gives %s, must be NumberField(polynomial, ball around the root)' % show(t)[:200], o, t.unk or 'str(' in show(t))
                    w.check_resources(o, [])
                return w.done()
            addob('io', sig, fk, fstr)

        # ---- hash values
        sig = 'std::hash<%s>::operator()(%s) const' % (E, EC)

        def helem(fk=fk, sig=sig):
            w = World(cp, cp.find(sig), sig, DEG[fk])
            k, _ = mkfields(w, fk)
            x, v = w.elem('x', k)
            f = w.raw('f', True)
            for o in w.go([f, x]):
                if o.kind == 'throw':
                    w.check(False, 'throw', 'throws %s' % exc_type(o.val), o)
                    continue
                leaf_check(w, o, o.val, {v}, 'the hash of an element')
                w.check_elem(o, 'x', v, {k}, 'the element', 'operand-changed')
                w.check_resources(o, ['x'])
            return w.done()
        addob('hash', sig, fk, helem)
        if fk == SAME[0]:
            addob('hash', sig, 'agree', lambda sig=sig: agree(cp, sig))

        sig = 'std::hash<eantic::renf_class>::operator()(%s) const' % K

        def hfield(fk=fk, sig=sig):
            w = World(cp, cp.find(sig), sig, DEG[fk])
            k, _ = mkfields(w, fk)
            hold(w, k)
            F = w.A.cxx_fields[k]
            f = w.raw('f', True)
            for o in w.go([f, ptr(k)]):
                if o.kind == 'throw':
                    w.check(False, 'throw', 'throws %s' % exc_type(o.val), o)
                    continue
                leaf_check(w, o, o.val, {F.alpha, atom('name_' + k, 'str'), ptr(k)}, 'the hash of a field')
                w.check_resources(o, [])
            return w.done()
        addob('hash', sig, fk, hfield)

        # ---- equality of fields is identity
        for kb in [None] + (['L', 'Q', 'G'] if fk != 'T' else []):
            sig = 'eantic::operator==(%s, %s)' % (K, K)

            def feq(fk=fk, kb=kb, sig=sig):
                w = World(cp, cp.find(sig), sig, DEG[fk] + (' itself' if kb is None else ' ' + DEG[kb]))
                k, k2 = mkfields(w, fk, kb)
                hold(w, k)
                if k2:
                    hold(w, k2)
                for o in w.go([ptr(k), ptr(k2 or k)]):
                    if o.kind == 'throw':
                        w.check(False, 'throw', 'throws %s' % exc_type(o.val), o)
                        continue
                    d = o.st.facts.decide(cond_of(o.val))
                    w.check(d is (k2 is None), 'return', 'returns %s for %s' % (show(o.val), 'the same field' if k2 is None else 'different fields'), o, o.val.unk)
                    w.check_resources(o, [])
                return w.done()
            addob('pred', sig, '%s%s' % (fk, kb), feq)

        # ---- access to the C level object
        for nm in ('renf_elem_t', 'get_renf_elem'):
            sig = '%s::%s() const' % (E, nm)

            def acc(fk=fk, sig=sig):
                w = World(cp, cp.find(sig), sig, DEG[fk])
                k, _ = mkfields(w, fk)
                x, v = w.elem('x', k)
                for o in w.go([x]):
                    w.check(o.kind == 'ret' and o.val is ptr('x', XL.a), 'return', 'does not return the element itself', o, o.val.unk)
                    w.check_elem(o, 'x', v, {k}, 'the element', 'operand-changed')
                    w.check_resources(o, ['x'])
                return w.done()
            addob('pred', sig, fk, acc)
        for sig, want in (('eantic::renf_class::degree() const', None),):
            def deg(fk=fk, sig=sig):
                w = World(cp, cp.find(sig), sig, DEG[fk])
                k, _ = mkfields(w, fk)
                hold(w, k)
                F = w.A.cxx_fields[k]
                for o in w.go([ptr(k)]):
                    g = sval(o.val)
                    want = [sub(mk('plen', mk('fieldpol', F.alpha, F.kind)), ONE)] + {'L': [ONE], 'Q': [I(2)]}.get(F.kind, [])
                    w.check(o.kind == 'ret' and any(o.st.facts.equal(g, x) for x in want), 'return', 'returns %s, must be the degree of the field' % show(g), o, g.unk)
                    w.check_resources(o, [])
                return w.done()
            addob('pred', sig, fk, deg)

        # ---- numerators of the coefficients
        for nm in ('num_vector', 'get_num_vector'):
            sig = '%s::%s() const' % (E, nm)

            def nv(fk=fk, sig=sig):
                w = World(cp, cp.find(sig), sig, DEG[fk])
                k, _ = mkfields(w, fk)
                x, v = w.elem('x', k)
                F = w.A.cxx_fields[k]
                V = mk('polyof', v, F.alpha)
                D = sub(mk('plen', mk('fieldpol', F.alpha, F.kind)), ONE)
                w.st.facts.assume(csign(sub(D, mk('plen', V)), (0, 1)))
                w.raw('ret')
                for o in w.go([ptr('ret'), x]):
                    if o.kind == 'throw':
                        w.check(False, 'throw', 'throws %s' % exc_type(o.val), o)
                        continue
                    c = cxx.vecv(w.A, o.st, ptr('ret'))
                    f = o.st.facts
                    unk = c is None or not sure_len(f, c, D)
                    ok = c is not None and (f.equal(c.args[1], D) or f.sign(sub(c.args[1], D)) == {0}) and f.equal(c.args[0], V)
                    w.check(ok, 'value', 'returns %s, must be the %s numerators of the coefficients' % (show(c) if c is not None else '?', show(D)), o, unk)
                    w.check_elem(o, 'x', v, {k}, 'the element', 'operand-changed')
                    w.check_resources(o, ['x'])
                return w.done()
            addob('coef', sig, fk, nv)

            def nvc(m, sig=sig):
                w = World(cp, cp.find(sig), sig, 'degree 3, %d coefficients' % m, opts={'unroll': 8, 'unroll_any': True})
                k, _ = mkfields(w, 'G')
                x, v = w.elem('x', k)
                F = w.A.cxx_fields[k]
                V = mk('polyof', v, F.alpha)
                f = w.st.facts
                f.linear = True
                try:
                    f.assume(csign(sub(mk('plen', mk('fieldpol', F.alpha, F.kind)), I(4)), (0,)))
                    f.assume(csign(sub(mk('plen', V), I(m)), (0,)))
                    f.assume(csign(v, (-1, 1) if m else (0,)))
                    f.bind(mk('plen', V), I(m))
                except Contradiction:
                    return w.done()
                w.raw('ret')
                for o in w.go([ptr('ret'), x]):
                    if o.kind == 'throw':
                        w.check(False, 'throw', 'throws %s' % exc_type(o.val), o)
                        continue
                    c = cxx.vecv(w.A, o.st, ptr('ret'))
                    f = o.st.facts
                    n = A_int(w, o.st, c.args[1]) if c is not None else None
                    w.check(n == 3, 'value', 'returns %s entries for an element with %d coefficients in a field of degree 3' % (n, m), o, n is None)
                    w.check(c is not None and (f.equal(c.args[0], V) or m == 0 and c.args[0].op == 'pzero'), 'value', 'returns %s, must be the numerators of the coefficients' % (show(c) if c is not None else '?'), o, c is None or c.unk)
                return w.done()
            if fk == 'G':
                for m in range(4):
                    addob('coef', sig, 'n%d' % m, lambda m=m, nvc=nvc: nvc(m))

        def content(fk=fk, sig='%s::num_content() const' % E):
            w = World(cp, cp.find(sig), sig, DEG[fk])
            k, _ = mkfields(w, fk)
            x, v = w.elem('x', k)
            F = w.A.cxx_fields[k]
            V = mk('polyof', v, F.alpha)
            q0, q1 = mk('qc0', v, F.alpha), mk('qc1', v, F.alpha)
            w.raw('ret')

            def good(f, g):
                if F.kind == 'L':
                    n = num(v)
                    if g.op == 'abs' and (f.equal(g.args[0], n) or f.equal(g.args[0], neg(n))):
                        return True, True
                    s = f.sign(n)
                    if (f.equal(g, n) and s <= {0, 1}) or (f.equal(g, neg(n)) and s <= {0, -1}):
                        return True, True
                    return False, not g.unk
                while g.op == 'abs':
                    g = g.args[0]
                if g.op == 'content' and f.equal(g.args[0], V):
                    return True, True
                if F.kind == 'Q' and g.op == 'gcd':
                    bare = set()
                    for y in g.args:
                        y = y.args[0] if y.op == 'abs' else y
                        bare.add(neg(y) if y in (neg(q0), neg(q1)) else y)
                    return bare == {q0, q1}, not g.unk
                return False, not g.unk and g.op in ('content', 'gcd', 'qc0', 'qc1', 'num', 'den', 'I')
            for o in w.go([ptr('ret'), x]):
                if o.kind == 'throw':
                    w.check(False, 'throw', 'throws %s' % exc_type(o.val), o)
                    continue
                g = w.A.read(o.st, 'mpz', ptr('ret'))
                ok, sure = good(o.st.facts, g)
                w.check(ok, 'value', 'returns %s, must be the greatest common divisor of the numerators of the coefficients' % show(g), o, not sure)
                w.extra_live = {o.st.reg('ret')[0].rid} if 0 in o.st.reg('ret') else set()
                w.check_elem(o, 'x', v, {k}, 'the element', 'operand-changed')
                w.check_resources(o, ['x'], extra_live=w.extra_live)
            return w.done()
        addob('coef', '%s::num_content() const' % E, fk, content)


def agree(cp, sig):
    """equal rational elements of different fields are equal, so their hashes agree"""
    runs = []
    for fk in SAME:
        w = World(cp, cp.find(sig), sig, 'same rational value in all fields')
        k, _ = mkfields(w, fk)
        x, v = w.elem('x', k)
        w.st.facts.assume(cpred('rational', v))
        f = w.raw('f', True)
        runs.append((w, v, [o for o in w.go([f, x]) if o.kind == 'ret']))
    w0, v0, base = runs[0]
    for w, v, outs in runs[1:]:
        for o in outs:
            for p in base:
                f = o.st.facts.copy()
                sb = {v0.id: v}
                try:
                    for t, s in p.st.facts.signs:
                        f.assume(csign(subst_term(t, sb), s))
                    for t, val in p.st.facts.predterms:
                        f.assume(mk('cpred', subst_term(t, sb), val))
                except Contradiction:
                    continue
                t = subst_term(p.val, sb)
                ok = f.equal(sval(t), sval(o.val))
                w.check(ok, 'hash', 'the hash of a rational element is %s in this field but %s in another one, although the elements are equal' % (show(o.val)[:120], show(t)[:120]), o, t.unk or o.val.unk or bool(p.st.facts.opaque))
    for w, v, outs in runs[1:]:
        w.done()
        w0.R.viol += w.R.viol
        w0.R.undecided += w.R.undecided
        w0.R.ok += w.R.ok
    return w0.done()


def A_int(w, st, n):
    n = w.A.simp(st, n)
    for k in range(9):
        if isint(n):
            return n.args[0]
        if st.facts.equal(n, I(k)) or st.facts.sign(sub(n, I(k))) == {0}:
            return k
    return None


def sure_len(f, c, D):
    """is the number of entries pinned down well enough to speak of a difference?"""
    V, n = c.args
    if V.unk:
        return False
    if not n.unk:
        return True
    return 0 not in f.sign(sub(n, D)) or f.sign(sub(n, mk('plen', V))) == {0}

"""Contracts of the C++ element class: strings, coefficient vectors, hashing."""
from .terms import *
from .state import *
from . import cxx, flint, specs, roots
from .cxx import World, XL, exc_type
from .cxxspec import E, K, EC, DEG, SAME, mkfields, finish
from .specs import Lay
from .terms import add as tadd


def add(cp, addob):
    # ---- from a string
    def from_string(fk):
        sig = '%s::renf_elem_class(%s, std::string const&)' % (E, K)

        def run():
            w = World(cp, cp.find(sig), sig, DEG[fk])
            k, _ = mkfields(w, fk)
            if k != 'T':
                w.ext[k] = 1
                cxx.ref_add(w.A, w.st, k, 1)
            this = w.blank('this')
            s = w.raw('s')
            tx = atom('text', 'str')
            w.st.wreg('s')[0] = Cell('str', tx)
            outs = w.go([this, ptr(k), s])
            tilde = I(126)
            has = cpred('haschar', tx, tilde)
            nm = atom('name_' + k, 'str')
            F = w.A.cxx_fields[k]
            for o in outs:
                f = o.st.facts
                h = f.decide(has)
                ps = [x for t, x in o.st.notes() if t == 'parse']
                unk = not ps or any(y.unk for y in ps[-1])
                w.check(h is not None, 'value', 'does not look for the separator of the decimal approximation', o, unk)
                if h is None:
                    continue
                tt = mk('prefix', tx, mk('pos', tx, tilde)) if h else tx
                bad = cpred('malformed', tt, nm)
                d = f.decide(bad)
                if o.kind == 'throw':
                    w.check(d is True and exc_type(o.val) == 'std::invalid_argument', 'throw', 'throws %s although the text before the approximation was accepted' % exc_type(o.val), o, unk)
                    w.check_resources(o, [])
                    continue
                w.check(d is False, 'value', 'accepts text that was rejected as malformed, or parses something other than the text before the approximation in the name of the generator', o, unk)
                w.check_elem(o, 'this', mk('ev', mk('parsed', tt, nm), F.alpha), {k}, 'this')
                w.check_resources(o, ['this'])
            return w.done()
        addob('str', sig, fk, run)
    for fk in SAME:
        from_string(fk)

    # ---- from a vector of coefficients
    def from_vector(t, kd, fk):
        sig = '%s::renf_elem_class(%s, std::vector<%s> const&)' % (E, K, t)

        def run():
            w = World(cp, cp.find(sig), sig, DEG[fk])
            w.A.vec_kind = kd
            k, _ = mkfields(w, fk)
            if k != 'T':
                w.ext[k] = 1
                cxx.ref_add(w.A, w.st, k, 1)
            this = w.blank('this')
            s = w.raw('v')
            V = atom('V', 'PZ' if kd not in ('mpq',) else 'PQ')
            w.st.wreg('v')[0] = Cell('stdvec', V)
            outs = w.go([this, ptr(k), s])
            F = w.A.cxx_fields[k]
            for o in outs:
                if o.kind == 'throw':
                    w.check(False, 'throw', 'throws %s' % exc_type(o.val), o)
                    continue
                w.check_elem(o, 'this', mk('ev', V, F.alpha), {k}, 'this')
                w.check_resources(o, ['this'])
            return w.done()
        addob('vec', sig, fk, run)
    for t, kd in (('int', 's32'), ('unsigned int', 'u32'), ('long', 's64'), ('unsigned long', 'u64'), ('mpz_class', 'mpz'), ('mpq_class', 'mpq')):
        for fk in SAME:
            from_vector(t, kd, fk)

    # ---- the same for vectors of a given size, coefficient by coefficient
    def from_list(t, kd, fk, n):
        sig = '%s::renf_elem_class(%s, std::vector<%s> const&)' % (E, K, t)

        def run():
            w = World(cp, cp.find(sig), sig, '%s, %d coefficients' % (DEG[fk], n), opts={'unroll': 8, 'unroll_any': True})
            w.A.vec_kind = kd
            k, _ = mkfields(w, fk)
            if k != 'T':
                w.ext[k] = 1
                cxx.ref_add(w.A, w.st, k, 1)
            this = w.blank('this')
            s = w.raw('v')
            V = atom('V', 'PZ' if kd not in ('mpq',) else 'PQ')
            w.st.wreg('v')[0] = Cell('stdvec', V)
            w.A.vec_len = n
            outs = w.go([this, ptr(k), s])
            F = w.A.cxx_fields[k]
            want = ZERO
            for i in range(n):
                c = mk('pcoef' if kd != 'mpq' else 'qcoef', V, I(i))
                want = tadd(want, mul(c, power(F.alpha, I(i))))
            for o in outs:
                if o.kind == 'throw':
                    w.check(False, 'throw', 'throws %s' % exc_type(o.val), o)
                    continue
                w.check_elem(o, 'this', want, {k}, 'this')
            return w.done()
        addob('vec', sig, '%s%d' % (fk, n), run)
    for t, kd in (('int', 's32'), ('unsigned int', 'u32'), ('long', 's64'), ('unsigned long', 'u64'), ('mpz_class', 'mpz'), ('mpq_class', 'mpq')):
        for fk, n in (('L', 1), ('Q', 2), ('G', 2)):
            from_list(t, kd, fk, n)

"""Operators as user code writes them (clients/operators.cpp): binary operators and relations in every operand
order, including those that headers derive from the compound ones, and the helpers used by the Python interface."""
from .terms import *
from .state import *
from .cxx import World, exc_type, exc_match
from .cxxspec import Ob, OPS, TYPES, E, EC, DEG, SAME, DIFF, mkfields, finish, ret_bool, ret_mpz, both_irrational, env_strict

ARITH = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/'}
REL = {'eq': (0,), 'ne': (-1, 1), 'lt': (-1,), 'le': (-1, 0), 'gt': (1,), 'ge': (0, 1)}
SYM = {'eq': '==', 'ne': '!=', 'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}


def table(cp, thorough=False):
    out = []

    def addob(group, name, label, run):
        out.append(Ob(group, name, label, run))

    def scalar(fn, t, kd, fk, left):
        """left: the scalar is the left operand"""
        rel = fn in REL
        base = fn[3:] if fn.startswith('py_') else fn
        sig = 'client::%s(%s)' % (fn, ', '.join([t, EC] if left else [EC, t]))
        name = ('%s in Python' % base if fn.startswith('py_') else 'operator' + (SYM[fn] if rel else ARITH[base])) + '(%s)' % ', '.join([t, 'element'] if left else ['element', t])

        def run():
            w = World(cp, cp.find(sig), name, DEG[fk])
            k, _ = mkfields(w, fk)
            x, xv = w.elem('x', k)
            a, v = w.scalar('y', kd)
            l, r = (v, xv) if left else (xv, v)
            if base == 'div':
                w.st.facts.assume(csign(r, (-1, 1)))
            sc = [(a, kd, v, 'argument')] if not kd[1:].isdigit() else []
            args = [a, x] if left else [x, a]
            if rel:
                return finish(w, w.go(args), ['x'], {'x': (xv, k)}, {}, None, sc, ret_bool(w, csign(sub(l, r), REL[fn])))
            ret = w.blank('ret')
            return finish(w, w.go([ret] + args), ['x', 'ret'], {'x': (xv, k)}, {'ret': (OPS[ARITH[base]](l, r), {k, 'T'} if left else {k})}, None, sc)
        addob('opcmp' if rel else 'oparith', name, fk, run)

    def elems(fn, ka, kb, mode):
        rel = fn in REL
        base = fn[3:] if fn.startswith('py_') else fn
        sig = 'client::%s(%s, %s)' % (fn, EC, EC)
        name = ('%s in Python' % base if fn.startswith('py_') else 'operator' + (SYM[fn] if rel else ARITH[base])) + '(element, element)'

        def run():
            w = World(cp, cp.find(sig), name, '%s %s %s' % (mode, DEG[ka], DEG.get(kb, '')))
            ra, rb = mkfields(w, ka, kb)
            if mode != 'different fields':
                rb = ra
            x, xv = w.elem('x', ra)
            if mode == 'same object':
                y, v = x, xv
                vis, olds = ['x'], {'x': (xv, ra)}
            else:
                y, v = w.elem('y', rb)
                vis, olds = ['x', 'y'], {'x': (xv, ra), 'y': (v, rb)}
            if base == 'div':
                w.st.facts.assume(csign(v, (-1, 1)))

            def al(o):
                if mode != 'different fields':
                    return False
                if exc_match(exc_type(o.val), 'std::logic_error') and both_irrational(w, xv, v)(o):
                    return True
                return ka != 'T' and kb != 'T' and exc_type(o.val) == 'std::invalid_argument' and env_strict(o.st)
            if rel:
                return finish(w, w.go([x, y]), vis, olds, {}, al, (), ret_bool(w, csign(sub(xv, v), REL[fn])))
            ret = w.blank('ret')
            return finish(w, w.go([ret, x, y]), vis + ['ret'], olds, {'ret': (OPS[ARITH[base]](xv, v), {ra, rb})}, al)
        addob('opcmp' if rel else 'oparith', name, mode + ka + (kb or ''), run)

    for fn in list(ARITH) + list(REL) + ['py_' + a for a in ARITH]:
        for t, kd in TYPES:
            if fn.startswith('py_') and t not in ('int', 'mpz_class const&', 'mpq_class const&'):
                continue
            for fk in SAME:
                for left in (False, True):
                    scalar(fn, t, kd, fk, left)
        for a in SAME:
            elems(fn, a, None, 'same field')
            elems(fn, a, None, 'same object')
        for a, b in DIFF:
            elems(fn, a, b, 'different fields')

    for fk in SAME:
        def pyneg(fk=fk):
            w = World(cp, cp.find('client::py_neg(%s)' % EC), 'neg in Python', DEG[fk])
            k, _ = mkfields(w, fk)
            x, v = w.elem('x', k)
            return finish(w, w.go([w.blank('ret'), x]), ['x', 'ret'], {'x': (v, k)}, {'ret': (neg(v), {k})})
        addob('oparith', 'neg in Python', fk, pyneg)

        def pyrat(fk=fk):
            w = World(cp, cp.find('client::py_rational(%s)' % EC), 'rational in Python', DEG[fk])
            k, _ = mkfields(w, fk)
            x, v = w.elem('x', k)
            w.st.facts.rational.append(v)
            w.st.facts._clean()
            return finish(w, w.go([w.raw('ret'), x]), ['x'], {'x': (v, k)}, {}, None, (), ret_mpz(w, 'ret', v, 'mpq'))
        addob('opcmp', 'rational in Python', fk, pyrat)
    return out

"""Resource typestate of the C library: every FLINT/Arb object and heap block that a function initialises is
released exactly once on every normal path, and never used outside its lifetime."""
from .terms import *
from .state import *
from .state import _o
from .interp import Interp, Budget, trace_list, short
from . import flint, specs, roots, special
from .specs import Lay

BAD = ('leak', 'leak-throw', 'use-after-clear', 'use-maybe-cleared', 'double-clear', 'double-free', 'use-after-free', 'uninit', 'reinit', 'heap-leak')


def reach(st, roots_):
    """regions reachable from the given pointer terms"""
    seen = set()
    work = [r for r in roots_]
    while work:
        r = work.pop()
        if r in seen:
            continue
        seen.add(r)
        for c in st.mem.get(r, {}).values():
            if c.kind == 'int' and isinstance(c.val, T):
                for t in subterms(c.val):
                    if t.op == 'ptr' and t.args[0] not in seen:
                        work.append(t.args[0])
    return seen


def heap_leaks(A, o, args):
    """heap blocks that are alive at exit but unreachable for the caller"""
    st = o.st
    rs = [a.args[0] for a in args if a is not None and a.op == 'ptr']
    if o.val is not None:
        rs += [t.args[0] for t in subterms(o.val) if t.op == 'ptr']
    rs += [r for r, x in A.regions.items() if x.kind in ('global',)]
    ok = reach(st, rs)
    out = []
    for r, x in A.regions.items():
        if x.rid is not None and st.live.get(x.rid) in ('live', 'maybe') and r not in ok:
            out.append((r, x))
    return out


def add_heap_events(A, outs, args):
    for o in outs:
        if o.kind == 'abort':
            continue
        for r, x in heap_leaks(A, o, args):
            kind, where = A.rids.get(x.rid, ('allocation', ('', '')))
            if o.st.live.get(x.rid) == 'maybe':
                continue
            A.frames.append({'func': A.rootf, 'inst': None, 'id': '', 'allocas': []})
            A.event('heap-leak', o.st, '%s allocated at %s (%s) is neither released nor handed to the caller' % (kind, where[0], where[1]), data=where, loc=o.loc or where[0])
            A.frames.pop()


HEAVY = ('fmpz_poly_isolate_real_roots', '_fmpz_poly_isolate_real_roots_0_1_vca', 'fmpz_poly_num_real_roots_0_1', 'fmpz_poly_num_real_roots_0_1_vca',
         'fmpz_poly_num_real_roots_0_1_sturm', 'fmpz_poly_num_real_roots_vca', 'fmpz_poly_randtest_irreducible', 'fmpz_poly_num_real_roots_upper_bound',
         'renf_set_embeddings_fmpz_poly')


def neutral(A, st, args, inst):
    """a function analysed on its own: keeps the life cycle of its arguments, may change their values"""
    st.note('neutral-call')
    for a in args:
        if a is None or a.op != 'ptr' or a.args[0].startswith('@'):
            continue
        r = a.args[0]
        if r.startswith('co:'):
            rr, o, c = A.co_owner(st, r)
            if c is not None:
                A.alive(st, c, 'use', a)
                st.wreg(rr)[o] = Cell(c.kind, A.unknown('PZ', 'n'), c.rid, c.size, c.fld)
            continue
        reg = A.regions.get(r)
        if reg is not None and reg.rid is not None and st.live.get(reg.rid) == 'dead':
            A.event('use-after-free', st, '%s used after it was freed' % A.pname(a))
        o = off_key(a.args[1])
        m = st.wreg(r)
        if o in m:
            c = m[o]
            A.alive(st, c, 'use', a)
            if c.kind != 'int':
                m[o] = Cell(c.kind, A._unk_kind(c.kind) if c.kind != 'vec' else A.unknown('PZ', 'n'), c.rid, c.size, c.fld)
            else:
                m[o] = Cell('int', A.unknown('M%d' % (8 * c.size), 'n'), None, c.size)
        elif reg is not None and reg.kind == 'local' and not m:
            m[o] = Cell('int', A.unknown('M64', 'n'), None, 8)
    return flint.ret(st, None if inst.ty.k == 'void' else A._unk_ty(inst.ty))


def generic(prog, func, kind=None, opts=None):
    """analyse a function with unconstrained, distinct arguments"""
    func.parse()
    sp = specs.base_specs()
    for n in HEAVY:
        sp[n] = neutral
    sp.pop(func.name, None)
    A = Interp(prog, flint.M, sp, dict(opts or {}))
    A.CAP = 24
    A.rootf = func
    st = State(A)
    args = []
    pts = func.param_types()
    F = None
    for i, (nm, ty) in enumerate(func.params):
        depth, base, const = pts[i + 1] if i + 1 < len(pts) else (1, '', False)
        if ty.k == 'ptr':
            rn = 'arg%d' % i
            arr = base in ('fmpz', 'mp_limb_signed_t', 'char', 'renf') and not (base == 'renf' and kind)
            A.region(rn, 'param', lazy=True, array=arr, info='argument %d' % (i + 1))
            args.append(ptr(rn))
            if base == 'renf' and kind:
                F = roots.mk_field(A, st, rn, kind)
        elif ty.k == 'int':
            args.append(atom('arg%d' % i, 'M%d' % ty.n))
        elif ty.k == 'float':
            args.append(atom('arg%d' % i, 'D'))
        else:
            args.append(A.unknown('agg'))
    R = roots.Result(func.name, kind or '-', ())
    R.label = lambda: '%s[%s]' % (func.name, 'any arguments' if not kind else {'L': 'degree 1', 'Q': 'degree 2', 'G': 'degree>=3'}[kind])
    try:
        outs = A.run_function(st, func, args)
    except Budget as e:
        R.undecided.append(('budget', str(e), '', []))
        outs = []
    add_heap_events(A, outs, args)
    R.exits = len([o for o in outs if o.kind != 'abort'])
    R.stats, R.func = A.stats, func
    R.events = list(A.events.values())
    return R


def pair(prog, init, clear, mkargs, label, nclear):
    """everything `init` acquires is released by `clear`"""
    r = special.Run(prog, init, label)
    cf = prog.defs.get(clear)
    if cf is None or r.func is None:
        return r.R
    cf.parse()
    args = mkargs(r)
    outs = r.go(args)
    for o in outs:
        live0 = {k for k, v in o.st.live.items() if v in ('live', 'maybe') and not k.startswith('x')}
        sp = r.A.specs.pop(clear, None)
        try:
            res = r.A.run_function(o.st, cf, [args[i] for i in nclear])
        finally:
            if sp:
                r.A.specs[clear] = sp
        for o2 in res:
            if o2.kind == 'abort':
                continue
            left = [k for k in live0 if o2.st.live.get(k) in ('live', 'maybe')]
            r.check(not left, 'leak', '%s leaves %s initialised by %s' % (clear, ', '.join('%s (from %s)' % (r.A.rids[k][0], r.A.rids[k][1][0]) for k in left), init), o2, False)
    r.R.events = list(r.A.events.values())
    return r.R


def pairs(prog):
    out = []
    for kind in 'LQG':
        def mka(r, kind=kind):
            a, nf = r.reg('a'), r.reg('nf', lazy=True)
            roots.mk_field(r.A, r.st, 'nf', kind)
            return [a, nf]
        out.append(pair(prog, 'renf_elem_init', 'renf_elem_clear', mka, 'then clear, ' + kind, (0, 1)))

    def mki(r):
        nf, pol, emb = r.reg('nf'), r.reg('pol'), r.reg('emb')
        r.put('pol', 0, Cell('qpoly', atom('P', 'PQ')))
        r.put('emb', 0, Cell('arb', special.sball('emb', mk('rootof', atom('P', 'PQ')))))
        return [nf, pol, emb, atom('prec', 'M64')]
    out.append(pair(prog, 'renf_init', 'renf_clear', mki, 'then renf_clear', (0,)))

    def mks(r):
        d, s = r.reg('dest'), r.reg('src', lazy=True)
        roots.mk_field(r.A, r.st, 'src', 'G')
        return [d, s]
    out.append(pair(prog, 'renf_init_set', 'renf_clear', mks, 'then renf_clear', (0,)))
    return out

"""The properties and how each is decided."""
from .specs import S
import os, re
from . import progress, typestate, isolate, parse, stream, shared, build

ARITH = [n for n in S if n.split('_')[2] in ('neg', 'inv', 'add', 'sub', 'mul', 'div', 'pow', 'fmpq')]
ASSIGN = [n for n in S if n.split('_')[2] in ('init', 'zero', 'one', 'gen', 'set') and n not in ('renf_elem_set_evaluation',)]
PRED = [n for n in S if n.split('_')[2] in ('is', 'equal')]
CMP = [n for n in S if n.split('_')[2] in ('cmp', 'sgn')]
ROUND = ['renf_elem_floor', 'renf_elem_ceil', 'renf_elem_fdiv']
CONV = ['renf_elem_get_d']
REFINE = ('_fmpz_poly_newton_step_arb', 'fmpz_poly_newton_step_arb', '_fmpz_poly_bisection_step_arf', '_fmpz_poly_bisection_step_arb', 'fmpz_poly_bisection_step_arb', 'renf_refine_embedding')
EVAL = ('_fmpz_poly_evaluate_arb', 'fmpz_poly_evaluate_arb', 'fmpq_poly_evaluate_arb')
FIELD = ('renf_init', 'renf_init_set', 'renf_init_nth_root_fmpq', 'renf_set_embeddings_fmpz_poly', 'renf_equal', 'renf_set_immutable', 'renf_degree', 'fmpq_poly_check_unique_real_root')

REP = ('representation', 'field-mismatch', 'stale-coefficient', 'vec-bounds', 'div-zero', 'recursion')

FLINT_ASSUME = ['FLINT/Arb functions behave as documented (modelled by summaries in sa/flint.py)',
                'element and field arguments satisfy the library invariant on entry: the enclosure contains the exact value, the field embedding contains the root',
                'precisions and lengths do not wrap around in machine arithmetic unless the code compares them explicitly',
                'assertions are not relied upon to enforce a property unless they guard an abort']


def need(rep, Rs):
    """no analysable anchor at all: the check cannot answer"""
    if Rs and all(getattr(R, 'missing', False) for R in Rs):
        raise RuntimeError('no function of this property is defined any more')


def contract_prop(names, rules, closure_rules=None, special=(), events=()):
    def run(ctx, rep):
        own = set(names)
        seen, Rs = ctx.closure(names)
        need(rep, Rs)
        for R in Rs:
            if R.name in own:
                rep.add_result(R, rules)
            elif closure_rules != ():
                rep.add_result(R, closure_rules)
            if events:
                rep.add_events(R, events)
        for R in ctx.special_named(*special):
            rep.add_result(R)
            if events:
                rep.add_events(R, events)
        rep.assumptions += FLINT_ASSUME
    return run


def c01(ctx, rep):
    rep.rule('on every path, for every field kind (degree 1, 2, >=3) and every way the element arguments can coincide, the exact value written equals the documented operation on the entry values, also through the functions it calls')
    contract_prop(ARITH + ASSIGN, {'value', 'throw'}, None, EVAL, REP)(ctx, rep)


def c02(ctx, rep):
    rep.rule('after every API function, on every path, the enclosure of each element argument encloses its exact value and the field embedding still encloses the root')
    names = [n for n in S if n not in ('renf_elem_clear',)]
    contract_prop(names, {'enclosure', 'field', 'throw'}, {'enclosure', 'field', 'value', 'throw'}, EVAL)(ctx, rep)


def c03(ctx, rep):
    rep.rule('Newton and bisection steps return success only with a ball that provably contains the root contained in the input ball; refinement only installs such balls and hands its own polynomial, derivative and embedding to them')
    Rs = ctx.special_named(*(REFINE + EVAL))
    need(rep, Rs)
    for R in Rs:
        rep.add_result(R)
        rep.add_events(R, REP)
    rep.assumptions += FLINT_ASSUME


def c04(ctx, rep):
    rep.rule('every returned sign/comparison/predicate is implied by the facts certified on its path (exact rational comparison or strictly separated enclosures)')
    contract_prop(PRED + CMP, {'return', 'throw', 'enclosure'}, None, REFINE + EVAL, REP)(ctx, rep)


def c05(ctx, rep):
    rep.rule('every integer written by floor/ceil/floor division is provably the floor/ceil of the exact value on its path')
    contract_prop(ROUND, {'result', 'throw', 'enclosure'}, None, REFINE + EVAL, REP)(ctx, rep)


def c06(ctx, rep):
    rep.rule('for each of the five rounding modes the returned double is the directed rounding of the exact value, an infinity only beyond the finite range')
    contract_prop(CONV + ['renf_elem_get_arb'], {'return', 'throw', 'enclosure'}, None, REFINE + EVAL, REP)(ctx, rep)


def c07(ctx, rep):
    rep.rule('exact value of every input element, scalar and the field polynomial equal on exit and on entry unless the argument is an output')
    names = list(S)
    seen, Rs = ctx.closure(names)
    need(rep, Rs)
    for R in Rs:
        rep.add_result(R, {'operand-changed', 'field'})
    for R in ctx.special():
        rep.add_result(R, {'operand-changed', 'field'})
    rep.assumptions += FLINT_ASSUME


def c08(ctx, rep):
    rep.rule('after construction or copy the field holds the given polynomial, its derivative, the requested precision and an embedding enclosing the isolated root; the immutable flag follows the documented protocol')
    Rs = ctx.special_named(*FIELD) + ctx.special_named('renf_refine_embedding')
    need(rep, Rs)
    for R in Rs:
        rep.add_result(R)
    rep.assumptions += FLINT_ASSUME


def c09(ctx, rep):
    rep.rule('every round of a loop that refines the embedding requests strictly more precision than the round before and recomputes the enclosures it tests; every refinement round adopts a step or raises the working precision')
    rs = progress.run(ctx.prog)
    n = 0
    for name, kind, w, R in rs:
        if R.stats:
            rep.functions |= R.stats['functions']
        for k, L in w.loops.items():
            n += 1
            rep.ok(L.ok)
            for v in L.viol:
                rep.bad(v[0], v[1], v[2][0] if isinstance(v[2], tuple) else v[2], L.func, v[3], '%s[%s]' % (name, kind))
            for u in L.undec:
                rep.undec('%s[%s] loop %s: %s' % (name, kind, L.loc, u))
    for R in ctx.special_named('_fmpz_poly_newton_step_arb', '_fmpz_poly_bisection_step_arb'):
        p = getattr(R, 'progress', None)
        if p:
            if p[0] and p[1]:
                rep.ok()
            elif p[4]:
                rep.undec('%s: progress' % R.name)
            else:
                rep.bad('no-progress', 'a refinement step can report success although its result is not strictly inside the previous ball', p[2], R.name, p[3])
    rep.details['refinement_loops'] = n
    rep.assumptions += FLINT_ASSUME + ['refinement itself converges (numerical analysis of Newton/bisection is out of scope)']


def c10(ctx, rep):
    rep.rule('every FLINT/Arb object and heap block a C function initialises is released exactly once on every normal path, never used before initialisation or after release; init/clear pairs balance')
    Rs = ctx.typestate()
    need(rep, Rs)
    for R in Rs:
        rep.add_events(R, typestate.BAD)
        for u in R.undecided:
            rep.undec('%s: %s' % (R.label(), u[1]))
        for v in R.viol:
            rep.bad(v[0], v[1], v[2], R.name, v[3], R.label())
    rep.assumptions += FLINT_ASSUME + ['paths that end in abort()/flint_abort/assert failure are not required to release anything']


XVAL = {'value', 'parent', 'storage', 'enclosure', 'return', 'throw', 'operand-changed', 'result'}
XRES = {'leak', 'shared', 'dangling', 'refcount', 'lock-held', 'storage', 'parent'}
XBAD = tuple(typestate.BAD) + ('null-deref', 'overwrite-leak', 'ref-underflow', 'deadlock', 'unlock')
XEV = REP + ('overflow', 'global-write', 'field-mismatch')
CXX_ASSUME = FLINT_ASSUME + ['std::string, GMP and the C++ runtime behave as documented (modelled by summaries in sa/cxx.py)',
                             'allocation failure (std::bad_alloc) is not modelled',
                             'each C function called behaves as its contract, which this check verifies as well']


def cxx_prop(ctx, rep, groups, rules, events, closure=True):
    Rs = ctx.cxx_results(groups)
    if any(g.startswith('op') for g in groups):
        Rs = Rs + ctx.op_results(groups)
    need(rep, Rs)
    used = set()
    for R in Rs:
        rep.add_result(R, rules)
        if events:
            rep.add_events(R, events)
        used |= {u[0] for u in R.uses}
    if closure:
        seen, Cs = ctx.closure(sorted(used))
        for R in Cs:
            rep.add_result(R, {'value', 'result', 'return', 'enclosure', 'throw', 'field'})
        for R in ctx.special_named(*(REFINE + EVAL)):
            rep.add_result(R)
    rep.assumptions += CXX_ASSUME


def c11(ctx, rep):
    rep.rule('after every constructor, assignment, swap and coercion the target holds exactly the source value, its parent is the documented field and its storage has that field\'s layout; an exception leaves the operands as they were')
    cxx_prop(ctx, rep, ('ctor', 'assign', 'str', 'vec'), XVAL, XEV)


def c12(ctx, rep):
    rep.rule('every overload of the compound operators, unary operators and powers stores or returns exactly the mathematical result in a field containing it, for every scalar type, same field, same object and different fields; the only exceptions are the documented ones')
    cxx_prop(ctx, rep, ('arith', 'oparith'), XVAL, XEV)


def c13(ctx, rep):
    rep.rule('every relational operator, predicate and conversion of the C++ interface returns the answer implied by the exact values')
    cxx_prop(ctx, rep, ('cmp', 'pred', 'conv', 'coef', 'opcmp'), XVAL, XEV)


def c14(ctx, rep):
    rep.rule('on every return and on every exception of the C++ interface each element storage is owned by exactly one object, every local FLINT/GMP object and heap block is released, no mutex stays locked, and the reference count of each field equals the number of its holders')
    cxx_prop(ctx, rep, ('ctor', 'dtor', 'assign', 'arith', 'cmp', 'pred', 'conv', 'coef', 'str', 'vec', 'field', 'io', 'hash', 'oparith', 'opcmp'), XRES, XBAD, closure=False)


REGEV = ('unlocked-registry', 'dangling-registry', 'use-after-free', 'non-atomic', 'lost-update', 'memory-order', 'ref-underflow', 'deadlock', 'unlock',
         'erase', 'duplicate', 'double-clear', 'uninit', 'null-deref', 'overwrite-leak')


def c15(ctx, rep):
    rep.rule('every function that touches the registry of fields or a reference count is run against everything other threads may do between its steps: lookups and insertions happen under one common mutex and in one critical section, a reference is taken before the mutex is released, the field is destroyed and unregistered exactly when the last reference goes, and fields are identified exactly by polynomial, root and generator name')
    Rs = ctx.cxx_results(('reg',))
    need(rep, Rs)
    acc = []
    for R in Rs:
        rep.add_result(R)
        rep.add_events(R, REGEV)
        acc += [(loc, ls, R) for loc, ls in getattr(R, 'locksets', ())]
    held = [(loc, ls, R) for loc, ls, R in acc if ls]
    if held:
        common = frozenset.intersection(*[ls for loc, ls, R in held])
        if common:
            rep.ok()
        else:
            loc, ls, R = held[0]
            other = next((h for h in held if not (h[1] & ls)), held[-1])
            rep.bad('lockset', 'the registry is accessed under different mutexes here and at %s' % (other[0],), loc[0] if isinstance(loc, tuple) else loc, R.name)
    rep.details['registry_accesses'] = len(set((a[0], a[1]) for a in acc))
    rep.assumptions += CXX_ASSUME + ['std::unordered_set, std::mutex and atomic instructions behave as documented', 'clients hold a reference to every field they use']


def c16(ctx, rep):
    rep.rule('every printing function produces text whose exact part is the polynomial of the stored value in the given generator name and whose decimal part is a ball around that same value, of the requested kind, inside buffers that are large enough, and leaves the printed object as it was')
    Rs = ctx.text()
    need(rep, Rs)
    used = set()
    for R in Rs:
        rep.add_result(R)
        rep.add_events(R, ('buffer-overflow', 'null-deref', 'uninit'))
        used |= {u[0] for u in R.uses}
    Xs = ctx.cxx_results(('io',))
    need(rep, Xs)
    for R in Xs:
        rep.add_result(R, {'text', 'throw', 'return', 'operand-changed'})
        rep.add_events(R, ('buffer-overflow', 'null-deref'))
        used |= {u[0] for u in R.uses}
    for R in ctx.closure(sorted(used))[1]:
        rep.add_result(R, {'value', 'result', 'return', 'enclosure', 'field'})
    rep.assumptions += CXX_ASSUME + ['FLINT and Arb print polynomials and balls correctly']


def c17(ctx, rep):
    rep.rule('the hash of an element or field is computed only from data on which equal elements (equal fields) agree, never from stored balls, precisions or addresses of copies; field equality compares polynomial, root and generator name')
    cxx_prop(ctx, rep, ('hash',), {'hash', 'value', 'return', 'throw', 'operand-changed', 'key', 'result'}, ('null-deref',), closure=True)


def c18(ctx, rep):
    rep.rule('making a field from text parses exactly the given polynomial in the given generator, registers it only with a ball of the given text certified to contain one root, releases everything on every exit, and retries only with more precision; the reported construction data are those of the field')
    cxx_prop(ctx, rep, ('make',), XVAL | XRES | {'text', 'no-progress'}, XBAD, closure=False)
    for R in ctx.special_named('fmpq_poly_check_unique_real_root', 'renf_init'):
        rep.add_result(R)
    rep.assumptions += ['the text parsers of FLINT/Arb and of the polynomial reader accept what they document', 'the function that supplies balls may return any text or throw']


def c19(ctx, rep):
    rep.rule('saving writes the identifier of the field and, the first time, its construction data, and for an element its field and the exact text of its value; loading reads the same entries in the same order, puts each where it came from and registers the field under its identifier; an archive keeps every field alive that it identifies by address')
    Rs = ctx.serial_results()
    need(rep, Rs)
    used = set()
    for R in Rs:
        rep.add_result(R)
        rep.add_events(R, XBAD)
        used |= {u[0] for u in R.uses}
    for R in ctx.cxx_results(('make',)):
        if '::construction' in R.name:
            rep.add_result(R)
    for R in ctx.text():
        if R.name.startswith('renf_elem_'):
            rep.add_result(R)
    for R in ctx.closure(sorted(used))[1]:
        rep.add_result(R, {'value', 'result', 'return', 'enclosure', 'field'})
    rep.assumptions += CXX_ASSUME + ['archives store and return values faithfully and in order', 'the polynomial reader and the polynomial printer are inverse to each other']


def c20(ctx, rep):
    rep.rule('each partial quotient is the floor of the exact remainder, the expansion goes on exactly while something remains, and the remainder handed back is the exact one')
    Rs = ctx.cfrac()
    need(rep, Rs)
    used = set()
    for R in Rs:
        rep.add_result(R)
        rep.add_events(R, REP)
        used |= {u[0] for u in R.uses}
    for R in ctx.closure(sorted(used))[1]:
        rep.add_result(R, {'value', 'result', 'return', 'enclosure', 'field', 'throw'})
    for R in ctx.special_named(*(REFINE + EVAL)):
        rep.add_result(R)
    rep.details['quotients'] = 'at most 3 (quick) or 6 (thorough)'
    rep.assumptions += FLINT_ASSUME


ISO_ASSUME = FLINT_ASSUME + ['Descartes\' rule of signs and Sturm\'s theorem', 'the polynomial has no multiple root where the documentation asks for that',
                            'the code treats polynomials of higher degree and deeper bisections as it treats those of the analysed size']


def iso_prop(ctx, rep, groups):
    Rs = ctx.isolation(groups)
    need(rep, Rs)
    for R in Rs:
        rep.add_result(R)
        rep.add_events(R, isolate.BADEV)
    rep.details['groups'] = sorted(groups)
    rep.assumptions += ISO_ASSUME


def c21(ctx, rep):
    rep.rule('the bound exceeds every positive root (terms of the other sign are dominated by shares of terms of the leading sign); the root test counts the sign variations of the polynomial moved to the unit interval; the bisection applies it to the polynomial on dyadic intervals that tile [0,1) and reports exactly those with a root; both half lines are rescaled by their bound and mapped back')
    iso_prop(ctx, rep, {'bound', 'descartes', 'vca', 'line'})


def c22(ctx, rep):
    rep.rule('each count is the number of reported roots of the given polynomial; the Sturm count equals the loss of sign variations of the exact sequence; existence answers carry a certificate; changes of variable and squarefree parts are the exact ones')
    iso_prop(ctx, rep, {'count', 'sturm', 'scale', 'hasroot', 'ubound', 'squarefree', 'abs', 'descartes', 'vca', 'bound'})


def c23(ctx, rep):
    rep.rule('interpreted over every text of bounded length (each character a set of bytes that the program\'s own tests split) the reader accepts exactly the documented texts and produces exactly the denoted polynomial, inside the memory it was given and allocates, and releases everything')
    Rs = ctx.reading()
    need(rep, Rs)
    for R in Rs:
        rep.add_result(R)
        rep.add_events(R, parse.BADEV)
    rep.assumptions += FLINT_ASSUME[:1] + ['texts longer than the analysed ones are read like those (the reader keeps no state between characters but its position, the sign and the current term)']


def c24(ctx, rep):
    rep.rule('interpreted over streams with every text of bounded length (each character a set of bytes that the program\'s own tests split), reading takes exactly the characters of the next element and assigns what they denote in the attached field, leaves the rest, and reports missing, unfinished and malformed elements')
    Rs = ctx.streaming()
    need(rep, Rs)
    for R in Rs:
        rep.add_result(R)
        rep.add_events(R, stream.BADEV)
    rep.assumptions += ['streams behave as the C++ standard says, are in a good state and do not throw by themselves', 'texts longer than the analysed ones are read like those (the reader keeps no state between characters but the text so far)', 'the text constructor of elements is covered by C11 and C23']


def c25(ctx, rep):
    rep.rule('no function modifies an object with static storage duration unless a lock is held or the object synchronises by itself; no call of a function of the C library with hidden state; '
             'no operation writes the embedding, precision or mark of an existing field except by a refinement; a refinement of a field marked immutable does not return; constant elements are not written')
    ctx.prog
    src = {build.name_of(f) + '.ll': f for f in build.c_sources()}
    mut = set()
    for m in ctx.cmods:
        for n, b in m.globals.items():
            if re.search(r'\bglobal\b', b.split('{')[0]) and not re.search(r'\b(external|thread_local|constant)\b', b.split('{')[0]):
                mut.add(src[os.path.basename(m.name)])
        for n in m.declares:
            rep.obligations += 1
            if n in shared.UNSAFE:
                rep.bad('hidden-state', 'calls %s, which is not safe in several threads' % n, m.name, n, [], 'call of %s' % n)
            else:
                rep.discharged += 1
    nv, nr, nw, bad, unk = shared.run(sorted(mut), ctx.dir)
    rep.obligations += nr + nw
    rep.discharged += nr + nw
    for name, ty, fn, where in bad:
        rep.bad('shared-state', 'modifies %s (%s), which all threads share, without a lock' % (name, ty), where, fn, [], 'static variable %s' % name)
    for name, ty, fn, where in unk:
        rep.undec('%s: use of %s (%s) in %s' % (where, name, ty, fn))
    seen, Rs = ctx.closure(list(S))
    need(rep, Rs)
    for R in Rs:
        rep.add_result(R, {'shared-field', 'shared-operand'})
        rep.add_events(R, ('shared-field', 'shared-operand', 'global-write'))
    for R in ctx.special_named('renf_refine_embedding', 'renf_init_set', 'renf_set_immutable', 'renf_init', 'renf_set_embeddings_fmpz_poly'):
        rep.add_result(R, {'immutable', 'immutable-flag', 'shared-field'})
    rep.samples.append('%d variables with static storage that are not constant, %d reads, %d modifications with a lock held' % (nv, nr, nw))
    rep.assumptions += FLINT_ASSUME + ['FLINT, GMP and the C++ standard library are safe to use in several threads on different objects']


PROPS = {'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04, 'C05': c05, 'C06': c06, 'C07': c07, 'C08': c08, 'C09': c09, 'C10': c10,
         'C11': c11, 'C12': c12, 'C13': c13, 'C14': c14,
         'C15': c15, 'C16': c16, 'C17': c17, 'C18': c18, 'C19': c19, 'C20': c20, 'C21': c21, 'C22': c22, 'C23': c23, 'C24': c24, 'C25': c25}
TECH = {}

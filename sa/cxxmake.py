"""Making fields from text: what is parsed, checked and registered, and what happens when it cannot be."""
from .terms import *
from .state import *
from .interp import subst_term, trace_list, Outcome, Budget
from . import cxx, flint, roots, text, progress
from .flint import ret
from .cxx import World, XL, exc_type, sread, swrite, ctext, ref_add, ref_get
from .specs import Lay
from .terms import add as tadd

MF = 'eantic::renf_class::make(std::string const&, std::string const&, std::function<std::string (long)>, long)'
MS = 'eantic::renf_class::make(std::string const&, std::string const&, std::string const&, long)'
NF = 'eantic::renf_class::make(renf const*, std::string const&)'
CALL = 'std::function<std::string (long)>::operator()(long) const'


def cell(st, p):
    return st.reg(p.args[0]).get(off_key(p.args[1])) if p.op == 'ptr' else None


def sp_call(A, st, args, inst):
    """the caller's function: some text for this precision, or an exception"""
    p = sval(A.simp(st, args[2]))
    st.note('cb', p, A.here_repo()[0])
    s = st.copy()
    swrite(A, st, args[0], mk('cbtext', p))
    return [Outcome(st, 'ret', None), Outcome(s, 'throw', mk('exc', 'callback', A.here_repo()[0]), A.here_repo()[0])]


def sp_set_str(A, st, args, inst):
    """arb_set_str: nonzero on malformed text, else a ball containing the numbers the text denotes"""
    t = ctext(A, st, args[1])
    outs = []
    c = cpred('badball', t)
    st.note('balltext', t, sval(A.simp(st, args[2])))
    for truth in (True, False) if t.op != 'fmtball' else (False,):
        s = st.copy()
        try:
            s.facts.assume(c if truth else cnot(c))
        except Contradiction:
            continue
        A.write(s, 'arb', args[0], A.unknown('ball', 'b') if truth else ball('fromtext', None, t, sval(A.simp(st, args[2]))))
        outs.append(Outcome(s, 'ret', mconst(1 if truth else 0, 32)))
    return outs


def sp_init(A, st, args, inst):
    P = A.read(st, 'qpoly', args[1])
    e = A.read(st, 'arb', args[2])
    p = sval(A.simp(st, args[3]))
    rid = A.fresh('renf')
    A.rids[rid] = ('field data', A.here_repo())
    st.live[rid] = 'live'
    st.set_cell(args[0], Cell('renfval', mk('renfval', P, e, p), rid))
    st.note('init', P, e, p, st.facts.decide(cpred('uniqueroot', P, e)))
    return ret(st)


def sp_clear(A, st, args, inst):
    c = cell(st, args[0])
    if c is None or c.kind != 'renfval':
        A.event('uninit', st, 'renf_clear of something that is not an initialised field')
        return ret(st)
    if st.live.get(c.rid) == 'dead':
        A.event('double-clear', st, 'field data cleared twice')
    st.live[c.rid] = 'dead'
    return ret(st)


def sp_make_nf(A, st, args, inst):
    c = cell(st, args[1])
    name = sread(A, st, args[2])
    ok = c is not None and c.kind == 'renfval' and st.live.get(c.rid) == 'live'
    st.note('make', c.val if ok else None, name, A.here_repo()[0])
    st.set_cell(args[0], Cell('int', ptr('K'), None, 8))
    ref_add(A, st, 'K', 1)
    return ret(st)


class Retry:
    """loop hook: a round that starts over asks for more precision than the one before"""

    def __init__(self, w):
        self.w = w
        self.seen = 0
        self.refused = True     # every round that starts over was refused its ball

    def __call__(self, A, func, b, body, H, Bs, it):
        for B in Bs:
            ns, _ = progress.notes_since(B, H.log)
            bt = [d[0] for t, d in ns if t == 'balltext']
            cbs = [d for t, d in ns if t == 'cb']
            if not bt:
                continue
            if not any(q.op[2:] == 'uniqueroot' and not v for q, v in B.facts.predterms):
                self.refused = False
            self.full(A, B, [d for t, d in ns if t == 'balltext'], cbs[0][0] if cbs else None)
            if len(set(bt)) == 1 and len(cbs) <= 1:
                self.examine(A, func, b, body, B, cbs[0][0] if cbs else None, bt[0])

    def full(self, A, B, reads, p0):
        """a ball is refused only after it was read without losing digits"""
        f = B.facts
        p0 = p0 if p0 is not None else reads[0][1]
        ok, unk = False, False
        for q, v in f.predterms:
            if q.op[2:] == 'uniqueroot' and not v:
                b = q.args[1]
                if ball_text(b) is None:
                    unk = True
                    continue
                ok = ok or f.sign(sub(b.args[3], full_prec(ball_text(b), p0))) <= {0, 1}
        if ok:
            self.w.R.ok += 1
        else:
            (self.w.R.undecided if unk else self.w.R.viol).append(('throw', 'a ball is refused after it was rounded to precision %s: it might isolate a root as given' % ', '.join(show(d[1]) for d in reads), A.here_repo()[0], trace_list(B)))

    def examine(self, A, func, b, body, B, p1, t1):
        o2, ex, backs = [], [], []
        hook, A.opts['loop_hook'] = A.opts['loop_hook'], None
        ev = dict(A.events)
        try:
            A.run_scope(B.copy(), func, (b, body), b, None, o2, 8, ex, backs, phi_done=True)
        except Budget:
            return
        finally:
            A.opts['loop_hook'] = hook
            A.events = ev
        for pr, s in backs:
            ns2, _ = progress.notes_since(s, B.log)
            unk = any(c.op == 'unkcall' for c in s.facts.opaque)
            v = self.judge(A, B, s, p1, t1, ns2)
            if v is not None and self.leaves(A, func, b, body, pr, s):
                v = None
            if v is None:
                self.w.R.ok += 1
            else:
                (self.w.R.undecided if unk else self.w.R.viol).append(v)

    def leaves(self, A, func, b, body, pr, s):
        """the loop is left before anything else happens"""
        o2, ex, backs = [], [], []
        hook, A.opts['loop_hook'] = A.opts['loop_hook'], None
        ev = dict(A.events)
        try:
            s = s.copy()
            A.phis(s, func, b, pr)
            A.run_scope(s, func, (b, body), b, None, o2, 8, ex, backs, phi_done=True)
        except Budget:
            return False
        finally:
            A.opts['loop_hook'] = hook
            A.events = ev
        return not backs

    def judge(self, A, B, s, p1, t1, ns2):
        c2 = [d for t, d in ns2 if t == 'cb']
        t2 = [d[0] for t, d in ns2 if t == 'balltext']
        v = None
        if c2 and p1 is not None:
            g = progress.growth(s.facts, p1, c2[-1][0])
            if g in ('same', 'shrinks', 'maybe'):
                v = ('no-progress', 'after a ball that does not isolate a root the next round asks for precision %s, the one before for %s' % (show(c2[-1][0]), show(p1)), c2[-1][1], trace_list(s))
        elif t2 and t2[-1] is t1:
            p2 = [d[1] for t, d in ns2 if t == 'balltext'][-1]
            new = [(t, sg) for t, sg in s.facts.signs if (t, sg) not in B.facts.signs and not (t.op == 'sub' and t.args[0] is p2 and -1 not in sg and 1 in sg)]
            if not new:
                v = ('no-progress', 'a ball that does not isolate a root is tried again and again', A.here_repo()[0], trace_list(s))
        return v


class Rounds(Retry):
    """loop hook: each further round refines the embedding further"""

    def __call__(self, A, func, b, body, H, Bs, it):
        for B in Bs:
            ns, _ = progress.notes_since(B, H.log)
            if any(t == 'balltext' for t, d in ns):
                self.examine(A, func, b, body, B, [d for t, d in ns if t == 'refine-call'], None)

    def judge(self, A, B, s, p1, t1, ns2):
        p2 = [d for t, d in ns2 if t == 'refine-call']
        if not p1 or not p2:
            return ('no-progress', 'a ball that does not isolate the root is printed again and again', A.here_repo()[0], trace_list(s))
        if progress.growth(s.facts, p1[-1][0], p2[-1][0]) in ('same', 'shrinks', 'maybe'):
            return ('no-progress', 'after a ball that does not isolate the root the next round refines to precision %s, the one before to %s' % (show(p2[-1][0]), show(p1[-1][0])), p2[-1][1][0], trace_list(s))


def full_prec(t, p):
    """the precision with which a text is read before it is refused"""
    return tadd(p, mul(I(4), mk('slen', t)))


def ball_text(e):
    return e.args[2] if e.op == 'ball' and len(e.args) > 2 and e.args[0] == 'fromtext' else None


def add(cp, addob):
    def extra(call):
        d = {}
        for sig, m in ((NF, sp_make_nf),) + (((CALL, sp_call),) if call else ()):
            f = cp.find(sig)
            if f is not None:
                d[f.name] = m
        d['arb_set_str'] = sp_set_str
        d['renf_init'] = sp_init
        d['renf_clear'] = sp_clear
        return d

    def world(sig, label, call):
        opts = {}
        w = World(cp, cp.find(sig), sig, label, opts=opts, extra=extra(call))
        w.field('K', 'G')
        w.retry = Retry(w)
        w.A.opts['loop_hook'] = w.retry
        return w

    def judge(w, o, tp, tg, tb, prec):
        """one exit: tb(p) is the text of the ball for precision p"""
        f = o.st.facts
        ns = o.st.notes()
        bad = cpred('malformed', tp, tg)
        if o.kind == 'throw':
            e = exc_type(o.val)
            if e == 'callback':
                w.R.ok += 1
            else:
                ok = e == 'std::invalid_argument' and (f.decide(bad) is True or refused(w, o, prec))
                w.check(ok, 'throw', 'throws %s although polynomial and ball were accepted' % e, o, any('?L' in show(t) for t, s in f.signs))
            w.check_resources(o, [])
            return
        mks = [d for t, d in ns if t == 'make']
        ini = [d for t, d in ns if t == 'init']
        w.check(len(mks) == 1 and mks[0][0] is not None, 'value', 'does not register exactly one initialised field', o)
        if len(mks) != 1 or mks[0][0] is None:
            return
        P, e, p = mks[0][0].args
        w.check(P is mk('parsed', tp, tg), 'value', 'the field is made with polynomial %s instead of the one given' % show(P)[:80], o, P.unk)
        t = ball_text(e)
        w.check(t is not None and any(t is x for x in tb(p)), 'value', 'the field is made with %s at precision %s instead of the ball given for that precision' % (show(e)[:100], show(p)), o, e.unk and t is None)
        w.check(f.decide(cpred('uniqueroot', P, e)) is True, 'value', 'the field is made although the ball was not certified to contain exactly one root', o, e.unk and t is None)
        w.check(mks[0][1] is tg, 'value', 'the field is registered with generator %s' % show(mks[0][1]), o, mks[0][1].unk and mks[0][1] is not tg and mks[0][1].op != 'atom')
        c = cell(o.st, ptr('ret'))
        w.check(c is not None and c.val is ptr('K'), 'return', 'does not return the registered field', o, c is not None and c.val.unk)
        w.ext['K'] = 1
        w.check_resources(o, [])
        w.ext['K'] = 0

    def refused(w, o, prec):
        """the ball text is malformed or does not isolate a root"""
        f = o.st.facts
        if w.retry.refused and any(0 not in s and prec is not None and prec in subterms(t) for t, s in f.signs):
            return True     # not the first round: the rounds before were refused
        for q, v in f.predterms:
            if q.op[2:] == 'badball' and v:
                return True
            if q.op[2:] == 'uniqueroot' and not v:
                return True
        return False

    def fn():
        w = world(MF, 'any function', True)
        A, st = w.A, w.st
        for r in ('poly', 'gen'):
            w.raw(r)
            st.wreg(r)[0] = Cell('str', atom('text_' + r, 'str'))
        w.raw('ret')
        w.raw('emb', True)
        pr = atom('prec', 'M64')
        for o in w.go([ptr('ret'), ptr('poly'), ptr('gen'), ptr('emb'), pr]):
            judge(w, o, atom('text_poly', 'str'), atom('text_gen', 'str'), lambda p: [mk('cbtext', p)], pr)
        return w.done()
    addob('make', MF, 'any', fn)

    def strs():
        w = world(MS, 'any text', False)
        A, st = w.A, w.st
        for r in ('poly', 'gen', 'emb'):
            w.raw(r)
            st.wreg(r)[0] = Cell('str', atom('text_' + r, 'str'))
        w.raw('ret')
        pr = atom('prec', 'M64')
        for o in w.go([ptr('ret'), ptr('poly'), ptr('gen'), ptr('emb'), pr]):
            f = o.st.facts
            if o.kind == 'ret':
                mks = [d for t, d in o.st.notes() if t == 'make' and d[0] is not None]
                if len(mks) == 1:
                    p = mks[0][0].args[2]
                    w.check(f.equal(p, sval(pr)) or f.sign(sub(p, sval(pr))) == {0}, 'value', 'the field is made with precision %s instead of the one given' % show(p), o, p.unk)
            judge(w, o, atom('text_poly', 'str'), atom('text_gen', 'str'), lambda p: [atom('text_emb', 'str')], pr)
        return w.done()
    addob('make', MS, 'any', strs)

    # ---- the data from which a field can be made again
    CON = 'eantic::renf_class::construction() const'

    def construction(fk):
        w = World(cp, cp.find(CON), CON, {'L': 'degree 1', 'Q': 'degree 2', 'G': 'degree >= 3'}[fk], extra={'arb_set_str': sp_set_str})
        w.field('K', fk, ext=1)
        F = w.A.cxx_fields['K']
        w.raw('ret')
        name = atom('name_K', 'str')
        w.st.wreg('K')[XL.renf + Lay.prec] = Cell('int', atom('prec_K', 'M64'), None, 8)
        w.A.opts['loop_hook'] = Rounds(w)
        for o in w.go([ptr('ret'), ptr('K')]):
            if o.kind == 'throw':
                w.check(False, 'throw', 'throws %s' % exc_type(o.val), o)
                continue
            f = o.st.facts
            P, g, e = [sread(w.A, o.st, ptr('ret', i)) for i in (72, 40, 8)]
            ok = P.op == 'fmtpoly' and f.equal(P.args[0], mk('fieldpol', F.alpha, F.kind)) and P.args[1] is name
            w.check(ok, 'text', 'the polynomial is given as %s' % show(P)[:100], o, P.unk)
            w.check(g is name, 'text', 'the name of the generator is given as %s' % show(g)[:100], o, g.unk)
            en = encl(e.args[0]) if e.op == 'fmtball' else None
            ok = en is not None and f.encloses(en, F.alpha)
            w.check(ok, 'text', 'the embedding is given as %s, which is not a ball around the generator' % show(e)[:100], o, e.unk and e.op != 'fmtball')
            # what is printed was read again, at a precision with which it is going to be read, and isolates the root
            good, qs = False, []
            for q, v in f.predterms:
                if q.op[2:] == 'uniqueroot' and v and f.equal(q.args[0], mk('fieldpol', F.alpha, F.kind)) and ball_text(q.args[1]) is e:
                    qs.append(q.args[1].args[3])
                    good = good or f.sign(sub(q.args[1].args[3], full_prec(e, mk('S', atom('prec_K', 'M64'))))) <= {-1, 0}
            w.check(not text_noradius(e), 'text', 'the ball is printed without its radius, so it need not contain the root', o)
            w.check(good, 'text', 'the ball is given as %s, which %s' % (show(e)[:80], 'is read again with more digits than %s' % show(qs[0]) if qs else 'need not isolate the root: it was not tested after it was rounded'), o, e.unk and e.op != 'fmtball')
            c = cell(o.st, ptr('ret', 0))
            p = sval(c.val) if c is not None and c.kind == 'int' else None
            w.check(p is not None and p is mk('S', atom('prec_K', 'M64')), 'value', 'the precision is given as %s' % (show(p) if p is not None else '?'), o, p is None or p.unk)
            w.check_resources(o, [])
        return w.done()
    for fk in 'LQG':
        addob('make', CON, fk, lambda fk=fk: construction(fk))


def text_noradius(t):
    return len(t.args) > 2 and isint(t.args[2]) and t.args[2].args[0] & 2 != 0

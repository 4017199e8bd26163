"""Refinement loops: every round that could not decide retries with more precision and re-evaluates what it tests."""
from .terms import *
from .state import *
from .interp import Interp, Budget, trace_list
from . import flint, specs, roots, special
from .specs import S, Lay


class Loop:
    def __init__(self, func, b, loc):
        self.func, self.b, self.loc = func, b, loc
        self.viol, self.undec, self.ok = [], [], 0

    def bad(self, rule, msg, loc, st):
        if any(c.op == 'unkcall' for c in st.facts.opaque):
            self.undec.append(msg)
        else:
            self.viol.append((rule, msg, loc, trace_list(st)))


def notes_since(B, log0):
    out = []
    l = B.log
    while l is not None and l is not log0:
        out.append((l[0], l[1]))
        l = l[2]
    return list(reversed(out)), l is log0


def growth(f, p1, p2):
    """'same' | 'grows' | 'shrinks' | 'maybe' (not for all precisions) | None for two machine integers (signed reading)"""
    if p1 is p2 or f.equal(p1, p2):
        return 'same'
    for k in (2, 3, 4, 5, 6, 8, 10, 16):
        if f.equal(p2, mul(I(k), p1)) or f.equal(stripS(p2), mul(I(k), stripS(p1))):
            return 'grows'
        if f.equal(p1, mul(I(k), p2)) or f.equal(stripS(p1), mul(I(k), stripS(p2))):
            return 'shrinks'
    d = sub(stripS(p2), stripS(p1))
    if isint(d):
        return 'grows' if d.args[0] > 0 else 'shrinks'
    q1, q2 = stripS(p1), stripS(p2)
    if q2.op == 'add' and q1 in q2.args and len(q2.args) == 2:
        d = q2.args[1] if q2.args[0] is q1 else q2.args[0]
    if f.sign(d) == {1}:
        return 'grows'
    if d.op in ('S', 'U') and d.args[0].op == 'atom' and 0 in f.sign(d):
        return 'maybe'          # one plain variable that nothing bounds away from zero
    xs = {x for x in subterms(d) if x.op == 'atom'}
    if len(xs) == 1 and all(x in xs for x in subterms(p1) if x.op == 'atom'):
        x = xs.pop()
        for v in (64, 53, 128, 32, 16, 256):
            r = number(d, x, v)
            if r is not None and r <= 0:
                g = f.copy()
                try:
                    g.assume(csign(add(mk('S', x), I(-v)), {0}))
                except Contradiction:
                    continue
                return 'maybe'  # a usual precision for which it does not grow
    return None


def number(t, x, v):
    """value of a term in the single variable x = v, None if it is not arithmetic"""
    if isint(t):
        return t.args[0]
    if t is x:
        return v
    if not isinstance(t, T):
        return None
    if t.op in ('S', 'U', 'mach', 'wrap', 'm'):
        return number(t.args[0], x, v)
    if t.op == 'mop' and t.args[0] in ('sdiv', 'udiv', 'lshr', 'ashr', 'srem', 'urem', 'shl', 'or', 'and'):
        a, b = [number(y, x, v) if isinstance(y, T) else y for y in t.args[-2:]]
        if a is None or b is None or a < 0 or b < 0 or t.args[0][1:] in ('div', 'rem') and b == 0:
            return None
        return {'sdiv': lambda: a // b, 'udiv': lambda: a // b, 'lshr': lambda: a >> b, 'ashr': lambda: a >> b, 'srem': lambda: a % b, 'urem': lambda: a % b,
                'shl': lambda: a << b, 'or': lambda: a | b, 'and': lambda: a & b}[t.args[0]]()
    if t.op in ('tdiv', 'fdiv'):
        a, b = number(t.args[0], x, v), number(t.args[1], x, v)
        return a // b if a is not None and b is not None and a >= 0 and b > 0 else None
    if t.op in ('add', 'sub', 'mul', 'madd', 'mmul', 'msub'):
        a = [number(y, x, v) for y in t.args if isinstance(y, T)]
        if None in a or len(a) < 2:
            return None
        r = a[0]
        for y in a[1:]:
            r = r + y if t.op in ('add', 'madd') else r - y if t.op in ('sub', 'msub') else r * y
        return r
    return None


def stripS(t):
    """mathematical reading of a machine term, assuming precisions do not wrap around"""
    memo = {}

    def rec(t):
        if not isinstance(t, T):
            return t
        r = memo.get(t.id)
        if r is None:
            if t.op in ('S', 'U') and t.args[0].op in ('madd', 'mmul', 'msub', 'mach', 'wrap'):
                r = rec(t.args[0])
            elif t.op in ('mach', 'wrap', 'm'):
                r = rec(t.args[0])
            else:
                r = t
            memo[t.id] = r
        return r
    return rec(t)


def leaves(t, out=None):
    return {x for x in subterms(t) if x.op == 'atom' and len(x.args) > 1 and x.args[1] == 'ball'}


class Watch:
    """loop hook: checks each loop whose rounds refine the embedding"""

    def __init__(self):
        self.loops = {}
        self.busy = False

    def __call__(self, A, func, b, body, H, Bs, it):
        if self.busy:
            return
        key = (func.name, b)
        self.busy = True
        ev = dict(A.events)
        try:
            L = self.examine(A, func, b, body, H, Bs)
        finally:
            self.busy = False
            A.events = ev
        if L is not None:
            self.loops[key] = L

    def examine(self, A, func, b, body, H, Bs):
        loc = ''
        relevant = False
        per = []
        for B in Bs:
            ns, okp = notes_since(B, H.log)
            rf = [d for t, d in ns if t == 'refine-call']
            stp = [d for t, d in ns if t == 'step']
            if not rf and self.leaves(A, func, b, body, B):
                continue
            per.append((B, rf, stp))
            ev_ = self.evals(ns)
            if ev_ and not rf and not stp and not any(t == 'refine' for t, d in ns):
                L = Loop(func.name, b, A.here_repo())
                where = next(d[-1] for t, d in ns if t == 'api' and d[0] == 'renf_elem_set_evaluation')
                L.bad('no-progress', 'a round re-evaluates the enclosure of %s without ever refining the embedding it is computed from' % ', '.join(ev_), where[0], B)
                return L
            if rf or stp:
                relevant = True
                loc = (rf[0][1] if rf else stp[0][3])
        if not relevant:
            return None
        L = Loop(func.name, b, loc)
        for B, rf, stp in per:
            if stp and not rf:
                self.step_round(A, L, H, B, stp, func, b, body)
                continue
            if not rf:
                if self.idle(H, B, func, b):
                    L.bad('no-progress', 'a round of the refinement loop changes nothing and starts over', loc, B)
                else:
                    L.undec.append('a round does not refine the embedding (%s)' % str(loc))
                continue
            # second round from this back edge
            o2, ex, backs = [], [], []
            try:
                A.run_scope(B.copy(), func, (b, body), b, None, o2, 8, ex, backs, phi_done=True)
            except Budget:
                L.undec.append('budget')
                continue
            p1 = rf[-1][0]
            for pr, s in backs:
                ns2, _ = notes_since(s, B.log)
                rf2 = [d for t, d in ns2 if t == 'refine-call']
                if not rf2:
                    continue
                p2 = rf2[-1][0]
                g = growth(s.facts, p1, p2)
                if g == 'grows':
                    L.ok += 1
                elif g in ('same', 'shrinks'):
                    L.bad('no-progress', 'consecutive rounds request the embedding with precision %s and then %s: it does not grow' % (show(p1), show(p2)), loc, s)
                else:
                    L.undec.append('precision %s then %s' % (show(p1), show(p2)))
                # evaluations in the two rounds
                ns1, _ = notes_since(B, H.log)
                e1 = self.evals(ns1)
                e2 = self.evals(ns2)
                for k in e1:
                    if k in e2:
                        g = growth(s.facts, e1[k], e2[k])
                        if g in ('same', 'shrinks'):
                            L.bad('no-progress', 'the enclosure of %s is re-evaluated with precision %s in every round' % (k, show(e1[k])), loc, s)
                        else:
                            L.ok += 1
            self.stale(A, L, H, B, func, loc)
        return L

    def leaves(self, A, func, b, body, B):
        """the loop ends here before it gets to another round"""
        backs = []
        try:
            A.run_scope(B.copy(), func, (b, body), b, None, [], 8, [], backs, phi_done=True)
        except Budget:
            return False
        return not backs

    def evals(self, ns):
        out = {}
        for t, d in ns:
            if t == 'api' and d[0] == 'renf_elem_set_evaluation':
                out[show(d[1][0])] = sval(d[1][2])
        return out

    def stale(self, A, L, H, B, func, loc):
        """balls tested in this round must be recomputed in this round"""
        old = {}
        for r, m in H.mem.items():
            for k, c in m.items():
                if c.kind == 'arb':
                    for x in leaves(c.val):
                        old[x] = (r, k, c)
        new = [p for p in B.facts.predterms if p not in H.facts.predterms]
        unchanged = {x for x, (r, k, c) in old.items() if (B.mem.get(r) or {}).get(k) is not None and B.mem[r][k].val is c.val}
        tested = set()
        for p, v in new:
            tested |= leaves(p)
        hs = {(t.id, v) for t, v in H.facts.signs}
        for t, v in B.facts.signs:
            if (t.id, v) not in hs:
                tested |= leaves(t)
        for x in tested:
            if x in unchanged:
                r, k, c = old[x]
                if self.is_exact(r):
                    continue
                L.bad('stale-test', 'the loop tests the enclosure at %s+%s, which no round recomputes after refining' % (r, k), loc, B)
                return
            if x in old:
                # recomputed: its new value must not be built from unchanged enclosures
                r, k, c = old[x]
                c2 = (B.mem.get(r) or {}).get(k)
                if c2 is not None:
                    for y in leaves(c2.val):
                        if y in unchanged:
                            rr, kk, cc = old[y]
                            L.bad('stale-test', 'the tested enclosure at %s+%s is recomputed from the enclosure at %s+%s, which no round recomputes after refining' % (r, k, rr, kk), loc, B)
                            return
        L.ok += 1

    def is_exact(self, r):
        return False

    def idle(self, H, B, func, b):
        for k, v in H.env.items():
            if B.env.get(k) is not v:
                return False
        for r, m in H.mem.items():
            bm = B.mem.get(r, {})
            for k, c in m.items():
                if k not in bm or bm[k].val is not c.val:
                    return False
        return True

    def step_round(self, A, L, H, B, stp, func, b, body):
        """refinement rounds: adopt a successful step's result or raise the working precision"""
        res = [d for t, d in notes_since(B, H.log)[0] if t == 'step-result']
        okstep = any(d[0] == 1 for d in res)
        emb0 = (H.mem.get('nf') or {}).get(Lay.nfemb)
        emb1 = (B.mem.get('nf') or {}).get(Lay.nfemb)
        if okstep:
            if emb0 is not None and emb1 is not None and emb0.val is not emb1.val:
                L.ok += 1
            elif emb0 is not None and emb1 is not None:
                L.bad('no-progress', 'a successful step does not replace the embedding', stp[0][3], B)
            else:
                L.undec.append('embedding cell not found')
        else:
            # no step succeeded: the next round must work with more precision
            o2, ex, backs = [], [], []
            try:
                A.run_scope(B.copy(), func, (b, body), b, None, o2, 8, ex, backs, phi_done=True)
            except Budget:
                L.undec.append('budget')
                return
            for pr, s in backs:
                st2 = [d for t, d in notes_since(s, B.log)[0] if t == 'step']
                for d in st2:
                    m = [e for e in stp if e[0] == d[0]]
                    if not m:
                        continue
                    g = growth(s.facts, m[-1][4], d[4])
                    if g == 'grows':
                        L.ok += 1
                    elif g in ('same', 'shrinks') and emb0 is not None and emb1 is not None and emb0.val is emb1.val:
                        L.bad('no-progress', 'after a round in which no step succeeds, the next %s step runs on the same ball with precision %s again' % (d[0], show(d[4])), d[3], s)
                        return
                    elif g == 'maybe' and emb0 is not None and emb1 is not None and emb0.val is emb1.val:
                        L.bad('no-progress', 'after a round in which no step succeeds, the next %s step runs on the same ball with precision %s after %s, which need not be more' % (d[0], show(d[4]), show(m[-1][4])), d[3], s)
                        return
                    else:
                        L.undec.append('working precision %s then %s' % (show(m[-1][4]), show(d[4])))


def mwid(v):
    from .interp import mwidth_of
    try:
        return mwidth_of(v)
    except Exception:
        return None


def run(prog):
    """all loops that refine, over API contracts and the refinement itself"""
    out = []
    for name, ct in S.items():
        if 'M' not in ct.params:
            continue
        n = len([k for k in ct.params if k in 'EetIXT'])
        for kind in 'QG':
            w = Watch()
            al = tuple(range(n))
            for rnd in ((4, 2) if 'r' in ct.params else (None,)):
                R = roots.run_contract(prog, name, kind, al, opts={'loop_hook': w}, rnd=rnd)
            out.append((name, kind, w, R))
    for kind in 'QG':
        w = Watch()
        R = special.ob_refine(prog, kind, opts={'loop_hook': w})
        out.append(('renf_refine_embedding', kind, w, R))
    return out

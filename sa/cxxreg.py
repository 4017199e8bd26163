"""The registry of fields: unique parents, life time and locking, for any schedule of other threads.

The functions that touch the registry or the reference count of a field are interpreted one thread at a time.
Other threads are modelled by what the invariant lets them do at any moment:
 * the reference count of a field that this thread shares is only known to be at least (own references + internal
   references), every read gives an arbitrary such value;
 * what is known about the content of the registry is forgotten whenever the mutex is released;
 * a field found in the registry is alive while the mutex is held, and may be gone afterwards unless this thread
   took a reference before;
 * a field in the registry that this thread holds no reference to may be handed out or destroyed as soon as the mutex
   is not held."""
import re
from .terms import *
from .state import *
from .interp import Outcome
from .ir import Ty
from . import cxx, flint, specs, roots
from .cxx import World, XL, exc_type, exc_match, I64, ref_get
from .flint import ret, new_heap
from .specs import Lay
from .cxxspec import DEG, Ob

SET = re.compile(r'^(?:.*? )?std::(?:unordered_)?(?:multi)?set<eantic::renf_class const\*, (.*)>::(~?\w+|operator.*?)\(')
MAKE_NF = 'eantic::renf_class::make(renf const*, std::string const&)'
RELEASE = 'eantic::intrusive_ptr_release(eantic::renf_class const*)'
ADDREF = 'eantic::intrusive_ptr_add_ref(eantic::renf_class const*)'


class RW(World):
    """world with explicit reference counts; rc[region] = ('own', n) exact | ('shared', held)"""

    def __init__(self, cp, sig, label, internal=None):
        self.internal = internal
        self.locks_used = []
        self.mcache = {}
        ex = {'renf_init_set': self.sp_init_set, 'renf_clear': self.sp_clear, 'renf_init': self.sp_init}
        inl = [n for n, d in cp.names.dem.items() if d in (ADDREF, RELEASE)]
        World.__init__(self, cp, cp.find(sig), sig, label, {'atomic': self.atomic, 'match_model': self.match, 'unroll': 6}, ex, inl)
        self.A.reg = self

    # ---- reference counts
    def rc(self, st, r):
        c = st.reg('#rc').get(r)
        return c.val.args if c is not None else None

    def set_rc(self, st, r, *v):
        st.wreg('#rc')[r] = Cell('int', mk('rc', *v), None, 8)

    def region_of(self, p):
        if p.op == 'ptr' and isint(p.args[1]) and p.args[1].args[0] == XL.ref:
            r = p.args[0]
            if r in self.A.cxx_fields or self.is_field_block(r):
                return r
        return None

    def is_field_block(self, r):
        x = self.A.regions.get(r)
        return x is not None and x.kind == 'heap' and x.size is not None and isinstance(x.size, T) and isint(x.size) and x.size.args[0] == XL.csize

    def gone(self, st, r):
        """access to field r by this thread"""
        A = self.A
        x = A.regions.get(r)
        if x is not None and x.rid is not None and st.live.get(x.rid) == 'dead':
            A.event('use-after-free', st, 'field %s is used after it may have been destroyed' % r)
            return
        v = self.rc(st, r)
        if v is not None and v[0] == 'dropped':
            d = st.facts.decide(csign(sub(v[1], I(self.internal + 1)), (0,)))
            if d is True and v[2]:
                self.set_rc(st, r, 'own', self.internal)
                return
            A.event('use-after-free', st, 'field %s is used after this reference was dropped%s' % (r, '' if d is not True else ' without holding the lock of the registry, so another thread may have obtained or destroyed it'))
            self.set_rc(st, r, 'own', self.internal)

    def value(self, st, r):
        """a value of the reference count at this moment"""
        v = self.rc(st, r)
        if v[0] == 'own':
            return mconst(v[1], 64)
        x = atom(self.A.fresh('count'), 'M64')
        try:
            st.facts.assume(csign(sub(sval(x), I(v[1] + self.internal)), (0, 1)))
            st.facts.assume(csign(sub(uval(x), I(v[1] + self.internal)), (0, 1)))
            st.facts.assume(csign(sub(uval(x), sval(x)), (0,)))
        except Contradiction:
            pass
        return x

    def change(self, st, r, d, before, order):
        A = self.A
        v = self.rc(st, r)
        if d > 0:
            self.set_rc(st, r, v[0], v[1] + d)
            return
        if not st.locks and not any(o in ('release', 'acq_rel', 'seq_cst') for o in order):
            A.event('memory-order', st, 'the reference count of a field is decremented without release ordering')
        if v[0] == 'own':
            n = v[1] + d
            if n < 0:
                A.event('ref-underflow', st, 'the reference count of field %s drops below zero' % r)
            self.set_rc(st, r, 'own', max(n, 0))
            return
        h = v[1] + d
        st.note('dec', r, bool(st.locks), tuple(order))
        if h < 0:
            A.event('ref-underflow', st, 'field %s is released more often than it is referenced' % r)
            h = 0
        if h == 0:
            self.set_rc(st, r, 'dropped', sval(before), bool(st.locks))
        else:
            self.set_rc(st, r, 'shared', h)

    def atomic(self, A, st, inst):
        op = inst.op
        p = A.val(st, inst.args[1] if op == 'store' else inst.args[0])
        r = self.region_of(p)
        if r is None:
            if p.op == 'ptr' and p.args[0] in A.cxx_fields:
                self.gone(st, p.args[0])
            return None
        if op == 'store' and self.rc(st, r) is None:
            v = A.val(st, inst.args[0])
            if v.op == 'mi':
                self.set_rc(st, r, 'own', v.args[0])
                return [(st, None)]
            return None
        if op == 'load' and any(o in ('acquire', 'seq_cst') for o in inst.x.get('order', ())):
            st.note('fence', ('acquire',))
        self.gone(st, r)
        if self.rc(st, r) is None:
            return None
        shared = self.rc(st, r)[0] != 'own'
        if op in ('load', 'store') and not inst.x.get('atomic') and shared:
            A.event('non-atomic', st, 'the reference count of a field shared between threads is accessed without atomic instructions')
        if op == 'load':
            return [(st, self.value(st, r))]
        if op == 'store':
            if shared:
                A.event('lost-update', st, 'the reference count of a field shared between threads is overwritten')
            v = A.val(st, inst.args[0])
            if v.op == 'mi' and not shared:
                self.set_rc(st, r, 'own', v.args[0])
            return [(st, None)]
        if op == 'atomicrmw':
            v = A.simp(st, A.val(st, inst.args[1]))
            k = inst.x['rmw']
            old = self.value(st, r)
            if k in ('add', 'sub') and v.op == 'mi':
                n = v.args[0] if v.args[0] < 1 << 63 else v.args[0] - (1 << 64)
                n = n if k == 'add' else -n
                if n:
                    self.change(st, r, n, old, inst.x['order'])
                return [(st, old)]
            A.event('lost-update', st, 'the reference count of a field is changed by something other than adding or removing one reference')
            return [(st, old)]
        # cmpxchg
        e = A.simp(st, A.val(st, inst.args[1]))
        n = A.simp(st, A.val(st, inst.args[2]))
        s1, s2 = st.copy(), st
        out = []
        try:
            v = self.rc(s1, r)
            if v[0] == 'own':
                s1.facts.assume(csign(sub(sval(e), I(v[1])), (0,)))
            else:
                s1.facts.assume(csign(sub(sval(e), I(v[1] + self.internal)), (0, 1)))
            d = None
            for c in (-1, 1):
                if s1.facts.equal(sub(sval(n), sval(e)), I(c)) or n is mop('add', 64, (), e, mconst(c % (1 << 64), 64)) or n is mop('sub', 64, (), e, mconst((-c) % (1 << 64), 64)):
                    d = c
            if e.op == 'mi' and n.op == 'mi':
                d = n.args[0] - e.args[0]
            if d is None:
                A.event('lost-update', s1, 'the reference count of a field is changed by something other than adding or removing one reference')
                d = 0
            if d:
                self.change(s1, r, d, e, inst.x['order'][:1])
            s1.trace = (A.here()[0], 'compare-exchange succeeds', True, s1.trace)
            out.append((s1, mk('aggv', e, mconst(1, 1))))
        except Contradiction:
            pass
        x = self.value(s2, r)
        s2.trace = (A.here()[0], 'compare-exchange succeeds', False, s2.trace)
        out.append((s2, mk('aggv', x, mconst(0, 1))))
        return out

    # ---- the C level field
    def sp_init_set(self, A, st, args, inst):
        d, s = args[0], args[1]
        F = A.field_at(s)
        if d.op != 'ptr' or F is None or not isint(d.args[1]):
            st.note('ref?', 0)
            return ret(st)
        r, off = d.args[0], d.args[1].args[0]
        nf = Field(F.name + "'", F.kind, F.alpha, (r, off + Lay.nf))
        old = A.fields.get((r, off + Lay.nf))
        if old is None or old.alpha is not F.alpha:
            A.fields[(r, off + Lay.nf)] = nf
        else:
            nf = old
        self.fill(A, st, r, off, nf, A.load(st, I64, ptr_add(s, I(Lay.prec))))
        A.uses.add(('renf_init_set', F.kind, ()))
        return ret(st)

    def fill(self, A, st, r, off, F, prec):
        m = st.wreg(r)
        P = mk('fieldpol', F.alpha, F.kind)
        rid = A.fresh('renf')
        A.rids[rid] = ('renf', A.here_repo())
        st.live[rid] = 'live'
        flag = {'L': 2, 'Q': 4, 'G': 0}[F.kind]
        m[off + Lay.nf] = Cell('qpoly', P, rid)
        m[off + Lay.nf + Lay.flag] = Cell('int', mk('bits', (1 << 64) - 1 - 1 - (8 if F.kind == 'Q' else 0), flag, F.name), None, 8)
        m[off + Lay.der] = Cell('zpoly', mk('deriv', P), rid)
        m[off + Lay.prec] = Cell('int', prec, None, 8)
        m[off + Lay.nfemb] = Cell('arb', ball('some', F.alpha, atom(A.fresh('emb0_'), 'ball')), rid)
        m[off + Lay.immutable] = Cell('int', mconst(0, 32), None, 4)
        if off == XL.renf:
            A.cxx_fields.setdefault(r, F)

    def sp_clear(self, A, st, args, inst):
        d = args[0]
        c = st.get_cell_at(ptr_add(d, I(Lay.nf))) if d.op == 'ptr' else None
        if c is None or c.rid is None:
            A.event('uninit', st, 'renf_clear on a field that was not initialised')
            return ret(st)
        if st.live.get(c.rid) == 'dead':
            A.event('double-clear', st, 'renf_clear on a field that was already cleared')
        st.live[c.rid] = 'dead'
        return ret(st)

    def sp_init(self, A, st, args, inst):
        """field of the polynomial and ball handed in"""
        P, b = A.read(st, 'qpoly', args[1]), A.read(st, 'arb', args[2])
        st.note('renf_init', args[0], P, b, args[3])
        d = args[0]
        if d.op == 'ptr' and isint(d.args[1]):
            r, off = d.args[0], d.args[1].args[0]
            k = (r, off + Lay.nf)
            F = A.fields.get(k)
            if F is None:
                F = Field('N', self.newkind, atom('alpha_N', 'K'), k)
                A.fields[k] = F
            self.fill(A, st, r, off, F, args[3])
        return ret(st)
    newkind = 'G'

    # ---- registry
    def match(self, name):
        if name not in self.mcache:
            d = self.cp.names.dem.get(name, '')
            m = SET.match(d)
            self.mcache[name] = self.set_model(m.group(2), d) if m else self.cp.match(name)
        return self.mcache[name]

    def need_lock(self, st, what):
        self.locks_used.append((self.A.here_repo(), frozenset(l for l in st.locks)))
        if not st.locks:
            self.A.event('unlocked-registry', st, 'the registry of fields is accessed (%s) without holding its mutex' % what)

    def node(self, st, r):
        rn = 'node:' + r
        self.A.region(rn, 'param', lazy=False, info='registry entry of ' + r)
        st.wreg(rn)[8] = Cell('int', ptr(r), None, 8)
        st.wreg(rn)[0] = Cell('int', self.A.unknown('ptr', 'next'), None, 8)
        return ptr(rn)

    def members(self, st):
        return {r for r, c in st.reg('#set').items() if c.val.args[0] == 'in'}

    def lookup(self, st, r):
        """-> [(state, entry region or None)] for the key field r"""
        A = self.A
        c = st.reg('#set').get(r)
        if c is not None and c.val.args[0] == 'in':
            return [(st, r)]
        if c is not None and c.val.args[0] == 'dup':
            return [(st, c.val.args[1])]
        if c is not None and c.val.args[0] == 'absent':
            return [(st, None)]
        s1, s2 = st, st.copy()
        F = A.cxx_fields.get(r)
        if F is None:
            return [(s1, None)]
        e = 'E.' + r
        self.entry(s1, e, F, r)
        s1.wreg('#set')[r] = Cell('int', mk('set', 'dup', e), None, 8)
        s1.wreg('#set')[e] = Cell('int', mk('set', 'in'), None, 8)
        s1.trace = (A.here()[0], 'an equal field is registered', True, s1.trace)
        s2.wreg('#set')[r] = Cell('int', mk('set', 'absent'), None, 8)
        s2.trace = (A.here()[0], 'an equal field is registered', False, s2.trace)
        return [(s1, e), (s2, None)]

    def entry(self, st, e, F, like):
        """a field in the registry equal to field `like`, owned by other threads"""
        A = self.A
        if e not in A.cxx_fields:
            A.cxx_fields[e] = Field(e, F.kind, F.alpha, (e, XL.renf + Lay.nf))
            A.fields[(e, XL.renf + Lay.nf)] = A.cxx_fields[e]
            A.rids['xf' + e] = ('field', ('', ''))
            A.region(e, 'param', lazy=True, info='registered field', rid='xf' + e)
            self.ext[e] = 0
        st.live['xf' + e] = 'live'
        c = st.reg(like).get(XL.name)
        m = st.wreg(e)
        if c is not None:
            m[XL.name] = Cell('str', c.val)
        self.set_rc(st, e, 'shared', 0)

    def unlocked(self, st):
        """the mutex was released: what other threads may do now"""
        A = self.A
        m = st.wreg('#set')
        for r in list(m):
            k = m[r].val.args[0]
            if k == 'in':
                x = A.regions.get(r)
                if x is not None and x.rid is not None and st.live.get(x.rid) == 'dead':
                    A.event('dangling-registry', st, 'the registry still contains field %s after it was destroyed' % r)
                v = self.rc(st, r)
                if v is None:
                    continue
                held = v[1] if v[0] == 'shared' else (v[1] - self.internal if v[0] == 'own' and self.internal is not None else None)
                if v[0] == 'own' and held is not None:
                    self.set_rc(st, r, 'shared', max(held, 0))
                if v[0] == 'dropped':
                    d = st.facts.decide(csign(sub(v[1], I(self.internal + 1)), (0,)))
                    if d is not False and v[2]:
                        st.note('kept', r)
                if held is not None and held <= 0 and x is not None and x.rid is not None:
                    st.live[x.rid] = 'dead'
            else:
                del m[r]

    def set_model(self, f, d):
        W = self

        def key(st, p):
            v = W.A.load(st, cxx.PTR, p)
            return v.args[0] if v.op == 'ptr' and v.args[1] is ZERO and (v.args[0] in W.A.cxx_fields) else None

        def m(A, st, args, inst):
            if f in ('unordered_set', 'set', '~unordered_set', '~set'):
                return ret(st)
            a = args[1:] if args and args[0].op == 'ptr' and not d.startswith('std::pair<') else args[1:]
            W.need_lock(st, f)
            if f in ('end', 'cend'):
                return ret(st, NULL)
            if f in ('find', 'count', 'contains', 'insert', 'emplace'):
                r = key(st, a[0])
                if r is None:
                    st.note('ref?', 0)
                    return ret(st, A._unk_ty(inst.ty))
                W.gone(st, r)
                outs = []
                for s, e in W.lookup(st, r):
                    if f == 'find':
                        outs.append(Outcome(s, 'ret', W.node(s, e) if e else NULL))
                    elif f in ('count', 'contains'):
                        outs.append(Outcome(s, 'ret', mconst(1 if e else 0, inst.ty.n)))
                    else:
                        if e is None:
                            s.wreg('#set')[r] = Cell('int', mk('set', 'in'), None, 8)
                            s.note('insert', r)
                        outs.append(Outcome(s, 'ret', mk('aggv', W.node(s, e or r), mconst(0 if e else 1, 8))))
                return outs
            if f == 'erase':
                t = a[0]
                r = None
                if t.op == 'ptr' and t.args[0].startswith('node:'):
                    r = t.args[0][5:]
                elif t.op == 'ptr':
                    r = key(st, t)
                if r is None:
                    st.note('ref?', 0)
                    return ret(st, A._unk_ty(inst.ty))
                W.gone(st, r)
                c = st.reg('#set').get(r)
                if c is None or c.val.args[0] != 'in':
                    A.event('erase', st, 'a field that is not registered is removed from the registry')
                else:
                    del st.wreg('#set')[r]
                    st.note('erase', r)
                return ret(st, A._unk_ty(inst.ty) if inst.ty.k != 'int' else mconst(1, inst.ty.n))
            st.note('ref?', 0)
            return ret(st, None if inst.ty.k == 'void' else A._unk_ty(inst.ty))
        return m

    # ---- initial objects
    def shared_field(self, r, kind, held):
        """a registered field with `held` references of this thread"""
        F = self.field(r, kind)
        self.st.wreg('#set')[r] = Cell('int', mk('set', 'in'), None, 8)
        self.set_rc(self.st, r, 'shared', held)
        return F

    def trivial(self):
        self.set_rc(self.st, 'T', 'shared', 1)
        self.st.wreg('#set')['T'] = Cell('int', mk('set', 'in'), None, 8)


def cache_check(w, o, r, F):
    """the cached elements of field r"""
    A, st = w.A, o.st
    c = st.reg(r).get(XL.cache)
    p = c.val if c is not None else None
    if p is None or p.op != 'ptr' or not isint(p.args[1]):
        w.check(False, 'cache', 'the field has no cached elements', o, p is not None and p.unk)
        return []
    cr, base = p.args[0], p.args[1].args[0]
    owned = []
    for i, (nm, v) in enumerate((('zero', ZERO), ('one', ONE), ('generator', F.alpha))):
        off = base + i * XL.size
        n = st.reg(cr).get(off + XL.nf)
        w.check(n is not None and n.val.op == 'ptr' and n.val.args[0] == r, 'parent', 'the cached %s does not belong to its field' % nm, o, n is not None and n.val.unk)
        c = st.reg(cr).get(off + XL.a + Lay.elem)
        if c is None:
            w.check(False, 'storage', 'the cached %s holds no data' % nm, o)
            continue
        got = A.read(st, 'nfe', ptr(cr, off + XL.a + Lay.elem), F)
        w.check(st.facts.equal(got, v), 'value', 'the cached %s is %s' % (nm, show(got)), o, got.unk)
        b = A.read(st, 'arb', ptr(cr, off + XL.a + Lay.emb))
        e = encl(b)
        w.check(e is not None and st.facts.encloses(e, v), 'enclosure', 'the enclosure of the cached %s does not belong to it' % nm, o, b.unk)
        for q in (XL.a + Lay.elem, XL.a + Lay.emb):
            cc = st.reg(cr).get(off + q)
            if cc is not None and cc.rid:
                owned.append(cc.rid)
    x = A.regions.get(cr)
    if x is not None and x.rid:
        owned.append(x.rid)
    return owned


def leaks(w, o, owned):
    A, st = w.A, o.st
    for rid, s in st.live.items():
        if s != 'live' or rid in owned or rid.startswith('x'):
            continue
        kind, where = A.rids.get(rid, ('?', ('', '')))
        x = [n for n, g in A.regions.items() if g.rid == rid]
        if kind in ('nfe', 'arb', 'fmpz', 'mpz', 'qpoly', 'zpoly', 'arf', 'mag', 'renf') or (x and A.regions[x[0]].kind == 'heap'):
            w.check(False, 'leak', '%s created at %s is not released %s' % (kind, where[0], 'when the exception leaves' if o.kind == 'throw' else 'on return'), o)
    w.check(not st.locks, 'lock-held', 'the mutex of the registry is still held on exit', o)


def internal_count(cp):
    """references that a field holds to itself once constructed: read off the constructor"""
    if getattr(cp, '_internal', None) is None:
        w = RW(cp, 'eantic::renf_class::renf_class(renf const*, std::string const&)', 'probe', 0)
        outs = run_ctor(w, 'G')
        ns = {w.rc(o.st, 'this') for o in outs if o.kind == 'ret'}
        cp._internal = 3
        if len(ns) == 1:
            v = ns.pop()
            if v and v[0] == 'own':
                cp._internal = v[1]
    return cp._internal


def run_ctor(w, kind):
    A, st = w.A, w.st
    w.trivial()
    rid = 'xfthis'
    A.rids[rid] = ('field', ('', ''))
    st.live[rid] = 'live'
    A.region('this', 'heap', lazy=False, info='the field', rid=rid, size=I(XL.csize))
    A.region('src', 'param', lazy=True, info='source field')
    w.S = roots.mk_field(A, st, 'src', kind)
    s = w.raw('name')
    st.wreg('name')[0] = Cell('str', atom('genname', 'str'))
    return w.go([ptr('this'), ptr('src'), s])


def field_content(w, o, r, F, name, prec):
    A, st = w.A, o.st
    c = st.reg(r).get(XL.name)
    w.check(c is not None and c.val is name, 'name', 'the name of the generator is not the given one', o, c is not None and c.val.unk)
    G = A.fields.get((r, XL.renf + Lay.nf))
    w.check(G is not None and G.alpha is F.alpha, 'field', 'the field is not a copy of the given field', o)
    return cache_check(w, o, r, A.cxx_fields.get(r, F))


def table(cp, addob):
    CT = 'eantic::renf_class::renf_class(renf const*, std::string const&)'
    DT = 'eantic::renf_class::~renf_class()'

    for fk in 'LQG':
        def ctor(fk=fk):
            w = RW(cp, CT, DEG[fk], internal_count(cp))
            outs = run_ctor(w, fk)
            for o in outs:
                if o.kind == 'throw':
                    w.check(False, 'throw', 'construction of a field throws %s' % exc_type(o.val), o)
                    continue
                own = field_content(w, o, 'this', w.S, atom('genname', 'str'), None)
                own += [c.rid for c in o.st.reg('this').values() if c.rid]
                leaks(w, o, own + ['xfthis'])
            return w.done()
        addob('reg', CT, fk, ctor)

        def make(fk=fk):
            n = internal_count(cp)
            w = RW(cp, MAKE_NF, DEG[fk], n)
            A, st = w.A, w.st
            w.trivial()
            A.region('src', 'param', lazy=True, info='source field')
            S = roots.mk_field(A, st, 'src', fk)
            s = w.raw('name')
            st.wreg('name')[0] = Cell('str', atom('genname', 'str'))
            w.raw('ret')
            outs = w.go([ptr('ret'), ptr('src'), s])
            cases = set()
            for o in outs:
                if o.kind == 'throw':
                    w.check(False, 'throw', 'throws %s' % exc_type(o.val), o)
                    continue
                unk = any(t == 'ref?' for t, x in o.st.notes())
                c = o.st.reg('ret').get(0)
                p = c.val if c is not None else None
                r = p.args[0] if p is not None and p.op == 'ptr' and p.args[1] is ZERO else None
                w.check(r is not None and (r in A.cxx_fields), 'return', 'does not return a field', o, unk)
                if r is None or r not in A.cxx_fields:
                    continue
                x = A.regions[r]
                w.check(st_live(o.st, x), 'dangling', 'the returned field may already be destroyed by another thread: no reference to it was taken before the mutex was released', o)
                v = w.rc(o.st, r)
                w.check(v is not None and v[0] == 'shared' and v[1] == 1, 'refcount', 'the result holds %s references to the returned field instead of one' % (v[1] if v and isinstance(v[1], int) else v), o, unk or v is None)
                w.check(r in w.members(o.st), 'unregistered', 'the returned field is not in the registry: constructing the same field again gives a different object', o, unk)
                w.check(A.cxx_fields[r].alpha is S.alpha, 'field', 'the returned field is not the requested one', o)
                own = []
                if x.kind == 'heap':
                    cases.add('new')
                    own = field_content(w, o, r, S, atom('genname', 'str'), None)
                    own += [c.rid for c in o.st.reg(r).values() if c.rid] + [x.rid]
                else:
                    cases.add('existing')
                w.check(not o.st.facts.opaque, 'opaque', 'not modelled', o, True)
                leaks(w, o, own)
            if outs and not w.R.undecided and not w.R.viol and len(cases) < 2:
                w.check(False, 'return', 'does not distinguish whether the field is already registered', outs[0])
            w.R.locksets = w.locks_used
            return w.done()
        addob('reg', MAKE_NF, fk, make)

        def release(fk=fk):
            n = internal_count(cp)
            w = RW(cp, RELEASE, DEG[fk], n)
            A, st = w.A, w.st
            w.trivial()
            F = heap_field(w, 'K', fk)
            st.wreg('#set')['K'] = Cell('int', mk('set', 'in'), None, 8)
            w.set_rc(st, 'K', 'shared', 1)
            outs = w.go([ptr('K')])
            unlocked = any(t == 'dec' and x[0] == 'K' and not x[1] for o in outs for t, x in o.st.notes())
            for o in outs:
                if o.kind == 'throw':
                    w.check(False, 'throw', 'throws %s' % exc_type(o.val), o)
                    continue
                unk = any(t == 'ref?' for t, x in o.st.notes())
                notes = o.st.notes()
                decs = [i for i, (t, x) in enumerate(notes) if t == 'dec' and x[0] == 'K']
                v = w.rc(o.st, 'K')
                dead = o.st.live.get('rfK') == 'dead'
                if dead:
                    # destroyed by this thread
                    if unlocked and decs:
                        first = next((i for i, (t, x) in enumerate(notes) if t == 'erase' and x[0] == 'K'), len(notes))
                        acq = [notes[decs[-1]][1][2]] + [x[0] for i, (t, x) in enumerate(notes) if t == 'fence' and decs[-1] < i < first]
                        w.check(any(q in ('acquire', 'acq_rel', 'seq_cst') for g in acq for q in g), 'memory-order',
                                'the field is destroyed without acquire ordering after its reference count dropped, so other threads\' last uses of it may not have happened yet', o)
                    w.check(any(t == 'erase' and x[0] == 'K' for t, x in notes), 'dangling-registry', 'the field is destroyed but stays in the registry', o, unk)
                    own = [rid for rid in o.st.live if rid.startswith('rf') and o.st.live[rid] == 'live']
                    w.check(not own, 'leak', 'the field is destroyed but %s is not released' % ', '.join(A.rids[x][0] for x in own), o)
                    w.check(v is not None and v[0] == 'own' and v[1] == 0, 'refcount', 'the field is destroyed while its reference count is %s' % (v,), o, unk)
                else:
                    w.check(v is not None and v[0] == 'dropped', 'refcount', 'releasing a reference does not decrement the reference count exactly once', o, unk)
                    if v is not None and v[0] == 'dropped':
                        last = o.st.facts.decide(csign(sub(v[1], I(n + 1)), (0,)))
                        w.check(last is False, 'leak', 'the last reference is dropped but the field is not destroyed', o, unk)
                    w.check('K' in w.members(o.st), 'unregistered', 'a field that is still referenced is removed from the registry', o, unk)
                leaks(w, o, [rid for rid in o.st.live if rid.startswith('rf')])
            if outs and not w.R.undecided and len({o.st.live.get('rfK') for o in outs}) < 2:
                w.check(False, 'leak', 'a field is %s destroyed when a reference to it is dropped' % ('never' if outs[0].st.live.get('rfK') != 'dead' else 'always'), outs[0])
            w.R.locksets = w.locks_used
            return w.done()
        addob('reg', RELEASE, fk, release)

        def addref(fk=fk):
            n = internal_count(cp)
            w = RW(cp, ADDREF, DEG[fk], n)
            A, st = w.A, w.st
            w.trivial()
            heap_field(w, 'K', fk)
            st.wreg('#set')['K'] = Cell('int', mk('set', 'in'), None, 8)
            w.set_rc(st, 'K', 'shared', 1)
            for o in w.go([ptr('K')]):
                v = w.rc(o.st, 'K')
                w.check(o.kind == 'ret', 'throw', 'throws', o)
                w.check(v[0] == 'shared' and v[1] == 2, 'refcount', 'taking a reference does not increment the reference count exactly once', o)
                w.check('K' in w.members(o.st), 'unregistered', 'taking a reference changes the registry', o)
                leaks(w, o, [rid for rid in o.st.live if rid.startswith('rf')])
            w.R.locksets = w.locks_used
            return w.done()
        addob('reg', ADDREF, fk, addref)

        def dtor(fk=fk):
            n = internal_count(cp)
            w = RW(cp, DT, DEG[fk], n)
            A, st = w.A, w.st
            w.trivial()
            heap_field(w, 'K', fk)
            w.set_rc(st, 'K', 'own', n)
            for o in w.go([ptr('K')]):
                w.check(o.kind == 'ret', 'throw', 'throws', o)
                v = w.rc(o.st, 'K')
                w.check(v[0] == 'own' and v[1] == 0, 'refcount', 'the destructor leaves %s references to the field' % (v[1],), o)
                own = [rid for rid in o.st.live if rid.startswith('rf') and rid != 'rfK' and o.st.live[rid] == 'live']
                w.check(not own, 'leak', 'the destructor does not release %s' % ', '.join(A.rids[x][0] for x in own), o)
                w.check('T' in w.members(o.st), 'unregistered', 'the destructor changes the registry', o)
                leaks(w, o, own + ['rfK'])
            w.R.locksets = w.locks_used
            return w.done()
        addob('reg', DT, fk, dtor)


    hash_table(cp, addob)


def st_live(st, x):
    return x.rid is None or st.live.get(x.rid) == 'live'


def heap_field(w, r, kind):
    """a complete field object on the heap, as its constructor leaves it"""
    A, st = w.A, w.st
    A.rids['rf' + r] = ('field object', ('', ''))
    st.live['rf' + r] = 'live'
    A.region(r, 'heap', lazy=False, info='field ' + r, rid='rf' + r, size=I(XL.csize))
    F = roots.mk_field(A, st, r, kind, r, XL.renf)
    A.cxx_fields[r] = F
    w.ext[r] = 0
    m = st.wreg(r)
    A.rids['rfn' + r] = ('renf', ('', ''))
    st.live['rfn' + r] = 'live'
    for o in (Lay.nf, Lay.der, Lay.nfemb):
        m[XL.renf + o].rid = 'rfn' + r
    m[XL.name] = Cell('str', atom('name_' + r, 'str'))
    cr = r + '.cache'
    A.rids['rfc' + r] = ('cached elements', ('', ''))
    st.live['rfc' + r] = 'live'
    A.region(cr, 'heap', lazy=False, info='cached elements', rid='rfc' + r)
    m[XL.cache] = Cell('int', ptr(cr, 8), None, 8)
    st.wreg(cr)[0] = Cell('int', mconst(3, 64), None, 8)
    for i, v in enumerate((ZERO, ONE, F.alpha)):
        off = 8 + i * XL.size
        m2 = st.wreg(cr)
        m2[off + XL.nf] = Cell('int', ptr(r), None, 8)
        for q, kd in ((Lay.elem, 'nfe'), (Lay.emb, 'arb')):
            rid = 'rf%s%d%s' % (r, i, kd)
            A.rids[rid] = (kd + ' of a cached element', ('', ''))
            st.live[rid] = 'live'
            m2[off + XL.a + q] = Cell('nfe', v, rid, fld=F) if kd == 'nfe' else Cell('arb', ball('some', v, atom('emb_c%d' % i, 'ball')), rid)
    return F


# ------------------------------------------------------------------ equality and hash of fields
def functors(cp):
    """(hasher, equality) call operators of the set that implements the registry"""
    for d in cp.names.dem.values():
        m = SET.match(d)
        if m:
            t, depth, parts, cur = m.group(1), 0, [], ''
            for ch in t:
                depth += ch in '<('
                depth -= ch in '>)'
                if ch == ',' and depth == 0:
                    parts.append(cur.strip())
                    cur = ''
                else:
                    cur += ch
            parts.append(cur.strip())
            if 'unordered' in d:
                return parts[0] + '::operator()(eantic::renf_class const*) const', parts[1] + '::operator()(eantic::renf_class const*, eantic::renf_class const*) const'
    return None, None


def leaf_check(w, o, t, allowed, what):
    bad = sorted({show(x) for x in subterms(t) if (x.op in ('atom', 'ptr', 'str', 'ball') and x not in allowed and not (x.op == 'atom' and x.unk))})
    bad = [b for b in bad if b]
    w.check(not bad, 'hash', '%s depends on %s, so equal objects can have different hash values' % (what, ', '.join(bad)[:120]), o)
    w.check(not t.unk, 'hash', 'the hash is not understood', o, True)


def hash_table(cp, addob):
    H, Q = functors(cp)
    for fk in 'LQG':
        def hasher(fk=fk):
            w = RW(cp, H or 'hash function of the registry', DEG[fk], internal_count(cp))
            A, st = w.A, w.st
            w.trivial()
            F = heap_field(w, 'K', fk)
            w.set_rc(st, 'K', 'own', w.internal)
            A.region('@mutex', 'param', lazy=True, info='mutex of the registry')
            lock = next((l for n, ls in make_locks(cp) for l in ls), ptr('@mutex'))
            st.locks = (lock,)
            w.raw('f', True)
            for o in w.go([ptr('f'), ptr('K')]):
                if o.kind == 'throw':
                    w.check(False, 'throw', 'throws', o)
                    continue
                leaf_check(w, o, o.val, {F.alpha, atom('name_K', 'str')}, 'the hash of a field')
                v = w.rc(o.st, 'K')
                w.check(v[0] == 'own' and v[1] == w.internal, 'refcount', 'hashing a field changes its reference count', o)
                w.check(o.st.locks == (lock,), 'lock-held', 'hashing a field changes the lock of the registry', o)
            return w.done()
        addob('reg', H or 'hash', fk, hasher)

    for ka in 'LQG':
        for kb in 'LQG':
            def equality(ka=ka, kb=kb):
                w = RW(cp, Q or 'equality of the registry', DEG[ka] + ' ' + DEG[kb], internal_count(cp))
                A, st = w.A, w.st
                w.trivial()
                heap_field(w, 'K', ka)
                heap_field(w, 'K2', kb)
                w.set_rc(st, 'K', 'own', w.internal)
                w.set_rc(st, 'K2', 'own', w.internal)
                A.region('@mutex', 'param', lazy=True, info='mutex of the registry')
                lock = next((l for n, ls in make_locks(cp) for l in ls), ptr('@mutex'))
                st.locks = (lock,)
                w.raw('f', True)

                def req(A, st, args, inst):
                    a, b = args
                    ra = a.args[0] if a.op == 'ptr' and a.args[1] == I(XL.renf) else None
                    rb = b.args[0] if b.op == 'ptr' and b.args[1] == I(XL.renf) else None
                    if {ra, rb} != {'K', 'K2'}:
                        if ra is not None and ra == rb:
                            return ret(st, mconst(1, 32))
                        return ret(st, A.unknown('M32', 'renf_equal'))
                    c = ind(cpred('samefield'))
                    return ret(st, mk('zext', c, 32))
                A.specs = dict(A.specs)
                A.specs['renf_equal'] = req
                n1, n2 = atom('name_K', 'str'), atom('name_K2', 'str')
                same = cpred('samefield')
                nm = cpred('streq', *sorted((n1, n2), key=lambda t: t.id))
                for o in w.go([ptr('f'), ptr('K'), ptr('K2')]):
                    if o.kind == 'throw':
                        w.check(False, 'throw', 'throws', o)
                        continue
                    f = o.st.facts
                    want = cand(same, nm)
                    g = cond_of(o.val)
                    d, e = f.decide(g), f.decide(want)
                    ok = (d is not None and d == e) or (d is None and e is None and f._fpc(want) == f._fpc(g))
                    if not ok and d is None:
                        # the remaining condition decides the result
                        a, b = f.decide(same), f.decide(nm)
                        rest = nm if a is True else (same if b is True else want)
                        ok = f._fpc(rest) == f._fpc(g)
                    w.check(ok, 'equality', 'two fields are identified exactly when polynomial, root and name of the generator agree; here the answer is %s' % show(o.val), o, o.val.unk)
                    w.check(o.st.locks == (lock,), 'lock-held', 'comparing fields changes the lock of the registry', o)
                    for r in ('K', 'K2'):
                        v = w.rc(o.st, r)
                        w.check(v[0] == 'own' and v[1] == w.internal, 'refcount', 'comparing fields changes their reference count', o)
                return w.done()
            addob('reg', Q or 'equality', ka + kb, equality)


def make_locks(cp):
    """mutexes held at the registry accesses of the constructor function"""
    if getattr(cp, '_mlocks', None) is None:
        w = RW(cp, MAKE_NF, 'probe', internal_count(cp))
        w.trivial()
        w.A.region('src', 'param', lazy=True)
        roots.mk_field(w.A, w.st, 'src', 'G')
        s = w.raw('name')
        w.st.wreg('name')[0] = Cell('str', atom('genname', 'str'))
        w.raw('ret')
        w.go([ptr('ret'), ptr('src'), s])
        cp._mlocks = w.locks_used
    return cp._mlocks

"""Reading polynomials from text: the reader is interpreted over texts whose characters are sets of bytes.

Domain: the text and the generator name have a known length; each character is a set of byte values that every test
made by the program splits exactly.  Digits keep symbolic values, polynomials are formal sums of coefficient * x^exponent."""
import time
from .terms import *
from .state import *
from .interp import Interp, Outcome, Budget, trace_list
from .ir import Ty
from . import flint, specs
from .flint import ret, rq, wq, new_heap
from .special import Run

I8, PTR = Ty('int', n=8), Ty('ptr')
DIG = frozenset(range(48, 58))
SPC = frozenset((9, 10, 11, 12, 13, 32))
UP, LOW = frozenset(range(65, 91)), frozenset(range(97, 123))
ALL = frozenset(range(1, 128))
XDIG = DIG | frozenset(b'abcdefABCDEF')


def ctab(c):
    """glibc's classification word of a byte"""
    r = 0
    if c in UP: r |= 256
    if c in LOW: r |= 512
    if c in UP or c in LOW: r |= 1024
    if c in DIG: r |= 2048
    if c in XDIG: r |= 4096
    if c in SPC: r |= 8192
    if 32 <= c < 127: r |= 16384
    if 33 <= c < 127: r |= 32768
    if c in (9, 32): r |= 1
    if c < 32 or c == 127: r |= 2
    if 33 <= c < 127 and not (c in UP or c in LOW or c in DIG): r |= 4
    if c in UP or c in LOW or c in DIG: r |= 8
    return r


class NoEval(Exception):
    pass


def chars_in(t, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    if t.id in seen:
        return acc
    seen.add(t.id)
    if t.op == 'atom' and t.args[0].startswith('ch:'):
        acc.add(t)
    for a in t.args:
        if isinstance(a, T):
            chars_in(a, acc, seen)
    return acc


def ev(t, env):
    """value of a machine/mathematical term over given characters"""
    op, a = t.op, t.args
    if op == 'int':
        return a[0]
    if op == 'mi':
        n, w = a
        return n - (1 << w) if w > 1 and n >> (w - 1) else n
    if op == 'atom':
        if t in env:
            return env[t]
        raise NoEval
    if op in ('sext', 'S', 'tomach'):
        return ev(a[0], env)
    if op in ('zext', 'U'):
        v = ev(a[0], env)
        w = mwidth(a[0]) if a[0].op != 'ind' else 1
        return v & ((1 << w) - 1)
    if op == 'trunc':
        v = ev(a[0], env) & ((1 << a[1]) - 1)
        return v - (1 << a[1]) if v >> (a[1] - 1) and a[1] > 1 else v
    if op == 'ctab':
        return ctab(ev(a[0], env) & 255)
    if op == 'tolower':
        v = ev(a[0], env)
        return v + 32 if v in UP else v
    if op == 'toupper':
        v = ev(a[0], env)
        return v - 32 if v in LOW else v
    if op == 'mop':
        o, w, fl, x, y = a
        r = mop(o, w, fl, mconst(ev(x, env), w), mconst(ev(y, env), w))
        if r.op != 'mi':
            raise NoEval
        return ev(r, env)
    if op == 'add':
        return ev(a[0], env) + ev(a[1], env)
    if op == 'sub':
        return ev(a[0], env) - ev(a[1], env)
    if op == 'mul':
        return ev(a[0], env) * ev(a[1], env)
    if op == 'neg':
        return -ev(a[0], env)
    if op == 'dig':
        return ev(a[0], env) - 48
    if op == 'ind':
        return int(ev(a[0], env))
    if op == 'mnot':
        return 1 - ev(a[0], env)
    if op == 'ctrue':
        return True
    if op == 'cfalse':
        return False
    if op == 'csign':
        v = ev(a[0], env)
        return ((v > 0) - (v < 0)) in a[1]
    if op == 'cand':
        return ev(a[0], env) and ev(a[1], env)
    if op == 'cor':
        return ev(a[0], env) or ev(a[1], env)
    raise NoEval


class CI(Interp):
    gaveup = None
    deadline = None

    def dom(self, st, c):
        return st.eff[c]

    def refine(self, st, c, s):
        st.eff = dict(st.eff)
        st.eff[c] = frozenset(s)

    def splits(self, st, c):
        """[(truth, state)] for a condition over characters, None when it is about something else"""
        cs = sorted(chars_in(c), key=lambda t: t.args[0])
        if not cs:
            return None
        if len(cs) > 1:
            # enumerate all but the first character exactly
            x = cs[1]
            res = []
            for v in sorted(self.dom(st, x)):
                s = st.copy()
                self.refine(s, x, {v})
                r = self.splits(s, self.close(s, c))
                if r is None:
                    t = self.const(self.close(s, c))
                    if t is None:
                        return None
                    r = [(t, s)]
                res += r
            return res
        x = cs[0]
        try:
            yes = frozenset(v for v in self.dom(st, x) if ev(c, {x: v}))
        except NoEval:
            return None
        no = self.dom(st, x) - yes
        if not no:
            return [(True, st)]
        if not yes:
            return [(False, st)]
        s2 = st.copy()
        self.refine(st, x, yes)
        self.refine(s2, x, no)
        return [(True, st), (False, s2)]

    def const(self, c):
        return True if c is CTRUE else False if c is CFALSE else None

    def close(self, st, c):
        """replace decided characters"""
        env = {x: next(iter(self.dom(st, x))) for x in chars_in(c) if len(self.dom(st, x)) == 1}
        return subst_chars(c, env) if env else c

    def branch(self, st, c, inst, alts, blk, push):
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget('time')
        r = self.splits(st, c)
        if r is None:
            return Interp.branch(self, st, c, inst, alts, blk, push)
        loc = self.here()[0]
        d = dict(alts)
        for truth, s in r:
            if len(r) > 1:
                s.trace = (loc, show(c), truth, s.trace)
            push.append((d[truth], blk.name, s))

    def switch(self, st, v, inst, blk, push):
        if not chars_in(v):
            return Interp.switch(self, st, v, inst, blk, push)
        d, cases = inst.x
        w = mwidth(v)
        rest = [st]
        for n, l in cases:
            nxt = []
            for s in rest:
                r = self.splits(s, cond_of(icmp('eq', v, mconst(n, w))))
                if r is None:
                    return Interp.switch(self, st, v, inst, blk, push)
                for truth, s2 in r:
                    if truth:
                        push.append((l, blk.name, s2))
                    else:
                        nxt.append(s2)
            rest = nxt
        for s in rest:
            push.append((d, blk.name, s))

    # ---- bytes
    def byte_ok(self, st, p, what):
        if p is NULL:
            self.event('null-deref', st, '%s through a null pointer' % what)
            return False
        if p.op != 'ptr':
            return None
        r = self.regions.get(p.args[0])
        o = off_key(p.args[1])
        if r is not None and r.rid is not None and st.live.get(r.rid) == 'dead':
            self.event('use-after-free', st, '%s of %s after it was freed' % (what, self.pname(p)))
            return False
        n = r.size if r is not None else None
        if n is None or not isinstance(o, int):
            return None
        n = n.args[0] if isinstance(n, T) and isint(n) else n if isinstance(n, int) else None
        if n is None:
            return None
        if not 0 <= o < n:
            self.event('out-of-bounds', st, '%s at offset %d of %s, which has %d bytes' % (what, o, self.pname(p), n))
            return False
        return True

    def load(self, st, ty, p):
        if ty.k == 'int' and ty.n == 8:
            self.strlit(st, p)
            ok = self.byte_ok(st, p, 'read')
            if ok is False:
                return mconst(0, 8)
            if ok and off_key(p.args[1]) not in st.reg(p.args[0]):
                self.event('uninit', st, 'a byte of %s is read before it is written' % self.pname(p))
                return mconst(0, 8)
        if ty.k == 'int' and ty.n == 16 and p.op == 'ptr' and p.args[0] == '@ctab':
            o = p.args[1]
            x = chars_in(o)
            if isint(o):
                return mconst(ctab(o.args[0] // 2 & 255), 16)
            if len(x) == 1:
                return mk('ctab', next(iter(x)), 16)
        return Interp.load(self, st, ty, p)

    def store(self, st, ty, val, p):
        if ty.k == 'int' and ty.n == 8:
            if self.byte_ok(st, p, 'write') is False:
                return
            st.note('store', p, val)
            st.set_cell(p, Cell('int', val, None, 1))
            return
        return Interp.store(self, st, ty, val, p)

    def strlit(self, st, p):
        """bytes of string constants"""
        if p.op == 'ptr':
            s = getattr(self, 'strings', {}).get(p.args[0])
            if s is not None and p.args[0] not in st.mem:
                m = st.wreg(p.args[0])
                for i, ch in enumerate(s + '\0'):
                    m[i] = Cell('int', mconst(ord(ch), 8), None, 1)

    def merge(self, func, b, ins):
        return ins

    def byte(self, st, p):
        return self.load(st, I8, p)


def subst_chars(t, env):
    if t.op == 'atom':
        return mconst(env[t], 8) if t in env else t
    if not chars_in(t):
        return t
    a = [subst_chars(x, env) if isinstance(x, T) else x for x in t.args]
    if t.op == 'csign':
        return csign(a[0], a[1])
    if t.op == 'cand':
        return cand(*a)
    if t.op == 'cor':
        return cor(*a)
    if t.op in ('S', 'sext'):
        return sval(a[0]) if t.op == 'S' else mk('sext', *a) if a[0].op != 'mi' else mconst(ev(a[0], {}), a[1])
    if t.op == 'sub':
        return sub(*a)
    if t.op == 'add':
        return add(*a)
    return mk(t.op, *a)


# ------------------------------------------------------------------ library functions on bytes
MP = dict(flint.M)


def mp(*names):
    def d(f):
        for n in names:
            MP[n] = f
        return f
    return d


def fork_in(A, st, t, s):
    """[(is the byte in s, state)]"""
    cs = chars_in(t)
    if not cs:
        try:
            return [((ev(t, {}) & 255) in s, st)]
        except NoEval:
            return None
    x = next(iter(cs))
    yes = frozenset(v for v in A.dom(st, x) if ev(t, {x: v}) & 255 in s)
    no = A.dom(st, x) - yes
    if not no:
        return [(True, st)]
    if not yes:
        return [(False, st)]
    s2 = st.copy()
    A.refine(st, x, yes)
    A.refine(s2, x, no)
    return [(True, st), (False, s2)]


def isnul(A, st, p):
    b = A.byte(st, p)
    r = fork_in(A, st, b, {0})
    if r is None:
        return None
    return r


def giveup(A, st, inst, why):
    """the call is outside what is modelled: the path ends here, undecided"""
    A.gaveup = why
    return []


def scan(A, st, p, stop, limit=200):
    """states at the first byte in `stop` or NUL: [(number of bytes, byte is NUL, state)]; None: unknown bytes"""
    work, out = [(0, st)], []
    while work:
        i, s = work.pop()
        b = A.byte(s, ptr_add(p, I(i)))
        r = fork_in(A, s, b, frozenset(stop) | {0})
        if r is None or i > limit:
            return None
        for t, s2 in r:
            if t:
                out.append((i, b.op == 'mi' and b.args[0] == 0, s2))
            else:
                work.append((i + 1, s2))
    return out


@mp('strlen')
def _(A, st, args, inst):
    r = scan(A, st, args[0], ())
    if r is None:
        return giveup(A, st, inst, 'strlen')
    return [Outcome(s, 'ret', mconst(i, 64)) for i, z, s in r]


@mp('__ctype_b_loc')
def _(A, st, args, inst):
    if '@ctype' not in A.regions:
        A.region('@ctype', 'global', lazy=False, info='ctype')
        A.region('@ctab', 'global', lazy=False, info='ctype table')
    if '@ctype' not in st.mem:
        st.wreg('@ctype')[0] = Cell('int', ptr('@ctab'), None, 8)
    return ret(st, ptr('@ctype'))


for _n, _m in (('isdigit', 2048), ('isalpha', 1024), ('isalnum', 8), ('isspace', 8192), ('isblank', 1), ('isupper', 256), ('islower', 512), ('isxdigit', 4096), ('ispunct', 4)):
    def _f(A, st, args, inst, m=_m):
        x = A.simp(st, args[0])
        if x.op == 'mi':
            return ret(st, mconst(ctab(x.args[0] & 255) & m, 32))
        return ret(st, mop('and', 32, (), mk('zext', mk('ctab', x, 16), 32), mconst(m, 32)))
    MP[_n] = _f


@mp('__errno_location')
def _(A, st, args, inst):
    if '@errno' not in A.regions:
        A.region('@errno', 'global', lazy=False, info='errno')
    if '@errno' not in st.mem:
        st.wreg('@errno')[0] = Cell('int', mconst(0, 32), None, 4)
    return ret(st, ptr('@errno'))


def flint_errno(A, st):
    MP['__errno_location'](A, st, (), None)
    st.wreg('@errno')[0] = Cell('int', mconst(34, 32), None, 4)


def compare(A, st, p, q, n):
    """[(sign, state)] of strncmp"""
    work, out = [(0, st)], []
    while work:
        i, s = work.pop()
        if n is not None and i >= n:
            out.append((0, s))
            continue
        x, y = A.byte(s, ptr_add(p, I(i))), A.byte(s, ptr_add(q, I(i)))
        r = A.splits(s, cond_of(icmp('eq', x, y)))
        if r is None:
            if x.op != 'mi' or y.op != 'mi':
                return None
            r = [(x is y, s)]
        for t, s2 in r:
            if t:
                # equal: end of both?
                z = fork_in(A, s2, x, {0})
                for e, s3 in z:
                    if e:
                        out.append((0, s3))
                    else:
                        work.append((i + 1, s3))
            else:
                l = A.splits(s2, cond_of(icmp('slt', x, y)))
                if l is None:
                    l = [(uval(x).args[0] < uval(y).args[0], s2)]
                out += [(-1 if u else 1, s4) for u, s4 in l]
    return out


@mp('strncmp', 'strcmp', 'memcmp', 'bcmp')
def _(A, st, args, inst):
    n = None
    if len(args) > 2:
        k = A.simp(st, args[2])
        if k.op != 'mi':
            return giveup(A, st, inst, 'strncmp')
        n = k.args[0]
    r = compare(A, st, args[0], args[1], n)
    if r is None:
        return giveup(A, st, inst, 'strncmp')
    return [Outcome(s, 'ret', mconst(v, 32)) for v, s in r]


@mp('strncpy')
def _(A, st, args, inst):
    k = A.simp(st, args[2])
    if k.op != 'mi':
        return giveup(A, st, inst, 'strncpy')
    n = k.args[0]
    outs, work = [], [(0, st)]
    while work:
        i, s = work.pop()
        if i >= n or i > 300:
            outs.append(Outcome(s, 'ret', args[0]))
            continue
        b = A.byte(s, ptr_add(args[1], I(i)))
        r = fork_in(A, s, b, {0})
        if r is None:
            return giveup(A, st, inst, 'strncpy')
        for z, s2 in r:
            A.store(s2, I8, b, ptr_add(args[0], I(i)))
            if z:
                for j in range(i, min(n, 300)):
                    A.store(s2, I8, mconst(0, 8), ptr_add(args[0], I(j)))
                outs.append(Outcome(s2, 'ret', args[0]))
            else:
                work.append((i + 1, s2))
    return outs


@mp('memcpy', 'memmove', 'llvm.memcpy.p0.p0.i64', 'llvm.memmove.p0.p0.i64')
def _(A, st, args, inst):
    k = A.simp(st, args[2])
    src = args[1]
    bytes_ = src.op == 'ptr' and (src.args[0] in ('s', 'var') or any(c.kind == 'int' and c.size == 1 for c in st.reg(src.args[0]).values()))
    if not bytes_:
        return flint.M['memcpy'](A, st, args, inst)
    if k.op != 'mi':
        return giveup(A, st, inst, 'memcpy')
    bs = [A.byte(st, ptr_add(src, I(i))) for i in range(min(k.args[0], 300))]
    for i, b in enumerate(bs):
        A.store(st, I8, b, ptr_add(args[0], I(i)))
    return ret(st, args[0] if inst.ty.k != 'void' else None)


@mp('memset', 'llvm.memset.p0.i64')
def _(A, st, args, inst):
    k, v = A.simp(st, args[2]), args[1]
    if k.op != 'mi' or v.op != 'mi' or args[0].op != 'ptr' or k.args[0] > 4000:
        return flint.M['llvm.memset.p0.i64'](A, st, args, inst) if 'llvm.memset.p0.i64' in flint.M else giveup(A, st, inst, 'memset')
    for i in range(k.args[0]):
        A.store(st, I8, mconst(v.args[0] & 255, 8), ptr_add(args[0], I(i)))
    return ret(st, args[0] if inst.ty.k != 'void' else None)


@mp('strcpy', 'stpcpy', 'strdup', '__strdup', 'strndup')
def _(A, st, args, inst):
    nm = inst.x['callee'].v
    dup = 'dup' in nm
    src = args[0] if dup else args[1]
    r = scan(A, st, src, ())
    if r is None:
        return giveup(A, st, inst, nm)
    outs = []
    for n, z, s in r:
        if nm == 'strndup':
            k = A.simp(s, args[1])
            if k.op != 'mi':
                return giveup(A, st, inst, nm)
            n = min(n, k.args[0])
        d = new_heap(A, s, 'string', I(n + 1)) if dup else args[0]
        for i in range(n):
            A.store(s, I8, A.byte(s, ptr_add(src, I(i))), ptr_add(d, I(i)))
        A.store(s, I8, mconst(0, 8), ptr_add(d, I(n)))
        outs.append(Outcome(s, 'ret', ptr_add(d, I(n)) if nm == 'stpcpy' else d))
    return outs


def setof(A, st, p):
    out = set()
    for i in range(100):
        b = A.byte(st, ptr_add(p, I(i)))
        if b.op != 'mi':
            return None
        if b.args[0] == 0:
            return frozenset(out)
        out.add(b.args[0])
    return None


@mp('strchr', 'strpbrk', 'strspn', 'strcspn', 'strchrnul')
def _(A, st, args, inst):
    nm = inst.x['callee'].v
    if nm in ('strchr', 'strchrnul'):
        k = A.simp(st, args[1])
        if k.op != 'mi':
            # membership of a character in a constant set
            S = setof(A, st, args[0])
            if S is None:
                return giveup(A, st, inst, nm)
            r = fork_in(A, st, k, S | {0})
            if r is None:
                return giveup(A, st, inst, nm)
            return [Outcome(s, 'ret', args[0] if t else NULL) for t, s in r]
        S = frozenset((k.args[0] & 255,))
    else:
        S = setof(A, st, args[1])
        if S is None:
            return giveup(A, st, inst, nm)
        if nm == 'strspn':
            S = frozenset(range(1, 256)) - S
    r = scan(A, st, args[0], S)
    if r is None:
        return giveup(A, st, inst, nm)
    outs = []
    for n, z, s in r:
        q = ptr_add(args[0], I(n))
        if nm in ('strspn', 'strcspn'):
            v = mconst(n, 64)
        elif nm == 'strchrnul':
            v = q
        else:
            v = NULL if z and 0 not in S else q
        outs.append(Outcome(s, 'ret', v))
    return outs


def dval(A, st, b):
    """value of a digit character"""
    if b.op == 'mi':
        return I(b.args[0] - 48)
    x = next(iter(chars_in(b)))
    d = A.dom(st, x)
    if len(d) == 1:
        return I(next(iter(d)) - 48)
    return mk('dig', x)


def number(A, st, p):
    """maximal digit run: [(number of digits, bytes, state)]"""
    work, out = [(0, (), st)], []
    while work:
        i, bs, s = work.pop()
        b = A.byte(s, ptr_add(p, I(i)))
        r = fork_in(A, s, b, DIG)
        if r is None:
            return None
        for t, s2 in r:
            if t:
                work.append((i + 1, bs + (b,), s2))
            else:
                out.append((i, bs, s2))
    return out


def decimal(A, st, bs):
    v = I(0)
    for b in bs:
        v = add(mul(v, I(10)), dval(A, st, b))
    return v


def bases(A, st, p, base):
    """[(base, number of prefix characters, state)] of strtol"""
    if base not in (0, 16):
        return [(base, 0, st)]
    out = []
    for z, s in fork_in(A, st, A.byte(st, p), {48}):
        if not z:
            out.append((base or 10, 0, s))
            continue
        for x, s2 in fork_in(A, s, A.byte(s, ptr_add(p, I(1))), frozenset(b'xX')):
            if not x:
                out.append((base or 8, 0, s2))
                continue
            for h, s3 in fork_in(A, s2, A.byte(s2, ptr_add(p, I(2))), XDIG):
                out.append((16, 2, s3) if h else (base or 8, 0, s3))
    return out


def digits_in(A, st, p, base):
    """maximal run of digits to a base: [(number of digits, value, leading digits that may count, state)]"""
    work, out = [(0, I(0), 0, st)], []
    while work:
        i, v, n, s = work.pop()
        b = A.byte(s, ptr_add(p, I(i)))
        sets = [frozenset(range(48, 48 + min(base, 10)))]
        for o in (65, 97):
            sets += [frozenset((o + k,)) for k in range(base - 10)]
        todo = [s]
        for S in sets:
            nxt = []
            for s1 in todo:
                r = fork_in(A, s1, b, S)
                if r is None:
                    return None
                for t, s2 in r:
                    if not t:
                        nxt.append(s2)
                        continue
                    d = dval(A, s2, b) if 48 in S else I((min(S) & 31) + 9)
                    work.append((i + 1, add(mul(v, I(base)), d), n + 1 if n or d is not I(0) else 0, s2))
            todo = nxt
        out += [(i, v, n, s1) for s1 in todo]
    return out


@mp('strtol', 'strtoul', 'strtoll', 'strtoull', 'atoi', 'atol')
def _(A, st, args, inst):
    nm = inst.x['callee'].v
    base = 10
    if len(args) > 2:
        k = A.simp(st, args[2])
        if k.op != 'mi' or k.args[0] > 36 or k.args[0] == 1:
            return giveup(A, st, inst, nm)
        base = k.args[0]
    outs = []
    # white space and one sign
    work = [(0, True, st)]
    heads = []
    while work:
        i, lead, s = work.pop()
        b = A.byte(s, ptr_add(args[0], I(i)))
        r = fork_in(A, s, b, (SPC if lead else frozenset()))
        if r is None:
            return giveup(A, st, inst, nm)
        for t, s2 in r:
            if t:
                work.append((i + 1, True, s2))
                continue
            for u, s3 in fork_in(A, s2, b, {45}):
                if u:
                    heads.append((i + 1, -1, s3))
                    continue
                for v, s4 in fork_in(A, s3, b, {43}):
                    heads.append((i + 1 if v else i, 1, s4))
    for i0, sg, s0 in heads:
        for bs, pre, s in bases(A, s0, ptr_add(args[0], I(i0)), base):
            i = i0 + pre
            r = digits_in(A, s, ptr_add(args[0], I(i)), bs)
            if r is None:
                return giveup(A, st, inst, nm)
            for n, v, sig, s2 in r:
                if bs ** sig > 2 ** 63:
                    # all of them count and exceed the range, or it is not known
                    if bs ** (sig - 1) <= 2 ** 63 or nm[0] == 'a' or 48 in byte_dom(A, s2, ptr_add(args[0], I(i + n - sig))):
                        giveup(A, s2, inst, nm)
                        continue
                    flint_errno(A, s2)
                    v = I(2 ** 63 - 1 if sg > 0 else 2 ** 63)
                if sg < 0:
                    v = sub(I(0), v)
                if len(args) > 1 and args[1].op == 'ptr':
                    A.store(s2, PTR, ptr_add(args[0], I(i + n if n else 0)), args[1])
                outs.append(Outcome(s2, 'ret', tomach(v, 64 if inst.ty.n == 64 else 32)))
    return outs


def byte_dom(A, st, p):
    b = A.byte(st, p)
    if b.op == 'mi':
        return frozenset((b.args[0],))
    return A.dom(st, next(iter(chars_in(b))))


def nonzero(A, st, bs):
    """[(decimal value is nonzero, state)]"""
    work, out = [(0, st)], []
    while work:
        i, s = work.pop()
        if i == len(bs):
            out.append((False, s))
            continue
        for z, s2 in fork_in(A, s, bs[i], {48}):
            if z:
                work.append((i + 1, s2))
            else:
                out.append((True, s2))
    return out


def integer_at(A, st, p, ends):
    """[(value or None, bytes, position of the end, state)] of [-]digits followed by a byte of `ends`"""
    out = []
    for m, s in fork_in(A, st, A.byte(st, p), {45}):
        r = number(A, s, ptr_add(p, I(1 if m else 0)))
        if r is None:
            return None
        for n, bs, s2 in r:
            e = n + (1 if m else 0)
            for t, s3 in fork_in(A, s2, A.byte(s2, ptr_add(p, I(e))), frozenset(ends)):
                if t and n:
                    out.append((-1 if m else 1, bs, e, s3))
                else:
                    # GMP skips white space inside of numbers
                    for w, s4 in fork_in(A, s3, A.byte(s3, ptr_add(p, I(e))), SPC):
                        if w:
                            s4.facts.opaque.append(mk('unkcall', 'white space in a number'))
                        out.append((None, bs, e, s4))
    return out


@mp('fmpz_set_str')
def _(A, st, args, inst):
    r = integer_at(A, st, args[1], {0})
    outs = []
    for sg, bs, e, s in r:
        if sg is None:
            outs.append(Outcome(s, 'ret', mconst(-1, 32)))
            continue
        v = decimal(A, s, bs)
        A.write(s, 'fmpz', args[0], v if sg > 0 else neg(v))
        outs.append(Outcome(s, 'ret', mconst(0, 32)))
    return outs


@mp('fmpq_set_str')
def _(A, st, args, inst):
    outs = []
    for sg, bs, e, s in integer_at(A, st, args[1], {0, 47}):
        if sg is None:
            outs.append(Outcome(s, 'ret', mconst(-1, 32)))
            continue
        v = decimal(A, s, bs)
        v = v if sg > 0 else neg(v)
        b = A.byte(s, ptr_add(args[1], I(e)))
        for z, s2 in fork_in(A, s, b, {0}):
            if z:
                A.write(s2, 'fmpz', args[0], v)
                A.write(s2, 'fmpz', ptr_add(args[0], I(8)), I(1))
                outs.append(Outcome(s2, 'ret', mconst(0, 32)))
                continue
            for sg2, ds, e2, s3 in integer_at(A, s2, ptr_add(args[1], I(e + 1)), {0}):
                if sg2 is None:
                    outs.append(Outcome(s3, 'ret', mconst(-1, 32)))
                    continue
                for nz, s4 in nonzero(A, s3, ds):
                    d = decimal(A, s4, ds) if nz else I(0)
                    A.write(s4, 'fmpz', args[0], v)
                    A.write(s4, 'fmpz', ptr_add(args[0], I(8)), d if sg2 > 0 else neg(d))
                    if nz and not isint(d):
                        try:
                            s4.facts.assume_sign(d, frozenset((1,)))
                        except Contradiction:
                            continue
                    outs.append(Outcome(s4, 'ret', mconst(0, 32)))
    return outs


# ------------------------------------------------------------------ polynomials as formal sums
def xpow(e):
    if isint(e) and e.args[0] == 0:
        return I(1)
    return mk('xpow', e)


def coef(P, e):
    """coefficient of x^e in a formal sum"""
    if isint(P) and P.args[0] == 0:
        return I(0)
    if P.op == 'add':
        return add(coef(P.args[0], e), coef(P.args[1], e))
    if P.op == 'sub':
        return sub(coef(P.args[0], e), coef(P.args[1], e))
    if P.op == 'neg':
        return neg(coef(P.args[0], e))
    c, x = I(1), None
    if P.op == 'xpow':
        x = P.args[0]
    elif P.op == 'mul' and P.args[1].op == 'xpow':
        c, x = P.args[0], P.args[1].args[0]
    elif P.op == 'mul' and P.args[0].op == 'xpow':
        c, x = P.args[1], P.args[0].args[0]
    elif 'xpow' not in {t.op for t in subterms(P)}:
        c, x = P, I(0)
    if x is None:
        return mk('coef', P, e)
    if x is e:
        return c
    if isint(x) and isint(e):
        return I(0)
    return mul(c, mk('delta', x, e))


def pread(A, st, p):
    return A.read(st, 'qpoly', p)


def pwrite(A, st, p, v, init=False):
    A.write(st, 'qpoly', p, v, init=init)


@mp('fmpq_poly_init', 'fmpq_poly_init2')
def _(A, st, args, inst):
    pwrite(A, st, args[0], I(0), init=True)
    return ret(st)


@mp('fmpq_poly_zero')
def _(A, st, args, inst):
    pwrite(A, st, args[0], I(0))
    return ret(st)


@mp('fmpq_poly_one')
def _(A, st, args, inst):
    pwrite(A, st, args[0], I(1))
    return ret(st)


@mp('fmpq_poly_set')
def _(A, st, args, inst):
    pwrite(A, st, args[0], pread(A, st, args[1]))
    return ret(st)


@mp('fmpq_poly_swap')
def _(A, st, args, inst):
    a, b = pread(A, st, args[0]), pread(A, st, args[1])
    pwrite(A, st, args[0], b)
    pwrite(A, st, args[1], a)
    return ret(st)


@mp('fmpq_poly_add', 'fmpq_poly_sub', 'fmpq_poly_neg', 'fmpq_poly_mul')
def _(A, st, args, inst):
    n = inst.x['callee'].v
    a = pread(A, st, args[1])
    v = neg(a) if n.endswith('neg') else {'add': add, 'sub': sub, 'mul': mul}[n[-3:]](a, pread(A, st, args[2]))
    pwrite(A, st, args[0], v)
    return ret(st)


@mp('fmpq_poly_scalar_mul_fmpq', 'fmpq_poly_scalar_div_fmpq', 'fmpq_poly_scalar_mul_si', 'fmpq_poly_add_fmpq', 'fmpq_poly_sub_fmpq', 'fmpq_poly_scalar_mul_fmpz')
def _(A, st, args, inst):
    n = inst.x['callee'].v
    a = pread(A, st, args[1])
    c = rq(A, st, args[2]) if n.endswith('fmpq') else A.read(st, 'fmpz', args[2]) if n.endswith('fmpz') else sval(args[2])
    o = div if '_div_' in n else mul if '_mul_' in n else add if '_add_' in n else sub
    pwrite(A, st, args[0], o(a, c) if o in (add, sub, div) else o(c, a))
    return ret(st)


@mp('fmpq_poly_set_coeff_fmpq', 'fmpq_poly_set_coeff_fmpz', 'fmpq_poly_set_coeff_si', 'fmpq_poly_set_coeff_ui')
def _(A, st, args, inst):
    n = inst.x['callee'].v
    P = pread(A, st, args[0])
    e = sval(args[1])
    c = rq(A, st, args[2]) if n.endswith('fmpq') else A.read(st, 'fmpz', args[2]) if n.endswith('fmpz') else sval(args[2])
    pwrite(A, st, args[0], add(P, mul(sub(c, coef(P, e)), xpow(e))) if P is not I(0) else mul(c, xpow(e)))
    return ret(st)


@mp('fmpq_poly_get_coeff_fmpq')
def _(A, st, args, inst):
    wq(A, st, args[0], coef(pread(A, st, args[1]), sval(args[2])))
    return ret(st)


@mp('fmpq_poly_set_fmpq', 'fmpq_poly_set_fmpz', 'fmpq_poly_set_si', 'fmpq_poly_set_ui')
def _(A, st, args, inst):
    n = inst.x['callee'].v
    pwrite(A, st, args[0], rq(A, st, args[1]) if n.endswith('fmpq') else A.read(st, 'fmpz', args[1]) if n.endswith('fmpz') else sval(args[1]))
    return ret(st)


@mp('fmpq_poly_canonicalise')
def _(A, st, args, inst):
    return ret(st)


# ------------------------------------------------------------------ the documented language
class Split(Exception):
    def __init__(self, i, s):
        self.i, self.s = i, s


class Reject(Exception):
    pass


class Any(Exception):
    """texts about which nothing is documented"""


class Text:
    def __init__(self, chars, doms):
        self.ch, self.d, self.n = chars, doms, len(chars)

    def has(self, i, s):
        if i >= self.n:
            return False
        s = frozenset(s)
        k = self.d[i] & s
        if not k:
            return False
        if k == self.d[i]:
            return True
        raise Split(i, s)

    def end(self, i):
        return i >= self.n

    def dig(self, i):
        d = self.d[i]
        return I(next(iter(d)) - 48) if len(d) == 1 else mk('dig', self.ch[i])

    def dec(self, i, j):
        v = I(0)
        for k in range(i, j):
            v = add(mul(v, I(10)), self.dig(k))
        return v


def reference(t, var):
    """list of (coefficient, exponent) denoted by the text; Reject if it denotes nothing"""
    n = t.n
    if n == 0:
        return []
    out = []
    i = 0
    if all(t.has(k, {32}) for k in range(n)):
        raise Any
    while i < n:
        sg = 1
        while t.has(i, (32, 43, 45)):
            if t.has(i, {45}):
                sg = -sg
            i += 1
        j = i
        while j < n and not t.has(j, (43, 45)):
            j += 1
        out.append(monomial(t, i, j, var, sg))
        i = j
    return out


def monomial(t, i, j, var, sg):
    while j > i and t.has(j - 1, {32}):
        j -= 1
    if i == j:
        raise Reject
    c, got = I(1), False
    if t.has(i, DIG):
        got = True
        k = i
        while k < j and t.has(k, DIG):
            k += 1
        c = t.dec(i, k)
        if k < j and t.has(k, {47}):
            m = k + 1
            while m < j and t.has(m, DIG):
                m += 1
            if m == k + 1:
                raise Reject
            if all(t.has(x, {48}) for x in range(k + 1, m)):
                raise Reject
            c = div(c, t.dec(k + 1, m))
            k = m
        i = k
    if sg < 0:
        c = neg(c)
    while i < j and t.has(i, {32}):
        i += 1
    if i == j:
        return c, I(0)
    if t.has(i, {42}):
        if not got:
            raise Any
        i += 1
        while i < j and t.has(i, {32}):
            i += 1
        if i == j:
            raise Reject
    for x in var:
        if i >= j or not t.has(i, {x}):
            raise Reject
        i += 1
    if i < j and t.has(i, DIG):
        e = i
    else:
        while i < j and t.has(i, {32}):
            i += 1
        if i == j:
            return c, I(1)
        if not t.has(i, {94}):
            raise Reject
        i += 1
        while i < j and t.has(i, {32}):
            i += 1
        e = i
    k = e
    while k < j and t.has(k, DIG):
        k += 1
    if k == e or k != j:
        raise Reject
    f = e
    while f < k and k - f > 18 and t.has(f, {48}):
        f += 1
    if k - f > 19:
        raise Reject                    # no such exponent
    if k - f == 19:
        raise Any
    return c, t.dec(e, k)


def cases(chars, doms, fn):
    """[(doms, kind, value)] of a documented function over a product of character sets"""
    work, out = [list(doms)], []
    while work:
        d = work.pop()
        try:
            out.append((d, 'value', fn(Text(chars, d))))
        except Reject:
            out.append((d, 'reject', None))
        except Any:
            out.append((d, 'any', None))
        except Split as e:
            a, b = list(d), list(d)
            a[e.i] = d[e.i] & e.s
            b[e.i] = d[e.i] - e.s
            work += [a, b]
    return out


def identifier(t):
    if t.n == 0 or not t.has(0, LOW | UP | {95}):
        raise Reject
    for i in range(1, t.n):
        if not t.has(i, LOW | UP | {95} | DIG):
            raise Reject
    return []


def sample(doms):
    """one text of the product, for messages"""
    out = ''
    for d in doms:
        for p in b'1a +-*^/2b':
            if p in d:
                out += chr(p)
                break
        else:
            out += chr(min((x for x in d if 33 <= x < 127), default=min(d)))
    return out


OPTS = dict(unroll=400, unroll_any=True, unroll_states=10 ** 9, cap=10 ** 9, cut=True)
BADEV = ('reader', 'abort', 'out-of-bounds', 'uninit', 'null-deref', 'use-after-free', 'double-free', 'double-clear', 'use-after-clear', 'overwrite-leak', 'leak', 'leak-throw', 'heap-leak', 'reinit')


def ob_read(prog, text, var, label, deadline=None):
    """text: list of byte sets; var: bytes, or a list of byte sets"""
    name = 'fmpq_poly_set_str_pretty'
    r = Run(prog, name, label, opts=OPTS, models=MP)
    r.A.__class__ = CI
    r.A.specs = {}
    r.A.maxsteps = 10 ** 9
    r.A.deadline = deadline
    st = r.st
    st.eff = {}

    def put(reg, sets):
        p = r.reg(reg)
        r.A.regions[reg].size = I(len(sets) + 1)
        m = st.wreg(reg)
        chs = []
        for i, s in enumerate(sets):
            if isinstance(s, int):
                m[i] = Cell('int', mconst(s, 8), None, 1)
                chs.append(None)
                continue
            a = atom('ch:%s%d' % (reg, i), 'M8')
            st.eff[a] = frozenset(s)
            m[i] = Cell('int', a, None, 1)
            chs.append(a)
        m[len(sets)] = Cell('int', mconst(0, 8), None, 1)
        return p, chs
    ps, cs = put('s', [frozenset(x) if not isinstance(x, int) else frozenset((x,)) for x in text])
    symvar = any(not isinstance(x, int) for x in var)
    pv, cv = put('var', [x if not symvar else (frozenset(x) if not isinstance(x, int) else frozenset((x,))) for x in var])
    pp = r.reg('p')
    rid = st.new_rid('qpoly', ('argument', ''))
    r.put('p', 0, Cell('qpoly', atom('old', 'PQ'), rid))
    outs = r.go([pp, ps, pv])
    if r.A.gaveup:
        r.R.undecided.append(('unmodelled', 'use of %s that is not modelled' % r.A.gaveup, '', []))
    if r.A.stats.get('cut'):
        (r.R.undecided if r.A.gaveup else r.R.viol).append(('hang', 'the reader does not come to an end on some text of this shape', '', []))
    for o in outs:
        f = o.st.facts
        unk = bool(f.opaque)
        rv = r.A.simp(o.st, o.val) if o.val is not None else None
        if rv is None or rv.op != 'mi':
            r.check(False, 'return', 'the result of reading is not determined by the text', o, True)
            continue
        ok = rv.args[0] == 0
        doms = [o.st.eff[c] for c in cs]
        vd = [o.st.eff[c] for c in cv] if symvar else None
        if symvar:
            want = cases(cv, vd, identifier)
        else:
            want = cases(cs, doms, lambda t: reference(t, var))
        P = r.A.read(o.st, 'qpoly', pp)
        for d, kind, val in want:
            if kind == 'any':
                r.R.ok += 1
                continue
            if kind == 'reject':
                r.check(not ok, 'malformed-accepted', '%s "%s" is accepted' % ('the generator name' if symvar else 'the malformed text', sample(d)), o, unk)
                continue
            if not ok:
                r.check(False, 'valid-rejected', '%s "%s" is rejected' % ('the generator name' if symvar else 'the text', sample(d)), o, unk)
                continue
            w = I(0)
            for c, e in val:
                w = add(w, mul(c, xpow(e)))
            if symvar:
                r.R.ok += 1
                continue
            # digits that became known
            sub_ = {c: next(iter(x)) for c, x in zip(cs, d) if len(x) == 1}
            P2 = subst_dig(P, sub_)
            w2 = subst_dig(w, sub_)
            r.check(f.equal(P2, w2), 'value', 'reading "%s" gives %s instead of %s' % (sample(d), show(P2), show(w2)), o, unk or P.unk)
        for c, x in zip(st_cells(o.st, 's'), cs):
            r.check(c is x, 'operand-changed', 'the text itself is changed', o, unk)
        # everything created on the way is released
        left = [i for i, v in o.st.live.items() if v == 'live' and i != rid]
        r.check(not left, 'leak', 'something created while reading is not released (%s)' % (r.A.rids.get(left[0], ('?',))[0] if left else ''), o, unk)
    return r.R


def st_cells(st, reg):
    m = st.reg(reg)
    return [m[i].val if i in m else None for i in range(len(m))]


def subst_dig(t, env):
    if not env or not chars_in(t):
        return t
    if t.op == 'dig':
        x = t.args[0]
        return I(env[x] - 48) if x in env else t
    a = [subst_dig(x, env) if isinstance(x, T) else x for x in t.args]
    o = {'add': add, 'sub': sub, 'mul': mul, 'neg': neg, 'div': div, 'num': num, 'den': den}.get(t.op)
    if o:
        return o(*a)
    if t.op == 'xpow':
        return xpow(*a)
    return mk(t.op, *a)


# ------------------------------------------------------------------ what is analysed
SKELETONS = ('D/D*v^D', 'D*v^D+D*v-D', '-v^DD + D/D v - v', ' + D vD - D ', 'DDD/DD*v^DD', '-D/D*v^D+v^D-D/D', '- -D v ^ D', '-D/DD', 'v+v^D+DvD', 'v^NDDDDDDDDDDDDDDDDDDD', 'D*vNDDDDDDDDDDDDDDDDDDDD', 'DDDDDDDDDDDDDDDDDDDDDDDD/N*v')


def skeleton(s, var):
    out = []
    for ch in s:
        out += [DIG] if ch == 'D' else [DIG - {48}] if ch == 'N' else list(var) if ch == 'v' else [ord(ch)]
    return out


def zpoly_models(M):
    """integer polynomials as formal sums"""
    rd = lambda A, st, p: A.read(st, 'zpoly', p)
    def wr(A, st, p, v):
        A.write(st, 'zpoly', p, v)
        return ret(st)
    M['fmpz_poly_zero'] = lambda A, st, a, i: wr(A, st, a[0], I(0))
    M['fmpz_poly_one'] = lambda A, st, a, i: wr(A, st, a[0], I(1))
    M['fmpz_poly_set'] = lambda A, st, a, i: wr(A, st, a[0], rd(A, st, a[1]))

    def setc(A, st, a, inst):
        P, e = rd(A, st, a[0]), sval(A.simp(st, a[1]))
        c = A.read(st, 'fmpz', a[2]) if inst.x['callee'].v.endswith('fmpz') else sval(a[2])
        return wr(A, st, a[0], add(P, mul(sub(c, coef(P, e)), xpow(e))))
    for x in ('fmpz', 'si', 'ui'):
        M['fmpz_poly_set_coeff_' + x] = setc


def ob_integral(prog, n, dn, fails=False):
    """integer polynomials: exactly the rational polynomial that was read, or an error when it is not integral"""
    name = 'fmpz_poly_set_str_pretty'
    M = dict(flint.M)
    zpoly_models(M)
    r = Run(prog, name, 'malformed text' if fails else '%d coefficients, %s' % (n, 'integral' if dn else 'not integral'), opts=OPTS, models=M)
    r.A.__class__ = CI
    st = r.st
    st.eff = {}
    cs = [atom('a%d' % i, 'Z') for i in range(n)]
    d = I(1) if dn else atom('den', 'Z')
    if not dn:
        st.facts.assume_sign(sub(d, I(1)), frozenset((1,)))
        st.facts.assume_sign(d, frozenset((1,)))
    if cs:
        st.facts.assume_sign(cs[-1], frozenset((-1, 1)))
    ids = {}

    def read(A, s, args, inst):
        if args[1].op != 'ptr' or args[1].args[0] != 's' or not isint(args[1].args[1]) or args[1].args[1].args[0] or args[2].op != 'ptr' or args[2].args[0] != 'var' or args[2].args[1] is not ZERO:
            A.event('reader', s, 'the reader is called with other texts than the given ones')
        if fails:
            return ret(s, mconst(-1, 32))
        q = args[0]
        if q.op != 'ptr' or q.args[1] is not ZERO:
            return giveup(A, s, inst, 'reader')
        m = s.wreg(q.args[0])
        c = m.get(0)
        ids[q.args[0]] = c.rid if c is not None else None
        m.clear()
        A.region('qc', 'deref', lazy=False, array=True, info='coefficients')
        A.regions['qc'].size = I(8 * n)
        mm = s.wreg('qc')
        for i, a in enumerate(cs):
            mm[8 * i] = Cell('fmpz', a, None)
        m[0] = Cell('int', ptr('qc'), None, 8)
        m[8] = Cell('int', mconst(max(n, 1), 64), None, 8)
        m[16] = Cell('int', mconst(n, 64), None, 8)
        m[24] = Cell('fmpz', d, None)
        return ret(s, mconst(0, 32))
    r.A.specs = {'fmpq_poly_set_str_pretty': read}

    def num_(A, s, args, inst):
        if args[1].op == 'ptr' and args[1].args[0] in ids:
            v = I(0)
            for i, a in enumerate(cs):
                v = add(v, mul(a, xpow(I(i))))
            A.write(s, 'zpoly', args[0], v)
            return ret(s)
        return giveup(A, s, inst, 'numerator')
    M['fmpq_poly_get_numerator'] = num_
    ol = {k: M.get(k) for k in ('fmpq_poly_length', 'fmpq_poly_degree', 'fmpq_poly_is_zero')}

    def size(A, s, args, inst):
        k = inst.x['callee'].v
        if args[0].op == 'ptr' and args[0].args[0] in ids:
            return ret(s, mconst(n if k.endswith('length') else n - 1, 64) if not k.endswith('zero') else mconst(int(n == 0), 32))
        return ol[k](A, s, args, inst) if ol[k] else giveup(A, s, inst, k)
    for k in ol:
        M[k] = size
    old = M['fmpq_poly_clear']

    def clear(A, s, args, inst):
        q = args[0]
        if q.op == 'ptr' and ids.get(q.args[0]) is not None:
            rid = ids[q.args[0]]
            if s.live.get(rid) == 'dead':
                A.event('double-clear', s, 'cleared twice')
            s.live[rid] = 'dead'
            return ret(s)
        return old(A, s, args, inst)
    M['fmpq_poly_clear'] = clear
    for x in ('s', 'var'):
        r.reg(x)
    pp = r.reg('p')
    rid = st.new_rid('zpoly', ('argument', ''))
    r.put('p', 0, Cell('zpoly', atom('old', 'PZ'), rid))
    for o in r.go([pp, ptr('s'), ptr('var')]):
        f = o.st.facts
        rv = r.A.simp(o.st, o.val)
        unk = bool(f.opaque) or rv.op != 'mi'
        if fails or not dn:
            r.check(rv.op == 'mi' and rv.args[0] != 0, 'malformed-accepted', 'a text that is malformed or not integral is accepted', o, unk)
        else:
            w = I(0)
            for i, a in enumerate(cs):
                w = add(w, mul(a, xpow(I(i))))
            P = r.A.read(o.st, 'zpoly', pp)
            r.check(rv.op == 'mi' and rv.args[0] == 0, 'valid-rejected', 'an integral polynomial is rejected', o, unk)
            r.check(f.equal(P, w), 'value', 'the result is %s instead of %s' % (show(P), show(w)), o, unk or P.unk)
        left = [i for i, v in o.st.live.items() if v == 'live' and i != rid]
        r.check(not left, 'leak', 'something created while reading is not released', o, unk)
    return r.R


def jobs(tier, deadline=None):
    """[(group, description, callable(prog))]"""
    deep = tier == 'thorough'
    out = []
    for var, n in ((b'a', 6 if deep else 5), (b'ab', 5 if deep else 4), (b'a2', 5 if deep else 4)):
        for k in range(n + 1):
            out.append(lambda prog, k=k, var=var: ob_read(prog, [ALL] * k, var, 'every text of %d characters, generator %s' % (k, var.decode()), deadline))
    for s in SKELETONS:
        for var in (b'a', b'x_1'):
            t = skeleton(s, var)
            for i in range(-1, len(t) if len(s) < 20 else 0):
                u = list(t)
                if i >= 0:
                    u[i] = ALL
                out.append(lambda prog, u=u, var=var, s=s, i=i: ob_read(prog, u, var, 'texts like "%s"%s, generator %s' % (s, ', any character at %d' % i if i >= 0 else '', var.decode()), deadline))
    for k in range(1, 4):
        out.append(lambda prog, k=k: ob_read(prog, [], [ALL] * k, 'every generator name of %d characters' % k, deadline))
    for n in range(0, 6 if deep else 4):
        for dn in (True, False) if n else (True,):
            out.append(lambda prog, n=n, dn=dn: ob_integral(prog, n, dn))
    out.append(lambda prog: ob_integral(prog, 0, True, True))
    return out

"""Reading elements from streams: the reader is interpreted over streams whose characters are sets of bytes.

The stream is a text of known length, a position and the state bits of the standard library; its members are modelled
after the C++ standard.  The reference below says which characters belong to the next element."""
import re, time
from .terms import *
from .state import *
from .interp import Outcome, Interp
from .flint import ret
from .cxx import World, XL, exc_type, swrite, sread, sarg
from .specs import Lay
from .text import *
from . import parse, flint
from .parse import CI, fork_in, SPC, Text, Reject, cases, sample, I8

BAD, EOF, FAIL = 1, 2, 4
ANYCH = frozenset(range(0, 128))


class SI(CI):
    def unknown_call(self, st, name, args, inst):
        self.gaveup = name
        return []

    def load(self, st, ty, p):
        return (CI if ty.k == 'int' and ty.n == 16 else Interp).load(self, st, ty, p)

    def store(self, st, ty, val, p):
        return Interp.store(self, st, ty, val, p)

    def sread_hook(self, st, p):
        """content of a string whose characters are exposed"""
        c = st.reg('#schr').get('%s+%s' % (p.args[0], p.args[1].id))
        if c is None:
            return None
        m = st.reg(c.val.args[0])
        v = lit('')
        for i in range(c.size):
            b = m[i].val if i in m else None
            if b is None or m[i].size != 1:
                return self.unknown('str', 'chars')
            v = scat(v, sarg(self, st, b, 'char'))
        return v


def spos(st):
    return st.reg('#stream')['pos'].val.args[0]


def bits(st):
    return st.reg('#stream')['bits'].val.args[0]


def put(st, k, n):
    st.wreg('#stream')[k] = Cell('int', I(n), None, 8)


def setbits(st, b):
    put(st, 'bits', bits(st) | b)


def cur(A, st):
    """next character, None at the end"""
    cs = A.stream
    p = spos(st)
    return cs[p] if p < len(cs) else None


def sentry(A, st, skip):
    """[(ok, state)]"""
    if bits(st):
        setbits(st, FAIL)
        return [(False, st)]
    if not skip:
        return [(True, st)]
    work, out = [st], []
    while work:
        s = work.pop()
        c = cur(A, s)
        if c is None:
            setbits(s, EOF | FAIL)
            out.append((False, s))
            continue
        for sp, s2 in fork_in(A, s, c, SPC):
            if sp:
                put(s2, 'pos', spos(s2) + 1)
                work.append(s2)
            else:
                out.append((True, s2))
    return out


def toint(c):
    return mk('zext', c, 32)


def m_peek(A, st, args, inst):
    outs = []
    for ok, s in sentry(A, st, False):
        c = cur(A, s) if ok else None
        if ok and c is None:
            setbits(s, EOF)
        outs.append(Outcome(s, 'ret', mconst(-1, 32) if c is None else toint(c)))
    return outs


def m_get(A, st, args, inst):
    outs = []
    for ok, s in sentry(A, st, False):
        c = cur(A, s) if ok else None
        if ok and c is None:
            setbits(s, EOF | FAIL)
        if c is not None:
            put(s, 'pos', spos(s) + 1)
        if len(args) > 1:
            if c is not None:
                A.store(s, I8, c, args[1])
            outs.append(Outcome(s, 'ret', args[0]))
        else:
            outs.append(Outcome(s, 'ret', mconst(-1, 32) if c is None else toint(c)))
    return outs


def m_getc(A, st, args, inst):
    """formatted extraction of one character"""
    outs = []
    for ok, s in sentry(A, st, A.skipws):
        c = cur(A, s) if ok else None
        if ok and c is None:
            setbits(s, EOF | FAIL)
        if c is not None:
            put(s, 'pos', spos(s) + 1)
            A.store(s, I8, c, args[1])
        outs.append(Outcome(s, 'ret', args[0]))
    return outs


def m_ws(A, st, args, inst):
    outs = []
    for ok, s0 in sentry(A, st, False):
        work = [s0] if ok else []
        if not ok:
            outs.append(Outcome(s0, 'ret', args[0]))
        while work:
            s = work.pop()
            c = cur(A, s)
            if c is None:
                setbits(s, EOF)
                outs.append(Outcome(s, 'ret', args[0]))
                continue
            for sp, s2 in fork_in(A, s, c, SPC):
                if sp:
                    put(s2, 'pos', spos(s2) + 1)
                    work.append(s2)
                else:
                    outs.append(Outcome(s2, 'ret', args[0]))
    return outs


def m_manip(A, st, args, inst):
    f = args[1]
    if f.op == 'fn' and f.args[0].startswith('_ZSt2ws'):
        return m_ws(A, st, args, inst)
    A.gaveup = 'manipulator'
    return []


def m_getline(A, st, args, inst):
    """getline(stream, string[, delimiter])"""
    d = A.simp(st, args[2]) if len(args) > 2 else mconst(10, 8)
    if d.op != 'mi':
        A.gaveup = 'getline'
        return []
    delim = frozenset((d.args[0] & 255,))
    outs = []
    for ok, s0 in sentry(A, st, False):
        if not ok:
            outs.append(Outcome(s0, 'ret', args[0]))
            continue
        work = [(lit(''), s0)]
        while work:
            t, s = work.pop()
            c = cur(A, s)
            if c is None:
                setbits(s, EOF | (FAIL if t is lit('') else 0))
                swrite(A, s, args[1], t)
                outs.append(Outcome(s, 'ret', args[0]))
                continue
            for y, s2 in fork_in(A, s, c, delim):
                put(s2, 'pos', spos(s2) + 1)
                if y:
                    swrite(A, s2, args[1], t)
                    outs.append(Outcome(s2, 'ret', args[0]))
                else:
                    work.append((scat(t, mk('chr', c)), s2))
    return outs


def m_word(A, st, args, inst):
    """formatted extraction of a string"""
    outs = []
    for ok, s0 in sentry(A, st, A.skipws):
        if not ok:
            outs.append(Outcome(s0, 'ret', args[0]))
            continue
        work = [(lit(''), s0)]
        while work:
            t, s = work.pop()
            c = cur(A, s)
            if c is None:
                setbits(s, EOF | (FAIL if t is lit('') else 0))
                swrite(A, s, args[1], t)
                outs.append(Outcome(s, 'ret', args[0]))
                continue
            for y, s2 in fork_in(A, s, c, SPC):
                if y:
                    if t is lit(''):
                        setbits(s2, FAIL)
                    swrite(A, s2, args[1], t)
                    outs.append(Outcome(s2, 'ret', args[0]))
                else:
                    put(s2, 'pos', spos(s2) + 1)
                    work.append((scat(t, mk('chr', c)), s2))
    return outs


def m_ignore(A, st, args, inst):
    n = A.simp(st, args[1]) if len(args) > 1 else mconst(1, 64)
    if n.op != 'mi' or len(args) > 2:
        A.gaveup = 'ignore'
        return []
    outs = []
    for ok, s in sentry(A, st, False):
        if ok:
            for i in range(min(n.args[0], len(A.stream) + 1)):
                if cur(A, s) is None:
                    setbits(s, EOF)
                    break
                put(s, 'pos', spos(s) + 1)
        outs.append(Outcome(s, 'ret', args[0]))
    return outs


def m_unget(A, st, args, inst):
    put(st, 'bits', bits(st) & ~EOF)
    if bits(st):
        setbits(st, FAIL)
    elif spos(st) == 0:
        setbits(st, BAD)
    else:
        put(st, 'pos', spos(st) - 1)
    return ret(st, args[0])


def m_state(f):
    def m(A, st, args, inst):
        return ret(st, mconst(1 if f(bits(st)) else 0, inst.ty.n))
    return m


def m_setstate(A, st, args, inst):
    b = A.simp(st, args[1])
    if b.op != 'mi':
        A.gaveup = 'setstate'
        return []
    setbits(st, b.args[0])
    return ret(st)


def m_clear(A, st, args, inst):
    b = A.simp(st, args[1]) if len(args) > 1 else mconst(0, 32)
    if b.op != 'mi':
        A.gaveup = 'clear'
        return []
    put(st, 'bits', b.args[0])
    return ret(st)


def m_pword(A, st, args, inst):
    ix = A.simp(st, args[1])
    r = '#pw%s' % ix.id
    if r not in A.regions:
        A.region(r, 'param', lazy=False, info='pword')
    if r not in st.mem:
        st.wreg(r)[0] = Cell('int', NULL, None, 8)
    return ret(st, ptr(r))


def chars_of(v):
    """[byte terms] of a text that is known character by character"""
    out = []
    for t in parts(v):
        if t.op == 'lit':
            out += [mconst(ord(c), 8) for c in t.args[0]]
        elif t.op == 'chr' and t.args[0].op == 'atom':
            out.append(t.args[0])
        else:
            return None
    return out


def expose(A, st, this):
    """pointer to the characters of a string, None when they are not known"""
    if this.op != 'ptr':
        return None
    k = '%s+%s' % (this.args[0], this.args[1].id)
    c = st.reg('#schr').get(k)
    if c is not None:
        return c.val, c.size
    cs = chars_of(sread(A, st, this))
    if cs is None:
        return None
    rn = A.fresh('schars')
    A.region(rn, 'sbuf', lazy=False, array=True, info='characters of a string')
    m = st.wreg(rn)
    for i, b in enumerate(cs + [mconst(0, 8)]):
        m[i] = Cell('int', b, None, 1)
    st.wreg('#schr')[k] = Cell('int', ptr(rn), None, len(cs))
    return ptr(rn), len(cs)


def m_at(A, st, args, inst):
    e = expose(A, st, args[0])
    i = A.simp(st, args[1]) if len(args) > 1 else None
    if e is None or i is not None and i.op != 'mi':
        A.gaveup = 'string access'
        return []
    if i is not None and i.args[0] > e[1]:
        A.event('out-of-bounds', st, 'character %d of a string of length %d' % (i.args[0], e[1]))
    return ret(st, ptr_add(e[0], I(i.args[0] if i is not None else 0)))


def m_end(d):
    def m(A, st, args, inst):
        e = expose(A, st, args[0])
        if e is None:
            A.gaveup = 'string access'
            return []
        return ret(st, ptr_add(e[0], I(e[1] + d)))
    return m


def m_append_n(A, st, args, inst):
    n = A.simp(st, args[1])
    if n.op != 'mi' or n.args[0] > 64:
        A.gaveup = 'append'
        return []
    v = sread(A, st, args[0])
    for i in range(n.args[0]):
        v = scat(v, sarg(A, st, args[2], 'char'))
    swrite(A, st, args[0], v)
    return ret(st, args[0])


def m_find(first, has):
    """find a character in a string that is known character by character"""
    def m(A, st, args, inst):
        cs = chars_of(sread(A, st, args[0]))
        b = A.simp(st, args[1])
        p = A.simp(st, args[2]) if len(args) > 2 else mconst(0, 64)
        if cs is None or b.op != 'mi' or p.op != 'mi':
            A.gaveup = 'find'
            return []
        S = frozenset((b.args[0],))
        outs, work = [], [(p.args[0], st)]
        while work:
            i, s = work.pop()
            if i >= len(cs):
                outs.append(Outcome(s, 'ret', mconst((1 << 64) - 1, 64)))
                continue
            for y, s2 in fork_in(A, s, cs[i], S):
                if y:
                    outs.append(Outcome(s2, 'ret', mconst(i, 64)))
                else:
                    work.append((i + 1, s2))
        return outs
    return m


IST = r'(std::basic_istream<char, std::char_traits<char> ?>|std::istream)'
IOS = r'(std::basic_ios<char, std::char_traits<char> ?>|std::ios)'
TABLE = [
    (IST + r'::peek\(\)', m_peek), (IST + r'::get\(\)', m_get), (IST + r'::get\(char&\)', m_get),
    (IST + r'& std::operator>><char, std::char_traits<char> ?>\(' + IST + r'&, char&\)', m_getc),
    (IST + r'& std::ws<char, .*\(.*', m_ws),
    (IST + r'::operator>>\(' + IST + r'& ?\(\*\)\(' + IST + r'&\)\)', m_manip),
    (IST + r'& std::getline<char, .*\(.*std::string&(, char)?\)', m_getline),
    (IST + r'& std::operator>><char, .*\(' + IST + r'&, std::string&\)', m_word),
    (IST + r'::ignore\(long, int\)', lambda A, st, args, inst: m_ignore(A, st, args if len(args) < 3 or not (A.simp(st, args[2]).op == 'mi' and A.simp(st, args[2]).args[0] == (1 << 32) - 1) else args[:2], inst)),
    (IST + r'::ignore\(\)', m_ignore), (IST + r'::ignore\(long\)', m_ignore),
    (IST + r'::unget\(\)', m_unget), (IST + r'::putback\(char\)', m_unget),
    (IOS + r'::eof\(\) const', m_state(lambda b: b & EOF)), (IOS + r'::good\(\) const', m_state(lambda b: not b)),
    (IOS + r'::fail\(\) const', m_state(lambda b: b & (FAIL | BAD))), (IOS + r'::bad\(\) const', m_state(lambda b: b & BAD)),
    (IOS + r'::operator!\(\) const', m_state(lambda b: b & (FAIL | BAD))), (IOS + r'::operator bool\(\) const', m_state(lambda b: not b & (FAIL | BAD))),
    (IOS + r'::setstate\(std::_Ios_Iostate\)', m_setstate), (IOS + r'::clear\(std::_Ios_Iostate\)', m_clear),
    (r'std::string::(operator\[\]|at)\(unsigned long\)( const)?', m_at), (r'std::string::(begin|cbegin|front|data)\(\)( const)?', m_at),
    (r'std::string::(end|cend)\(\)( const)?', m_end(0)), (r'std::string::back\(\)( const)?', m_end(-1)),
    (r'std::string::append\(unsigned long, char\)', m_append_n), (r'std::string::find\(char, unsigned long\) const', m_find(True, True)),
    (r'std::ios_base::pword\(int\)', m_pword),
]
TABLE = [(re.compile('^' + r + '$'), f) for r, f in TABLE]


def models(cp):
    if not hasattr(cp, 'stream_models'):
        cp.stream_models = {}
        for n, d in cp.names.dem.items():
            for r, f in TABLE:
                if r.match(d):
                    cp.stream_models[n] = f
                    break
        for k in ('isspace', 'isdigit', 'isalpha', 'isalnum', '__ctype_b_loc'):
            cp.stream_models[k] = parse.MP[k]
    return cp.stream_models


# ------------------------------------------------------------------ what belongs to the next element
class Empty(Exception):
    pass


def reference(t, start):
    """(characters, position after them); raises Empty or, for an unfinished element, Reject"""
    i = start
    while i < t.n and t.has(i, SPC):
        i += 1
    if i >= t.n:
        raise Empty
    out = []
    if t.has(i, {40}):
        i += 1
        while True:
            if i >= t.n:
                raise Reject
            if t.has(i, {41}):
                return out, i + 1
            if not t.has(i, SPC):
                out.append(i)
            i += 1
    while i < t.n and not t.has(i, SPC):
        out.append(i)
        i += 1
    return out, i


def text_of(cs, ix):
    t = lit('')
    for i in ix:
        t = scat(t, mk('chr', cs[i]))
    return t


def expected(st, text, nm, alpha):
    """('value', v), ('malformed', None) or ('open', None) for the text of an element on this path"""
    f = st.facts
    h = cpred('haschar', text, I(126))
    d = f.decide(h) if text.op != 'lit' else '~' in text.args[0]
    if d is None:
        # decided character by character?
        t = lit('')
        for c in chars_of(text) or [None]:
            dom = None if c is None else frozenset(c.args[:1]) if c.op == 'mi' else st.eff[c]
            if dom is None or 126 in dom and len(dom) > 1:
                return 'open', None
            if 126 in dom:
                break
            t = scat(t, mk('chr', c) if c.op != 'mi' else lit(chr(c.args[0])))
    else:
        t = prefix(text, mk('pos', text, I(126))) if d else text
    m = f.decide(cpred('malformed', t, nm))
    if m is None:
        return 'open', None
    return ('malformed', None) if m else ('value', mk('ev', mk('parsed', t, nm), alpha))


def f_is_zero(w, o, x):
    z = mk('ev', mk('parsed', lit(''), atom('name_K', 'str')), w.A.cxx_fields['K'].alpha)
    nf = w.nf_of(o.st, x)
    if nf is not ptr('K'):
        return False
    v = w.A.read(o.st, 'nfe', ptr(x, XL.a + Lay.elem), w.A.cxx_fields['K'])
    return o.st.facts.equal(v, z) or o.st.facts.equal(v, ZERO)


BADEV = ('abort', 'null-deref', 'use-after-free', 'use-after-clear', 'use-maybe-cleared', 'double-free', 'double-clear', 'uninit', 'reinit', 'out-of-bounds', 'ref-underflow', 'overwrite-leak', 'leak', 'leak-throw', 'heap-leak')


def world(cp, fn, label, fk, text, skipws, deadline):
    f = cp.prog.defs.get(fn)
    w = World(cp, f, 'reading elements from a stream', '%s, %s, %s' % (label, {'L': 'linear field', 'Q': 'quadratic field', 'G': 'field of higher degree'}[fk], 'skipping white space' if skipws else 'not skipping white space'), opts=dict(parse.OPTS), extra=models(cp))
    A, st = w.A, w.st
    A.__class__ = SI
    A.maxsteps = 10 ** 9
    A.deadline = deadline
    A.skipws = skipws
    st.eff = {}
    A.stream = []
    for i, s in enumerate(text):
        a = atom('ch:i%d' % i, 'M8')
        st.eff[a] = frozenset(s) if not isinstance(s, int) else frozenset((s,))
        A.stream.append(a)
    st.wreg('#stream')
    put(st, 'pos', 0)
    put(st, 'bits', 0)
    w.field('K', fk, ext=1)
    A.region('is', 'param', lazy=True, info='stream')
    return w


def end(w):
    A = w.A
    if A.gaveup:
        w.R.undecided.append(('unmodelled', 'use of %s that is not modelled' % A.gaveup, '', []))
    if A.stats.get('cut'):
        (w.R.undecided if A.gaveup else w.R.viol).append(('hang', 'reading does not come to an end on some text of this shape', '', []))
    return w.done()


def known(t):
    return not t.unk and 'strunk' not in (x.op for x in subterms(t))


def trace_unknown(st):
    n = st.trace
    while n:
        loc, c, truth, n = n
        if '?' in c:
            return True
    return False


def ob_read(cp, text, label, fk, skipws, two=False, deadline=None):
    w = world(cp, 'sa_read_two' if two else 'sa_read_one', label, fk, text, skipws, deadline)
    A = w.A
    cs = A.stream
    F = A.cxx_fields['K']
    nm = atom('name_K', 'str')
    objs = ['a', 'b'] if two else ['a']
    old = {}
    ps = []
    for x in objs:
        p, v = w.elem(x, 'T')
        old[x] = v
        ps.append(p)

    def read(t):
        """reference: texts of the elements and the position after the last; None for one that is not there"""
        out, at = [], 0
        for x in objs:
            try:
                ix, at = reference(t, at)
            except Reject:
                return out, None
            except Empty:
                return out, -1
            out.append(ix)
        return out, at
    for o in w.go([ptr('K'), ptr('is')] + ps):
        # a text that is not known character by character, or a decision about an unknown value
        unk = any(not known(t) for tag, d in o.st.notes() if tag == 'parse' for t in d) or trace_unknown(o.st)
        doms = [o.st.eff[c] for c in cs]
        for d, kind, val in cases(cs, doms, read):
            texts, at = val
            show_ = sample(d)
            exp = []
            for ix in texts:
                k, v = expected(o.st, text_of(cs, ix), nm, F.alpha)
                exp.append((k, v))
                if k != 'value':
                    break
            want = {x: (old[x], 'T') for x in objs}
            bad = False
            for x, (k, v) in zip(objs, exp):
                if k == 'value':
                    want[x] = (v, 'K')
                else:
                    bad = True
                    if k == 'open' and o.kind == 'ret':
                        w.check(False, 'value', 'reading "%s" does not interpret the characters of the next element' % show_, o, unk)
            empty = at == -1 and len(exp) == len(texts) and not bad
            if len(exp) < len(objs):
                bad = True
            if any(k == 'open' for k, v in exp) and o.kind == 'throw':
                w.check(False, 'valid-rejected', 'reading "%s" fails (%s) although an element is there' % (show_, exc_type(o.val)), o, unk)
                continue
            if any(k == 'open' for k, v in exp):
                continue
            if o.kind == 'throw':
                w.check(bad, 'valid-rejected', 'reading "%s" fails (%s) although an element is there' % (show_, exc_type(o.val)), o, unk)
                w.check(exc_type(o.val) == 'std::invalid_argument', 'throw', 'throws %s' % exc_type(o.val), o, unk)
            elif empty:
                w.check(bool(bits(o.st) & (FAIL | BAD)), 'malformed-accepted', 'reading "%s" succeeds although there is no element' % show_, o, unk)
            else:
                w.check(not bad, 'malformed-accepted', 'reading "%s" succeeds although there is no element' % show_, o, unk)
                if not bad:
                    w.check(spos(o.st) == at, 'position', 'after reading "%s" the stream is at character %d instead of %d' % (show_, spos(o.st), at), o, unk)
                    w.check(not bits(o.st) & (FAIL | BAD), 'state', 'after reading "%s" the stream is in a failed state' % show_, o, unk)
            for i, x in enumerate(objs):
                v, k = want[x]
                if empty and i == len(texts):
                    # nothing was read: the previous value, or zero as for numbers
                    if f_is_zero(w, o, x):
                        w.R.ok += 1
                        continue
                None if unk else w.check_elem(o, x, v, {k}, 'the element read from "%s"' % show_)
        w.check_resources(o, objs)
    return end(w)


def ob_attached(cp, fk, again):
    w = world(cp, 'sa_reattached' if again else 'sa_attached', 'attached field', fk, [], True, None)
    if again:
        w.field('K2', 'Q', ext=1)
    for o in w.go([ptr('K')] + ([ptr('K2')] if again else []) + [ptr('is')]):
        w.check(o.kind == 'ret' and o.val is ptr('K'), 'field', 'the field attached to a stream is %s instead of the one given' % (show(o.val) if o.val is not None else '?'), o, o.kind == 'ret' and o.val is not None and o.val.unk)
        w.check_resources(o, [])
    return end(w)


SKEL = ('(.)', '( . )', ' (. .) .', '.. ..', '(..)(.)', '(. ~ .)', '(..', ' ')


def jobs(tier, deadline=None):
    deep = tier == 'thorough'
    out = []
    for ws in (True, False):
        for n in range(0, 9 if deep else 7):
            out.append(lambda cp, n=n, ws=ws: ob_read(cp, [ANYCH] * n, 'every text of %d characters' % n, 'LQG'[n % 3], ws, False, deadline))
        for n in range(0, 8 if deep else 6):
            out.append(lambda cp, n=n, ws=ws: ob_read(cp, [ANYCH] * n, 'two elements, every text of %d characters' % n, 'LQG'[n % 3], ws, True, deadline))
        for s in SKEL:
            out.append(lambda cp, s=s, ws=ws: ob_read(cp, [ANYCH if c == '.' else ord(c) for c in s], 'texts like "%s"' % s, 'G', ws, False, deadline))
            if s.count('.') < (4 if deep else 3):
                out.append(lambda cp, s=s, ws=ws: ob_read(cp, [ANYCH if c == '.' else ord(c) for c in s + ' (. )'], 'two elements, texts like "%s (. )"' % s, 'Q', ws, True, deadline))
    for k in 'LQG':
        for again in (False, True):
            out.append(lambda cp, k=k, again=again: ob_attached(cp, k, again))
    return out

"""C++ layer: world model (fields, elements, reference counts, exceptions, strings) on top of the interpreter."""
import re, subprocess
from .terms import *
from .state import *
from .state import _o
from .interp import Interp, Outcome, Budget, Program, trace_list
from .ir import Ty
from . import flint, specs, roots
from .flint import ret, new_heap, free
from .specs import Lay
from .text import scat, tlen, lit, prefix, same_len
from .roots import Result

PTR = Ty('ptr')
I64 = Ty('int', None, 64)


# ------------------------------------------------------------------ names
def normalise(d):
    d = d.replace('std::__cxx11::', 'std::')
    d = re.sub(r'std::basic_string<char, std::char_traits<char>, std::allocator<char> ?>', 'std::string', d)
    d = re.sub(r'__gmp_expr<__mpz_struct ?\[1\], __mpz_struct ?\[1\] ?>', 'mpz_class', d)
    d = re.sub(r'__gmp_expr<__mpq_struct ?\[1\], __mpq_struct ?\[1\] ?>', 'mpq_class', d)
    d = re.sub(r'std::vector<([^<>]*), std::allocator<\1 ?> ?>', r'std::vector<\1>', d)
    d = re.sub(r'\[abi:cxx11\]', '', d)
    return d


class Names:
    def __init__(self, prog):
        names = set()
        for m in prog.modules:
            names |= set(m.functions) | set(m.declares) | set(m.aliases)
        names = sorted(names)
        out = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
        self.dem = {n: normalise(d) for n, d in zip(names, out)}
        self.by = {}
        for m in prog.modules:
            for n, f in list(m.functions.items()) + [(a, m.functions.get(t)) for a, t in m.aliases.items()]:
                if f is not None:
                    self.by.setdefault(self.dem[n], f)
        self.cache = {}

    def find(self, sig):
        return self.by.get(sig)

    def like(self, rx):
        r = re.compile(rx)
        return [(d, f) for d, f in self.by.items() if r.search(d)]


# ------------------------------------------------------------------ class layout
class XL:
    nf = 0          # renf_elem_class::nf
    a = 8           # renf_elem_class::a
    size = 88
    name = 0        # renf_class::name
    renf = 32
    ref = 232
    cache = 240
    csize = 248


def set_layout(mods):
    for m in mods:
        L = m.layout
        for n, fields in (('class.eantic::renf_elem_class', 'e'), ('class.eantic::renf_class', 'f')):
            if n not in m.types:
                continue
            t = m.types[n]
            for i, x in enumerate(t.a):
                o = L.field_off(Ty('named', n), i)[0]
                nm = x.a if x.k == 'named' else (x.a.a if x.k == 'array' and x.a is not None and x.a.k == 'named' else '')
                nm = nm or ''
                if fields == 'e':
                    if 'intrusive_ptr' in nm:
                        XL.nf = o
                    elif nm.endswith('struct.renf_elem'):
                        XL.a = o
                else:
                    if 'basic_string' in nm:
                        XL.name = o
                    elif nm.endswith('struct.renf'):
                        XL.renf = o
                    elif 'atomic' in nm:
                        XL.ref = o
                    elif x.k == 'ptr':
                        XL.cache = o
            if fields == 'e':
                XL.size = L.size(Ty('named', n))
            else:
                XL.csize = L.size(Ty('named', n))


# ------------------------------------------------------------------ exceptions
PARENT = {'std::invalid_argument': 'std::logic_error', 'std::out_of_range': 'std::logic_error', 'std::length_error': 'std::logic_error', 'std::domain_error': 'std::logic_error',
          'std::logic_error': 'std::exception', 'std::runtime_error': 'std::exception', 'std::overflow_error': 'std::runtime_error', 'std::range_error': 'std::runtime_error',
          'std::bad_cast': 'std::exception', 'boost::numeric::bad_numeric_cast': 'std::bad_cast', 'boost::bad_lexical_cast': 'std::bad_cast', 'std::bad_alloc': 'std::exception',
          'boost::numeric::negative_overflow': 'boost::numeric::bad_numeric_cast', 'boost::numeric::positive_overflow': 'boost::numeric::bad_numeric_cast'}


def tiname(sym):
    sym = sym.lstrip('@')
    if sym.startswith('_ZTI'):
        o = subprocess.run(['c++filt', sym], capture_output=True, text=True).stdout.strip()
        return o.replace('typeinfo for ', '')
    return sym


_ti = {}


def ti(sym):
    if sym not in _ti:
        _ti[sym] = tiname(sym)
    return _ti[sym]


def exc_match(t, c):
    """thrown type t caught by clause c: True/False/None"""
    if t is None or t.startswith('?'):
        return None
    m = re.search(r'wrapexcept<(.*?)>', t)
    if m:
        t = m.group(1)
    x = t
    while x:
        if x == c:
            return True
        x = PARENT.get(x)
    return False


def exc_type(v):
    return v.args[0] if isinstance(v, T) and v.op == 'exc' else None


# ------------------------------------------------------------------ reference counts
def ref_get(st, r):
    c = st.reg('#ref').get(r)
    return c.val.args[0] if c is not None else 0


def ref_add(A, st, r, d):
    n = ref_get(st, r) + d
    st.wreg('#ref')[r] = Cell('int', I(n), None, 8)
    return n


def field_region(A, p):
    if p.op == 'ptr' and p.args[0] in A.cxx_fields and p.args[1] is ZERO:
        return p.args[0]
    return None


def sp_add_ref(A, st, args, inst):
    r = field_region(A, args[0])
    if r is None:
        if args[0] is NULL:
            A.event('null-deref', st, 'reference to a null field is taken')
        st.note('ref?', 1)
        return ret(st)
    live_field(A, st, r)
    ref_add(A, st, r, 1)
    return ret(st)


def live_field(A, st, r):
    rid = A.regions[r].rid
    if rid is not None and st.live.get(rid) == 'dead':
        A.event('use-after-free', st, 'field %s is used after its last reference was released' % r)


def sp_release(A, st, args, inst):
    r = field_region(A, args[0])
    if r is None:
        st.note('ref?', -1)
        return ret(st)
    n = ref_add(A, st, r, -1)
    F = A.cxx_fields[r]
    if n < 0:
        A.event('ref-underflow', st, 'field %s is released more often than it is referenced' % r)
    elif n == 0 and r != 'T':
        # last reference: the field and its cached elements are destroyed
        st.note('field-destroyed', r)
        st.live[A.regions[r].rid] = 'dead'
        cr = A.regions.get(r + '.cache')
        if cr is not None:
            st.live[cr.rid] = 'dead'
            for c in st.reg(r + '.cache').values():
                if c.rid is not None:
                    st.live[c.rid] = 'dead'
    return ret(st)


def sp_make_trivial(A, st, args, inst):
    return ret(st, ptr('T'))


def sp_parse(A, st, args, inst):
    """fmpq_poly_set_str_pretty: nonzero on malformed text, else the polynomial the text denotes"""
    t, v = ctext(A, st, args[1]), ctext(A, st, args[2])
    c = cpred('malformed', t, v)
    st.note('parse', t, v)
    outs = []
    for truth in (True, False):
        s = st.copy()
        try:
            s.facts.assume(c if truth else cnot(c))
        except Contradiction:
            continue
        A.write(s, 'qpoly', args[0], A.unknown('PQ', 'parse') if truth else mk('parsed', t, v))
        outs.append(Outcome(s, 'ret', tomach(ind(c), 32) if False else mconst(1 if truth else 0, 32)))
    return outs


# ------------------------------------------------------------------ std::string
def sread(A, st, p):
    if p.op != 'ptr':
        return mk('strunk', p)
    h = getattr(A, 'sread_hook', None)
    if h:
        v = h(st, p)
        if v is not None:
            return v
    c = st.reg(p.args[0]).get(off_key(p.args[1]))
    if c is not None and c.kind == 'str':
        return c.val
    live_check(A, st, p)
    if A.region_lazy(p.args[0]) or p.args[0] in st.havoc:
        return A.materialise(st, 'str', p).val
    return A.unknown('str', 's')


def live_check(A, st, p):
    r = A.regions.get(p.args[0])
    if r is not None and r.rid is not None and st.live.get(r.rid) == 'dead':
        A.event('use-after-free', st, 'use of %s after it was released' % A.pname(p))


def sinval(A, st, p):
    """pointers into the buffer of the string object at p become dangling"""
    if p.op != 'ptr':
        return
    k = '%s+%s' % (p.args[0], p.args[1].id)
    if k in st.reg('#schr'):
        del st.wreg('#schr')[k]
    c = st.reg('#sbuf').get(k)
    if c is not None:
        st.live[A.regions[c.val.args[0]].rid] = 'dead'
        m = st.wreg('#sbuf')
        del m[k]


def swrite(A, st, p, v):
    if p.op == 'ptr':
        sinval(A, st, p)
        live_check(A, st, p)
        st.set_cell(p, Cell('str', v))


def ctext(A, st, p):
    if p.op == 'ptr':
        live_check(A, st, p)
    if p is NULL:
        A.event('null-deref', st, 'null pointer used as string')
    return A.text(st, p)


def m_str(d):
    """model for a member or free function of std::string, by demangled name"""
    m = re.match(r'^std::string::(~?basic_string|[a-zA-Z_]+|operator[^(]*?)(<[^(]*>)?\((.*)\)( const)?$', d)
    if m:
        f, a = m.group(1), m.group(3)
        return _s_member(f, a)
    if re.match(r'^std::string std::operator\+', d):
        a = d[d.index('('):]
        def m2(A, st, args, inst):
            vs = [sarg(A, st, x, t) for x, t in zip(args[1:], split_args(a))]
            swrite(A, st, args[0], scat(vs[0], vs[1]))
            return ret(st)
        return m2
    if re.match(r'^bool std::operator(==|!=|<)', d) and 'std::string' in d:
        a = d[d.index('('):]
        ne = 'operator!=' in d
        lt = 'operator<' in d and 'operator<<' not in d and '==' not in d and not ne
        def m3(A, st, args, inst):
            vs = [sarg(A, st, x, t) for x, t in zip(args, split_args(a))]
            if lt:
                return ret(st, ind(cpred('strlt', *vs)))
            if vs[0] is vs[1]:
                c = cpred('true')
                return ret(st, mconst(0 if ne else 1, 1))
            c = cpred('streq', *sorted(vs, key=lambda t: t.id))
            return ret(st, ind(cnot(c) if ne else c))
        return m3
    return None


def split_args(a):
    a = a.strip()
    if a.startswith('('):
        a = a[1:]
        depth, out, cur = 1, [], ''
        for ch in a:
            if ch in '(<[':
                depth += 1
            elif ch in ')>]':
                depth -= 1
                if depth == 0:
                    break
            if ch == ',' and depth == 1:
                out.append(cur.strip())
                cur = ''
            else:
                cur += ch
        if cur.strip():
            out.append(cur.strip())
        return out
    return split_args('(' + a + ')')


def sarg(A, st, v, t):
    if t.startswith('std::string'):
        return sread(A, st, v)
    if t.startswith('char const*'):
        return ctext(A, st, v)
    if t == 'char':
        if v.op == 'mi':
            return mk('lit', chr(v.args[0]))
        while v.op == 'trunc' and v.args[0].op in ('zext', 'sext') and mwidth(v.args[0].args[0]) == 8:
            v = v.args[0].args[0]
        return mk('chr', v)
    return A.unknown('str', 's')


def substr(v, a=ZERO, n=None):
    if isint(a) and a.args[0] == 0:
        if n is None or isint(n) and n.args[0] == (1 << 64) - 1:
            return v
        return prefix(v, n)
    if (n is None or isint(n) and n.args[0] == (1 << 64) - 1):
        if v.op == 'lit' and isint(a):
            return lit(v.args[0][a.args[0]:])
        return mk('suffix', v, a)
    return mk('substr', v, a, n)


def strcmp(A, st, x, y):
    """zero exactly for equal texts"""
    if x is y:
        return ret(st, mconst(0, 32))
    c = cpred('streq', *sorted((x, y), key=lambda t: t.id))
    outs = []
    for truth in (True, False):
        s = st.copy()
        try:
            s.facts.assume(c if truth else cnot(c))
            if truth:
                v = mconst(0, 32)
            else:
                v = tomach(mk('strcmp', x, y), 32)
                s.facts.assume(csign(mk('strcmp', x, y), (-1, 1)))
        except Contradiction:
            continue
        outs.append(Outcome(s, 'ret', v))
    return outs


def haschar(A, st, t, ch, yes, no):
    """fork on whether the character occurs"""
    if t.op == 'lit' and isint(ch) and chr(ch.args[0]) not in t.args[0]:
        return [Outcome(st, 'ret', no)]
    c = cpred('haschar', t, ch)
    outs = []
    for truth in (True, False):
        s = st.copy()
        try:
            s.facts.assume(c if truth else cnot(c))
            if truth:
                s.facts.assume(csign(mk('pos', t, ch), (0, 1)))
        except Contradiction:
            continue
        outs.append(Outcome(s, 'ret', yes if truth else no))
    return outs


def _s_member(f, a):
    ar = split_args(a)

    def m(A, st, args, inst):
        this = args[0]
        rest = args[1:]
        if f == 'basic_string':
            ts = [t for t in ar if 'allocator' not in t]
            if not ts:
                v = mk('lit', '')
            elif len(ts) == 1:
                v = sarg(A, st, rest[0], ts[0])
                if ts[0].endswith('&&'):
                    swrite(A, st, rest[0], A.unknown('str', 'moved'))
            elif len(ts) == 2 and ts[0].startswith('char const*') and 'long' in ts[1]:
                v = prefix(ctext(A, st, rest[0]), uval(A.simp(st, rest[1])))
            elif len(ts) >= 2 and ts[0].startswith('std::string') and all('long' in t for t in ts[1:]):
                v = substr(sread(A, st, rest[0]), *[uval(A.simp(st, x)) for x in rest[1:len(ts)]])
            elif len(ts) == 2 and 'long' in ts[0] and ts[1] == 'char' and A.simp(st, rest[0]).op == 'mi' and A.simp(st, rest[1]).op == 'mi' and A.simp(st, rest[0]).args[0] < 4096:
                v = lit(chr(A.simp(st, rest[1]).args[0]) * A.simp(st, rest[0]).args[0])
            else:
                v = A.unknown('str', 'ctor')
            swrite(A, st, this, v)
            return ret(st)
        if f == '~basic_string':
            sinval(A, st, this)
            if this.op == 'ptr':
                live_check(A, st, this)
            return ret(st)
        if f in ('c_str', 'data'):
            v = sread(A, st, this)
            if this.op != 'ptr':
                return ret(st, A.unknown('ptr', 'cstr'))
            k = '%s+%s' % (this.args[0], this.args[1].id)
            c = st.reg('#sbuf').get(k)
            if c is not None:
                return ret(st, c.val)
            rn = A.fresh('sbuf')
            rid = A.fresh('xs')
            A.rids[rid] = ('string buffer', A.here_repo())
            st.live[rid] = 'live'
            A.region(rn, 'sbuf', lazy=True, array=True, rid=rid, info='characters of ' + A.pname(this))
            st.wreg('#sbuf')[k] = Cell('int', ptr(rn), None, 8)
            A.set_txt(st, ptr(rn), v)
            return ret(st, ptr(rn))
        if f in ('size', 'length'):
            return ret(st, tomach(tlen(sread(A, st, this)), 64, 'u'))
        if f == 'empty':
            v = sread(A, st, this)
            return ret(st, ind(cpred('streq', *sorted((v, mk('lit', '')), key=lambda t: t.id))))
        if f in ('operator+=', 'append', 'push_back') and len(ar) == 1:
            swrite(A, st, this, scat(sread(A, st, this), sarg(A, st, rest[0], ar[0])))
            return ret(st, this if f != 'push_back' else None)
        if f in ('operator=', 'assign') and len(ar) == 1:
            swrite(A, st, this, sarg(A, st, rest[0], ar[0]))
            return ret(st, this)
        if f == 'swap':
            x, y = sread(A, st, this), sread(A, st, rest[0])
            swrite(A, st, this, y)
            swrite(A, st, rest[0], x)
            return ret(st)
        if f == 'compare' and len(ar) == 1:
            return strcmp(A, st, sread(A, st, this), sarg(A, st, rest[0], ar[0]))
        if f == 'find' and ar and ar[0] in ('char', 'char const*', 'std::string const&') and (len(rest) < 2 or A.simp(st, rest[1]) is mconst(0, 64)):
            v, x = sread(A, st, this), sarg(A, st, A.simp(st, rest[0]), ar[0])
            if x.op == 'lit' and len(x.args[0]) == 1:
                return haschar(A, st, v, I(ord(x.args[0])), tomach(mk('pos', v, I(ord(x.args[0]))), 64, 'u'), mconst((1 << 64) - 1, 64))
        if f in ('append', 'assign') and len(ar) == 2 and ar[0] == 'char const*' and 'long' in ar[1]:
            x = prefix(ctext(A, st, rest[0]), uval(A.simp(st, rest[1])))
            swrite(A, st, this, x if f == 'assign' else scat(sread(A, st, this), x))
            return ret(st, this)
        if f in ('resize', 'erase') and len(ar) >= 1 and (f == 'resize' and len(ar) == 1 or f == 'erase' and 'long' in ar[0] and (len(rest) < 2 or A.simp(st, rest[1]) is mconst((1 << 64) - 1, 64))):
            v, n = sread(A, st, this), uval(A.simp(st, rest[0]))
            if n.op == 'pos' and n.args[0] is v or v.op == 'lit' and isint(n) and n.args[0] <= len(v.args[0]):
                swrite(A, st, this, prefix(v, n))
            else:
                swrite(A, st, this, A.unknown('str', f))
            return ret(st, this if f == 'erase' else None)
        if f == 'clear':
            swrite(A, st, this, lit(''))
            return ret(st)
        if f in ('find', 'rfind', 'find_first_of', 'compare', 'at', 'operator[]', 'front', 'back', 'begin', 'end', 'capacity'):
            sread(A, st, this)
            return ret(st, None if inst.ty.k == 'void' else A._unk_ty(inst.ty))
        if f == 'substr':
            v = sread(A, st, args[1])
            swrite(A, st, args[0], substr(v, *[uval(A.simp(st, x)) for x in args[2:]]))
            return ret(st)
        if f == 'reserve':
            return ret(st)
        # anything else: content unknown afterwards
        if this.op == 'ptr':
            swrite(A, st, this, A.unknown('str', f))
        return ret(st, None if inst.ty.k == 'void' else A._unk_ty(inst.ty))
    return m


# ------------------------------------------------------------------ gmp
def zini(f):
    def m(A, st, args, inst):
        A.write(st, 'mpz', args[0], f(A, st, args), init=True)
        return ret(st)
    return m


def zset(f):
    def m(A, st, args, inst):
        A.write(st, 'mpz', args[0], f(A, st, args))
        return ret(st)
    return m


def rz(A, st, p):
    return A.read(st, 'mpz', p)


G = {
    '__gmpz_init': zini(lambda A, st, a: ZERO), '__gmpz_init2': zini(lambda A, st, a: ZERO),
    '__gmpz_init_set': zini(lambda A, st, a: rz(A, st, a[1])),
    '__gmpz_init_set_si': zini(lambda A, st, a: sval(A.simp(st, a[1]))),
    '__gmpz_init_set_ui': zini(lambda A, st, a: uval(A.simp(st, a[1]))),
    '__gmpz_set': zset(lambda A, st, a: rz(A, st, a[1])),
    '__gmpz_set_si': zset(lambda A, st, a: sval(A.simp(st, a[1]))),
    '__gmpz_set_ui': zset(lambda A, st, a: uval(A.simp(st, a[1]))),
    '__gmpz_neg': zset(lambda A, st, a: neg(rz(A, st, a[1]))),
    '__gmpz_abs': zset(lambda A, st, a: absv(rz(A, st, a[1]))),
    '__gmpz_add': zset(lambda A, st, a: add(rz(A, st, a[1]), rz(A, st, a[2]))),
    '__gmpz_sub': zset(lambda A, st, a: sub(rz(A, st, a[1]), rz(A, st, a[2]))),
    '__gmpz_mul': zset(lambda A, st, a: mul(rz(A, st, a[1]), rz(A, st, a[2]))),
    'fmpz_get_mpz': zset(lambda A, st, a: A.read(st, 'fmpz', a[1])),
    '__gmpz_add_ui': zset(lambda A, st, a: add(rz(A, st, a[1]), uval(a[2]))),
    '__gmpz_sub_ui': zset(lambda A, st, a: sub(rz(A, st, a[1]), uval(a[2]))),
}


def absv(x):
    return flint.absv(x) if hasattr(flint, 'absv') else mk('abs', x)


def gm(*names):
    def d(f):
        for n in names:
            G[n] = f
        return f
    return d


@gm('__gmpz_clear')
def _(A, st, args, inst):
    A.clear(st, 'mpz', args[0])
    return ret(st)


@gm('__gmpq_init')
def _(A, st, args, inst):
    flint.wmpq(A, st, args[0], ZERO, True)
    A.write(st, 'mpz', ptr_add(args[0], I(16)), ONE)
    return ret(st)


@gm('__gmpq_clear')
def _(A, st, args, inst):
    A.clear(st, 'mpz', args[0])
    A.clear(st, 'mpz', ptr_add(args[0], I(16)))
    return ret(st)


@gm('__gmpq_set')
def _(A, st, args, inst):
    flint.wmpq(A, st, args[0], flint.rmpq(A, st, args[1]))
    return ret(st)


@gm('__gmpq_set_si', '__gmpq_set_ui')
def _(A, st, args, inst):
    f = sval if inst.x['callee'].v.endswith('si') else uval
    flint.wmpq(A, st, args[0], div(f(A.simp(st, args[1])), uval(A.simp(st, args[2]))))
    return ret(st)


@gm('__gmpq_set_z')
def _(A, st, args, inst):
    flint.wmpq(A, st, args[0], rz(A, st, args[1]))
    return ret(st)


@gm('__gmpq_canonicalize')
def _(A, st, args, inst):
    flint.wmpq(A, st, args[0], flint.rmpq(A, st, args[0]))
    return ret(st)


@gm('__gmpq_equal')
def _(A, st, args, inst):
    c = csign(sub(flint.rmpq(A, st, args[0]), flint.rmpq(A, st, args[1])), (0,))
    return ret(st, mk('zext', ind(c), 32) if ind(c).op != 'mi' else mconst(ind(c).args[0], 32))


@gm('__gmpq_cmp')
def _(A, st, args, inst):
    return ret(st, tomach(sgn(sub(flint.rmpq(A, st, args[0]), flint.rmpq(A, st, args[1]))), 32))


@gm('__gmpz_cmp')
def _(A, st, args, inst):
    return ret(st, tomach(sgn(sub(rz(A, st, args[0]), rz(A, st, args[1]))), 32))


@gm('__gmpz_cmp_si', '_cmp_ui')
def _(A, st, args, inst):
    return ret(st, tomach(sgn(sub(rz(A, st, args[0]), sval(args[1]))), 32))


@gm('__gmpz_cmp_ui')
def _(A, st, args, inst):
    return ret(st, tomach(sgn(sub(rz(A, st, args[0]), uval(args[1]))), 32))


@gm('__gmpz_init_set_str', '__gmpz_set_str')
def _(A, st, args, inst):
    v = mk('strz', ctext(A, st, args[1]))
    st.facts.integer.append(v)
    st.facts.rational.append(v)
    A.write(st, 'mpz', args[0], v, init='init' in inst.x['callee'].v)
    return ret(st, tomach(mk('strerr', v), 32))


@gm('__gmpz_swap')
def _(A, st, args, inst):
    flint.swap_cells(A, st, 'mpz', args[0], args[1])
    return ret(st)


# ------------------------------------------------------------------ runtime
@gm('__cxa_allocate_exception')
def _(A, st, args, inst):
    rn = A.fresh('exc')
    A.region(rn, 'exc', lazy=True, info='exception object')
    return ret(st, ptr(rn))


@gm('__cxa_free_exception', '__cxa_atexit', '__cxa_guard_release', '__cxa_guard_abort', '__cxa_end_catch')
def _(A, st, args, inst):
    return ret(st, None if inst.ty.k == 'void' else mconst(0, 32))


@gm('__cxa_guard_acquire')
def _(A, st, args, inst):
    return ret(st, mconst(1, 32))


@gm('__cxa_throw')
def _(A, st, args, inst):
    t = args[1]
    nm = ti(t.args[0]) if t.op == 'ptr' else '?'
    return [Outcome(st, 'throw', mk('exc', nm, A.here_repo()[0]), A.here_repo()[0])]


@gm('__cxa_begin_catch')
def _(A, st, args, inst):
    e = args[0].args[0] if args[0].op == 'excptr' else A.unknown('exc')
    st.env['__caught'] = e
    return ret(st, args[0])


@gm('__cxa_rethrow')
def _(A, st, args, inst):
    return [Outcome(st, 'throw', st.env.get('__caught') or mk('exc', '?', ''), A.here_repo()[0])]


@gm('llvm.eh.typeid.for', 'llvm.eh.typeid.for.p0')
def _(A, st, args, inst):
    t = args[0]
    return ret(st, mk('tid', ti(t.args[0]) if t.op == 'ptr' else '?'))


@gm('getenv')
def _(A, st, args, inst):
    A.region('*env', 'deref', lazy=True, array=True, info='environment variable')
    return ret(st, ptr('*env'))


def thrower(name):
    def m(A, st, args, inst):
        return [Outcome(st, 'throw', mk('exc', name, A.here_repo()[0]), A.here_repo()[0])]
    return m


def exhausted(A, st, args, inst):
    """containers beyond the address space: not modelled, like any failed allocation"""
    return [Outcome(st, 'abort', None, A.here_repo()[0])]


G['_ZSt25__throw_bad_function_callv'] = thrower('std::bad_function_call')
G['_ZSt19__throw_logic_errorPKc'] = thrower('std::logic_error')
G['_ZSt20__throw_length_errorPKc'] = exhausted
G['_ZSt20__throw_system_errori'] = thrower('std::system_error')
G['_ZSt17__throw_bad_allocv'] = exhausted
G['_ZSt28__throw_bad_array_new_lengthv'] = exhausted


@gm('pthread_mutex_lock')
def _(A, st, args, inst):
    if args[0] in st.locks:
        A.event('deadlock', st, 'mutex %s is locked while already held' % A.pname(args[0]))
    st.locks = st.locks + (args[0],)
    st.note('lock', args[0])
    return ret(st, mconst(0, 32))


@gm('pthread_mutex_unlock')
def _(A, st, args, inst):
    if args[0] not in st.locks:
        A.event('unlock', st, 'mutex %s is unlocked but not held' % A.pname(args[0]))
    st.locks = tuple(l for l in st.locks if l is not args[0])
    st.note('unlock', args[0])
    if not st.locks and getattr(A, 'reg', None) is not None:
        A.reg.unlocked(st)
    return ret(st, mconst(0, 32))


@gm('_ZSt11_Hash_bytesPKvmm')
def _(A, st, args, inst):
    n = A.simp(st, args[1])
    if args[0].op == 'ptr' and args[0].args[1] is ZERO and args[0].args[0] in st.txt:
        t = st.txt[args[0].args[0]]
        if same_len(tlen(t), uval(n)):
            return ret(st, mk('hashbytes', t, args[2]))
    v = A.load(st, Ty('float', 'double') if n.op == 'mi' and n.args[0] == 8 else I64, args[0]) if args[0].op == 'ptr' else A.unknown('M64')
    return ret(st, mk('hashbytes', v, args[1], args[2]))


@gm('llvm.is.constant.i1', 'llvm.is.constant.i64', 'llvm.is.constant.i32')
def _(A, st, args, inst):
    return ret(st, mconst(0, 1))


@gm('strchr')
def _(A, st, args, inst):
    """either absent (null) or a position inside the string"""
    s = args[0]
    t = ctext(A, st, s)
    return haschar(A, st, t, sval(args[1]), ptr_add(s, mk('pos', t, sval(args[1]))), NULL)


@gm('strcmp')
def _(A, st, args, inst):
    return strcmp(A, st, ctext(A, st, args[0]), ctext(A, st, args[1]))


# ------------------------------------------------------------------ models by demangled name
def m_pure(A, st, args, inst):
    return ret(st, None if inst.ty.k == 'void' else A._unk_ty(inst.ty))


def m_first(A, st, args, inst):
    return ret(st, args[0])


PURE = re.compile(r'^(std::(logic_error|invalid_argument|runtime_error|out_of_range|bad_cast|exception|domain_error|length_error)::|std::allocator<|std::locale::|std::ios_base::|std::basic_ios<|'
                  r'boost::numeric::(bad_numeric_cast|negative_overflow|positive_overflow)::|__gnu_cxx::new_allocator<|std::__new_allocator<)')
STREAM = re.compile(r'^(std::basic_ostream<char[^(]*(&)? std::operator<<|std::basic_ostream<char, std::char_traits<char> >::operator<<|std::basic_istream<char[^(]*(&)? std::operator>>|std::basic_istream<char, std::char_traits<char> >::operator>>)')


def m_vector_size(A, st, args, inst):
    v = vec_at(A, st, args[0])
    if v is None:
        return ret(st, A._unk_ty(inst.ty))
    n = getattr(A, 'vec_len', None)
    if n is not None:
        return ret(st, mconst(n, 64))
    return ret(st, tomach(mk('plen', v), 64, 'u'))


def vec_at(A, st, p):
    if p.op != 'ptr':
        return None
    c = st.reg(p.args[0]).get(off_key(p.args[1]))
    return c.val if c is not None and c.kind == 'stdvec' else None


def m_vector_at(A, st, args, inst):
    """reference to an element of a coefficient vector"""
    v = vec_at(A, st, args[0])
    if v is None:
        return ret(st, A.unknown('ptr', 'velt'))
    rn = A.fresh('velt')
    i = uval(A.simp(st, args[1]))
    A.region(rn, 'param', lazy=False, info='%s[%s]' % (A.pname(args[0]), show(i)))
    k = A.vec_kind
    x = mk('pcoef' if k != 'mpq' else 'qcoef', v, i)
    m = st.wreg(rn)
    if k in ('s32', 'u32', 's64', 'u64'):
        w = int(k[1:])
        m[0] = Cell('int', tomach(x, w, k[0]), None, w // 8)
    elif k == 'mpz':
        m[0] = Cell('mpz', x)
    else:
        m[0] = Cell('mpz', num(x))
        m[16] = Cell('mpz', den(x))
    return ret(st, ptr(rn))


EMPTY = mk('vecv', atom('nothing', 'PZ'), ZERO)
VEC = re.compile(r'^(?:.* )?std::vector<mpz_class(?:, std::allocator<mpz_class ?>)? ?>::(~?\w+|operator=)(?:<.*>)?\((.*)\)(?: const)?$')


def vecv(A, st, p):
    c = st.reg(p.args[0]).get(off_key(p.args[1])) if p.op == 'ptr' else None
    return c.val if c is not None and c.kind == 'stdvec' and c.val.op == 'vecv' else None


def vec_push(A, st, p, x):
    """append integer x"""
    v = vecv(A, st, p)
    new = None
    if v is not None and not v.unk:
        V, n = v.args
        f = st.facts
        if n is ZERO and V.args[0] == 'nothing':
            for t in subterms(x):
                if t.op == 'pcoef' and f.equal(t.args[1], ZERO) and f.equal(t, x):
                    new = mk('vecv', t.args[0], ONE)
            if new is None and f.sign(x) == {0}:
                new = mk('vecv', mk('pzero'), ONE)
        else:
            ok = f.equal(mk('pcoef', V, n), x) or f.sign(x) == {0} and f.sign(sub(n, mk('plen', V))) <= {0, 1}
            if not ok and V.op == 'pzero' and f.sign(x) == {0}:
                ok = True
            if ok:
                new = mk('vecv', V, add(n, ONE))
    if p.op == 'ptr':
        st.set_cell(p, Cell('stdvec', new if new is not None else mk('vecv', A.unknown('PZ', 'vec'), A.unknown('Z', 'len'))))


def m_vec(f, a):
    def m(A, st, args, inst):
        p = args[0]
        if f == 'vector':
            ts = [t for t in split_args(a) if 'allocator<' not in t.split('std::vector')[0]]
            if not ts:
                v = EMPTY
            elif ts[0].startswith('std::vector'):
                v = vecv(A, st, args[1]) or mk('vecv', A.unknown('PZ', 'vec'), A.unknown('Z', 'len'))
            else:
                v = mk('vecv', A.unknown('PZ', 'vec'), A.unknown('Z', 'len'))
            if p.op == 'ptr':
                st.set_cell(p, Cell('stdvec', v))
            return ret(st)
        if f in ('push_back', 'emplace_back'):
            x = rz(A, st, args[1]) if 'mpz_class' in a or f == 'push_back' else A.unknown('Z', 'x')
            vec_push(A, st, p, x)
            return ret(st, None if inst.ty.k == 'void' else A.unknown('ptr', 'velt'))
        if f in ('reserve', '~vector', 'shrink_to_fit'):
            return ret(st)
        if f == 'resize':
            v, n = vecv(A, st, p), uval(A.simp(st, args[1]))
            if v is not None and v.args[0].args[:1] != ('nothing',) and st.facts.sign(sub(v.args[1], mk('plen', v.args[0]))) <= {0, 1} and st.facts.sign(sub(n, v.args[1])) <= {0, 1}:
                st.set_cell(p, Cell('stdvec', mk('vecv', v.args[0], n)))
            elif p.op == 'ptr':
                st.set_cell(p, Cell('stdvec', mk('vecv', A.unknown('PZ', 'vec'), A.unknown('Z', 'len'))))
            return ret(st)
        if f == 'size' and vecv(A, st, p) is not None:
            return ret(st, tomach(vecv(A, st, p).args[1], 64, 'u'))
        if f == 'size':
            return m_vector_size(A, st, args, inst)
        if f in ('operator[]', 'at'):
            return m_vector_at(A, st, args, inst)
        if p.op == 'ptr' and vecv(A, st, p) is not None:
            st.set_cell(p, Cell('stdvec', mk('vecv', A.unknown('PZ', 'vec'), A.unknown('Z', 'len'))))
        return ret(st, None if inst.ty.k == 'void' else A._unk_ty(inst.ty))
    return m


def cxx_model(nm, d):
    mv = VEC.match(d)
    if mv and mv.group(1) not in ('size',) and not mv.group(1).startswith('_'):
        return m_vec(mv.group(1), mv.group(2))
    if d.startswith('std::string') or 'std::string std::operator+' in d or d.startswith('bool std::operator'):
        m = m_str(d)
        if m:
            return m
    if PURE.match(d):
        return m_pure
    if STREAM.match(d) and 'operator<<' in d:
        a = split_args(d[d.index('operator<<'):].split('(', 1)[1]) if '(' in d[d.index('operator<<'):] else []
        member = '>::operator<<' in d

        def m_out(A, st, args, inst):
            ts = a[0:1] if member else a[1:2]
            v = args[1] if len(args) > 1 else None
            t = None
            if ts and v is not None:
                if ts[0].startswith('std::string') or ts[0] in ('char const*', 'char'):
                    t = sarg(A, st, v, ts[0])
                elif ts[0] in ('int', 'long', 'short', 'long long'):
                    t = mk('fmtnum', sval(v))
                elif ts[0].startswith('unsigned'):
                    t = mk('fmtnum', uval(v))
            st.note('out', t, args[0])
            return ret(st, args[0])
        return m_out
    if STREAM.match(d) or d.startswith('std::basic_ostream<char, std::char_traits<char> >& std::endl'):
        return m_first
    if re.match(r'^std::vector<.*>::size\(\) const$', d):
        return m_vector_size
    if re.match(r'^std::vector<.*>::(operator\[\]|at)\(unsigned long\)', d):
        return m_vector_at
    if d in ('int boost::math::sign<int>(int const&)',) or re.match(r'^int boost::math::sign<', d):
        def sg(A, st, args, inst):
            v = A.load(st, Ty('int', None, 32), args[0])
            return ret(st, tomach(sgn(sval(v)), 32))
        return sg
    if re.match(r'^std::istream|^std::basic_istream', d):
        return m_pure
    if re.match(r'^std::string (boost::lexical_cast<std::string|std::to_string)', d) or re.match(r'^std::to_string\(', d):
        def lx(A, st, args, inst):
            v = args[1]
            if v.op == 'ptr':
                w = A.load(st, I64, v)
            else:
                w = v
            signed = not ('unsigned' in d)
            swrite(A, st, args[0], mk('fmtnum', (sval if signed else uval)(w)))
            return ret(st)
        return lx
    return None


class World:
    """one analysis of a C++ function"""

    def __init__(self, cp, func, name, label, opts=None, extra=None, inline=()):
        self.cp, self.func = cp, func
        self.R = Result(name, label, ())
        self.R.label = lambda: '%s [%s]' % (name, label)
        self.R.missing = func is None
        sp = dict(cp.specs)
        if extra:
            sp.update(extra)
        for n in inline:
            sp.pop(n, None)
        o = {'match_model': cp.match, 'exc_match': exc_match, 'neg_overflow': True}
        o.update(opts or {})
        models = dict(cp.models, **extra) if extra else cp.models
        self.A = A = Interp(cp.prog, models, sp, o)
        A.MAXDEPTH = 60
        A.cxx_fields = {}
        A.vec_kind = None
        A.rootf = func
        self.st = State(A)
        self.objs = []          # regions of visible element objects
        self.ext = {}           # external references of each field
        self.field('T', 'L', ext=1)

    # ---- initial objects
    def field(self, r, kind, ext=0):
        A, st = self.A, self.st
        rid = 'xf' + r
        A.rids[rid] = ('field', ('', ''))
        st.live[rid] = 'live'
        A.region(r, 'param', lazy=True, info='field ' + r, rid=rid)
        F = roots.mk_field(A, st, r, kind, r, XL.renf)
        A.cxx_fields[r] = F
        m = st.wreg(r)
        m[XL.name] = Cell('str', atom('name_' + r, 'str'))
        cr = r + '.cache'
        rid = 'xc' + r
        A.rids[rid] = ('cached elements', ('', ''))
        st.live[rid] = 'live'
        A.region(cr, 'param', lazy=False, info='cached element of field ' + r, rid=rid)
        m[XL.cache] = Cell('int', ptr(cr, 8), None, 8)
        st.wreg(cr)[0] = Cell('int', mconst(3, 64), None, 8)
        for i, v in enumerate((ZERO, ONE, F.alpha)):
            self._elem(cr, r, v, 8 + i * XL.size)
        if r == 'T':
            st.facts.assume(csign(sub(F.alpha, ONE), (0,)))
        ref_add(A, st, r, ext)
        self.ext[r] = ext
        return F

    def _elem(self, region, k, val, off):
        A, st = self.A, self.st
        F = A.cxx_fields[k]
        m = st.wreg(region)
        m[off + XL.nf] = Cell('int', ptr(k), None, 8)
        r1, r2 = 'xo:%s+%d:e' % (region, off), 'xo:%s+%d:b' % (region, off)
        for rid, kd in ((r1, 'nfe'), (r2, 'arb')):
            A.rids[rid] = (kd, ('object ' + region, ''))
            st.live[rid] = 'live'
        m[off + XL.a + Lay.elem] = Cell('nfe', val, r1, fld=F)
        m[off + XL.a + Lay.emb] = Cell('arb', ball('some', val, atom('emb_%s%d' % (region, off), 'ball')), r2)

    def elem(self, name, k, val=None):
        """an element object of field region k"""
        A, st = self.A, self.st
        A.region(name, 'param', lazy=False, info=name)
        if val is None:
            val = atom('v_' + name, 'K')
            if A.cxx_fields[k].kind == 'L':
                st.facts.rational.append(val)
                st.facts._clean()
        self._elem(name, k, val, 0)
        ref_add(A, st, k, 1)
        self.objs.append(name)
        return ptr(name), val

    def moved(self, name):
        self.A.region(name, 'param', lazy=False, info=name)
        self.st.wreg(name)[XL.nf] = Cell('int', NULL, None, 8)
        self.objs.append(name)
        return ptr(name)

    def blank(self, name):
        self.A.region(name, 'param', lazy=False, info=name)
        self.objs.append(name)
        return ptr(name)

    def raw(self, name, lazy=False):
        self.A.region(name, 'param', lazy=lazy, info=name)
        return ptr(name)

    def scalar(self, name, kind):
        """-> (argument, value)"""
        A, st = self.A, self.st
        if kind[0] in 'su' and kind[1:].isdigit():
            t = atom(name, 'M' + kind[1:])
            return t, (sval if kind[0] == 's' else uval)(t)
        p = self.raw(name)
        if kind == 'mpz':
            v = atom(name, 'Z')
            st.wreg(name)[0] = Cell('mpz', v)
        elif kind == 'mpq':
            v = atom(name, 'Q')
            st.wreg(name)[0] = Cell('mpz', num(v))
            st.wreg(name)[16] = Cell('mpz', den(v))
        elif kind == 'fmpz':
            v = atom(name, 'Z')
            st.wreg(name)[0] = Cell('fmpz', v)
        elif kind == 'fmpq':
            v = atom(name, 'Q')
            st.wreg(name)[0] = Cell('fmpz', num(v))
            st.wreg(name)[8] = Cell('fmpz', den(v))
        return p, v

    # ---- run
    def go(self, args):
        R = self.R
        if self.func is None:
            R.undecided.append(('missing', 'function %s is not defined' % R.name, '', []))
            return []
        self.func.parse()
        self.A.root = self.func.name
        self.args = args
        self.ref0 = {r: ref_get(self.st, r) for r in self.A.cxx_fields}
        try:
            outs = self.A.run_function(self.st, self.func, args)
        except Budget as e:
            R.undecided.append(('budget', str(e), '', []))
            outs = []
        R.stats = self.A.stats
        R.uses = set(self.A.uses)
        R.func = self.func
        outs = [o for o in outs if o.kind != 'abort']
        R.exits = len(outs)
        return outs

    def done(self):
        self.R.events = list(self.A.events.values())
        return self.R

    def check(self, ok, rule, msg, o, unk=False):
        if ok:
            self.R.ok += 1
        else:
            unk = unk or any(c.op == 'unkcall' for c in o.st.facts.opaque)
            (self.R.undecided if unk else self.R.viol).append((rule, msg, o.loc, trace_list(o.st)))

    # ---- exit checks
    def nf_of(self, st, obj, off=0):
        c = st.reg(obj).get(off + XL.nf)
        return c.val if c is not None else None

    def check_elem(self, o, obj, val, parents, what, rule='value'):
        """object holds exactly val, in one of the given parents, with a valid enclosure"""
        A, st = self.A, o.st
        f = st.facts
        op = bool(f.opaque)
        nf = self.nf_of(st, obj)
        r = nf.args[0] if nf is not None and nf.op == 'ptr' and nf.args[0] in A.cxx_fields else None
        if r is None:
            unk = nf is not None and nf.op not in ('null', 'ptr')
            self.check(False, 'parent', '%s has no parent field on exit (%s)' % (what, show(nf) if nf is not None else 'unset'), o, unk)
            return
        self.check(r in parents, 'parent', '%s ends up in field %s, expected %s' % (what, r, ' or '.join(sorted(parents))), o)
        F = A.cxx_fields[r]
        c = st.reg(obj).get(XL.a + Lay.elem)
        if c is None:
            self.check(False, 'storage', '%s holds no element data on exit' % what, o)
            return
        got = A.read(st, 'nfe', ptr(obj, XL.a + Lay.elem), F)
        cf = c.fld
        if c.kind == 'nfe':
            self.check(cf is None or cf is F, 'storage', '%s: data belongs to field %s but the parent is %s' % (what, cf.name if cf else '?', r), o)
        if val is not None:
            self.check(f.equal(got, val), rule, '%s: value is %s, must be %s' % (what, show(got), show(val)), o, got.unk or op)
            b = A.read(st, 'arb', ptr(obj, XL.a + Lay.emb))
            e = encl(b)
            self.check(e is not None and f.encloses(e, val), 'enclosure', '%s: enclosure holds %s but the value is %s' % (what, show(e) if e is not None else 'nothing provable', show(val)), o, b.unk or op or got.unk)

    def check_resources(self, o, visible, extra_live=()):
        """every live element resource is owned by exactly one visible object with a parent; references balance"""
        A, st = self.A, o.st
        owners = {}
        count = {r: self.ext[r] for r in A.cxx_fields}
        unkref = False
        for obj in visible:
            nf = self.nf_of(st, obj)
            if nf is None or nf is NULL:
                continue
            if nf.op == 'ptr' and nf.args[0] in count:
                count[nf.args[0]] += 1
            else:
                unkref = True
            for k, c in st.reg(obj).items():
                if isinstance(k, int) and XL.a <= k < XL.a + 80 and c.rid is not None:
                    owners.setdefault(c.rid, set()).add(obj)
        for rid, obs in owners.items():
            self.check(len(obs) == 1, 'shared', 'the same element storage is owned by %s' % ' and '.join(sorted(obs)), o)
            self.check(st.live.get(rid) == 'live', 'dangling', 'object %s owns storage that was already released' % ', '.join(obs), o, st.live.get(rid) == 'maybe')
        for rid, s in st.live.items():
            if s != 'live' or rid in owners or rid in extra_live:
                continue
            kind, where = A.rids.get(rid, ('?', ('', '')))
            if rid.startswith('xo:'):
                if '.cache+' in rid:
                    continue
                self.check(False, 'leak', 'storage of %s is no longer owned by any object and not released' % rid[3:].split('+')[0], o)
            elif rid.startswith('x'):
                continue
            elif kind in ('nfe', 'arb', 'fmpz', 'mpz', 'qpoly', 'zpoly', 'arf', 'mag'):
                self.check(False, 'leak', '%s initialised at %s is not released and not owned by a visible object %s' % (kind, where[0], 'when the exception leaves' if o.kind == 'throw' else 'on return'), o)
        for r in A.cxx_fields:
            n = ref_get(st, r)
            if unkref or any(t == 'ref?' for t, d in st.notes()):
                self.check(n == count[r], 'refcount', 'references to field %s' % r, o, True)
                continue
            if st.live.get(A.regions[r].rid) == 'dead':
                self.check(count[r] == 0, 'refcount', 'field %s is destroyed although %d objects still refer to it' % (r, count[r]), o)
                continue
            self.check(n == count[r], 'refcount', 'field %s has %d references for %d holders on %s' % (r, n, count[r], 'exception' if o.kind == 'throw' else 'return'), o)
        # heap blocks
        from .typestate import reach
        rs = [a.args[0] for a in self.args if a is not None and a.op == 'ptr'] + [r for r in A.cxx_fields]
        if o.val is not None and isinstance(o.val, T):
            rs += [t.args[0] for t in subterms(o.val) if t.op == 'ptr']
        ok = reach(st, rs)
        for r, x in A.regions.items():
            if x.kind == 'heap' and x.rid is not None and st.live.get(x.rid) == 'live' and r not in ok:
                kind, where = A.rids.get(x.rid, ('allocation', ('', '')))
                self.check(False, 'leak', '%s allocated at %s (%s) is neither released nor handed to the caller %s' % (kind, where[0], where[1], 'when the exception leaves' if o.kind == 'throw' else 'on return'), o)
        self.check(not st.locks, 'lock-held', 'a mutex is still held on exit', o)

    def check_scalar(self, o, p, kind, v, what):
        if kind in ('mpz', 'fmpz'):
            got = self.A.read(o.st, kind, p)
        elif kind == 'mpq':
            got = flint.rmpq(self.A, o.st, p)
        elif kind == 'fmpq':
            got = flint.rq(self.A, o.st, p)
        else:
            return
        self.check(o.st.facts.equal(got, v), 'operand-changed', '%s changed to %s' % (what, show(got)), o, got.unk)


class CxxProg:
    def __init__(self, mods):
        self.prog = Program(mods)
        for m in mods:
            specs.set_layout(m)
        set_layout(mods)
        self.names = Names(self.prog)
        self.models = dict(flint.M)
        self.models.update(G)
        self.cache = {}
        self.specs = specs.base_specs()
        for sig, f in (('eantic::intrusive_ptr_add_ref(eantic::renf_class const*)', sp_add_ref), ('eantic::intrusive_ptr_release(eantic::renf_class const*)', sp_release),
                       ('eantic::renf_class::make()', sp_make_trivial)):
            for n, d in self.names.dem.items():
                if d == sig:
                    self.specs[n] = f

        self.specs['fmpq_poly_set_str_pretty'] = sp_parse

    def match(self, name):
        if name not in self.cache:
            d = self.names.dem.get(name)
            if d is None:
                d = normalise(subprocess.run(['c++filt', name], capture_output=True, text=True).stdout.strip())
            m = cxx_model(name, d)
            if m is None:
                # a C function of a library header compiled as C++
                q = re.match(r'(\w+)\(', d)
                if q and name.startswith('_Z'):
                    m = self.models.get(q.group(1))
            self.cache[name] = m
        return self.cache[name]

    def find(self, sig):
        return self.names.find(sig)

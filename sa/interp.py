"""Abstract interpreter over LLVM IR.

Forward dataflow with trace partitioning: states reaching a block over
different branches stay separate up to a cap, loop heads are joined and
iterated to a fixpoint.  Calls into FLINT/Arb/libc are replaced by effect
models (sa.flint); calls to repository functions are either replaced by their
specification (assume/guarantee, sa.specs) or analysed in the caller's context.
"""
import re
from .terms import *
from . import text
from .state import *
from .state import _o
from . import ir

import os
POISON = ('failedstep', 'badstep')
REPO = os.environ.get('SA_REPO', '/repo') + '/'


class Outcome:
    __slots__ = ('st', 'kind', 'val', 'loc')

    def __init__(self, st, kind, val, loc=None):
        self.st, self.kind, self.val, self.loc = st, kind, val, loc


class Event:
    __slots__ = ('kind', 'msg', 'loc', 'func', 'trace', 'data', 'stack')

    def __init__(self, kind, msg, loc, func, trace, data=None, stack=()):
        self.kind, self.msg, self.loc, self.func, self.trace, self.data, self.stack = kind, msg, loc, func, trace, data, stack

    def key(self):
        return (self.kind, self.loc, self.func, self.msg)


class Budget(Exception):
    pass


class Region:
    __slots__ = ('name', 'kind', 'lazy', 'array', 'rid', 'size', 'frame', 'info')

    def __init__(self, name, kind, lazy=False, array=False, rid=None, size=None, frame=None, info=None):
        self.name, self.kind, self.lazy, self.array, self.rid, self.size, self.frame, self.info = name, kind, lazy, array, rid, size, frame, info


class Program:
    """all modules with cross-module symbol resolution"""

    def __init__(self, modules):
        self.modules = modules
        self.defs = {}
        self.file_funcs = {}
        for m in modules:
            for n, f in m.functions.items():
                if 'internal' in f.linkage or 'private' in f.linkage:
                    continue
                self.defs.setdefault(n, f)
            for n, t in m.aliases.items():
                f = m.functions.get(t)
                if f:
                    self.defs.setdefault(n, f)

    def resolve(self, mod, name):
        f = mod.functions.get(mod.aliases.get(name, name))
        if f is not None:
            return f
        return self.defs.get(name)

    def repo_functions(self):
        seen = set()
        for m in self.modules:
            for n, f in m.functions.items():
                if f.file.startswith(REPO) and (f.file, f.srcline, n) not in seen:
                    seen.add((f.file, f.srcline, n))
                    yield f


SURE_EVENTS = ('recursion', 'deadlock', 'global-write', 'overflow', 'unlocked-registry', 'memory-order', 'non-atomic', 'lost-update')


def _mentions(t, op, _d=0):
    if t.op == op:
        return True
    return _d < 8 and any(isinstance(a, T) and _mentions(a, op, _d + 1) for a in t.args)


class Interp:
    CAP = 40
    MAXDEPTH = 24

    def __init__(self, prog, models, specs=None, opts=None):
        self.prog = prog
        self.models = models
        self.specs = specs or {}
        self.opts = opts or {}
        self.counter = 0
        self.regions = {}
        self.zero_globals = set()
        self.fields = {}
        self.refined = set()      # balls that a refinement of a field has produced
        self.shared_nfs = ()      # fields that the analysed function shares with others
        self.rids = {}
        self.events = {}
        self.frames = []
        self.steps = 0
        self.maxsteps = self.opts.get('maxsteps', 400000)
        self.stats = {'functions': set(), 'blocks': 0, 'calls': 0, 'models': set(), 'specs': set(), 'unknown': set(), 'loops': 0, 'joins': 0}
        self.root = None
        self.throwers = self.opts.get('throwers', False)
        self.uses = set()     # spec instances relied upon
        self.loopinfo = {}
        self.ext_types = self.opts.get('ext_types', {})

    # ------------------------------------------------------------ small services
    def fresh(self, p):
        self.counter += 1
        return '%s%d' % (p, self.counter)

    def unknown(self, sort, why=''):
        return atom(self.fresh('?' + why + '.'), '?' + sort)

    def region(self, name, kind, **kw):
        r = self.regions.get(name)
        if r is None:
            r = Region(name, kind, **kw)
            self.regions[name] = r
        return r

    def region_lazy(self, name):
        r = self.regions.get(name)
        return r.lazy if r else True

    def region_array(self, name):
        r = self.regions.get(name)
        return r.array if r else False

    def field_at(self, p):
        if p.op != 'ptr':
            return None
        return self.fields.get((p.args[0], off_key(p.args[1])))

    def here(self):
        if not self.frames:
            return ('', '')
        fr = self.frames[-1]
        f, i = fr['func'], fr.get('inst')
        if i is None:
            return ('%s:%s' % (short(f.file), f.srcline), f.srcname or f.name)
        fl, ln = f.line_of(i)
        return ('%s:%s' % (short(fl), ln), f.srcname or f.name)

    def here_repo(self):
        """innermost frame that is repository code"""
        for fr in reversed(self.frames):
            f = fr['func']
            if f.file.startswith(REPO):
                i = fr.get('inst')
                if i is None:
                    return ('%s:%s' % (short(f.file), f.srcline), f.srcname or f.name)
                fl, ln = f.line_of(i)
                return ('%s:%s' % (short(fl), ln), f.srcname or f.name)
        return self.here()

    watch = None            # called with every object that is written

    def event(self, kind, st, msg, data=None, loc=None):
        l, fn = self.here_repo()
        if kind not in SURE_EVENTS and any(c.op == 'unkcall' for c in st.facts.opaque):
            kind = 'unsure:' + kind         # depends on a function the analysis knows nothing about
        e = Event(kind, msg, loc or l, fn, trace_list(st), data, tuple((fr['func'].srcname or fr['func'].name) for fr in self.frames))
        self.events.setdefault(e.key(), e)

    # ------------------------------------------------------------ strings, fields
    def strver(self, st, r):
        return st.strs.get(r, 0)

    def set_txt(self, st, p, t):
        """the C string stored at p becomes t (None: unknown)"""
        if p.op == 'ptr':
            st.strs = dict(st.strs)
            st.strs[p.args[0]] = self.strver(st, p.args[0]) + 1
            st.txt = dict(st.txt)
            if t is None:
                st.txt.pop(p.args[0], None)
            else:
                st.txt[p.args[0]] = t

    def text(self, st, p):
        """abstract text of the C string at p"""
        if p.op != 'ptr':
            return mk('strunk', p)
        r = p.args[0]
        lit = getattr(self, 'strings', {}).get(r)
        if lit is not None and isint(p.args[1]):
            return mk('lit', lit[p.args[1].args[0]:])
        t = st.txt.get(r)
        if t is not None:
            return t if p.args[1] is ZERO else mk('suffix', t, p.args[1])
        return mk('str', r, p.args[1], I(self.strver(st, r)))

    def slen(self, st, p):
        """length of the C string at p"""
        return text.tlen(self.text(st, p))

    def buffer(self, st, p, n):
        """n bytes (a term) are written at p: do they fit?"""
        if p.op != 'ptr':
            return
        reg = self.regions.get(p.args[0])
        size = reg.size if reg is not None else None
        if size is None:
            return
        need = add(p.args[1], n)
        ok = text.fits(size, need)
        st.note('buffer', p, need, size)
        if ok is False:
            self.event('buffer-overflow', st, 'writes %s bytes into %s which has room for %s' % (show(need), self.pname(p), show(size)))
        elif ok is None:
            self.event('buffer-unknown', st, 'cannot compare %s bytes with the size %s of %s' % (show(need), show(size), self.pname(p)))

    def write_text(self, st, p, t, terminated=True):
        """the characters of t (and a terminator) are written at p"""
        if p.op != 'ptr':
            return
        r = p.args[0]
        self.buffer(st, p, add(text.tlen(t), ONE) if terminated else text.tlen(t))
        if p.args[1] is ZERO:
            self.set_txt(st, p, t)
            return
        old = st.txt.get(r)
        if old is not None and text.same_len(text.tlen(old), p.args[1]):
            self.set_txt(st, p, text.scat(old, t))
        else:
            self.set_txt(st, p, None)

    def havoc_region(self, st, p):
        if p.op == 'ptr':
            st.havoc.add(p.args[0])
            st.mem.pop(p.args[0], None)

    def write_nf(self, st, p, pol):
        """nf_init: the defining polynomial is stored, everything else derives from it"""
        self.write(st, 'qpoly', p, pol, init=True)
        if p.op == 'ptr':
            o = off_key(p.args[1])
            if isinstance(o, int):
                L = self.opts.get('nf_flag_off', 104)
                st.wreg(p.args[0])[o + L] = Cell('int', mk('nfflag', pol), None, 8)

    def clear_nf(self, st, p):
        self.clear(st, 'qpoly', p)

    # ------------------------------------------------------------ memory access
    def alive(self, st, c, what, p):
        if c.rid is None:
            return True
        s = st.live.get(c.rid, 'live')
        if s == 'dead':
            self.event('use-after-clear', st, '%s of %s after it was cleared' % (what, self.pname(p)))
            return False
        if s == 'maybe':
            self.event('use-maybe-cleared', st, '%s of %s which is cleared on some path' % (what, self.pname(p)))
        return True

    def pname(self, p):
        if p.op == 'ptr':
            r = self.regions.get(p.args[0])
            nm = (r.info if r and r.info else p.args[0])
            o = off_key(p.args[1])
            return nm if o == 0 else '%s+%s' % (nm, o)
        return show(p)

    def materialise(self, st, kind, p, fld=None):
        r, o = p.args[0], off_key(p.args[1])
        nm = '%s+%s' % (r, show(o) if isinstance(o, T) else o)
        pre = ''
        if r in st.havoc:
            pre = self.fresh('?h')
        if kind == 'fmpz' and r in self.zero_globals:
            v = ZERO
        elif kind in ('fmpz', 'mpz'):
            v = atom(pre + nm, ('?' if pre else '') + 'Z')
        elif kind == 'str':
            v = atom(pre + nm, ('?' if pre else '') + 'str')
        elif kind == 'arf':
            v = atom(pre + nm, ('?' if pre else '') + 'arf')
        elif kind == 'mag':
            v = atom(pre + nm, ('?' if pre else '') + 'mag')
        elif kind == 'arb':
            e = atom(pre + nm + '^', ('?' if pre else '') + 'R')
            v = ball('atom', e, atom(pre + nm, 'ball'))
        elif kind == 'nfe':
            v = atom(pre + nm, ('?' if pre else '') + 'K')
            if fld is not None and fld.kind == 'L':
                st.facts.rational.append(v)
                st.facts._clean()
        elif kind == 'qpoly' or kind == 'zpoly':
            v = atom(pre + nm, ('?' if pre else '') + ('PQ' if kind == 'qpoly' else 'PZ'))
        else:
            v = atom(pre + nm + ':' + kind, '?opq')
        c = Cell(kind, v, None, fld=fld)
        st.wreg(r)[o] = c
        return c

    def read(self, st, kind, p, fld=None):
        """value of the abstract object of `kind` at p"""
        if p.op == 'null' or p is NULL:
            self.event('null-deref', st, 'null pointer passed where %s is expected' % kind)
            return self.unknown('Z', 'null')
        if p.op != 'ptr':
            return self._unk_kind(kind)
        r, o = p.args[0], off_key(p.args[1])
        if r.startswith('co:'):
            return self.read_coef(st, r, p.args[1], kind)
        rr = self.regions.get(r)
        if rr is not None and rr.rid is not None and st.live.get(rr.rid) == 'dead':
            self.event('use-after-free', st, 'read through %s after it was freed' % self.pname(p))
        c = st.reg(r).get(o)
        if c is not None and c.kind == kind:
            self.alive(st, c, 'use', p)
            if kind == 'nfe' and fld is not None and c.fld is not None and c.fld is not fld:
                self.event('field-mismatch', st, 'element of field %s used with field %s' % (c.fld.name, fld.name), data=(c.fld.name, fld.name))
                return self.unknown('K', 'mismatch')
            return c.val
        if kind == 'arb':
            m = st.reg(r).get(o)
            d = st.reg(r).get(_o(o, 32))
            if m is not None and m.kind == 'arf' and d is not None and d.kind == 'mag':
                self.alive(st, m, 'use', p)
                return assemble(m.val, d.val)
        if kind == 'arf' and c is not None and c.kind == 'arb':
            self.alive(st, c, 'use', p)
            return mid(c.val)
        if kind == 'mag':
            k = _o(o, -32)
            c2 = st.reg(r).get(k)
            if c2 is not None and c2.kind == 'arb':
                self.alive(st, c2, 'use', p)
                return rad(c2.val)
        if kind == 'nfe' and fld is not None:
            v = self.assemble_nfe(st, r, o, fld, p)
            if v is not None:
                return v
        if kind == 'fmpz':
            k, c2 = st.covering(r, o)
            if c2 is None or c2.kind == 'vec':
                v = st.reg(r).get(0)
                if v is not None and v.kind == 'vec':
                    self.alive(st, v, 'use', p)
                    ix = div8(p.args[1])
                    if ix is not None:
                        return pcoef(st, v.val, ix)
                    return self.unknown('Z', 'vec')
            if c2 is not None:
                if c2.kind == 'nfe':
                    if st.explode(r, k):
                        return self.read(st, kind, p)
                    return self.unknown('Z', 'nfe')
                if c2.kind == 'qpoly' and _o(k, 24) == o:
                    self.alive(st, c2, 'use', p)
                    return mk('pden', c2.val)
                if c2.kind == 'int' and k == o and c2.val.op == 'rawfmpz':
                    return c2.val.args[0]       # bitwise copy of another integer
                if c2.kind == 'int' and k == o:
                    return sval(c2.val)
                if c2.kind in ('qpoly', 'zpoly'):
                    self.event('representation', st, 'integer read from the middle of a polynomial representation at %s' % self.pname(p))
                    return self.unknown('Z', 'rep')
        if kind == 'qpoly' and c is not None and c.kind == 'nfe':
            if c.fld is not None and c.fld.kind == 'G':
                st.explode(r, o)
                return self.read(st, kind, p)
            self.event('representation', st, 'element of a %s field read as polynomial' % (c.fld.kind if c.fld else '?'))
            return self.unknown('PQ', 'rep')
        if kind == 'qpoly' and c is not None and c.kind == 'fmpz':
            self.event('representation', st, 'element of a linear/quadratic field read as polynomial')
            return self.unknown('PQ', 'rep')
        if c is not None:
            # object of another kind: uninterpreted
            return self._unk_kind(kind)
        if self.region_lazy(r) or r in st.havoc:
            return self.materialise(st, kind, p, fld).val
        self.event('uninit', st, 'use of uninitialised %s %s' % (kind, self.pname(p)))
        return self._unk_kind(kind)

    def _unk_kind(self, kind):
        s = {'fmpz': 'Z', 'mpz': 'Z', 'str': 'str', 'arf': 'arf', 'mag': 'mag', 'nfe': 'K', 'qpoly': 'PQ', 'zpoly': 'PZ'}.get(kind, 'opq')
        if kind == 'arb':
            return ball('unk', None, self.unknown('ball', 'b'))
        return self.unknown(s, 'u')

    def assemble_nfe(self, st, r, o, fld, p):
        m = st.reg(r)
        c = m.get(o)
        if fld.kind == 'L':
            d = m.get(_o(o, 8))
            if c is not None and c.kind == 'fmpz' and d is not None and d.kind == 'fmpz':
                self.alive(st, c, 'use', p)
                self.lowest_terms(st, (c.val,), d.val, p)
                return div(c.val, d.val)
        elif fld.kind == 'Q':
            d = m.get(_o(o, 24))
            e = m.get(_o(o, 8))
            if c is not None and c.kind == 'fmpz' and d is not None and e is not None and d.kind == 'fmpz' and e.kind == 'fmpz':
                self.alive(st, c, 'use', p)
                if c.val.op == 'qc0' and e.val.op == 'qc1' and d.val.op == 'den' and c.val.args[0] is e.val.args[0] is d.val.args[0]:
                    return d.val.args[0]
                self.lowest_terms(st, (c.val, e.val), d.val, p)
                return div(add(c.val, mul(e.val, fld.alpha)), d.val)
        elif fld.kind == 'G':
            if c is not None and c.kind == 'qpoly':
                self.alive(st, c, 'use', p)
                if c.fld is not None and c.fld is not fld:
                    self.event('field-mismatch', st, 'element of field %s used with field %s' % (c.fld.name, fld.name), data=(c.fld.name, fld.name))
                if c.val.op == 'polyof' and c.val.args[1] is fld.alpha:
                    return c.val.args[0]
                return mk('ev', c.val, fld.alpha)
        if c is not None and c.kind == 'qpoly' and fld.kind != 'G':
            self.event('field-mismatch', st, 'polynomial representation used with a %s field' % fld.kind)
            return self.unknown('K', 'mismatch')
        return None

    def lowest_terms(self, st, nums, d, p):
        """the parts of an element that were written one by one have to be in lowest terms with a positive denominator"""
        if d is ONE or d.unk or any(n.unk for n in nums):
            return
        if any(isint(n) and abs(n.args[0]) == 1 for n in nums):
            ok = st.facts.sign(d) <= {1}
        else:
            def base(n):
                if n.op == 'neg':
                    n = n.args[0]
                if n.op == 'mul' and isint(n.args[0]) and abs(n.args[0].args[0]) == 1:
                    n = n.args[1]
                return n
            ns = [base(n) for n in nums if n is not ZERO]
            ok = d.op == 'den' and any(n.op in ('num', 'qc0', 'qc1') and n.args[0] is d.args[0] for n in ns) and all(n.op in ('num', 'qc0', 'qc1') and n.args[0] is d.args[0] for n in ns)
            if not ok and any(_mentions(x, 'gcd') for x in tuple(nums) + (d,)):
                return
            if not ok and any(n.op not in ('num', 'qc0', 'qc1', 'pcoef', 'neg', 'mul', 'add', 'int', 'S', 'U') for n in ns):
                return
        if not ok:
            self.malformed = 'element %s is stored as (%s)/(%s), which need not be in lowest terms with a positive denominator' % (self.pname(p), ', '.join(show(n) for n in nums), show(d))
            self.event('representation', st, self.malformed)

    def co_owner(self, st, r):
        """virtual coefficient region -> (region, off, cell)"""
        _, rr, oo = r.split('\x00') if '\x00' in r else (None, None, None)
        if rr is None:
            return None, None, None
        o = int(oo) if re.fullmatch(r'-?\d+', oo) else self._symoff[oo]
        return rr, o, st.reg(rr).get(o)

    def co_region(self, r, o):
        if not isinstance(o, int):
            if not hasattr(self, '_symoff'):
                self._symoff = {}
            k = 't%d' % o.id
            self._symoff[k] = o
        else:
            k = str(o)
        nm = 'co:\x00%s\x00%s' % (r, k)
        self.region(nm, 'coeffs', lazy=True, array=True, info='coeffs(%s+%s)' % (r, k))
        return nm

    def read_coef(self, st, r, off, kind):
        if kind != 'fmpz':
            return self._unk_kind(kind)
        rr, o, c = self.co_owner(st, r)
        idx = div8(off)
        ov = st.reg(r).get(off_key(off))
        if ov is not None and ov.kind == 'fmpz':
            return ov.val
        if c is None or c.kind not in ('qpoly', 'zpoly', 'vec'):
            return self.unknown('Z', 'co')
        self.alive(st, c, 'use', ptr(rr, o if isinstance(o, T) else I(o)))
        if idx is None:
            return self.unknown('Z', 'co')
        P = c.val
        if P.op == 'polyof' and idx is ZERO:
            v = P.args[0]
            s = st.facts.sign(v)
            if 0 in s:
                # length may be zero: the coefficient array need not hold a value for this element
                self.event('stale-coefficient', st, 'constant coefficient read although the element may be zero (length 0) in a general field')
                return self.unknown('Z', 'stale')
        return pcoef(st, P, idx)

    def write(self, st, kind, p, val, fld=None, init=False):
        if p is NULL:
            self.event('null-deref', st, 'null pointer written as %s' % kind)
            return
        if p.op != 'ptr':
            st.note('wild-write', kind)
            return
        r, o = p.args[0], off_key(p.args[1])
        rr = self.regions.get(r)
        if rr is not None and rr.rid is not None and st.live.get(rr.rid) == 'dead':
            self.event('use-after-free', st, 'write through %s after it was freed' % self.pname(p))
        st.note('write', kind, p, val)
        if self.watch is not None:
            self.watch(st, kind, p, val)
        if rr is not None and rr.kind == 'global':
            self.event('global-write', st, '%s written to the global %s' % (kind, self.pname(p)))
        if r.startswith('co:'):
            return self.write_coef(st, r, p.args[1], kind, val)
        c = st.reg(r).get(o)
        if kind == 'fmpz' and not init and (c is None or c.kind == 'vec'):
            v = st.reg(r).get(0)
            if v is not None and v.kind == 'vec':
                ix = div8(p.args[1])
                self.alive(st, v, 'write', p)
                st.wreg(r)[0] = Cell('vec', mk('setnum', v.val, ix, val) if ix is not None else self.unknown('PZ', 'wv'), v.rid)
                return
        rid = None
        if init:
            if c is not None and c.rid is not None and st.live.get(c.rid) in ('live', 'maybe') and c.kind == kind and not self.held_elsewhere(st, c.rid, r, o):
                self.event('reinit', st, '%s initialised again while still holding resources' % self.pname(p))
            rid = st.new_rid(kind, self.here_repo())
        else:
            if c is not None and c.kind == kind:
                self.alive(st, c, 'write', p)
                rid = c.rid
            elif kind == 'arf' and c is not None and c.kind == 'arb':
                self.alive(st, c, 'write', p)
                m = st.wreg(r)
                del m[o]
                m[o] = Cell('arf', val, c.rid)
                m[_o(o, 32)] = Cell('mag', rad(c.val), c.rid)
                return
            elif kind == 'mag':
                k = _o(o, -32)
                c2 = st.reg(r).get(k)
                if c2 is not None and c2.kind == 'arb':
                    self.alive(st, c2, 'write', p)
                    m = st.wreg(r)
                    m[k] = Cell('arf', mid(c2.val), c2.rid)
                    m[o] = Cell('mag', val, c2.rid)
                    return
            elif kind == 'arb' and c is not None and c.kind == 'arf':
                rid = c.rid
            elif kind == 'fmpz':
                k, c2 = st.covering(r, o)
                if c2 is not None and c2.kind == 'nfe':
                    if st.explode(r, k):
                        return self.write(st, kind, p, val, fld)
                if c2 is not None and c2.kind == 'qpoly' and _o(k, 24) == o:
                    m = st.wreg(r)
                    m[k] = Cell('qpoly', mk('setden', c2.val, val), c2.rid, fld=c2.fld)
                    return
                if c2 is not None and c2.kind == 'int':
                    rid = None
            elif kind == 'nfe':
                if c is not None:
                    rid = c.rid
                    self.alive(st, c, 'write', p)
                    if c.kind == 'qpoly' and c.fld is not None and fld is not None and c.fld is not fld:
                        self.event('field-mismatch', st, 'element of field %s used with field %s' % (c.fld.name, fld.name))
            if c is None and rid is None and kind in ('fmpz', 'arf', 'arb', 'nfe', 'qpoly', 'zpoly') and not self.region_lazy(r) and r not in st.havoc:
                k, c2 = st.covering(r, o)
                if c2 is None:
                    self.event('uninit', st, 'write to %s %s that was never initialised' % (kind, self.pname(p)))
        if kind == 'nfe' and c is not None and c.kind == 'nfe' and c.fld is not None and fld is not None and c.fld is not fld and not init:
            self.event('field-mismatch', st, 'element of field %s used with field %s' % (c.fld.name, fld.name), data=(c.fld.name, fld.name))
        st.set_cell(p, Cell(kind, val, rid, fld=fld))

    def held_elsewhere(self, st, rid, r=None, o=None):
        for r2, m2 in st.mem.items():
            for k2, c2 in m2.items():
                if c2.rid == rid and not (r2 == r and k2 == o):
                    return True
        return False

    def write_coef(self, st, r, off, kind, val):
        rr, o, c = self.co_owner(st, r)
        if c is None or c.kind not in ('qpoly', 'zpoly', 'vec') or kind != 'fmpz':
            m = st.wreg(r)
            m[off_key(off)] = Cell(kind, val, None)
            return
        idx = div8(off)
        m = st.wreg(rr)
        if idx is None:
            m[o] = Cell(c.kind, self.unknown('PZ', 'wc'), c.rid, fld=c.fld)
        else:
            m[o] = Cell(c.kind, mk('setnum', c.val, idx, val), c.rid, fld=c.fld)

    def clear(self, st, kind, p):
        if p.op != 'ptr':
            return
        r, o = p.args[0], off_key(p.args[1])
        st.note('clear', kind, p)
        c = st.reg(r).get(o)
        if c is None:
            k, c2 = st.covering(r, o)
            if c2 is not None and c2.kind == 'nfe':
                c = c2
        if c is None:
            if self.region_lazy(r) or r in st.havoc:
                rid = self.fresh('x')
                self.rids[rid] = (kind, ('param', ''))
                st.live[rid] = 'dead'
                st.wreg(r)[o] = Cell(kind, self._unk_kind(kind), rid)
                return
            self.event('uninit', st, 'clear of %s %s that was never initialised' % (kind, self.pname(p)))
            return
        if c.kind == 'int':
            return
        if c.rid is None:
            rid = self.fresh('x')
            self.rids[rid] = (kind, ('param', ''))
            st.live[rid] = 'dead'
            m = st.wreg(r)
            for k in list(m):
                if m[k] is c or (isinstance(k, int) and isinstance(o, int) and o <= k < o + SIZES[kind] and m[k].rid is None):
                    m[k] = Cell(m[k].kind, m[k].val, rid, m[k].size, m[k].fld)
            return
        s = st.live.get(c.rid)
        if s == 'dead':
            self.event('double-clear', st, '%s cleared twice' % self.pname(p))
        elif s == 'maybe':
            self.event('double-clear', st, '%s cleared although it is already cleared on some path' % self.pname(p))
        st.live[c.rid] = 'dead'

    # vectors of fmpz
    def read_vec(self, st, p):
        """coefficient vector (as polynomial term) that p points at"""
        if p.op != 'ptr':
            return self.unknown('PZ', 'vec')
        r, off = p.args
        if r.startswith('co:'):
            rr, o, c = self.co_owner(st, r)
            if c is not None and c.kind in ('qpoly', 'zpoly', 'vec'):
                self.alive(st, c, 'use', ptr(rr, o if isinstance(o, T) else I(o)))
                if off is ZERO:
                    return c.val
            return self.unknown('PZ', 'vec')
        k = off_key(off)
        c = st.reg(r).get(k)
        if c is not None and c.kind == 'vec':
            rr = self.regions.get(r)
            if rr is not None and rr.rid is not None and st.live.get(rr.rid) == 'dead':
                self.event('use-after-free', st, 'vector %s used after it was cleared' % self.pname(p))
            self.alive(st, c, 'use', p)
            return c.val
        if c is not None and c.kind in ('qpoly', 'zpoly'):
            return c.val
        # coefficients of a quadratic element, as a two-term polynomial in alpha
        k2, c2 = st.covering(r, k)
        if c2 is not None and c2.kind == 'nfe' and c2.fld is not None and c2.fld.kind == 'Q':
            return mk('polyof', c2.val, c2.fld.alpha)
        if c is not None and c.kind == 'fmpz' and c.val.op == 'qc0':
            return mk('polyof', c.val.args[0], c.val.args[1])
        if c is None and self.region_lazy(r):
            nm = '%s+%s' % (r, k)
            pre = self.fresh('?h') if r in st.havoc else ''
            v = atom(pre + nm + '[]', ('?' if pre else '') + 'PZ')
            st.wreg(r)[k] = Cell('vec', v)
            return v
        if c is not None and c.kind == 'fmpz':
            return mk('vecfrom', c.val)
        return self.unknown('PZ', 'vec')

    def write_vec(self, st, p, val):
        if p.op != 'ptr':
            return
        r, off = p.args
        st.note('write', 'vec', p, val)
        if r.startswith('co:'):
            rr, o, c = self.co_owner(st, r)
            if c is not None and c.kind in ('qpoly', 'zpoly', 'vec'):
                m = st.wreg(rr)
                if off is not ZERO:
                    val = self.unknown('PZ', 'wv')
                elif c.kind == 'qpoly':
                    d = c.val
                    val = mk('withnum', d, val) if not (d.op in ('poly0',) or (d.op == 'setden' and d.args[1] is ONE)) else val
                m[o] = Cell(c.kind, val, c.rid, fld=c.fld)
            return
        k = off_key(off)
        c = st.reg(r).get(k)
        rr = self.regions.get(r)
        if rr is not None and rr.rid is not None and st.live.get(rr.rid) == 'dead':
            self.event('use-after-free', st, 'vector %s written after it was cleared' % self.pname(p))
        st.set_cell(p, Cell('vec', val, c.rid if c is not None else None))

    # ------------------------------------------------------------ machine loads and stores
    def load(self, st, ty, p):
        size = self.cur_layout().size(ty)
        if ty.k == 'struct' and ty.a and p.op == 'ptr' and all(f.k in ('ptr', 'int', 'float') for f in ty.a):
            L = self.cur_layout()
            return mk('aggv', *[self.load(st, f, ptr_add(p, I(L.field_off(ty, i)[0]))) for i, f in enumerate(ty.a)])
        if p is NULL:
            self.event('null-deref', st, 'load through a null pointer')
            return self._unk_ty(ty)
        if p.op != 'ptr':
            return self._unk_ty(ty)
        r, o = p.args[0], off_key(p.args[1])
        rr = self.regions.get(r)
        if rr is not None and rr.rid is not None and st.live.get(rr.rid) == 'dead':
            self.event('use-after-free', st, 'load from %s after it was freed' % self.pname(p))
        m = st.reg(r)
        c = m.get(o)
        if c is not None and c.kind == 'int' and (c.size == size or ty.k == 'ptr'):
            v = c.val
            if ty.k == 'int' and mwidth_ok(v, ty.n):
                return self.simp(st, v)
            if ty.k in ('ptr', 'float'):
                return v
            return v
        if c is not None and c.kind == 'int' and ty.k == 'int' and c.size > size and c.val.op == 'mi':
            return mconst(c.val.args[0], ty.n)
        k, c2 = st.covering(r, o)
        if c2 is not None and c2.kind == 'nfe':
            if c2.fld is not None and c2.fld.kind == 'G':
                st.explode(r, k)
                return self.load(st, ty, p)
            if c2.fld is not None and ty.k == 'ptr' and k == o:
                self.event('representation', st, 'coefficient pointer read from an element of a %s field' % c2.fld.kind)
                return self.unknown('ptr', 'rep')
            if c2.fld is not None and ty.k == 'int' and k != o:
                if st.explode(r, k):
                    return self.load(st, ty, p)
        if c2 is not None and c2.kind in ('qpoly', 'zpoly') and isinstance(k, int) and isinstance(o, int):
            self.alive(st, c2, 'use', p)
            if o - k == 0 and ty.k == 'ptr':
                return ptr(self.co_region(r, k))
            if o - k == 16:
                return tomach(mk('plen', c2.val), 64)
            if o - k == 8:
                return atom('?alloc%d' % c2.val.id, 'M64')
        elif c2 is not None and c2.kind in ('qpoly', 'zpoly'):
            b, n = split(o)
            b2, n2 = split(k)
            if n - n2 == 0 and ty.k == 'ptr':
                return ptr(self.co_region(r, k))
            if n - n2 == 16:
                return tomach(mk('plen', c2.val), 64)
        if c2 is not None and c2.kind == 'fmpz' and k == o and ty.k == 'int':
            # raw word of an fmpz
            return mk('rawfmpz', c2.val)
        if c2 is None or c2.kind == 'opq':
            if self.region_lazy(r) or r in st.havoc:
                return self.lazy_load(st, ty, p, r, o, size)
            if rr is not None and rr.kind == 'global':
                return self._unk_ty(ty)
            if rr is not None and rr.kind == 'local' and c2 is None and not rr.array and size and isinstance(o, int):
                self.event('uninit', st, 'read of %s before anything was stored there' % self.pname(p))
        return self._unk_ty(ty)

    def lazy_load(self, st, ty, p, r, o, size):
        nm = '%s+%s' % (r, show(o) if isinstance(o, T) else o)
        pre = self.fresh('?h') if r in st.havoc else ''
        if ty.k == 'ptr':
            rn = '*' + pre + nm
            self.region(rn, 'deref', lazy=True, array=True, info=rn)
            v = ptr(rn)
        elif ty.k == 'int':
            v = atom(pre + nm, ('?' if pre else '') + 'M%d' % ty.n)
        elif ty.k == 'float':
            v = atom(pre + nm, ('?' if pre else '') + 'D')
        else:
            return self._unk_ty(ty)
        st.wreg(r)[o] = Cell('int', v, None, size)
        return v

    def _unk_ty(self, ty):
        if ty.k == 'int':
            return self.unknown('M%d' % ty.n, 'l')
        if ty.k == 'ptr':
            return self.unknown('ptr', 'p')
        if ty.k == 'float':
            return self.unknown('D', 'd')
        return self.unknown('agg', 'a')

    def store(self, st, ty, val, p):
        size = self.cur_layout().size(ty)
        if p is NULL:
            self.event('null-deref', st, 'store through a null pointer')
            return
        if p.op != 'ptr':
            st.note('wild-write', 'int')
            return
        r, o = p.args[0], off_key(p.args[1])
        rr = self.regions.get(r)
        if rr is not None and rr.rid is not None and st.live.get(rr.rid) == 'dead':
            self.event('use-after-free', st, 'store to %s after it was freed' % self.pname(p))
        st.note('store', p, val)
        if size == 1 and (r in st.txt or (val.op == 'mi' and val.args[0] == 0 and rr is not None and rr.kind in ('heap', 'local') and p.args[1] is ZERO)):
            t = st.txt.get(r)
            if val.op == 'mi' and val.args[0] == 0:
                t = text.lit('') if t is None else text.prefix(t.args[0] if t.op == 'unterminated' and text.same_len(t.args[1], p.args[1]) else t, p.args[1])
                if rr is not None and rr.size is not None:
                    self.buffer(st, p, ONE)
            else:
                t = None
            self.set_txt(st, p, t)
        k, c2 = st.covering(r, o)
        if c2 is not None and c2.kind == 'nfe' and c2.fld is not None and c2.fld.kind == 'G':
            st.explode(r, k)
            k, c2 = st.covering(r, o)
        if c2 is not None and c2.kind in ('qpoly', 'zpoly') and isinstance(k, int) and isinstance(o, int):
            if o - k == 16:
                n = sval(val)
                if st.facts.equal(n, mk('plen', c2.val)):
                    return
                m = st.wreg(r)
                m[k] = Cell(c2.kind, mk('setlen', c2.val, n), c2.rid, fld=c2.fld)
                return
            if o - k < 24:
                m = st.wreg(r)
                m[k] = Cell(c2.kind, self.unknown('PZ', 'st'), c2.rid, fld=c2.fld)
                return
        if isinstance(val, T) and val.op == 'aggv':
            # store aggregate element-wise
            off = 0
            t = self.cur_layout().resolve(ty)
            for i, e in enumerate(val.args):
                try:
                    fo, fty = self.cur_layout().field_off(ty, i)
                except Exception:
                    break
                self.store(st, fty, e, ptr_add(p, I(fo)))
            return
        st.set_cell(p, Cell('int', val, None, size))

    def memcpy(self, st, d, s, n):
        if d.op != 'ptr':
            return
        st.note('store', d, NULL)
        if s.op == 'ptr' and (s.args[0] in st.txt or s.args[0] in getattr(self, 'strings', {})):
            t = self.text(st, s)
            if text.same_len(n, add(text.tlen(t), ONE)):
                self.write_text(st, d, t)
            elif text.same_len(n, text.tlen(t)):
                old = st.txt.get(d.args[0])
                self.buffer(st, d, n)
                if d.args[1] is ZERO:
                    self.set_txt(st, d, mk('unterminated', t, n))
                elif old is not None and text.same_len(text.tlen(old), d.args[1]):
                    self.set_txt(st, d, mk('unterminated', text.scat(old, t), add(d.args[1], n)))
                else:
                    self.set_txt(st, d, None)
            elif not isint(n) and d.args[1] is ZERO:
                self.buffer(st, d, n)
                self.set_txt(st, d, mk('unterminated', t, n))
            elif isint(n) and isint(text.tlen(t)) is False:
                self.set_txt(st, d, None)
            if not isint(n) or self.regions.get(d.args[0]) is None or self.regions[d.args[0]].kind == 'heap':
                return
        if s.op != 'ptr' or not isint(n):
            st.havoc.add(d.args[0])
            m = st.wreg(d.args[0])
            for k in list(m):
                if m[k].kind == 'int':
                    del m[k]
            return
        n = n.args[0]
        so, do = off_key(s.args[1]), off_key(d.args[1])
        if not isinstance(so, int) or not isinstance(do, int):
            return
        src = dict(st.reg(s.args[0]))
        # object cells overwritten
        m = st.wreg(d.args[0])
        gone = []
        for k in [k for k, c in m.items() if isinstance(k, int) and k < do + n and do < k + c.size]:
            c = m[k]
            if c.rid is not None and not c.rid.startswith('x') and st.live.get(c.rid) == 'live' and c.kind in ('nfe', 'arb', 'fmpz', 'qpoly', 'zpoly', 'mpz'):
                gone.append(c.rid)
            del m[k]
        got = False
        for k, c in src.items():
            if isinstance(k, int) and so <= k and k + c.size <= so + n:
                m[do + k - so] = c
                got = True
        for rid in gone:
            if not self.held_elsewhere(st, rid):
                kd, where = self.rids.get(rid, ('?', ('', '')))
                self.event('overwrite-leak', st, '%s held by %s (from %s) is overwritten without being released' % (kd, self.pname(d), where[0]))
                st.live[rid] = 'dead'
        if self.region_lazy(s.args[0]) or s.args[0] in st.havoc:
            # unknown parts: keep lazily unknown
            st.havoc.add(d.args[0]) if not got else None

    # ------------------------------------------------------------ operand evaluation
    def cur_layout(self):
        return self.frames[-1]['func'].mod.layout

    def simp(self, st, v):
        """replace a machine integer by a constant when facts pin it"""
        if v.op == 'mi':
            return v
        s = st.facts.subst.get(v.id)
        if s is not None and s.op == 'int':
            return mconst(s.args[0], mwidth(v))
        if v.op == 'tomach' or (v.op == 'atom' and v.args[1].lstrip('?').startswith('M')):
            x = sval(v)
            s = st.facts.subst.get(x.id)
            if s is not None and s.op == 'int':
                return mconst(s.args[0], mwidth(v))
        return v

    def val(self, st, v):
        k = v.k
        if k == 'reg':
            r = st.env.get(v.v)
            if r is None:
                return self._unk_ty(v.t)
            return r
        if k == 'int':
            return mconst(v.v, v.t.n if v.t.k == 'int' else 64)
        if k == 'null':
            return NULL
        if k == 'glob':
            mod = self.frames[-1]['func'].mod
            nm = v.v
            if nm in mod.functions or nm in mod.aliases or nm in mod.declares:
                return mk('fn', nm, mod.name)
            return self.global_ptr(st, mod, nm)
        if k == 'gep':
            base = self.val(st, v.v)
            return self.gep(st, v.x[0], base, [self.val(st, i) for i in v.x[1]])
        if k == 'float':
            return mk('fconst', v.v)
        if k == 'zero':
            if v.t.k == 'int':
                return mconst(0, v.t.n)
            if v.t.k == 'ptr':
                return NULL
            return mk('zeroagg')
        if k == 'cast':
            return self.val(st, v.v)
        if k == 'undef':
            if v.t.k in ('struct', 'named', 'array'):
                return mk('undefagg')
            return self._unk_ty(v.t)
        if k == 'agg':
            return mk('aggv', *[self.val(st, x) for x in v.v])
        return self._unk_ty(v.t)

    def global_ptr(self, st, mod, nm):
        body = mod.globals.get(nm, '')
        priv = body.startswith('private') or body.startswith('internal')
        rn = '@' + (nm if not priv else mod.name.split('/')[-1] + ':' + nm)
        if rn not in self.regions:
            const = ' constant ' in ' ' + body.split('"')[0] + ' '
            m = re.search(r'c"((?:[^"\\]|\\.)*)"', body)
            self.region(rn, 'global', lazy=True, info='@' + nm)
            self.regions[rn].size = None
            if priv and re.search(r'\bzeroinitializer\b', body):
                self.zero_globals.add(rn)
            if m:
                self.regions[rn].info = '"' + m.group(1)[:40] + '"'
                if not hasattr(self, 'strings'):
                    self.strings = {}
                s = m.group(1)
                s = re.sub(r'\\([0-9A-Fa-f]{2})', lambda mm: chr(int(mm.group(1), 16)), s)
                self.strings[rn] = s.rstrip('\0') if s.endswith('\0') else s
        return ptr(rn)

    def gep(self, st, ty, base, idx):
        L = self.cur_layout()
        off = I(0)
        t = ty
        for j, ix in enumerate(idx):
            if j == 0:
                s = L.size(t)
                if ix.op == 'mi':
                    off = add(off, I(sval(ix).args[0] * s))
                else:
                    off = add(off, mul(sval(ix), I(s)))
                continue
            t = L.resolve(t)
            if t.k == 'struct':
                o, t = L.field_off(t, ix.args[0])
                off = add(off, I(o))
            elif t.k in ('array', 'vector'):
                t = t.a
                s = L.size(t)
                if ix.op == 'mi':
                    off = add(off, I(sval(ix).args[0] * s))
                else:
                    off = add(off, mul(sval(ix), I(s)))
        return ptr_add(base, off)

    # ------------------------------------------------------------ comparisons
    def cmp(self, st, inst, a, b):
        pred = inst.x
        at = inst.args[0].t
        if b.op == 'excsel':
            a, b = b, a
        if a.op == 'excsel' and b.op == 'tid':
            e = a.args[0]
            m = self.opts['exc_match'](e.args[0] if e.op == 'exc' else None, b.args[0])
            if m is not None:
                return mconst(1 if m == (pred == 'eq') else 0, 1)
            return ind(cpred('excis', e, atom(b.args[0], 'exc')) if pred == 'eq' else cnot(cpred('excis', e, atom(b.args[0], 'exc'))))
        if at.k == 'ptr' or a.op in ('ptr', 'null', 'fn') or b.op in ('ptr', 'null', 'fn'):
            return self.ptrcmp(st, pred, a, b)
        return icmp(pred, a, b)

    def ptrcmp(self, st, pred, a, b):
        def res(eq):
            if pred == 'eq':
                return mconst(1 if eq else 0, 1)
            if pred == 'ne':
                return mconst(0 if eq else 1, 1)
            return None
        if a is b:
            r = res(True)
            if r is not None:
                return r
        if a.op == 'ptr' and b.op == 'ptr':
            if a.args[0] == b.args[0]:
                d = sub(a.args[1], b.args[1])
                if pred in ('eq', 'ne'):
                    c = csign(d, (0,))
                    return ind(c if pred == 'eq' else cnot(c))
                s = {'lt': (-1,), 'le': (-1, 0), 'gt': (1,), 'ge': (1, 0)}[pred[1:]]
                return ind(csign(d, s))
            if self.distinct(a.args[0], b.args[0]):
                r = res(False)
                if r is not None:
                    return r
        for x, y in ((a, b), (b, a)):
            if x is NULL and y.op in ('ptr', 'fn'):
                if y.op == 'fn' or self.nonnull(y):
                    r = res(False)
                    if r is not None:
                        return r
        c = cpred('ptr' + ('eq' if pred in ('eq', 'ne') else pred), *sorted((a, b), key=lambda t: t.id))
        if pred == 'ne':
            c = cnot(c)
        return ind(c)

    def nonnull(self, p):
        r = self.regions.get(p.args[0])
        if r is None:
            return False
        if r.kind == 'deref':
            return False
        return True

    def distinct(self, r1, r2):
        a, b = self.regions.get(r1), self.regions.get(r2)
        if a is None or b is None:
            return False
        if a.kind == 'deref' or b.kind == 'deref':
            loc = ('local', 'heap')
            return a.kind in loc or b.kind in loc
        return True

    # ------------------------------------------------------------ functions
    def snapshot(self, st, args):
        """everything an execution starting here depends on"""
        if any(not isinstance(a, T) or a.unk for a in args):
            return None
        mem = {r: {k: (c.kind, c.val.id if isinstance(c.val, T) else id(c.val)) for k, c in m.items()} for r, m in st.mem.items()}
        f = st.facts
        return tuple(a.id for a in args), mem, (len(f.signs), len(f.subst), len(f.opaque)), st.locks, dict(st.strs)

    def run_function(self, st, func, args, depth=0):
        """-> list of Outcome; st is consumed"""
        func.parse()
        self.stats['functions'].add((short(func.file), func.srcname or func.name))
        if depth > self.MAXDEPTH:
            raise Budget('depth')
        fid = self.fresh('f')
        saved = st.env
        st.env = {}
        for (nm, ty), v in zip(func.params, args):
            st.env[nm] = v
        fr = {'func': func, 'id': fid, 'inst': None, 'allocas': []}
        rec = [f for f in self.frames if f['func'] is func]
        if rec:
            fr['snap'] = snap = self.snapshot(st, args)
            if snap is not None and any(same_start(f.get('snap'), snap) for f in rec):
                self.event('recursion', st, '%s calls itself again with exactly the same arguments in the same state' % (func.srcname or func.name))
                st.env = saved
                return []
        self.frames.append(fr)
        outs = []
        try:
            self.run_scope(st, func, None, func.order[0].name, None, outs, depth)
        finally:
            self.frames.pop()
        res = []
        for o in outs:
            o.st.env = saved if len(outs) == 1 else dict(saved)
            fr['inst'] = None
            self.frames.append(fr)
            self.pop_frame(o, fr)
            self.frames.pop()
            res.append(o)
        return res

    def pop_frame(self, o, fr):
        st = o.st
        if o.kind == 'abort':
            return
        dead = set(fr['allocas'])
        if not dead:
            return
        held = None
        for r in fr['allocas']:
            m = st.mem.get(r)
            if not m:
                continue
            for k, c in m.items():
                if c.rid is not None and st.live.get(c.rid) in ('live', 'maybe') and not c.rid.startswith('x'):
                    if held is None:
                        held = set()
                        for r2, m2 in st.mem.items():
                            if r2 not in dead:
                                for c2 in m2.values():
                                    if c2.rid is not None:
                                        held.add(c2.rid)
                    if c.rid not in held:
                        kind, where = self.rids.get(c.rid, ('?', ('', '')))
                        how = 'on return' if o.kind == 'ret' else 'when an exception propagates'
                        if st.live.get(c.rid) == 'maybe':
                            how += ' (on some path)'
                        self.event('leak' if o.kind == 'ret' else 'leak-throw', st,
                                   '%s %s initialised at %s is not cleared %s' % (kind, self.pname(ptr(r, k if isinstance(k, int) else 0)), where[0], how),
                                   data=where, loc=o.loc)
                        st.live[c.rid] = 'dead'
        for r in fr['allocas']:
            if r in st.mem:
                del st.mem[r]

    # ---- loops
    def loops_of(self, func):
        li = self.loopinfo.get(id(func))
        if li is not None:
            return li
        order = rpo(func)
        idx = {b: i for i, b in enumerate(order)}
        dom = dominators(func, order)
        loops = {}
        for b in order:
            for s in func.blocks[b].succs:
                if s in idx and s in dom[b]:
                    body = loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x in body:
                            continue
                        body.add(x)
                        work.extend(p for p in func.blocks[x].preds if p in idx)
        li = (order, idx, loops)
        self.loopinfo[id(func)] = li
        return li

    def run_scope(self, st, func, loop, entry, pred, outs, depth, exits=None, backs=None, phi_done=False):
        """run all blocks of a scope (function body or one loop body) starting at entry.
        loop: (header, body) or None.  exits: list receiving (target, pred, state)."""
        order, idx, loops = self.loops_of(func)
        header, body = loop if loop else (None, None)
        pending = {entry: [(st, pred, phi_done)]}
        import heapq
        hq = [idx[entry]]
        inq = {entry}
        while hq:
            bi = heapq.heappop(hq)
            b = order[bi]
            inq.discard(b)
            ins = pending.pop(b, None)
            if not ins:
                continue
            if len(ins) > self.opts.get('cap', self.CAP):
                ins = self.merge(func, b, ins)
            push = []
            if b in loops and b != header:
                for (s, pr, pd) in ins:
                    self.run_loop(s, func, b, loops[b], pr, outs, depth, push)
            else:
                for (s, pr, pd) in ins:
                    self.run_block(s, func, b, pr, outs, depth, push, pd)
            for (tgt, pr, s) in push:
                if header is not None and tgt == header:
                    backs.append((pr, s))
                elif body is not None and tgt not in body:
                    exits.append((tgt, pr, s))
                else:
                    pending.setdefault(tgt, []).append((s, pr, False))
                    if tgt not in inq:
                        heapq.heappush(hq, idx[tgt])
                        inq.add(tgt)

    def phis(self, st, func, b, pred):
        blk = func.blocks[b]
        new = {}
        for i in blk.insts:
            if i.op != 'phi':
                break
            for v, pb in i.x:
                if pb == pred:
                    new[i.res] = self.val(st, v)
                    break
        st.env.update(new)

    def run_loop(self, st, func, b, body, pred, outs, depth, push):
        self.stats['loops'] += 1
        self.phis(st, func, b, pred)
        H = st
        tag = self.fresh('L')
        hist = None
        ev0 = dict(self.events)
        if self.opts.get('unroll') and self.unroll(st, func, b, body, outs, depth, push):
            return
        self.events = dict(ev0)
        for it in range(9):
            o2, ex, backs = [], [], []
            self.events = dict(ev0) if it < 1 else self.events
            S = H.copy()
            self.run_scope(S, func, (b, body), b, None, o2, depth, ex, backs, phi_done=True)
            Bs = []
            for (pr, s) in backs:
                self.phis(s, func, b, pr)
                Bs.append(s)
            if self.opts.get('loop_hook'):
                self.opts['loop_hook'](self, func, b, body, H, Bs, it)
            if not Bs:
                break
            H2, changed = self.widen(H, Bs, tag, it)
            if not changed:
                break
            H = H2
        else:
            self.event('nofix', st, 'loop did not stabilise')
        outs.extend(o2)
        push.extend(ex)

    def unroll(self, st, func, b, body, outs, depth, push):
        """loops over a fixed number of objects (array construction and destruction) are followed exactly"""
        ph = [st.env.get(i.res) for i in func.blocks[b].insts if i.op == 'phi']
        if not self.opts.get('unroll_any') and (not ph or any(v is None or not (v.op == 'mi' or (v.op == 'ptr' and isint(v.args[1]))) for v in ph)):
            return False
        o2, ex, cur = [], [], [st.copy()]
        for it in range(self.opts['unroll']):
            nxt = []
            for s in cur:
                backs = []
                self.run_scope(s, func, (b, body), b, None, o2, depth, ex, backs, phi_done=True)
                for (pr, s2) in backs:
                    self.phis(s2, func, b, pr)
                    nxt.append(s2)
            if not nxt:
                outs.extend(o2)
                push.extend(ex)
                return True
            if len(nxt) > self.opts.get('unroll_states', 4):
                return False
            cur = nxt
        if self.opts.get('cut'):
            # longer iterations are outside of the stated bound
            self.stats['cut'] = self.stats.get('cut', 0) + len(cur)
            outs.extend(o2)
            push.extend(ex)
            return True
        return False

    def widen(self, H, Bs, tag, it):
        """join back-edge states into head state H"""
        N = H.copy()
        changed = False
        # --- Horner-style accumulators: find a closed form before giving up the value
        hints = self.horner_hints(H, Bs, tag) if it == 0 else {}
        if it == 0 and len(Bs) == 1:
            self.prefix_hints(H, Bs[0], tag, hints)
        # head values named by this loop -> their value at each back edge
        phimap = []
        for B in Bs:
            mp = {}
            for k, v in N.env.items():
                if isinstance(v, T) and v.op == 'atom' and v.args[0].startswith('?%s.e' % tag):
                    w = B.env.get(k)
                    if w is not None:
                        mp[v.id] = w
            phimap.append(mp)
        self._phimap = {id(B): mp for B, mp in zip(Bs, phimap)}
        # ssa values
        for k in list(N.env):
            v = N.env[k]
            if not isinstance(v, T):
                continue
            for B in Bs:
                v = N.env[k]
                w = B.env.get(k)
                if w is None or w is v:
                    continue
                if B.facts.equal(v, w) and v.op not in ('ptr', 'null', 'fn'):
                    continue
                nv = hints.get(('e', k)) or self.widen_val(v, w, tag, 'e' + k)
                if nv is not v:
                    N.env[k] = nv
                    changed = True
        # memory
        regs = set(N.mem)
        for r in regs:
            m = N.mem[r]
            nm = None
            for k, c in m.items():
                for B in Bs:
                    if nm is not None:
                        if k not in nm:
                            break
                        c = nm[k]
                    bm = B.mem.get(r)
                    c2 = bm.get(k) if bm else None
                    if c2 is None and bm is not None:
                        # representation may have been split or assembled
                        c2 = self.same_rep(B, r, k, c)
                    if c2 is c:
                        continue
                    if c2 is None:
                        if nm is None:
                            nm = dict(m)
                        if k in nm:
                            if c.kind == 'int' and c.rid is None:
                                u = atom('?%s.d%s+%s' % (tag, r, k.id if isinstance(k, T) else k), '?' + sort_of(c.val, c.val, None))
                                if nm[k].val is not u:
                                    nm[k] = Cell('int', u, None, c.size)
                                    changed = True
                            else:
                                del nm[k]
                                changed = True
                        continue
                    if c2.kind == c.kind and c2.rid == c.rid and (c2.val is c.val or (c.kind != 'int' or c.val.op not in ('ptr', 'null', 'fn')) and B.facts.equal(c.val, c2.val) and self.encl_ok(B, c.val, c2.val)):
                        continue
                    if c2.kind == c.kind and c2.rid == c.rid and c.val.op in ('ptrunc', 'ptail') and B.facts.equal(subst_term(c.val, self._phimap.get(id(B), {})), c2.val):
                        continue
                    if c.kind == 'stdvec' and c2.kind == 'stdvec' and c.val.op == 'vecv' and c2.val.op == 'vecv':
                        t = subst_term(c.val, self._phimap.get(id(B), {}))
                        if t.args[0] is c2.val.args[0] and B.facts.equal(t.args[1], c2.val.args[1]):
                            continue
                    if nm is None:
                        nm = dict(m)
                    if c2.kind != c.kind:
                        del nm[k]
                        changed = True
                        break
                    hv = hints.get(('m', r, k))
                    nv = hv if hv is not None else self.widen_val(c.val, c2.val, tag, '%s+%s' % (r, k.id if isinstance(k, T) else k), c.kind, B)
                    rid = c.rid
                    if c2.rid != c.rid:
                        rid = self.join_rid(N, c.rid, c2.rid, B, tag, r, k)
                    if nv is not c.val or rid != c.rid:
                        nm[k] = Cell(c.kind, nv, rid, c.size, c.fld)
                        changed = True
            if nm is not None:
                N.mem[r] = nm
        # cells that only exist on back edges: drop (lazily unknown), but record liveness
        for B in Bs:
            for r, bm in B.mem.items():
                m = N.mem.get(r)
                for k, c in bm.items():
                    if (m is None or k not in m) and c.kind == 'int' and c.rid is None and tag.startswith('J'):
                        reg = self.regions.get(r)
                        if reg is not None and reg.kind == 'local':
                            m = N.wreg(r)
                            m[k] = Cell('int', self.unknown(sort_of(c.val, c.val, None), 'mi'), None, c.size)
                        continue
                    if (m is None or k not in m) and c.rid is not None and B.live.get(c.rid) in ('live', 'maybe') and not c.rid.startswith('x'):
                        # live resource carried round the loop in a slot that is empty at entry
                        reg = self.regions.get(r)
                        if reg is not None and reg.kind == 'local':
                            mm = N.wreg(r)
                            rid = 'c' + tag + str(k) + r
                            self.rids[rid] = self.rids.get(c.rid, (c.kind, ('', '')))
                            mm[k] = Cell(c.kind, self.widen_val(c.val, self.unknown('x'), tag, 'n%s%s' % (r, k), c.kind, B), rid, c.size, c.fld)
                            N.live[rid] = 'live'
                            m = mm
                            changed = True
        # liveness
        for rid in list(N.live):
            a = N.live[rid]
            for B in Bs:
                bl = B.live.get(rid, a)
                if bl != a:
                    N.live[rid] = 'maybe'
                    if a != 'maybe':
                        changed = True
                    break
        for B in Bs:
            if B.txt is not N.txt:
                N.txt = {r: t for r, t in N.txt.items() if B.txt.get(r) is t}
            N.havoc |= B.havoc
            if B.havoc - H.havoc:
                changed = True
        # facts
        if self.widen_facts(N, Bs):
            changed = True
        for t in hints.get('facts', ()):
            N.facts.signs.append((t, frozenset((0, 1))))
            N.facts._clean()
        for B in Bs:
            for c in B.facts.opaque:
                if c.op == 'unkcall' and c not in N.facts.opaque:
                    N.facts.opaque.append(c)
                    changed = True
        return N, changed

    def same_rep(self, B, r, k, c):
        """cell c at (r,k) at the loop head; look for the same object in another representation in B"""
        m = B.mem.get(r, {})
        if c.kind == 'arb' and k in m and m[k].kind == 'arf':
            d = m.get(_o(k, 32))
            if d is not None and d.kind == 'mag':
                return Cell('arb', assemble(m[k].val, d.val), m[k].rid)
        return None

    def encl_ok(self, B, v, w):
        if v.op != 'ball':
            return True
        return True

    def join_rid(self, N, r1, r2, B, tag, r, k):
        if r1 is None or r2 is None:
            return r1 or r2
        s1, s2 = N.live.get(r1, 'live'), B.live.get(r2, 'live')
        rid = 'j%s%s%s' % (tag, r, k.id if isinstance(k, T) else k)
        self.rids[rid] = self.rids.get(r2, self.rids.get(r1, ('?', ('', ''))))
        N.live[rid] = s1 if s1 == s2 else 'maybe'
        return rid

    def widen_val(self, v, w, tag, name, kind=None, B=None):
        if kind == 'stdvec':
            return mk('vecv', atom('?%s.%s.v' % (tag, name), '?PZ'), atom('?%s.%s.n' % (tag, name), '?Z'))
        isball = v.op == 'ball' or (isinstance(w, T) and w.op == 'ball')
        nm = '?%s.%s' % (tag, name)
        if isball:
            e1, e2 = encl(v), encl(w)
            if e1 is not None and e1.op in POISON:
                return v
            if e2 is not None and e2.op in POISON:
                return ball('phi', e2, atom('~' + nm, 'ball'))
            if v.op == 'ball' and v.args[0] == 'phi' and v.args[2].args[0] in (nm, '~' + nm):
                if e1 is not None and B is not None:
                    e1 = subst_term(e1, self._phimap.get(id(B), {}))
                if e1 is not None and not (e2 is not None and B is not None and B.facts.equal(e1, e2)):
                    return ball('phi', None, atom(nm, '?ball'))
                return v
            if e1 is not None and e2 is not None and B is not None and B.facts.equal(e1, e2):
                return ball('phi', e1, atom('~' + nm, 'ball'))
            return ball('phi', None, atom(nm, '?ball'))
        if v.op == 'atom' and v.args[0] == nm:
            return v
        s = sort_of(v, w, kind)
        a = atom(nm, '?' + s)
        return a

    def widen_facts(self, N, Bs):
        f = N.facts
        ch = False
        ns = []
        for (t, s) in f.signs:
            ok = s
            for B in Bs:
                bs = B.facts.sign(subst_term(t, self._phimap.get(id(B), {})))
                if not bs <= ok:
                    ok = ok | bs
            if ok != s:
                ch = True
            if ok != ANY:
                ns.append((t, ok))
        f.signs = ns
        for k in list(f.preds):
            for B in Bs:
                if B.facts.preds.get(k) != f.preds[k]:
                    del f.preds[k]
                    ch = True
                    break
        f.predterms = [(p, v) for (p, v) in f.predterms if all(B.facts.preds.get(p.id) == v for B in Bs)]
        for k in list(f.subst):
            for B in Bs:
                if B.facts.subst.get(k) is not f.subst[k]:
                    del f.subst[k]
                    ch = True
                    break
        for nm in ('rational', 'irrational', 'integer'):
            l = getattr(f, nm)
            n2 = [t for t in l if all(any(t is x for x in getattr(B.facts, nm)) for B in Bs)]
            if len(n2) != len(l):
                setattr(f, nm, n2)
                ch = True
        f._clean()
        return ch

    def horner_hints(self, H, Bs, tag):
        """After one pass from the concrete entry state we cannot see the induction; do a trial pass with
        generic accumulators is expensive, so recognise it from entry values: a ball accumulator that is 0
        at entry and an index that is len-1; the candidate invariant is encl = horner(P,x,i+1)."""
        hints = {}
        if len(Bs) != 1:
            return hints
        B = Bs[0]
        idxs = []
        for k, v in H.env.items():
            w = B.env.get(k)
            if w is not None and w is not v and v.op not in ('ptr', 'ball', 'null', 'fn') and w.op not in ('ptr', 'ball', 'null', 'fn'):
                try:
                    d = sub(sval(w), sval(v))
                    if B.facts.fp(d) == (-1) % PRIME:
                        idxs.append(k)
                except Exception:
                    pass
        if not idxs:
            return hints
        for r, m in H.mem.items():
            bm = B.mem.get(r)
            if not bm:
                continue
            for k, c in m.items():
                c2 = bm.get(k)
                if c.kind != 'arb' or c2 is None or c2.kind != 'arb' or c2.val is c.val:
                    continue
                e1, e2 = encl(c.val), encl(c2.val)
                if e1 is None or e2 is None:
                    continue
                # e2 = e1*x + pcoef(P, i+d)
                xs = []
                for r2, m2 in H.mem.items():
                    for k2, c3 in m2.items():
                        if c3.kind == 'arb' and not (r2 == r and k2 == k) and encl(c3.val) is not None and B.mem.get(r2, {}).get(k2) is c3:
                            xs.append(encl(c3.val))
                pcs = [t for t in subterms(e2) if t.op == 'pcoef']
                for ik in idxs:
                    i = sval(H.env[ik])
                    found = None
                    for t in pcs:
                        for d in (0, 1, -1, 2, -2):
                            J = add(i, I(d))
                            if B.facts.equal(t.args[1], J):
                                for x in xs:
                                    if B.facts.equal(mk('horner', t.args[0], x, add(J, ONE)), e1) and B.facts.equal(mk('horner', t.args[0], x, J), e2):
                                        found = (t.args[0], x, d)
                                        break
                            if found:
                                break
                        if found:
                            break
                    if found:
                        P, x, d = found
                        phi = atom('?%s.e%s' % (tag, ik), sort_of(H.env[ik], B.env[ik], None))
                        hints[('e', ik)] = phi
                        low = add(i, I(d + 1))
                        if H.facts.sign(low) <= {0, 1}:
                            hints.setdefault('facts', []).append(add(sval(phi), I(d + 1)))
                        hints[('m', r, k)] = ball('phi', mk('horner', P, x, add(sval(phi), I(d + 1))), atom('~?%s.%s+%s' % (tag, r, k.id if isinstance(k, T) else k), 'ball'))
                        break
        return hints

    def prefix_hints(self, H, B, tag, hints):
        """a polynomial that is filled coefficient by coefficient from a vector: it agrees with the vector below
        (or above) the running index"""
        for r, m in H.mem.items():
            bm = B.mem.get(r)
            if not bm:
                continue
            for k, c in m.items():
                c2 = bm.get(k)
                if c.kind == 'stdvec' and c2 is not None and c.val.op == 'vecv' and c2.val.op == 'vecv' and not c2.val.unk and c2.val is not c.val:
                    self.vec_hint(H, B, tag, hints, r, k, c, c2)
                    continue
                if c.kind not in ('qpoly', 'zpoly') or c2 is None or c2.val is c.val or c2.val.op != 'setcoeff':
                    continue
                Q, j, co = c2.val.args
                if not (Q is c.val or B.facts.equal(Q, c.val)):
                    continue
                cs = [t for t in subterms(co) if t.op in ('pcoef', 'qcoef')]
                for t in cs:
                    V = t.args[0]
                    if not (B.facts.equal(t, co) and B.facts.equal(t.args[1], j)):
                        continue
                    for ik, v in H.env.items():
                        w = B.env.get(ik)
                        if w is None or w is v or v.op in ('ptr', 'ball', 'null', 'fn', 'aggv') or w.op in ('ptr', 'ball', 'null', 'fn', 'aggv'):
                            continue
                        try:
                            i, dd = sval(v), B.facts.fp(sub(sval(w), sval(v)))
                        except Exception:
                            continue
                        for d in (0, 1, -1):
                            if dd == 1:
                                n, n2 = add(i, I(d)), add(j, ONE)
                                op = 'ptrunc'
                            elif dd == (-1) % PRIME:
                                n, n2 = add(i, I(d)), j
                                op = 'ptail'
                            else:
                                break
                            nb = add(sval(w), I(d))
                            if B.facts.equal(nb, n2) and B.facts.equal(mk(op, V, n), c.val) and B.facts.equal(mk(op, V, n2), c2.val):
                                phi = atom('?%s.e%s' % (tag, ik), sort_of(v, w, None))
                                hints[('e', ik)] = phi
                                hints[('m', r, k)] = mk(op, V, add(sval(phi), I(d)))
                                if H.facts.sign(n) <= {0, 1}:
                                    hints.setdefault('facts', []).append(add(sval(phi), I(d)))
                                break
                        if ('m', r, k) in hints:
                            break
                    if ('m', r, k) in hints:
                        break

    def vec_hint(self, H, B, tag, hints, r, k, c, c2):
        """a vector extended by one entry per round: its length follows an index"""
        V, n, n2 = c2.val.args[0], c.val.args[1], c2.val.args[1]
        for ik, v in H.env.items():
            w = B.env.get(ik)
            if w is None or w is v or v.op in ('ptr', 'ball', 'null', 'fn', 'aggv') or w.op in ('ptr', 'ball', 'null', 'fn', 'aggv'):
                continue
            try:
                ok = H.facts.sign(sub(sval(v), n)) == {0} and B.facts.sign(B.facts._exactify(sub(sval(w), n2))) == {0}
            except Exception:
                continue
            if ok:
                phi = atom('?%s.e%s' % (tag, ik), sort_of(v, w, None))
                hints[('e', ik)] = phi
                hints[('m', r, k)] = mk('vecv', V, sval(phi))
                fs = hints.setdefault('facts', [])
                fs.append(sval(phi))
                for b in [mk('plen', V)] + [t for t in self.bounds_of(B, v)]:
                    if H.facts.sign(sub(b, n)) <= {0, 1} or H.facts.sign(sub(b, sval(v))) <= {0, 1}:
                        fs.append(sub(b, sval(phi)))
                    if H.facts.sign(sub(n, b)) <= {0, 1} or H.facts.sign(sub(sval(v), b)) <= {0, 1}:
                        fs.append(sub(sval(phi), b))
                return

    def bounds_of(self, B, v):
        """terms the index is compared with in this round"""
        out = []
        x = sval(v)
        for t, s in B.facts.signs:
            if t.op in ('sub', 'add') and not isint(t):
                for u in subterms(t):
                    if (u.op in ('plen', 'S') or u.op == 'add' and isint(u.args[1]) and u.args[0].op in ('plen', 'S')) and u is not x and u not in out:
                        out.append(u)
        return out[:6]

    # ---- merging of too many partitions
    def merge(self, func, b, ins):
        self.stats['joins'] += 1
        groups = {}
        for (s, pr, pd) in ins:
            if not pd:
                self.phis(s, func, b, pr)
            groups.setdefault(self.partition_key(s), []).append(s)
        res = []
        for g in groups.values():
            if len(g) == 1:
                res.append((g[0], None, True))
                continue
            N, _ = self.widen(g[0], g[1:], self.fresh('J'), 1)
            for rid, v in list(N.live.items()):
                if v == 'maybe' and any(x.live.get(rid) != 'maybe' for x in g):
                    N.live[rid] = 'maybe~'
            N.facts.opaque = max((x.facts.opaque for x in g), key=len)
            res.append((N, None, True))
        return res

    def partition_key(self, s):
        # keep resource states apart as long as possible
        return hash(frozenset((k, v) for k, v in s.live.items() if v != 'dead'))

    # ---- blocks
    def run_block(self, st, func, b, pred, outs, depth, push, phi_done):
        self.stats['blocks'] += 1
        if not phi_done:
            self.phis(st, func, b, pred)
        self.exec_insts(st, func, func.blocks[b], 0, outs, depth, push)

    def exec_insts(self, st, func, blk, start, outs, depth, push):
        fr = self.frames[-1]
        insts = blk.insts
        i = start
        while i < len(insts):
            inst = insts[i]
            self.steps += 1
            if self.steps > self.maxsteps:
                raise Budget('steps')
            fr['inst'] = inst
            op = inst.op
            if op == 'phi':
                i += 1
                continue
            if op in ('call', 'invoke'):
                results = self.do_call(st, func, inst, depth)
                if op == 'invoke':
                    for o in results:
                        if o.kind == 'ret':
                            if inst.res is not None and o.val is not None:
                                o.st.env[inst.res] = o.val
                            push.append((inst.x['normal'], blk.name, o.st))
                        elif o.kind == 'throw':
                            o.st.env['__exc'] = o.val
                            push.append((inst.x['unwind'], blk.name, o.st))
                    return
                rets = []
                for o in results:
                    if o.kind == 'ret':
                        if inst.res is not None and o.val is not None:
                            o.st.env[inst.res] = o.val
                        rets.append(o.st)
                    elif o.kind == 'throw':
                        outs.append(Outcome(o.st, 'throw', o.val, self.here()[0]))
                if not rets:
                    return
                if len(rets) == 1:
                    st = rets[0]
                    i += 1
                    continue
                for s in rets[:-1]:
                    self.exec_insts(s, func, blk, i + 1, outs, depth, push)
                    fr['inst'] = inst
                st = rets[-1]
                i += 1
                continue
            if op in ('load', 'store', 'atomicrmw', 'cmpxchg') and 'atomic' in self.opts:
                alts = self.opts['atomic'](self, st, inst)
                if alts is not None:
                    for s2, v in alts:
                        if inst.res is not None:
                            s2.env[inst.res] = v
                    if not alts:
                        return
                    for s2, v in alts[:-1]:
                        self.exec_insts(s2, func, blk, i + 1, outs, depth, push)
                        fr['inst'] = inst
                    st = alts[-1][0]
                    i += 1
                    continue
            if op == 'select' and not (inst.ty.k == 'int' and inst.ty.n == 1):
                c = cond_of(self.val(st, inst.args[0]))
                d = st.facts.decide(c)
                if d is None:
                    loc = self.here()[0]
                    alts = []
                    for truth in (True, False):
                        s2 = st.copy()
                        try:
                            s2.facts.assume(c if truth else cnot(c))
                        except Contradiction:
                            continue
                        s2.trace = (loc, show(c), truth, s2.trace)
                        s2.env[inst.res] = self.val(s2, inst.args[1 if truth else 2])
                        alts.append(s2)
                    if not alts:
                        return
                    for s2 in alts[:-1]:
                        self.exec_insts(s2, func, blk, i + 1, outs, depth, push)
                        fr['inst'] = inst
                    st = alts[-1]
                    i += 1
                    continue
            if op == 'br':
                if len(inst.x) == 1:
                    push.append((inst.x[0], blk.name, st))
                    return
                c = cond_of(self.val(st, inst.args[0]))
                self.branch(st, c, inst, [(True, inst.x[0]), (False, inst.x[1])], blk, push)
                return
            if op == 'switch':
                v = self.simp(st, self.val(st, inst.args[0]))
                self.switch(st, v, inst, blk, push)
                return
            if op == 'ret':
                rv = self.val(st, inst.args[0]) if inst.args else None
                outs.append(Outcome(st, 'ret', rv, self.here()[0]))
                return
            if op == 'unreachable':
                return
            if op == 'landingpad' and inst.x and self.opts.get('exc_match'):
                exc = st.env.get('__exc')
                et = exc.args[0] if exc is not None and exc.op == 'exc' else None
                if et is not None and not any(k == 'cleanup' or (k == 'catch' and v.k == 'null') or k == 'filter' for k, v in inst.x):
                    from .cxx import ti
                    ms = [self.opts['exc_match'](et, ti(v.v)) for k, v in inst.x if k == 'catch' and v.k == 'glob']
                    if ms and all(m is False for m in ms):
                        outs.append(Outcome(st, 'throw', exc, self.here()[0]))
                        return
            if op == 'resume':
                outs.append(Outcome(st, 'throw', st.env.get('__exc') or self.unknown('exc'), self.here()[0]))
                return
            self.exec_simple(st, func, inst)
            i += 1

    def branch(self, st, c, inst, alts, blk, push):
        loc = self.here()[0]
        d = st.facts.decide(c)
        for truth, tgt in alts:
            if d is not None and d != truth:
                continue
            if d is not None:
                push.append((tgt, blk.name, st))
                continue
            ct = c if truth else cnot(c)
            for case in splits(ct) or [[ct]]:
                s = st.copy()
                try:
                    for e in case:
                        s.facts.assume(e)
                except Contradiction:
                    continue
                s.trace = (loc, show(c), truth, s.trace)
                push.append((tgt, blk.name, s))

    def switch(self, st, v, inst, blk, push):
        d, cases = inst.x
        loc = self.here()[0]
        if v.op == 'mi':
            w = v.args[1]
            for n, l in cases:
                if (n & ((1 << w) - 1)) == v.args[0]:
                    push.append((l, blk.name, st))
                    return
            push.append((d, blk.name, st))
            return
        w = mwidth(v)
        rest = st
        for n, l in cases:
            c = cond_of(icmp('eq', v, mconst(n, w)))
            dd = rest.facts.decide(c)
            if dd is False:
                continue
            s = rest.copy()
            try:
                s.facts.assume(c)
                s.trace = (loc, show(c), True, s.trace)
                push.append((l, blk.name, s))
            except Contradiction:
                pass
            if dd is True:
                return
            try:
                rest.facts.assume(cnot(c))
            except Contradiction:
                return
        push.append((d, blk.name, rest))

    def exec_simple(self, st, func, inst):
        op = inst.op
        env = st.env
        fr = self.frames[-1]
        if op == 'getelementptr':
            base = self.val(st, inst.args[0])
            env[inst.res] = self.gep(st, inst.ty, base, [self.simp(st, self.val(st, x)) for x in inst.args[1:]])
        elif op == 'load':
            env[inst.res] = self.load(st, inst.ty, self.val(st, inst.args[0]))
        elif op == 'store':
            self.store(st, inst.args[0].t, self.val(st, inst.args[0]), self.val(st, inst.args[1]))
        elif op == 'alloca':
            nm = getattr(func, 'varnames', {}).get(inst.res, inst.res)
            rn = '%s.%s.%s' % (fr['id'], func.srcname or func.name, inst.res)
            self.region(rn, 'local', lazy=False, array=inst.x is not None or is_array(inst.ty), info=nm, frame=fr['id'])
            fr['allocas'].append(rn)
            st.mem.pop(rn, None)
            env[inst.res] = ptr(rn)
        elif op == 'icmp':
            env[inst.res] = self.cmp(st, inst, self.simp(st, self.val(st, inst.args[0])), self.simp(st, self.val(st, inst.args[1])))
        elif op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            a = self.simp(st, self.val(st, inst.args[0]))
            b = self.simp(st, self.val(st, inst.args[1]))
            w = inst.ty.n if inst.ty.k == 'int' else 64
            if w == 1 and op in ('and', 'or'):
                ca, cb = cond_of(a), cond_of(b)
                env[inst.res] = ind(cand(ca, cb) if op == 'and' else cor(ca, cb))
            else:
                if op == 'sub' and a.op == 'ptr' and b.op == 'ptr' and a.args[0] == b.args[0]:
                    env[inst.res] = tomach(sub(a.args[1], b.args[1]), w)
                    return
                if self.opts.get('overflow_hook'):
                    self.opts['overflow_hook'](self, st, inst, op, w, a, b)
                if self.opts.get('neg_overflow') and op == 'sub' and a.op == 'mi' and a.args[0] == 0 and 'nsw' in inst.x and b.op == 'atom' and b.args[1] == 'M%d' % w:
                    self.event('overflow', st, 'negation of the %d bit argument %s overflows for the smallest value' % (w, b.args[0]))
                env[inst.res] = mop(op, w, inst.x, a, b)
        elif op in ('sext', 'zext'):
            v = self.val(st, inst.args[0])
            w = inst.ty.n
            if v.op == 'mi':
                env[inst.res] = mconst(sval(v).args[0] if op == 'sext' else v.args[0], w)
            elif v.op in ('ind', 'mnot') and op == 'zext':
                env[inst.res] = mk('zext', v, w)
            else:
                env[inst.res] = mk(op, v, w)
        elif op == 'trunc':
            v = self.val(st, inst.args[0])
            w = inst.ty.n
            if v.op == 'mi':
                env[inst.res] = mconst(v.args[0], w)
            elif v.op in ('zext', 'sext') and mwidth_of(v.args[0]) == w:
                env[inst.res] = v.args[0]
            elif w == 1:
                env[inst.res] = v if v.op == 'ind' else (v.args[0] if v.op == 'zext' and v.args[0].op in ('ind', 'mnot') else mk('trunc', v, 1))
            else:
                env[inst.res] = mk('trunc', v, w)
        elif op in ('ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'addrspacecast'):
            env[inst.res] = self.val(st, inst.args[0])
        elif op == 'select':
            c = cond_of(self.val(st, inst.args[0]))
            a, b = self.val(st, inst.args[1]), self.val(st, inst.args[2])
            d = st.facts.decide(c)
            if d is True:
                env[inst.res] = a
            elif d is False:
                env[inst.res] = b
            else:
                if a.op == 'mi' and b.op == 'mi' and a.args == (1, 1) and b.args == (0, 1):
                    env[inst.res] = ind(c)
                elif a.op == 'mi' and b.op == 'mi' and a.args == (0, 1) and b.args == (1, 1):
                    env[inst.res] = ind(cnot(c))
                elif inst.ty.k == 'int' and inst.ty.n == 1:
                    env[inst.res] = ind(cor(cand(c, cond_of(a)), cand(cnot(c), cond_of(b))))
                else:
                    env[inst.res] = mk('ite', c, a, b)
        elif op == 'extractvalue':
            v = self.val(st, inst.args[0])
            for ix in inst.x:
                if v.op == 'aggv' and ix < len(v.args):
                    v = v.args[ix]
                else:
                    v = mk('extract', v, ix)
            env[inst.res] = v
        elif op == 'insertvalue':
            v = self.val(st, inst.args[0])
            e = self.val(st, inst.args[1])
            if len(inst.x) == 1:
                n = inst.x[0]
                L = self.cur_layout().resolve(inst.ty)
                cnt = len(L.a) if L.k == 'struct' else (L.n or 2)
                els = list(v.args) if v.op == 'aggv' else [mk('undefv')] * cnt
                els[n] = e
                env[inst.res] = mk('aggv', *els)
            else:
                env[inst.res] = mk('ins', v, e, *inst.x)
        elif op == 'landingpad':
            exc = st.env.get('__exc') or self.unknown('exc')
            env[inst.res] = mk('aggv', mk('excptr', exc), mk('excsel', exc))
            env['__lp'] = env[inst.res]
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            a, b = self.val(st, inst.args[0]), self.val(st, inst.args[1])
            env[inst.res] = mk(op, a, b)
        elif op == 'fneg':
            env[inst.res] = mk('fneg', self.val(st, inst.args[0]))
        elif op == 'fcmp':
            a, b = self.val(st, inst.args[0]), self.val(st, inst.args[1])
            env[inst.res] = self.fcmp(st, inst.x, a, b)
        elif op in ('sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'):
            env[inst.res] = mk(op, self.val(st, inst.args[0]))
        elif op == 'atomicrmw':
            p = self.val(st, inst.args[0])
            v = self.val(st, inst.args[1])
            old = self.load(st, inst.ty, p)
            st.note('atomicrmw', inst.x['rmw'], p, v, tuple(inst.x['order']))
            w = inst.ty.n
            new = mop(inst.x['rmw'], w, (), old, v) if inst.x['rmw'] in ('add', 'sub') else (v if inst.x['rmw'] == 'xchg' else self.unknown('M%d' % w, 'rmw'))
            self.store(st, inst.ty, new, p)
            env[inst.res] = old
        elif op == 'cmpxchg':
            p = self.val(st, inst.args[0])
            old = self.load(st, inst.args[1].t, p)
            st.note('cmpxchg', p, self.val(st, inst.args[1]), self.val(st, inst.args[2]), tuple(inst.x['order']))
            ok = ind(cpred('cas', old, atom(self.fresh('cas'), 'M1')))
            env[inst.res] = mk('aggv', old, ok)
        elif op == 'fence':
            st.note('fence', tuple(inst.x['order']))
        else:
            if inst.res:
                env[inst.res] = self.unknown('M64', op)

    def fcmp(self, st, pred, a, b):
        p = {'oeq': 'eq', 'ueq': 'eq', 'une': 'ne', 'one': 'ne', 'olt': 'lt', 'ogt': 'gt', 'ole': 'le', 'oge': 'ge', 'ult': 'lt', 'ugt': 'gt', 'ule': 'le', 'uge': 'ge'}.get(pred)
        if p is None:
            return ind(cpred('fcmp' + pred, a, b))
        s = {'eq': (0,), 'ne': (-1, 1), 'lt': (-1,), 'gt': (1,), 'le': (-1, 0), 'ge': (0, 1)}[p]
        return ind(csign(sub(a, b), s))

    # ------------------------------------------------------------ calls
    def do_call(self, st, func, inst, depth):
        self.stats['calls'] += 1
        callee = inst.x['callee']
        args = [self.val(st, a) if a.k != 'meta' else None for a in inst.args]
        mod = func.mod
        if callee.k == 'glob':
            return self.call_named(st, mod, callee.v, args, inst, depth)
        v = self.val(st, callee)
        if v.op == 'fn':
            m2 = next((m for m in self.prog.modules if m.name == v.args[1]), mod)
            return self.call_named(st, m2, v.args[0], args, inst, depth)
        h_ = self.opts.get('indirect_hook')
        if h_:
            r = h_(self, st, v, args, inst)
            if r is not None:
                return r
        return self.unknown_call(st, '<indirect>', args, inst)

    def call_named(self, st, mod, name, args, inst, depth):
        target = self.prog.resolve(mod, name)
        repo = target is not None and target.file.startswith(REPO)
        base = re.sub(r'\.\d+$', '', name)
        spec = self.specs.get(base)
        if spec is not None and (repo or target is None) and not (target is not None and 'internal' in target.linkage and base not in self.specs_internal()):
            if not (self.opts.get('inline') and base in self.opts['inline']):
                self.stats['specs'].add(base)
                return spec(self, st, args, inst)
        if not repo:
            m = self.models.get(base)
            if m is None:
                m = self.match_model(base)
            if m is not None:
                self.stats['models'].add(base)
                return m(self, st, args, inst)
        if target is not None and not self.is_opaque(target, base):
            active = sum(1 for fr in self.frames if fr['func'] is target)
            if active < 4:
                return self.run_function(st, target, args, depth + 1)
        return self.unknown_call(st, base, args, inst, target)

    def specs_internal(self):
        return ()

    def match_model(self, name):
        f = self.opts.get('match_model')
        return f(name) if f else None

    def is_opaque(self, target, name):
        f = self.opts.get('is_opaque')
        return f(target, name) if f else False

    def unknown_call(self, st, name, args, inst, target=None):
        self.stats['unknown'].add(name)
        st.note('unknown-call', name)
        u = mk('unkcall', name)
        if u not in st.facts.opaque:
            st.facts.opaque.append(u)
        # memory reachable from pointer arguments becomes unknown
        for a in args:
            if a is not None and a.op == 'ptr':
                r = a.args[0]
                if r.startswith('co:'):
                    rr, o, c = self.co_owner(st, r)
                    if c is not None:
                        st.wreg(rr)[o] = Cell(c.kind, self.unknown('PZ', 'uc'), c.rid, fld=c.fld)
                    continue
                m = st.mem.get(r)
                if m:
                    nm = {}
                    for k, c in m.items():
                        if c.kind == 'int' and c.val.op in ('ptr', 'fn'):
                            nm[k] = c if self.opts.get('keep_ptrs') else c
                        else:
                            nm[k] = Cell(c.kind, self._unk_kind(c.kind) if c.kind != 'int' else self.unknown('M%d' % (8 * c.size), 'uc'), c.rid, c.size, c.fld)
                    st.mem[r] = nm
                st.havoc.add(r)
        rv = self._unk_ty(inst.ty) if inst.ty.k != 'void' else None
        outs = [Outcome(st, 'ret', rv)]
        return outs


# -------------------------------------------------------------------- helpers
def is_array(ty):
    return ty.k == 'array' and ty.n > 4


def mwidth_ok(v, w):
    return True


def mwidth_of(v):
    if v.op in ('ind', 'mnot'):
        return 1
    return mwidth(v)


def div8(off):
    """term byte offset -> element index (size 8)"""
    if isint(off):
        return I(off.args[0] // 8) if off.args[0] % 8 == 0 else None
    if off.op == 'mul':
        for x, y in ((off.args[0], off.args[1]), (off.args[1], off.args[0])):
            if isint(y) and y.args[0] == 8:
                return x
    if off.op == 'add':
        a, b = div8(off.args[0]), div8(off.args[1])
        if a is not None and b is not None:
            return add(a, b)
    return None


def subst_term(t, mp, memo=None):
    if not mp:
        return t
    if memo is None:
        memo = {}
    r = memo.get(t.id)
    if r is not None:
        return r
    if t.op in ('S', 'U') and t.args[0].id in mp:
        r = (sval if t.op == 'S' else uval)(mp[t.args[0].id])
    elif t.id in mp:
        r = mp[t.id]
    else:
        ch = False
        na = []
        for a in t.args:
            if isinstance(a, T):
                b = subst_term(a, mp, memo)
                ch = ch or b is not a
                na.append(b)
            else:
                na.append(a)
        if not ch:
            r = t
        else:
            c = {'add': add, 'sub': sub, 'mul': mul, 'div': div, 'neg': neg}.get(t.op)
            r = c(*na) if c else mk(t.op, *na)
    memo[t.id] = r
    return r


def sort_of(v, w, kind):
    m = {'fmpz': 'Z', 'mpz': 'Z', 'str': 'str', 'arf': 'arf', 'mag': 'mag', 'nfe': 'K', 'qpoly': 'PQ', 'zpoly': 'PZ', 'vec': 'PZ'}
    if kind in m:
        return m[kind]
    for x in (v, w):
        if x.op in ('ptr', 'null', 'fn', 'ptradd'):
            return 'ptr'
    for x in (v, w):
        if x.op in ('mi', 'sext', 'zext', 'trunc', 'tomach', 'mop'):
            return 'M%d' % mwidth(x)
        if x.op == 'atom':
            return x.args[1].lstrip('?')
        if x.op in ('ind', 'mnot'):
            return 'M1'
    return 'M64'


def short(f):
    return f[len(REPO):] if f.startswith(REPO) else f


def trace_list(st):
    out = []
    t = st.trace
    while t:
        out.append((t[0], t[1], t[2]))
        t = t[3]
    return out[::-1]


def rpo(func):
    seen = set()
    out = []
    stack = [(func.order[0].name, iter(func.order[0].succs))]
    seen.add(func.order[0].name)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(func.blocks[s].succs)))
                break
        else:
            out.append(b)
            stack.pop()
    return out[::-1]


def pcoef(st, P, i):
    """coefficient i of P, looking through writes to single coefficients"""
    Q = P
    while Q.op == 'setnum':
        j = Q.args[1]
        if st.facts.equal(i, j):
            return Q.args[2]
        if 0 in st.facts.sign(sub(i, j)):
            return mk('pcoef', P, i)
        Q = Q.args[0]
    return mk('pcoef', Q, i)


def same_start(a, b):
    return a is not None and a[0] == b[0] and a[2:] == b[2:] and all(b[1].get(r) == m for r, m in a[1].items())


def dominators(func, order):
    allb = set(order)
    dom = {b: set(allb) for b in order}
    dom[order[0]] = {order[0]}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            ps = [p for p in func.blocks[b].preds if p in allb]
            n = set.intersection(*[dom[p] for p in ps]) if ps else set()
            n = n | {b}
            if n != dom[b]:
                dom[b] = n
                ch = True
    return dom

"""Abstract machine state: typed memory cells, resource typestate, must-facts."""
from .terms import *

SIZES = {'fmpz': 8, 'mag': 16, 'arf': 32, 'arb': 48, 'nfe': 32, 'qpoly': 32, 'zpoly': 24, 'vec': 8, 'opq': 8, 'mpz': 16, 'str': 32, 'stdvec': 24, 'renfval': 8}

NULL = mk('null')


def ptr(region, off=0):
    return mk('ptr', region, off if isinstance(off, T) else I(off))


def is_ptr(v):
    return v.op == 'ptr'


def off_key(o):
    return o.args[0] if o.op == 'int' else o


def ptr_add(p, d):
    """d: term (mathematical byte offset)"""
    if p.op == 'ptr':
        return mk('ptr', p.args[0], add(p.args[1], d))
    if p is NULL and isint(d) and d.args[0] == 0:
        return p
    return mk('ptradd', p, d)


class Field:
    __slots__ = ('name', 'kind', 'alpha', 'key')

    def __init__(self, name, kind, alpha, key):
        self.name, self.kind, self.alpha, self.key = name, kind, alpha, key


class Cell:
    __slots__ = ('kind', 'val', 'rid', 'size', 'fld')

    def __init__(self, kind, val, rid=None, size=None, fld=None):
        self.kind, self.val, self.rid, self.fld = kind, val, rid, fld
        self.size = size if size is not None else SIZES[kind]

    def __repr__(self):
        return '%s:%s%s' % (self.kind, self.val, '' if self.rid is None else '#%s' % self.rid)


class State:
    def __init__(self, A):
        self.A = A                # analysis (regions, fields, event sink)
        self.mem = {}             # region -> {offkey: Cell}
        self.live = {}            # rid -> 'live' | 'dead' | 'maybe'
        self.facts = Facts()
        self.env = {}             # current frame SSA values
        self.trace = None         # linked list of decisions
        self.havoc = set()        # regions whose unknown content may have changed
        self.log = None           # linked list of (tag, data) effects along the path
        self.locks = ()
        self.eff = None
        self.strs = {}
        self.txt = {}             # region -> abstract text of the C string stored there

    def copy(self):
        s = State.__new__(State)
        s.A = self.A
        s.mem = dict(self.mem)      # region maps are copied on write
        s.live = dict(self.live)
        s.facts = self.facts.copy()
        s.env = dict(self.env)
        s.trace = self.trace
        s.havoc = set(self.havoc)
        s.log = self.log
        s.locks = self.locks
        s.eff = self.eff
        s.strs = self.strs
        s.txt = self.txt
        return s

    # -- effect log (linked list newest first)
    def note(self, tag, *data):
        self.log = (tag, data, self.log)

    def notes(self):
        out = []
        n = self.log
        while n:
            out.append((n[0], n[1]))
            n = n[2]
        return out[::-1]

    # -- raw region access
    def reg(self, r):
        return self.mem.get(r) or {}

    def wreg(self, r):
        m = self.mem.get(r)
        m = {} if m is None else dict(m)
        self.mem[r] = m
        return m

    def lazy(self, r):
        return self.A.region_lazy(r)

    def new_rid(self, kind, where):
        rid = self.A.fresh('r')
        self.A.rids[rid] = (kind, where)
        self.live[rid] = 'live'
        return rid

    # find a cell covering off
    def covering(self, r, k):
        m = self.reg(r)
        c = m.get(k)
        if c is not None:
            return k, c
        if isinstance(k, int):
            for o, c in m.items():
                if isinstance(o, int) and o <= k < o + c.size:
                    return o, c
        elif isinstance(k, T):
            # symbolic: match base+const difference
            b, n = split(k)
            for o, c in m.items():
                if isinstance(o, T):
                    b2, n2 = split(o)
                    if b2 is b and n2 <= n < n2 + c.size:
                        return o, c
        return None, None

    def set_cell(self, p, cell):
        if p.op != 'ptr':
            return
        r, o = p.args[0], off_key(p.args[1])
        m = self.wreg(r)
        if isinstance(o, int):
            for k in [k for k, c in m.items() if isinstance(k, int) and k != o and k < o + cell.size and o < k + c.size]:
                del m[k]
        # cells at unrelated symbolic offsets may be overwritten as well
        b, n = split(o)
        for k in [k for k in m if (isinstance(k, T) or isinstance(o, T))]:
            b2, n2 = split(k)
            if b2 is not b:
                c = m[k]
                if c.kind in ('fmpz', 'int', 'ptr') and (isinstance(k, T) or isinstance(o, T)):
                    if self.A.region_array(r):
                        m[k] = Cell(c.kind, self.A.unknown('Z' if c.kind == 'fmpz' else 'M%d' % (8 * c.size), 'weak'), c.rid, c.size)
            elif isinstance(o, T) and k is not o and n2 < n + cell.size and n < n2 + m[k].size:
                del m[k]
        m[o] = cell

    def get_cell_at(self, p):
        if p.op != 'ptr':
            return None
        return self.reg(p.args[0]).get(off_key(p.args[1]))

    def explode(self, r, o):
        """split an abstract number field element into the representation of its field kind"""
        m = self.reg(r)
        c = m.get(o)
        if c is None or c.kind != 'nfe' or c.fld is None:
            return False
        F = c.fld
        v = c.val
        if F.kind == 'L':
            m = self.wreg(r)
            del m[o]
            m[o] = Cell('fmpz', num(v), c.rid)
            m[_o(o, 8)] = Cell('fmpz', den(v), c.rid)
        elif F.kind == 'Q':
            m = self.wreg(r)
            del m[o]
            m[o] = Cell('fmpz', mk('qc0', v, F.alpha), c.rid)
            m[_o(o, 8)] = Cell('fmpz', mk('qc1', v, F.alpha), c.rid)
            m[_o(o, 16)] = Cell('fmpz', mk('qscratch', v), c.rid)
            m[_o(o, 24)] = Cell('fmpz', den(v), c.rid)
        elif F.kind == 'G':
            m = self.wreg(r)
            m[o] = Cell('qpoly', mk('polyof', v, F.alpha), c.rid, fld=F)
        else:
            return False
        return True

    def note_field_of(self, p):
        return self.A.field_at(p)


def split(o):
    if isinstance(o, int):
        return None, o
    if o.op == 'add' and isint(o.args[1]):
        return o.args[0], o.args[1].args[0]
    return o, 0


def _o(o, d):
    if isinstance(o, int):
        return o + d
    return off_key(add(o, I(d)))

"""Serialization: what is written, in which order, and that reading puts every part back where it came from.

The templates are instantiated by clients/serial.cpp with archives whose primitive operations have no definition;
their effect is modelled here."""
import re
from .terms import *
from .state import *
from .interp import Outcome, Budget
from . import cxx, flint, text, textspec
from .flint import ret, new_heap, free
from .cxx import World, XL, exc_type, sread, swrite, ref_add, ref_get
from .cxxmake import cell
from .cxxio import unpar
from .specs import Lay

DEG = {'L': 'degree 1', 'Q': 'degree 2', 'G': 'degree >= 3'}
C = 'client::'
FP = 'boost::intrusive_ptr<eantic::renf_class const>'
U32 = cxx.Ty('int', None, 32)


# ------------------------------------------------------------------ std::shared_ptr
def ctrl_new(A, st, obj, deleter):
    """control block: reference count, captured references"""
    rn = A.fresh('spctrl')
    A.region(rn, 'ctrl', lazy=False, info='control block')
    held = []
    if deleter is not None and deleter.op == 'ptr':
        for k, c in st.reg(deleter.args[0]).items():
            if c.kind == 'int' and c.val.op == 'ptr' and cxx.field_region(A, c.val):
                held.append(c.val.args[0])
    for r in held:
        ref_add(A, st, r, 1)
    m = st.wreg(rn)
    m[0] = Cell('int', mconst(1, 64), None, 8)
    m[8] = Cell('int', obj if deleter is None and obj is not None else NULL, None, 8)
    for i, r in enumerate(held):
        m[16 + 8 * i] = Cell('int', ptr(r), None, 8)
    return ptr(rn)


def ctrl_count(st, c, d):
    k = st.reg(c.args[0])[0]
    n = k.val.args[0] + d if k.val.op == 'mi' else sval(k.val).args[0] + d
    st.wreg(c.args[0])[0] = Cell('int', mconst(n, 64), None, 8)
    return n


def sp_set(st, p, obj, c):
    st.set_cell(p, Cell('int', obj, None, 8))
    st.set_cell(ptr_add(p, I(8)), Cell('int', c, None, 8))


def sp_get(st, p):
    a, b = cell(st, p), cell(st, ptr_add(p, I(8)))
    return (a.val if a else None), (b.val if b else None)


def sp_share(st, c):
    if c is not None and c.op == 'ptr':
        ctrl_count(st, c, 1)


def sp_drop(A, st, c):
    if c is None or c.op != 'ptr':
        return
    if ctrl_count(st, c, -1) > 0:
        return
    m = st.reg(c.args[0])
    for k, x in list(m.items()):
        if isinstance(k, int) and k >= 16 and x.val.op == 'ptr':
            cxx.sp_release(A, st, [x.val], None)
    own = m[8].val
    if own.op == 'ptr':
        h = cell(st, own)
        if h is not None and h.val.op == 'ptr' and cxx.field_region(A, h.val):
            cxx.sp_release(A, st, [h.val], None)
        free(A, st, own)


SP = re.compile(r'^std::(?:__)?shared_ptr<')


def sp_model(d):
    if not (SP.match(d) or d.startswith('std::__shared_ptr_access<') or 'std::static_pointer_cast<' in d or 'std::make_shared' in d):
        return None
    if 'std::static_pointer_cast<' in d or 'std::const_pointer_cast<' in d:
        def cast(A, st, args, inst):
            o, c = sp_get(st, args[1])
            if o is None:
                return None
            sp_share(st, c)
            sp_set(st, args[0], o, c)
            return ret(st)
        return cast
    if '::~shared_ptr()' in d or '::~__shared_ptr()' in d:
        def dtor(A, st, args, inst):
            o, c = sp_get(st, args[0])
            sp_drop(A, st, c)
            return ret(st)
        return dtor
    if d.endswith('::get() const') or d.endswith('::operator*() const') or d.endswith('::operator->() const'):
        def get(A, st, args, inst):
            o, c = sp_get(st, args[0])
            return ret(st, o if o is not None else A.unknown('M64', 'sp'))
        return get
    m = re.search(r'>::(?:__)?shared_ptr(?=[<(])', d)
    if m:
        rest = d[m.end():]
        # skip template arguments of the constructor
        if rest.startswith('<'):
            n = 0
            for i, ch in enumerate(rest):
                if ch == '<':
                    n += 1
                elif ch == '>' and rest[i - 1] != '-':
                    n -= 1
                    if n == 0:
                        rest = rest[i + 1:]
                        break
        ps = cxx.split_args(rest[1:])

        def ctor(A, st, args, inst):
            if len(args) == 1:
                sp_set(st, args[0], NULL, NULL)
            elif ps and ('shared_ptr<' in ps[0].split('(')[0]):
                o, c = sp_get(st, args[1])
                if o is None:
                    o, c = A.unknown('M64', 'sp'), NULL
                if len(ps) == 2:        # aliasing
                    o = args[2]
                if ps[0].endswith('&&'):
                    sp_set(st, args[1], NULL, NULL)
                else:
                    sp_share(st, c)
                sp_set(st, args[0], o, c)
            elif len(ps) >= 2:
                sp_set(st, args[0], args[1], ctrl_new(A, st, args[1], args[2] if len(args) > 2 else ptr('#none')))
            else:
                sp_set(st, args[0], args[1], ctrl_new(A, st, args[1], None))
            return ret(st)
        return ctor
    return None


# ------------------------------------------------------------------ archives
def name_text(A, st, p):
    t = cxx.ctext(A, st, p)
    return t.args[0] if t.op == 'lit' else ''


def models(cp, first):
    """first: the archive has not seen the field before"""
    def out_string(A, st, args, inst):
        st.note('w', 'string', name_text(A, st, args[0]), sread(A, st, args[1]))
        return ret(st)

    def out_u32(A, st, args, inst):
        st.note('w', 'u32', name_text(A, st, args[0]), uval(args[1]))
        return ret(st)

    def out_long(A, st, args, inst):
        st.note('w', 'long', name_text(A, st, args[0]), sval(args[1]))
        return ret(st)

    def out_field(A, st, args, inst):
        c = cell(st, args[1])
        st.note('w', 'field', name_text(A, st, args[0]), c.val if c is not None else None)
        return ret(st)

    def out_register(A, st, args, inst):
        st.note('register', args[0])
        n = (1 << 31) + 1 if first else 1
        return ret(st, mconst(n, 32))

    def keep(A, st, args, inst):
        o, c = sp_get(st, args[0])
        sp_share(st, c)
        if c is not None and c.op == 'ptr':
            st.note('keep', c)
        return ret(st)

    def in_string(A, st, args, inst):
        t = atom('in%d' % len([1 for k, d in st.notes() if k == 'r']), 'str')
        st.note('r', 'string', name_text(A, st, args[0]), t)
        swrite(A, st, args[1], t)
        return ret(st)

    def in_u32(A, st, args, inst):
        st.note('r', 'u32', name_text(A, st, args[0]), None)
        st.set_cell(args[1], Cell('int', mconst((1 << 31) + 1 if first else 1, 32), None, 4))
        return ret(st)

    def in_long(A, st, args, inst):
        t = atom('in%d' % len([1 for k, d in st.notes() if k == 'r']), 'M64')
        st.note('r', 'long', name_text(A, st, args[0]), sval(t))
        st.set_cell(args[1], Cell('int', t, None, 8))
        return ret(st)

    def in_field(A, st, args, inst):
        st.note('r', 'field', name_text(A, st, args[0]), ptr('K'))
        c = cell(st, args[1])
        if c is not None and c.val.op == 'ptr':
            cxx.sp_release(A, st, [c.val], None)
        ref_add(A, st, 'K', 1)
        st.set_cell(args[1], Cell('int', ptr('K'), None, 8))
        return ret(st)

    def in_register(A, st, args, inst):
        h = cell(st, args[1])
        st.note('inreg', uval(args[0]), h.val if h is not None else None)
        return ret(st)

    def in_lookup(A, st, args, inst):
        st.note('lookup', uval(args[0]))
        return ret(st, ptr('handle'))

    def node(A, st, args, inst):
        n = len([1 for k, d in st.notes() if k == 'node'])
        outs = []
        for x in ('cereal_class_version', 'shared', 'id'):
            prev = [d[0] for k, d in st.notes() if k == 'node']
            fin = len([1 for k, d in st.notes() if k == 'finish'])
            if prev and fin == 0 and prev[-1] != x:
                continue        # same node, same name
            if prev and fin and x == 'cereal_class_version':
                continue
            if len(prev) > 1 and prev[-1] != x:
                continue
            s = st.copy()
            s.note('node', x)
            r = 'nodename.' + x
            A.region(r, 'param', lazy=False, info='node name')
            A.set_txt(s, ptr(r), text.lit(x))
            outs.append(Outcome(s, 'ret', ptr(r)))
        return outs

    def finish(A, st, args, inst):
        st.note('finish')
        return ret(st)

    def construction(A, st, args, inst):
        for off, nm in ((72, 'pol'), (40, 'name'), (8, 'emb')):
            swrite(A, st, ptr_add(args[0], I(off)), atom('con_' + nm, 'str'))
        st.set_cell(args[0], Cell('int', atom('con_prec', 'M64'), None, 8))
        st.note('construction', args[1])
        return ret(st)

    def make(A, st, args, inst):
        st.note('make', [sread(A, st, a) for a in args[1:4]], sval(args[4]))
        s = st.copy()
        st.set_cell(args[0], Cell('int', ptr('K'), None, 8))
        ref_add(A, st, 'K', 1)
        return [Outcome(st, 'ret', None), Outcome(s, 'throw', mk('exc', 'std::invalid_argument', A.here_repo()[0]), A.here_repo()[0])]

    d = {}
    for nm, m in (('out_string', out_string), ('out_u32', out_u32), ('out_long', out_long), ('out_field', out_field), ('out_register', out_register), ('keep', keep),
                  ('in_string', in_string), ('in_u32', in_u32), ('in_long', in_long), ('in_field', in_field), ('in_register', in_register), ('in_lookup', in_lookup),
                  ('named::getNodeName', node), ('named::finishNode', finish)):
        for n, dem in cp.names.dem.items():
            if dem.startswith(C + nm + '('):
                d[n] = m
    for sig, m in (('eantic::renf_class::construction() const', construction),
                   ('eantic::renf_class::make(std::string const&, std::string const&, std::string const&, long)', make)):
        for n, dem in cp.names.dem.items():
            if dem == sig:
                d[n] = m
    return d


def world(cp, sig, label, fk, first):
    f = next((f for d, f in cp.names.like('^' + re.escape(C + sig) + r'\(')), None)
    name = {'save_field': 'eantic::save(field)', 'save_elem': 'eantic::save(element)', 'load_field': 'eantic::load(field)', 'load_elem': 'eantic::load(element)', 'load_field_named': 'eantic::load(field)'}[sig]
    memo = {}

    def match(nm):
        if nm not in memo:
            d = cp.names.dem.get(nm)
            memo[nm] = sp_model(d) if d else None
        return memo[nm] or cp.match(nm)
    w = World(cp, f, name, '%s, %s' % (DEG[fk], label), opts={'match_model': match}, extra=models(cp, first))
    w.field('K', fk)
    w.st.wreg('K')[XL.renf + Lay.prec] = Cell('int', atom('prec_K', 'M64'), None, 8)
    return w


SAVED = ('name', 'emb', 'pol', 'prec')


def role_out(kind, v):
    if v is None:
        return None
    if v.op == 'atom' and v.args[0].startswith('con_'):
        return v.args[0][4:]
    if v.op == 'S' and v.args[0].op == 'atom' and v.args[0].args[0].startswith('con_'):
        return v.args[0].args[0][4:]
    return None


def field_format(cp):
    """positions and names of the parts of a field as written by save; None when not understood"""
    w = world(cp, 'save_field', 'format', 'G', True)
    ref_add(w.A, w.st, 'K', 1)
    w.raw('self')
    w.st.wreg('self')[0] = Cell('int', ptr('K'), None, 8)
    w.raw('ar')
    fmts = []
    for o in w.go([ptr('ar'), ptr('self')]):
        if o.kind != 'ret':
            continue
        ws = [d for t, d in o.st.notes() if t == 'w']
        fmts.append(tuple((k, n, 'id' if k == 'u32' else role_out(k, v)) for k, n, v in ws))
    return fmts[0] if fmts and all(f == fmts[0] for f in fmts) else None


def table(cp):
    obs = []

    def addob(name, label, run):
        obs.append((name, label, run))

    for fk in 'LQG':
        for first in (True, False):
            def save_field(fk=fk, first=first):
                w = world(cp, 'save_field', 'first time' if first else 'seen before', fk, first)
                ref_add(w.A, w.st, 'K', 1)
                w.raw('self')
                w.raw('ar')
                w.st.wreg('self')[0] = Cell('int', ptr('K'), None, 8)
                for o in w.go([ptr('ar'), ptr('self')]):
                    if o.kind == 'throw':
                        w.check(False, 'throw', 'throws %s' % exc_type(o.val), o)
                        continue
                    ns = o.st.notes()
                    ws = [d for t, d in ns if t == 'w']
                    rg = [d[0] for t, d in ns if t == 'register']
                    w.check(rg == [ptr('K')], 'serial', 'registers %s with the archive instead of the field' % ', '.join(map(show, rg)), o, any(x.unk for x in rg))
                    wid = mconst((1 << 31) + 1 if first else 1, 32)
                    w.check(len(ws) > 0 and ws[0][0] == 'u32' and ws[0][2] is uval(wid), 'serial', 'does not start with the identifier given by the archive', o)
                    if first:
                        roles = [role_out(k, v) for k, n, v in ws[1:]]
                        w.check(sorted(map(str, roles)) == sorted(SAVED), 'serial', 'writes %s, must be generator name, embedding, polynomial and precision of the field, once each' % ', '.join(map(str, roles)), o, any(v is None or v.unk for k, n, v in ws[1:]))
                        w.check(any(d[0] is ptr('K') for t, d in ns if t == 'construction') or None in roles, 'serial', 'the data of another field are written', o)
                        # the archive identifies fields by address, so it must keep them alive
                        w.check(ref_get(o.st, 'K') >= 2 and any(t == 'keep' for t, d in ns), 'lifetime', 'the archive remembers the address of the field without keeping the field alive, so another field at the same address would be taken for it', o)
                    else:
                        w.check(len(ws) == 1, 'serial', 'writes a field again that the archive already contains', o)
                return w.done()
            addob('eantic::save(field)', fk, save_field)

            for sig in ('load_field', 'load_field_named'):
                def load_field(fk=fk, first=first, sig=sig):
                    w = world(cp, sig, 'first time' if first else 'seen before', fk, first)
                    w.raw('self')
                    w.raw('ar')
                    w.st.wreg('self')[0] = Cell('int', ptr('T'), None, 8)
                    ref_add(w.A, w.st, 'T', 1)
                    w.raw('handle')
                    ref_add(w.A, w.st, 'K', 1)      # references of others: the handle the archive holds
                    w.st.wreg('handle')[0] = Cell('int', ptr('K'), None, 8)
                    fmt = field_format(cp) if first else None
                    idv = uval(mconst((1 << 31) + 1 if first else 1, 32))
                    for o in w.go([ptr('ar'), ptr('self')]):
                        ns = o.st.notes()
                        if o.kind == 'throw':
                            w.check(first and exc_type(o.val) == 'std::invalid_argument', 'throw', 'throws %s' % exc_type(o.val), o)
                            w.ext['K'], w.ext['T'] = 1, 2
                            w.check_resources(o, [])
                            continue
                        rs = [d for t, d in ns if t == 'r']
                        c = cell(o.st, ptr('self'))
                        w.check(c is not None and c.val is ptr('K'), 'serial', 'does not give the field that was read', o, c is not None and c.val.unk)
                        w.check(len(rs) > 0 and rs[0][0] == 'u32' and rs[0][1] in ('', 'id', 'shared'), 'serial', 'does not start by reading the identifier', o)
                        if not first:
                            w.check(len(rs) == 1, 'serial', 'reads more than the identifier of a field that was read before', o)
                            lk = [d[0] for t, d in ns if t == 'lookup']
                            w.check(lk == [idv], 'serial', 'looks up another identifier', o, any(x.unk for x in lk))
                            w.ext['K'], w.ext['T'] = 2, 1
                            w.check_resources(o, [])
                            continue
                        mks = [d for t, d in ns if t == 'make']
                        w.check(len(mks) == 1, 'serial', 'makes %d fields' % len(mks), o)
                        if len(mks) == 1:
                            where = {}
                            for i, x in enumerate(mks[0][0]):
                                where[x.id] = ('pol', 'name', 'emb')[i]
                            where[mks[0][1].id] = 'prec'
                            got = tuple((k, n, 'id' if k == 'u32' else where.get(v.id)) for k, n, v in rs)
                            if fmt is None or any(r is None for k, n, r in fmt):
                                w.check(False, 'serial', 'the written form of a field is not understood', o, True)
                            else:
                                ok = len(got) == len(fmt) and all(a[0] == b[0] and a[2] == b[2] and a[1] in ('', b[1], 'shared' if b[1] == 'id' else '') for a, b in zip(got, fmt))
                                w.check(ok, 'serial', 'reads %s but the written form is %s' % (' '.join('%s:%s' % (g[1] or g[0], g[2]) for g in got), ' '.join('%s:%s' % (g[1] or g[0], g[2]) for g in fmt)), o, any(v is not None and v.id not in where and mks[0][1].unk for k, n, v in rs))
                        rg = [d for t, d in ns if t == 'inreg']
                        w.check(len(rg) == 1 and rg[0][0] is idv and rg[0][1] is ptr('K'), 'serial', 'does not register the field that was read under its identifier', o, any(x[1] is None for x in rg))
                        w.check(ref_get(o.st, 'K') >= 3, 'lifetime', 'nothing keeps the field alive for later references to it in the archive', o)
                    return w.done()
                addob('eantic::load(field)', fk, load_field)

        def save_elem(fk=fk):
            w = world(cp, 'save_elem', 'element', fk, True)
            x, v = w.elem('x', 'K')
            w.raw('ar')
            for o in w.go([ptr('ar'), x]):
                if o.kind == 'throw':
                    w.check(False, 'throw', 'throws %s' % exc_type(o.val), o)
                    continue
                ws = [d for t, d in o.st.notes() if t == 'w']
                w.check([(k, n) for k, n, t in ws] == [('field', 'parent'), ('string', 'value')] or [k for k, n, t in ws] == ['field', 'string'], 'serial', 'writes %s, must be the field and the value' % ', '.join(str(k) for k, n, t in ws), o)
                if [k for k, n, t in ws] == ['field', 'string']:
                    w.check(ws[0][2] is ptr('K'), 'serial', 'writes another field than the parent of the element', o, ws[0][2] is None or ws[0][2].unk)
                    t = ws[1][2]
                    ok, why = textspec.elem_text_ok(o.st, t, v, atom('name_K', 'str'), 1)
                    if not ok and unpar(t) is not None:
                        ok, _ = textspec.elem_text_ok(o.st, unpar(t), v, atom('name_K', 'str'), 3)
                    w.check(ok, 'serial', 'the value is written as %s: %s' % (show(t)[:100], why), o, t.unk or 'str(' in show(t))
                w.check_elem(o, 'x', v, {'K'}, 'the element', 'operand-changed')
                w.check_resources(o, ['x'])
            return w.done()
        addob('eantic::save(element)', fk, save_elem)

        def load_elem(fk=fk):
            w = world(cp, 'load_elem', 'element', fk, True)
            A = w.A
            ref_add(A, w.st, 'K', 1)
            w.ext['K'] = 1
            x, v = w.elem('x', 'T')
            w.raw('ar')
            F = A.cxx_fields['K']
            for o in w.go([ptr('ar'), x]):
                rs = [d for t, d in o.st.notes() if t == 'r']
                w.check([k for k, n, t in rs] == ['field', 'string'] and rs[0][1] in ('', 'parent') and rs[1][1] in ('', 'value'), 'serial', 'reads %s, must be the field and the value' % ', '.join('%s %s' % (k, n) for k, n, t in rs), o)
                ps = [d for t, d in o.st.notes() if t == 'parse']
                if o.kind == 'throw':
                    w.check(exc_type(o.val) == 'std::invalid_argument', 'throw', 'throws %s' % exc_type(o.val), o)
                    w.check_elem(o, 'x', v, {'T'}, 'the element', 'operand-changed')
                    w.check_resources(o, ['x'])
                    continue
                if len(rs) == 2 and len(ps) == 1:
                    t, nm = ps[0]
                    w.check(nm is atom('name_K', 'str'), 'serial', 'the value is read with %s as the generator' % show(nm), o, nm.unk)
                    src = rs[1][2]
                    w.check(src in subterms(t), 'serial', 'parses %s, not the value that was read' % show(t)[:80], o, t.unk)
                    w.check_elem(o, 'x', mk('ev', mk('parsed', t, nm), F.alpha), {'K'}, 'the element')
                else:
                    w.check(False, 'serial', 'does not parse exactly one value', o)
                w.check_resources(o, ['x'])
            return w.done()
        addob('eantic::load(element)', fk, load_elem)
    return obs


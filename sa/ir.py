"""Minimal reader for textual LLVM-18 IR (as printed by opt -S).

Function bodies are parsed lazily.  Only what the analyses need is kept:
instructions, operands, debug locations, struct layouts and the handful of
debug-info nodes that name functions, files and parameter types.
"""
import re, functools

TOK = re.compile(r'''\s*(?:
   (c?"(?:[^"\\]|\\.)*")            # string
 | ([%@!#$](?:"(?:[^"\\]|\\.)*"|[-A-Za-z0-9$._]+))   # names
 | (-?\d+\.\d+(?:[eE][-+]?\d+)?|0x[KMLHR]?[0-9A-Fa-f]+|-?\d+)  # numbers
 | (\.\.\.)
 | ([A-Za-z_$.][-A-Za-z0-9_$.]*)          # words
 | ([(){}\[\]<>,=*:|!])
)''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'):
                break
            raise ValueError('tokenize: %r' % s[i:i + 60])
        i = m.end()
        for g in m.groups():
            if g is not None:
                out.append(g)
                break
    return out


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'a', 'n')

    def __init__(self, k, a=None, n=None):
        self.k, self.a, self.n = k, a, n

    def __repr__(self):
        return 'Ty(%s,%s,%s)' % (self.k, self.a, self.n)


PTR = Ty('ptr')
VOID = Ty('void')


class Layout:
    def __init__(self, mod):
        self.mod = mod
        self.cache = {}

    def resolve(self, t):
        if t.k == 'named':
            return self.mod.types.get(t.a, Ty('opaque'))
        return t

    def size_align(self, t):
        key = None
        if t.k == 'named':
            key = t.a
            if key in self.cache:
                return self.cache[key]
            t = self.resolve(t)
        if t.k == 'int':
            w = t.n
            b = 1
            while b * 8 < w:
                b *= 2
            r = (b, min(b, 16))
        elif t.k == 'ptr':
            r = (8, 8)
        elif t.k == 'float':
            r = {'float': (4, 4), 'double': (8, 8), 'x86_fp80': (16, 16), 'half': (2, 2), 'fp128': (16, 16)}[t.a]
        elif t.k == 'array':
            s, a = self.size_align(t.a)
            r = (s * t.n, a)
        elif t.k == 'vector':
            s, a = self.size_align(t.a)
            r = (s * t.n, s * t.n)
        elif t.k == 'struct':
            off, al = 0, 1
            for f in t.a:
                s, a = self.size_align(f)
                if t.n:  # packed
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            r = ((off + al - 1) // al * al, al)
        else:
            r = (0, 1)
        if key:
            self.cache[key] = r
        return r

    def size(self, t):
        return self.size_align(t)[0]

    def field_off(self, t, i):
        t = self.resolve(t)
        off = 0
        for j, f in enumerate(t.a):
            s, a = self.size_align(f)
            if t.n:
                a = 1
            off = (off + a - 1) // a * a
            if j == i:
                return off, f
            off += s
        raise IndexError


class Val:
    """operand: kind in reg, glob, int, null, undef, float, gep, cast, agg, zero, str, meta"""
    __slots__ = ('k', 'v', 't', 'x')

    def __init__(self, k, v=None, t=None, x=None):
        self.k, self.v, self.t, self.x = k, v, t, x

    def __repr__(self):
        return 'Val(%s,%s)' % (self.k, self.v)


class Inst:
    __slots__ = ('op', 'res', 'ty', 'args', 'x', 'dbg', 'line', 'idx')

    def __init__(self, op, res=None, ty=None, args=(), x=None, dbg=None):
        self.op, self.res, self.ty, self.args, self.x, self.dbg = op, res, ty, args, x, dbg
        self.line = None
        self.idx = None

    def __repr__(self):
        return 'Inst(%s %s %s %s)' % (self.res, self.op, self.args, self.x)


class Block:
    __slots__ = ('name', 'insts', 'succs', 'preds')

    def __init__(self, name):
        self.name = name
        self.insts = []
        self.succs = []
        self.preds = []


PARAM_ATTRS = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'readnone', 'writeonly', 'signext', 'zeroext',
               'inreg', 'returned', 'immarg', 'nofree', 'swiftself', 'nest', 'dead_on_unwind', 'writable', 'inalloca', 'allocptr', 'dead_on_return'}
PARAM_ATTRS_P = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'elementtype', 'captures', 'range', 'initializes', 'nofpclass'}
CONVS = {'ccc', 'fastcc', 'coldcc', 'tailcc', 'dso_local', 'local_unnamed_addr', 'unnamed_addr', 'internal', 'linkonce_odr',
         'weak_odr', 'weak', 'private', 'available_externally', 'external', 'hidden', 'protected', 'default', 'linkonce', 'noundef', 'extern_weak', 'common', 'appending'}


class P:
    """token cursor"""

    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        v = self.t[self.i]
        self.i += 1
        return v

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        v = self.next()
        if v != x:
            raise ValueError('expected %r got %r in %r' % (x, v, ' '.join(self.t)[:300]))

    # -- types
    def type(self):
        t = self.next()
        if t == 'void':
            r = VOID
        elif t == 'ptr':
            r = PTR
            if self.peek() == 'addrspace':
                self.next(); self.expect('('); self.next(); self.expect(')')
        elif re.fullmatch(r'i\d+', t):
            r = Ty('int', n=int(t[1:]))
        elif t in ('float', 'double', 'x86_fp80', 'half', 'fp128'):
            r = Ty('float', t)
        elif t == 'metadata' or t == 'label' or t == 'token':
            r = Ty(t)
        elif t == 'opaque':
            r = Ty('opaque')
        elif t[0] == '%':
            r = Ty('named', t[1:].strip('"'))
        elif t == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            r = Ty('array', e, n)
        elif t == '{':
            fs = []
            while not self.accept('}'):
                fs.append(self.type())
                self.accept(',')
            r = Ty('struct', fs, False)
        elif t == '<':
            if self.peek() == '{':
                self.next()
                fs = []
                while not self.accept('}'):
                    fs.append(self.type())
                    self.accept(',')
                self.expect('>')
                r = Ty('struct', fs, True)
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                r = Ty('vector', e, n)
        else:
            raise ValueError('type? %r in %s' % (t, ' '.join(self.t)[:200]))
        # function type suffix
        if self.peek() == '(':
            save = self.i
            try:
                self.next()
                ps = []
                va = False
                while not self.accept(')'):
                    if self.accept('...'):
                        va = True
                    else:
                        ps.append(self.type())
                    self.accept(',')
                r = Ty('func', (r, ps), va)
            except Exception:
                self.i = save
        return r

    def skip_attrs(self):
        while True:
            p = self.peek()
            if p in PARAM_ATTRS or (p in CONVS):
                self.next()
            elif p in PARAM_ATTRS_P:
                self.next()
                if self.peek() == '(':
                    self.skip_paren()
                elif re.fullmatch(r'\d+', self.peek() or ''):
                    self.next()
            else:
                return

    def skip_paren(self):
        self.expect('(')
        d = 1
        while d:
            t = self.next()
            if t == '(':
                d += 1
            elif t == ')':
                d -= 1

    # -- values
    def value(self, ty):
        t = self.next()
        c = t[0]
        if c == '%':
            return Val('reg', t[1:].strip('"'), ty)
        if c == '@':
            return Val('glob', t[1:].strip('"'), ty)
        if c == '!':
            return Val('meta', t, ty)
        if t == 'null':
            return Val('null', None, ty)
        if t in ('undef', 'poison'):
            return Val('undef', None, ty)
        if t == 'true':
            return Val('int', 1, ty)
        if t == 'false':
            return Val('int', 0, ty)
        if t == 'zeroinitializer':
            return Val('zero', None, ty)
        if t == 'none':
            return Val('undef', None, ty)
        if ty.k == 'float':
            return Val('float', t, ty)
        if re.fullmatch(r'-?\d+', t):
            return Val('int', int(t), ty)
        if t == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw'):
                self.next()
            self.expect('(')
            bt = self.type()
            self.expect(',')
            self.type()
            base = self.value(PTR)
            idx = []
            while self.accept(','):
                self.accept('inrange')
                it = self.type()
                idx.append(self.value(it))
            self.expect(')')
            return Val('gep', base, ty, (bt, idx))
        if t in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            self.expect('(')
            ft = self.type()
            v = self.value(ft)
            self.expect('to')
            self.type()
            self.expect(')')
            return Val('cast', v, ty, t)
        if c == 'c' and t[1:2] == '"':
            return Val('str', t[2:-1], ty)
        if t in ('{', '[', '<'):
            close = {'{': '}', '[': ']', '<': '>'}[t]
            if t == '<' and self.peek() == '{':
                self.next()
                close = '}'
            els = []
            while not self.accept(close):
                et = self.type()
                els.append(self.value(et))
                self.accept(',')
            if t == '<' and close == '}':
                self.expect('>')
            return Val('agg', els, ty)
        if t == 'blockaddress' or t == 'dso_local_equivalent' or t == 'no_cfi':
            self.skip_paren() if self.peek() == '(' else self.next()
            return Val('undef', None, ty)
        if t in ('add', 'sub', 'mul', 'icmp', 'select', 'and', 'or', 'xor', 'shl'):
            while self.peek() != '(':
                self.next()
            self.skip_paren()
            return Val('undef', None, ty)
        if c == '"' or t == 'asm':
            return Val('undef', None, ty)
        raise ValueError('value? %r in %s' % (t, ' '.join(self.t)[:300]))

    def tv(self):
        ty = self.type()
        self.skip_attrs()
        return self.value(ty)


class Function:
    def __init__(self, mod, name, header, lines, linkage):
        self.mod = mod
        self.name = name
        self.header = header
        self.lines = lines
        self.linkage = linkage
        self._parsed = False
        self.dbg = None
        m = re.search(r'!dbg (!\d+)', header)
        if m:
            self.dbg = m.group(1)
        self._loc = None

    # source location from debug info
    @property
    def file(self):
        return self._di()[0]

    @property
    def srcname(self):
        return self._di()[1]

    @property
    def linkname(self):
        return self._di()[2]

    @property
    def srcline(self):
        return self._di()[3]

    def _di(self):
        if self._loc is None:
            f = n = l = ''
            ln = 0
            if self.dbg:
                d = self.mod.meta(self.dbg)
                f = self.mod.di_file(d.get('file'))
                n = d.get('name', '').strip('"')
                l = d.get('linkageName', '').strip('"')
                ln = int(d.get('line', '0'))
            self._loc = (f, n, l, ln)
        return self._loc

    def param_types(self):
        """[(pointer-depth, base-name, const?)] from debug info (incl. implicit this)."""
        d = self.mod.meta(self.dbg) if self.dbg else {}
        st = self.mod.meta(d.get('type', ''))
        types = self.mod.meta_list(st.get('types', ''))
        return [self.mod.di_type(x) for x in types]

    def parse(self):
        if self._parsed:
            return self
        self._parsed = True
        p = P(tokenize(self.header))
        p.expect('define')
        p.skip_attrs()
        while p.peek() in CONVS or p.peek() in PARAM_ATTRS:
            p.next()
        p.skip_attrs()
        self.retty = p.type()
        if self.retty.k == 'func':
            self.retty = self.retty.a[0]
        g = p.next()
        assert g[0] == '@', g
        p.expect('(')
        self.params = []
        self.sret = None
        self.vararg = False
        k = 0
        while not p.accept(')'):
            if p.accept('...'):
                self.vararg = True
                continue
            ty = p.type()
            i0 = p.i
            p.skip_attrs()
            attrs = p.t[i0:p.i]
            if p.peek() and p.peek()[0] == '%':
                nm = p.next()[1:].strip('"')
            else:
                nm = str(k)
            if 'sret' in attrs:
                self.sret = k
            self.params.append((nm, ty))
            k += 1
            p.accept(',')
        self.blocks = {}
        self.order = []
        nparams = len(self.params)
        cur = None
        lines = self.lines
        i = 0
        while i < len(lines):
            ln = lines[i]
            i += 1
            if not ln.strip() or ln.lstrip().startswith(';'):
                continue
            if not ln.startswith(' '):
                m = re.match(r'^("?)([-A-Za-z0-9$._]+)"?:', ln)
                if m:
                    cur = Block(m.group(2))
                    self.blocks[cur.name] = cur
                    self.order.append(cur)
                continue
            if cur is None:
                cur = Block(self._entry_name(nparams))
                self.blocks[cur.name] = cur
                self.order.append(cur)
            s = ln.strip()
            # multi-line: switch [ ... ], invoke ... to, landingpad clauses
            if re.search(r'(^|= )(switch)\b', s) and not s.rstrip().endswith(']') and ']' not in s:
                while ']' not in lines[i]:
                    s += ' ' + lines[i].strip(); i += 1
                s += ' ' + lines[i].strip(); i += 1
            elif re.search(r'(^|= )invoke\b', s) and ' unwind label' not in s:
                s += ' ' + lines[i].strip(); i += 1
            elif re.search(r'= landingpad\b', s):
                while i < len(lines) and re.match(r'^\s+(cleanup|catch|filter)', lines[i]):
                    s += ' ' + lines[i].strip(); i += 1
            inst = self._inst(s)
            if inst is not None:
                inst.idx = len(cur.insts)
                cur.insts.append(inst)
        for b in self.order:
            t = b.insts[-1]
            if t.op == 'br':
                b.succs = list(t.x)
            elif t.op == 'switch':
                b.succs = [t.x[0]] + [l for _, l in t.x[1]]
            elif t.op == 'invoke':
                b.succs = [t.x['normal'], t.x['unwind']]
            else:
                b.succs = []
        for b in self.order:
            for s in b.succs:
                self.blocks[s].preds.append(b.name)
        return self

    def _entry_name(self, nparams):
        # numbered: the entry block takes the next unnamed slot
        n = 0
        for nm, _ in self.params:
            if nm.isdigit():
                n += 1
        return str(n)

    def _inst(self, s):
        dbg = None
        m = re.search(r', !dbg (!\d+)', s)
        if m:
            dbg = m.group(1)
            s = s[:m.start()] + s[m.end():]
        s = re.sub(r', !(?!dbg)[a-zA-Z_.]+ ![0-9]+', '', s)
        s = re.sub(r'\s+;.*$', '', s)
        if 'llvm.dbg.value' in s or 'llvm.dbg.label' in s or 'llvm.lifetime' in s or 'llvm.experimental.noalias' in s:
            return None
        if 'llvm.dbg.declare' in s:
            mm = re.search(r'metadata ptr %("?[-\w.$]+"?), metadata (!\d+)', s)
            if mm:
                d = self.mod.meta(mm.group(2))
                if not hasattr(self, 'varnames'):
                    self.varnames = {}
                self.varnames[mm.group(1).strip('"')] = d.get('name', '').strip('"')
            return None
        res = None
        m = re.match(r'^%("?[-\w.$]+"?) = ', s)
        if m:
            res = m.group(1).strip('"')
            s = s[m.end():]
        p = P(tokenize(s))
        op = p.next()
        while op in ('tail', 'musttail', 'notail'):
            op = p.next()
        I = Inst(op, res, dbg=dbg)
        if op == 'alloca':
            p.accept('inalloca')
            I.ty = p.type()
            I.x = None
            if p.accept(','):
                if p.peek() not in ('align',):
                    I.x = p.tv()
        elif op == 'load':
            I.x = {'atomic': p.accept('atomic')}
            if p.accept('volatile'):
                pass
            I.ty = p.type()
            p.expect(',')
            I.args = [p.tv()]
            if I.x['atomic']:
                I.x['order'] = [w for w in p.t[p.i:] if w in ('monotonic', 'acquire', 'seq_cst')]
        elif op == 'store':
            I.x = {'atomic': p.accept('atomic')}
            p.accept('volatile')
            v = p.tv()
            p.expect(',')
            I.args = [v, p.tv()]
        elif op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                p.next()
            I.ty = p.type()
            p.expect(',')
            base = p.tv()
            idx = []
            while p.accept(','):
                idx.append(p.tv())
            I.args = [base] + idx
        elif op in ('call', 'invoke'):
            while p.peek() in CONVS or p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'contract', 'reassoc', 'afn', 'arcp'):
                p.next()
            p.skip_attrs()
            ty = p.type()
            if ty.k == 'func':
                I.ty = ty.a[0]
            else:
                I.ty = ty
            if p.peek() == 'asm':
                while p.peek() != '(':
                    p.next()
                callee = Val('undef', None, PTR)
            else:
                callee = p.value(PTR)
            p.expect('(')
            args = []
            while not p.accept(')'):
                t = p.type()
                p.skip_attrs()
                if t.k == 'metadata':
                    args.append(Val('meta', None, t))
                    d = 0
                    while not (d == 0 and p.peek() in (',', ')')):
                        q = p.next()
                        if q == '(':
                            d += 1
                        elif q == ')':
                            d -= 1
                else:
                    args.append(p.value(t))
                p.accept(',')
            I.args = args
            I.x = {'callee': callee}
            if op == 'invoke':
                while p.peek() != 'to':
                    p.next()
                p.expect('to'); p.expect('label')
                I.x['normal'] = p.next()[1:].strip('"')
                p.expect('unwind'); p.expect('label')
                I.x['unwind'] = p.next()[1:].strip('"')
        elif op == 'br':
            if p.peek() == 'label':
                p.next()
                I.x = [p.next()[1:].strip('"')]
            else:
                c = p.tv()
                p.expect(','); p.expect('label')
                a = p.next()[1:].strip('"')
                p.expect(','); p.expect('label')
                b = p.next()[1:].strip('"')
                I.args = [c]
                I.x = [a, b]
        elif op == 'switch':
            c = p.tv()
            p.expect(','); p.expect('label')
            d = p.next()[1:].strip('"')
            p.expect('[')
            cases = []
            while not p.accept(']'):
                v = p.tv()
                p.expect(','); p.expect('label')
                cases.append((v.v, p.next()[1:].strip('"')))
            I.args = [c]
            I.x = (d, cases)
        elif op == 'ret':
            if p.peek() == 'void':
                I.args = []
            else:
                I.args = [p.tv()]
        elif op in ('icmp', 'fcmp'):
            while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'contract', 'reassoc', 'afn', 'arcp'):
                p.next()
            I.x = p.next()
            ty = p.type()
            a = p.value(ty)
            p.expect(',')
            b = p.value(ty)
            I.ty = Ty('int', n=1)
            I.args = [a, b]
        elif op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
                    'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            fl = set()
            while p.peek() in ('nsw', 'nuw', 'exact', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'contract', 'reassoc', 'afn', 'arcp'):
                fl.add(p.next())
            I.ty = p.type()
            a = p.value(I.ty)
            p.expect(',')
            b = p.value(I.ty)
            I.args = [a, b]
            I.x = fl
        elif op in ('sext', 'zext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'addrspacecast'):
            while p.peek() in ('nneg', 'nsw', 'nuw'):
                p.next()
            v = p.tv()
            p.expect('to')
            I.ty = p.type()
            I.args = [v]
        elif op in ('fneg', 'freeze'):
            while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'contract', 'reassoc', 'afn', 'arcp'):
                p.next()
            v = p.tv()
            I.ty = v.t
            I.args = [v]
        elif op == 'phi':
            I.ty = p.type()
            inc = []
            while True:
                p.expect('[')
                v = p.value(I.ty)
                p.expect(',')
                b = p.next()[1:].strip('"')
                p.expect(']')
                inc.append((v, b))
                if not p.accept(','):
                    break
            I.x = inc
        elif op == 'select':
            c = p.tv(); p.expect(',')
            a = p.tv(); p.expect(',')
            b = p.tv()
            I.ty = a.t
            I.args = [c, a, b]
        elif op == 'extractvalue':
            v = p.tv()
            idx = []
            while p.accept(','):
                idx.append(int(p.next()))
            I.args = [v]
            I.x = idx
            t = v.t
            I.ty = t
        elif op == 'insertvalue':
            v = p.tv(); p.expect(',')
            e = p.tv()
            idx = []
            while p.accept(','):
                idx.append(int(p.next()))
            I.args = [v, e]
            I.x = idx
            I.ty = v.t
        elif op == 'landingpad':
            I.ty = p.type()
            cl = []
            while p.peek() is not None:
                w = p.next()
                if w == 'cleanup':
                    cl.append(('cleanup', None))
                elif w == 'catch':
                    v = p.tv()
                    cl.append(('catch', v))
                elif w == 'filter':
                    v = p.tv()
                    cl.append(('filter', v))
            I.x = cl
        elif op == 'resume':
            I.args = [p.tv()]
        elif op == 'atomicrmw':
            p.accept('volatile')
            I.x = {'rmw': p.next()}
            a = p.tv(); p.expect(',')
            b = p.tv()
            rest = p.t[p.i:]
            I.x['order'] = [w for w in rest if w in ('monotonic', 'acquire', 'release', 'acq_rel', 'seq_cst')]
            I.ty = b.t
            I.args = [a, b]
        elif op == 'cmpxchg':
            I.x = {'weak': p.accept('weak')}
            p.accept('volatile')
            a = p.tv(); p.expect(',')
            b = p.tv(); p.expect(',')
            c = p.tv()
            rest = p.t[p.i:]
            I.x['order'] = [w for w in rest if w in ('monotonic', 'acquire', 'release', 'acq_rel', 'seq_cst')]
            I.ty = Ty('struct', [b.t, Ty('int', n=1)], False)
            I.args = [a, b, c]
        elif op == 'fence':
            I.x = {'order': p.t[p.i:]}
        elif op == 'unreachable':
            pass
        else:
            I.x = p.t[p.i:]
        return I

    def line_of(self, inst):
        """(file, line) of an instruction, following inlinedAt is unnecessary at -O0"""
        if not inst.dbg:
            return (self.file, self.srcline)
        d = self.mod.meta(inst.dbg)
        f = self.mod.scope_file(d.get('scope')) or self.file
        return (f, int(d.get('line', '0')))


class Module:
    def __init__(self, path_or_text, name=None, text=None):
        if text is None:
            with open(path_or_text) as fh:
                text = fh.read()
        self.name = name or path_or_text
        self.functions = {}
        self.declares = {}
        self.globals = {}
        self.types = {}
        self.aliases = {}
        self._meta_raw = {}
        self._meta = {}
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith('define '):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)\s*\(', ln)
                nm = m.group(1).strip('"')
                j = i + 1
                while lines[j] != '}':
                    j += 1
                lk = ln[7:m.start()]
                self.functions[nm] = Function(self, nm, ln.rsplit('{', 1)[0], lines[i + 1:j], lk)
                i = j + 1
                continue
            if ln.startswith('declare '):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)\s*\(', ln)
                self.declares[m.group(1).strip('"')] = ln
            elif ln.startswith('%') and ' = type ' in ln:
                nm, ty = ln.split(' = type ', 1)
                self.types[nm[1:].strip('"')] = P(tokenize(ty)).type()
            elif ln.startswith('@'):
                m = re.match(r'^@("(?:[^"\\]|\\.)*"|[-\w.$]+) = (.*)$', ln)
                nm = m.group(1).strip('"')
                body = m.group(2)
                if re.search(r'\balias\b', body.split('"')[0]):
                    mm = re.findall(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)', body)
                    if mm:
                        self.aliases[nm] = mm[-1].strip('"')
                else:
                    self.globals[nm] = body
            elif ln.startswith('!') and ' = ' in ln:
                k, v = ln.split(' = ', 1)
                self._meta_raw[k] = v
            i += 1
        self.layout = Layout(self)

    def meta(self, ref):
        """parse a metadata node into dict (with '_kind')"""
        if not ref:
            return {}
        ref = ref.strip()
        if ref in self._meta:
            return self._meta[ref]
        raw = self._meta_raw.get(ref)
        d = {}
        if raw:
            raw = re.sub(r'^distinct ', '', raw)
            m = re.match(r'^!(DI\w+)\((.*)\)$', raw, re.S)
            if m:
                d['_kind'] = m.group(1)
                for mm in re.finditer(r'(\w+): ((?:"(?:[^"\\]|\\.)*")|[^,]+)', m.group(2)):
                    d[mm.group(1)] = mm.group(2).strip()
            else:
                d['_kind'] = 'list'
                d['_raw'] = raw
        self._meta[ref] = d
        return d

    def meta_list(self, ref):
        d = self.meta(ref)
        raw = d.get('_raw', '')
        m = re.match(r'^!\{(.*)\}$', raw, re.S)
        if not m:
            return []
        return [x.strip() for x in m.group(1).split(',')] if m.group(1).strip() else []

    def di_file(self, ref):
        d = self.meta(ref)
        fn = d.get('filename', '').strip('"')
        dr = d.get('directory', '').strip('"')
        if fn and not fn.startswith('/') and dr:
            fn = dr + '/' + fn
        import os.path
        return os.path.normpath(fn) if fn else ''

    def scope_file(self, ref):
        seen = 0
        while ref and seen < 20:
            d = self.meta(ref)
            if 'file' in d:
                return self.di_file(d['file'])
            ref = d.get('scope')
            seen += 1
        return ''

    @functools.lru_cache(None)
    def di_type(self, ref):
        """-> (pointer depth, name, const) ; name is innermost typedef/struct name"""
        depth = 0
        const = False
        name = None
        guard = 0
        while ref and ref != 'null' and guard < 30:
            guard += 1
            d = self.meta(ref)
            k = d.get('_kind')
            tag = d.get('tag', '')
            if k == 'DIDerivedType':
                if tag in ('DW_TAG_pointer_type', 'DW_TAG_reference_type', 'DW_TAG_rvalue_reference_type'):
                    depth += 1
                    const = False
                elif tag == 'DW_TAG_const_type':
                    const = True
                elif tag == 'DW_TAG_typedef':
                    nm = d.get('name', '').strip('"')
                    if nm in ('fmpz', 'slong', 'ulong', 'mp_limb_t', 'arf_rnd_t', 'mp_limb_signed_t', 'mp_bitcnt_t'):
                        return (depth, nm, const)
                ref = d.get('baseType')
                if ref is None:
                    return (depth, 'void', const)
            elif k == 'DICompositeType':
                if tag == 'DW_TAG_array_type':
                    depth_arr = True
                    ref = d.get('baseType')
                    continue
                name = d.get('name', '').strip('"') or d.get('identifier', '').strip('"')
                return (depth, name, const)
            elif k == 'DIBasicType':
                return (depth, d.get('name', '').strip('"'), const)
            elif k == 'DISubroutineType':
                return (depth, 'func', const)
            else:
                return (depth, '?', const)
        return (depth, 'void', const)

    def find(self, name):
        name = self.aliases.get(name, name)
        return self.functions.get(name)

"""Abstract texts: literals, concatenations, printed values; lengths and buffer bounds."""
from .terms import *


def lit(s):
    return mk('lit', s)


def scat(a, b):
    if a.op == 'lit' and b.op == 'lit':
        return mk('lit', a.args[0] + b.args[0])
    if a.op == 'lit' and a.args[0] == '':
        return b
    if b.op == 'lit' and b.args[0] == '':
        return a
    if b.op == 'concat':
        return scat(scat(a, b.args[0]), b.args[1])
    if a.op == 'concat' and a.args[1].op == 'lit' and b.op == 'lit':
        return mk('concat', a.args[0], mk('lit', a.args[1].args[0] + b.args[0]))
    return mk('concat', a, b)


def prefix(t, n):
    """the first n characters"""
    if isint(n) and n.args[0] == 0:
        return lit('')
    if t.op == 'lit' and isint(n):
        return lit(t.args[0][:n.args[0]])
    if t.op == 'prefix' and t.args[1] is n:
        return t
    if t.op == 'concat' and isint(n) and n.args[0] > 0:
        r, k = None, n.args[0]
        for x in parts(t):
            if k == 0:
                break
            if x.op == 'lit':
                y = lit(x.args[0][:k])
                k -= len(y.args[0])
            elif x.op == 'chr':
                y = x
                k -= 1
            else:
                break
            r = y if r is None else scat(r, y)
        else:
            return t
        if k == 0 and r is not None:
            return r
    if same_len(tlen(t), n):
        return t
    return mk('prefix', t, n)


def parts(t):
    """concatenation as a list"""
    if t.op == 'concat':
        return parts(t.args[0]) + parts(t.args[1])
    return [t]


def tlen(t):
    if t.op == 'lit':
        return I(len(t.args[0]))
    if t.op == 'concat':
        return add(tlen(t.args[0]), tlen(t.args[1]))
    if t.op == 'chr':
        return I(1)
    if t.op == 'prefix':
        return t.args[1]
    if t.op == 'suffix':
        return sub(tlen(t.args[0]), t.args[1])
    return mk('slen', t)


def lin(t, k=1, out=None):
    """linear form {atom: coefficient}, constant under None; sizes are taken not to wrap around"""
    out = {} if out is None else out
    if isint(t):
        out[None] = out.get(None, 0) + k * t.args[0]
    elif t.op == 'add':
        lin(t.args[0], k, out)
        lin(t.args[1], k, out)
    elif t.op == 'sub':
        lin(t.args[0], k, out)
        lin(t.args[1], -k, out)
    elif t.op == 'neg':
        lin(t.args[0], -k, out)
    elif t.op == 'mul' and isint(t.args[0]):
        lin(t.args[1], k * t.args[0].args[0], out)
    elif t.op == 'mul' and isint(t.args[1]):
        lin(t.args[0], k * t.args[1].args[0], out)
    elif t.op in ('U', 'S') and t.args[0].op == 'mop' and t.args[0].args[0] in ('add', 'sub', 'mul'):
        o, w, fl, a, b = t.args[0].args
        if o == 'add':
            lin(uval(a), k, out)
            lin(uval(b), k, out)
        elif o == 'sub':
            lin(uval(a), k, out)
            lin(uval(b), -k, out)
        elif a.op == 'mi':
            lin(uval(b), k * a.args[0], out)
        elif b.op == 'mi':
            lin(uval(a), k * b.args[0], out)
        else:
            out[t] = out.get(t, 0) + k
    elif t.op == 'U' and t.args[0].op == 'tomach':
        lin(t.args[0].args[0], k, out)
    elif t.op == 'U' and t.args[0].op in ('sext', 'zext'):
        lin(mk('U', t.args[0].args[0]), k, out)
    elif t.op == 'strlen1':
        lin(tlen(t.args[0]), k, out)
        out[None] = out.get(None, 0) + k
    elif t.op == 'slen' and t.args[0].op in ('lit', 'concat', 'prefix', 'suffix'):
        lin(tlen(t.args[0]), k, out)
    else:
        out[t] = out.get(t, 0) + k
    return out


def same_len(a, b):
    d = lin(a)
    lin(b, -1, d)
    return all(v == 0 for v in d.values())


def fits(size, need):
    """True / False / None: need <= size for all texts"""
    d = lin(size)
    lin(need, -1, d)
    c = d.pop(None, 0)
    unk = any(t.unk for t, v in d.items() if v)
    ok = c >= 0 and all(v >= 0 for v in d.values())
    if ok:
        return True
    # positions found inside a text are smaller than its length
    for t, v in list(d.items()):
        if v < 0 and t.op == 'pos':
            L = mk('slen', t.args[0])
            if d.get(L, 0) >= -v:
                d[L] += v
                d[t] = 0
                c += -v
    if c >= 0 and all(v >= 0 for v in d.values()):
        return True
    return None if unk or any(t.op not in ('slen', 'pos') for t, v in d.items() if v) else False

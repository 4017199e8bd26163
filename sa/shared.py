"""Objects with static storage duration that the library's code can modify (type-checked syntax tree).

For every variable of the library with static storage that is neither constant nor thread local, each reference to it is
classified by the conversions clang has inserted around it: a read (lvalue-to-rvalue conversion, conversion to const, call
of a const member function) or a modification. Modifications are accepted only for objects that synchronise (mutexes,
atomics) and while a scoped lock is held."""
import json, os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from . import build

SYNC = re.compile(r'\b(mutex|recursive_mutex|shared_mutex|timed_mutex|atomic\w*|once_flag|condition_variable)\b')
LOCK = re.compile(r'\b(lock_guard|unique_lock|scoped_lock|shared_lock)\b')
UNSAFE = {'strtok', 'rand', 'srand', 'random', 'srandom', 'drand48', 'lrand48', 'mrand48', 'localtime', 'gmtime', 'ctime', 'asctime', 'strerror', 'setlocale', 'tmpnam',
          'ecvt', 'fcvt', 'gcvt', 'lgamma', 'setenv', 'putenv', 'unsetenv', 'mp_set_memory_functions', '__gmp_set_memory_functions', 'flint_set_num_threads', 'flint_cleanup_master', 'hcreate', 'hsearch'}


def _dump(src, filt, flags):
    cc = [build.CLANGXX, '-std=c++17', '-I' + build.LIB + '/srcxx'] if src.endswith('.cpp') else [build.CLANG, '-std=gnu11']
    cmd = cc + ['-w', '-fsyntax-only'] + flags + ['-Xclang', '-ast-dump=json']
    if filt:
        cmd += ['-Xclang', '-ast-dump-filter=' + filt]
    p = subprocess.run(cmd + [src], capture_output=True, text=True)
    if p.returncode:
        raise build.BuildError(p.stderr[:600])
    out, dec, i, t = [], json.JSONDecoder(), 0, p.stdout
    while True:
        while i < len(t) and t[i] != '{':
            i = t.find('{', i) if t.find('{', i) >= 0 else len(t)
        if i >= len(t):
            break
        v, i = dec.raw_decode(t, i)
        out.append(v)
    return out


class Tree:
    def __init__(self, roots):
        self.vars, self.refs, self.calls, self.fns = {}, [], [], {}
        for r in roots:
            self._walk(r, [], None)

    def _walk(self, n, path, fn):
        if not isinstance(n, dict) or 'kind' not in n:
            return
        k = n['kind']
        if k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
            fn = n
            self.fns[n.get('id')] = n
        if k == 'VarDecl':
            st = n.get('storageClass')
            inside = any(p['kind'] in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl', 'LambdaExpr') for p in path)
            if st in ('static', 'extern') or not inside:
                if not n.get('tls'):
                    self.vars[n['id']] = n
        if k == 'DeclRefExpr':
            r = n.get('referencedDecl', {})
            if r.get('kind') == 'VarDecl':
                self.refs.append((r['id'], n, list(path), fn))
            elif r.get('kind') in ('FunctionDecl', 'CXXMethodDecl'):
                self.calls.append((r['id'], n, list(path), fn))
        path.append(n)
        for c in n.get('inner', ()):
            self._walk(c, path, fn)
        path.pop()


def _const(ty):
    ty = ty.strip()
    if re.search(r'\*\s*const$', ty) or (ty.startswith('const ') and '*' not in ty):
        return True
    m = re.match(r'(.*?)(\[[^\]]*\])+$', ty)
    return bool(m) and _const(m.group(1))


def _constpointee(ty):
    """pointer or reference whose target cannot be written through it"""
    ty = ty.strip()
    return ty.startswith('const ') and ty.count('*') <= 1


def classify(ref, path):
    """'read', 'write' or None (unknown context)"""
    cur = ref
    ptr_ = False
    for p in reversed(path):
        k = p['kind']
        ty = p.get('type', {}).get('desugaredQualType') or p.get('type', {}).get('qualType', '')
        if k in ('ParenExpr', 'MemberExpr', 'MaterializeTemporaryExpr', 'ConstantExpr', 'ExprWithCleanups', 'ConditionalOperator'):
            if k == 'ConditionalOperator' and p['inner'][0] is cur:
                return 'read'
            if k == 'MemberExpr' and p.get('isArrow') and not ptr_:
                pass
        elif k == 'ImplicitCastExpr' or k in ('CStyleCastExpr', 'CXXStaticCastExpr', 'CXXConstCastExpr', 'CXXReinterpretCastExpr', 'CXXFunctionalCastExpr'):
            ck = p.get('castKind')
            if ck == 'LValueToRValue':
                if not ptr_:
                    if '*' in ty and not _constpointee(ty):
                        ptr_ = True      # a pointer to something that can be written
                    else:
                        return 'read'
            elif ck == 'ArrayToPointerDecay':
                ptr_ = True
                if _constpointee(ty):
                    return 'read'
            elif ck in ('NoOp', 'BitCast', 'DerivedToBase', 'UncheckedDerivedToBase'):
                if ptr_ and _constpointee(ty):
                    return 'read'
                if not ptr_ and ty.startswith('const ') and k != 'CXXConstCastExpr':
                    return 'read'
            elif ck in ('PointerToBoolean', 'PointerToIntegral', 'ToVoid'):
                return 'read'
        elif k == 'UnaryOperator':
            o = p.get('opcode')
            if o in ('++', '--'):
                return 'write'
            if o == '&':
                ptr_ = True
                if _constpointee(ty):
                    return 'read'
            elif o == '*':
                ptr_ = False
            elif o in ('!', '-', '+', '~'):
                return 'read'
        elif k == 'ArraySubscriptExpr':
            ptr_ = False
        elif k == 'BinaryOperator':
            o = p.get('opcode')
            if o == '=':
                if p['inner'][0] is cur:
                    return 'write'
                return None
            if o in ('==', '!=', '<', '>', '<=', '>=', '&&', '||'):
                return 'read'
            if o == ',':
                if p['inner'][0] is cur:
                    return 'read'
            elif not ptr_:
                return 'read'
        elif k == 'CompoundAssignOperator':
            return 'write' if p['inner'][0] is cur else 'read'
        elif k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr', 'CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CXXNewExpr'):
            return 'write'          # bound to something that is not const
        elif k in ('UnaryExprOrTypeTraitExpr', 'CXXNoexceptExpr', 'CXXTypeidExpr', 'DecltypeType'):
            return 'read'
        elif k in ('CompoundStmt', 'IfStmt', 'WhileStmt', 'ForStmt', 'DoStmt', 'SwitchStmt'):
            return 'read'           # value not used
        elif k == 'ReturnStmt':
            return 'write' if ptr_ else None
        elif k == 'VarDecl':
            t = p.get('type', {}).get('qualType', '')
            return None if ('&' in t or '*' in t) and not t.startswith('const ') else 'read'
        else:
            return None
        cur = p
    return None


def locked(tree, path, fn, seen=()):
    """a scoped lock is held at this node, or at every call of the function it is in"""
    child = None
    for p in reversed(path):
        if p['kind'] == 'CompoundStmt' and child is not None:
            for c in p.get('inner', ()):
                if c is child:
                    break
                if c.get('kind') == 'DeclStmt' and any(LOCK.search(v.get('type', {}).get('qualType', '')) for v in c.get('inner', ())):
                    return True
        child = p
    if fn is None or fn.get('id') in seen:
        return False
    ids = {fn.get('id'), fn.get('previousDecl')}
    cs = [c for c in tree.calls if c[0] in ids]
    return bool(cs) and fn.get('storageClass') == 'static' and all(locked(tree, c[2], c[3], seen + (fn.get('id'),)) for c in cs)


def _line(n):
    for k in ('loc', 'range'):
        v = n.get(k, {})
        v = v.get('begin', v)
        v = v.get('expansionLoc', v)
        if 'line' in v:
            return v['line']
    return None


def _off(n):
    v = n.get('range', {}).get('begin', {})
    v = v.get('expansionLoc', v)
    return v.get('offset')


def run(prog_globals, d):
    """prog_globals: {source: has mutable globals}; -> (vars, reads, writes, problems, unknown)"""
    flags = build.prepare(d)
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/clients/'
    jobs = [(f, x) for f in build.cxx_sources() + [here + 'serial.cpp', here + 'stream.cpp'] for x in ('eantic', 'hash')]
    jobs += [(f, '') for f in prog_globals]
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: _dump(j[0], j[1], flags), jobs))
    by = {}
    for (f, x), r in zip(jobs, res):
        by.setdefault(f, []).extend(r)
    nv = nr = nw = 0
    bad, unk = [], []
    for f, roots in by.items():
        t = Tree(roots)
        rel = os.path.relpath(f, build.REPO)
        text = open(f, 'rb').read()
        for i, v in t.vars.items():
            ty = v.get('type', {}).get('desugaredQualType') or v.get('type', {}).get('qualType', '')
            if _const(ty) or v.get('constexpr') or 'renf_class *' in ty and ('set<' in ty or 'map<' in ty or 'vector<' in ty):
                continue
            if f.endswith('.c') and v.get('storageClass') == 'extern':
                continue
            nv += 1
            if SYNC.search(ty):
                continue
            for rid, n, path, fn in t.refs:
                if rid != i:
                    continue
                c = classify(n, path)
                off = _off(n)
                where = '%s:%s' % (rel, text[:off].count(b'\n') + 1 if off is not None else '?')
                fname = fn.get('name') if fn else '(initialiser)'
                if c == 'read' or fn is None:
                    nr += 1
                elif locked(t, path, fn):
                    nw += 1
                elif c == 'write':
                    bad.append((v.get('name'), ty, fname, where))
                else:
                    unk.append((v.get('name'), ty, fname, where))
    return nv, nr, nw, bad, unk

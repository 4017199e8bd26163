"""One check run: the working tree compiled to IR, and obligation results computed at most once."""
import os, shutil, time, traceback
from . import build, ir, interp, specs, roots, special, typestate, flint, cxx, cxxspec, cxxser, cxxop, textspec, isolate, parse, stream
from .specs import S


class Ctx:
    def __init__(self, tier='quick'):
        self.tier = tier
        self.dir = None
        self._prog = None
        self._cx = None
        self.memo = {}
        self.cmods = self.xmods = None

    def close(self):
        if self.dir and os.path.basename(self.dir).startswith('eantic-sa-'):
            shutil.rmtree(self.dir, ignore_errors=True)

    def compile(self, cxx=False):
        if self.dir is None:
            self.dir = build.scratch()
        if self.cmods is None:
            ps = build.compile_to(self.dir, cxx=cxx)
            self.cmods = build.load([p for p in ps if not p.endswith('.cpp.ll')])
            self.xmods = build.load([p for p in ps if p.endswith('.cpp.ll')]) if cxx else None
        if cxx and self.xmods is None:
            self.xmods = build.load(build.compile_to(self.dir, c=False))

    @property
    def prog(self):
        if self._prog is None:
            self.compile()
            self._prog = interp.Program(self.cmods)
            for m in self.cmods:
                specs.set_layout(m)
        return self._prog

    @property
    def cxxprog(self):
        if self._cx is None:
            self.compile(True)
            self._cx = cxx.CxxProg(self.cmods + self.xmods)
        return self._cx

    def cxx_results(self, groups):
        """results of the C++ obligations of the given groups"""
        if 'cxxobs' not in self.memo:
            self.memo['cxxobs'] = cxxspec.table(self.cxxprog)
        out = []
        for i, o in enumerate(self.memo['cxxobs']):
            if o.group in groups:
                k = ('x', i)
                if k not in self.memo:
                    self.memo[k] = self._guard(o.run, o.name, o.label, ())
                out.append(self.memo[k])
        return out

    def client(self, name):
        """program extended by clients/<name>; a Result explaining why when it cannot be compiled"""
        k = ('client', name)
        if k not in self.memo:
            self.compile(True)
            src = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'clients', name)
            try:
                ps = build.compile_to(self.dir, c=False, cxx=False, extra=[(src, [build.CLANGXX, '-std=c++17'])])
                self.memo[k] = cxx.CxxProg(self.cmods + self.xmods + build.load(ps)), None
            except build.BuildError as e:
                R = roots.Result(name, 'any', ())
                R.undecided.append(('client', 'cannot be instantiated: %s' % str(e)[:200], '', []))
                self.memo[k] = None, R
        return self.memo[k]

    def serial_results(self):
        """obligations of the serialization templates, instantiated by clients/serial.cpp"""
        if 'ser' not in self.memo:
            cp, R = self.client('serial.cpp')
            self.memo['ser'] = [self._guard(run, n, l, ()) for n, l, run in cxxser.table(cp)] if cp else [R]
        return self.memo['ser']

    def op_results(self, groups):
        """obligations of the operators as users write them, instantiated by clients/operators.cpp"""
        cp, R = self.client('operators.cpp')
        if not cp:
            return [R]
        if 'ops' not in self.memo:
            self.memo['ops'] = cxxop.table(cp)
        out = []
        for i, o in enumerate(self.memo['ops']):
            if o.group in groups:
                k = ('o', i)
                if k not in self.memo:
                    self.memo[k] = self._guard(o.run, o.name, o.label, ())
                out.append(self.memo[k])
        return out

    # ---- engine results
    def contract(self, name, kind, alias, rnd=None):
        k = ('c', name, kind, alias, rnd)
        if k not in self.memo:
            self.memo[k] = self._guard(lambda: roots.run_contract(self.prog, name, kind, alias, rnd=rnd), name, kind, alias)
        return self.memo[k]

    def _guard(self, f, name, kind, alias):
        try:
            return f()
        except (RecursionError, AssertionError, KeyError, IndexError, AttributeError, TypeError, ValueError) as e:
            if os.environ.get('SA_DEBUG'):
                raise
            R = roots.Result(name, kind, alias)
            tb = traceback.extract_tb(e.__traceback__)[-1]
            R.undecided.append(('budget', 'analysis gave up: %s %s (%s:%d)' % (type(e).__name__, str(e)[:100], os.path.basename(tb.filename), tb.lineno), '', []))
            return R

    def contracts(self, name):
        """all field kinds, aliasing patterns and rounding modes of one API function"""
        ct = S[name]
        n = len([k for k in ct.params if k in 'EetIXT'])
        out = []
        for kind in 'LQG':
            for al in roots.partitions(n):
                for rnd in (range(5) if 'r' in ct.params else [None]):
                    out.append(self.contract(name, kind, al, rnd))
        return out

    def special(self):
        if 'special' not in self.memo:
            self.memo['special'] = special.all_special(self.prog, guard=lambda f, n: self._guard(f, n, 'any', ()))
        return self.memo['special']

    def text(self):
        if 'text' not in self.memo:
            self.memo['text'] = textspec.all_text(self.prog, guard=lambda f, n: self._guard(f, n, 'any', ()))
        return self.memo['text']

    def cfrac(self):
        if 'cfrac' not in self.memo:
            n = 4 if self.tier == 'quick' else 7
            self.memo['cfrac'] = [self._guard(lambda: special.ob_cfrac(self.prog, k, i, al), 'renf_elem_get_cfrac', k, ())
                                  for k in 'LQG' for i in range(n) for al in (0, 1)]
        return self.memo['cfrac']

    def isolation(self, groups):
        """obligations of the real root code"""
        out = []
        for i, (g, f, a) in enumerate(isolate.jobs(self.tier)):
            if g in groups:
                k = ('iso', i)
                if k not in self.memo:
                    self.memo[k] = self._guard(lambda: f(self.prog, *a), f.__name__, g, ())
                out.append(self.memo[k])
        return out

    def reading(self):
        """obligations of the polynomial text reader"""
        if 'read' not in self.memo:
            self.memo['read'] = [self._guard(lambda: j(self.prog), 'fmpq_poly_set_str_pretty', 'read', ()) for j in parse.jobs(self.tier, time.time() + (300 if self.tier == 'quick' else 3000))]
        return self.memo['read']

    def streaming(self):
        """obligations of reading elements from streams, instantiated by clients/stream.cpp"""
        if 'stream' not in self.memo:
            cp, R = self.client('stream.cpp')
            limit = time.time() + (300 if self.tier == 'quick' else 3000)
            self.memo['stream'] = [self._guard(lambda: j(cp), 'operator>>', 'stream', ()) for j in stream.jobs(self.tier, limit)] if cp else [R]
        return self.memo['stream']

    def special_named(self, *names):
        return [R for R in self.special() if R.name in names]

    def closure(self, names):
        """contracts of the named functions and of every summarised function they rely on"""
        todo, seen, out = list(names), set(), []
        while todo:
            n = todo.pop()
            if n in seen or n not in S:
                continue
            seen.add(n)
            for R in self.contracts(n):
                out.append(R)
                for u in R.uses:
                    if u[0] not in seen:
                        todo.append(u[0])
        return seen, out

    def typestate(self):
        if 'ts' not in self.memo:
            out = []
            for f in self.prog.repo_functions():
                if 'internal' in f.linkage:
                    continue
                has = any(b == 'renf' for d, b, c in f.param_types())
                for k in ('LQG' if has else [None]):
                    out.append(self._guard(lambda: typestate.generic(self.prog, f, k), f.name, k, ()))
            out += typestate.pairs(self.prog)
            self.memo['ts'] = out
        return self.memo['ts']

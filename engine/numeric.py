"""Numeric evaluation of terms in a concrete interpretation: used to pair definitions before
proving them equal, and to confirm that a residual that could not be proved zero really is not."""
import math
import random
import hashlib
import term as T
from term import ATOMS, Poly, Bool


class NoValue(Exception):
    pass


_local = {}
KNOWN = {'cos', 'sin', 'inv', 'sqrt', 'abs', 'floor', 'fdiv', 'tdiv'}


def hreal(*k):
    h = hashlib.blake2b(repr(k).encode(), digest_size=8).digest()
    return 0.5 + int.from_bytes(h, 'big') / 2.0 ** 64


class Env:
    """vars: name -> number.  funs: name -> callable(*args).  Everything real that is not given is
    a reproducible pseudo-random number; integer symbols must be given."""
    LIMIT = 3000000

    def __init__(self, vars=None, funs=None, seed=0, default_int=None):
        self.vars = dict(vars or {})
        self.funs = dict(funs or {})
        self.seed = seed
        self.default_int = default_int
        self.cache = {}
        self.steps = 0
        self.bool_vars = {}
        self.mode = None
        self.nonzero = ()
        self.from_model = False
        self.maxabs = 0.0
        self.fixed = {}

    def solve_equalities(self, bs):
        """Give reals that an equality among the premises determines their value."""
        for b in bs:
            if b.op != 'eq0':
                continue
            p = b.args[0]
            for m, c in p.d.items():
                if len(m) != 1 or m[0][1] != 1:
                    continue
                a = ATOMS[m[0][0]]
                if a.sort == 'I' or a.kind not in ('var', 'app') or a is T.PI_ATOM or a.name in KNOWN or a.name in T.ABBR or a.name in self.funs:
                    continue
                if a.kind == 'var' and a.name in self.vars:
                    continue
                try:
                    xs = tuple(self.poly(x) for x in a.args) if a.kind == 'app' else None
                    k = (a.name,) if xs is None else (a.name, tuple(round(x, 9) if isinstance(x, float) else x for x in xs))
                    if k in self.fixed:
                        continue
                    rest = float(self.poly(p)) - float(c) * float(self.real(*k))
                    self.fixed[k] = -rest / float(c)
                    self.cache.clear()
                    break
                except (NoValue, ZeroDivisionError, OverflowError, ValueError, KeyError, TypeError):
                    continue

    def real(self, *k):
        """A reproducible pseudo-random real: in [.5, 1.5], or often 0 ('sparse', 'grouped'), or of any sign and size ('wide')."""
        if k in self.fixed:
            return self.fixed[k]
        x = hreal(self.seed, *k)
        if self.mode is None:
            return x
        y = hreal(self.seed, 'mode', *k) - 0.5
        if k[0] in self.nonzero and self.mode != 'wide':
            return x
        if self.mode == 'grouped':
            # all quantities of the same index vanish together, apart from a few
            z = len(k) > 1 and hreal(self.seed, 'idx', k[1]) < 1.0 and hreal(self.seed, 'fn', k[0]) < 1.25
            return 0.0 if z else (x if y < 0.5 else -x)
        if self.mode == 'sparse':
            return 0.0 if y < 0.35 else (x if y < 0.7 else -x)
        return (1 if x < 1 else -1) * 10.0 ** (4 * y)


    def poly(self, p, b=()):
        """b: dict of bound / index values as sorted tuple is derived from self.vars"""
        r = 0
        for m, c in p.d.items():
            t = float(c) if not isinstance(c, int) else c
            rest = []
            for u, e in m:
                a = ATOMS[u]
                if a.kind == 'br':
                    if not self.boolv(a.args[0]):
                        t = 0
                        break
                else:
                    rest.append((a, e))
            if t == 0:
                continue
            for a, e in rest:
                v = self.atom(a)
                if e < 0 and v == 0 and self.mode and a.sort != 'I':
                    raise NoValue('division by zero: %s' % str(a)[:300])
                if e < 0 and v == 0:
                    t = 0
                    break
                if e < 0 and isinstance(v, int) and isinstance(t, int):
                    t = float(t)
                t = t * v ** e
            if t > self.maxabs or -t > self.maxabs:
                self.maxabs = abs(t)
            r = r + t
        return r

    def atom(self, a):
        if a.kind == 'var':
            if a is T.PI_ATOM:
                return math.pi
            return self.var(a)
        self.steps += 1
        if self.steps > self.LIMIT:
            raise NoValue('too many steps')
        ls = _local.get(a.uid)
        if ls is None:
            ls = _local[a.uid] = tuple(s for s in sorted(a.syms) if s[0] in '#$@')
        key = (a.uid,) + tuple(self.vars.get(s) for s in ls)
        r = self.cache.get(key)
        if r is None:
            r = self._atom(a)
            self.cache[key] = r
        return r

    def var(self, a):
        v = self.vars.get(a.name)
        if v is None:
            if a.sort != 'I':
                return self.real(a.name)
            if self.default_int is not None:
                return self.default_int(a.name)
            raise NoValue(a.name)
        return v

    def _atom(self, a):
        if a.kind == 'br':
            return 1 if self.boolv(a.args[0]) else 0
        if a.kind == 'sum':
            lo, hi, body = a.args
            lo, hi = int(self.poly(lo)), int(self.poly(hi))
            nm = '$%d' % (1 + body.bdepth)
            old = self.vars.get(nm)
            r = 0
            for i in range(lo, hi):
                self.vars[nm] = i
                r = r + self.poly(body)
            if old is None:
                self.vars.pop(nm, None)
            else:
                self.vars[nm] = old
            return r
        xs = [self.poly(x) if isinstance(x, Poly) else (self.boolv(x) if isinstance(x, Bool) else x) for x in a.args]
        n = a.name
        if n in T.ABBR:
            key = (n, tuple(xs))
            r = self.cache.get(key)
            if r is None:
                ph, body = T.ABBR[n]
                old = {h.name: self.vars.get(h.name) for h in ph}
                self.vars.update((h.name, x) for h, x in zip(ph, xs))
                try:
                    r = self.cache[key] = self.poly(body)
                finally:
                    for k, v in old.items():
                        if v is None:
                            self.vars.pop(k, None)
                        else:
                            self.vars[k] = v
            return r
        if n in self.funs:
            return self.funs[n](*xs)
        if n in ('cos', 'sin'):
            return getattr(math, n)(xs[0])
        if n == 'inv':
            if not xs[0] and self.mode:
                raise NoValue('division by zero: %s' % str(a)[:300])
            return 1.0 / xs[0] if xs[0] else 0.0
        if n == 'sqrt':
            if xs[0] < 0 and self.mode:
                raise NoValue('sqrt of a negative number')
            return math.sqrt(xs[0]) if xs[0] >= 0 else 0.0
        if n == 'fdiv':
            return int(xs[0]) // int(xs[1]) if xs[1] else 0
        if n == 'tdiv':
            if not xs[1]:
                return 0
            q = abs(int(xs[0])) // abs(int(xs[1]))
            return q if (xs[0] >= 0) == (xs[1] >= 0) else -q
        if n in ('abs', 'floor'):
            return abs(xs[0]) if n == 'abs' else math.floor(xs[0])
        if a.sort == 'I':
            if self.default_int is not None:
                return self.default_int((n,) + tuple(xs))
            raise NoValue(n)
        return self.real(n, tuple(round(x, 9) if isinstance(x, float) else x for x in xs))

    def boolv(self, b):
        o = b.op
        if o == 'true':
            return True
        if o == 'false':
            return False
        if o == 'not':
            return not self.boolv(b.args[0])
        if o == 'and':
            return all(self.boolv(x) for x in b.args)
        if o == 'or':
            return any(self.boolv(x) for x in b.args)
        if o == 'bvar':
            return self.bool_vars.get(b.args[0], False)
        if o in ('le0', 'lt0', 'eq0'):
            old = self.maxabs
            v = self.poly(b.args[0])
            self.maxabs = old
            if isinstance(v, float) and abs(v) < 1e-9:
                v = 0
            return v <= 0 if o == 'le0' else v < 0 if o == 'lt0' else v == 0
        raise NoValue(o)


class ModelEnv(Env):
    """Integers and Booleans from a solver model, reals pseudo-random."""

    def __init__(self, model, seed=0):
        super().__init__(seed=seed, default_int=self._from_model)
        self.from_model = True
        self.decls = {d.name(): d for d in model.decls()}
        self.model = model
        for n, d in self.decls.items():
            if d.arity() == 0:
                v = model[d]
                try:
                    self.vars[n] = v.as_long()
                except Exception:
                    if str(v) in ('True', 'False'):
                        self.bool_vars[n] = str(v) == 'True'

    def _from_model(self, k):
        import z3
        if isinstance(k, tuple) and all(isinstance(x, (int, bool)) for x in k[1:]):
            d = self.decls.get(k[0] + 'I' * (len(k) - 1))
            if d is not None:
                return self.model.eval(d(*[z3.IntVal(int(x)) for x in k[1:]]), model_completion=True).as_long()
        return int(hreal(self.seed, k) * 1e6) % 5


def small_env(seed=0, **over):
    """A generic small valid input (used for finger prints)."""
    r = random.Random(seed)
    v = dict(nfp=2, mpol=3, ntor=2, mnmax=4, mpol_nyq=3, ntor_nyq=2, mnmax_nyq=4, ns_in=3, mboz=2, nboz=1, n_compute=2,
             js_b=1, nzeta=6, verbose=1)
    v.update(over)

    def f(lo, hi, tag):
        return lambda *a: lo + int(hreal(seed, tag, a) * 1e6) % (hi - lo + 1)

    def only0(g):
        return lambda i: 0 if i == 0 else g(i)
    q = f(-v['ntor_nyq'], v['ntor_nyq'], 'qnq')
    fx = f(0, v['mpol_nyq'], 'xmq')
    funs = dict(xm=f(0, v['mpol'] - 1, 'xm'), qn=f(-v['ntor'], v['ntor'], 'qn'), xmq=only0(fx),
                qnq=only0(lambda i: q(i) if (fx(i), q(i)) != (0, 0) else (1 if v['ntor_nyq'] else 0)), cs=f(0, v['ns_in'] - 1, 'cs'),
                xmb=f(0, max(v['mboz'] - 1, 0), 'xmb'), qb=f(-v['nboz'], v['nboz'], 'qb'))
    e = Env(v, funs, seed, default_int=lambda k: int(hreal(seed, k) * 1e6) % 5)
    return e


def denominators(p, acc=None, seen=None):
    """Names of the symbols that occur in denominators."""
    acc = set() if acc is None else acc
    for a in T.atoms_in(p, set()):
        if a.kind == 'app' and a.name == 'inv':
            acc |= {x.name for x in T.atoms_in(a.args[0], set()) if x.kind in ('var', 'app')}
        if a.kind == 'app' and a.name in T.ABBR and a.name not in acc:
            acc.add(a.name)
            denominators(T.ABBR[a.name][1], acc)
        if a.kind == 'sum':
            acc |= _neg(a.args[2])
    return acc | _neg(p)


def _neg(p):
    return {ATOMS[u].name for m in p.d for u, e in m if e < 0 and ATOMS[u].kind in ('var', 'app')}

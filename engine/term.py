"""Term language of the verifier.

Numeric terms are polynomials (class Poly) over atoms, kept in normal form:

  * coefficients are exact rationals (machine arithmetic is read as mathematical);
  * booleans enter arithmetic as 0/1 "brackets" [c], with [c]^2 = [c];
  * `if c then a else b` is b + [c]*(a-b);
  * finite sums  Sum_{v in [lo,hi)} body  are atoms, split over the monomials of
    the body, with factors that do not mention v pulled out;
  * products of cos/sin are rewritten to sums (product-to-sum formulas), so that
    trigonometric identities become polynomial identities;
  * x/y is x * y^-1.

Everything is hash-consed, so equal normal forms are the same Python object.
"""
from fractions import Fraction
from itertools import count as _count
import re as _re

_uid = _count(1)
ATOMS = {}          # uid -> Atom
_atom_tab = {}      # key -> Atom
_poly_tab = {}      # key -> Poly


class Ctx:
    """Facts used while building terms: lower bounds of integer symbols."""
    lb = {}         # atom -> int lower bound
    nonneg_hook = None   # optional callable(Poly)->bool  (solver query)


def reset_ctx():
    Ctx.lb = {}
    Ctx.nonneg_hook = None
    _mono_cache.clear()
    _br_cache.clear()


class Atom:
    __slots__ = ('uid', 'kind', 'name', 'args', 'sort', 'syms', 'bdepth')
    # kind: 'var' 'app' 'br' 'sum'

    def __hash__(self):
        return self.uid

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show_atom(self)


class Poly:
    __slots__ = ('d', 'key', 'syms', 'bdepth', '_h')

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show(self)

    def is_const(self):
        return not self.d or (len(self.d) == 1 and () in self.d)

    def const(self):
        return self.d.get((), 0)

    # arithmetic sugar
    def __add__(self, o):
        return add(self, P(o))
    __radd__ = __add__

    def __sub__(self, o):
        return add(self, scale(P(o), -1))

    def __rsub__(self, o):
        return add(P(o), scale(self, -1))

    def __mul__(self, o):
        return mul(self, P(o))
    __rmul__ = __mul__

    def __neg__(self):
        return scale(self, -1)

    def __truediv__(self, o):
        return mul(self, inv(P(o)))

    def __rtruediv__(self, o):
        return mul(P(o), inv(self))


EMPTY = frozenset()


def _mk_atom(kind, name, args, sort):
    key = (kind, name, args, sort)
    a = _atom_tab.get(key)
    if a is not None:
        return a
    a = Atom()
    a.uid = next(_uid)
    a.kind, a.name, a.args, a.sort = kind, name, args, sort
    if kind == 'var':
        a.syms = frozenset([name])
        a.bdepth = 0
    elif kind == 'app':
        s = {name}
        bd = 0
        for x in args:
            if isinstance(x, (Poly, Bool)):
                s |= x.syms
                bd = max(bd, x.bdepth)
        a.syms = frozenset(s)
        a.bdepth = bd
    elif kind == 'br':
        a.syms = args[0].syms
        a.bdepth = args[0].bdepth
    elif kind == 'sum':
        lo, hi, body = args
        a.bdepth = max(lo.bdepth, hi.bdepth, 1 + body.bdepth)
        bn = '$%d' % (1 + body.bdepth)
        a.syms = lo.syms | hi.syms | (body.syms - {bn})
    _atom_tab[key] = a
    ATOMS[a.uid] = a
    return a


def _norm_coef(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def mk_poly(d):
    d = {m: _norm_coef(c) for m, c in d.items() if c != 0}
    key = frozenset(d.items())
    p = _poly_tab.get(key)
    if p is not None:
        return p
    p = Poly()
    p.d = d
    p.key = key
    p._h = hash(key)
    s = EMPTY
    bd = 0
    for m in d:
        for u, e in m:
            a = ATOMS[u]
            s = s | a.syms
            if a.bdepth > bd:
                bd = a.bdepth
    p.syms = s
    p.bdepth = bd
    _poly_tab[key] = p
    return p


ZERO = mk_poly({})
ONE = mk_poly({(): 1})


def num(x):
    if isinstance(x, float):
        x = Fraction(x)
    return mk_poly({(): x}) if x != 0 else ZERO


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return of_atom(x)
    if isinstance(x, Bool):
        return br(x)
    if isinstance(x, bool):
        return ONE if x else ZERO
    return num(x)


def of_atom(a):
    return mk_poly({((a.uid, 1),): 1})


def var(name, sort='I', lb=None):
    a = _mk_atom('var', name, (), sort)
    if lb is not None:
        Ctx.lb[a] = lb
    return of_atom(a)


def atom_of(p):
    """The atom if p is exactly one atom, else None."""
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return ATOMS[m[0][0]]
    return None


def add(p, q):
    if not p.d:
        return q
    if not q.d:
        return p
    d = dict(p.d)
    for m, c in q.d.items():
        d[m] = d.get(m, 0) + c
    return mk_poly(d)


def addn(ps):
    d = {}
    for p in ps:
        for m, c in p.d.items():
            d[m] = d.get(m, 0) + c
    return mk_poly(d)


def scale(p, c):
    if c == 0:
        return ZERO
    if c == 1:
        return p
    return mk_poly({m: k * c for m, k in p.d.items()})


def _merge(m1, m2):
    d = dict(m1)
    for u, e in m2:
        d[u] = d.get(u, 0) + e
    return tuple(sorted((u, e) for u, e in d.items() if e != 0))


_TRIG = ('cos', 'sin')


def _special(m):
    """Does the monomial need normalisation beyond exponent merging?"""
    nb = nt = 0
    for u, e in m:
        a = ATOMS[u]
        if a.kind == 'br':
            nb += 1
            if e != 1 or a.args[0].op == 'eq0':
                return len(m) > 1 or e != 1
        elif a.kind == 'app' and a.name in _TRIG:
            nt += abs(e)
            if e < 0:
                nt -= abs(e)
    return nb > 1 or nt > 1


_mono_cache = {}


def mul(p, q):
    if not p.d or not q.d:
        return ZERO
    if p.is_const():
        return scale(q, p.const())
    if q.is_const():
        return scale(p, q.const())
    d = {}
    for m1, c1 in p.d.items():
        for m2, c2 in q.d.items():
            m = _merge(m1, m2)
            if _special(m):
                r = _mono_cache.get(m)
                if r is None:
                    r = _norm_mono(m)
                    _mono_cache[m] = r
                cc = c1 * c2
                for mm, c in r.d.items():
                    d[mm] = d.get(mm, 0) + c * cc
            else:
                d[m] = d.get(m, 0) + c1 * c2
    return mk_poly(d)


def prod(ps):
    r = ONE
    for p in ps:
        r = mul(r, p)
    return r


def power(p, e):
    if e < 0:
        return power(inv(p), -e)
    r = ONE
    for _ in range(e):
        r = mul(r, p)
    return r


def _raw_mono(m):
    """Polynomial of a monomial that is known to be normal."""
    return mk_poly({m: 1})


def _pin_choice(p):
    """For an eq0 polynomial: (atom, replacement) where the atom is isolated."""
    best = None
    for m, c in p.d.items():
        if len(m) == 1 and m[0][1] == 1:
            a = ATOMS[m[0][0]]
            if a.kind == 'br' or a.kind == 'sum':
                continue
            if a.kind == 'app' and a.name in _TRIG:
                continue
            if a.sort == 'I' and abs(c) != 1:
                continue
            # a must not occur elsewhere in p
            occ = 0
            for m2 in p.d:
                for u, e in m2:
                    if u == a.uid or (ATOMS[u].kind != 'var' and _occurs(a, ATOMS[u])):
                        occ += 1
            if occ != 1:
                continue
            rank = (0 if a.kind == 'app' else 1, a.uid)
            if best is None or rank > best[0]:
                rest = mk_poly({m2: c2 for m2, c2 in p.d.items() if m2 != m})
                best = (rank, a, scale(rest, Fraction(-1) / c))
    return best and (best[1], best[2])


def _occurs(a, b):
    """Does atom a occur inside atom b (strictly or equal)?"""
    if a is b:
        return True
    if a.kind == 'var':
        return a.name in b.syms
    if not a.syms <= b.syms:
        return False
    for x in b.args:
        if isinstance(x, Poly):
            for m in x.d:
                for u, e in m:
                    if _occurs(a, ATOMS[u]):
                        return True
        elif isinstance(x, Bool):
            if _occurs_bool(a, x):
                return True
    return False


def _occurs_bool(a, b):
    for x in b.args:
        if isinstance(x, Poly):
            for m in x.d:
                for u, e in m:
                    if _occurs(a, ATOMS[u]):
                        return True
        elif isinstance(x, Bool):
            if _occurs_bool(a, x):
                return True
    return False


def occurs_in(a, p):
    for m in p.d:
        for u, e in m:
            if _occurs(a, ATOMS[u]):
                return True
    return False


def _norm_mono(m):
    brs = []
    rest = []
    for u, e in m:
        a = ATOMS[u]
        if a.kind == 'br':
            if e < 0:
                raise ValueError('negative power of a bracket')
            brs.append(a)
        else:
            rest.append((u, e))
    # 1. eq0 brackets: substitute the pinned atom in everything else
    for b in brs:
        bl = b.args[0]
        if bl.op != 'eq0':
            continue
        pc = _pin_choice(bl.args[0])
        if pc is None:
            continue
        a, rep = pc
        others = [x for x in brs if x is not b]
        if any(_occurs(a, o) for o in others) or any(_occurs(a, ATOMS[u]) for u, e in rest):
            r = of_atom(b)
            mp = {a: rep}
            acc = ONE
            for o in others:
                acc = mul(acc, subst_atom(o, mp))
                if not acc.d:
                    return ZERO
            for u, e in rest:
                x = subst_atom(ATOMS[u], mp)
                if (e < 0 and x is ZERO) or (x is not ZERO and atom_of(x) is not None
                        and atom_of(x).name == 'inv' and atom_of(x).args[0] is ZERO):
                    # a division that would be by zero here: leave it alone
                    # (the executor emits a div0 obligation for it)
                    acc = mk_poly({_merge(mm, ((u, e),)): c for mm, c in acc.d.items()})
                    continue
                acc = mul(acc, power(x, e))
                if not acc.d:
                    return ZERO
            # multiply by the bracket itself without re-substituting
            d = {}
            for mm, c in acc.d.items():
                m2 = _merge(mm, ((b.uid, 1),))
                m2 = tuple((u, 1 if ATOMS[u].kind == 'br' else e) for u, e in m2)
                if _special(m2) and m2 != m:
                    rr = _mono_cache.get(m2)
                    if rr is None:
                        rr = _norm_mono(m2)
                        _mono_cache[m2] = rr
                    for m3, c3 in rr.d.items():
                        d[m3] = d.get(m3, 0) + c * c3
                else:
                    d[m2] = d.get(m2, 0) + c
            return mk_poly(d)
    # 2. combine brackets
    keep = []
    for b in brs:
        bl = b.args[0]
        redundant = False
        if bl.op in ('le0', 'lt0'):
            for i, k in enumerate(keep):
                kl = k.args[0]
                if kl.op in ('le0', 'lt0'):
                    diff = bl.args[0] - kl.args[0]     # b - k
                    if diff.is_const():
                        c = diff.const()
                        if c > 0 or (c == 0 and bl.op == 'lt0'):
                            keep[i] = b       # b is stronger
                        redundant = True
                        break
                    if kl.op == bl.op:
                        if known_nonneg(diff):
                            keep[i] = b
                            redundant = True
                            break
                        if known_nonneg(-diff):
                            redundant = True
                            break
                    s = bl.args[0] + kl.args[0]
                    # p<=0 and q<=0 with p+q>0 : contradiction
                    if (s.is_const() and (s.const() > 0 or (s.const() == 0 and 'lt0' in (bl.op, kl.op)))) \
                            or known_nonneg(s - 1):
                        return ZERO
                elif kl.op == 'eq0':
                    for sg in (1, -1):
                        diff = bl.args[0] - scale(kl.args[0], sg)
                        if diff.is_const():
                            c = diff.const()
                            ok = c <= 0 if bl.op == 'le0' else c < 0
                            if not ok:
                                return ZERO
                            redundant = True
                            break
                    if redundant:
                        break
        elif bl.op == 'eq0':
            drop = []
            for i, k in enumerate(keep):
                kl = k.args[0]
                for sg in (1, -1):
                    diff = kl.args[0] - scale(bl.args[0], sg) if kl.args and isinstance(kl.args[0], Poly) else None
                    if diff is not None and diff.is_const():
                        c = diff.const()
                        if kl.op == 'eq0':
                            if c != 0:
                                return ZERO
                        else:
                            ok = c <= 0 if kl.op == 'le0' else c < 0
                            if not ok:
                                return ZERO
                            drop.append(k)
                        break
            keep = [k for k in keep if k not in drop]
        if not redundant:
            keep.append(b)
    # 3. trigonometric products
    trig = []
    other = []
    for u, e in rest:
        a = ATOMS[u]
        if a.kind == 'app' and a.name in _TRIG and e > 0:
            trig.extend([a] * e)
        else:
            other.append((u, e))
    base = tuple(sorted([(b.uid, 1) for b in set(keep)] + other))
    if len(trig) < 2:
        mm = tuple(sorted(list(base) + [(t.uid, 1) for t in trig]))
        if mm != m and _special(mm):
            return _norm_mono(mm)
        return _raw_mono(mm)
    acc = of_atom(trig[0])
    for t in trig[1:]:
        acc = _trig_mul(acc, t)
    # multiply by base
    d = {}
    for mm, c in acc.d.items():
        m2 = _merge(mm, base)
        if _special(m2):
            rr = _norm_mono(m2)
            for m3, c3 in rr.d.items():
                d[m3] = d.get(m3, 0) + c * c3
        else:
            d[m2] = d.get(m2, 0) + c
    return mk_poly(d)


def _trig_mul(p, t):
    out = []
    for m, c in p.d.items():
        # m has at most one trig atom
        tr = [(u, e) for u, e in m if ATOMS[u].kind == 'app' and ATOMS[u].name in _TRIG and e == 1]
        rest = tuple(x for x in m if x not in tr)
        if not tr:
            out.append(mk_poly({_merge(rest, ((t.uid, 1),)): c}))
            continue
        a = ATOMS[tr[0][0]]
        A, B = a.args[0], t.args[0]
        h = Fraction(1, 2) * c
        if a.name == 'cos' and t.name == 'cos':
            r = cos(A - B) + cos(A + B)
        elif a.name == 'sin' and t.name == 'sin':
            r = cos(A - B) - cos(A + B)
        elif a.name == 'sin':
            r = sin(A + B) + sin(A - B)
        else:
            r = sin(A + B) - sin(A - B)
        rest_p = mk_poly({rest: h})
        out.append(mul(rest_p, r))
    return addn(out)


# ---------------------------------------------------------------- functions

def lead(p):
    """Deterministic leading monomial (non constant)."""
    ms = [m for m in p.d if m != ()]
    return max(ms) if ms else None


def _find_bracket(p):
    for m in p.d:
        for u, e in m:
            a = ATOMS[u]
            if a.kind == 'br':
                return a
    return None


def split_bracket(p, b):
    """(p with [b]=1, p with [b]=0), top level occurrences only."""
    d1, d0 = {}, {}
    for m, c in p.d.items():
        if any(u == b.uid for u, e in m):
            mm = tuple(x for x in m if x[0] != b.uid)
            d1[mm] = d1.get(mm, 0) + c
        else:
            d1[m] = d1.get(m, 0) + c
            d0[m] = d0.get(m, 0) + c
    return mk_poly(d1), mk_poly(d0)


def app(name, args, sort='R'):
    """Uninterpreted application; brackets in numeric arguments are lifted."""
    args = tuple(args)
    for i, a in enumerate(args):
        if isinstance(a, Poly):
            b = _find_bracket(a)
            if b is not None:
                a1 = list(args)
                a0 = list(args)
                for j, x in enumerate(args):
                    if isinstance(x, Poly):
                        a1[j], a0[j] = split_bracket(x, b)
                bp = of_atom(b)
                t1 = fn(name, a1, sort)
                t0 = fn(name, a0, sort)
                return t0 + bp * (t1 - t0)
    return of_atom(_mk_atom('app', name, args, sort))


def fn(name, args, sort='R'):
    f = _INTERP.get(name)
    if f is not None:
        return f(*args)
    return app(name, args, sort)


def cos(p):
    p = P(p)
    if p is ZERO:
        return ONE
    if _find_bracket(p) is not None:
        return app('cos', (p,))
    l = lead(p)
    if l is not None and p.d[l] < 0:
        p = -p
    r = _pi_reduce(p)
    if r is not None:
        q, k = r           # p = q + k*pi/2
        k %= 4
        if k == 0:
            return cos(q)
        if k == 1:
            return -sin(q)
        if k == 2:
            return -cos(q)
        return sin(q)
    return of_atom(_mk_atom('app', 'cos', (p,), 'R'))


def sin(p):
    p = P(p)
    if p is ZERO:
        return ZERO
    if _find_bracket(p) is not None:
        return app('sin', (p,))
    l = lead(p)
    if l is not None and p.d[l] < 0:
        return -sin(-p)
    r = _pi_reduce(p)
    if r is not None:
        q, k = r
        k %= 4
        if k == 0:
            return sin(q)
        if k == 1:
            return cos(q)
        if k == 2:
            return -sin(q)
        return -cos(q)
    return of_atom(_mk_atom('app', 'sin', (p,), 'R'))


def _pi_reduce(p):
    """Split numeric multiples of pi/2 off p (only when there are any)."""
    pi = PI_ATOM
    m = ((pi.uid, 1),)
    c = p.d.get(m)
    if c is None:
        return None
    k = Fraction(c) * 2
    if k.denominator != 1:
        return None
    return mk_poly({mm: cc for mm, cc in p.d.items() if mm != m}), int(k)


def inv(p):
    p = P(p)
    if p.is_const():
        c = p.const()
        if c == 0:
            return of_atom(_mk_atom('app', 'inv', (ZERO,), 'R'))
        return num(Fraction(1) / c)
    b = _find_bracket(p)
    if b is not None:
        p1, p0 = split_bracket(p, b)
        i1, i0 = inv(p1), inv(p0)
        return i0 + of_atom(b) * (i1 - i0)
    if len(p.d) == 1:
        (m, c), = p.d.items()
        return mk_poly({tuple((u, -e) for u, e in m): Fraction(1) / c})
    # common monomial factor
    common = None
    for m in p.d:
        dm = dict(m)
        if common is None:
            common = dm
        else:
            common = {u: min(e, dm.get(u, 0)) for u, e in common.items() if dm.get(u, 0) > 0}
    common = {u: e for u, e in (common or {}).items() if e > 0}
    l = lead(p)
    c = p.d[l]
    if common:
        cm = tuple(sorted(common.items()))
        icm = tuple((u, -e) for u, e in cm)
        q = mk_poly({_merge(m, icm): Fraction(k) / c for m, k in p.d.items()})
        return mul(mk_poly({icm: Fraction(1) / c}), inv(q))
    q = scale(p, Fraction(1) / c)
    return scale(of_atom(_mk_atom('app', 'inv', (q,), 'R')), Fraction(1) / c)


def sqrt(p):
    p = P(p)
    if p.is_const():
        c = Fraction(p.const())
        if c >= 0:
            import math
            a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if a * a == c.numerator and b * b == c.denominator:
                return num(Fraction(a, b))
    return app('sqrt', (p,))


def fdiv(a, b):
    """Floor division (used with b > 0)."""
    a, b = P(a), P(b)
    if b.is_const() and b.const() == 1:
        return a
    if a.is_const() and b.is_const() and b.const() > 0:
        return num(a.const() // b.const())
    if _find_bracket(a) is not None or _find_bracket(b) is not None:
        return app('fdiv', (a, b), 'I')
    # pull out multiples of b
    if b.is_const():
        c = b.const()
        if c > 0:
            q, r = {}, {}
            for m, k in a.d.items():
                if isinstance(k, Fraction):
                    r[m] = k
                    continue
                qq = k // c
                rr = k - qq * c
                if m == () or rr == 0:
                    q[m] = qq
                    r[m] = rr
                else:
                    r[m] = k
            q, r = mk_poly(q), mk_poly(r)
            if r.is_const() and 0 <= r.const() < c:
                return q
            if not q.is_const() or q.const() != 0:
                return q + fdiv(r, b)
    else:
        q, r = poly_div(a, b)
        if q.d:
            return q + fdiv(r, b)
        lb = lead(b)
        if len(b.d) > 1 and lb in a.d and isinstance(b.d[lb], int) and b.d[lb] > 0 and isinstance(a.d[lb], int):
            kq = a.d[lb] // b.d[lb]
            if kq:
                return num(kq) + fdiv(a - scale(b, kq), b)
        if known_nonneg(a) and known_nonneg(b - 1 - a):
            return ZERO
        if known_nonneg(-a - 1) and known_nonneg(a + b):
            return num(-1)
    if a is ZERO:
        return ZERO
    return of_atom(_mk_atom('app', 'fdiv', (a, b), 'I'))


def poly_div(a, b):
    """a = q*b + r for a single- or multi-term divisor (best effort)."""
    lb = lead(b)
    cb = b.d[lb]
    q = ZERO
    r = a
    for _ in range(20):
        hit = None
        for m, c in r.d.items():
            dm = dict(m)
            if all(dm.get(u, 0) >= e for u, e in lb) and m != ():
                k = Fraction(c) / cb
                if k.denominator != 1:
                    continue
                mm = _merge(m, tuple((u, -e) for u, e in lb))
                t = mk_poly({mm: int(k)})
                r2 = r - t * b
                if len(b.d) == 1 or len(r2.d) < len(r.d):
                    hit = (t, r2)
                    break
        if hit is None:
            break
        q = q + hit[0]
        r = hit[1]
    return q, r


def tdiv(a, b):
    """C integer division (truncation)."""
    a, b = P(a), P(b)
    if a.is_const() and b.is_const() and b.const() != 0:
        x, y = a.const(), b.const()
        q = abs(x) // abs(y)
        return num(q if (x >= 0) == (y >= 0) else -q)
    bk = _find_bracket(a) or _find_bracket(b)
    if bk is not None:
        return app('tdiv', (a, b), 'I')
    if b.is_const() and b.const() == 0:
        return of_atom(_mk_atom('app', 'tdiv', (a, b), 'I'))
    q, r = poly_div(a, b) if not b.is_const() else (None, None)
    if b.is_const():
        c = b.const()
        if all(not isinstance(k, Fraction) and k % c == 0 for k in a.d.values()):
            return mk_poly({m: k // c for m, k in a.d.items()})
    elif r is ZERO:
        return q
    if known_nonneg(b - 1):
        if known_nonneg(a):
            return fdiv(a, b)
        if known_nonneg(-a):
            return -fdiv(-a, b)
    return of_atom(_mk_atom('app', 'tdiv', (a, b), 'I'))


def tmod(a, b):
    a, b = P(a), P(b)
    return a - b * tdiv(a, b)


_INTERP = {'cos': cos, 'sin': sin, 'inv': inv, 'sqrt': sqrt, 'fdiv': fdiv, 'tdiv': tdiv}

PI_ATOM = _mk_atom('var', 'pi', (), 'R')
PI = of_atom(PI_ATOM)


def absval(v):
    v = P(v)
    return ite(lt(v, 0), -v, v)


def ite(c, a, b):
    a, b = P(a), P(b)
    if a is b:
        return a
    d = a - b
    # the larger or smaller of two: one form for all ways to write it (they agree where the two are equal)
    if isinstance(c, Bool) and 0 < len(d.d) <= 8:
        neg = c.op == 'not'
        l = c.args[0] if neg else c
        if l.op in ('lt0', 'le0') and isinstance(l.args[0], Poly) and len(l.args[0].d) == len(d.d):
            p = l.args[0]
            m0 = min(d.d)
            if m0 in p.d:
                r = Fraction(d.d[m0]) / Fraction(p.d[m0])
                if all(m in p.d and p.d[m] * r == k for m, k in d.d.items()):
                    larger = (r < 0) != neg
                    if d.d[m0] < 0:
                        a, b, d = b, a, -d
                    c = lt0(-d) if not is_int(d) else le0(1 - d)
                    return b + br(c) * d if larger else a - br(c) * d
    c = br(c)
    return b + c * d


def known_nonneg(p):
    if p.is_const():
        return p.const() >= 0
    ok = _syn_nonneg(p)
    if ok:
        return True
    if Ctx.nonneg_hook is not None:
        return Ctx.nonneg_hook(p)
    return False


def _syn_nonneg(p):
    if all(c > 0 for m, c in p.d.items() if m != ()) is False:
        # shifting only lowers the constant term; negative coefficients of
        # unbounded atoms can not be repaired, but products can: expand below
        pass
    mp = {}
    for m in p.d:
        for u, e in m:
            a = ATOMS[u]
            if a.kind == 'br':
                continue
            l = Ctx.lb.get(a)
            if l is None:
                if a.kind == 'app' and a.name == 'sqrt':
                    l = 0
                elif a is PI_ATOM:
                    l = 0
                elif a.kind == 'app' and a.name == 'fdiv' and _syn_nonneg(a.args[0]):
                    l = 0
                else:
                    if e % 2:
                        return False
                    continue
            if l != 0:
                mp[a] = l
    if mp:
        d = {}
        for m, c in p.d.items():
            terms = {(): c}
            for u, e in m:
                a = ATOMS[u]
                l = mp.get(a, 0)
                for _ in range(e if e > 0 else 0):
                    nt = {}
                    for mm, cc in terms.items():
                        m1 = _merge(mm, ((u, 1),))
                        nt[m1] = nt.get(m1, 0) + cc
                        if l:
                            nt[mm] = nt.get(mm, 0) + cc * l
                    terms = nt
                if e < 0:
                    terms = {_merge(mm, ((u, e),)): cc for mm, cc in terms.items()}
            for mm, cc in terms.items():
                d[mm] = d.get(mm, 0) + cc
        return all(c >= 0 for c in d.values())
    return all(c >= 0 for c in p.d.values())


# ---------------------------------------------------------------- booleans

class Bool:
    __slots__ = ('op', 'args', 'syms', 'bdepth')
    # op: true false le0 lt0 eq0 not and or bvar streq

    def __repr__(self):
        return show_bool(self)

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o


_bool_tab = {}


def _mk_bool(op, args):
    key = (op, args)
    b = _bool_tab.get(key)
    if b is not None:
        return b
    b = Bool()
    b.op, b.args = op, args
    s = EMPTY
    bd = 0
    for x in args:
        if isinstance(x, (Poly, Bool)):
            s = s | x.syms
            bd = max(bd, x.bdepth)
    if op == 'bvar':
        s = frozenset([args[0]])
    b.syms, b.bdepth = s, bd
    _bool_tab[key] = b
    return b


TRUE = _mk_bool('true', ())
FALSE = _mk_bool('false', ())


def bvar(name):
    return _mk_bool('bvar', (name,))


def is_int(p):
    for m, c in p.d.items():
        if isinstance(c, Fraction):
            return False
        for u, e in m:
            if e < 0 or ATOMS[u].sort != 'I':
                return False
    return True


def _content(p):
    from math import gcd
    g = 0
    for m, c in p.d.items():
        if m != ():
            g = gcd(g, abs(c))
    return g


def le0(p, raw=False):
    """p <= 0 (integers when p is integer valued)."""
    p = P(p)
    if p.is_const():
        return TRUE if p.const() <= 0 else FALSE
    b = _find_bracket(p)
    if b is not None:
        p1, p0 = split_bracket(p, b)
        bb = b.args[0]
        l1, l0 = le0(p1, raw), le0(p0, raw)
        if l1 is l0:
            return l1
        return bor(band(bb, l1), band(bnot(bb), l0))
    if is_int(p):
        g = _content(p)
        if g > 1:
            c = p.const()
            p = mk_poly({m: (k // g if m != () else -((-k) // g)) for m, k in p.d.items()})
            if () not in p.d and c:
                pass
        if not raw:
            if known_nonneg(p - 1):
                return FALSE
            if known_nonneg(-p):
                return TRUE
            p2 = _isolate(p)
            if p2 is not None and p2 is not p:
                return le0(p2)
        l = lead(p)
        if p.d[l] > 0:
            return _mk_bool('le0', (p,))
        return bnot(_mk_bool('le0', (1 - p,)))
    if not raw:
        if known_nonneg(-p):
            return TRUE
    l = lead(p)
    c = p.d[l]
    q = scale(p, Fraction(1) / abs(c))
    if c > 0:
        return _mk_bool('le0', (q,))
    return bnot(_mk_bool('lt0', (-q,)))


def lt0(p, raw=False):
    p = P(p)
    if p.is_const():
        return TRUE if p.const() < 0 else FALSE
    if is_int(p):
        return le0(p + 1, raw)
    b = _find_bracket(p)
    if b is not None:
        p1, p0 = split_bracket(p, b)
        bb = b.args[0]
        return bor(band(bb, lt0(p1, raw)), band(bnot(bb), lt0(p0, raw)))
    if not raw and known_nonneg(p):
        return FALSE
    l = lead(p)
    c = p.d[l]
    q = scale(p, Fraction(1) / abs(c))
    if c > 0:
        return _mk_bool('lt0', (q,))
    return bnot(_mk_bool('le0', (-q,)))


def _iso_rank(a):
    if a.kind == 'var':
        if '!' in a.name:
            return 0
        if a.name[0] == '$':
            return 0
        if a.name[0] == '#':
            return 2
        return 3
    if a.kind == 'app' and a.name not in ('fdiv', 'tdiv'):
        return 1
    return 9


def _isolate(p):
    """c*v + r <= 0 with symbolic positive c  ->  v - fdiv(-r, c) <= 0."""
    cands = []
    for m in p.d:
        if len(m) < 2:
            continue
        ranks = [(_iso_rank(ATOMS[u]), u) for u, e in m]
        for (r, u), (_, e) in zip(ranks, m):
            if e != 1 or r in (3, 9) or any(ee < 0 for _, ee in m):
                continue
            if any(r2 < r for r2, u2 in ranks if u2 != u):
                continue
            cands.append((r, -u, u))
    done = set()
    for r, _, u in sorted(cands):
        if u in done:
            continue
        done.add(u)
        a = ATOMS[u]
        coef = {}
        rest = {}
        bad = False
        for m2, k2 in p.d.items():
            if any(uu == u for uu, ee in m2):
                if dict(m2)[u] != 1:
                    bad = True
                    break
                mm = tuple(x for x in m2 if x[0] != u)
                coef[mm] = k2
            else:
                rest[m2] = k2
        if bad:
            continue
        cp, rp = mk_poly(coef), mk_poly(rest)
        if occurs_in(a, cp) or occurs_in(a, rp) or cp.is_const():
            continue
        v = of_atom(a)
        if known_nonneg(cp - 1):
            return v - fdiv(-rp, cp)
        if known_nonneg(-cp - 1):
            # -c'*v + r <= 0  <=>  v >= ceil(r/c')  <=> fdiv(r-1, c') - v + 1 <= 0
            return fdiv(rp - 1, -cp) - v + 1
    return None


def eq0(p):
    p = P(p)
    if p.is_const():
        return TRUE if p.const() == 0 else FALSE
    b = _find_bracket(p)
    if b is not None:
        p1, p0 = split_bracket(p, b)
        bb = b.args[0]
        e1, e0 = eq0(p1), eq0(p0)
        if e1 is e0:
            return e1
        return bor(band(bb, e1), band(bnot(bb), e0))
    if is_int(p):
        g = _content(p)
        if g > 1:
            if p.const() % g:
                return FALSE
            p = mk_poly({m: k // g for m, k in p.d.items()})
        if known_nonneg(p - 1) or known_nonneg(-p - 1):
            return FALSE
        # product == 0 with positive factors: drop them
        if len(p.d) == 1:
            (m, c), = p.d.items()
            keep = [(u, e) for u, e in m if not (Ctx.lb.get(ATOMS[u]) or 0) >= 1]
            if len(keep) < len(m):
                p = mk_poly({tuple(keep): 1})
                if p.is_const():
                    return FALSE
    l = lead(p)
    c = p.d[l]
    if is_int(p):
        if c < 0:
            p = -p
    else:
        p = scale(p, Fraction(1) / c)
    return _mk_bool('eq0', (p,))


def le(a, b, raw=False):
    return le0(P(a) - P(b), raw)


def lt(a, b, raw=False):
    return lt0(P(a) - P(b), raw)


def ge(a, b, raw=False):
    return le(b, a, raw)


def gt(a, b, raw=False):
    return lt(b, a, raw)


def eq(a, b):
    return eq0(P(a) - P(b))


def ne(a, b):
    return bnot(eq(a, b))


def bnot(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == 'not':
        return b.args[0]
    return _mk_bool('not', (b,))


def band(*bs):
    out = []
    seen = set()
    for b in bs:
        if b is FALSE:
            return FALSE
        if b is TRUE:
            continue
        for x in (b.args if b.op == 'and' else (b,)):
            if x not in seen:
                seen.add(x)
                out.append(x)
    for x in out:
        if bnot(x) in seen:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _mk_bool('and', tuple(out))


def bor(*bs):
    return bnot_nnf(band(*[bnot_nnf(b) for b in bs]))


def bnot_nnf(b):
    if b.op == 'and':
        return _mk_or([bnot(x) for x in b.args])
    if b.op == 'or':
        return band(*[bnot(x) for x in b.args])
    return bnot(b)


def _mk_or(xs):
    out = []
    seen = set()
    for b in xs:
        if b is TRUE:
            return TRUE
        if b is FALSE:
            continue
        for x in (b.args if b.op == 'or' else (b,)):
            if x not in seen:
                seen.add(x)
                out.append(x)
    for x in out:
        if bnot(x) in seen:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return _mk_bool('or', tuple(out))


def implies(a, b):
    return bor(bnot(a), b)


_br_cache = {}


def br(b):
    """0/1 polynomial of a boolean."""
    if isinstance(b, Poly):
        return b
    if b is True:
        return ONE
    if b is False:
        return ZERO
    r = _br_cache.get(b)
    if r is not None:
        return r
    if b is TRUE:
        r = ONE
    elif b is FALSE:
        r = ZERO
    elif b.op == 'not':
        r = 1 - br(b.args[0])
    elif b.op == 'and':
        r = ONE
        for x in b.args:
            r = r * br(x)
            if r is ZERO:
                break
    elif b.op == 'or':
        r = ONE
        for x in b.args:
            r = r * (1 - br(x))
            if r is ZERO:
                break
        r = 1 - r
    else:
        r = of_atom(_mk_atom('br', b.op, (b,), 'I'))
    _br_cache[b] = r
    return r


# ---------------------------------------------------------------- sums

_fresh = _count(1)


def fresh(prefix='k', sort='I', lb=None):
    return var('%s!%d' % (prefix, next(_fresh)), sort, lb)


def bound_var(d):
    return var('$%d' % d, 'I')


def count_range(lo, hi):
    p = hi - lo
    if known_nonneg(p):
        return p
    return br(le0(1 - p)) * p


def _linear_in(p, a):
    """p = c*a + r with c constant rational -> (c, r), else None."""
    c = 0
    d = {}
    for m, k in p.d.items():
        hit = False
        for u, e in m:
            if u == a.uid:
                if len(m) != 1 or e != 1:
                    return None
                hit = True
            elif a.name in ATOMS[u].syms:
                return None
        if hit:
            c = k
        else:
            d[m] = k
    return c, mk_poly(d)


def mk_sum(v, lo, hi, body):
    """Sum_{v = lo}^{hi-1} body, v a variable."""
    lo, hi, body = P(lo), P(hi), P(body)
    va = atom_of(v) if isinstance(v, Poly) else v
    if body is ZERO:
        return ZERO
    w = hi - lo
    if w.is_const() and w.const() <= 0:
        return ZERO
    if w.is_const() and w.const() <= 2 and is_int(w):
        return addn([subst(body, {va: lo + i}) for i in range(int(w.const()))])
    # group: cofactor -> list for prefix brackets; first handle pins
    out = []
    pend = {}      # (cofactor key) -> list of (a, coef) for [v <= a] prefix form
    for m, c in body.d.items():
        dep, ind = [], []
        for u, e in m:
            (dep if va.name in ATOMS[u].syms else ind).append((u, e))
        indp = mk_poly({tuple(ind): c})
        if not dep:
            out.append(indp * count_range(lo, hi))
            continue
        pin = None
        for u, e in dep:
            a = ATOMS[u]
            if a.kind == 'br' and a.args[0].op == 'eq0':
                li = _linear_in(a.args[0].args[0], va)
                if li and li[0] in (1, -1):
                    pin = (u, scale(li[1], -li[0]))
                    break
        if pin is None and is_int(lo):
            # [v <= lo] pins v to the first index
            for u, e in dep:
                a = ATOMS[u]
                if a.kind == 'br' and a.args[0].op == 'le0':
                    li = _linear_in(a.args[0].args[0], va)
                    if li and li[0] == 1:
                        d = -li[1] - lo
                        if d.is_const():
                            if d.const() < 0:
                                pin = 'none'
                                break
                            if d.const() == 0:
                                pin = (u, lo)
                                break
        if pin == 'none':
            continue
        if pin:
            rest = mk_poly({tuple(x for x in dep if x[0] != pin[0]): 1})
            k = pin[1]
            g = br(le(lo, k)) * br(lt(k, hi))
            if g is not ZERO:
                out.append(g * indp * subst(rest, {va: k}))
            continue
        pend.setdefault(tuple(dep), []).append(indp)
    # telescoping prefix brackets
    pend = {k: addn(v) for k, v in pend.items()}
    pend = {k: v for k, v in pend.items() if v is not ZERO}
    groups = {}
    for dep, ip in pend.items():
        pb = None
        for u, e in dep:
            a = ATOMS[u]
            if a.kind == 'br' and a.args[0].op == 'le0' and is_int(a.args[0].args[0]):
                li = _linear_in(a.args[0].args[0], va)
                if li and li[0] in (1, -1):
                    pb = (u, li)
                    break
        if pb:
            u, (cc, r) = pb
            cof = tuple(x for x in dep if x[0] != u)
            groups.setdefault(cof, []).append((cc, r, ip, dep))
    for cof, lst in groups.items():
        if len(lst) < 1:
            continue
        # represent as coefficient of [v <= a]:   cc=1: v + r <= 0 -> a = -r
        # cc=-1: -v + r <= 0 -> v >= r -> 1 - [v <= r-1]
        cofp = mk_poly({cof: 1})
        pre = {}
        extra = ZERO
        for cc, r, ip, dep in lst:
            if cc == 1:
                pre[-r] = pre.get(-r, ZERO) + ip
            else:
                extra = extra + ip
                pre[r - 1] = pre.get(r - 1, ZERO) - ip
        progress = True
        while progress:
            progress = False
            for a in list(pre):
                if a not in pre:
                    continue
                if pre[a] is ZERO:
                    del pre[a]
                    progress = True
                    continue
                a1 = a - 1
                if a1 in pre and pre[a1].d and pre.get(a) is not None and pre[a].d:
                    c1 = pre[a]
                    # c1*[v<=a] + c2*[v<=a-1] = c1*[v==a] + (c1+c2)*[v<=a-1]
                    c2 = pre[a1]
                    if (c1 + c2) is ZERO:
                        g = br(le(lo, a)) * br(lt(a, hi))
                        out.append(g * c1 * subst(cofp, {va: a}))
                        del pre[a]
                        del pre[a1]
                        progress = True
        for cc, r, ip, dep in lst:
            pend.pop(dep, None)
        for a, c in pre.items():
            # [v<=a] on [lo,hi): shrink the range when the order is known
            if known_nonneg(a - hi + 1):
                out.append(c * mk_sum(va, lo, hi, cofp))
            elif known_nonneg(hi - 1 - a) and known_nonneg(a + 1 - lo):
                out.append(c * mk_sum(va, lo, a + 1, cofp))
            else:
                bb = br(le0(of_atom(va) - a))
                for m, k in (bb * cofp).d.items():
                    out.append(c * _sum_atom(va, lo, hi, mk_poly({m: k})))
        if extra.d:
            out.append(extra * mk_sum(va, lo, hi, cofp))
    for dep, ip in pend.items():
        out.append(ip * _sum_atom(va, lo, hi, mk_poly({dep: 1})))
    return addn(out)


def _sum_atom(va, lo, hi, body):
    # put the bound variable in canonical position
    for _ in range(4):
        d = 1 + body.bdepth
        bv = atom_of(bound_var(d))
        if bv is va:
            return of_atom(_mk_atom('sum', '', (lo, hi, body), 'R' if not is_int(body) else 'I'))
        b2 = subst(body, {va: of_atom(bv)})
        if b2.bdepth == body.bdepth and len(b2.d) == 1 and list(b2.d.values())[0] == 1:
            mm = list(b2.d)[0]
            if all(bv.name in ATOMS[u].syms for u, e in mm):
                return of_atom(_mk_atom('sum', '', (lo, hi, b2), 'R' if not is_int(b2) else 'I'))
        return mk_sum(bv, lo, hi, b2)
    raise RuntimeError('sum normalisation')


def open_sum(a, v):
    """Body of a sum atom with its bound variable replaced by v."""
    lo, hi, body = a.args
    bv = atom_of(bound_var(1 + body.bdepth))
    return subst(body, {bv: v})


# ---------------------------------------------------------------- substitution

def transform(p, f, cache=None, syms=None):
    """Rebuild p, replacing each atom a for which f(a) is not None."""
    if cache is None:
        cache = {}
    if syms is not None and not (p.syms & syms):
        return p
    r = cache.get(p)
    if r is not None:
        return r
    out = []
    same = {}
    for m, c in p.d.items():
        changed = False
        parts = []
        keep = []
        for u, e in m:
            a = ATOMS[u]
            if syms is not None and not (a.syms & syms):
                keep.append((u, e))
                continue
            na = _transform_atom(a, f, cache, syms)
            if na is a:
                keep.append((u, e))
            else:
                changed = True
                parts.append((na, e))
        if not changed:
            same[m] = same.get(m, 0) + c
        else:
            acc = mk_poly({tuple(keep): c})
            for q, e in parts:
                acc = mul(acc, power(q, e))
                if acc is ZERO:
                    break
            out.append(acc)
    r = addn([mk_poly(same)] + out) if out else p
    cache[p] = r
    return r


_FRESH = _re.compile(r'\$\d+|[A-Za-z_]\w*!\d+')


def align(p):
    """[x <= 0] as [x + 1 <= 0] + [x == 0] for integers x where both comparisons occur in p.

    Exact for every integer x; what occurs is looked up with bound variables taken as one name."""
    def shape(x):
        return _FRESH.sub('$', repr(x))
    args = [a.args[0].args[0] for a in atoms_in(p, set())
            if a.kind == 'br' and a.args[0].op == 'le0' and is_int(a.args[0].args[0])]
    if len(args) < 2:
        return p
    have = {shape(x) for x in args}
    todo = {shape(x) for x in args if shape(x + 1) in have}
    if not todo:
        return p

    def f(a):
        if a.kind != 'br' or a.args[0].op != 'le0':
            return None
        x = a.args[0].args[0]
        if not is_int(x) or shape(x) not in todo:
            return None
        return br(le0(x + 1)) + br(eq0(x))
    return transform(p, f)


def _transform_atom(a, f, cache, syms):
    key = ('a', a)
    r = cache.get(key)
    if r is not None:
        return r
    r = f(a)
    if r is None:
        if a.kind == 'var':
            r = a
        elif a.kind == 'app':
            na = tuple(transform(x, f, cache, syms) if isinstance(x, Poly)
                       else (transform_bool(x, f, cache, syms) if isinstance(x, Bool) else x) for x in a.args)
            r = a if na == a.args else fn(a.name, na, a.sort)
        elif a.kind == 'br':
            nb = transform_bool(a.args[0], f, cache, syms)
            r = a if nb is a.args[0] else br(nb)
        else:
            lo, hi, body = a.args
            bvn = '$%d' % (1 + body.bdepth)
            v = fresh('s')
            va = atom_of(v)
            nlo = transform(lo, f, cache, syms)
            nhi = transform(hi, f, cache, syms)
            if syms is not None and not (body.syms & syms):
                nb0 = body
                if nlo is lo and nhi is hi:
                    r = a
                else:
                    bv = atom_of(bound_var(1 + body.bdepth))
                    r = mk_sum(va, nlo, nhi, subst(body, {bv: v}))
            else:
                bv = atom_of(bound_var(1 + body.bdepth))
                ob = subst(body, {bv: v})
                nb = transform(ob, f, cache, syms)
                if nb is ob and nlo is lo and nhi is hi:
                    r = a
                else:
                    r = mk_sum(va, nlo, nhi, nb)
    else:
        r = P(r)
    cache[key] = r
    return r


def transform_bool(b, f, cache=None, syms=None):
    if cache is None:
        cache = {}
    if syms is not None and not (b.syms & syms):
        return b
    key = ('b', b)
    r = cache.get(key)
    if r is not None:
        return r
    if b.op in ('true', 'false', 'streq'):
        r = b
    elif b.op == 'bvar':
        x = f(b)
        r = b if x is None else x
    elif b.op in ('le0', 'lt0', 'eq0'):
        p = transform(b.args[0], f, cache, syms)
        if p is b.args[0]:
            r = b
        else:
            r = {'le0': le0, 'lt0': lt0, 'eq0': eq0}[b.op](p)
    elif b.op == 'not':
        r = bnot_nnf(transform_bool(b.args[0], f, cache, syms))
    elif b.op == 'and':
        r = band(*[transform_bool(x, f, cache, syms) for x in b.args])
    elif b.op == 'or':
        r = bor(*[transform_bool(x, f, cache, syms) for x in b.args])
    else:
        raise ValueError(b.op)
    cache[key] = r
    return r


def _subst_f(mp):
    return lambda a: mp.get(a)


def subst(p, mp):
    """mp: atom -> Poly (atoms of kind var/app) or Bool bvar -> Bool."""
    syms = set()
    for a in mp:
        if isinstance(a, Bool):
            syms |= a.syms
        elif a.kind == 'var':
            syms.add(a.name)
        else:
            syms.add(a.name)
    syms = frozenset(syms)
    if isinstance(p, Bool):
        return transform_bool(p, _subst_f(mp), None, syms)
    return transform(p, _subst_f(mp), None, syms)


def subst_atom(a, mp):
    r = subst(of_atom(a), mp)
    return r


def subst_fn(p, fm):
    """fm: function name -> callable(*args) -> Poly."""
    syms = frozenset(fm)

    cache = {}

    def f(a):
        if isinstance(a, Bool):
            return fm[a.args[0]]() if a.args[0] in fm else None
        if a.kind == 'app' and a.name in fm:
            args = tuple(transform(x, f, cache, syms) if isinstance(x, Poly) else x for x in a.args)
            return lift_call(fm[a.name], args)
        if a.kind == 'var' and a.name in fm:
            return fm[a.name]()
        return None
    if isinstance(p, Bool):
        return transform_bool(p, f, cache, syms)
    return transform(p, f, cache, syms)


def lift_call(f, args):
    """Call f on args with brackets in the arguments lifted outside."""
    for x in args:
        if isinstance(x, Poly):
            b = _find_bracket(x)
            if b is not None:
                a1, a0 = list(args), list(args)
                for j, y in enumerate(args):
                    if isinstance(y, Poly):
                        a1[j], a0[j] = split_bracket(y, b)
                t1, t0 = lift_call(f, a1), lift_call(f, a0)
                return t0 + of_atom(b) * (t1 - t0)
    return f(*args)


# ---------------------------------------------------------------- definitions

_names = {}


def stable_name(key):
    return _names.setdefault(key, len(_names))


ABBR = {}        # name -> (placeholder atoms, body)
_abbr_tab = {}


def abbrev(p, idx=()):
    """A name for the value p: the application of a definitional function symbol to the
    variables of p.  Equal normal forms get equal names; `unfold` undoes it."""
    vs = sorted((a for a in atoms_in(p, set()) if a.kind == 'var' and a is not PI_ATOM
                 and a.name[0] != '$'), key=lambda a: (a not in idx, a.name))
    ph = [atom_of(var('@%s%d' % (a.sort, i), a.sort)) for i, a in enumerate(vs)]
    body = subst(p, {a: of_atom(h) for a, h in zip(vs, ph)})
    key = (body, tuple(ph))
    nm = _abbr_tab.get(key)
    if nm is None:
        nm = 'd!%d' % len(ABBR)
        _abbr_tab[key] = nm
        ABBR[nm] = (tuple(ph), body)
    return of_atom(_mk_atom('app', nm, tuple(of_atom(a) for a in vs), 'R'))


def _unfold_f(a):
    if isinstance(a, Atom) and a.kind == 'app' and a.name in ABBR:
        ph, body = ABBR[a.name]
        return subst(body, dict(zip(ph, a.args)))
    return None


def has_abbrev(p):
    return any(s[:2] == 'd!' for s in p.syms)


def unfold(p):
    """One level of definitions replaced by their bodies."""
    if not has_abbrev(p):
        return p
    return transform(p, _unfold_f)


# ---------------------------------------------------------------- traversal

def atoms_in(p, acc=None):
    """All atoms occurring anywhere in p (including under sums/brackets)."""
    if acc is None:
        acc = set()
    if isinstance(p, Bool):
        for x in p.args:
            if isinstance(x, (Poly, Bool)):
                atoms_in(x, acc)
        return acc
    for m in p.d:
        for u, e in m:
            a = ATOMS[u]
            if a in acc:
                continue
            acc.add(a)
            for x in a.args:
                if isinstance(x, (Poly, Bool)):
                    atoms_in(x, acc)
    return acc


# ---------------------------------------------------------------- printing

def show_atom(a):
    if a.kind == 'var':
        return a.name
    if a.kind == 'app':
        return '%s(%s)' % (a.name, ', '.join(map(str, a.args)))
    if a.kind == 'br':
        return '[%s]' % show_bool(a.args[0])
    lo, hi, body = a.args
    return 'SUM{$%d=%s..%s-1}(%s)' % (1 + body.bdepth, show(lo), show(hi), show(body))


def show(p):
    if not p.d:
        return '0'
    out = []
    for m in sorted(p.d, key=lambda m: (-sum(abs(e) for _, e in m), m)):
        c = p.d[m]
        fs = []
        for u, e in m:
            s = show_atom(ATOMS[u])
            fs.append(s if e == 1 else '%s^%d' % (s, e))
        t = '*'.join(fs)
        if not t:
            t = str(c)
        elif c == -1:
            t = '-' + t
        elif c != 1:
            t = '%s*%s' % (c, t)
        out.append(t)
    return ' + '.join(out)


def show_bool(b):
    if b.op in ('true', 'false'):
        return b.op
    if b.op == 'bvar':
        return b.args[0]
    if b.op == 'not':
        return '!(%s)' % show_bool(b.args[0])
    if b.op in ('and', 'or'):
        return '(' + (' %s ' % b.op).join(show_bool(x) for x in b.args) + ')'
    if b.op == 'streq':
        return '%r==%r' % b.args
    return '%s %s' % (show(b.args[0]), {'le0': '<= 0', 'lt0': '< 0', 'eq0': '== 0'}[b.op])

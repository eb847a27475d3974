"""Closed-form candidates for mutually dependent loop variables.

A template only proposes; the executor checks every proposal to be inductive, so a wrong
proposal is rejected, never believed.
"""
import term as T
import solve as S
from solve import Prem
from term import (Poly, Bool, ATOMS, ZERO, ONE, P, br, le, lt, eq, atom_of, subst, fresh, mk_sum, mk_poly, of_atom, le0, eq0, band)
import sym as X
from sym import Arr, IDX, IATOM


def sub_entry(p, vals, bykey):
    """Replace the loop symbols of the given keys by the given values."""
    fm = {}
    for key, v in vals.items():
        s = bykey[key]
        if isinstance(v, Arr):
            fm[s] = (lambda *args, v=v: v.at(*args))
        else:
            fm[s] = (lambda v=v: v)
    if isinstance(p, Arr):
        return Arr(p.dims, T.subst_fn(p.body, fm), p.sort)
    return T.subst_fn(p, fm)


def inductive(cands, keys, A, PB, bykey, k, pc, entry):
    now = {x: cands[x] for x in keys}
    ka = atom_of(k)
    for x in keys:
        got = sub_entry(PB[x], now, bykey)
        if isinstance(got, Arr):
            want = subst(cands[x].body, {ka: k + 1})
            pr = Prem(pc + X.inrange(got.dims))
            r, info = S.prove_zero(got.body - want, pr)
        elif isinstance(got, Poly):
            r, info = S.prove_zero(got - subst(cands[x], {ka: k + 1}), Prem(pc))
        else:
            return False
        if r is not True:
            inductive.why = (x, info)
            return False
    for x in keys:
        e0 = entry.mem[x]
        if isinstance(e0, Arr):
            d = subst(cands[x].body, {ka: ZERO}) - e0.body
            pr = Prem(entry.pc + X.inrange(e0.dims))
        else:
            d = subst(cands[x], {ka: ZERO}) - e0
            pr = Prem(entry.pc)
        if S.prove_zero(d, pr)[0] is not True:
            return False
    return True


def frame(ex, entry, keys, A, PB, bykey, k, N, pc):
    """Each iteration reads only what the loop has not modified: sum of increments."""
    ka = atom_of(k)
    ent = {x: entry.mem[x] for x in keys}
    cands = {}
    for x in keys:
        h, p = A[x], PB[x]
        if isinstance(h, Arr):
            if not isinstance(p, Arr) or p.dims != h.dims:
                return None
            d = sub_entry(p.body - h.body, ent, bykey)
            if X._hasbr(d):
                d = S.simplify(d, Prem(pc + X.inrange(h.dims)))
            kk = fresh('k', 'I')
            cands[x] = Arr(h.dims, ent[x].body + mk_sum(kk, ZERO, k, subst(d, {ka: kk})), h.sort)
        elif isinstance(h, Poly) and isinstance(p, Poly):
            d = sub_entry(p - h, ent, bykey)
            kk = fresh('k', 'I')
            cands[x] = ent[x] + mk_sum(kk, ZERO, k, subst(d, {ka: kk}))
        else:
            return None
    if inductive(cands, keys, A, PB, bykey, k, pc, entry):
        return cands
    return None


def last_read(ex, entry, keys, A, PB, bykey, k, N, pc):
    """Scalars that are overwritten before use in every iteration but defined conditionally."""
    return None


def _pins(d, k):
    """(dimension, index expression) pairs [#d == e(k)] present in d."""
    out = []
    for m in d.d:
        for u, e in m:
            a = ATOMS[u]
            if a.kind == 'br' and a.args[0].op == 'eq0':
                for i, ia in enumerate(IATOM):
                    li = T._linear_in(a.args[0].args[0], ia)
                    if li and li[0] in (1, -1):
                        ex = T.scale(li[1], -li[0])
                        if k in [of_atom(ATOMS[uu]) for mm in ex.d for uu, _ in mm]:
                            if (i, ex) not in out:
                                out.append((i, ex))
    return out


def generalise(v, c0, c):
    """cos/sin(arg) with arg = c0*X  ->  cos/sin(c*X)  (c0 a nonzero integer)."""
    def f(a):
        if a.kind == 'app' and a.name in ('cos', 'sin'):
            q = T.scale(a.args[0], T.Fraction(1, c0)) * c
            return T.cos(q) if a.name == 'cos' else T.sin(q)
        return None
    return T.transform(v, f)


def trig_table(ex, entry, keys, A, PB, bykey, k, N, pc):
    """Column e(k) computed from earlier columns: multiples of an angle."""
    if N is None:
        return None
    ka = atom_of(k)
    ent = {x: entry.mem[x] for x in keys}
    if not all(isinstance(A[x], Arr) for x in keys):
        return None
    cands = {}
    for x in keys:
        h, p = A[x], PB[x]
        if not isinstance(p, Arr) or p.dims != h.dims:
            return None
        pr = Prem(pc + X.inrange(h.dims))
        pins = _pins(p.body - h.body, k)
        if len(pins) != 1:
            return None
        dd, ek = pins[0]
        li = T._linear_in(ek, ka)
        if not li or li[0] != 1 or not li[1].is_const():
            return None
        c0 = li[1].const()
        if c0 == 0:
            return None
        d0 = sub_entry(p.body - h.body, ent, bykey)
        d0 = subst(subst(d0, {IATOM[dd]: ek}), {ka: ZERO})
        pr0 = Prem(entry.pc + (le(1, N),) + tuple(b for i, b in enumerate(X.inrange(h.dims)) if i // 2 != dd))
        d0 = S.simplify(d0, pr0)
        brs, ss = [], []
        S._collect(d0, brs, ss)
        a0 = subst(ent[x].body, {IATOM[dd]: P(c0)})
        a0 = S.simplify(a0, pr0)
        # guards on the other index (rows beyond the grid): find the one region the increment touches
        oth = '#%d' % (1 - dd)
        gs = [b for b in brs if oth in b.args[0].syms and ka.name not in b.args[0].syms]
        if len(gs) > 6:
            return None
        regions = []

        def walk(i, cond, d):
            d = S.simplify(d, pr0.plus(*cond)) if cond else d
            if d is ZERO:
                return
            live = [b for b in gs[i:]]
            if not live:
                regions.append((cond, d))
                return
            c = gs[i].args[0]
            for cc in (c, T.bnot(c)):
                pp = pr0.plus(*cond)
                if pp.decide(cc) is False:
                    continue
                walk(i + 1, cond + [cc], d)
        walk(0, [], d0)
        if len(regions) != 1:
            return None
        cond, dr = regions[0]
        G = ONE
        for cc in cond:
            if Prem(tuple(pc) + X.inrange(h.dims)).decide(cc) is not True:
                G = G * br(cc)
        pr0 = pr0.plus(*cond)
        new = dr + S.simplify(a0, pr0)
        new = S.simplify(new, pr0)
        g = generalise(new, c0, IDX[dd])
        kk = fresh('k', 'I')
        body = ent[x].body + mk_sum(kk, ZERO, k, G * br(eq(IDX[dd], kk + c0)) * (g - ent[x].body))
        cands[x] = Arr(h.dims, body, h.sort)
    if inductive(cands, keys, A, PB, bykey, k, pc, entry):
        return cands
    return None


def _fit(v0, v1, k):
    """Linear interpolation of trig arguments between two values of k."""
    def terms(v):
        out = []
        for m, c in v.d.items():
            t = [(ATOMS[u], e) for u, e in m if ATOMS[u].kind == 'app' and ATOMS[u].name in ('cos', 'sin')]
            rest = tuple((u, e) for u, e in m if not (ATOMS[u].kind == 'app' and ATOMS[u].name in ('cos', 'sin')))
            if len(t) > 1 or (t and t[0][1] != 1):
                return None
            out.append((c, rest, t[0][0] if t else None))
        return out
    t0, t1 = terms(v0), terms(v1)
    if t0 is None or t1 is None:
        return None
    # constants 1 and 0 may stand for cos(0) and sin(0)
    if len(t0) != len(t1):
        return None
    out = ZERO
    used = set()
    for c, r, a in t0:
        for i, (c1, r1, a1) in enumerate(t1):
            if i in used or c1 != c or r1 != r:
                continue
            n0 = a.name if a is not None else 'cos'
            n1 = a1.name if a1 is not None else 'cos'
            if n0 != n1:
                continue
            x0 = a.args[0] if a is not None else ZERO
            x1 = a1.args[0] if a1 is not None else ZERO
            if a is None and a1 is None:
                out = out + mk_poly({r: c})
            else:
                q = x0 + k * (x1 - x0)
                out = out + mk_poly({r: c}) * (T.cos(q) if n0 == 'cos' else T.sin(q))
            used.add(i)
            break
        else:
            return None
    return out


def scalar_rotation(ex, entry, keys, A, PB, bykey, k, N, pc):
    if not all(isinstance(A[x], Poly) for x in keys):
        return None
    ka = atom_of(k)
    v0 = {x: entry.mem[x] for x in keys}

    def step(v, at):
        return {x: subst(sub_entry(PB[x], v, bykey), {ka: P(at)}) for x in keys}
    v1 = step(v0, 0)
    v2 = step(v1, 1)
    for lo, vals0, vals1 in ((0, v0, v1), (1, v1, v2)):
        cands = {}
        for x in keys:
            a, b = vals0[x], vals1[x]
            if a is ZERO and lo == 0 and len(b.d) == 1:
                # sin(0)
                (m, c), = b.d.items()
                t = [ATOMS[u] for u, e in m if ATOMS[u].kind == 'app' and ATOMS[u].name == 'sin']
                if len(t) == 1:
                    q = T.scale(t[0].args[0], 1) * k
                    rest = tuple((u, e) for u, e in m if ATOMS[u] is not t[0])
                    cands[x] = mk_poly({rest: c}) * T.sin(q)
                    continue
            g = _fit(a, b, k - lo)
            if g is None:
                break
            cands[x] = g
        if len(cands) == len(keys) and inductive(cands, keys, A, PB, bykey, k, pc, entry):
            return cands
    return None


ALL = [frame, trig_table, scalar_rotation]

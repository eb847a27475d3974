"""Back ends: z3 (cvc5 as second opinion) for leaf obligations; bracket decisions; the
zero prover on normal forms."""
import os
import time
import z3
from fractions import Fraction
import term as T
from term import (Poly, Bool, Atom, ATOMS, TRUE, FALSE, ZERO, ONE, P, band, bnot, bor, br, of_atom,
                  atoms_in, le, lt, le0, eq0, subst, mk_poly, mul)

STATS = {'z3': 0, 'z3_time': 0.0, 'cvc5': 0, 'normal_form': 0, 'unknown': 0}
TIMEOUT_MS = 4000

# schema facts: function symbol -> callable(*args) -> list of Bool (true of every instance)
FACTS = {}

_zc = {}
_zb = {}
_side = {}       # uid -> list of z3 side axioms for an atom
_deps = {}       # uid -> set of uids of 'app' atoms below


def reset():
    _zc.clear()
    _zb.clear()
    _side.clear()
    FACTS.clear()


def _num(c, real):
    if isinstance(c, Fraction):
        return z3.RealVal(str(c))
    return z3.RealVal(c) if real else z3.IntVal(c)


def z_atom(a):
    r = _zc.get(a.uid)
    if r is not None:
        return r
    if a.kind == 'var':
        r = z3.Int(a.name) if a.sort == 'I' else z3.Real(a.name)
        if a is T.PI_ATOM:
            _side[a.uid] = [r > z3.RealVal('3.14'), r < z3.RealVal('3.15')]
        elif a in T.Ctx.lb:
            _side[a.uid] = [r >= T.Ctx.lb[a]]
    elif a.kind == 'br':
        r = z3.If(z_bool(a.args[0]), z3.IntVal(1), z3.IntVal(0))
    elif a.kind == 'sum':
        r = (z3.Int if a.sort == 'I' else z3.Real)('sum!%d' % a.uid)
    elif a.name == 'fdiv':
        x, y = z_poly(a.args[0]), z_poly(a.args[1])
        r = z3.Int('fdiv!%d' % a.uid)
        _side[a.uid] = [z3.Implies(y > 0, z3.And(y * r <= x, x < y * r + y))]
    elif a.name == 'tdiv':
        x, y = z_poly(a.args[0]), z_poly(a.args[1])
        r = z3.Int('tdiv!%d' % a.uid)
        _side[a.uid] = [z3.Implies(z3.And(y > 0, x >= 0), z3.And(y * r <= x, x < y * r + y)),
                        z3.Implies(z3.And(y > 0, x <= 0), z3.And(y * r >= x, x > y * r - y))]
    elif a.name == 'inv':
        x = z_poly(a.args[0])
        r = z3.Real('inv!%d' % a.uid)
        xr = z3.ToReal(x) if x.sort() == z3.IntSort() else x
        _side[a.uid] = [z3.Implies(xr != 0, xr * r == 1)]
    elif a.name == 'sqrt':
        x = z_poly(a.args[0])
        xr = z3.ToReal(x) if x.sort() == z3.IntSort() else x
        r = z3.Real('sqrt!%d' % a.uid)
        _side[a.uid] = [z3.Implies(xr >= 0, z3.And(r >= 0, r * r == xr))]
    else:
        zs = []
        key = a.name
        for x in a.args:
            if isinstance(x, Poly):
                zx = z_poly(x)
                zs.append(zx)
                key += 'I' if zx.sort() == z3.IntSort() else 'R'
            elif isinstance(x, Bool):
                zs.append(z3.If(z_bool(x), z3.IntVal(1), z3.IntVal(0)))
                key += 'I'
            else:
                key += '_' + str(x)
        out = z3.IntSort() if a.sort == 'I' else z3.RealSort()
        if zs:
            r = z3.Function(key, *([z.sort() for z in zs] + [out]))(*zs)
        else:
            r = z3.Const(key, out)
        if a.name in ('cos', 'sin'):
            _side[a.uid] = [r <= 1, r >= -1]
        elif a in T.Ctx.lb:
            _side[a.uid] = [r >= T.Ctx.lb[a]]
    _zc[a.uid] = r
    return r


def z_poly(p):
    r = _zc.get(p)
    if r is not None:
        return r
    real = not T.is_int(p)
    ts = []
    for m, c in p.d.items():
        fs = []
        for u, e in m:
            z = z_atom(ATOMS[u])
            if real and z.sort() == z3.IntSort():
                z = z3.ToReal(z)
            if e < 0:
                iv = z3.Real('rec!%d' % u)
                _side.setdefault(('rec', u), [z3.Implies(z != 0, z * iv == 1)])
                z, e = iv, -e
            fs.extend([z] * e)
        if c != 1 or not fs:
            fs.insert(0, _num(c, real))
        ts.append(z3.Product(fs) if len(fs) > 1 else fs[0])
    r = z3.Sum(ts) if len(ts) > 1 else (ts[0] if ts else (_num(0, real)))
    _zc[p] = r
    return r


def z_bool(b):
    r = _zb.get(b)
    if r is not None:
        return r
    o = b.op
    if o == 'true':
        r = z3.BoolVal(True)
    elif o == 'false':
        r = z3.BoolVal(False)
    elif o == 'le0':
        r = z_poly(b.args[0]) <= 0
    elif o == 'lt0':
        r = z_poly(b.args[0]) < 0
    elif o == 'eq0':
        r = z_poly(b.args[0]) == 0
    elif o == 'not':
        r = z3.Not(z_bool(b.args[0]))
    elif o == 'and':
        r = z3.And([z_bool(x) for x in b.args])
    elif o == 'or':
        r = z3.Or([z_bool(x) for x in b.args])
    elif o == 'bvar':
        r = z3.Bool(b.args[0])
    else:
        r = z3.Bool('opaque!%d' % id(b))
    _zb[b] = r
    return r


def _rec_atoms(p, acc):
    return atoms_in(p, acc)


def facts_for(bs, depth=3, seen=None):
    """Instances of the schema facts for the applications in bs (closed under `depth`)."""
    seen = set() if seen is None else seen
    out = []
    todo = list(bs)
    for _ in range(depth):
        new = []
        for b in todo:
            for a in atoms_in(b, set()):
                if a in seen:
                    continue
                seen.add(a)
                f = FACTS.get(a.name) if a.kind in ('app', 'var') else None
                if f is not None:
                    for fb in f(*a.args):
                        if fb is not TRUE:
                            new.append(fb)
        if not new:
            break
        out.extend(new)
        todo = new
    return out


def _has_bound(b):
    return any(s[0] == '$' for s in b.syms)


def side_axioms(bs):
    out = []
    seen = set()
    for b in bs:
        for a in atoms_in(b, seen):
            pass
    for a in seen:
        z_atom(a)
        if a.uid in _side:
            out.extend(_side[a.uid])
        k = ('rec', a.uid)
        if k in _side:
            out.extend(_side[k])
    return out


_COUNTER = {}


class Prem:
    """A set of premises with an incremental solver and a decision cache."""
    _tab = {}
    _live = {}

    def __new__(cls, bs):
        bs = tuple(dict.fromkeys(x for b in bs for x in (b.args if b.op == 'and' else (b,)) if x is not TRUE))
        key = frozenset(bs)
        r = cls._tab.get(key)
        if r is None:
            r = object.__new__(cls)
            r.bs = bs
            r.cache = {}
            r.solver = None
            r.seen = None
            cls._tab[key] = r
        return r

    @staticmethod
    def clear():
        Prem._tab.clear()

    @staticmethod
    def drop():
        """Release all solvers."""
        for r in Prem._tab.values():
            r.solver = None
        Prem._live.clear()

    def plus(self, *bs):
        return Prem(self.bs + tuple(bs))

    def _init(self):
        s = z3.Solver()
        s.set('timeout', TIMEOUT_MS)
        self.seen = set()
        fs = facts_for(self.bs, seen=self.seen)
        allb = list(self.bs) + fs
        for b in allb:
            s.add(z_bool(b))
        for z in side_axioms(allb):
            s.add(z)
        self.allb = allb
        self.solver = s
        live = Prem._live
        live[id(self)] = self
        while len(live) > 150:
            # z3 keeps megabytes per solver: the oldest ones are rebuilt when needed again
            live.pop(next(iter(live))).solver = None

    def check(self, extra, want_model=False, timeout=None):
        """sat / unsat / unknown of premises + extra (list of Bool)."""
        if self.solver is None:
            self._init()
        elif id(self) in Prem._live:
            Prem._live[id(self)] = Prem._live.pop(id(self))
        t = time.time()
        s = self.solver
        s.push()
        s.set('timeout', timeout or TIMEOUT_MS)
        fs = facts_for(extra, seen=set(self.seen))
        for b in list(extra) + fs:
            s.add(z_bool(b))
        for z in side_axioms(list(extra) + fs):
            s.add(z)
        r = s.check()
        m = s.model() if (want_model and r == z3.sat) else None
        s.pop()
        STATS['z3'] += 1
        STATS['z3_time'] += time.time() - t
        return (r, m)

    def feasible(self):
        k = 'feasible'
        if k not in self.cache:
            self.cache[k] = self.check([])[0]
        return self.cache[k] != z3.unsat

    def decide(self, b):
        """True / False / None."""
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        r = self.cache.get(b, 0)
        if r != 0:
            return r
        if b in self.bs:
            r = True
        elif bnot(b) in self.bs:
            r = False
        elif b.op == 'and':
            rs = [self.decide(x) for x in b.args]
            r = False if False in rs else (True if all(x is True for x in rs) else None)
            if r is None:
                r = self._ask(b)
        else:
            r = self._ask(b)
        self.cache[b] = r
        return r

    def _ask(self, b):
        c, _ = self.check([bnot(b)], timeout=1500)
        if c == z3.unsat:
            return True
        if b.op == 'eq0' and c == z3.sat:
            pass
        c, _ = self.check([b], timeout=1500)
        if c == z3.unsat:
            return False
        return None

    def prove(self, b, timeout=None):
        """('proved'|'refuted'|'unknown', backend, model)"""
        if b is TRUE:
            STATS['normal_form'] += 1
            return ('proved', 'normal_form', None)
        r = self.cache.get(b, 0)
        if r is True:
            return ('proved', 'z3', None)
        c, m = self.check([bnot(b)], want_model=True, timeout=timeout)
        if c == z3.unsat:
            self.cache[b] = True
            return ('proved', 'z3', None)
        if c == z3.unknown:
            c2 = self.cvc5(b)
            if c2 == 'unsat':
                return ('proved', 'cvc5', None)
            STATS['unknown'] += 1
            return ('unknown', 'z3+cvc5', None)
        return ('refuted', 'z3', m)

    def cvc5(self, b, tlimit=8000):
        try:
            import cvc5
        except ImportError:
            return 'unknown'
        s = z3.Solver()
        fs = facts_for([bnot(b)], seen=set(self.seen))
        allb = self.allb + [bnot(b)] + fs
        for x in allb:
            s.add(z_bool(x))
        for z in side_axioms(allb):
            s.add(z)
        txt = s.to_smt2()
        STATS['cvc5'] += 1
        try:
            tm = cvc5.TermManager() if hasattr(cvc5, 'TermManager') else None
            sol = cvc5.Solver(tm) if tm else cvc5.Solver()
            sol.setOption('tlimit-per', str(tlimit))
            sol.setLogic('ALL')
            p = cvc5.InputParser(sol)
            p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
            sm = p.getSymbolManager()
            out = ''
            while True:
                c = p.nextCommand()
                if c.isNull():
                    break
                out += c.invoke(sol, sm)
            return out.strip().split('\n')[0] if out.strip() else 'unknown'
        except Exception as e:       # noqa: a back end failure is an unknown
            return 'unknown'


# ---------------------------------------------------------------- simplification

class TimeUp(Exception):
    pass


DEADLINE = [None]


MAX_RSS = [4 << 30]      # bytes, above which a bounded derivation gives up
_pgsz = os.sysconf('SC_PAGE_SIZE')


def _rss():
    try:
        with open('/proc/self/statm') as f:
            return int(f.read().split()[1]) * _pgsz
    except (OSError, ValueError, IndexError):
        return 0


def simplify(p, prem, depth=0):
    """Decide the brackets of p (Poly or Bool) under the premises."""
    if DEADLINE[0] is not None:
        if time.time() > DEADLINE[0]:
            raise TimeUp()
        if _rss() > MAX_RSS[0]:
            Prem.drop()
            if _rss() > MAX_RSS[0] * 5 // 4:
                raise TimeUp()
    for _ in range(6):
        q = _simplify1(p, prem, depth)
        if q is p:
            return p
        p = q
    return p


def _collect(p, brs, sums):
    """Bracket and sum atoms visible in p (not below a sum)."""
    seen = set()

    def go(x):
        if x in seen:
            return
        seen.add(x)
        if isinstance(x, Poly):
            for m in x.d:
                for u, e in m:
                    a = ATOMS[u]
                    if a in seen:
                        continue
                    seen.add(a)
                    if a.kind == 'br':
                        brs.append(a)
                        go(a.args[0])
                    elif a.kind == 'sum':
                        sums.append(a)
                        go(a.args[0])
                        go(a.args[1])
                    elif a.kind == 'app':
                        for y in a.args:
                            if isinstance(y, (Poly, Bool)):
                                go(y)
        elif isinstance(x, Bool):
            for y in x.args:
                if isinstance(y, (Poly, Bool)):
                    go(y)
    go(p)


_simp_cache = {}
_sumvar = {}


def _simplify1(p, prem, depth):
    key = (p, prem)
    r = _simp_cache.get(key)
    if r is not None:
        return r
    brs, sums = [], []
    _collect(p, brs, sums)
    if isinstance(p, Bool):
        d = prem.decide(p)
        if d is not None:
            return TRUE if d else FALSE
    mp = {}
    for a in brs:
        b = a.args[0]
        if _has_bound(b):
            continue
        d = prem.decide(b)
        if d is True:
            mp[a] = ONE
        elif d is False:
            mp[a] = ZERO
    for a in sums:
        lo, hi, body = a.args
        if any(s[0] == '$' and s != '$%d' % (1 + body.bdepth) for s in a.syms):
            continue
        n = hi - lo
        if not _has_bound(le0(n, raw=True)) and T.known_nonneg(-n) or prem.decide(le(hi, lo)) is True:
            mp[a] = ZERO
            continue
        v = _sumvar.get((depth, lo, hi))
        if v is None:
            v = _sumvar[(depth, lo, hi)] = T.fresh('s')
        va = T.atom_of(v)
        ob = T.open_sum(a, v)
        bb, ss = [], []
        _collect(ob, bb, ss)
        if not bb and not ss:
            continue
        eqs = [x.args[0] for x in bb if x.args[0].op == 'eq0' and FACTS and (x.args[0].syms & FACTS.keys())
               and any(x is ATOMS[u] for m in ob.d for u, e in m)]
        if eqs:
            # the schema facts may exclude every index but the first
            if prem.plus(le(lo + 1, v), lt(v, hi)).decide(band(*eqs)) is False:
                mp[a] = br(lt(lo, hi)) * T.open_sum(a, lo)
                continue
        nb = simplify(ob, prem.plus(le(lo, v), lt(v, hi)), depth + 1)
        if nb is not ob:
            mp[a] = T.mk_sum(va, lo, hi, nb)
    if not mp:
        _simp_cache[key] = p
        return p
    f = mp.get
    if isinstance(p, Bool):
        r = T.transform_bool(p, f)
    else:
        r = T.transform(p, f)
    _simp_cache[key] = r
    return r


def clear_caches():
    _simp_cache.clear()
    Prem.clear()


# ---------------------------------------------------------------- zero prover

class Residual(Exception):
    pass


def _adjacent(p):
    """[q <= a] with [q <= a-1] also present -> [q <= a-1] + [q == a]."""
    brs = []
    for m in p.d:
        for u, e in m:
            a = ATOMS[u]
            if a.kind == 'br' and a.args[0].op == 'le0' and a not in brs:
                brs.append(a)
    for a in brs:
        pa = a.args[0].args[0]
        if not T.is_int(pa):
            continue
        for b in brs:
            if b is not a and (b.args[0].args[0] - pa) is ONE:
                # b: pa+1 <= 0 (stronger)
                rep = of_atom(b) + br(eq0(pa))
                q = T.transform(p, {a: rep}.get)
                return q
    return None


def clear_inv(p):
    """Multiply p by the denominators inv(q) and negative powers occur with."""
    for _ in range(40):
        negs = {}
        invs = {}
        for m in p.d:
            for u, e in m:
                a = ATOMS[u]
                if e < 0:
                    negs[u] = min(negs.get(u, 0), e)
                elif a.kind == 'app' and a.name == 'inv':
                    invs[u] = max(invs.get(u, 0), e)
        if negs:
            u, e = next(iter(negs.items()))
            p = mul(p, mk_poly({((u, -e),): 1}))
            continue
        if invs:
            u, e = max(invs.items())
            q = ATOMS[u].args[0]
            out = []
            for m, c in p.d.items():
                k = dict(m).get(u, 0)
                rest = tuple(x for x in m if x[0] != u)
                out.append(mul(mk_poly({rest: c}), T.power(q, e - k)))
            p = T.addn(out)
            continue
        break
    return p


def prove_zero_within(p, prem, seconds):
    """As prove_zero; (None, None) when the time is up."""
    old = DEADLINE[0]
    DEADLINE[0] = min(time.time() + seconds, old or 1e99)
    try:
        return prove_zero(p, prem)
    except TimeUp:
        return None, None
    finally:
        DEADLINE[0] = old


def prove_zero(p, prem, depth=0, budget=None):
    """Show p == 0 under the premises.  Returns (True, info) or (False, (premises, residual))."""
    if budget is None:
        budget = [400]
    p = simplify(p, prem)
    if p is ZERO:
        return True, None
    if not prem.feasible():
        return True, None
    budget[0] -= 1
    if budget[0] < 0:
        return None, (prem, p)
    q = _adjacent(p)
    if q is not None and q is not p:
        return prove_zero(q, prem, depth, budget)
    q = clear_inv(p)
    if q is ZERO:
        return True, None
    # remaining visible brackets: case split
    brs, sums = [], []
    _collect(p, brs, sums)
    cand = [a for a in brs if not _has_bound(a.args[0])]
    # brackets that depend on nothing else first
    if cand and depth < 14:
        cand.sort(key=lambda a: (len(a.syms), a.uid))
        a = cand[0]
        b = a.args[0]
        for bb, val in ((b, ONE), (bnot(b), ZERO)):
            pr = prem.plus(bb)
            if not pr.feasible():
                continue
            qq = T.transform(p, {a: val}.get)
            if bb.op == 'eq0':
                pc = T._pin_choice(bb.args[0])
                if pc:
                    qq = subst(qq, {pc[0]: pc[1]})
            r, info = prove_zero(qq, pr, depth + 1, budget)
            if r is not True:
                return r, info
        return True, None
    q = _forced(p, prem)
    if q is not None:
        return prove_zero(q, prem, depth + 1, budget)
    # unify sums whose bounds agree under the premises
    q = _unify_sums(p, prem)
    if q is not None:
        if q is ZERO:
            return True, None
        if q is not p:
            return prove_zero(q, prem, depth + 1, budget)
    if T.has_abbrev(p):
        q = _unify_defs(p, prem)
        if q is not None and q is not p:
            return prove_zero(q, prem, depth, budget)
    if T.has_abbrev(p) and len(p.d) < 60:
        # the most recent definition is built from the earlier ones: unfold it alone
        top = max(_defs(p, []), key=lambda a: int(a.name[2:])).name
        q = T.transform(p, lambda a: T._unfold_f(a) if a.name == top else None)
        if q is ZERO:
            return True, None
        return prove_zero(q, prem, depth, budget)
    # pure integer / field residual: ask z3
    if not sums and len(p.d) < 40:
        r = prem.prove(eq0(p), timeout=3000)
        if r[0] == 'proved':
            return True, None
        if r[0] == 'unknown':
            return None, (prem, p)
    return False, (prem, p)


def _defs(p, acc):
    """Definitions applied anywhere in p."""
    for a in atoms_in(p, set()):
        if a.kind == 'app' and a.name in T.ABBR:
            acc.append(a)
    return acc


_def_tab = {}


def def_value(a):
    """Finger print of one application of a definition: its value for random bound variables."""
    import numeric
    r = _def_tab.get(a)
    if r is not None:
        return r
    out = []
    for seed in (1, 2):
        e = numeric.small_env(seed)
        for s in sorted(a.syms):
            if s[0] in '#$':
                e.vars[s] = (0, 1)[seed % 2] if s[0] == '#' else seed
        try:
            out.append(round(float(e.atom(a)), 7))
        except (numeric.NoValue, ZeroDivisionError, OverflowError, ValueError, KeyError):
            out = None
            break
    _def_tab[a] = r = (tuple(out) if out is not None else None,)
    return r


_same_defs = {}


def _unify_defs(p, prem):
    """Congruence: two definitions whose bodies can be proved equal get one name."""
    ds = sorted(set(_defs(p, [])), key=lambda a: (int(a.name[2:]), a.uid))
    groups = {}
    for a in ds:
        v = def_value(a)[0]
        if v is not None:
            groups.setdefault((v, frozenset(s for s in a.syms if s[0] in '#$')), []).append(a)
    mp = {}
    for g in groups.values():
        rep = []
        for a in g:
            for b in rep:
                if a.name == b.name:
                    continue
                if _defs_equal(a, b, prem):
                    # b's arguments in terms of a's (the bound variable inside sums gets renamed)
                    pos = [a.args.index(x) if x in a.args else (None if x.syms else -1) for x in b.args]
                    if None not in pos:
                        mp[a.name] = (b.name, [(i, x) for i, x in zip(pos, b.args)])
                        break
            else:
                rep.append(a)
    if not mp:
        return None

    def f(a):
        if a.kind == 'app' and a.name in mp:
            nm, pos = mp[a.name]
            return of_atom(T._mk_atom('app', nm, tuple(a.args[i] if i >= 0 else x for i, x in pos), 'R'))
        return None
    return T.transform(p, f)


def _defs_equal(a, b, prem):
    k = (a, b, prem)
    r = _same_defs.get(k)
    if r is None:
        mp = {}
        for s in a.syms | b.syms:
            if s[0] == '$':
                mp[T.atom_of(T.var(s, 'I'))] = T.fresh('k')
        pa, pb = T.unfold(of_atom(a)), T.unfold(of_atom(b))
        if mp:
            pa, pb = subst(pa, mp), subst(pb, mp)
        _same_defs[k] = False
        try:
            r = _same_defs[k] = prove_zero(pa - pb, prem)[0] is True
        except TimeUp:
            del _same_defs[k]
            raise
    return r


def _forced(p, prem):
    """Integer symbols whose value the premises force: substitute it."""
    vs = [a for a in atoms_in(p, set()) if a.sort == 'I' and a.kind in ('var', 'app') and a.name[:1] != '$'
          and (a.kind == 'var' or a.kind == 'app' and a.name not in ('fdiv', 'tdiv')
               and not any(s[0] == '$' for s in a.syms))]
    vs = [a for a in vs if a.kind == 'app' and a.name in FACTS or any(a.name in b.syms for b in prem.bs)]
    if not vs:
        return None
    c = prem.cache.get('model')
    if c is None:
        c = prem.check([], want_model=True)
        prem.cache['model'] = c
    if c[1] is None:
        return None
    mp = {}
    for a in vs:
        v = c[1].eval(z_atom(a), model_completion=True)
        try:
            v = v.as_long()
        except AttributeError:
            continue
        if abs(v) <= 3 and prem.decide(T.eq(of_atom(a), v)) is True:
            mp[a] = T.num(v)
    if not mp:
        return None
    q = subst(p, mp)
    return q if q is not p else None


def _unify_sums(p, prem):
    sums = []
    seen = set()
    for m in p.d:
        for u, e in m:
            a = ATOMS[u]
            if a.kind == 'sum' and a not in seen:
                seen.add(a)
                sums.append(a)
    mp = {}
    for i, a in enumerate(sums):
        for b in sums[:i]:
            if b in mp or a in mp:
                continue
            if a.args[2] is b.args[2] and a.args[0] is b.args[0]:
                dh = a.args[1] - b.args[1]
                if dh.is_const() and 0 < abs(dh.const()) <= 3:
                    big, small = (a, b) if dh.const() > 0 else (b, a)
                    if big in mp or small in mp:
                        continue
                    acc = of_atom(small)
                    for i in range(int(abs(dh.const()))):
                        h = small.args[1] + i
                        acc = acc + br(le(small.args[0], h)) * T.open_sum(small, h)
                    mp[big] = acc
                    continue
            if a.args[2] is b.args[2]:
                if prem.decide(T.eq(a.args[0], b.args[0])) is True and prem.decide(T.eq(a.args[1], b.args[1])) is True:
                    mp[a] = of_atom(b)
                    break
            elif a.args[2].syms == b.args[2].syms or True:
                # same range, bodies equal under the range premise?
                if a.args[0] is b.args[0] and a.args[1] is b.args[1]:
                    v = T.fresh('s')
                    oa, ob = T.open_sum(a, v), T.open_sum(b, v)
                    if len(oa.d) + len(ob.d) > 6:
                        continue
                    pr = prem.plus(le(a.args[0], v), lt(v, a.args[1]))
                    d = simplify(oa - ob, pr)
                    if d is ZERO:
                        mp[a] = of_atom(b)
                        break
    if not mp:
        return None
    return T.transform(p, mp.get)

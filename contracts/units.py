"""Verification units: one function under contract in one case.  Every unit is executed on /repo's
current source and yields named obligations, each tagged with the properties it belongs to."""
import json
import os
import re
import sys
import time
import traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, '..', 'engine'), HERE]
import term as T            # noqa: E402
import solve as S           # noqa: E402
import sym as X             # noqa: E402
import cxx                  # noqa: E402
from term import ZERO, ONE, TRUE, FALSE, P, Poly, Bool, le, lt, ge, gt, eq, ne, band, bor, bnot, br, subst, var, app, num, ite  # noqa: E402
from sym import Arr, IDX, IATOM   # noqa: E402

CAT_PROP = {'bounds': ['C13'], 'overflow': ['C13'], 'div0': ['C13'], 'assert': ['C13'], 'uninit': ['C13'], 'race': ['C06'],
            'pre': ['C13'], 'loop': [], 'nc': ['C16'], 'ncdef': ['C14'], 'ncdata': ['C14', 'C15']}


class Rec(dict):
    pass


class UnitRun:
    """Collects the obligations of one unit."""

    def __init__(self, name, props):
        self.name = name
        self.props = props          # properties the unit serves
        self.recs = []
        self.notes = []
        self.functions = set()
        self.trusted = set()
        self.inlined = set()
        self.loops = 0
        self.error = None
        self.error_kind = None

    def add(self, prop, cat, desc, status, backend='', where='', t=0.0, info=None, fn='', lvl=None):
        """lvl 'prop': the obligation states (part of) the property; 'int': it is internal to the proof (contract
        between two functions, loop invariant): its failure leaves the property undecided."""
        if lvl is None:
            lvl = 'int' if cat in ('pre', 'loop') else 'prop'
        if status == 'refuted' and lvl == 'prop':
            REFUTED[0] += 1
        self.recs.append(dict(unit=self.name, props=prop if isinstance(prop, list) else [prop], cat=cat, desc=desc, status=status,
                              backend=backend, where=where, t=round(t, 3), info=info, fn=fn, lvl=lvl))
        if status != 'proved' and OUT[0]:
            # what is known so far survives an abnormal end of this process
            d = dict(self.result(), error='ended early', error_kind='undecided')
            json.dump(d, open(OUT[0] + '.tmp', 'w'))
            os.replace(OUT[0] + '.tmp', OUT[0])

    # ---- proving helpers
    def prove(self, prop, cat, desc, pc, goal, where='', fn='', lvl=None):
        t = time.time()
        if goal is TRUE:
            r = ('proved', 'normal_form', None)
        else:
            r = S.Prem(tuple(pc)).prove(goal)
            if r[0] == 'refuted' and unknown_value(goal, *pc):
                r = ('unknown',) + tuple(r[1:])
        info = None
        if r[0] != 'proved':
            info = {'goal': str(goal)[:600]}
            if r[2] is not None:
                info['model'] = model_ints(r[2])
        self.add(prop, cat, desc, r[0], r[1], where, time.time() - t, info, fn, lvl)
        return r[0] == 'proved'

    def equal(self, prop, desc, pc, got, want, where='', fn='', cat='post', lvl=None):
        """got == want, for scalars, Booleans, strings and arrays (sizes and every element)."""
        t = time.time()
        st, back, info = compare(pc, got, want)
        if st != 'proved':
            info = dict(info or {}, mentions=mentions(got, want))
        self.add(prop, cat, desc, st, back, where, time.time() - t, info, fn, lvl)
        return st == 'proved'

    def take(self, ex, extra=None):
        """Obligations the executor generated on the way."""
        for ob in ex.obls:
            t = time.time()
            if ob.status is None:
                r = S.Prem(ob.pc).prove(ob.goal)
                ob.status, ob.backend = r[0], r[1]
                if ob.status == 'refuted' and unknown_value(ob.goal, *ob.pc):
                    ob.status = 'unknown'
                if r[2] is not None:
                    ob.info = {'goal': str(ob.goal)[:600], 'model': model_ints(r[2])}
                elif r[0] != 'proved':
                    ob.info = {'goal': str(ob.goal)[:600]}
            props = list(CAT_PROP.get(ob.cat, self.props))
            if ob.cat == 'loop':
                props = list(self.props)
            if ob.cat == 'pre' and 'init_trig' in ob.desc:
                props = sorted(set(self.props) | {'C13'})
            if extra:
                props = extra(ob, props)
            self.add(props, ob.cat, ob.desc, ob.status, ob.backend or '', ob.where, time.time() - t,
                     ob.info if ob.status != 'proved' else None, ob.fn)
        self.inlined |= ex.inlined
        self.trusted |= ex.trusted
        self.loops += ex.loops_closed
        for n in ex.notes:
            self.notes.append(str(n))

    def uninit(self, ex, outs, keys=None):
        """No branch and no kept value may depend on uninitialised storage."""
        bad = []
        for o in outs:
            for b in o.st.pc:
                if X.has_uninit(b):
                    bad.append('a branch condition')
            for k, v in o.st.mem.items():
                if keys is not None and not any(k.startswith(x) for x in keys):
                    continue
                if isinstance(v, Arr) and X.has_uninit(v.body) and self.independent(v, o.st):
                    continue
                vs = [v] if isinstance(v, (Poly, Bool)) else ([v.body] + list(v.dims) if isinstance(v, Arr) else [])
                if any(x.__class__ in (Poly, Bool) and X.has_uninit(x) for x in vs):
                    bad.append(X.short(k))
        live = [o for o in outs if S.Prem(tuple(o.st.pc)).prove(FALSE)[0] != 'proved']
        self.add(list(self.props), 'vacuity', 'the assumptions of this unit are satisfiable', 'proved' if live else 'unknown', 'z3', lvl='int')
        self.add(['C13'], 'uninit', 'no branch or result reads uninitialised storage', 'refuted' if bad else 'proved', 'normal_form',
                 info={'where': sorted(set(bad))[:10]} if bad else None)

    def independent(self, v, st):
        """The contents inside the array do not depend on indeterminate storage."""
        if any(X.has_uninit(d) for d in v.dims):
            return False
        p = T.transform(v.body, lambda a: T.of_atom(T._mk_atom(a.kind, 'V' + a.name[1:], a.args, a.sort)) if isinstance(a, T.Atom) and a.name and a.name[:2] == 'U!' else None)
        pr = S.Prem(tuple(st.pc)).plus(*[x for i, d in enumerate(v.dims) for x in (le(0, IDX[i]), lt(IDX[i], d))])
        return attempt(v.body - p, pr, 10)[0] is True

    def result(self):
        return dict(unit=self.name, props=self.props, recs=self.recs, notes=self.notes, functions=sorted(self.functions),
                    trusted=sorted(map(str, self.trusted)), inlined=sorted(map(str, self.inlined)), loops=self.loops, error=self.error,
                    error_kind=self.error_kind, stats={k: round(v, 3) for k, v in S.STATS.items()})


def mentions(got, want):
    """What the value depends on that a relational property forbids."""
    def syms(v):
        if isinstance(v, Arr):
            return set().union(*[syms(x) for x in (v.body,) + tuple(v.dims)])
        if isinstance(v, (Poly, Bool)):
            n = 0
            while isinstance(v, Poly) and T.has_abbrev(v) and n < 1:
                v = T.unfold(v)
                n += 1
            return set(v.syms)
        return set()
    g, w = syms(got), syms(want)
    out = []
    if 'verbose' in g - w:
        out.append('C08')
    if any(x.startswith(('old_', 'S!', 'U!')) for x in g - w):
        out.append('C07')
    if 'js_b' in g - w or 'n_compute' in g - w:
        out.append('C06')
    if isinstance(got, Arr) and isinstance(want, Arr) and got.dims != want.dims:
        out.append('size')
    return out


def model_ints(m):
    out = {}
    try:
        for d in m.decls():
            if d.arity() == 0:
                v = m[d]
                try:
                    out[d.name()] = v.as_long()
                except Exception:
                    pass
    except Exception:
        pass
    return out


def compare(pc, got, want):
    """('proved'|'refuted'|'unknown', back end, info)"""
    prem = S.Prem(tuple(pc))
    if got is want or got == want:
        return 'proved', 'normal_form', None
    if isinstance(want, Arr):
        if not isinstance(got, Arr) or len(got.dims) != len(want.dims):
            return 'refuted', 'normal_form', {'got': str(got)[:300], 'want': str(want)[:300]}
        for i, (a, b) in enumerate(zip(got.dims, want.dims)):
            r = zero(P(a) - P(b), prem)
            if r[0] != 'proved':
                return r[0], r[1], dict(r[2] or {}, what='size %d: %s instead of %s' % (i, a, b))
        inr = [x for i, d in enumerate(want.dims) for x in (le(0, IDX[i]), lt(IDX[i], d))]
        return zero(got.body - want.body, prem.plus(*inr))
    if isinstance(want, Poly):
        if isinstance(got, Bool):
            got = br(got)
        if not isinstance(got, Poly):
            return 'refuted', 'normal_form', {'got': str(got)[:300], 'want': str(want)[:300]}
        return zero(got - want, prem)
    if isinstance(want, Bool):
        if not isinstance(got, Bool):
            got = ne(P(got), 0)
        r = prem.prove(bor(band(got, want), band(bnot(got), bnot(want))))
        if r[0] == 'refuted' and unknown_value(prem, got, want):
            r = ('unknown',) + tuple(r[1:])
        return r[0], r[1], None if r[0] == 'proved' else {'got': str(got)[:300], 'want': str(want)[:300]}
    return 'refuted', 'normal_form', {'got': str(got)[:300], 'want': str(want)[:300]}


HEAVY = [100.0]        # seconds a unit may spend on long derivations
REFUTED = [0]          # obligations of the property level refuted so far
OUT = [None]


def attempt(p, prem, seconds):
    try:
        return S.prove_zero_within(p, prem, seconds)
    except (MemoryError, S.z3.z3types.Z3Exception):
        S.Prem.drop()
        return None, None


def zero(p, prem):
    if p is ZERO:
        return 'proved', 'normal_form', None
    r, info = attempt(p, prem, 4 if REFUTED[0] else 10)
    if r is None and info is None:
        # a long derivation: look for a refutation first
        if not unknown_value(prem, p):
            w = numeric_witness(prem, p, 4 if REFUTED[0] else 12)
            if w is not None:
                return 'refuted', 'evaluation', {'residual': str(p)[:600], 'numeric': w}
        if HEAVY[0] > 0 and not REFUTED[0]:
            t = time.time()
            r, info = attempt(p, prem, min(60, HEAVY[0]))
            HEAVY[0] -= time.time() - t
    if r is True:
        return 'proved', 'normal_form+z3', None
    if r is None and info is None:
        return 'unknown', 'time limit', {'residual': str(p)[:600]}
    pr, res = info if info else (prem, p)
    d = {'residual': str(res)[:600]}
    w = numeric_witness(pr, res, 4 if REFUTED[0] else 12) if not unknown_value(pr, res) else None
    if w is None and not unknown_value(prem, p):
        w = numeric_witness(prem, p, 4 if REFUTED[0] else 12)
    if w is not None:
        d['numeric'] = w
        return 'refuted', 'normal_form+evaluation', d
    return 'unknown', 'normal_form+z3', d


def unknown_value(*xs):
    """Does it depend on a value about which the engine claims nothing?"""
    for x in xs:
        if isinstance(x, S.Prem):
            if unknown_value(*x.bs):
                return True
        elif isinstance(x, (Poly, Bool)) and any(s.startswith('havoc!') for s in x.syms):
            return True
    return False


def model_envs(prem, res):
    """Interpretations of the integers taken from solver models of the premises (bounded, and of several shapes)."""
    import numeric
    if all(x in SMALL for x in set().union(res.syms, *[b.syms for b in prem.bs]) if isinstance(x, str) and x[:1].isalpha() and '!' not in x):
        return []
    ints = sorted((a for a in set().union(*[T.atoms_in(b, set()) for b in prem.bs], T.atoms_in(res, set()))
                   if a.kind == 'var' and a.sort == 'I' and a.name[0] not in '$@'), key=lambda a: a.name)
    out = []
    near = sorted({a for a in T.atoms_in(res, set()) if a.sort == 'I' and a.kind in ('var', 'app') and a.name[0] not in '$@'
                   and a.name not in numeric.KNOWN and not any(x[0] in '$@' for x in a.syms)}, key=str)
    prev = {}
    differ = []
    if not any(x[0] in '$@' for x in res.syms):
        differ.append(ne(res, 0))
    dens = sorted({a.args[0] for a in T.atoms_in(res, set()) if a.kind == 'app' and a.name == 'inv' and T.is_int(a.args[0])} |
                  {T.of_atom(T.ATOMS[u]) for mm in res.d for u, e in mm if e < 0 and T.ATOMS[u].sort == 'I'}, key=str)
    differ += [ne(x, y) for i, x in enumerate(dens) for y in dens[:i]][:3]
    for lo, hi, seed in ((1, 6, 1), (0, 9, 2), (3, 8, 3), (-4, 12, 4), (None, None, 5), (0, 9, 6), (0, 9, 7), (1, 9, 8)):
        ex = [] if lo is None else [b for a in ints for b in (le(T.of_atom(a), hi), le(lo if a.name[0] != '#' else 0, T.of_atom(a)))]
        r, m = None, None
        if seed != 5:
            # rather a model in which the integers of the residual differ from the earlier models
            more = [differ[seed % len(differ)]] if differ and seed % 3 else []
            more += [ne(T.of_atom(a), v) for i, (a, v) in enumerate(prev.items()) if (i + seed) % 2 == 0]
            if more:
                r, m = prem.check(ex + more, want_model=True)
        if m is None and seed <= 5:
            r, m = prem.check(ex, want_model=True)
        if m is None:
            continue
        try:
            prev = {a: m.eval(S.z_poly(T.of_atom(a)), model_completion=True).as_long() for a in near[:4]}
        except Exception:
            prev = {}
        e = numeric.ModelEnv(m, seed)
        e.nonzero = numeric.denominators(res)
        e.solve_equalities(prem.bs)
        out.append(e)
        if seed in (1, 3):
            e2 = numeric.ModelEnv(m, seed + 5)
            e2.nonzero, e2.mode = e.nonzero, 'wide'
            e2.solve_equalities(prem.bs)
            out.append(e2)
    return out


SMALL = {'nfp', 'mpol', 'ntor', 'mnmax', 'mpol_nyq', 'ntor_nyq', 'mnmax_nyq', 'ns_in', 'mboz', 'nboz', 'n_compute', 'js_b', 'nzeta', 'verbose',
         'xm', 'qn', 'xmq', 'qnq', 'cs', 'xmb', 'qb', 'pi', 'rmnc', 'rmns', 'zmnc', 'zmns', 'lmnc', 'lmns', 'bmnc', 'bmns', 'bsubumnc', 'bsubumns',
         'bsubvmnc', 'bsubvmns', 'iota', 's_in', 'cos', 'sin', 'sqrt', 'inv', 'fdiv', 'tdiv', 'abs', 'floor', 'TH', 'ZE', 'X', 'Z'}


def numeric_witness(prem, res, seconds=12):
    """A concrete interpretation satisfying the premises in which the residual is not 0."""
    import numeric
    envs = []
    c = prem.check([], want_model=True)
    m = model_ints(c[1]) if c[1] is not None else None
    dn = numeric.denominators(res)
    for seed in range(1, 29):
        e = numeric.small_env(seed)
        e.nonzero = dn
        if seed > 4:
            e.mode = ('sparse', 'wide', 'grouped', 'grouped')[seed % 4]
        envs.append(e)
    if m is not None and all(abs(v) <= 12 for v in m.values()):
        e = numeric.small_env(1, **m)
        envs.insert(0, e)
    syms = set().union(res.syms, *[b.syms for b in prem.bs])
    hs = sorted(x for x in syms if x[0] == '#')
    envs = model_envs(prem, res) + envs
    t0 = time.time()
    for n, e in enumerate(envs):
        if time.time() - t0 > seconds:
            break
        done = set()
        for trial in range(8 if hs else 1):
            for i, x in enumerate(hs):
                if e.from_model and trial == 0:
                    continue
                v = (m or {}).get(x, 0) if trial == 0 else int(numeric.hreal(n, trial, i) * 1e6) % (2 if trial < 5 else 5)
                e.vars[x] = v
            key = tuple(e.vars.get(x) for x in hs)
            if key in done:
                continue
            done.add(key)
            try:
                if all(e.boolv(b) for b in prem.bs):
                    e.steps = 0
                    v = e.poly(res)
                    if abs(v) > 1e-6 and abs(v) > 1e-8 * e.maxabs:
                        return {'value': float(v), 'vars': {k: v for k, v in e.vars.items() if isinstance(v, int)}}
            except (numeric.NoValue, ZeroDivisionError, OverflowError, ValueError, KeyError, TypeError, RecursionError):
                continue
    return None


# ---------------------------------------------------------------- registry

REG = {}


def unit(name, props, files=(), quick=True):
    def deco(f):
        REG[name] = dict(fn=f, props=props, files=list(files), quick=quick, name=name)
        return f
    return deco


def demote(r):
    """Nothing is refuted from contracts that do not fit the current code."""
    base = r.name.split('[')[0]
    if base not in ('init', 'surface_solve', 'check_accuracy', 'run', 'init_trig'):
        return
    if cxx.UNMATCHED:
        r.notes.append('not in the current code: %s' % ', '.join(sorted(cxx.UNMATCHED)))
    # a member of the code's own that init() may have given a value
    own = base in ('surface_solve', 'check_accuracy') and any(re.search(r'\bold_%s\b' % f, str(rec['info'])) for f in cxx.EXTRA for rec in r.recs if rec['info'])
    if cxx.UNMATCHED or own:
        for rec in r.recs:
            if rec['status'] == 'refuted':
                rec['status'] = 'unknown'


def run_unit(name):
    ensure()
    u = REG[name]
    r = UnitRun(name, u['props'])
    t = time.time()
    try:
        u['fn'](r)
    except X.LoopFail as e:
        r.error, r.error_kind = 'loop invariant not found: %s' % str(e)[:1200], 'undecided'
    except X.Unsupported as e:
        r.error, r.error_kind = 'outside the supported subset: %s' % str(e)[:1200], 'undecided'
    except cxx.ExtractError as e:
        r.error, r.error_kind = 'extraction: %s' % str(e)[:1200], 'undecided'
    except MemoryError:
        r.error, r.error_kind = 'out of memory', 'undecided'
    except Exception as e:
        r.error, r.error_kind = 'internal: %s\n%s' % (e, traceback.format_exc()[-1500:]), 'undecided'
    demote(r)
    d = r.result()
    d['wall'] = round(time.time() - t, 2)
    return d


_loaded = []


def ensure():
    if not _loaded:
        _loaded.append(1)
        sys.modules.setdefault('units', sys.modules[__name__])
        import core_units      # noqa: F401
        for m in ('io_units', 'vmec_units', 'driver_units', 'lemma_units', 'py_units', 'bind_units'):
            if os.path.exists(os.path.join(HERE, m + '.py')):
                __import__(m)


if __name__ == '__main__':
    import resource
    sys.setrecursionlimit(20000)
    resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30))
    OUT[0] = sys.argv[2] if len(sys.argv) > 2 else None
    out = run_unit(sys.argv[1])
    json.dump(out, open(sys.argv[2], 'w') if len(sys.argv) > 2 else sys.stdout, indent=1)

"""Replay of suspected violations on the real code, per property.

Every scenario runs the current /repo sources (sanitised build) on a concrete input and compares with the
independent reference implementation in oracle.py.  Fail = (properties, message, reproduction)."""
import json
import os
import re
import shutil
import tempfile
import time
import numpy as np
from concurrent.futures import ThreadPoolExecutor
import harness as H
import gen
import oracle

SPEC = {'C01': oracle.SYM_OUT + oracle.ASYM_OUT, 'C02': ['Boozer_I', 'Boozer_G', 'Boozer_I_all', 'Boozer_G_all'],
        'C03': ['mnboz', 'xm_b', 'xn_b'], 'C07': ['ns_b', 's_b']}
OUTPUTS = SPEC['C01'] + SPEC['C02'] + SPEC['C03'] + SPEC['C07']
INPUTS = [k for k in gen.SET_ORDER]


class Fail:
    def __init__(self, props, msg, script=None, info=None):
        self.props, self.msg, self.script, self.info = props, msg, script, info

    def __repr__(self):
        return 'Fail(%s: %s)' % (','.join(self.props), self.msg)


class Ctx:
    """What a suite may use: sanitised builds, a deadline and hints (model integers, literals) from the proofs."""

    def __init__(self, prop, seed=1, thorough=False, budget=120, hints=None):
        self.prop, self.seed, self.thorough = prop, seed, thorough
        self.t_end = time.time() + budget
        self.hints = hints or {}
        self.fails = []
        self.n = 0
        self.sigs = set()
        self.samples = []
        self._exe = {}
        self.errors = []

    def exe(self, variant='asan'):
        if variant not in self._exe:
            self._exe[variant] = H.build(variant)
        return self._exe[variant]

    def over(self):
        return time.time() > self.t_end

    def fail(self, props, msg, script=None, info=None):
        self.fails.append(Fail(props, msg, script, info))

    def run(self, sc, variant='asan', threads=None, cwd=None, env=None, timeout=60):
        self.n += 1
        return H.run(self.exe(variant), sc, threads=threads, cwd=cwd, env=env, timeout=timeout)

    def hit(self):
        return any(self.prop in f.props for f in self.fails)


def crash_text(info):
    if info['done']:
        return None
    if info['rc'] == 'hang':
        return 'the operation does not end (more than %d s of processor time)' % H.CPU_LIMIT
    e = info['stderr']
    m = re.search(r'ERROR: AddressSanitizer: ([^\n]*)|runtime error: ([^\n]*)|terminate called[^\n]*', e)
    loc = [ln.strip() for ln in e.splitlines() if re.search(r'#\d+ .*(booz_xform|_booz_xform)', ln)][:2]
    loc = [re.sub(r'^#\d+ 0x[0-9a-f]+ in ', '', x)[:160] for x in loc]
    return 'crash (rc %s): %s %s' % (info['rc'], (m.group(0) if m else e[-200:]).strip(), ' <- '.join(loc))


def throws(res):
    return [r for r in res if 'throw' in r]


def close(a, b, tol=1e-10):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return a.size == 0 and b.size == 0 and a.ndim != 2
    if a.size == 0:
        return True
    if a.dtype.kind in 'iubUS' or b.dtype.kind in 'iubUS':
        return bool(np.all(a == b))
    s = np.max(np.abs(b[np.isfinite(b)])) if np.any(np.isfinite(b)) else 0
    with np.errstate(invalid='ignore'):
        return bool(np.all((np.abs(a - b) <= tol * (s + 1e-300)) | (a == b) | (np.isnan(a) & np.isnan(b))))


def diff(a, b, keys, tol=1e-10):
    for k in keys:
        if k not in a or k not in b:
            continue
        if not close(a[k], b[k], tol):
            x, y = np.asarray(a[k]), np.asarray(b[k])
            if x.shape != y.shape:
                return '%s has shape %s instead of %s' % (k, x.shape, y.shape)
            if x.dtype.kind in 'US':
                return '%s = %s instead of %s' % (k, x, y)
            i = np.argwhere(~((np.abs(x - y) <= tol * np.max(np.abs(y))) | (x == y)))
            i = tuple(int(q) for q in (i[0] if len(i) else [0] * x.ndim))
            return '%s%s = %.17g instead of %.17g' % (k, list(i), float(x[i]), float(y[i]))
    return None


# ------------------------------------------------------------ configurations
def size_ok(kw, lim=40000):
    mb, nb = kw.get('mboz', 4), kw.get('nboz', 3)
    mp, nt = kw.get('mpol', 3), kw.get('ntor', 2)
    mq, nq = kw.get('mpol_nyq', mp + 1), kw.get('ntor_nyq', nt + 1)
    if mb < 1 or nb < 0 or mp < 1 or nt < 0 or mq < 0 or nq < 0 or kw.get('nfp', 3) < 1 or kw.get('ns_in', 3) < 1:
        return False
    N = (4 * mb + 2) * (1 if nb == 0 else 4 * nb + 2)
    M = mp * (2 * nt + 1) + (mq + 1) * (2 * nq + 1) + mb * (2 * nb + 1)
    return N * M * kw.get('ns_in', 3) < lim * 200 and N < lim and kw.get('ns_in', 3) <= 400


def hinted(hints, limit=120):
    """Configurations built from the counter-models of failed obligations and from literals of the source."""
    out = []
    for m in hints.get('models', []):
        kw = {}
        for a in ('nfp', 'mpol', 'ntor', 'mboz', 'nboz', 'ns_in', 'mpol_nyq', 'ntor_nyq'):
            if a in m:
                kw[a] = int(m[a])
        if 'verbose' in m:
            kw['verbose'] = max(-3, min(int(m['verbose']), 9))
        for asym in (False, True):
            k = dict(kw, asym=asym)
            k.setdefault('ns_in', 3)
            if 'nfp' in k:
                k['nfp'] = max(1, min(k['nfp'], 50))
            if size_ok(k):
                out.append(k)
    for L in hints.get('ints', []):
        for d in (0, 1, -1):
            v = L + d
            if not 0 <= v <= 64:
                continue
            for a in ('nfp', 'mboz', 'nboz', 'mpol', 'ntor', 'ns_in'):
                kw = {a: v}
                for asym in (False, True):
                    k = dict(kw, asym=asym)
                    if size_ok(k):
                        out.append(k)
            k = dict(ns_in=max(v, 1), cs=list(range(v)) if v else [], mboz=2, nboz=1)
            if size_ok(k):
                out.append(k)
    for x in hints.get('floats', []):
        for v in (x, -x, x / 2, x * 2):
            for asym in (False, True):
                out.append(dict(asym=asym, iota=v))
    seen, res = set(), []
    for i, k in enumerate(out):
        k.setdefault('seed', 1000 + i)
        s = repr(sorted((a, str(b)) for a, b in k.items() if a != 'seed'))
        if s not in seen:
            seen.add(s)
            res.append(k)
    return res[:limit]


def random_cfg(r):
    kw = dict(asym=bool(r.integers(2)), nfp=int(r.integers(1, 8)), mpol=int(r.integers(1, 8)), ntor=int(r.integers(0, 6)),
              mboz=int(r.integers(1, 10)), nboz=int(r.integers(0, 8)), ns_in=int(r.integers(1, 6)), both_signs=bool(r.integers(2)),
              shuffle=bool(r.integers(2)), lam=float(r.choice([0.0, 0.05, 0.3])), seed=int(r.integers(1 << 30)),
              verbose=int(r.choice([0, 0, 0, 1, 2])))
    kw['mpol_nyq'] = int(r.integers(0, kw['mpol'] + 4))
    kw['ntor_nyq'] = int(r.integers(0, kw['ntor'] + 3))
    kw['zeros'], kw['flip'] = int(r.choice([0, 0, r.integers(1, 1 << 20)])), int(r.choice([0, 0, 1, 2, 3]))
    n = int(r.integers(0, kw['ns_in'] + 2))
    kw['cs'] = [int(x) for x in r.integers(0, kw['ns_in'], n)] if r.integers(3) else None
    return kw


def configs(ctx, n_random=24):
    base = gen.base_suite()
    extra = [dict(asym=a, mboz=3, nboz=14, nfp=2, mpol=2, ntor=1, seed=77) for a in (False, True)]
    extra += [dict(asym=a, mboz=20, nboz=3, nfp=1, mpol=12, ntor=1, ns_in=1, seed=78) for a in (False, True)]
    extra += [dict(asym=a, ns_in=9, cs=[8, 7, 6, 5, 4, 3, 2, 1, 0], mboz=3, nboz=2, seed=79) for a in (False, True)]
    h = hinted(ctx.hints, 400 if ctx.thorough else 160)
    r = np.random.default_rng(ctx.seed)
    rnd = [random_cfg(r) for _ in range(300 if ctx.thorough else n_random)]
    return h[:40] + base + extra + h[40:] + [k for k in rnd if size_ok(k)]


def script_for(c, id=0, sc=None):
    sc = sc or H.Script()
    sc.op('new', id)
    gen.load(sc, id, c)
    return sc


def par(ctx, f, items, workers=7):
    """f over items until the budget is used up or a failure of the property was found."""
    items = list(items)

    def g(x):
        if ctx.over() or (ctx.hit() and not ctx.thorough):
            return
        try:
            f(x)
        except H.BuildError:
            raise
        except Exception as e:
            ctx.errors.append('%s: %r' % (type(e).__name__, e))
    with ThreadPoolExecutor(workers) as ex:
        list(ex.map(g, items))


def note(ctx, kind, kw):
    s = (kind, repr(sorted((a, str(b)) for a, b in kw.items())))
    ctx.sigs.add(s)
    if len(ctx.samples) < 3:
        ctx.samples.append({'scenario': kind, 'input': {a: str(b) for a, b in kw.items()}})


# ------------------------------------------------------------ one run against the theory
def sweep(ctx, props, n_random=24):
    ctx.exe()

    def one(kw):
        c = gen.equilibrium(**kw)
        sc = script_for(c).op('run', 0).op('dump', 0)
        res, info = ctx.run(sc, threads=1 if c['verbose'] > 0 else None)      # one thread: lines do not mix
        note(ctx, 'run', kw)
        cr = crash_text(info)
        tag = {'equilibrium': {k: (v if not isinstance(v, np.ndarray) else v.tolist()) for k, v in kw.items()}}
        if info['rc'] == 'timeout':
            return
        if cr:
            ctx.fail(props + ['C13'], '%s in run() of a valid equilibrium %s' % (cr, kw), sc, tag)
            return
        t = throws(res)
        if t:
            if t[0].get('throw') == 'EigenAssert':
                ctx.fail(props + ['C13'], 'out-of-range access in run(): %s %s' % (t[0]['what'], kw), sc, tag)
            else:
                ctx.fail(props + ['C11'], 'exception in run() of a valid equilibrium: %s %s' % (t[0]['what'], kw), sc, tag)
            return
        got = H.obj([x for x in res if x['op'] == 'dump'][-1])
        o = oracle.run(c)
        for p, ks in SPEC.items():
            d = oracle.compare(o, got, ks)
            if d:
                ctx.fail([p] + (['C07'] if p == 'C01' and 'shape' in d else []), '%s for %s' % (d, kw), sc, tag)
        for k in INPUTS:
            if k in c and not close(got[k], c[k], 0):
                ctx.fail(['C07', 'C08'], 'run() changes the input %s for %s' % (k, kw), sc, tag)
        if c['verbose'] > 0:
            check_table(ctx, c, o, ''.join(x.get('stdout', '') for x in res), sc, kw)
    par(ctx, one, configs(ctx, n_random))


FLOAT = r'[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf)'


def check_table(ctx, c, o, text, sc, kw):
    """The accuracy rows: thread js_b js 0 | 3 + 3 numbers / pi | 3 + 3 numbers."""
    rows = {}
    lines = text.splitlines()
    i = 0
    cs = list(np.asarray(c['compute_surfs'], int))
    start = [q for q, ln in enumerate(lines) if ln.startswith('-----')]
    if not start:
        if len(cs):
            ctx.fail(['C09'], 'no accuracy table is printed for %s' % kw, sc)
        return
    body = lines[start[0] + 1:]
    found = {}
    for q, ln in enumerate(body):
        m = re.match(r'^\s*(\d+)\s+(\d+)\s+(\d+)\s+0\s+(.*)$', ln)
        if m and q + 1 < len(body) and re.match(r'^\s*pi\s', body[q + 1]):
            try:
                a = [float(x) for x in m.group(4).split()]
                b = [float(x) for x in body[q + 1].split()[1:]]
            except ValueError:
                continue
            found.setdefault(int(m.group(2)), []).append((int(m.group(3)), a, b))
    for jb, j in enumerate(cs):
        if len(found.get(jb, [])) != 1:
            ctx.fail(['C09'], 'accuracy table has %d rows for js_b=%d for %s' % (len(found.get(jb, [])), jb, kw), sc)
            return
        js, a, b = found[jb][0]
        if js != j:
            ctx.fail(['C09'], 'accuracy table names surface %d instead of %d for %s' % (js, j, kw), sc)
            return
        zp = 0.0 if c['nboz'] == 0 else np.pi / c['nfp']
        th, ze = np.array([0, np.pi, 0, np.pi]), np.array([0, 0, zp, zp])
        p = oracle.on_points(c, j, th, ze)
        ang = np.multiply.outer(p['thB'], o['xm_b']) - np.multiply.outer(p['zeB'], o['xn_b'])
        rec = np.cos(ang) @ o['bmnc_b'][:, jb]
        if c['asym']:
            rec = rec + np.sin(ang) @ o['bmns_b'][:, jb]
        want = []
        for k in range(4):
            e = abs(rec[k] - p['B'][k]) / max(rec[k], p['B'][k])
            want += [p['B'][k], rec[k], e]
        got = a + b
        if len(got) != 12:
            ctx.fail(['C09'], 'accuracy row has %d values for %s' % (len(got), kw), sc)
            return
        sc_ = np.max(np.abs(want))
        for k, (g, w) in enumerate(zip(got, want)):
            # three decimals are printed; the error column is itself a difference of nearly equal numbers
            tol = 1e-3 * abs(w) + (1e-9 * sc_ if k % 3 < 2 else 1e-7)
            if not abs(g - w) <= tol:
                ctx.fail(['C09'], 'accuracy table value %d of js_b=%d is %g, expected %g for %s' % (k, jb, g, w, kw), sc)
                return


# ------------------------------------------------------------ suites
def s_theory(ctx):
    sweep(ctx, [ctx.prop])


def s_symmetric(ctx):
    """C04"""
    ctx.exe()

    def one(kw):
        kw = dict(kw)
        kw.pop('asym', None)
        a = gen.equilibrium(asym=True, zero_asym=True, **kw)
        b = {k: v for k, v in gen.equilibrium(asym=True, zero_asym=True, **kw).items()
             if k not in ('rmns', 'zmnc', 'lmnc', 'bmns', 'bsubumns', 'bsubvmns')}
        b['asym'] = False
        sc = script_for(a, 0)
        script_for(b, 1, sc)
        sc.op('run', 0).op('run', 1).op('dump', 0).op('dump', 1)
        res, info = ctx.run(sc)
        note(ctx, 'asym with zero amplitudes', kw)
        if info['rc'] == 'timeout':
            return
        cr = crash_text(info)
        if cr or throws(res):
            ctx.fail(['C04', 'C13'], '%s for %s' % (cr or throws(res)[0], kw), sc)
            return
        d = [H.obj(x) for x in res if x['op'] == 'dump']
        o = oracle.run(a)
        for k in oracle.SYM_OUT:
            if np.asarray(d[0][k]).shape != np.asarray(d[1][k]).shape:
                ctx.fail(['C04'], '%s has shape %s with asym and %s without, for %s' % (k, d[0][k].shape, d[1][k].shape, kw), sc)
                return
        o2 = dict(o)
        for k in oracle.SYM_OUT:
            o2[k] = np.asarray(d[1][k])
        m = oracle.compare(o2, d[0], oracle.SYM_OUT + ['Boozer_I', 'Boozer_G', 'Boozer_I_all', 'Boozer_G_all', 'xm_b', 'xn_b'] + oracle.ASYM_OUT)
        if m:
            ctx.fail(['C04'], 'asym with zero amplitudes differs: %s for %s' % (m, kw), sc)
    par(ctx, one, [dict(k) for k in configs(ctx)])


def s_identity(ctx):
    """C05"""
    ctx.exe()

    def one(kw):
        kw = dict(kw)
        mp, nt = kw.get('mpol', 3), kw.get('ntor', 2)
        kw['mboz'] = max(kw.get('mboz', 4), mp, kw.get('mpol_nyq', mp + 1) + 1)
        kw['nboz'] = max(kw.get('nboz', 3), nt, kw.get('ntor_nyq', nt + 1))
        if not size_ok(kw):
            return
        c = gen.equilibrium(boozer=True, **kw)
        # make m=0 modes unique: m=0, n<0 folds into n>0 and is not in the output list
        sc = script_for(c).op('run', 0).op('dump', 0)
        res, info = ctx.run(sc)
        note(ctx, 'Boozer input', kw)
        if info['rc'] == 'timeout':
            return
        cr = crash_text(info)
        if cr or throws(res):
            ctx.fail(['C05', 'C13'], '%s for %s' % (cr or throws(res)[0], kw), sc)
            return
        got = H.obj([x for x in res if x['op'] == 'dump'][-1])
        o = oracle.run(c)
        ms, ns = o['xm_b'], o['xn_b']
        if not (close(got['xm_b'], ms) and close(got['xn_b'], ns)):
            return
        fam = [('rmnc', 'rmnc_b', 'xm', 1, 'r'), ('zmns', 'zmns_b', 'xm', -1, 'z'), ('bmnc', 'bmnc_b', 'xm_nyq', 1, 'B')]
        if c['asym']:
            fam += [('rmns', 'rmns_b', 'xm', -1, 'r'), ('zmnc', 'zmnc_b', 'xm', 1, 'z'), ('bmns', 'bmns_b', 'xm_nyq', -1, 'B')]
        for a, b, xm, par_, q in fam:
            want = np.zeros_like(o[b])
            xn = xm.replace('xm', 'xn')
            ok = True
            for i, (m, n) in enumerate(zip(c[xm], c[xn])):
                s = 1.0
                if m == 0 and n < 0:
                    n, s = -n, float(par_)
                k = np.where((ms == m) & (ns == n))[0]
                if len(k) != 1:
                    ok = False
                    continue
                if m == 0 and n == 0 and par_ < 0:
                    continue
                want[k[0]] += s * np.asarray(c[a])[i, c['compute_surfs']]
            if not ok:
                continue
            o2 = dict(o)
            o2[b] = want
            m = oracle.compare(o2, got, [b])
            if m:
                ctx.fail(['C05'], 'Boozer input is not returned unchanged: %s for %s' % (m, kw), sc)
        nu = np.asarray(got['numns_b'])
        if nu.size and np.max(np.abs(nu)) > 1e-12:
            ctx.fail(['C05'], 'nu is not zero (%g) for an input in Boozer angles, %s' % (np.max(np.abs(nu)), kw), sc)
    par(ctx, one, [dict(k) for k in configs(ctx)])


def s_independent(ctx):
    """C06: order, multiplicity, subset and thread count; data races."""
    ctx.exe()
    cfgs = [k for k in configs(ctx, 10) if k.get('ns_in', 3) >= 2][:60]

    def one(kw):
        kw = dict(kw)
        kw.pop('cs', None)
        kw['verbose'] = 0
        base = gen.equilibrium(**kw)
        ns = base['ns_in']
        r = np.random.default_rng(kw.get('seed', 0))
        lists = [list(range(ns)), list(range(ns))[::-1], [ns - 1], [0], [int(x) for x in r.integers(0, ns, ns + 2)]]
        ref = None
        for nt, lst in [(1, lists[0]), (4, lists[0]), (1, lists[1]), (2, lists[2]), (1, lists[3]), (3, lists[4]), (1, lists[4])]:
            c = dict(base, compute_surfs=np.array(lst, int))
            sc = script_for(c).op('run', 0).op('dump', 0)
            res, info = ctx.run(sc, threads=nt)
            if info['rc'] == 'timeout':
                return
            cr = crash_text(info)
            if cr or throws(res):
                ctx.fail(['C06', 'C13'], '%s for %s surfaces %s threads %d' % (cr or throws(res)[0], kw, lst, nt), sc)
                return
            got = H.obj([x for x in res if x['op'] == 'dump'][-1])
            if ref is None:
                ref = got
                continue
            for k in oracle.SYM_OUT + (oracle.ASYM_OUT if c['asym'] else []) + ['Boozer_I', 'Boozer_G', 's_b']:
                w = np.asarray(ref[k])
                if w.size == 0:
                    continue
                if w.ndim == 2 and w.shape[1] != ns or w.ndim == 1 and w.shape[0] != ns:
                    continue
                w = w[:, lst] if w.ndim == 2 else w[lst]
                g = np.asarray(got[k])
                if g.shape != w.shape or not close(g, w, 1e-9):
                    ctx.fail(['C06'], '%s depends on the other surfaces or on threads: %s for %s surfaces %s threads %d'
                             % (k, diff({k: g}, {k: w}, [k], 1e-9), kw, lst, nt), sc)
                    return
        note(ctx, 'orders and threads', kw)
    par(ctx, one, cfgs, 5)
    if ctx.hit():
        return
    # real interleavings under the race detector
    try:
        ctx.exe('tsan')
    except H.BuildError as e:
        ctx.errors.append('tsan build: %s' % str(e)[:200])
        return

    def race(kw):
        c = gen.equilibrium(**kw)
        sc = script_for(c).op('run', 0).op('dump', 0)
        res, info = ctx.run(sc, 'tsan', threads=4)
        note(ctx, 'race detector', kw)
        m = re.search(r'WARNING: ThreadSanitizer: data race.*?\n={10}', info['stderr'], re.S)
        if m:
            loc = [ln.strip() for ln in m.group(0).splitlines() if '_booz_xform' in ln or 'booz_xform::' in ln][:2]
            ctx.fail(['C06'], 'data race between surfaces: %s for %s' % (' / '.join(loc), kw), sc)
    L = [dict(asym=a, ns_in=6, verbose=v, seed=5) for a in (False, True) for v in (0, 1)]
    L += [dict(asym=True, nboz=0, ns_in=5, verbose=0, seed=6)] + [dict(k, ns_in=max(4, k.get('ns_in', 3))) for k in hinted(ctx.hints, 12)]
    par(ctx, race, [k for k in L if size_ok(k, 4000)], 3)


def s_history(ctx):
    """C07: the same inputs after another history give the same outputs."""
    ctx.exe()
    cf = configs(ctx, 16)
    r = np.random.default_rng(ctx.seed)
    pairs = []
    for i, k in enumerate(cf):
        other = cf[int(r.integers(len(cf)))]
        pairs.append((other, k))
        if i % 3 == 0:
            pairs.append((dict(k, asym=not k.get('asym', False)), k))
            pairs.append((k, k))

    def one(pr):
        a, b = pr
        ca, cb = gen.equilibrium(**dict(a, verbose=0)), gen.equilibrium(**dict(b, verbose=0))
        sc = script_for(ca, 0).op('run', 0)
        gen.load(sc, 0, cb)
        sc.op('run', 0).op('dump', 0)
        script_for(cb, 1, sc).op('run', 1).op('dump', 1)
        sc.op('run', 1).op('dump', 1)
        res, info = ctx.run(sc)
        note(ctx, 'history', {'first': a, 'then': b})
        if info['rc'] == 'timeout':
            return
        cr = crash_text(info)
        if cr or throws(res):
            ctx.fail(['C07', 'C13'], '%s for %s after %s' % (cr or throws(res)[0], b, a), sc)
            return
        d = [H.obj(x) for x in res if x['op'] == 'dump']
        for other, what in ((d[0], 'after another run'), (d[2], 'when run again')):
            m = diff(other, d[1], OUTPUTS, 1e-9)
            if m:
                ctx.fail(['C07'], '%s %s: %s (first %s)' % (m, what, b, a), sc)
        o = oracle.run(cb)
        m = oracle.compare(o, d[0], SPEC['C07'])
        for k in OUTPUTS:
            if np.asarray(d[0][k]).shape != np.asarray(o[k]).shape and not (np.asarray(o[k]).size == 0 and np.asarray(o[k]).ndim == 1):
                m = m or '%s has shape %s instead of %s' % (k, np.asarray(d[0][k]).shape, np.asarray(o[k]).shape)
        if m:
            ctx.fail(['C07'], '%s for %s after %s' % (m, b, a), sc)
    par(ctx, one, pairs)


VERB = (-2, 0, 1, 2, 3, 7)


def s_verbose(ctx):
    """C08"""
    ctx.exe()
    extra = [int(v) for v in ctx.hints.get('ints', []) if abs(v) <= 100][:6]

    def one(kw):
        kw = dict(kw)
        kw.pop('verbose', None)
        c = gen.equilibrium(**kw)
        sc = H.Script()
        vs = list(VERB) + extra
        for i, v in enumerate(vs):
            script_for(dict(c, verbose=v), i, sc).op('run', i).op('dump', i)
        res, info = ctx.run(sc, threads=1)
        note(ctx, 'verbosity', kw)
        if info['rc'] == 'timeout':
            return
        cr = crash_text(info)
        if cr or throws(res):
            ctx.fail(['C08', 'C13'], '%s for %s, verbose in %s' % (cr or throws(res)[0], kw, vs), sc)
            return
        d = [H.obj(x) for x in res if x['op'] == 'dump']
        for v, x in zip(vs, d):
            m = diff(x, d[1], [k for k in x if k != 'verbose'], 1e-12)
            if m:
                ctx.fail(['C08'], 'verbose=%d changes %s for %s' % (v, m, kw), sc)
                break
    par(ctx, one, configs(ctx, 8))


def s_table(ctx):
    """C09"""
    ctx.exe()

    def one(kw):
        for v in (1, 2):
            c = gen.equilibrium(**dict(kw, verbose=v))
            sc = script_for(c).op('run', 0).op('dump', 0)
            res, info = ctx.run(sc, threads=1)
            if info['rc'] == 'timeout':
                return
            cr = crash_text(info)
            if cr or throws(res):
                ctx.fail(['C09', 'C13'], '%s for %s' % (cr or throws(res)[0], kw), sc)
                return
            check_table(ctx, c, oracle.run(c), ''.join(x.get('stdout', '') for x in res), sc, kw)
        note(ctx, 'accuracy table', kw)
    par(ctx, one, configs(ctx, 12))


def s_trig(ctx):
    """C21"""
    ctx.exe()
    r = np.random.default_rng(ctx.seed)
    cases = [(3, 0, 0, 1), (3, 1, 1, 1), (4, 2, 2, 3), (5, 7, 3, 5), (1, 12, 0, 2), (2, 0, 9, 4), (0, 3, 3, 1), (7, 30, 30, 10)]
    for L in ctx.hints.get('ints', []):
        if 0 <= L <= 200:
            for d in (0, 1):
                cases += [(2, L + d, 3, 1), (2, 3, L + d, 1), (L + d, 4, 4, 1), (3, 4, 4, max(1, L + d))]
    cases += [(int(r.integers(1, 9)), int(r.integers(0, 25)), int(r.integers(0, 25)), int(r.integers(1, 12))) for _ in range(100 if ctx.thorough else 20)]

    def one(cs):
        K, mm, nn, nfp = cs
        th, ze = r.uniform(-7, 7, K), r.uniform(-7, 7, K)
        if K > 1:
            th[0] = ze[0] = 0
        sc = H.Script().op('trig', K, mm, nn, nfp, *[x.hex() for x in th], *[x.hex() for x in ze])
        res, info = ctx.run(sc)
        note(ctx, 'trig', dict(K=K, mmax=mm, nmax=nn, nfp=nfp))
        cr = crash_text(info)
        if cr or throws(res):
            ctx.fail(['C21', 'C13'], '%s for %s' % (cr or throws(res)[0], cs), sc)
            return
        got = {k: H.decode(v) for k, v in res[0].items() if k in ('cosm', 'sinm', 'cosn', 'sinn')}
        m, n = np.arange(mm + 1), np.arange(nn + 1) * nfp
        want = dict(cosm=np.cos(np.outer(th, m)), sinm=np.sin(np.outer(th, m)), cosn=np.cos(np.outer(ze, n)), sinn=np.sin(np.outer(ze, n)))
        for k in want:
            if want[k].size and not np.max(np.abs(got[k] - want[k])) < 1e-9:
                ctx.fail(['C21'], '%s table wrong by %g for %s' % (k, np.max(np.abs(got[k] - want[k])), cs), sc)
    par(ctx, one, cases)


def s_bad_surface(ctx):
    """C11, part of run()"""
    ctx.exe()

    def one(x):
        ns, cs, asym = x
        c = gen.equilibrium(ns_in=ns, cs=cs, asym=asym, seed=3)
        sc = script_for(c).op('run', 0)
        res, info = ctx.run(sc)
        note(ctx, 'bad surface', dict(ns_in=ns, cs=cs, asym=asym))
        cr = crash_text(info)
        t = throws(res)
        if cr or not t or t[0]['throw'] == 'EigenAssert':
            ctx.fail(['C11'] + (['C13'] if cr else []), 'run() with surfaces %s of %d: %s instead of an exception' % (cs, ns, cr or t or 'returns'), sc)
    L = [(3, [3], 0), (3, [-1], 0), (3, [0, 1, 2, 3], 1), (1, [1], 0), (4, [2, -1, 1], 1), (3, [1, 100], 0), (2, [2147483647], 0), (3, [-2147483648, 0], 1),
         (3, [0, 3, 1], 0), (3, [2, 1, 0, -2], 0)]
    par(ctx, one, L)


def s_safety(ctx):
    """C13, core part"""
    sweep(ctx, ['C13'])
    s_trig(ctx)
    if not ctx.hit():
        s_table(ctx)


SUITES = {'C01': [s_theory], 'C02': [s_theory], 'C03': [s_theory], 'C04': [s_symmetric], 'C05': [s_identity], 'C06': [s_independent],
          'C07': [s_history, s_theory], 'C08': [s_verbose], 'C09': [s_table], 'C11': [s_bad_surface], 'C13': [s_safety], 'C21': [s_trig]}


def run_suites(prop, seed=1, thorough=False, budget=120, hints=None, ctx=None):
    ctx = ctx or Ctx(prop, seed, thorough, budget, hints)
    import io_suites
    import file_suites
    import driver_suites
    import py_suites
    import bind_suites
    for s in SUITES.get(prop, []) + io_suites.SUITES.get(prop, []) + file_suites.SUITES.get(prop, []) + driver_suites.SUITES.get(prop, []) + py_suites.SUITES.get(prop, []) + bind_suites.SUITES.get(prop, []):
        if ctx.hit() or ctx.over():
            break
        s(ctx)
    return ctx


if __name__ == '__main__':
    import sys
    t = time.time()
    c = run_suites(sys.argv[1], budget=float(sys.argv[2]) if len(sys.argv) > 2 else 120)
    print(sys.argv[1], c.n, len(c.sigs), [f for f in c.fails][:5], c.errors[:5], round(time.time() - t, 1))

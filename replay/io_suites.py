"""Replays for loading and files (C10, C11, C12, C14-C17)."""
import os
import re
import shutil
import tempfile
import numpy as np
import harness as H
import gen
from suites import crash_text, throws, diff, par, note, close   # noqa: F401

SYM_M, ASYM_M = ['rmnc', 'zmns', 'lmns'], ['rmns', 'zmnc', 'lmnc']
SYM_Q, ASYM_Q = ['bmnc', 'bsubumnc', 'bsubvmnc'], ['bmns', 'bsubumns', 'bsubvmns']
FLUX = ['phip', 'chi', 'pres', 'phi']
OBJ_SCALARS = ['verbose', 'asym', 'nfp', 'mpol', 'ntor', 'mnmax', 'mpol_nyq', 'ntor_nyq', 'mnmax_nyq']


def vmec(seed=0, ns=4, nfp=3, mpol=3, ntor=2, mpol_nyq=None, ntor_nyq=None, asym=False, flux=True, verbose=0, zero=0, mlist=None,
         swap=False, perm=False, phi0=False, nul=False):
    """Full-grid VMEC data (the arguments of init_from_vmec and the fields set before it)."""
    r = np.random.default_rng(seed)
    mpol_nyq = mpol + 1 if mpol_nyq is None else mpol_nyq
    ntor_nyq = ntor + 1 if ntor_nyq is None else ntor_nyq

    def modes(ms, nmax):
        L = [(m, n * nfp) for m in ms for n in range(0 if m == 0 else -nmax, nmax + 1)]
        return np.array([x for x, _ in L], int), np.array([x for _, x in L], int)
    v = dict(verbose=verbose, asym=bool(asym), nfp=nfp, mpol=mpol, ntor=ntor, mpol_nyq=mpol_nyq, ntor_nyq=ntor_nyq, ns=ns, flux=flux)
    v['xm'], v['xn'] = modes(range(mpol) if mlist is None else mlist, ntor)
    v['xm_nyq'], v['xn_nyq'] = modes(range(mpol_nyq + 1), ntor_nyq)
    if swap or perm:
        # the last Nyquist mode has neither the largest m nor the largest n
        k = len(v['xm_nyq'])
        o = np.arange(k)
        o[1:] = r.permutation(o[1:]) if perm else np.concatenate([o[2:], o[1:2]])
        v['xm_nyq'], v['xn_nyq'] = v['xm_nyq'][o], v['xn_nyq'][o]
        v['mpol_nyq'], v['ntor_nyq'] = int(v['xm_nyq'][-1]), int(v['xn_nyq'][-1]) // nfp
    v['mnmax'], v['mnmax_nyq'] = len(v['xm']), len(v['xm_nyq'])
    for f in SYM_M + ASYM_M:
        v[f] = r.standard_normal((v['mnmax'], ns)) if f in SYM_M or asym else np.zeros((0, 0))
    for f in SYM_Q + ASYM_Q:
        v[f] = r.standard_normal((v['mnmax_nyq'], ns)) if f in SYM_Q or asym else np.zeros((0, 0))
    s = np.arange(ns) / (ns - 1) if ns > 1 else np.zeros(ns)
    for f in ('rmnc', 'rmns', 'zmnc', 'zmns'):
        if v[f].size:
            odd = (v['xm'] % 2 == 1)
            v[f][odd] *= np.sqrt(s)[None, :]
    for f in ('lmns', 'lmnc', 'bmnc', 'bmns', 'bsubumnc', 'bsubumns', 'bsubvmnc', 'bsubvmns'):
        if v[f].size and zero:
            v[f][:, 0] = 0
    v['iotas'] = r.random(ns) + 0.2
    for f in FLUX:
        v[f] = r.standard_normal(ns) if flux else np.zeros(0)
    if flux and phi0:
        v['phi'][-1] = 0
    if flux and nul:
        for f in FLUX:
            v[f][:] = 0
    return v


def half(v):
    """The half-grid rules of C10."""
    ns, n1 = v['ns'], v['ns'] - 1
    o = dict(ns_in=n1, mboz=6 * v['mpol'], nboz=max(2 * v['ntor'] - 1, 0), compute_surfs=np.arange(n1), iota=v['iotas'][1:])
    sf, sh = np.sqrt(np.arange(ns) / (ns - 1.0)), np.sqrt((np.arange(n1) + 0.5) / (ns - 1.0))
    o['s_in'] = (np.arange(n1) + 0.5) / (ns - 1.0)
    for f in ['lmns'] + SYM_Q + (['lmnc'] + ASYM_Q if v['asym'] else []):
        o[f] = v[f][:, 1:]
    for f in ['rmnc', 'zmns'] + (['rmns', 'zmnc'] if v['asym'] else []):
        a = np.zeros((v['mnmax'], n1))
        for i, m in enumerate(v['xm']):
            x = v[f][i]
            if m % 2 == 0:
                a[i] = 0.5 * (x[1:] + x[:-1])
            else:
                q = np.zeros(ns)
                q[1:] = x[1:] / sf[1:]
                if m == 1:
                    q[0] = 2 * q[1] - q[2]
                a[i] = 0.5 * (q[1:] + q[:-1]) * sh
        o[f] = a
    z = np.zeros(0)
    o['phip'] = -v['phip'] / (2 * np.pi) if v['flux'] else z
    for f in ('chi', 'pres', 'phi'):
        o[f] = v[f] if v['flux'] else z
    o['toroidal_flux'] = v['phi'][-1] if v['flux'] else 0.0
    for f in OBJ_SCALARS + ['xm', 'xn', 'xm_nyq', 'xn_nyq']:
        o[f] = v[f]
    return o


def load_vmec(sc, id, v):
    for k in OBJ_SCALARS + ['xm', 'xn', 'xm_nyq', 'xn_nyq']:
        sc.set(id, k, np.asarray(v[k], int) if k[0] == 'x' else v[k])
    for k in ['iotas'] + FLUX:
        sc.op('vec', k, sc.arr(np.asarray(v[k], float)))
    for k in SYM_M + ASYM_M + SYM_Q + ASYM_Q:
        sc.op('mat', k, sc.arr(np.asarray(v[k], float)))
    sc.op('init_from_vmec' if v['flux'] != 'omit' else 'init_from_vmec_noflux', id, v['ns'])
    return sc


def vsig(kw):
    return dict(kw)


def vmec_cases(ctx, n):
    r = np.random.default_rng(ctx.seed)
    L = []
    for asym in (False, True):
        for kw in (dict(), dict(ns=2, mpol=1), dict(ns=2, mlist=[0, 2, 4], mpol=5), dict(ns=3), dict(ns=9, mpol=6, ntor=1), dict(flux=False), dict(ntor=0, ntor_nyq=0),
                   dict(mpol=1), dict(nfp=1, ntor=4), dict(mlist=[0, 3, 5, 7], mpol=8), dict(mlist=[0, 1], mpol=2, ns=5), dict(verbose=1), dict(verbose=2, ns=3),
                   dict(verbose=2, mpol=1, ntor=0, ns=2), dict(ns=30, mpol=2, ntor=0, ntor_nyq=1), dict(mpol_nyq=0, ntor_nyq=0), dict(flux=False, verbose=2)):
            L.append(dict(kw, asym=asym, seed=len(L) + 1))
    for x in ctx.hints.get('ints', []):
        if 2 <= x <= 400:
            L += [dict(ns=max(x + d, 3), seed=x + d, mpol=2, ntor=1, asym=bool(d % 2)) for d in (0, 1)]
        if 1 <= x <= 60:
            L += [dict(mpol=x + 1, ntor=1, seed=x), dict(nfp=x, seed=x), dict(ntor=min(x, 12), seed=x), dict(mlist=[0, x, x + 1], mpol=x + 2, seed=x, asym=True)]
    for _ in range(n):
        L.append(dict(ns=int(r.integers(3, 14)), nfp=int(r.integers(1, 11)), mpol=int(r.integers(1, 8)), ntor=int(r.integers(0, 6)), asym=bool(r.integers(2)),
                      flux=bool(r.integers(2)), verbose=int(r.integers(3)), seed=int(r.integers(1 << 30)), mpol_nyq=int(r.integers(0, 9)), ntor_nyq=int(r.integers(0, 7))))
    return L


DIRTY = dict(nfp=2, mpol=5, ntor=3, ns_in=7, mboz=3, nboz=2, asym=True, seed=99)


def dirty(sc, id):
    """An object that has been used before."""
    c = gen.equilibrium(**DIRTY)
    gen.load(sc, id, c)
    for f in FLUX:
        sc.set(id, f, np.arange(8.0) + 1)
    sc.set(id, 'toroidal_flux', 5.0)
    sc.op('run', id)
    return sc


def check_half(ctx, props, v, got, kw, sc, what='init_from_vmec'):
    want = half(v)
    for k, w in want.items():
        if k not in got:
            continue
        g = got[k]
        ok = close(g, w, 1e-11) if isinstance(w, np.ndarray) else (abs(g - w) <= 1e-12 * max(1, abs(w)) if isinstance(w, float) else g == w)
        if not ok:
            ctx.fail(props, '%s: %s is %s instead of %s for %s' % (what, k, short(g), short(w), kw), sc)
            return


def short(x):
    return re.sub(r'\s+', ' ', str(x))[:160]


def s_half(ctx):
    """C10"""
    ctx.exe()

    def one(kw):
        v = vmec(**kw)
        for d in (0, 1):
            sc = H.Script().op('new', 0)
            if d:
                dirty(sc, 0)
            load_vmec(sc, 0, v)
            sc.op('dump', 0)
            res, info = ctx.run(sc)
            if info['rc'] == 'timeout':
                return
            note(ctx, 'init_from_vmec', dict(kw, dirty=d))
            cr = crash_text(info)
            if cr or throws(res):
                t = throws(res)
                ctx.fail(['C10', 'C11', 'C13'], '%s for consistent data %s' % (cr or t[0], kw), sc)
                return
            check_half(ctx, ['C10'], v, H.obj(res[-2]), kw, sc)
            if ctx.hit():
                return
    par(ctx, one, vmec_cases(ctx, 60 if ctx.thorough else 16))


def perturbed(kw):
    """Every single inconsistency of a consistent data set: (name, data)."""
    base = vmec(**kw)
    out = []

    def add(name, **ch):
        v = dict(base)
        v.update(ch)
        out.append((name, v))
    ns, mn, mq = base['ns'], base['mnmax'], base['mnmax_nyq']
    for f in ['iotas'] + (FLUX if base['flux'] else []):
        for d in (-1, 1):
            if f == 'phip' and ns + d == 0:
                continue
            add('%s has size %d' % (f, ns + d), **{f: np.resize(base[f], ns + d)})
    for f in ('chi', 'pres', 'phi'):
        if base['flux']:
            add('%s is empty' % f, **{f: np.zeros(0)})
    for f, n in (('xm', mn), ('xn', mn), ('xm_nyq', mq), ('xn_nyq', mq)):
        x = base[f]
        add('%s is one longer' % f, **{f: np.append(x, x[-1])})
        y = x[:-1].copy()
        if n > 1:
            y[-1] = x[-1]
            add('%s is one shorter' % f, **{f: y})
        add('%s is empty' % f, **{f: np.zeros(0, int)})
        z = x.copy()
        z[0] = 1 if f[1] == 'm' else base['nfp']
        if f[1] == 'm' or n > 1:
            add('%s does not start with 0' % f, **{f: z})
        if f[1] == 'm' and n > 2:
            w = x.copy()
            w[0], w[-1] = x[-1], x[0]
            if w[0]:
                add('%s is rotated' % f, **{f: w})
        if f[1] == 'n':
            for d in (-base['nfp'], base['nfp'], 1, -2 * x[-1]):
                if d and n > 1:
                    w = x.copy()
                    w[-1] += d
                    add('%s ends with %d' % (f, w[-1]), **{f: w})
    for f in SYM_M + SYM_Q + (ASYM_M + ASYM_Q if base['asym'] else []):
        a = base[f]
        R, C = a.shape
        for rr, cc in ((R + 1, C), (R - 1, C), (R, C + 1), (R, C - 1), (0, 0), (C, R) if C != R else (R + 2, C)):
            add('%s is %d x %d' % (f, rr, cc), **{f: np.resize(a, (max(rr, 0), max(cc, 0)))})
    for q in (0, -1, -base['nfp']):
        add('nfp = %d' % q, nfp=q)
    add('nfp and lists with the wrong sign', nfp=-base['nfp'], xn=-base['xn'], xn_nyq=-base['xn_nyq'])
    add('nfp = 0 and all n = 0', nfp=0, xn=0 * base['xn'], xn_nyq=0 * base['xn_nyq'])
    for n2 in (1, 0, -1):
        v = vmec(**dict(kw, ns=3))
        w = {f: v[f][:, :max(n2, 0)] for f in SYM_M + SYM_Q + ASYM_M + ASYM_Q if v[f].size}
        w.update({f: v[f][:max(n2, 0)] for f in ['iotas'] + FLUX})
        out.append(('ns = %d' % n2, dict(v, ns=n2, **w)))
    if 1 in base['xm']:
        v = vmec(**dict(kw, ns=2))
        out.append(('ns = 2 with m = 1 modes', v))
    add('mnmax = 0', mnmax=0, xm=np.zeros(0, int), xn=np.zeros(0, int), **{f: np.zeros((0, ns)) for f in SYM_M + ASYM_M})
    add('mnmax_nyq = 0', mnmax_nyq=0, xm_nyq=np.zeros(0, int), xn_nyq=np.zeros(0, int), **{f: np.zeros((0, ns)) for f in SYM_Q + ASYM_Q})
    for f, d in (('mnmax', 1), ('mnmax', -1), ('mnmax_nyq', 1), ('mnmax_nyq', -1), ('ns', 1), ('ns', -1), ('ntor', 1), ('ntor_nyq', 1), ('ntor', -1), ('ntor_nyq', -1)):
        add('%s %+d' % (f, d), **{f: base[f] + d})
    add('mnmax = -1', mnmax=-1)
    add('mnmax_nyq = -2', mnmax_nyq=-2)
    return out


def s_reject(ctx):
    """C11: each inconsistency alone is rejected, in a fresh and in a used object."""
    ctx.exe()
    bases = [dict(seed=1), dict(seed=2, asym=True), dict(seed=3, asym=True, flux=False), dict(seed=4, ns=3, mpol=2, ntor=1, verbose=2, asym=True), dict(seed=5, ns=5, mpol=4, ntor=1, flux=False)]
    for x in ctx.hints.get('ints', []):
        if 3 <= x <= 60:
            bases.append(dict(seed=x, ns=x, asym=True))
    items = [(kw, p) for kw in bases[:8] for p in perturbed(kw)]

    def one(x):
        kw, (name, v) = x
        for d in (0, 1):
            sc = H.Script().op('new', 0)
            if d:
                dirty(sc, 0)
            load_vmec(sc, 0, v)
            res, info = ctx.run(sc)
            if info['rc'] == 'timeout':
                return
            note(ctx, 'inconsistent: ' + name, dict(kw, dirty=d))
            cr, t = crash_text(info), throws(res)
            if cr or not t or t[0]['throw'] == 'EigenAssert':
                ctx.fail(['C11'] + (['C13'] if cr else []), 'init_from_vmec with %s (base %s): %s instead of an exception' % (name, kw, cr or t or 'accepted'), sc)
                return
    par(ctx, one, items)


SUITES = {'C10': [s_half], 'C11': [s_half, s_reject], 'C13': [s_half]}

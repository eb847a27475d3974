"""Valid equilibria for replays (deterministic)."""
import numpy as np

FIELDS = ['nfp', 'mpol', 'ntor', 'mnmax', 'mpol_nyq', 'ntor_nyq', 'mnmax_nyq', 'ns_in', 'mboz', 'nboz']


def equilibrium(seed=0, nfp=3, mpol=3, ntor=2, mpol_nyq=None, ntor_nyq=None, ns_in=3, mboz=4, nboz=3, asym=False, cs=None,
                full=True, lam=0.1, scale=1.0, extra_modes=0, verbose=0, zero_asym=False, boozer=False, shuffle=False, both_signs=False,
                iota=None, zeros=0, flip=0):
    r = np.random.default_rng(seed)
    mpol_nyq = mpol + 1 if mpol_nyq is None else mpol_nyq
    ntor_nyq = ntor + 1 if ntor_nyq is None else ntor_nyq

    def modes(mmax, nmax):
        ms, ns = [], []
        for m in range(mmax + 1):
            for n in range(0 if (m == 0 and not both_signs) else -nmax, nmax + 1):
                ms.append(m)
                ns.append(n * nfp)
        ms, ns = np.array(ms, int), np.array(ns, int)
        # (0,0) first
        i0 = [i for i in range(len(ms)) if ms[i] == 0 and ns[i] == 0][0]
        order = [i0] + [i for i in range(len(ms)) if i != i0]
        if shuffle:
            rest = order[1:]
            r.shuffle(rest)
            order = [i0] + list(rest)
        return ms[order], ns[order]
    c = dict(asym=bool(asym), nfp=nfp, mpol=mpol, ntor=ntor, mpol_nyq=mpol_nyq, ntor_nyq=ntor_nyq, ns_in=ns_in, mboz=mboz, nboz=nboz,
             verbose=verbose)
    c['xm'], c['xn'] = modes(mpol - 1, ntor)
    c['xm_nyq'], c['xn_nyq'] = modes(mpol_nyq, ntor_nyq)
    c['mnmax'], c['mnmax_nyq'] = len(c['xm']), len(c['xm_nyq'])

    def amp(ms, ns, a0, a):
        d = r.standard_normal((len(ms), ns_in)) * a / (1.0 + np.asarray(ms)[:, None] ** 2 + (np.asarray(ns)[:, None] / nfp) ** 2)
        d[0, :] = a0 * (1 + 0.1 * r.standard_normal(ns_in)) if a0 else d[0, :]
        return d
    xm, xn, xq, nq = c['xm'], c['xn'], c['xm_nyq'], c['xn_nyq']
    c['rmnc'], c['zmns'] = amp(xm, xn, 3.0, 0.5) * scale, amp(xm, xn, 0, 0.5) * scale
    c['lmns'] = amp(xm, xn, 0, lam) / (1 + ntor * nfp)
    c['bmnc'] = amp(xq, nq, 5.0, 0.4)
    c['bsubumnc'] = amp(xq, nq, 0.3, 0.2) / (1 + ntor * nfp)
    c['bsubvmnc'] = amp(xq, nq, 4.0, 0.2)
    if asym:
        c['rmns'], c['zmnc'] = amp(xm, xn, 0, 0.4), amp(xm, xn, 0.7, 0.4)
        c['lmnc'] = amp(xm, xn, 0, lam) / (1 + ntor * nfp)
        c['lmnc'][0, :] = 0
        c['bmns'] = amp(xq, nq, 0, 0.3)
        c['bsubumns'], c['bsubvmns'] = amp(xq, nq, 0, 0.2) / (1 + ntor * nfp), amp(xq, nq, 0, 0.2)
        if zero_asym:
            for k in ('rmns', 'zmnc', 'lmnc', 'bmns', 'bsubumns', 'bsubvmns'):
                c[k] = np.zeros_like(c[k])
    if boozer:
        for k in ('lmns', 'lmnc'):
            if k in c:
                c[k] = np.zeros_like(c[k])
        for k in ('bsubumnc', 'bsubvmnc', 'bsubumns', 'bsubvmns'):
            if k in c:
                c[k][1:, :] = 0
    if zeros:
        # amplitudes that vanish for a mode, for a surface, or for a whole family
        z = np.random.default_rng(zeros)
        rz, lam_, b, bs = ('rmnc', 'zmns', 'rmns', 'zmnc'), ('lmns', 'lmnc'), ('bmnc', 'bmns'), ('bsubumnc', 'bsubvmnc', 'bsubumns', 'bsubvmns')
        cosine, sine = ('rmnc', 'zmnc', 'lmnc', 'bmnc', 'bsubumnc', 'bsubvmnc'), ('rmns', 'zmns', 'lmns', 'bmns', 'bsubumns', 'bsubvmns')
        for i in range(1, max(len(xm), len(xq))):
            for grp in ((), rz, lam_, b, bs, bs[::2], bs[1::2], cosine, sine, rz + lam_ + b + bs, ('zmns', 'zmnc'), ('rmnc', 'rmns')):
                if z.random() < 0.12:
                    j = slice(None) if z.random() < 0.6 else int(z.integers(ns_in))
                    for k in grp:
                        if k in c and i < c[k].shape[0]:
                            c[k][i, j] = 0
    if flip & 1:
        for k in ('bsubumnc', 'bsubvmnc', 'bsubumns', 'bsubvmns'):
            if k in c:
                c[k] = -c[k]
    if flip & 2:
        for k in ('zmns', 'zmnc', 'lmns', 'lmnc'):
            if k in c:
                c[k] = -c[k]
    c['iota'] = (0.3 + 0.3 * r.random(ns_in)) if iota is None else np.full(ns_in, float(iota))
    c['s_in'] = (np.arange(ns_in) + 0.5) / ns_in + 0.01 * r.random(ns_in)
    c['compute_surfs'] = np.arange(ns_in) if cs is None else np.array(cs, int)
    return c


SET_ORDER = ['verbose', 'asym', 'nfp', 'mpol', 'ntor', 'mnmax', 'mpol_nyq', 'ntor_nyq', 'mnmax_nyq', 'ns_in', 'xm', 'xn', 'xm_nyq', 'xn_nyq',
             'rmnc', 'rmns', 'zmnc', 'zmns', 'lmnc', 'lmns', 'bmnc', 'bmns', 'bsubumnc', 'bsubumns', 'bsubvmnc', 'bsubvmns',
             'iota', 's_in', 'mboz', 'nboz', 'compute_surfs']


def load(sc, id, c):
    for k in SET_ORDER:
        if k in c:
            v = c[k]
            if k in ('xm', 'xn', 'xm_nyq', 'xn_nyq', 'compute_surfs'):
                v = np.asarray(v, int)
            elif k not in FIELDS and k not in ('verbose', 'asym'):
                v = np.asarray(v, float)
            sc.set(id, k, v)
    return sc


def jsonable(c):
    return {k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in c.items()}


def base_suite():
    """Small but diverse; every entry is a keyword dict for equilibrium()."""
    S = []
    for asym in (False, True):
        S += [dict(asym=asym), dict(asym=asym, nboz=0, ntor=0, ntor_nyq=0), dict(asym=asym, nboz=0), dict(asym=asym, mboz=1, nboz=1),
              dict(asym=asym, mboz=1, nboz=0), dict(asym=asym, nfp=1, both_signs=True), dict(asym=asym, nfp=5, mboz=6, nboz=2, shuffle=True),
              dict(asym=asym, mpol=1, ntor=3), dict(asym=asym, mpol=2, ntor=0, mpol_nyq=0, ntor_nyq=2), dict(asym=asym, mpol=6, ntor=4, mboz=3, nboz=2),
              dict(asym=asym, mpol_nyq=0, ntor_nyq=0), dict(asym=asym, ns_in=1), dict(asym=asym, ns_in=5, cs=[3, 0, 3, 4]),
              dict(asym=asym, ns_in=4, cs=[2]), dict(asym=asym, cs=[]), dict(asym=asym, lam=0.3, mboz=8, nboz=8, nfp=2, both_signs=True),
              dict(asym=asym, mboz=2, nboz=9, nfp=10), dict(asym=asym, mboz=12, nboz=1), dict(asym=asym, verbose=1, ns_in=2),
              dict(asym=asym, verbose=2, ns_in=2, nboz=0), dict(asym=asym, iota=-0.7), dict(asym=asym, iota=0.0),
              dict(asym=asym, zeros=1, ns_in=4), dict(asym=asym, zeros=2, both_signs=True), dict(asym=asym, zeros=3, flip=1),
              dict(asym=asym, flip=3, iota=-0.4), dict(asym=asym, flip=2, zeros=4, mpol=5)]
    for i, s in enumerate(S):
        s.setdefault('seed', i + 1)
    return S

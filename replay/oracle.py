"""Independent reference implementation of the documented theory (numpy, direct sums, no trig tables,
always the full grid over one field period), used to replay suspected violations on the real code."""
import numpy as np

SYM_OUT = ['bmnc_b', 'rmnc_b', 'zmns_b', 'numns_b', 'gmnc_b']
ASYM_OUT = ['bmns_b', 'rmns_b', 'zmnc_b', 'numnc_b', 'gmns_b']


def mode_list(mboz, nboz, nfp):
    ms, ns = [], []
    for m in range(mboz):
        for n in range(0 if m == 0 else -nboz, nboz + 1):
            ms.append(m)
            ns.append(n * nfp)
    return np.array(ms), np.array(ns)


def series(ms, ns, c, s, th, ze):
    """(f, df/dtheta, df/dzeta) of sum c cos(m th - n ze) + s sin(m th - n ze)."""
    ang = np.multiply.outer(th, ms) - np.multiply.outer(ze, ns)
    C, S = np.cos(ang), np.sin(ang)
    f = C @ c + S @ s
    ft = -S @ (c * ms) + C @ (s * ms)
    fz = S @ (c * ns) - C @ (s * ns)
    return f, ft, fz


def grid(mboz, nboz, nfp):
    nt = 2 * (2 * mboz + 1)
    nz = 1 if nboz == 0 else 2 * (2 * nboz + 1)
    th = np.repeat(np.arange(nt) * 2 * np.pi / nt, nz)
    ze = np.tile(np.arange(nz) * 2 * np.pi / (nfp * nz), nt)
    return nt, nz, th, ze


def on_points(c, j, th, ze):
    """All fields of input surface j at the points (th, ze)."""
    asym = c['asym']
    xm, xn, xmq, xnq = (np.asarray(c[k]) for k in ('xm', 'xn', 'xm_nyq', 'xn_nyq'))
    z, zq = np.zeros(len(xm)), np.zeros(len(xmq))

    def col(k, default):
        return np.asarray(c[k], float)[:, j] if (asym or k in ('rmnc', 'zmns', 'lmns', 'bmnc', 'bsubumnc', 'bsubvmnc')) else default
    r = series(xm, xn, col('rmnc', z), col('rmns', z), th, ze)
    Z = series(xm, xn, col('zmnc', z), col('zmns', z), th, ze)
    lam = series(xm, xn, col('lmnc', z), col('lmns', z), th, ze)
    B = series(xmq, xnq, col('bmnc', zq), col('bmns', zq), th, ze)
    buc, bvc, bus, bvs = col('bsubumnc', zq), col('bsubvmnc', zq), col('bsubumns', zq), col('bsubvmns', zq)
    ws, wc = np.zeros(len(xmq)), np.zeros(len(xmq))
    I = G = 0.0
    for k, (m, n) in enumerate(zip(xmq, xnq)):
        if m != 0:
            ws[k], wc[k] = buc[k] / m, -bus[k] / m
        elif n != 0:
            ws[k], wc[k] = -bvc[k] / n, bvs[k] / n
        else:
            I, G = buc[k], bvc[k]
    w = series(xmq, xnq, wc, ws, th, ze)
    iota = float(c['iota'][j])
    d = G + iota * I
    nu, nut, nuz = [(a - I * b) / d for a, b in zip(w, lam)]
    thB = th + lam[0] + iota * nu
    zeB = ze + nu
    jac = (1 + lam[1]) * (1 + nuz) + (iota - lam[2]) * nut     # d(thB, zeB)/d(th, ze)
    return dict(r=r[0], z=Z[0], B=B[0], nu=nu, thB=thB, zeB=zeB, dB=jac, g=d / B[0] ** 2, I=I, G=G)


def run(c):
    """Outputs of run() for the inputs c."""
    mboz, nboz, nfp, asym = c['mboz'], c['nboz'], c['nfp'], c['asym']
    ms, ns = mode_list(mboz, nboz, nfp)
    nt, nz, th, ze = grid(mboz, nboz, nfp)
    cs = np.asarray(c['compute_surfs'], int)
    o = dict(xm_b=ms, xn_b=ns, mnboz=len(ms), ns_b=len(cs), s_b=np.array([c['s_in'][j] for j in cs], float),
             ntheta=nt, nzeta=nz)
    for k in SYM_OUT:
        o[k] = np.zeros((len(ms), len(cs)))
    for k in ASYM_OUT:
        o[k] = np.zeros((len(ms), len(cs))) if asym else np.zeros((0, 0))
    o['Boozer_I'], o['Boozer_G'] = np.zeros(len(cs)), np.zeros(len(cs))
    o['Boozer_I_all'] = np.array(c['bsubumnc'], float)[0, :].copy()
    o['Boozer_G_all'] = np.array(c['bsubvmnc'], float)[0, :].copy()
    cond = np.zeros(len(cs))
    for jb, j in enumerate(cs):
        p = on_points(c, j, th, ze)
        ang = np.multiply.outer(ms, p['thB']) - np.multiply.outer(ns, p['zeB'])
        f = np.full(len(ms), 2.0 / (nt * nz))
        f[0] *= 0.5
        C = f[:, None] * np.cos(ang) * p['dB']
        S = f[:, None] * np.sin(ang) * p['dB']
        for k, cc, q in (('bmnc_b', C, 'B'), ('rmnc_b', C, 'r'), ('zmns_b', S, 'z'), ('numns_b', S, 'nu'), ('gmnc_b', C, 'g')):
            o[k][:, jb] = cc @ p[q]
        if asym:
            for k, cc, q in (('bmns_b', S, 'B'), ('rmns_b', S, 'r'), ('zmnc_b', C, 'z'), ('numnc_b', C, 'nu'), ('gmns_b', S, 'g')):
                o[k][:, jb] = cc @ p[q]
        o['Boozer_I'][jb], o['Boozer_G'][jb] = p['I'], p['G']
        # size of the terms summed, per quantity: scale for rounding comparisons
        cond[jb] = np.max(np.abs(p['dB'])) * (1 + np.max(np.abs(p['thB'])) * mboz + np.max(np.abs(p['zeB'])) * nboz * nfp)
        o.setdefault('scale', {})[jb] = {q: cond[jb] * np.max(np.abs(p[q])) for q in ('B', 'r', 'z', 'nu', 'g')}
    return o


QUANT = {'b': 'B', 'r': 'r', 'z': 'z', 'n': 'nu', 'g': 'g'}


def compare(o, got, what=None, tol=1e-9):
    """First disagreement between oracle outputs and a dumped object, or None."""
    for k in what or (SYM_OUT + ASYM_OUT + ['Boozer_I', 'Boozer_G', 'Boozer_I_all', 'Boozer_G_all', 'xm_b', 'xn_b', 'mnboz', 'ns_b', 's_b']):
        a, b = np.asarray(o[k]), np.asarray(got[k])
        if a.shape != b.shape:
            if a.size == 0 and b.size == 0 and k not in ASYM_OUT:
                continue
            return '%s has shape %s, expected %s' % (k, b.shape, a.shape)
        if a.size == 0:
            continue
        if k in SYM_OUT + ASYM_OUT:
            sc = np.array([o['scale'][jb][QUANT[k[0]]] for jb in range(a.shape[1])])[None, :]
            bad = ~(np.abs(a - b) <= tol * (sc + 1e-300) + 1e-13 * np.abs(sc))
        elif a.dtype.kind in 'iub':
            bad = a != b
        else:
            bad = ~((np.abs(a - b) <= 1e-12 * (np.abs(a) + np.abs(b))) | (a == b))
        if np.any(bad):
            i = tuple(int(x) for x in np.argwhere(bad)[0])
            return '%s%s = %.17g, expected %.17g' % (k, list(i), float(b[i]), float(a[i]))
    return None

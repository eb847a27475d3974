"""Contracts of the numerical core, written from the documented theory (not from the code)."""
import term as T
import solve as S
import sym as X
import cxx
from term import (Poly, Bool, TRUE, FALSE, ZERO, ONE, P, band, bnot, bor, br, atom_of, le, lt, ge, gt, eq, ne,
                  subst, ite, var, fresh, num, app, mk_sum, PI)
from sym import Arr, Str, LV, IDX, IATOM, Obj, INT_MAX

INPUT_INT = ['nfp', 'mpol', 'ntor', 'mnmax', 'mpol_nyq', 'ntor_nyq', 'mnmax_nyq', 'ns_in', 'mboz', 'nboz']
LB = {'nfp': 1, 'mpol': 1, 'ntor': 0, 'mnmax': 1, 'mpol_nyq': 0, 'ntor_nyq': 0, 'mnmax_nyq': 1, 'ns_in': 1, 'mboz': 1, 'nboz': 0}
MODE_ARR = {'rmnc': 0, 'rmns': 1, 'zmnc': 1, 'zmns': 0, 'lmnc': 1, 'lmns': 0}
NYQ_ARR = {'bmnc': 0, 'bmns': 1, 'bsubumnc': 0, 'bsubumns': 1, 'bsubvmnc': 0, 'bsubvmns': 1}
OUT_SYM = ['bmnc_b', 'rmnc_b', 'zmns_b', 'numns_b', 'gmnc_b']
OUT_ASYM = ['bmns_b', 'rmns_b', 'zmnc_b', 'numnc_b', 'gmns_b']
I0, I1 = IDX
# members of Booz_xform: documented inputs, documented outputs and everything else known here (work arrays)
INPUTS = ['verbose', 'asym', 'nfp', 'mpol', 'ntor', 'mnmax', 'mpol_nyq', 'ntor_nyq', 'mnmax_nyq', 'xm', 'xn', 'xm_nyq', 'xn_nyq', 'ns_in', 's_in', 'iota',
          'rmnc', 'rmns', 'zmnc', 'zmns', 'lmnc', 'lmns', 'bmnc', 'bmns', 'bsubumnc', 'bsubumns', 'bsubvmnc', 'bsubvmns', 'mboz', 'nboz',
          'compute_surfs', 'phip', 'chi', 'pres', 'phi', 'toroidal_flux', 'aspect']
OUTPUTS = ['mnboz', 'xm_b', 'xn_b', 'ns_b', 's_b', 'Boozer_I', 'Boozer_G', 'Boozer_I_all', 'Boozer_G_all', 'bmnc_b', 'rmnc_b', 'zmns_b', 'numns_b', 'gmnc_b',
           'bmns_b', 'rmns_b', 'zmnc_b', 'numnc_b', 'gmns_b']


def V(name):
    return var(name, 'I')


def input_state(tu, case, valid=True):
    """Arbitrary object whose public inputs satisfy the documented preconditions; every other
    member holds whatever an arbitrary history left behind."""
    st = X.State()
    S.reset()
    S.clear_caches()
    st.mem['this'] = Obj('Booz_xform')
    st.mem['ghost:stdout'] = ()
    I = {k: var(k, 'I', LB[k] if valid else None) for k in INPUT_INT}
    if case.get('nboz') == 'zero':
        I['nboz'] = ZERO
    elif case.get('nboz') == 'pos':
        I['nboz'] = var('nboz', 'I', 1)
    ncs = var('n_compute', 'I', 0)
    asym = case['asym']
    for f, d in tu.classes['Booz_xform'].items():
        t = X.strip_t(d['type'].get('desugaredQualType', d['type']['qualType']))
        k = 'this.' + f
        if f in I:
            v = I[f]
        elif f == 'asym':
            v = TRUE if asym else FALSE
        elif f == 'verbose':
            v = num(case['verbose']) if isinstance(case['verbose'], int) else case['verbose']
        elif f == 'compute_surfs':
            v = Arr([ncs], app('cs', (I0,), 'I'), 'I')
        elif f == 'xm':
            v = Arr([I['mnmax']], app('xm', (I0,), 'I'), 'I')
        elif f == 'xn':
            v = Arr([I['mnmax']], I['nfp'] * app('qn', (I0,), 'I'), 'I')
        elif f == 'xm_nyq':
            v = Arr([I['mnmax_nyq']], app('xmq', (I0,), 'I'), 'I')
        elif f == 'xn_nyq':
            v = Arr([I['mnmax_nyq']], I['nfp'] * app('qnq', (I0,), 'I'), 'I')
        elif f in ('iota', 's_in'):
            v = Arr([I['ns_in']], app(f, (I0,)), 'R')
        elif (f in MODE_ARR or f in NYQ_ARR):
            rows = I['mnmax'] if f in MODE_ARR else I['mnmax_nyq']
            only_asym = (MODE_ARR.get(f) or NYQ_ARR.get(f))
            if only_asym and not asym:
                # not used and need not be specified: arbitrary
                v = Arr([var('old_%s_rows' % f, 'I', 0), var('old_%s_cols' % f, 'I', 0)], app('old_' + f, IDX), 'R')
            else:
                v = Arr([rows, I['ns_in']], app(f, IDX), 'R')
        else:
            v = old_value(f, t)
        st.mem[k] = v
    st.assume(*facts(I, ncs))
    return st


def old_value(f, t):
    if t in X.CINT:
        return var('old_' + f, 'I')
    if t in ('double', 'float'):
        return var('old_' + f, 'R')
    if t == 'bool':
        return T.bvar('old_' + f)
    if X.is_arr_type(t):
        s, nd = X.arr_type(t)
        return Arr([var('old_%s_d%d' % (f, i), 'I', 0) for i in range(nd)], app('old_' + f, IDX[:nd], 'I' if s == 'I' else 'R'), s)
    if 'string' in t:
        return Str(('sym', 'old_' + f))
    raise X.Unsupported('member %s of type %s' % (f, t))


def facts(I, ncs):
    nfp, mpol, ntor = I['nfp'], I['mpol'], I['ntor']
    bs = []
    for k, v in I.items():
        if not v.is_const():
            bs += [le(v, INT_MAX // 8)]
            bs.append(ge(v, T.Ctx.lb.get(atom_of(v), LB[k]), raw=True))
    nt = 4 * I['mboz'] + 2
    nz = 4 * I['nboz'] + 2
    big = [nt * nz, (2 * I['nboz'] + 1) * I['mboz'], nfp * nz, nfp * ntor, nfp * I['ntor_nyq'], nfp * I['nboz'], ncs]
    bs += [le(b, INT_MAX) for b in big]

    def modes(n, mm, qn, mmax, nmax, first_only):
        def fm(i):
            r = band(le(0, i), lt(i, n))
            return [bor(bnot(r), band(le(0, app(mm, (i,), 'I')), le(app(mm, (i,), 'I'), mmax)))]

        def fq(i):
            r = band(le(0, i), lt(i, n))
            q = app(qn, (i,), 'I')
            # the product form keeps the solver linear: |nfp*q| <= nfp*nmax
            return [bor(bnot(r), band(le(-nmax, q), le(q, nmax))),
                    bor(bnot(r), band(le(-nfp * nmax, nfp * q), le(nfp * q, nfp * nmax)))]
        S.FACTS[mm] = fm
        S.FACTS[qn] = fq
    modes(I['mnmax'], 'xm', 'qn', mpol - 1, ntor, False)
    modes(I['mnmax_nyq'], 'xmq', 'qnq', I['mpol_nyq'], I['ntor_nyq'], True)
    S.FACTS['cs'] = lambda i: [bor(bnot(band(le(0, i), lt(i, ncs))),
                                   band(le(0, app('cs', (i,), 'I')), lt(app('cs', (i,), 'I'), I['ns_in'])))]

    # the (0,0) mode is entry 0 of the Nyquist list and appears nowhere else
    base_q = S.FACTS['xmq']

    def only_first(i):
        m, q = app('xmq', (i,), 'I'), app('qnq', (i,), 'I')
        r = band(le(1, i), lt(i, I['mnmax_nyq']))
        return base_q(i) + [bor(bnot(r), ne(m, 0), ne(q, 0))]
    S.FACTS['xmq'] = only_first
    bs += [eq(app('xmq', (ZERO,), 'I'), 0), eq(app('qnq', (ZERO,), 'I'), 0)]
    return bs


class InitTrig:
    """C21: tables of cos/sin(m theta), cos/sin(n nfp zeta)."""
    name = 'init_trig'

    def binds(self, ex, func):
        return len(func.params) == 9

    def apply(self, ex, st, this, args, node, func):
        args = cxx.to_contract(func, args)
        lvs = [ex.deref(st, a[1]) for a in args[:6]]
        th, ze, cm, sm, cn, sn = [ex.load(st, l, node) for l in lvs]
        mmax, nmax, nfp = [a[1] for a in args[6:]]
        for g, d in self.pre(th, ze, cm, sm, cn, sn, mmax, nmax, nfp):
            ex.obl('pre', st, g, node, 'init_trig: ' + d)
        K = th.dims[0]
        self.zero_pre(ex, st, sm, K, node)
        self.zero_pre(ex, st, sn, K, node)
        for l, v in zip(lvs[2:], self.post(th, ze, cm, sm, cn, sn, mmax, nmax, nfp)):
            ex.store(st, l, v, node)
        return X.VOID

    def pre(self, th, ze, cm, sm, cn, sn, mmax, nmax, nfp):
        K = th.dims[0]
        out = [(eq(K, ze.dims[0]), 'one zeta for each theta'), (ge(mmax, 0), 'mmax >= 0'), (ge(nmax, 0), 'nmax >= 0'),
               (band(lt(mmax, INT_MAX), lt(nmax, INT_MAX), le(K, INT_MAX)), 'counts representable')]
        for a, c, nm in ((cm, mmax, 'cosmx'), (sm, mmax, 'sinmx'), (cn, nmax, 'cosnx'), (sn, nmax, 'sinnx')):
            out.append((band(le(K, a.dims[0]), lt(c, a.dims[1])), nm + ' is large enough'))
        return out

    def zero_pre(self, ex, st, a, K, node):
        z = subst(a.body, {IATOM[1]: ZERO})
        pr = st.prem().plus(le(0, I0), lt(I0, K))
        if ex.quiet:
            return
        r, info = S.prove_zero(z, pr)
        ex.obl('pre', st, TRUE if r is True else FALSE, node, 'init_trig: column 0 of the sine table is zero')

    def post(self, th, ze, cm, sm, cn, sn, mmax, nmax, nfp):
        K = th.dims[0]
        X_ = subst(th.body, {})
        out = []
        for a, c, f, arg in ((cm, mmax, T.cos, I1 * th.body), (sm, mmax, T.sin, I1 * th.body),
                             (cn, nmax, T.cos, I1 * nfp * ze.body), (sn, nmax, T.sin, I1 * nfp * ze.body)):
            v = T.lift_call(f, (arg,))
            if a.dims[0] is K and a.dims[1] is c + 1:
                out.append(Arr(a.dims, v, a.sort))
            else:
                g = band(lt(I0, K), le(I1, c))
                out.append(Arr(a.dims, ite(g, v, a.body), a.sort))
        return out


TABLES = [('cosm', 'theta', 'mpol', -1, T.cos), ('sinm', 'theta', 'mpol', -1, T.sin),
          ('cosn', 'zeta', 'ntor', 0, T.cos), ('sinn', 'zeta', 'ntor', 0, T.sin),
          ('cosm_nyq', 'theta', 'mpol_nyq', 0, T.cos), ('sinm_nyq', 'theta', 'mpol_nyq', 0, T.sin),
          ('cosn_nyq', 'zeta', 'ntor_nyq', 0, T.cos), ('sinn_nyq', 'zeta', 'ntor_nyq', 0, T.sin)]


def after_init(st, case, opaque=True):
    """The state init() establishes (its postcondition), as precondition of surface_solve().
    With opaque=True the grids are named TH(j), ZE(j) and nzeta is a symbol >= 1."""
    m = st.mem
    g = lambda f: m['this.' + f]
    asym = case['asym']
    mboz, nboz, nfp = g('mboz'), g('nboz'), g('nfp')
    ncs = g('compute_surfs').dims[0]
    if opaque:
        nz = var('nzeta', 'I', 1)
        st.assume(ge(nz, 1, raw=True), le(nz, 4 * nboz + 2))
    else:
        nz = ite(eq(nboz, 0), 1, 4 * nboz + 2)
    nt = 4 * mboz + 2
    nu2 = 2 * mboz + 2
    nu3 = nt if asym else nu2
    N = nu3 * nz
    if opaque:
        st.assume(le(N, INT_MAX), le(N, (4 * mboz + 2) * nz), le(nt * nz, INT_MAX))
    dth = 2 * PI * T.inv(nt)
    dze = 2 * PI * T.inv(nfp * nz)
    it = T.fdiv(I0, nz)
    TH = app('TH', (I0,)) if opaque else dth * it
    ZE = app('ZE', (I0,)) if opaque else dze * (I0 - nz * it)
    mn = (2 * nboz + 1) * (mboz - 1) + nboz + 1
    if opaque:
        S.FACTS['xmb'] = lambda i: [bor(bnot(band(le(0, i), lt(i, mn))),
                                        band(le(0, app('xmb', (i,), 'I')), le(app('xmb', (i,), 'I'), mboz - 1)))]
        S.FACTS['qb'] = lambda i: [bor(bnot(band(le(0, i), lt(i, mn))),
                                       band(le(-nboz, app('qb', (i,), 'I')), le(app('qb', (i,), 'I'), nboz),
                                            le(-nfp * nboz, nfp * app('qb', (i,), 'I')), le(nfp * app('qb', (i,), 'I'), nfp * nboz)))]
        xmb, qb = app('xmb', (I0,), 'I'), app('qb', (I0,), 'I')
    else:
        xmb = T.fdiv(I0 + nboz, 2 * nboz + 1)
        qb = I0 - (2 * nboz + 1) * xmb
    new = dict(ntheta=nt, nzeta=nz, nu2_b=nu2, nu3_b=nu3, n_theta_zeta=N, d_theta=dth, d_zeta=dze, mnboz=mn, ns_b=ncs,
               theta_grid=Arr([N], TH), zeta_grid=Arr([N], ZE),
               xm_b=Arr([mn], xmb, 'I'), xn_b=Arr([mn], nfp * qb, 'I'),
               s_b=Arr([ncs], app('s_in', (app('cs', (I0,), 'I'),))),
               Boozer_I=Arr([ncs], ZERO), Boozer_G=Arr([ncs], ZERO),
               Boozer_I_all=Arr([g('ns_in')], app('bsubumnc', (ZERO, I0))),
               Boozer_G_all=Arr([g('ns_in')], app('bsubvmnc', (ZERO, I0))))
    for nm, grid, cnt, off, f in TABLES:
        arg = I1 * (TH if grid == 'theta' else nfp * ZE)
        new[nm] = Arr([N, g(cnt) + off + 1], T.lift_call(f, (arg,)))
    for nm in OUT_SYM:
        new[nm] = Arr([mn, ncs], ZERO)
    for nm in OUT_ASYM:
        new[nm] = Arr([mn, ncs], ZERO) if asym else Arr([0, 0], ZERO)
    return new


def surface_state(tu, case):
    """Precondition of surface_solve(js_b)."""
    st = input_state(tu, case)
    new = after_init(st, case)
    for k, v in new.items():
        st.mem['this.' + k] = v
    jsb = var('js_b', 'I', 0)
    st.assume(ge(jsb, 0, raw=True), lt(jsb, var('n_compute', 'I', 0)))
    return st, jsb


# ------------------------------------------------------------------ theory of one surface
def _A(p):
    return T.abbrev(p, IATOM)


def _sum(n, f):
    v = T.fresh('s')
    return mk_sum(v, ZERO, n, f(v))


def surface_fields(st, asym, js, th, ze, _A=_A):
    """Fields at the point (th, ze) of the surface with input column js, from the theory: eq. (3), (10), (11), (12) of the
    documentation."""
    g = lambda f: st.mem['this.' + f]
    nfp, mnmax, mnmax_nyq = g('nfp'), g('mnmax'), g('mnmax_nyq')

    def ser(n, mm, qn, terms):
        """Sum over the input modes of the given (coefficient, cos|sin|..., factor) terms."""
        def body(i):
            m, q = app(mm, (i,), 'I'), app(qn, (i,), 'I')
            arg = m * th - nfp * q * ze
            c, s = T.cos(arg), T.sin(arg)
            return T.addn([t(i, c, s, m, nfp * q) for t in terms])
        return _sum(n, body)

    def A(nm):
        return lambda i: app(nm, (i, js))

    def cosine_sine(cn, sn):
        ts = []
        if cn:
            ts.append(lambda i, c, s, m, n: A(cn)(i) * c)
        if sn:
            ts.append(lambda i, c, s, m, n: A(sn)(i) * s)
        return ts
    a = asym
    mode = lambda t: _A(ser(mnmax, 'xm', 'qn', t))
    nyq = lambda t: _A(ser(mnmax_nyq, 'xmq', 'qnq', t))
    f = {}
    f['r'] = mode(cosine_sine('rmnc', 'rmns' if a else None))
    f['z'] = mode(cosine_sine('zmnc' if a else None, 'zmns'))
    f['lambda'] = mode(cosine_sine('lmnc' if a else None, 'lmns'))
    ls, lc = A('lmns'), A('lmnc')
    f['dlt'] = mode([lambda i, c, s, m, n: m * c * ls(i)] + ([lambda i, c, s, m, n: -m * s * lc(i)] if a else []))
    f['dlz'] = mode([lambda i, c, s, m, n: -n * c * ls(i)] + ([lambda i, c, s, m, n: n * s * lc(i)] if a else []))
    f['bmod'] = nyq(cosine_sine('bmnc', 'bmns' if a else None))

    def wc(cu, cv, sgn):
        """Amplitude of w: d w/d theta = B_theta - I, d w/d zeta = B_zeta - G."""
        def c(i):
            m, q = app('xmq', (i,), 'I'), app('qnq', (i,), 'I')
            return sgn * ite(ne(m, 0), A(cu)(i) * T.inv(m), ite(ne(q, 0), -A(cv)(i) * T.inv(nfp * q), 0))
        return c
    ws, wcc = wc('bsubumnc', 'bsubvmnc', 1), wc('bsubumns', 'bsubvmns', -1)
    f['w'] = nyq([lambda i, c, s, m, n: ws(i) * s] + ([lambda i, c, s, m, n: wcc(i) * c] if a else []))
    f['dwt'] = nyq([lambda i, c, s, m, n: m * ws(i) * c] + ([lambda i, c, s, m, n: -m * wcc(i) * s] if a else []))
    f['dwz'] = nyq([lambda i, c, s, m, n: -n * ws(i) * c] + ([lambda i, c, s, m, n: n * wcc(i) * s] if a else []))
    I_, G_, io = app('bsubumnc', (ZERO, js)), app('bsubvmnc', (ZERO, js)), app('iota', (js,))
    D = T.inv(G_ + io * I_)
    f['nu'] = D * (f['w'] - I_ * f['lambda'])
    f['thB'] = _A(th + f['lambda'] + io * f['nu'])
    f['zeB'] = _A(ze + f['nu'])
    dnz = _A(D * (f['dwz'] - I_ * f['dlz']))
    dnt = _A(D * (f['dwt'] - I_ * f['dlt']))
    f['J'] = _A((1 + f['dlt']) * (1 + dnz) + (io - f['dlz']) * dnt)
    f['g'] = (G_ + io * I_) * T.inv(f['bmod'] * f['bmod'])
    f['nu'] = _A(f['nu'])
    return f, I_, G_


def integrand(kind, m, n, f, fld):
    """Integrand of eq. (10), (11) for the output mode (m, n)."""
    return (T.cos if kind == 'c' else T.sin)(m * f['thB'] - n * f['zeB']) * f['J'] * f[fld]


SPECTRA = {'bmnc_b': ('c', 'bmod'), 'rmnc_b': ('c', 'r'), 'zmns_b': ('s', 'z'), 'numns_b': ('s', 'nu'), 'gmnc_b': ('c', 'g')}
SPECTRA_ASYM = {'bmns_b': ('s', 'bmod'), 'rmns_b': ('s', 'r'), 'zmnc_b': ('c', 'z'), 'numnc_b': ('c', 'nu'), 'gmns_b': ('s', 'g')}


def surface_spec(st, case, js, _A=_A):
    """Fields on the grid (TH(j), ZE(j)), 0 <= j < n_theta_zeta, and output amplitudes.  Index variables: #0 grid point."""
    g = lambda f: st.mem['this.' + f]
    asym = case['asym']
    nfp, nz, mboz = g('nfp'), g('nzeta'), g('mboz')
    N = g('n_theta_zeta')
    f, I_, G_ = surface_fields(st, asym, js, app('TH', (I0,)), app('ZE', (I0,)), _A)

    # quadrature over one field period: nt x nz points; in the symmetric case the upper half
    # theta in (pi, 2 pi) is the mirror image of the lower one (lemma `reflect`, lean/Quadrature.lean)
    nt = 4 * mboz + 2
    fac = 2 * T.inv(nt) * T.inv(nz)
    xmb, qb = lambda i: app('xmb', (i,), 'I'), lambda i: app('qb', (i,), 'I')

    def amp(kind, fld):
        out = IDX[0]
        at = lambda p, j: subst(p, {IATOM[0]: j})

        def point(j):
            return integrand(kind, xmb(out), nfp * qb(out), {k: at(f[k], j) for k in ('thB', 'zeB', 'J', fld)}, fld)
        q = _sum(N, point)
        if not asym:
            v = T.fresh('s')
            first = mk_sum(v, ZERO, nz, point(v))
            last = q - _sum(nz * (2 * mboz + 1), point)
            q = 2 * q - first - last
        val = fac * q
        # the (0,0) amplitude is entry 0 and carries the extra 1/2
        return val - br(eq(out, 0)) * val * num(1) * T.inv(num(2))
    spec = dict(SPECTRA)
    if asym:
        spec.update(SPECTRA_ASYM)
    return f, {k: amp(*v) for k, v in spec.items()}, I_, G_

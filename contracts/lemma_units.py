"""C04, C05: lemmas over the contracts of init and surface_solve.

The contracts of init (grids, mode list) and surface_solve (amplitudes as quadratures) are brought, by obligations discharged
here, to the exact shape of the theorems of lean/Quadrature.lean; Lean checks those theorems for all sizes."""
import cxx
import core
import term as T
import solve as S
import sym as X
from core_units import CORE, sv
from units import unit
from term import ZERO, ONE, TRUE, FALSE, P, le, lt, ge, gt, eq, ne, band, bor, bnot, br, subst, var, app, num, ite, PI
from sym import IDX, IATOM

ODD_IN = ['rmns', 'zmnc', 'lmnc', 'bmns', 'bsubumns', 'bsubvmns']


def no_asym(p):
    return T.subst_fn(p, {k: (lambda i, j: ZERO) for k in ODD_IN})


def whole_turns(p):
    """cos and sin without integer multiples of 2 pi in their argument."""
    def red(a):
        if not isinstance(a, T.Atom) or a.kind != 'app' or a.name not in ('cos', 'sin'):
            return None
        x = T.transform(a.args[0], red)
        keep = {}
        for m, c in x.d.items():
            rest = tuple((u, e) for u, e in m if T.ATOMS[u] is not T.PI_ATOM)
            turns = sum(e for u, e in m if T.ATOMS[u] is T.PI_ATOM) == 1
            if turns and c % 2 == 0 and T.is_int(T.mk_poly({rest: int(c)})):
                continue
            keep[m] = c
        return (T.cos if a.name == 'cos' else T.sin)(T.mk_poly(keep))
    return T.transform(p, red)


def setting(asym, nboz):
    """Object after init(), with the grids and the mode list in closed form, and the one surface column js."""
    tu = cxx.TU(CORE)
    case = dict(asym=asym, verbose=sv(), nboz=nboz)
    st = core.input_state(tu, case)
    for k, v in core.after_init(st, case, opaque=False).items():
        st.mem['this.' + k] = v
    jsb = var('js_b', 'I', 0)
    st.assume(ge(jsb, 0, raw=True), lt(jsb, var('n_compute', 'I', 0)))
    return tu, case, st, app('cs', (jsb,), 'I')


def closed(st, p):
    """p (from surface_spec) with grids and mode list in init's closed form."""
    g = lambda f: st.mem['this.' + f]
    nfp = g('nfp')
    at = lambda a: (lambda i: subst(g(a).body, {IATOM[0]: i}))
    return T.subst_fn(p, {'TH': at('theta_grid'), 'ZE': at('zeta_grid')})


def modes(st, out):
    """(m, n/nfp) of output entry `out` by init's contract."""
    g = lambda f: st.mem['this.' + f]
    m = subst(g('xm_b').body, {IATOM[0]: out})
    n = g('xn_b').body
    q = subst(T.fdiv(n, g('nfp')) if not n.is_const() else n, {IATOM[0]: out})
    return m, q


def plain(x):
    return x


def grid_sum(hi, G):
    v = T.fresh('s')
    return T.mk_sum(v, ZERO, hi, G(v))


def half(M, n, G):
    """`half` of Quadrature.lean."""
    return 2 * grid_sum((M + 1) * n, G) - grid_sum(n, G) - (grid_sum((M + 1) * n, G) - grid_sum(M * n, G))


def at_point(st, case, js, kind, fld, m, q, fix, th=None, ze=None):
    f, _, _ = core.surface_fields(st, case['asym'], js, th, ze, plain)
    return fix(core.integrand(kind, m, st.mem['this.nfp'] * q, f, fld))


def on_grid(st, G):
    """j -> G(theta, zeta) with theta = 2 pi (j / n) / T, zeta = 2 pi (j % n) / (nfp n)."""
    g = lambda f: st.mem['this.' + f]
    Tn, n, nfp = 4 * g('mboz') + 2, g('nzeta'), g('nfp')

    def at(j):
        a = T.fdiv(j, n)
        return G(2 * PI * T.inv(Tn) * a, 2 * PI * T.inv(nfp * n) * (j - n * a))
    return at


def c04(nboz):
    def run(r):
        def go(asym):
            return setting(asym, nboz)
        tu, ca, sa, js = go(True)
        _, cs, ss, _ = go(False)
        g = lambda f: sa.mem['this.' + f]
        n, M, nfp = g('nzeta'), 2 * g('mboz') + 1, g('nfp')
        pc = sa.pc
        for f in ('xm_b', 'xn_b', 'nzeta', 'ntheta', 'mnboz', 's_b', 'Boozer_I_all', 'Boozer_G_all'):
            r.equal(['C04'], 'init: %s does not depend on asym' % f, pc, ss.mem['this.' + f], g(f), fn='init')
        fa, Ia, Ga = core.surface_fields(sa, True, js, var('th', 'R'), var('ze', 'R'), plain)
        fs, Is, Gs = core.surface_fields(ss, False, js, var('th', 'R'), var('ze', 'R'), plain)
        for k in fs:
            r.equal(['C04'], 'field %s with zero asymmetric amplitudes is the symmetric field' % k, pc, no_asym(fa[k]), fs[k], fn='surface_solve')
        r.equal(['C04'], 'I', pc, no_asym(Ia), Is, fn='surface_solve')
        r.equal(['C04'], 'G', pc, no_asym(Ga), Gs, fn='surface_solve')
        mo, qo = var('mo', 'I'), var('qo', 'I')
        th, ze = var('th', 'R'), var('ze', 'R')
        sym = dict(core.SPECTRA)
        for nm, (kind, fld) in list(sym.items()) + list(core.SPECTRA_ASYM.items()):
            G = lambda a, b: at_point(ss, cs, js, kind, fld, mo, qo, plain, a, b)
            base = G(th, ze)
            sgn = 1 if nm in sym else -1
            r.equal(['C04'], '%s: integrand at (-theta, -zeta) is %s' % (nm, 'the same' if sgn > 0 else 'the negative'), pc, G(-th, -ze), sgn * base, fn='surface_solve')
            r.equal(['C04'], '%s: integrand has period 2 pi in theta' % nm, pc, whole_turns(G(th + 2 * PI, ze)), base, fn='surface_solve')
            r.equal(['C04'], '%s: integrand has period 2 pi / nfp in zeta' % nm, pc, whole_turns(G(th, ze + 2 * PI * T.inv(nfp))), base, fn='surface_solve')
        r.equal(['C04'], 'the theta grid has 2M = T points per turn', pc, g('d_theta') * (2 * M), 2 * PI, fn='init')
        r.equal(['C04'], 'the zeta grid has n points per period', pc, g('d_zeta') * n, 2 * PI * T.inv(nfp), fn='init')
        # the two quadratures, in the shape of half_grid / odd_zero
        _, amps_a, _, _ = core.surface_spec(sa, ca, js, plain)
        _, amps_s, _, _ = core.surface_spec(ss, cs, js, plain)
        out = IDX[0]
        pre = tuple(pc) + (le(0, out), lt(out, g('mnboz')))
        w = 2 * T.inv(2 * M) * T.inv(n)
        norm = lambda q: w * q - br(eq(out, 0)) * w * q * num(1) * T.inv(num(2))
        xmb, qb = app('xmb', (out,), 'I'), app('qb', (out,), 'I')
        for nm, (kind, fld) in list(sym.items()) + list(core.SPECTRA_ASYM.items()):
            G = on_grid(ss, lambda a, b: at_point(ss, cs, js, kind, fld, xmb, qb, plain, a, b))
            r.equal(['C04'], '%s with asym=true is the sum of half_grid / odd_zero over the whole grid' % nm, pre, closed(sa, no_asym(amps_a[nm])),
                    norm(grid_sum(2 * M * n, G)), fn='surface_solve')
            if nm in sym:
                r.equal(['C04'], '%s with asym=false is the half-grid side of half_grid' % nm, pre, closed(ss, amps_s[nm]), norm(half(M, n, G)), fn='surface_solve')
    return run


def c05(asym, nboz):
    def run(r):
        tu, case, st, js = setting(asym, nboz)
        g = lambda f: st.mem['this.' + f]
        n, M, nfp, mboz, nb = g('nzeta'), 2 * g('mboz') + 1, g('nfp'), g('mboz'), g('nboz')
        Tn = 2 * M
        pc = tuple(st.pc)
        mq, qq = lambda i: app('xmq', (i,), 'I'), lambda i: app('qnq', (i,), 'I')
        keep = {'lmns': lambda i, j: ZERO, 'lmnc': lambda i, j: ZERO,
                'bsubumnc': lambda i, j: br(eq(mq(i), 0)) * app('bu', (i, j)), 'bsubumns': lambda i, j: br(eq(mq(i), 0)) * app('bus', (i, j)),
                'bsubvmnc': lambda i, j: (1 - br(band(eq(mq(i), 0), ne(qq(i), 0)))) * app('bv', (i, j)),
                'bsubvmns': lambda i, j: (1 - br(band(eq(mq(i), 0), ne(qq(i), 0)))) * app('bvs', (i, j))}
        boozer = lambda p: T.subst_fn(p, keep)
        th, ze = var('th', 'R'), var('ze', 'R')
        f, _, _ = core.surface_fields(st, asym, js, th, ze, plain)
        for k, want in (('w', ZERO), ('lambda', ZERO), ('nu', ZERO), ('thB', th), ('zeB', ze), ('J', ONE)):
            r.equal(['C05'], '%s when lambda and w vanish' % k, pc, boozer(f[k]), want, fn='surface_solve')
        out = IDX[0]
        inr = (le(0, out), lt(out, g('mnboz')))
        mo, qo = modes(st, out)
        r.equal(['C05'], 'mode list: xn_b = nfp * q', pc + inr, g('xn_b').body, nfp * qo, fn='init')
        r.prove(['C05'], 'post', 'mode list: 0 <= m <= K = mboz - 1', pc + inr, band(le(0, mo), le(mo, mboz - 1)), fn='init')
        r.prove(['C05'], 'post', 'mode list: |n| <= L = nboz', pc + inr, band(le(-nb, qo), le(qo, nb)), fn='init')
        r.prove(['C05'], 'post', 'mode list: n >= 0 for m = 0', pc + inr, bor(ne(mo, 0), le(0, qo)), fn='init')
        r.prove(['C05'], 'post', 'entry 0 and only entry 0 is (0,0)', pc + inr,
                bor(band(eq(out, 0), eq(mo, 0), eq(qo, 0)), band(ne(out, 0), bor(ne(mo, 0), ne(qo, 0)))), fn='init')
        r.prove(['C05'], 'post', '2K < T, 2L < n, 0 < n', pc, band(lt(2 * (mboz - 1), Tn), lt(2 * nb, n), lt(0, n)), fn='init')
        _, amps, _, _ = core.surface_spec(st, case, js, plain)
        xmb, qb = app('xmb', (out,), 'I'), app('qb', (out,), 'I')
        series = {'bmnc_b': ('mnmax_nyq', 'xmq', 'qnq', 'bmnc', 'bmns'), 'rmnc_b': ('mnmax', 'xm', 'qn', 'rmnc', 'rmns'),
                  'zmns_b': ('mnmax', 'xm', 'qn', 'zmnc', 'zmns')}
        if asym:
            series.update({'bmns_b': series['bmnc_b'], 'rmns_b': series['rmnc_b'], 'zmnc_b': series['zmns_b']})
        spectra = dict(core.SPECTRA, **core.SPECTRA_ASYM)
        w = 2 * T.inv(Tn) * T.inv(n)
        only = {'r': 'c', 'bmod': 'c', 'z': 's'}
        for nm in amps:
            kind, fld = spectra[nm]
            got = closed(st, boozer(amps[nm]))
            if fld == 'nu':
                r.equal(['C05'], '%s is zero' % nm, pc + inr, got, ZERO, fn='surface_solve')
            if nm not in series:
                continue
            cnt, mm, qn, c, s = series[nm]

            def ang(m, q, a, b):
                return 2 * PI * (m * a * T.inv(Tn) - q * b * T.inv(n))

            def G(j):
                a = T.fdiv(j, n)
                b = j - n * a

                def term(i):
                    x = ang(app(mm, (i,), 'I'), app(qn, (i,), 'I'), a, b)
                    ts = []
                    if asym or only[fld] == 'c':
                        ts.append(app(c, (i, js)) * T.cos(x))
                    if asym or only[fld] == 's':
                        ts.append(app(s, (i, js)) * T.sin(x))
                    return T.addn(ts)
                v = T.fresh('s')
                return (T.cos if kind == 'c' else T.sin)(ang(xmb, qb, a, b)) * T.mk_sum(v, ZERO, g(cnt), term(v))
            q = grid_sum(Tn * n, G) if asym else half(M, n, G)
            lemma = 'identity%s_%s' % ('' if asym else '_half', 'cos' if kind == 'c' else 'sin')
            r.equal(['C05'], '%s is the left side of lemma %s' % (nm, lemma), pc + inr, got, w * q - br(eq(out, 0)) * w * q * num(1) * T.inv(num(2)),
                    fn='surface_solve')
    return run


for _n in ('zero', 'pos'):
    unit('lemma C04[nboz %s]' % _n, ['C04'])(c04(_n))
    for _a in (False, True):
        unit('lemma C05[asym=%d, nboz %s]' % (_a, _n), ['C05'])(c05(_a, _n))

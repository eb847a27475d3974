"""init_from_vmec: what is accepted (C11), the half-grid rules (C10), safety (C13)."""
import term as T
import solve as S
import sym as X
import cxx
import core
from units import unit
from core_units import the, KNOWN, sv
from term import ZERO, ONE, TRUE, FALSE, P, Poly, Bool, le, lt, ge, gt, eq, ne, band, bor, bnot, br, subst, var, app, num, ite
from sym import Arr, IDX, IATOM, INT_MAX

MODE_SYM, MODE_ASYM = ['rmnc', 'zmns', 'lmns'], ['rmns', 'zmnc', 'lmnc']
NYQ_SYM, NYQ_ASYM = ['bmnc', 'bsubumnc', 'bsubvmnc'], ['bmns', 'bsubumns', 'bsubvmns']
FLUX = ['phip', 'chi', 'pres', 'phi']
ORDER = ['iotas', 'rmnc', 'rmns', 'zmnc', 'zmns', 'lmnc', 'lmns', 'bmnc', 'bmns', 'bsubumnc', 'bsubumns', 'bsubvmnc', 'bsubvmns'] + FLUX


def state(tu, asym):
    """Any object, any ns, any arrays of any size."""
    st = X.State()
    S.reset()
    S.clear_caches()
    st.mem['this'] = X.Obj('Booz_xform')
    st.mem['ghost:stdout'] = ()
    for f, d in tu.classes['Booz_xform'].items():
        t = X.strip_t(d['type'].get('desugaredQualType', d['type']['qualType']))
        k = 'this.' + f
        if f in ('nfp', 'mpol', 'ntor', 'mnmax', 'mpol_nyq', 'ntor_nyq', 'mnmax_nyq'):
            v = var(f, 'I')
        elif f == 'asym':
            v = TRUE if asym else FALSE
        elif f == 'verbose':
            v = sv()
        elif f in ('xm', 'xn', 'xm_nyq', 'xn_nyq'):
            v = Arr([var('len_' + f, 'I', 0)], app('in_' + f, (IDX[0],), 'I'), 'I')
        else:
            v = core.old_value(f, t)
        st.mem[k] = v
    args = {'ns': var('ns', 'I')}
    for a in ORDER:
        if a == 'iotas' or a in FLUX:
            args[a] = Arr([var('len_' + a, 'I', 0)], app('v_' + a, (IDX[0],)), 'R')
        else:
            b = app('v_' + a, IDX)
            if a in ('rmnc', 'rmns', 'zmnc', 'zmns'):
                # regularity: amplitudes of odd m > 1 vanish on the axis
                m = app('in_xm', (IDX[0],), 'I')
                b = b * br(bnot(band(eq(IDX[1], 0), bnot(spec_even(m)), ne(m, 1))))
            args[a] = Arr([var('rows_' + a, 'I', 0), var('cols_' + a, 'I', 0)], b, 'R')
    lim = 1 << 24
    for v in ('nfp', 'mpol', 'ntor', 'mnmax', 'mpol_nyq', 'ntor_nyq', 'mnmax_nyq', 'ns', 'len_xm', 'len_xn', 'len_xm_nyq', 'len_xn_nyq'):
        st.assume(le(var(v, 'I'), lim), ge(var(v, 'I'), -lim, raw=True))
    for a, b in (('nfp', 'ntor'), ('nfp', 'ntor_nyq')):
        p = var(a, 'I') * var(b, 'I')
        st.assume(le(p, INT_MAX), ge(p, -INT_MAX))
    return st, args


def consistent(st, args, asym):
    """The documented consistency conditions: (name, Boolean)."""
    g = lambda f: st.mem['this.' + f]
    ns, nfp, mn, mnq = args['ns'], g('nfp'), g('mnmax'), g('mnmax_nyq')
    out = [('ns >= 2', ge(ns, 2)), ('nfp >= 1', ge(nfp, 1)), ('mnmax >= 1', ge(mn, 1)), ('mnmax_nyq >= 1', ge(mnq, 1)),
           ('size of iota', eq(args['iotas'].dims[0], ns))]
    pres = ne(args['phip'].dims[0], 0)
    for f in FLUX:
        out.append(('size of ' + f, bor(bnot(pres), eq(args[f].dims[0], ns))))
    for f, c in (('xm', mn), ('xn', mn), ('xm_nyq', mnq), ('xn_nyq', mnq)):
        out.append(('size of ' + f, eq(g(f).dims[0], c)))
        out.append(('first entry of %s is 0' % f, eq(app('in_' + f, (ZERO,), 'I'), 0)))
    out.append(('last xn is nfp*ntor', eq(app('in_xn', (mn - 1,), 'I'), nfp * g('ntor'))))
    out.append(('last xn_nyq is nfp*ntor_nyq', eq(app('in_xn_nyq', (mnq - 1,), 'I'), nfp * g('ntor_nyq'))))
    for fs, c in ((MODE_SYM + (MODE_ASYM if asym else []), mn), (NYQ_SYM + (NYQ_ASYM if asym else []), mnq)):
        for f in fs:
            out.append(('rows of ' + f, eq(args[f].dims[0], c)))
            out.append(('columns of ' + f, eq(args[f].dims[1], ns)))
    return out


def half_grid(st, args, asym):
    """What the object holds afterwards (C10)."""
    g = lambda f: st.mem['this.' + f]
    ns, mn, mnq = args['ns'], g('mnmax'), g('mnmax_nyq')
    n1 = ns - 1
    i, j = IDX
    hs = T.inv(n1)
    sh = T.sqrt(hs * (j + T.num(T.Fraction(1, 2))))
    sf = lambda q: T.sqrt(hs * q)
    m = app('in_xm', (i,), 'I')
    out = {'ns_in': n1, 'mboz': 6 * g('mpol'), 'nboz': ite(lt(2 * g('ntor') - 1, 0), 0, 2 * g('ntor') - 1),
           's_in': Arr([n1], hs * (i + T.num(T.Fraction(1, 2))), 'R'), 'iota': Arr([n1], app('v_iotas', (i + 1,)), 'R'),
           'compute_surfs': Arr([n1], i, 'I')}
    for f in ['lmns'] + (['lmnc'] if asym else []):
        out[f] = Arr([mn, n1], app('v_' + f, (i, j + 1)), 'R')
    for f in NYQ_SYM + (NYQ_ASYM if asym else []):
        out[f] = Arr([mnq, n1], app('v_' + f, (i, j + 1)), 'R')
    even = spec_even(m)
    for f in ['rmnc', 'zmns'] + (['rmns', 'zmnc'] if asym else []):
        a = lambda q, f=f: app('v_' + f, (i, q))
        ratio = lambda q, a=a: a(q) * T.inv(sf(q))
        # amplitude / sqrt(s) on the axis: 0 for odd m > 1 by regularity, extrapolated for m = 1
        axis = ite(eq(m, 1), 2 * ratio(ONE) - ratio(num(2)), 0)
        left = ite(eq(j, 0), axis, ratio(j))
        odd = T.num(T.Fraction(1, 2)) * (left + ratio(j + 1)) * sh
        out[f] = Arr([mn, n1], ite(even, T.num(T.Fraction(1, 2)) * (a(j) + a(j + 1)), odd), 'R')
    return out


def spec_even(m):
    return eq(m - 2 * T.tdiv(m, 2), 0)


def runner(asym):
    def run(r):
        tu = cxx.TU(['init_from_vmec.cpp', 'booz_xform.cpp'])
        ex = X.Executor(tu)
        st, args = state(tu, asym)
        f = the(tu, 'Booz_xform', 'init_from_vmec')
        if len(f.params) != 1 + len(ORDER):
            raise cxx.ExtractError('init_from_vmec has another signature')
        call = [('val', args['ns'])]
        for a in ORDER:
            st.mem['a:' + a] = args[a]
            call.append(('ref', X.LV('a:' + a)))
        ent = st.copy()
        outs = ex.run_function(f, st, 'this', call, None)
        r.functions.add('Booz_xform::init_from_vmec')
        cons = consistent(ent, args, asym)
        m1 = None
        rets = [o for o in outs if o.kind in ('return', 'next')]
        thr = [o for o in outs if o.kind == 'throw']
        for o in outs:
            if o.kind not in ('return', 'next', 'throw'):
                r.prove(['C11', 'C13'], 'post', 'init_from_vmec does not end in %s' % o.kind, o.st.pc, FALSE, fn='init_from_vmec')
        if not rets:
            r.add(['C10', 'C11'], 'post', 'init_from_vmec accepts some data', 'refuted', 'normal_form', fn='init_from_vmec')
        # accepted data is consistent
        for o in rets:
            for nm, b in cons:
                r.prove(['C11'], 'post', 'accepted only if: ' + nm, o.st.pc, b, fn='init_from_vmec')
            i = var('i', 'I', 0)
            r.prove(['C11'], 'post', 'accepted only if: ns >= 3 when there are m = 1 modes',
                    list(o.st.pc) + [lt(i, ent.mem['this.mnmax']), eq(app('in_xm', (i,), 'I'), 1)], ge(args['ns'], 3), fn='init_from_vmec')
        # consistent data is never rejected
        for n, o in enumerate(thr):
            pc = list(o.st.pc) + [b for _, b in cons]
            # ns >= 3 or no mode with m = 1, as an assumption on consistent data
            old = S.FACTS.get('in_xm')
            no1 = T.bvar('no_m1')
            S.FACTS['in_xm'] = lambda q, old=old: (list(old(q)) if old else []) + [
                bor(bnot(no1), bnot(band(le(0, q), lt(q, ent.mem['this.mnmax']))), ne(app('in_xm', (q,), 'I'), 1))]
            S.clear_caches()
            pc.append(bor(no1, ge(args['ns'], 3)))
            r.prove(['C11'], 'post', 'consistent data is not rejected (throw %d)' % n, pc, FALSE, fn='init_from_vmec')
            if old:
                S.FACTS['in_xm'] = old
            else:
                S.FACTS.pop('in_xm', None)
            S.clear_caches()
        want = half_grid(ent, args, asym)
        for o in rets:
            sel = r_sel(o, args)
            for k, v in dict(want, **flux(args, sel)).items():
                r.equal(['C10', 'C12'], 'init_from_vmec: %s as specified' % k, o.st.pc, o.st.mem['this.' + k], v, fn='init_from_vmec')
            for k in ('asym', 'nfp', 'mpol', 'ntor', 'mnmax', 'mpol_nyq', 'ntor_nyq', 'mnmax_nyq', 'xm', 'xn', 'xm_nyq', 'xn_nyq', 'verbose'):
                r.equal(['C10', 'C12'], 'init_from_vmec leaves %s unchanged' % k, o.st.pc, o.st.mem['this.' + k], ent.mem['this.' + k], fn='init_from_vmec',
                        cat='frame')
            for a in ORDER:
                r.equal(['C10', 'C12'], 'init_from_vmec leaves the argument %s unchanged' % a, o.st.pc, o.st.mem['a:' + a], args[a],
                        fn='init_from_vmec', cat='frame', lvl='int')
        r.take(ex)
        r.uninit(ex, rets, ['this.'])
    return run


def r_sel(o, args):
    """Flux profiles given on this path?  (the paths may also be merged: then the specification stays conditional)"""
    return ne(args['phip'].dims[0], 0)


def flux(args, given):
    i = IDX[0]
    ns = args['ns']
    d = ite(given, ns, 0)
    inv2pi = T.inv(2 * T.PI)
    return {'phip': Arr([d], -app('v_phip', (i,)) * inv2pi, 'R'), 'chi': Arr([d], app('v_chi', (i,)), 'R'),
            'pres': Arr([d], app('v_pres', (i,)), 'R'), 'phi': Arr([d], app('v_phi', (i,)), 'R'),
            'toroidal_flux': ite(given, app('v_phi', (ns - 1,)), 0)}


for _a in (False, True):
    unit('init_from_vmec[asym=%d]' % _a, ['C10', 'C11', 'C13'])(runner(_a))

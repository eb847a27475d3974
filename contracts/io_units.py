"""Files: read_wout (C12), write_boozmn (C14), read_boozmn, the round trip (C15), failure of the library (C16)."""
from fractions import Fraction
import term as T
import solve as S
import sym as X
import cxx
import core
import ncmodel as NC
from units import unit
from core_units import the
from vmec_units import MODE_SYM, MODE_ASYM, NYQ_SYM, NYQ_ASYM, FLUX, ORDER
from term import ZERO, ONE, TRUE, FALSE, P, Poly, Bool, le, lt, ge, gt, eq, ne, band, bor, bnot, br, subst, var, app, num, ite
from sym import Arr, Str, IDX, IATOM, INT_MAX, Opaque

FILES = ['booz_xform.cpp', 'netcdf_reader.cpp', 'netcdf_writer.cpp']
LIM = 1 << 24


def old_object(tu, prefix='old_'):
    st = X.State()
    S.reset()
    S.clear_caches()
    st.mem['this'] = X.Obj('Booz_xform')
    st.mem['ghost:stdout'] = ()
    st.mem['ghost:nc'] = ()
    put_object(tu, st, 'this')
    return st


def put_object(tu, st, key):
    st.mem[key] = X.Obj('Booz_xform')
    for f, d in tu.classes['Booz_xform'].items():
        t = X.strip_t(d['type'].get('desugaredQualType', d['type']['qualType']))
        st.mem[key + '.' + f] = core.old_value(f, t)


def outcomes(r, outs, fn):
    rets = [o for o in outs if o.kind in ('return', 'next')]
    for o in outs:
        if o.kind not in ('return', 'next', 'throw'):
            r.prove(['C13', 'C16'], 'post', '%s does not end in %s' % (fn, o.kind), o.st.pc, FALSE, fn=fn)
    if not rets:
        r.add(['C12', 'C14', 'C15'], 'post', '%s can succeed' % fn, 'refuted', 'normal_form', fn=fn)
    return rets


def library_failures(r, ex, rets, fn, exempt=lambda call, what: False, nthis=1):
    """C16: a normal return means that every library call succeeded and every file was closed once.
    exempt gives True for a call that may fail, or the one error code that is tolerated."""
    for o in rets:
        g = o.st.mem.get('ghost:nc', ())
        if not isinstance(g, tuple):
            r.add(['C16'], 'post', '%s: calls of the netCDF library' % fn, 'unknown', 'merge', fn=fn)
            continue
        n = 0
        for c, e in NC.flat(g):
            n += 1
            x = exempt(e[1], e[2])
            if x is True:
                continue
            good = eq(e[3], 0)
            if x is not False:
                good = bor(good, eq(e[3], x))
            r.prove(['C16'], 'post', '%s returns only if %s(%s) succeeded' % (fn, e[1], e[2]), list(o.st.pc) + [c], good, fn=fn)
        for c, (_, k, ev) in NC.flat(o.st.mem.get('ghost:ncopen', ())):
            m = o.st.mem.get('ghost:ncmode:' + k)
            r.prove(['C16'], 'post', '%s: the file is closed when it returns' % fn, list(o.st.pc) + [c],
                    TRUE if isinstance(m, Opaque) and m.tag == 'closed' else FALSE, fn=fn)
        nop = len(list(NC.flat(o.st.mem.get('ghost:ncopen', ()))))
        r.add(['C16'], 'post', '%s opens one file' % fn, 'proved' if nop == nthis else 'unknown', 'normal_form', fn=fn, lvl='int')


# ------------------------------------------------------------------ wout
def wout(asym):
    s = lambda nm: var('w!' + nm, 'I')
    ns, mn, mq = s('ns'), s('mnmax'), s('mnmax_nyq')
    t = {}
    for k in ('ns', 'nfp', 'mpol', 'ntor', 'mnmax', 'mnmax_nyq', 'lasym__logical__'):
        t[k] = ('I', [])
    t['aspect'] = ('R', [])
    for k in ('iotas', 'phipf', 'chi', 'pres', 'phi', 'iotaf', 'phips', 'jcuru', 'jcurv', 'presf', 'vp', 'buco', 'bvco', 'q_factor', 'chipf', 'specw', 'DMerc', 'mass', 'beta_vol', 'phip'):
        t[k] = ('R', [ns])
    for k in ('rmax_surf', 'rmin_surf', 'zmax_surf', 'betatotal', 'betapol', 'betator', 'betaxis', 'b0', 'volavgB', 'Aminor_p', 'Rmajor_p', 'volume_p'):
        t[k] = ('R', [])
    for k in ('mpol_nyq', 'ntor_nyq', 'signgs'):
        t[k] = ('I', [])
    for k in ('xm', 'xn'):
        t[k] = ('I', [mn])
        t[k + '_nyq'] = ('I', [mq])
    for k in MODE_SYM + MODE_ASYM:
        t[k] = ('R', [ns, mn])
    for k in NYQ_SYM + NYQ_ASYM + ['gmnc', 'gmns', 'bsubsmns', 'bsubsmnc', 'bsupumnc', 'bsupumns', 'bsupvmnc', 'bsupvmns']:
        t[k] = ('R', [ns, mq])
    return NC.Content('w', t, {'radius': ns, 'mn_mode': mn, 'mn_mode_nyq': mq})


class InitFromVmec:
    """Contract: throws exactly when the data are inconsistent, otherwise sets the object from its arguments (vmec_units)."""

    def __init__(self):
        self.calls = []

    def binds(self, ex, func):
        return len(func.params) == 1 + len(ORDER)

    def apply(self, ex, st, this, args, node, func):
        g = lambda f: st.mem[this + '.' + f]
        vals = {}
        for nm, a in zip(['ns'] + ORDER, args):
            vals[nm] = ex.load(st, a[1], node) if a[0] == 'ref' else a[1]
        for f in ('nfp', 'mpol', 'ntor', 'mnmax', 'mpol_nyq', 'ntor_nyq', 'mnmax_nyq'):
            v = g(f)
            ex.obl('pre', st, band(le(v, LIM), ge(v, -LIM)), node, 'init_from_vmec: %s is a count' % f)
        s = st.copy()
        s.mem['ghost:thrown'] = Opaque('init_from_vmec')
        ex.throws.append(X.Outcome('throw', s, 'std::runtime_error'))
        state = {f: g(f) for f in ex.tu.classes['Booz_xform']}
        st.mem['ghost:vmec'] = st.mem.get('ghost:vmec', ()) + (('call', tuple(sorted(vals.items())), tuple(sorted(state.items()))),)
        for f in ['ns_in', 's_in', 'iota', 'mboz', 'nboz', 'compute_surfs', 'toroidal_flux'] + FLUX + MODE_SYM + MODE_ASYM + NYQ_SYM + NYQ_ASYM:
            t = X.strip_t(ex.tu.classes['Booz_xform'][f]['type'].get('desugaredQualType', ex.tu.classes['Booz_xform'][f]['type']['qualType']))
            st.mem[this + '.' + f] = rename(core.old_value(f, t), 'post_' + f)
        return X.VOID


def rename(v, nm):
    if isinstance(v, Arr):
        return Arr([var('%s_d%d' % (nm, i), 'I', 0) for i in range(len(v.dims))], app(nm, IDX[:len(v.dims)], v.sort), v.sort)
    if isinstance(v, Poly):
        return var(nm, 'I' if T.is_int(v) else 'R')
    return v


def wout_consistent(asym):
    s = lambda nm: var('w!' + nm, 'I')
    a = lambda nm, i: app('w!' + nm, (P(i),), 'I')
    mn, mq, nfp = s('mnmax'), s('mnmax_nyq'), s('nfp')
    return [ge(nfp, 1), ge(mn, 1), ge(mq, 1), ge(s('ns'), 2)] + [eq(a(x, ZERO), 0) for x in ('xm', 'xn', 'xm_nyq', 'xn_nyq')] \
        + [eq(a('xn', mn - 1), nfp * s('ntor'))]


def wout_runner(asym, flux):
    def run(r):
        tu = cxx.TU(['read_wout.cpp', 'init_from_vmec.cpp'] + FILES)
        ex = X.Executor(tu)
        st = old_object(tu)
        w = wout(asym)
        path = Str(('sym', 'filename'))
        ex.nc = NC.Env(lambda p: w)
        c = InitFromVmec()
        ex.contracts[('Booz_xform', 'init_from_vmec')] = c
        s = lambda nm: w.scalar(nm)
        st.assume(ge(s('ns'), 1), ne(s('lasym__logical__'), 0) if asym else eq(s('lasym__logical__'), 0))
        for nm in ('ns', 'nfp', 'mpol', 'ntor', 'mnmax', 'mnmax_nyq'):
            st.assume(le(s(nm), LIM), ge(s(nm), -LIM))
        for nm in ('xm', 'xn', 'xm_nyq', 'xn_nyq'):
            S.FACTS['w!' + nm] = lambda i, nm=nm: [le(app('w!' + nm, (i,), 'I'), LIM), ge(app('w!' + nm, (i,), 'I'), -LIM)]
        for m in ('mnmax', 'mnmax_nyq'):
            st.assume(le(s(m) * s('ns'), INT_MAX))
        f = the(tu, 'Booz_xform', 'read_wout')
        outs = ex.run_function(f, st, 'this', [('val', path), ('val', TRUE if flux else FALSE)], None)
        fn = 'read_wout'
        r.functions |= {'Booz_xform::read_wout', 'NetCDFReader::NetCDFReader', 'NetCDFReader::get', 'NetCDFReader::close', 'NetCDFReader::ERR'}
        rets = outcomes(r, outs, fn)
        library_failures(r, ex, rets, fn)
        CP = ['C12']
        for n, o in enumerate([o for o in outs if o.kind == 'throw' and o.st.mem.get('ghost:thrown') is None]):
            pc = list(o.st.pc) + wout_consistent(asym) + [bor(bnot(cc), eq(e[3], 0)) for cc, e in NC.flat(o.st.mem.get('ghost:nc', ()))]
            r.prove(['C11'], 'post', 'a consistent file that can be read is not rejected (throw %d)' % n, pc, FALSE, fn=fn)
        allowed = [k for k in w.table if k not in MODE_ASYM + NYQ_ASYM + ['chi', 'phipf', 'pres', 'phi']]
        allowed += (MODE_ASYM + NYQ_ASYM if asym else []) + (['chi', 'phipf', 'pres', 'phi'] if flux else [])
        for o in rets:
            for cc, e in NC.flat(o.st.mem.get('ghost:nc', ())):
                if e[1] == 'nc_inq_varid':
                    r.prove(CP, 'post', 'a file %s asymmetric and %s flux variables needs no %s' % ('with' if asym else 'without', 'with' if flux else 'without', e[2]),
                            list(o.st.pc) + [cc], TRUE if e[2] in allowed else FALSE, fn=fn)
            for cc, (_, k, ev) in NC.flat(o.st.mem.get('ghost:ncopen', ())):
                r.prove(CP, 'post', 'the file read is the one named', list(o.st.pc) + [cc], TRUE if ev and ev[0] == 'open' and ev[1] == path else FALSE, fn=fn)
            cl = o.st.mem.get('ghost:vmec', ())
            if not (isinstance(cl, tuple) and len(cl) == 1 and cl[0][0] == 'call'):
                r.add(CP, 'post', 'init_from_vmec is called once', 'refuted' if cl == () else 'unknown', 'normal_form', fn=fn)
                continue
            vals, state = dict(cl[0][1]), dict(cl[0][2])
            ns, mn, mq = s('ns'), s('mnmax'), s('mnmax_nyq')
            vec = lambda nm: Arr([w.shape(nm)[0]], w.fill(nm, [w.shape(nm)[0]]), w.sort(nm))
            mat = lambda nm: Arr([w.shape(nm)[1], w.shape(nm)[0]], w.fill(nm, [w.shape(nm)[1], w.shape(nm)[0]]), 'R')
            r.equal(CP, 'the number of surfaces is ns', o.st.pc, vals['ns'], ns, fn=fn)
            r.equal(CP, 'iotas holds the variable iotas', o.st.pc, vals['iotas'], vec('iotas'), fn=fn)
            for nm in MODE_SYM + NYQ_SYM + (MODE_ASYM + NYQ_ASYM if asym else []):
                r.equal(CP, '%s holds the variable %s, modes by surfaces' % (nm, nm), o.st.pc, vals[nm], mat(nm), fn=fn)
            if flux:
                for nm, vn in (('phip', 'phipf'), ('chi', 'chi'), ('pres', 'pres'), ('phi', 'phi')):
                    r.equal(CP, '%s holds the variable %s' % (nm, vn), o.st.pc, vals[nm], vec(vn), fn=fn)
            else:
                r.equal(CP, 'no flux profiles are given when they are not requested', o.st.pc, vals['phip'].dims[0], ZERO, fn=fn)
            r.equal(CP, 'asym is lasym', o.st.pc, state['asym'], TRUE if asym else FALSE, fn=fn)
            for nm in ('nfp', 'mpol', 'ntor', 'mnmax', 'mnmax_nyq', 'aspect'):
                r.equal(CP, '%s holds the variable %s' % (nm, nm), o.st.pc, state[nm], s(nm), fn=fn)
            for nm in ('xm', 'xn', 'xm_nyq', 'xn_nyq'):
                r.equal(CP, '%s holds the variable %s' % (nm, nm), o.st.pc, state[nm], vec(nm), fn=fn)
            pc = list(o.st.pc) + [ge(mq, 1), ge(s('nfp'), 1)]
            last = lambda nm: app('w!' + nm, (mq - 1,), 'I')
            r.equal(CP, 'mpol_nyq is the last m of the Nyquist list', pc, state['mpol_nyq'], last('xm_nyq'), fn=fn)
            q = var('q', 'I')
            r.equal(CP, 'ntor_nyq is the last n of the Nyquist list over nfp', pc + [eq(last('xn_nyq'), q * s('nfp'))],
                    state['ntor_nyq'] * s('nfp'), q * s('nfp'), fn=fn)
            r.equal(CP + ['C08'], 'verbose is unchanged', o.st.pc, state['verbose'], var('old_verbose', 'I'), fn=fn)
            # what init_from_vmec established is left alone
            for nm, v in state.items():
                want = v
                got = o.st.mem['this.' + nm]
                if nm in ['ns_in', 's_in', 'iota', 'mboz', 'nboz', 'compute_surfs', 'toroidal_flux'] + FLUX + MODE_SYM + MODE_ASYM + NYQ_SYM + NYQ_ASYM:
                    want = rename(v, 'post_' + nm)
                r.equal(CP, '%s is as loading left it' % nm, o.st.pc, got, want, fn=fn, cat='frame')
        r.take(ex)
        r.uninit(ex, rets, ['this.'])
    return run


for _a in (False, True):
    for _f in (False, True):
        unit('read_wout[asym=%d,flux=%d]' % (_a, _f), ['C11', 'C12', 'C13', 'C16'])(wout_runner(_a, _f))


# ------------------------------------------------------------------ boozmn
SPEC_SYM = [('bmnc_b', 'bmnc_b', 1), ('rmnc_b', 'rmnc_b', 1), ('zmns_b', 'zmns_b', 1), ('pmns_b', 'numns_b', -1), ('gmn_b', 'gmnc_b', 1)]
SPEC_ASYM = [('bmns_b', 'bmns_b', 1), ('rmns_b', 'rmns_b', 1), ('zmnc_b', 'zmnc_b', 1), ('pmnc_b', 'numnc_b', -1), ('gmns_b', 'gmns_b', 1)]
PROFILES = [('iota_b', 'iota'), ('buco_b', 'Boozer_I_all'), ('bvco_b', 'Boozer_G_all')]
FLUXV = [('phip_b', 'phip'), ('chi_b', 'chi'), ('pres_b', 'pres'), ('phi_b', 'phi')]
I0, I1 = IDX


def result_object(tu, asym, flux):
    """An object that run() has filled (or that was read): consistent sizes, arbitrary values."""
    st = X.State()
    S.reset()
    S.clear_caches()
    st.mem['ghost:stdout'] = ()
    st.mem['ghost:nc'] = ()
    put_object(tu, st, 'this')
    d = {'mnboz': var('mnboz', 'I', 1), 'n': var('n_compute', 'I', 1), 'ns_in': var('ns_in', 'I', 1), 'nfp': var('nfp', 'I', 1),
         'mboz': var('mboz', 'I', 1), 'nboz': var('nboz', 'I', 0)}
    g = lambda f, v: st.mem.__setitem__('this.' + f, v)
    for f in ('mnboz', 'ns_in', 'nfp', 'mboz', 'nboz'):
        g(f, d[f])
    g('ns_b', d['n'])
    g('asym', TRUE if asym else FALSE)
    g('verbose', var('verbose', 'I'))
    g('aspect', var('aspect', 'R'))
    g('toroidal_flux', app('phi', (d['ns_in'],)) if flux else ZERO)
    g('compute_surfs', Arr([d['n']], app('cs', (I0,), 'I'), 'I'))
    g('xm_b', Arr([d['mnboz']], app('xm_b', (I0,), 'I'), 'I'))
    g('xn_b', Arr([d['mnboz']], app('xn_b', (I0,), 'I'), 'I'))
    g('s_b', Arr([d['n']], app('s_b', (I0,)), 'R'))
    for f in ('iota', 'Boozer_I_all', 'Boozer_G_all', 's_in'):
        g(f, Arr([d['ns_in']], app(f, (I0,)), 'R'))
    for _, f in FLUXV:
        g(f, Arr([d['ns_in'] + 1 if flux else ZERO], app(f, (I0,)), 'R'))
    for _, f, _s in SPEC_SYM:
        g(f, Arr([d['mnboz'], d['n']], app(f, IDX), 'R'))
    for _, f, _s in SPEC_ASYM:
        g(f, Arr([d['mnboz'], d['n']] if asym else [ZERO, ZERO], app(f, IDX), 'R'))
    st.assume(*[le(x, LIM) for x in d.values()])
    st.assume(le(d['mnboz'] * d['n'], INT_MAX), ge(var('verbose', 'I'), -LIM), le(var('verbose', 'I'), LIM))
    S.FACTS['cs'] = lambda i: [bor(bnot(band(le(0, i), lt(i, d['n']))), band(le(0, app('cs', (i,), 'I')), lt(app('cs', (i,), 'I'), d['ns_in'])))]
    return st, d


def documented(d, asym, flux):
    """(name, type, shape outer to inner, value) of every documented variable; the value None is not prescribed."""
    n, mnb, rad = d['n'], d['mnboz'], d['ns_in'] + 1
    out = [('lasym__logical__', 4, [], ONE if asym else ZERO), ('ns_b', 4, [], rad), ('nfp_b', 4, [], d['nfp']), ('mboz_b', 4, [], d['mboz']),
           ('nboz_b', 4, [], d['nboz']), ('mnboz_b', 4, [], mnb), ('aspect_b', 6, [], var('aspect', 'R'))]
    out += [(k, 6, [], ZERO) for k in ('rmax_b', 'rmin_b', 'betaxis_b')]
    out += [('jlist', 4, [n], Arr([n], app('cs', (I0,), 'I') + 2, 'I')), ('ixm_b', 4, [mnb], Arr([mnb], app('xm_b', (I0,), 'I'), 'I')),
            ('ixn_b', 4, [mnb], Arr([mnb], app('xn_b', (I0,), 'I'), 'I'))]
    vec = lambda b: Arr([rad], b, 'R')
    out += [(k, 6, [rad], vec(ite(eq(I0, 0), ZERO, app(f, (I0 - 1,))))) for k, f in PROFILES]
    out += [('beta_b', 6, [rad], vec(ZERO))]
    for k, f in FLUXV:
        b = ZERO if not flux else app(f, (I0,)) if f != 'phip' else ite(eq(I0, 0), ZERO, app(f, (I0,)))
        out.append((k, 6, [rad], vec(b)))
    for k, f, s in SPEC_SYM + (SPEC_ASYM if asym else []):
        out.append((k, 6, [n, mnb], Arr([mnb, n], app(f, IDX) * s, 'R')))
    return out


def probe(call, what):
    return call == 'nc_inq_dimid'


def written_file(o):
    """The events of the one file a normal outcome wrote, or None."""
    op = list(NC.flat(o.st.mem.get('ghost:ncopen', ())))
    if len(op) != 1:
        return None
    return list(NC.flat(NC.events(o.st, op[0][1][1])))


def write_runner(asym, flux):
    def run(r):
        tu = cxx.TU(['write_boozmn.cpp'] + FILES)
        ex = X.Executor(tu)
        st, d = result_object(tu, asym, flux)
        pre = st.copy()
        path = Str(('sym', 'filename'))
        ex.nc = NC.Env()
        fn = 'write_boozmn'
        outs = ex.run_function(the(tu, 'Booz_xform', 'write_boozmn'), st, 'this', [('val', path)], None)
        r.functions |= {'Booz_xform::write_boozmn', 'NetCDFWriter::NetCDFWriter', 'NetCDFWriter::ERR', 'NetCDFWriter::dim', 'NetCDFWriter::put',
                        'NetCDFWriter::add_attribute', 'NetCDFWriter::write_and_close'}
        rets = outcomes(r, outs, fn)
        library_failures(r, ex, rets, fn, exempt=probe)
        for n, o in enumerate([o for o in outs if o.kind == 'throw']):
            ok = [bor(bnot(cc), eq(e[3], 0)) for cc, e in NC.flat(o.st.mem.get('ghost:nc', ())) if not probe(e[1], e[2])]
            r.prove(['C14', 'C15'], 'post', 'a consistent object is written when no library call fails (throw %d)' % n, list(o.st.pc) + ok, FALSE, fn=fn)
        CP = ['C14']
        for o in rets:
            pc = list(o.st.pc)
            for cc, (_, k, ev) in NC.flat(o.st.mem.get('ghost:ncopen', ())):
                good = ev and ev[0] == 'create' and ev[1] == path
                r.prove(CP + ['C15'], 'post', 'the file created is the one named', pc + [cc], TRUE if good else FALSE, fn=fn)
                if good:
                    r.prove(CP + ['C15'], 'post', 'an existing file is replaced', pc + [cc], TRUE if ev[2].is_const() and not int(ev[2].const()) & 4 else FALSE, fn=fn)
            ev = written_file(o)
            if ev is None:
                continue
            find = lambda kind, nm: [(c, e) for c, e in ev if e[0] == kind and e[1] == nm]
            for nm, want in (('radius', d['ns_in'] + 1), ('mn_mode', d['mnboz']), ('mn_modes', d['mnboz']), ('comput_surfs', d['n']), ('pack_rad', d['n'])):
                f = find('dim', nm)
                r.prove(CP + ['C15'], 'post', 'dimension %s is defined' % nm, pc, bor(*[c for c, e in f]) if f else FALSE, fn=fn)
                for c, e in f:
                    r.equal(CP + ['C15'], 'dimension %s has the documented size' % nm, pc + [c], e[2], want, fn=fn)
            docs = documented(d, asym, flux)
            for nm, ty, shape, val in docs:
                f = find('var', nm)
                r.prove(CP + ['C15'], 'post', 'variable %s is defined' % nm, pc, bor(*[c for c, e in f]) if f else FALSE, fn=fn)
                for c, e in f:
                    r.add(CP, 'post', 'variable %s has its documented type' % nm, 'proved' if e[2] == ty else 'refuted', 'normal_form', fn=fn)
                    sz = [[x[2] for cc, x in find('dim', dn)][:1] for dn in e[3]]
                    if len(sz) != len(shape) or not all(sz):
                        r.add(CP, 'post', 'variable %s has its documented dimensions' % nm, 'refuted', 'normal_form', fn=fn)
                        continue
                    r.prove(CP, 'post', 'variable %s has its documented dimensions, in order' % nm, pc + [c], band(*[eq(x[0], y) for x, y in zip(sz, shape)]), fn=fn)
                    # the two sizes may coincide: the order is that of the named dimensions
                    if len(shape) == 2:
                        r.add(CP, 'post', 'variable %s is laid out surface by surface' % nm,
                              'proved' if e[3][0] in ('pack_rad', 'comput_surfs') and e[3][1] in ('mn_mode', 'mn_modes') else 'unknown', 'normal_form', fn=fn, lvl='int')
                w = find('data', nm)
                r.prove(CP + ['C15'], 'post', 'the data of %s are written' % nm, pc, bor(*[c for c, e in w]) if w else FALSE, fn=fn)
                for c, e in w[-1:]:
                    if e[2] is None:
                        r.add(CP + ['C15'], 'post', '%s holds the documented values' % nm, 'refuted', 'normal_form', fn=fn)
                    else:
                        r.equal(CP, '%s holds the documented values' % nm, pc + [c], e[2], val, fn=fn)
            if not asym:
                for nm, f, _s in SPEC_ASYM:
                    r.add(CP, 'post', 'a symmetric file has no %s' % nm, 'refuted' if find('var', nm) else 'proved', 'normal_form', fn=fn)
            r.add(CP, 'post', 'variable version is defined', 'proved' if find('var', 'version') and find('data', 'version') else 'refuted', 'normal_form', fn=fn)
            for k, v in pre.mem.items():
                if not k.startswith('this.') or isinstance(v, X.Obj):
                    continue
                f = k[5:]
                want = v
                if f == 'phip' and flux:
                    # the documented convention of the file: the first entry is not stored
                    got = o.st.mem[k]
                    r.equal(CP + ['C08'], 'phip keeps its values apart from the first', pc + [ge(I0, 1)], got, v, fn=fn, cat='frame')
                    continue
                r.equal(CP + (['C08'] if f in core.INPUTS + core.OUTPUTS else []), 'writing leaves %s alone' % f, pc, o.st.mem[k], want, fn=fn, cat='frame')
        r.take(ex)
        r.uninit(ex, rets, ['this.', 'ghost:ncev'])
        un = [nm for o in rets for c, e in (written_file(o) or []) if e[0] == 'data' and isinstance(e[2], (Arr, Poly))
              for nm in [e[1]] if X.has_uninit(e[2].body if isinstance(e[2], Arr) else e[2])
              and not (isinstance(e[2], Arr) and r.independent(e[2], o.st))]
        r.add(['C13', 'C14'], 'uninit', 'no uninitialised value is written', 'refuted' if un else 'proved', 'normal_form', info={'where': un} if un else None, fn=fn)
    return run


for _a in (False, True):
    for _f in (False, True):
        unit('write_boozmn[asym=%d,flux=%d]' % (_a, _f), ['C08', 'C13', 'C14', 'C15', 'C16'])(write_runner(_a, _f))


ENOTVAR = num(-49)


def absent_chi(call, what):
    """Only the absence of chi_b is tolerated."""
    return ENOTVAR if call == 'nc_inq_varid' and what == 'chi_b' else False


def boozmn(asym):
    """A conforming boozmn file of arbitrary content."""
    s = lambda nm: var('b!' + nm, 'I')
    mnb, rad, n = s('mnboz_b'), var('b!!radius', 'I', 1), var('b!!comput_surfs', 'I', 0)
    t = {k: ('I', []) for k in ('lasym__logical__', 'ns_b', 'nfp_b', 'mboz_b', 'nboz_b', 'mnboz_b')}
    for k in ('aspect_b', 'rmax_b', 'rmin_b', 'betaxis_b'):
        t[k] = ('R', [])
    t['jlist'] = ('I', [n])
    for k in ('ixm_b', 'ixn_b'):
        t[k] = ('I', [mnb])
    for k in [x for x, _ in PROFILES + FLUXV] + ['beta_b']:
        t[k] = ('R', [rad])
    for k, _, _s in SPEC_SYM + SPEC_ASYM:
        t[k] = ('R', [n, mnb])
    return NC.Content('b', t, {'radius': rad, 'mn_mode': mnb, 'mn_modes': mnb, 'comput_surfs': n, 'pack_rad': n})


READ_F = {'Booz_xform::read_boozmn', 'NetCDFReader::NetCDFReader', 'NetCDFReader::get', 'NetCDFReader::getdim', 'NetCDFReader::close', 'NetCDFReader::ERR',
          'NetCDFReader::has'}


def restored(r, CP, fn, o, key, want, untouched=None, lvl=None):
    """The object at key holds the given values."""
    pc = list(o.st.pc)
    for f, v in want.items():
        got = o.st.mem[key + '.' + f]
        if f == 'phip' and isinstance(v, tuple):
            r.equal(CP, '%s is restored apart from its first entry' % f, pc + [ge(I0, 1)], got, v[0], fn=fn, lvl=lvl)
        else:
            r.equal(CP, '%s is restored' % f, pc, got, v, fn=fn, lvl=lvl)
    for f, v in (untouched or {}).items():
        r.equal(CP + ['C08'], '%s is left alone' % f, pc, o.st.mem[key + '.' + f], v, fn=fn, cat='frame')


def read_runner(asym):
    def run(r):
        tu = cxx.TU(['read_boozmn.cpp'] + FILES)
        ex = X.Executor(tu)
        st = old_object(tu)
        b = boozmn(asym)
        path = Str(('sym', 'filename'))
        ex.nc = NC.Env(lambda p: b)
        s = lambda nm: b.scalar(nm)
        rad, n, mnb = b.dim('radius'), b.dim('comput_surfs'), s('mnboz_b')
        st.assume(ne(s('lasym__logical__'), 0) if asym else eq(s('lasym__logical__'), 0))
        # a conforming file: what write_boozmn produces (C14)
        st.assume(eq(s('ns_b'), rad), ge(rad, 2), ge(n, 1), ge(mnb, 1))
        for x in (rad, n, mnb):
            st.assume(le(x, LIM))
        st.assume(le(mnb * n, INT_MAX))
        S.FACTS['b!jlist'] = lambda i: [bor(bnot(band(le(0, i), lt(i, n))), band(le(2, app('b!jlist', (i,), 'I')), le(app('b!jlist', (i,), 'I'), rad)))]
        S.FACTS['old_compute_surfs'] = lambda i: [le(app('old_compute_surfs', (i,), 'I'), LIM), ge(app('old_compute_surfs', (i,), 'I'), -LIM)]
        pre = {f: st.mem['this.' + f] for f in tu.classes['Booz_xform']}
        fn = 'read_boozmn'
        outs = ex.run_function(the(tu, 'Booz_xform', 'read_boozmn'), st, 'this', [('val', path)], None)
        r.functions |= READ_F
        rets = outcomes(r, outs, fn)
        library_failures(r, ex, rets, fn, exempt=absent_chi)
        for k, o in enumerate([o for o in outs if o.kind == 'throw']):
            ok = [bor(bnot(cc), eq(e[3], 0), *([eq(e[3], ENOTVAR)] if absent_chi(e[1], e[2]) is not False else []))
                  for cc, e in NC.flat(o.st.mem.get('ghost:nc', ()))]
            r.prove(['C15'], 'post', 'a conforming file (with or without chi_b) is read when no library call fails (throw %d)' % k, list(o.st.pc) + ok, FALSE, fn=fn)
        at = lambda nm, i: app('b!' + nm, (i,), b.sort(nm))
        vec = lambda nm, d, off=ZERO: Arr([d], at(nm, I0 + off), b.sort(nm))
        for o in rets:
            log = list(NC.flat(o.st.mem.get('ghost:nc', ())))
            for cc, (_, k, ev) in NC.flat(o.st.mem.get('ghost:ncopen', ())):
                r.prove(['C15'], 'post', 'the file read is the one named', list(o.st.pc) + [cc], TRUE if ev and ev[0] == 'open' and ev[1] == path else FALSE, fn=fn)
            for cc, e in log:
                if e[1] == 'nc_inq_varid':
                    okn = b.known(e[2]) and (asym or e[2] not in [k for k, _, _s in SPEC_ASYM])
                    r.prove(['C15'], 'post', 'a %s file needs no %s' % ('asymmetric' if asym else 'symmetric', e[2]), list(o.st.pc) + [cc], TRUE if okn else FALSE, fn=fn)
            chi = [(cc, e) for cc, e in log if e[1] == 'nc_inq_varid' and e[2] == 'chi_b']
            there = band(*[bor(bnot(cc), eq(e[3], 0)) for cc, e in chi])
            w = {'asym': TRUE if asym else FALSE, 'nfp': s('nfp_b'), 'mboz': s('mboz_b'), 'nboz': s('nboz_b'), 'mnboz': mnb, 'ns_in': rad - 1, 'ns_b': n,
                 'xm_b': vec('ixm_b', mnb), 'xn_b': vec('ixn_b', mnb), 'compute_surfs': Arr([n], at('jlist', I0) - 2, 'I'),
                 'phi': vec('phi_b', rad), 'pres': vec('pres_b', rad), 'phip': vec('phip_b', rad), 'chi': Arr([rad], ite(there, at('chi_b', I0), ZERO), 'R'),
                 'toroidal_flux': at('phi_b', rad - 1),
                 's_b': Arr([n], (at('jlist', I0) - num(Fraction(3, 2))) * T.inv(rad - 1), 'R')}
            for k, f in PROFILES:
                w[f] = vec(k, rad - 1, ONE)
            for k, f, sg in SPEC_SYM + SPEC_ASYM:
                if not asym and (k, f, sg) in SPEC_ASYM:
                    w[f] = Arr([ZERO, ZERO], ZERO, 'R')
                else:
                    w[f] = Arr([mnb, n], at(k, I0 + mnb * I1) * sg, 'R')
            unt = {f: pre[f] for f in core.INPUTS if f in pre and f not in w}
            # what a written file gives back is the unit roundtrip; here the reader alone, against the documented format
            restored(r, ['C15'], fn, o, 'this', w, untouched=unt, lvl='int')
            r.equal(['C15'], 'chi is zero when the file has none', list(o.st.pc) + [bnot(there)], o.st.mem['this.chi'], Arr([rad], ZERO, 'R'), fn=fn)
        r.take(ex)
        r.uninit(ex, rets, ['this.'])
    return run


def roundtrip_runner(asym, flux):
    def run(r):
        tu = cxx.TU(['write_boozmn.cpp', 'read_boozmn.cpp'] + FILES)
        ex = X.Executor(tu)
        st, d = result_object(tu, asym, flux)
        path = Str(('sym', 'filename'))
        ex.nc = NC.Env()
        orig = {f: st.mem['this.' + f] for f in tu.classes['Booz_xform']}
        fn = 'write_boozmn; read_boozmn'
        CP = ['C15']
        S.FACTS['old_compute_surfs'] = lambda i: [le(app('old_compute_surfs', (i,), 'I'), LIM), ge(app('old_compute_surfs', (i,), 'I'), -LIM)]
        outs = ex.run_function(the(tu, 'Booz_xform', 'write_boozmn'), st, 'this', [('val', path)], None)
        ws = [o for o in outs if o.kind in ('return', 'next')]
        ex.obls.clear()           # the unit write_boozmn has them
        r.functions |= {'Booz_xform::write_boozmn'} | READ_F
        done = 0
        rets = []
        for o in ws:
            ev = written_file(o)
            if ev is None:
                r.add(CP, 'post', 'one file is written', 'unknown', 'normal_form', fn=fn)
                continue
            f = NC.Written([e for c, e in ev])
            s2 = o.st.copy()
            put_object(tu, s2, 'other')
            s2.mem['ghost:ncopen'] = ()
            ex.nc.opener = lambda p, f=f: f
            outs2 = ex.run_function(the(tu, 'Booz_xform', 'read_boozmn'), s2, 'other', [('val', path)], None)
            for k, o2 in enumerate([x for x in outs2 if x.kind == 'throw']):
                ok = [bor(bnot(cc), eq(e[3], 0)) for cc, e in NC.flat(o2.st.mem.get('ghost:nc', ()))]
                r.prove(CP, 'post', 'the file written is read when no library call fails (throw %d)' % k, list(o2.st.pc) + ok, FALSE, fn=fn)
            for o2 in [x for x in outs2 if x.kind in ('return', 'next')]:
                rets.append(o2)
                done += 1
                # every library call succeeds: chi_b exists in the file
                o2.st.assume(*[bor(bnot(cc), eq(e[3], 0)) for cc, e in NC.flat(o2.st.mem.get('ghost:nc', ())) if not probe(e[1], e[2])])
                if S.Prem(tuple(o2.st.pc)).prove(FALSE)[0] == 'proved':
                    continue
                w = {k: orig[k] for k in ['asym', 'nfp', 'mboz', 'nboz', 'mnboz', 'xm_b', 'xn_b', 'compute_surfs', 'ns_in', 'ns_b', 'iota', 'Boozer_I_all', 'Boozer_G_all']}
                w['toroidal_flux'] = app('phi', (d['ns_in'],)) if flux else ZERO
                for _, k in FLUXV:
                    full = [d['ns_in'] + 1]
                    w[k] = Arr(full, app(k, (I0,)) if flux else ZERO, 'R')
                w['phip'] = (w['phip'],)
                for _, k, sg in SPEC_SYM + SPEC_ASYM:
                    w[k] = orig[k]
                w['s_b'] = Arr([d['n']], (app('cs', (I0,), 'I') + num(Fraction(1, 2))) * T.inv(d['ns_in']), 'R')
                restored(r, CP, fn, o2, 'other', w)
        if not done:
            r.add(CP, 'post', 'a written file can be read', 'refuted' if ws else 'unknown', 'normal_form', fn=fn)
        r.take(ex)
        r.uninit(ex, rets, ['other.'])
    return run


for _a in (False, True):
    unit('read_boozmn[asym=%d]' % _a, ['C08', 'C13', 'C15', 'C16'])(read_runner(_a))
    for _f in (False, True):
        unit('roundtrip[asym=%d,flux=%d]' % (_a, _f), ['C13', 'C15'])(roundtrip_runner(_a, _f))

"""Replays with netCDF files (C12, C14, C15, C16)."""
import base64
import os
import re
import shutil
import tempfile
import numpy as np
import harness as H
import gen
from suites import crash_text, throws, close, par, note, script_for, configs
from io_suites import vmec, half, short, dirty, vmec_cases, check_half, SYM_M, ASYM_M, SYM_Q, ASYM_Q, FLUX

WRAPS = ['nc_open', 'nc_create', 'nc_inq', 'nc_inq_dimid', 'nc_inq_dimlen', 'nc_inq_varid', 'nc_get_var_int', 'nc_get_var_double', 'nc_def_dim', 'nc_def_var',
         'nc_put_att_text', 'nc_enddef', 'nc_put_var_int', 'nc_put_var_double', 'nc_put_var_text', 'nc_close']
SPEC = [('bmnc_b', 'bmnc_b', 1), ('rmnc_b', 'rmnc_b', 1), ('zmns_b', 'zmns_b', 1), ('pmns_b', 'numns_b', -1), ('gmn_b', 'gmnc_b', 1)]
SPEC_A = [('bmns_b', 'bmns_b', 1), ('rmns_b', 'rmns_b', 1), ('zmnc_b', 'zmnc_b', 1), ('pmnc_b', 'numnc_b', -1), ('gmns_b', 'gmns_b', 1)]


class Scratch:
    """A directory for one scenario; the files in it go with a reported failure."""

    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='booz')
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)

    def p(self, n):
        return self.d + '/' + n

    def files(self, names):
        out = {}
        for n in names:
            try:
                b = open(self.p(n), 'rb').read()
                if len(b) < 300000:
                    out[n] = base64.b64encode(b).decode()
            except OSError:
                pass
        return {'files': out}


def nc_write(path, dims, variables):
    """variables: name -> (dims, array); everything in netCDF classic format."""
    from scipy.io import netcdf_file
    f = netcdf_file(path, 'w')
    for k, v in dims.items():
        f.createDimension(k, v)
    for k, (ds, a) in variables.items():
        a = np.asarray(a)
        v = f.createVariable(k, 'i4' if a.dtype.kind in 'iub' else 'f8', ds)
        if ds:
            v[:] = a
        else:
            v.data[()] = a.item()
    f.close()


def nc_read(path):
    from scipy.io import netcdf_file
    f = netcdf_file(path, 'r', mmap=False)
    out = {}
    for k, v in f.variables.items():
        a = v.data
        out[k] = (tuple(v.dimensions), np.array(a).copy(), v.typecode())
    dims = dict(f.dimensions)
    f.close()
    return dims, out


def wout(path, v, drop=(), extra=True, flux=True, rng=None, **over):
    """A wout file holding the data set v."""
    r = np.random.default_rng(5) if rng is None else rng
    ns, mn, mq = v['ns'], v['mnmax'], v['mnmax_nyq']
    dims = {'radius': ns, 'mn_mode': mn, 'mn_mode_nyq': mq}
    V = {'lasym__logical__': ((), np.int32(1 if v['asym'] else 0)), 'ns': ((), np.int32(ns)), 'aspect': ((), np.float64(v.get('aspect', 7.25)))}
    for k in ('nfp', 'mpol', 'ntor', 'mnmax', 'mnmax_nyq'):
        V[k] = ((), np.int32(v[k]))
    for k in ('xm', 'xn'):
        V[k] = (('mn_mode',), np.asarray(v[k], float))
        V[k + '_nyq'] = (('mn_mode_nyq',), np.asarray(v[k + '_nyq'], float))
    V['iotas'] = (('radius',), v['iotas'])
    if flux:
        for a, b in (('phip', 'phipf'), ('chi', 'chi'), ('pres', 'pres'), ('phi', 'phi')):
            V[b] = (('radius',), v[a] if v['flux'] else r.standard_normal(ns))
    for k in SYM_M + ASYM_M:
        if v[k].size:
            V[k] = (('radius', 'mn_mode'), v[k].T)
    for k in SYM_Q + ASYM_Q:
        if v[k].size:
            V[k] = (('radius', 'mn_mode_nyq'), v[k].T)
    if extra:
        # what real files also hold: quantities with similar names
        for k in ('iotaf', 'phips', 'presf', 'vp', 'chipf', 'jcuru', 'jcurv', 'buco', 'bvco', 'mass', 'phip'):
            V.setdefault(k, (('radius',), r.standard_normal(ns)))
        for k in ('gmnc', 'bsupumnc', 'bsupvmnc', 'bsubsmns'):
            V.setdefault(k, (('radius', 'mn_mode_nyq'), r.standard_normal((ns, mq))))
        for k in ('mpol_nyq', 'ntor_nyq'):
            V.setdefault(k, ((), np.int32(v[k] + 17)))
    for k, x in over.items():
        V[k] = (V[k][0], x)
    for k in drop:
        V.pop(k, None)
    nc_write(path, dims, V)
    return V


def s_wout(ctx):
    """C12"""
    ctx.exe()

    def one(kw):
        kw = dict(kw)
        lasym = kw.pop('lasym', None)
        v = dict(vmec(**kw), aspect=5.5)
        with Scratch() as S:
            p = S.p('wout.nc')
            # when the profiles are not asked for they need not exist
            wout(p, v, flux=bool(v['flux']), **({'lasym__logical__': np.int32(lasym)} if lasym else {}))
            for d in (0, 1):
                sc = H.Script().op('new', 0)
                if d:
                    dirty(sc, 0)
                sc.set(0, 'verbose', v['verbose'])
                sc.path('read_wout', 0, int(v['flux']), p).op('dump', 0)
                res, info = ctx.run(sc)
                if info['rc'] == 'timeout':
                    return
                note(ctx, 'read_wout', dict(kw, dirty=d))
                cr = crash_text(info)
                if cr or throws(res):
                    ctx.fail(['C11', 'C12', 'C13'], '%s for the consistent file of %s' % (cr or throws(res)[0], kw), sc, S.files(['wout.nc']))
                    return
                o = H.obj(res[-2])
                n = len(ctx.fails)
                check_half(ctx, ['C12'], v, o, kw, sc, 'read_wout')
                if len(ctx.fails) == n and abs(o['aspect'] - 5.5) > 1e-12:
                    ctx.fail(['C12'], 'read_wout: aspect is %r' % o['aspect'], sc)
                if len(ctx.fails) > n:
                    ctx.fails[-1].info = S.files(['wout.nc'])
                    return
    L = [dict(seed=71, asym=True, lasym=-1), dict(seed=72, asym=True, lasym=2), dict(seed=73, swap=True), dict(seed=74, swap=True, asym=True, nfp=5),
         dict(seed=75, perm=True, asym=True), dict(seed=76, perm=True), dict(seed=77, phi0=True), dict(seed=78, phi0=True, asym=True)]
    par(ctx, one, L + vmec_cases(ctx, 40 if ctx.thorough else 8))


NEEDED = ['lasym__logical__', 'ns', 'nfp', 'mpol', 'ntor', 'mnmax', 'mnmax_nyq', 'iotas', 'xm', 'xn', 'xm_nyq', 'xn_nyq'] + SYM_M + SYM_Q


def s_wout_bad(ctx):
    """C11, C12: a missing variable or an inconsistent file is an error."""
    ctx.exe()
    items = []
    for asym in (False, True):
        for flux in (False, True):
            kw = dict(seed=3, asym=asym, flux=flux, ns=4)
            for nm in NEEDED + (ASYM_M + ASYM_Q if asym else []) + (['phipf', 'chi', 'pres', 'phi'] if flux else []):
                items.append((kw, 'without ' + nm, dict(drop=(nm,))))
    kw = dict(seed=4, asym=True, ns=5)
    v0 = vmec(**kw)
    for nm, x in (('nfp', 0), ('nfp', -3), ('nfp', 2), ('ntor', 1), ('ntor', 7), ('mnmax', 0), ('mnmax_nyq', 0),
                  ('mnmax', -2), ('mnmax_nyq', -1)):
        items.append((kw, '%s = %d' % (nm, x), {nm: np.int32(x)}))
    for nm in ('xm', 'xm_nyq'):
        items.append((kw, '%s reversed' % nm, {nm: np.asarray(v0[nm][::-1], float)}))
    for nm in ('xn', 'xn_nyq'):
        items.append((kw, '%s shifted' % nm, {nm: np.asarray(v0[nm] + v0['nfp'], float)}))

    def one(x):
        kw, what, over = x
        v = vmec(**kw)
        with Scratch() as S:
            p = S.p('wout.nc')
            wout(p, v, flux=bool(v['flux']), **over)
            for d in (0, 1):
                sc = H.Script().op('new', 0)
                if d:
                    dirty(sc, 0)
                sc.path('read_wout', 0, int(v['flux']), p)
                res, info = ctx.run(sc)
                if info['rc'] == 'timeout':
                    return
                note(ctx, 'file ' + what, dict(kw, dirty=d))
                cr, t = crash_text(info), throws(res)
                if cr or not t or t[0]['throw'] == 'EigenAssert':
                    ctx.fail(['C12' if 'drop' in over else 'C11'] + (['C16'] if 'drop' in over else []) + (['C13'] if cr else []),
                             'read_wout of a file %s (%s): %s instead of an exception' % (what, kw, cr or t or 'accepted'), sc, S.files(['wout.nc']))
                    return
    par(ctx, one, items)


# ---------------------------------------------------------------- boozmn
def boozmn_want(o):
    """What the file of object o (a dump) must hold: name -> (shape, value)."""
    n, mnb, rad = int(o['ns_b']), int(o['mnboz']), int(o['ns_in']) + 1
    w = {'lasym__logical__': int(o['asym']), 'ns_b': rad, 'nfp_b': o['nfp'], 'mboz_b': o['mboz'], 'nboz_b': o['nboz'], 'mnboz_b': mnb, 'aspect_b': o['aspect'],
         'rmax_b': 0.0, 'rmin_b': 0.0, 'betaxis_b': 0.0, 'jlist': np.asarray(o['compute_surfs'], int) + 2, 'ixm_b': np.asarray(o['xm_b'], int), 'ixn_b': np.asarray(o['xn_b'], int),
         'beta_b': np.zeros(rad)}
    for k, f in (('iota_b', 'iota'), ('buco_b', 'Boozer_I_all'), ('bvco_b', 'Boozer_G_all')):
        w[k] = np.concatenate([[0.0], np.asarray(o[f], float)])
    for k, f in (('phip_b', 'phip'), ('chi_b', 'chi'), ('pres_b', 'pres'), ('phi_b', 'phi')):
        a = np.array(o[f], float)
        if a.size and k == 'phip_b':
            a[0] = 0
        w[k] = a if a.size else np.zeros(rad)
    for k, f, s in SPEC + (SPEC_A if o['asym'] else []):
        w[k] = s * np.asarray(o[f], float).T
    dims = {'radius': rad, 'mn_mode': mnb, 'mn_modes': mnb, 'comput_surfs': n, 'pack_rad': n}
    return dims, w


def objects(ctx, n):
    """Scripts that leave a computed object in slot 0."""
    r = np.random.default_rng(ctx.seed + 11)
    L = []
    for asym in (False, True):
        for flux in (False, True):
            L += [dict(asym=asym, flux=flux, mboz=3, nboz=2), dict(asym=asym, flux=flux, mboz=2, nboz=1, cs=[2, 0, 2], ns=5), dict(asym=asym, flux=flux, mboz=1, nboz=0, cs=[1]),
                  dict(asym=asym, flux=flux, ns=2, mpol=1, mboz=4, nboz=3, nfp=7), dict(asym=asym, flux=flux, mboz=2, nboz=3, nfp=1, verbose=2),
                  dict(asym=asym, flux=flux, mboz=2, nboz=1, cs=[0, 1, 2, 3, 4, 5, 5], ns=7), dict(asym=asym, flux=flux, ns=30, mpol=2, ntor=1, mboz=3, nboz=1),
                  dict(asym=asym, flux=flux, mboz=2, nboz=1, cs=[2, 0], ns=6, phi0=True), dict(asym=asym, flux=flux, mboz=2, nboz=1, cs=[1, 3], ns=8, nul=True)]
    for x in ctx.hints.get('ints', []):
        if 2 <= x <= 200:
            L += [dict(ns=x + 1, mpol=2, ntor=1, mboz=2, nboz=1, asym=True), dict(ns=max(x, 3), mpol=2, ntor=1, mboz=2, nboz=1)]
        if 1 <= x <= 24:
            L += [dict(mboz=x, nboz=1), dict(mboz=2, nboz=x, asym=True), dict(nfp=x, mboz=3, nboz=2), dict(cs=[i % 3 for i in range(x)], mboz=2, nboz=1)]
    for _ in range(n):
        ns = int(r.integers(3, 9))
        L.append(dict(asym=bool(r.integers(2)), flux=bool(r.integers(2)), ns=ns, mboz=int(r.integers(1, 6)), nboz=int(r.integers(0, 4)), nfp=int(r.integers(1, 8)),
                      cs=[int(x) for x in r.integers(0, ns - 1, int(r.integers(1, 6)))], verbose=int(r.integers(3)), seed=int(r.integers(1 << 30))))
    for i, kw in enumerate(L):
        kw.setdefault('seed', i + 1)
    return L


def make(kw, id=0, sc=None, run=True):
    from io_suites import load_vmec
    kw = dict(kw)
    mb, nb, cs = kw.pop('mboz', 3), kw.pop('nboz', 2), kw.pop('cs', None)
    kw.pop('every', None)
    v = vmec(**kw)
    r = np.random.default_rng(kw.get('seed', 0))
    v['bmnc'] = v['bmnc'] * 0.1
    v['bmnc'][0] += 4
    v['bsubvmnc'][0] += 9
    for f in ('lmns', 'lmnc', 'bsubumnc', 'bsubumns', 'bsubvmns'):
        v[f] = v[f] * 0.02
    sc = sc or H.Script().op('new', id)
    load_vmec(sc, id, v)
    sc.set(id, 'mboz', mb).set(id, 'nboz', nb)
    if cs is not None:
        sc.set(id, 'compute_surfs', np.array(cs, int))
    sc.set(id, 'aspect', float(r.random() * 9 + 1))
    if run:
        sc.op('run', id)
    return sc


def s_boozmn(ctx):
    """C14"""
    ctx.exe()

    def one(kw):
        with Scratch() as S:
            p = S.p('boozmn.nc')
            if kw['seed'] % 2:
                open(p, 'w').write('something else was here before')
            sc = make(kw).op('dump', 0).path('write_boozmn', 0, p).op('dump', 0)
            res, info = ctx.run(sc)
            if info['rc'] == 'timeout':
                return
            note(ctx, 'write_boozmn', kw)
            cr = crash_text(info)
            if cr or throws(res):
                ctx.fail(['C14', 'C15', 'C13'], '%s when writing the result of %s' % (cr or throws(res)[0], kw), sc)
                return
            a, b = [H.obj(x) for x in res if 'obj' in x]
            for k in a:
                x, y = a[k], b[k]
                if k == 'phip':
                    x, y = x[1:], y[1:]
                if not (close(x, y, 0) if isinstance(x, np.ndarray) else x == y or (x != x and y != y)):
                    ctx.fail(['C14'], 'write_boozmn changes %s of the object (%s)' % (k, kw), sc)
                    return
            try:
                dims, V = nc_read(p)
            except Exception as e:
                ctx.fail(['C14', 'C15'], 'the file written for %s cannot be read: %r' % (kw, e), sc)
                return
            compare_file(ctx, dims, V, a, kw, sc, S)
    par(ctx, one, objects(ctx, 40 if ctx.thorough else 8))


def compare_file(ctx, dims, V, o, kw, sc, S):
    wd, want = boozmn_want(o)
    bad = None
    for k, n in wd.items():
        if dims.get(k) != n:
            bad = bad or 'dimension %s is %s instead of %s' % (k, dims.get(k), n)
    for k, w in want.items():
        if k not in V:
            bad = bad or 'variable %s is missing' % k
            continue
        a = V[k][1]
        w = np.asarray(w)
        if a.shape != w.shape:
            bad = bad or '%s has shape %s instead of %s' % (k, a.shape, w.shape)
        elif a.dtype.kind != ('i' if w.dtype.kind in 'iub' else 'f'):
            bad = bad or '%s has type %s' % (k, a.dtype)
        elif not close(a, w, 0):
            bad = bad or '%s is %s instead of %s' % (k, short(a), short(w))
    if not o['asym']:
        for k, _, _s in SPEC_A:
            if k in V:
                bad = bad or 'a symmetric file has %s' % k
    if bad:
        ctx.fail(['C14'], 'boozmn file of %s: %s' % (kw, bad), sc, S.files(['boozmn.nc']))


BACK = ['asym', 'nfp', 'mboz', 'nboz', 'mnboz', 'xm_b', 'xn_b', 'compute_surfs', 'ns_in', 'ns_b', 'iota', 'Boozer_I_all', 'Boozer_G_all', 's_b'] \
    + [f for _, f, _s in SPEC + SPEC_A]


def s_roundtrip(ctx):
    """C15"""
    ctx.exe()

    def one(kw):
        with Scratch() as S:
            p = S.p('boozmn.nc')
            for d in (0, 1):
                sc = make(kw).op('dump', 0).path('write_boozmn', 0, p).op('new', 1)
                if d:
                    dirty(sc, 1)
                sc.set(1, 'verbose', kw.get('verbose', 0))
                sc.path('read_boozmn', 1, p).op('dump', 1)
                res, info = ctx.run(sc)
                if info['rc'] == 'timeout':
                    return
                note(ctx, 'round trip', dict(kw, dirty=d))
                cr = crash_text(info)
                if cr or throws(res):
                    ctx.fail(['C15', 'C13'], '%s in the round trip of %s' % (cr or throws(res)[0], kw), sc)
                    return
                a, b = [H.obj(x) for x in res if 'obj' in x]
                if not same_back(ctx, a, b, kw, d, sc):
                    return
            # the same file without chi_b
            dims, V = nc_read(p)
            q = S.p('nochi.nc')
            nc_write(q, dims, {k: (ds, x) for k, (ds, x, t) in V.items() if k != 'chi_b' and t != 'c'})
            sc = dirty(H.Script().op('new', 1), 1).path('read_boozmn', 1, q).op('dump', 1)
            res, info = ctx.run(sc)
            cr = crash_text(info)
            if cr or throws(res):
                ctx.fail(['C15'], '%s reading a file without chi_b (%s)' % (cr or throws(res)[0], kw), sc, S.files(['nochi.nc']))
                return
            b = H.obj(res[-2])
            a['chi'] = np.zeros(0)
            same_back(ctx, a, b, dict(kw, chi='absent'), 1, sc)
    par(ctx, one, objects(ctx, 40 if ctx.thorough else 8))


def same_back(ctx, a, b, kw, d, sc):
    rad = int(a['ns_in']) + 1
    want = {k: a[k] for k in BACK if k in a}
    for f in FLUX:
        want[f] = a[f] if a[f].size else np.zeros(rad)
    want['toroidal_flux'] = a['toroidal_flux']
    for k, w in want.items():
        g = b[k]
        if k == 'phip':
            g, w = g[1:], w[1:]
        ok = (g.shape == w.shape or (g.size == 0 and w.size == 0)) and close(g, w, 1e-13 if k == 's_b' else 0) if isinstance(w, np.ndarray) else g == w
        if not ok:
            ctx.fail(['C15'], 'round trip of %s into %s object: %s is %s instead of %s' % (kw, 'a used' if d else 'a new', k, short(g), short(w)), sc)
            return False
    return True


# ---------------------------------------------------------------- failures of the library
# errors the library or the system can report at any call
CODES = [-60, -49, -46, -43, -40, -36, -33, -57, -31, -128, 2, 28]


def s_fail(ctx):
    """C16: every single library call fails once."""
    exe = H.build('asan', extra_src=[H.HERE + '/nc_wrap.cpp'], wraps=tuple(WRAPS), name='ncw')
    jobs = []
    for asym in (False, True):
        for flux in (False, True):
            for op in ('read_wout', 'write_boozmn', 'read_boozmn'):
                jobs.append((op, dict(seed=2, asym=asym, flux=flux, mboz=2, nboz=1, cs=[2, 0], ns=4)))
                if asym == flux:
                    jobs.append((op, dict(seed=2, asym=asym, flux=flux, mboz=2, nboz=1, cs=[2, 0], ns=4, every=True)))
    jobs.append(('read_boozmn', dict(seed=3, mboz=2, nboz=1, nochi=True)))

    def one(x):
        op, kw = x
        kw = dict(kw)
        nochi = kw.pop('nochi', False)
        with Scratch() as S:
            log = S.p('log')
            w = S.p('wout.nc')
            v = vmec(**{k: z for k, z in kw.items() if k not in ('mboz', 'nboz', 'cs', 'every')})
            wout(w, v, flux=bool(v['flux']))
            b = S.p('boozmn.nc')
            pre = make(kw).path('write_boozmn', 0, b)
            if nochi:
                res, info = H.run(exe, pre)
                dims, V = nc_read(b)
                b = S.p('nochi.nc')
                nc_write(b, dims, {k: (ds, y) for k, (ds, y, t) in V.items() if k != 'chi_b' and t != 'c'})

            def attempt(sc, k, code=-101):
                sc.op('failafter', k, code)
                if op == 'read_wout':
                    sc.op('new', 5).path('read_wout', 5, int(kw.get('flux', True)), w)
                elif op == 'read_boozmn':
                    sc.op('new', 5).path('read_boozmn', 5, b)
                else:
                    sc.path('write_boozmn', 0, S.p('o%d.nc' % k))
                return sc
            sc = make(kw).path('write_boozmn', 0, S.p('x.nc') if nochi else b)
            attempt(sc, 100000)
            res, info = H.run(exe, sc, env={'DRV_NCLOG': log})
            ctx.n += 1
            calls = [ln.split()[1:] for ln in open(log) if ln.startswith('100000 ')] if os.path.exists(log) else []
            names = [c[0] for c in calls]
            about = [c[1] if len(c) > 1 else '' for c in calls]
            if crash_text(info) or throws(res):
                ctx.fail(['C16', 'C12' if op == 'read_wout' else 'C15'], '%s fails without cause: %s' % (op, crash_text(info) or throws(res)[0]), sc)
                return
            if names.count('nc_close') != 1 or names[-1:] != ['nc_close']:
                ctx.fail(['C16'], '%s closes the file %d times (calls end with %s)' % (op, names.count('nc_close'), names[-3:]), sc)
                return
            sc = make(kw)
            tries = [(k, -101) for k in range(len(names))]
            if kw.get('every'):
                # each call with each error code, apart from the codes that say what the operation may tolerate
                tries += [(k, c) for c in CODES for k in range(len(names)) if not (op == 'read_boozmn' and c == -49 and about[k] == 'chi_b')]
            for k, c in tries:
                attempt(sc, k, c)
            res, info = H.run(exe, sc, timeout=200)
            ctx.n += len(tries)
            note(ctx, 'each call of %s fails' % op, kw)
            if info['rc'] == 'timeout':
                return
            cr = crash_text(info)
            # results of the operation, in order
            rs = [r for r in res if r.get('op') == op]
            if cr:
                ctx.fail(['C16', 'C13'], '%s after call %s of %s failed' % (cr, tries[len(rs)] if len(rs) < len(tries) else '', op), sc)
                return
            for (k, c), r in zip(tries, rs):
                if 'throw' in r or (names[k] == 'nc_inq_dimid' and op == 'write_boozmn'):
                    continue
                one_ = make(kw)
                ctx.fail(['C16'], '%s returns normally although call %d (%s %s) failed with code %d' % (op, k, names[k], about[k], c), attempt(one_, k, c), dict(S.files(['wout.nc', 'boozmn.nc', 'nochi.nc']), wraps=True))
                return
    par(ctx, one, jobs)


def s_real_failures(ctx):
    """C16: files that do not exist, are not netCDF, or are cut off."""
    ctx.exe()
    items = [(op, kind) for op in ('read_wout', 'read_boozmn') for kind in ('absent', 'empty', 'garbage', 'cut 20', 'cut 400', 'directory')]
    items += [('write_boozmn', 'absent directory'), ('write_boozmn', 'directory')]

    def one(x):
        op, kind = x
        with Scratch() as S:
            p = S.p('f.nc')
            if op == 'read_wout':
                wout(p, vmec(seed=1))
            elif op == 'read_boozmn':
                ctx.run(make(dict(seed=1)).path('write_boozmn', 0, p))
            if kind in ('absent', 'directory') and os.path.exists(p):
                os.unlink(p)
            if kind == 'directory':
                os.mkdir(p)
            if kind == 'empty':
                open(p, 'w').close()
            if kind == 'garbage':
                open(p, 'w').write('not a netCDF file\n' * 40)
            if kind.startswith('cut'):
                with open(p, 'r+b') as f:
                    f.truncate(int(kind.split()[1]))
            if kind == 'absent directory':
                p = S.p('no/such/dir.nc')
            sc = make(dict(seed=1))
            if op == 'read_wout':
                sc.path('read_wout', 0, 1, p)
            else:
                sc.path(op, 0, p)
            res, info = ctx.run(sc)
            note(ctx, op + ' of a file that is ' + kind, {})
            cr, t = crash_text(info), throws(res)
            if cr or not t:
                ctx.fail(['C16'], '%s with a file that is %s: %s instead of an exception' % (op, kind, cr or 'returns'), sc)
    par(ctx, one, items)


SUITES = {'C11': [s_wout_bad], 'C12': [s_wout, s_wout_bad], 'C13': [s_wout, s_boozmn, s_roundtrip], 'C14': [s_boozmn], 'C15': [s_roundtrip], 'C16': [s_fail, s_real_failures]}

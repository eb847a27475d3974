"""Checks the Python class of a built extension against its C++ members: bind_driver.py SO FIELDS < cases"""
import importlib.util
import json
import sys
from importlib.machinery import ExtensionFileLoader
import numpy as np

INPUTS = '''verbose asym nfp mpol ntor mnmax mpol_nyq ntor_nyq mnmax_nyq xm xn xm_nyq xn_nyq ns_in s_in iota phi chi phip pres
rmnc rmns zmnc zmns lmnc lmns bmnc bmns bsubumnc bsubumns bsubvmnc bsubvmns mboz nboz compute_surfs aspect toroidal_flux'''.split()
OUTPUTS = '''ns_b s_b mnboz xm_b xn_b bmnc_b bmns_b gmnc_b gmns_b rmnc_b rmns_b zmnc_b zmns_b numnc_b numns_b
Boozer_G Boozer_G_all Boozer_I Boozer_I_all'''.split()
VM = 'rmnc0 rmns0 zmnc0 zmns0 lmnc0 lmns0 bmnc0 bmns0 bsubumnc0 bsubumns0 bsubvmnc0 bsubvmns0'.split()
OPT = 'phips chi pres phi'.split()
so, FIELDS = sys.argv[1], json.loads(sys.argv[2])


def load(name):
    spec = importlib.util.spec_from_file_location(name, so, loader=ExtensionFileLoader(name, so))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


try:
    B = load('_booz_xform')
    P = load('_peek')
except Exception as e:
    print(json.dumps({'load': repr(e)}))
    sys.exit(0)


def eq(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and bool(np.array_equal(a, b))
    return a == b


def val(r, kind, size=None):
    if kind == 'int':
        return int(r.integers(-9, 400))
    if kind == 'bool':
        return bool(r.integers(0, 2))
    if kind in ('double', 'boozfloat'):
        return float(r.normal() * 10.0 ** r.integers(-3, 4))
    if kind == 'IntVector':
        return r.integers(-50, 50, int(r.integers(0, 9))).astype(np.int32)
    if kind == 'Vector':
        return r.normal(size=int(r.integers(0, 9)))
    if kind == 'Matrix':
        return r.normal(size=(int(r.integers(1, 6)), int(r.integers(1, 6))))
    return 'string%d' % r.integers(0, 99)


def snap(o):
    return {f: getattr(P, 'get_' + f)(o) for f in FIELDS}


def case(c):
    r = np.random.default_rng(c['seed'])
    fail, n = [], 0

    def bad(m):
        fail.append(m[:400])
    o = B.Booz_xform()
    other = B.Booz_xform()

    def fill():
        for f, k in FIELDS.items():
            getattr(P, 'set_' + f)(o, val(r, k))
    fill()
    base = snap(other)
    for name in [INPUTS[i] for i in r.permutation(len(INPUTS))]:
        if name not in FIELDS:
            continue
        for rep in range(2):
            n += 1
            v = val(r, FIELDS[name])
            old = snap(o)
            try:
                got = getattr(o, name)
            except Exception as e:
                bad('input %s cannot be read: %r' % (name, e))
                break
            if not eq(got, old[name]):
                bad('reading %s gives %s, the C++ member holds %s' % (name, got, old[name]))
            w = v
            if isinstance(v, np.ndarray):
                w = [v, np.asfortranarray(v), v.tolist() if v.size else v, np.repeat(v, 2, axis=0)[::2]][int(r.integers(0, 4))]
            try:
                setattr(o, name, w)
            except Exception as e:
                bad('input %s cannot be written: %r' % (name, e))
                break
            new = snap(o)
            if not eq(new[name], v):
                bad('after writing %s = %s the C++ member holds %s' % (name, v, new[name]))
            for f in FIELDS:
                if f != name and not eq(new[f], old[f]):
                    bad('writing %s changes the C++ member %s' % (name, f))
            if not eq(getattr(o, name), v):
                bad('%s reads back as %s after writing %s' % (name, getattr(o, name), v))
    for name in OUTPUTS:
        if name not in FIELDS:
            continue
        n += 1
        fill()
        have = snap(o)
        try:
            got = getattr(o, name)
        except Exception as e:
            bad('output %s cannot be read: %r' % (name, e))
            continue
        if not eq(got, have[name]):
            bad('reading %s gives %s, the C++ member holds %s' % (name, got, have[name]))
    for f in FIELDS:
        if not eq(snap(other)[f], base[f]):
            bad('member %s of another object changed' % f)

    def called(want, what):
        rec = P.record()
        if not rec:
            bad('%s: nothing was called' % what)
            return
        got = json.loads(rec)
        if got[1] != P.address(o):
            bad('%s acts on another object' % what)
        got = [got[0]] + got[2:]
        if got != want:
            k = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), None)
            bad('%s: C++ argument %s is %s, expected %s' % (what, k, str(got[k] if k is not None and k < len(got) else got)[:150], str(want[k] if k is not None else want)[:150]))

    def call(want, what, f, *a, **k):
        nonlocal n
        n += 1
        P.record()
        try:
            getattr(o, f)(*a, **k)
        except Exception as e:
            bad('%s raises %s' % (what, str(e)[:200]))
            return
        called(want, what)
    fn = 'file_%d.nc' % r.integers(0, 999)
    call(['read_wout', fn, False], 'read_wout(filename)', 'read_wout', fn)
    call(['read_wout', fn, True], 'read_wout(filename, True)', 'read_wout', fn, True)
    call(['read_wout', fn, False], 'read_wout(filename, False)', 'read_wout', fn, False)
    call(['read_wout', fn, True], 'read_wout(flux=True, filename=...)', 'read_wout', flux=True, filename=fn)
    call(['run'], 'run()', 'run')
    for m in ('write_boozmn', 'read_boozmn'):
        call([m, fn], m + '(filename)', m, fn)
        call([m, fn], m + '(filename=...)', m, filename=fn)

    def enc(v):
        if v.ndim == 1:
            return ['v', len(v)] + v.tolist()
        return ['m', v.shape[0], v.shape[1]] + v.ravel().tolist()
    ns = int(r.integers(0, 50))
    iotas = r.normal(size=4)
    M = [r.normal(size=(int(r.integers(1, 4)), int(r.integers(1, 4)))) for _ in VM]
    O = [r.normal(size=int(r.integers(1, 5))) for _ in OPT]
    want = ['init_from_vmec', ns, enc(iotas)] + [enc(m) for m in M]
    none = enc(np.zeros(0))
    call(want + [none] * 4, 'init_from_vmec(ns, ..., bsubvmns0)', 'init_from_vmec', ns, iotas, *M)
    call(want + [enc(x) for x in O], 'init_from_vmec(all, by position)', 'init_from_vmec', ns, iotas, *M, *O)
    kw = dict(zip(['ns', 'iotas'] + VM + OPT, [ns, iotas] + M + O))
    call(want + [enc(x) for x in O], 'init_from_vmec(all, by keyword)', 'init_from_vmec', **{k: kw[k] for k in sorted(kw)})
    for i, k in enumerate(OPT):
        call(want + [enc(x) if j == i else none for j, x in enumerate(O)], 'init_from_vmec(..., %s=...)' % k, 'init_from_vmec', ns, iotas, *M, **{k: O[i]})
    try:
        t = B.omp_max_threads()
        if not isinstance(t, int) or t < 1:
            bad('omp_max_threads() is %r' % (t,))
    except Exception as e:
        bad('omp_max_threads: %r' % e)
    return fail, n


def vmec(c):
    """The arguments of init_from_vmec reach the members they stand for."""
    r = np.random.default_rng(c['seed'] + 7)
    fail = []
    ns, nf, nf2 = int(r.integers(3, 9)), int(r.integers(1, 5)), int(r.integers(1, 5))
    o = B.Booz_xform()
    o.verbose = 0
    o.asym, o.nfp, o.mpol, o.ntor, o.mpol_nyq, o.ntor_nyq = True, 3, 1, nf - 1, 1, nf2 - 1
    o.mnmax, o.mnmax_nyq = nf, nf2
    o.xm, o.xn = np.zeros(nf, int), 3 * np.arange(nf)
    o.xm_nyq, o.xn_nyq = np.zeros(nf2, int), 3 * np.arange(nf2)
    A = dict(ns=ns, iotas=r.normal(size=ns))
    for k in VM:
        A[k] = r.normal(size=(nf2 if k[0] == 'b' else nf, ns))
    for k in OPT:
        A[k] = r.normal(size=ns)
    how = c['seed'] % 3
    if how == 0:
        o.init_from_vmec(**A)
    elif how == 1:
        o.init_from_vmec(*[A[k] for k in ['ns', 'iotas'] + VM + OPT])
    else:
        o.init_from_vmec(*[A[k] for k in ['ns', 'iotas'] + VM], **{k: A[k] for k in OPT})
    want = {'iota': A['iotas'][1:], 'phip': -A['phips'] / (2 * np.pi), 'chi': A['chi'], 'pres': A['pres'], 'phi': A['phi']}
    for k in VM:
        half = k[0] in 'lb'
        want[k[:-1]] = A[k][:, 1:] if half else (A[k][:, 1:] + A[k][:, :-1]) / 2
    for k, w in want.items():
        got = getattr(P, 'get_' + k)(o)
        if np.shape(got) != np.shape(w) or not np.allclose(got, w, rtol=1e-12, atol=1e-12):
            fail.append('init_from_vmec from Python: member %s does not hold what was passed for it' % k)
    return fail, 1


for i, c in enumerate(json.load(sys.stdin)):
    try:
        f, n = (vmec if c['suite'] == 'vmec' else case)(c)
        print(json.dumps({'i': i, 'fail': f[:8], 'n': n}), flush=True)
    except Exception as e:
        import traceback
        print(json.dumps({'i': i, 'error': traceback.format_exc()[-500:]}), flush=True)

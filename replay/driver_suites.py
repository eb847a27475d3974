"""Replays of the command line programs (C17, C18): the real program in a scratch directory, against the object API."""
import os
import subprocess
import numpy as np
import harness as H
from suites import crash_text, throws, close, par, note
from io_suites import vmec
from file_suites import Scratch, wout, nc_read

EXT = 'test.one'


def data(kw):
    kw = dict(kw)
    v = vmec(**kw)
    v['bmnc'] = v['bmnc'] * 0.1
    v['bmnc'][0] += 4
    v['bsubvmnc'][0] += 9
    for f in ('lmns', 'lmnc', 'bsubumnc', 'bsubumns', 'bsubvmns'):
        v[f] = v[f] * 0.02
    return v


def texts(mb, nb, cs, ext=EXT):
    """The same tokens in several layouts."""
    c = ' '.join(str(x) for x in cs)
    return ['%d %d\n%s\n%s\n' % (mb, nb, ext, c), '%d\n%d %s %s' % (mb, nb, ext, c), '\n\n  %d\t%d\n\n\t%s \n%s\n\n\n' % (mb, nb, ext, '\n'.join(str(x) for x in cs)),
            '%d %d %s %s' % (mb, nb, ext, '\t'.join(str(x) for x in cs)), '%d %d\n%s\n%s' % (mb, nb, ext, c)]


def cases(ctx, n):
    r = np.random.default_rng(ctx.seed + 5)
    L = []
    for asym in (False, True):
        for cs in ([], [0], [3, 1, 4, 0], [2, 2, 0], [4, 4, 4, 1, 1], [0, 1, 2, 3, 4], [4, 3, 2, 1, 0], [1, 3, 1, 3, 1, 3, 0]):
            L.append((dict(asym=asym, ns=6, mpol=2, ntor=1), 0, 0, cs))
        # below, at and above the defaults (6 mpol, 2 ntor)
        for mb, nb in ((1, 1), (12, 2), (13, 1), (5, 3), (12, 0), (14, 4), (-3, -8), (11, 2), (2, 12)):
            L.append((dict(asym=asym, ns=3, mpol=2, ntor=1), mb, nb, [1, 0]))
        L.append((dict(asym=asym, ns=3, mpol=1, ntor=0), 2, 0, []))
        L.append((dict(asym=asym, ns=14, mpol=1, ntor=0), 2, 1, [12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0] * 2))
        L.append((dict(asym=asym, ns=40, mpol=1, ntor=0), 2, 1, list(r.integers(0, 39, 60))))
        L.append((dict(asym=asym, ns=4, mpol=2, ntor=2, swap=True), 5, 9, [2, 0]))
        L.append((dict(asym=asym, ns=7, mpol=1, ntor=1, nfp=5), 1, 1, [-0, 5]))
    for x in ctx.hints.get('ints', []):
        if 1 <= x <= 40:
            L.append((dict(ns=max(x, 2) + 2, mpol=1, ntor=1), 2, 1, [int(y) for y in r.permutation(max(x, 2) + 1)]))
            L.append((dict(ns=max(x, 2) + 2, mpol=1, ntor=1), 2, 1, [int(y) for y in r.integers(0, 3, x)]))
            L.append((dict(ns=x + 3, mpol=1, ntor=1), x, x, [x, 0]))
    for _ in range(n):
        ns = int(r.integers(2, 9))
        L.append((dict(asym=bool(r.integers(2)), ns=ns, mpol=int(r.integers(1, 3)), ntor=int(r.integers(0, 3))), int(r.integers(0, 16)), int(r.integers(0, 5)),
                  [int(x) for x in r.integers(0, ns - 1, int(r.integers(0, 8)))]))
    return [(dict(kw, seed=i + 1), mb, nb, [int(x) for x in cs], i) for i, (kw, mb, nb, cs) in enumerate(L)]


def program(ctx, args, cwd):
    """The real program: (status, stdout, stderr)."""
    exe = os.path.dirname(ctx.exe()) + '/prog'
    env = dict(os.environ, OMP_NUM_THREADS='2', ASAN_OPTIONS='detect_leaks=0:max_malloc_fill_size=1073741824:malloc_fill_byte=165:hard_rss_limit_mb=8000')
    ctx.n += 1
    return H.limited([exe] + args, 100, env, cwd)


def reference(ctx, w, mb, nb, cs, out):
    """The transformation the input file asks for, through the object."""
    sc = H.Script().op('new', 0).set(0, 'verbose', 0).path('read_wout', 0, 0, w).op('dump', 0)
    res, info = ctx.run(sc)
    if crash_text(info) or throws(res):
        return None
    o = H.obj([r for r in res if 'obj' in r][0])
    want = dict(mboz=max(int(o['mboz']), mb), nboz=max(int(o['nboz']), nb), cs=sorted(cs) if cs else [int(x) for x in o['compute_surfs']])
    sc = H.Script().op('new', 0).set(0, 'verbose', 0).path('read_wout', 0, 0, w)
    sc.set(0, 'mboz', want['mboz']).set(0, 'nboz', want['nboz']).set(0, 'compute_surfs', np.array(want['cs'], int)).op('run', 0).path('write_boozmn', 0, out)
    res, info = ctx.run(sc, timeout=100)
    if crash_text(info) or throws(res):
        return None
    return want


def differ(a, b):
    da, A = a
    db, B = b
    if da != db:
        return 'dimensions %s instead of %s' % (da, db)
    for k in sorted(set(A) | set(B)):
        if k not in A or k not in B:
            return 'variable %s is %s' % (k, 'missing' if k in B else 'new')
        x, y = A[k][1], B[k][1]
        if x.dtype.kind in 'SU':
            continue
        if x.shape != y.shape or not close(x, y, 1e-12):
            return '%s is %s instead of %s' % (k, np.asarray(x).ravel()[:8], np.asarray(y).ravel()[:8])
    return None


def s_driver(ctx):
    """C17: every well-formed input file."""
    ctx.exe()

    def one(x):
        kw, mb, nb, cs, i = x
        v = data(kw)
        t = texts(mb, nb, cs)[i % 5]
        with Scratch() as S:
            wout(S.p('wout_%s.nc' % EXT), v)
            open(S.p('in_booz'), 'w').write(t)
            before = set(os.listdir(S.d))
            rc, so, se = program(ctx, ['in_booz'], S.d)
            if rc == 'timeout':
                return
            note(ctx, 'xbooz_xform', dict(kw, mboz=mb, nboz=nb, cs=cs))
            what = 'xbooz_xform with input %r for %s' % (t, kw)
            want = reference(ctx, S.p('wout_%s.nc' % EXT), mb, nb, cs, S.p('ref.nc'))
            if want is None:
                return
            files = S.files(['wout_%s.nc' % EXT, 'in_booz'])
            new = set(os.listdir(S.d)) - before - {'ref.nc'}
            if rc != 0:
                props = ['C17'] + (['C13'] if 'Sanitizer' in se or 'runtime error' in se else [])
                ctx.fail(props, '%s: status %s (%s)' % (what, rc, se[-200:]), None, files)
            elif new != {'boozmn_%s.nc' % EXT}:
                ctx.fail(['C17'], '%s writes %s' % (what, sorted(new)), None, files)
            else:
                d = differ(nc_read(S.p('boozmn_%s.nc' % EXT)), nc_read(S.p('ref.nc')))
                if d:
                    ctx.fail(['C17'], '%s: in the file written %s' % (what, d), None, files)
    par(ctx, one, cases(ctx, 30 if ctx.thorough else 6))


def s_driver_errors(ctx):
    """C17: wrong argument counts, files that cannot be used, failing steps."""
    ctx.exe()
    items = [('args', a) for a in ([], ['in_booz', 'in_booz'], ['in_booz', 'x', 'y'], ['in_booz', '-v'], ['a', 'b', 'c', 'd', 'e'])]
    items += [('text', t) for t in ('', '\n', '4', '4 \n', 'four 3\n' + EXT, '4 x\n' + EXT, '4 3', '4 3\n', '4 3\n\n  \n', '4\n\n3\n\n\t')]
    items += [('nofile', None), ('nowout', '4 3\nother\n'), ('surface', '4 3\n%s\n7' % EXT), ('surface', '4 3\n%s\n-1 0' % EXT), ('surface', '4 3\n%s\n0 3 1' % EXT), ('target', '4 3\n%s\n0' % EXT)]

    def one(x):
        kind, a = x
        with Scratch() as S:
            v = data(dict(ns=4, mpol=2, ntor=1, seed=1))
            wout(S.p('wout_%s.nc' % EXT), v)
            args = ['in_booz']
            open(S.p('in_booz'), 'w').write('4 3\n%s\n0' % EXT if kind == 'args' else a or '')
            if kind == 'args':
                args = a
            if kind == 'nofile':
                args = ['absent']
            if kind == 'target':
                os.mkdir(S.p('boozmn_%s.nc' % EXT))
            before = set(os.listdir(S.d))
            rc, so, se = program(ctx, args, S.d)
            if rc == 'timeout':
                return
            new = set(os.listdir(S.d)) - before
            note(ctx, 'xbooz_xform: %s' % kind, {'x': a})
            files = S.files(['wout_%s.nc' % EXT, 'in_booz'])
            if kind == 'args':
                if rc not in (0, 1, 2, 64) or new or 'sage' not in so + se:
                    ctx.fail(['C17'], 'xbooz_xform with arguments %s: status %s, new files %s, %s' % (a, rc, sorted(new), 'usage not printed' if 'sage' not in so + se else ''), None, files)
            elif rc == 0 or new:
                ctx.fail(['C17'], 'xbooz_xform with %s %r: status %s, new files %s instead of an error' % (kind, a, rc, sorted(new)), None, files)
            elif rc == 'hang':
                ctx.fail(['C17'], 'xbooz_xform with %s %r does not end' % (kind, a), None, files)
            elif 'Sanitizer' in se or 'runtime error' in se:
                ctx.fail(['C17', 'C13'], 'xbooz_xform with %s %r: %s' % (kind, a, se[-300:]), None, files)
    par(ctx, one, items)


SUITES = {'C17': [s_driver, s_driver_errors]}

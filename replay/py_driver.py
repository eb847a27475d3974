"""Runs cases of the Python layer on the current sources, without the compiled extension: reads a list of cases (JSON) on standard
input, writes per case a line {"i": index, "fail": message or null}.  The extension and the plotting libraries are stand-ins
that record what they are given."""
import contextlib
import importlib
import io
import json
import os
import shutil
import sys
import tempfile
import types
import numpy as np

sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')


# ---------------------------------------------------------------- stand-ins
class Booz_xform:
    world = None        # set per case

    def __init__(self):
        self.__dict__['_calls'] = Booz_xform.world['calls']
        self.__dict__['_a'] = dict(mboz=32, nboz=32, verbose=1, compute_surfs=np.zeros(0, int), ns_in=0, loaded=False)
        Booz_xform.world['calls'].append(('new',))

    def __getattr__(self, k):
        try:
            return self.__dict__['_a'][k]
        except KeyError:
            raise AttributeError(k)

    def __setattr__(self, k, v):
        if k not in self._a or k in Booz_xform.world.get('readonly', ()):
            raise AttributeError("can't set attribute " + k)
        if k == 'compute_surfs':
            v = np.array([int(x) for x in v], int)
        elif k in ('mboz', 'nboz', 'verbose'):
            if isinstance(v, float) or not isinstance(v, (int, np.integer)):
                raise TypeError('incompatible function arguments')
            v = int(v)
        self._a[k] = v

    def read_wout(self, filename, flux=False):
        w = Booz_xform.world
        self._calls.append(('read_wout', filename, bool(flux)))
        if w.get('throw') == 'read_wout' or filename != w['wout']:
            raise RuntimeError('cannot read ' + filename)
        self._a.update(mboz=w['mboz'], nboz=w['nboz'], ns_in=w['ns_in'], compute_surfs=np.arange(w['ns_in']), loaded=True, nfp=1)

    def run(self):
        w = Booz_xform.world
        self._calls.append(('run', int(self.mboz), int(self.nboz), [int(x) for x in self.compute_surfs]))
        if w.get('throw') == 'run' or any(x < 0 or x >= self.ns_in for x in self.compute_surfs):
            raise RuntimeError('run failed')
        self._a['done'] = True

    def write_boozmn(self, filename):
        self._calls.append(('write_boozmn', filename))
        if Booz_xform.world.get('throw') == 'write_boozmn':
            raise RuntimeError('cannot write')

    def read_boozmn(self, filename):
        w = Booz_xform.world
        self._calls.append(('read_boozmn', filename))
        if filename != w.get('boozmn'):
            raise RuntimeError('cannot read ' + filename)
        self._a.update(w['data'])


class Recorder:
    """Stands for a plotting module: every call is recorded, results are recorders again."""
    def __init__(self, log, path):
        self.__dict__.update(_log=log, _path=path)

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return Recorder(self._log, self._path + '.' + k)

    def __call__(self, *a, **k):
        a = tuple(np.array(x) if isinstance(x, np.ndarray) else x for x in a)
        k = {n: np.array(x) if isinstance(x, np.ndarray) else x for n, x in k.items()}
        e = (self._path, a, k)
        self._log.append(e)
        r = Recorder(self._log, self._path + '()')
        r.__dict__['_made'] = e
        return r

    def __setattr__(self, k, v):
        pass

    def __getitem__(self, k):
        return Recorder(self._log, self._path + '[]')

    def __iter__(self):
        return iter([Recorder(self._log, self._path + '[0]'), Recorder(self._log, self._path + '[1]')])


LOG = []


def load():
    ext = types.ModuleType('booz_xform._booz_xform')
    ext.Booz_xform = Booz_xform
    ext.omp_max_threads = lambda: 1
    ext.__version__ = 'stand-in'
    pkg = types.ModuleType('booz_xform')
    pkg.__path__ = [REPO + '/src/booz_xform']
    pkg.__file__ = REPO + '/src/booz_xform/__init__.py'
    pkg.Booz_xform, pkg.__version__, pkg.omp_max_threads = Booz_xform, 'stand-in', ext.omp_max_threads
    plt = Recorder(LOG, 'plt')
    mpl = types.ModuleType('matplotlib')
    mpl.pyplot = plt
    go = Recorder(LOG, 'go')
    ply = types.ModuleType('plotly')
    ply.graph_objects = go
    sys.modules.update({'booz_xform': pkg, 'booz_xform._booz_xform': ext, 'matplotlib': mpl, 'matplotlib.pyplot': plt, 'plotly': ply, 'plotly.graph_objects': go})
    cli = importlib.import_module('booz_xform._cli')
    plots = importlib.import_module('booz_xform.plots')
    return cli, plots


# ---------------------------------------------------------------- the command line front end
def is_int(t):
    return t.lstrip('+-').isdigit() and t.lstrip('+-').isascii() and len(t) - len(t.lstrip('+-')) <= 1


def expect_cli(c):
    """None: usage; otherwise (calls, fails)."""
    if c.get('args') is not None and len(c['args']) != 1:
        return None
    if c.get('missing'):
        return [], True
    t = c['text'].split()
    if len(t) < 3 or not (is_int(t[0]) and is_int(t[1])):
        return [], True
    cs = []
    for x in t[3:]:
        if not is_int(x):
            break
        cs.append(int(x))
    ext = t[2]
    calls = [('read_wout', 'wout_%s.nc' % ext, False)]
    if c.get('throw') == 'read_wout' or c.get('wout', 'wout_%s.nc' % ext) != 'wout_%s.nc' % ext:
        return calls, True
    use = sorted(cs) if cs else list(range(c['ns_in']))
    calls.append(('run', max(c['mboz'], int(t[0])), max(c['nboz'], int(t[1])), use))
    if c.get('throw') == 'run' or any(x < 0 or x >= c['ns_in'] for x in use):
        return calls, True
    calls.append(('write_boozmn', 'boozmn_%s.nc' % ext))
    return calls, c.get('throw') == 'write_boozmn'


def case_cli(c, mods):
    cli, _ = mods
    d = tempfile.mkdtemp(prefix='boozcli')
    old = os.getcwd()
    argv0 = sys.argv
    try:
        os.chdir(d)
        if not c.get('missing'):
            with open('in_booz', 'w', newline='') as f:
                f.write(c.get('text', ''))
        before = sorted(os.listdir(d))
        t = c.get('text', '').split()
        calls = []
        Booz_xform.world = dict(calls=calls, wout=c.get('wout') or 'wout_%s.nc' % (t[2] if len(t) > 2 else ''), mboz=c['mboz'], nboz=c['nboz'], ns_in=c['ns_in'],
                                throw=c.get('throw'))
        args = c['args'] if c.get('args') is not None else ['in_booz']
        out, err = io.StringIO(), io.StringIO()
        failed, how = False, 'returns'
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                if c.get('argv') == 'sys':
                    sys.argv = ['xbooz_xform'] + args
                    r = cli.main()
                else:
                    r = cli.main(list(args))
                if r not in (None, 0):
                    failed, how = True, 'returns %r' % (r,)
            except SystemExit as e:
                if e.code not in (None, 0):
                    failed, how = True, 'exits with %r' % (e.code,)
            except Exception as e:
                failed, how = True, '%s: %s' % (type(e).__name__, e)
        text = out.getvalue() + err.getvalue()
        got = [x for x in calls if x[0] != 'new']
        new = sorted(os.listdir(d))
        what = 'main(%s) with input %r' % (args, c.get('text', '')[:300])
        exp = expect_cli(c)
        if new != before:
            return '%s leaves files %s' % (what, new)
        if exp is None:
            if 'sage' not in text:
                return '%s prints no usage (%s)' % (what, how)
            if got or failed and not how.startswith(('returns', 'exits')):
                return '%s: %s, calls %s' % (what, how, got)
            return None
        want, wf = exp
        if got != want:
            return '%s calls %s instead of %s (%s)' % (what, str(got)[:600], str(want)[:600], how)
        if failed != wf:
            return '%s %s%s' % (what, how, ' although it should fail' if wf else '')
        if how.startswith(('IndexError', 'KeyError', 'TypeError', 'AttributeError', 'NameError', 'UnboundLocalError')):
            return '%s does not report the error but breaks with %s' % (what, how)
        return None
    finally:
        sys.argv = argv0
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- the plots
def make_data(c):
    """Random results of a transformation (deterministic)."""
    r = np.random.default_rng(c['seed'])
    nfp, ns = c['nfp'], c['ns_b']
    if c.get('modes'):
        m, n = np.array(c['modes']).T
    else:
        M, N = c['mboz'], c['nboz']
        L = [(a, b * nfp) for a in range(M) for b in range(0 if a == 0 else -N, N + 1)]
        m, n = np.array(L).T
    if c.get('shuffle') and len(m) > 2:
        p = np.concatenate([[0], 1 + r.permutation(len(m) - 1)])
        m, n = m[p], n[p]
    K = len(m)
    dec = np.exp(-0.2 * (np.abs(m) + np.abs(n) / nfp))[:, None]
    d = dict(nfp=nfp, asym=bool(c['asym']), mnboz=K, ns_b=ns, ns_in=c.get('ns_in', ns + 2), mboz=c.get('mboz', 4), nboz=c.get('nboz', 3),
             xm_b=m.astype(np.int32), xn_b=n.astype(np.int32), s_b=np.sort(r.uniform(0.01, 1, ns)))
    for k in ('bmnc_b', 'bmns_b', 'rmnc_b', 'rmns_b', 'zmnc_b', 'zmns_b', 'numnc_b', 'numns_b', 'gmnc_b', 'gmns_b'):
        d[k] = np.asfortranarray(r.normal(size=(K, ns)) * dec)
    d['rmnc_b'][0] += 8
    if not d['asym']:
        for k in ('bmns_b', 'rmns_b', 'zmnc_b', 'numnc_b', 'gmns_b'):
            d[k] = np.zeros((0, 0))
    mi = [(a, b * nfp) for a in range(2) for b in range(0 if a == 0 else -2, 3)]
    d['xm'], d['xn'] = (np.array(x, dtype=np.int32) for x in zip(*mi))
    d['mnmax'] = len(mi)
    for k in ('rmnc', 'rmns', 'zmnc', 'zmns'):
        d[k] = np.asfortranarray(r.normal(size=(len(mi), d['ns_in'])))
    d['rmnc'][0] += 9
    if not d['asym']:
        d['rmns'] = d['zmnc'] = np.zeros((0, 0))
    d['compute_surfs'] = np.sort(r.permutation(d['ns_in'])[:ns]).astype(np.int32)
    if c.get('cs'):
        d['compute_surfs'] = np.array(c['cs'], np.int32)
    for k in ('xm', 'xn', 'rmnc', 'rmns', 'zmnc', 'zmns', 'compute_surfs', 's_b', 'xm_b', 'xn_b'):
        pass
    for k, v in d.items():
        if isinstance(v, np.ndarray) and (k.endswith('_b')):
            v.setflags(write=False)       # outputs are read-only in Python
    return d


def near(a, b, tol=1e-8):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    return a.size == 0 or bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b)))) and bool(np.all(np.isfinite(a)))


def check_surf(c, d, log, ret):
    ev = [e for e in log if e[0].split('.')[-1] in ('contour', 'contourf')]
    o = c['kw']
    if len(ev) != 1:
        return '%d contour drawings' % len(ev)
    name, a, k = ev[0]
    if name.split('.')[-1] != ('contourf' if o.get('fill', True) else 'contour'):
        return 'draws with %s' % name
    if len(a) < 3:
        return None
    X, Y, Z = (np.asarray(x, float) for x in a[:3])
    if X.ndim == 1 and Y.ndim == 1:
        X, Y = np.meshgrid(X, Y)
    nth, nph = o.get('ntheta', 50), o.get('nphi', 90)
    for nm, A, n, top in (('toroidal', X, nph, 2 * np.pi / d['nfp']), ('poloidal', Y, nth, 2 * np.pi)):
        u = np.unique(np.round(A, 12))
        if len(u) != n or not near(u, np.linspace(0, top, n)):
            return 'the %s grid is %s... (%d values) instead of %d over [0, %g]' % (nm, u[:4], len(u), n, top)
    if Z.shape != X.shape:
        return 'shapes %s and %s' % (X.shape, Z.shape)
    js = o.get('js', 0)
    B = np.zeros(X.shape)
    for i in range(d['mnboz']):
        an = d['xm_b'][i] * Y - d['xn_b'][i] * X
        B += d['bmnc_b'][i, js] * np.cos(an)
        if d['asym']:
            B += d['bmns_b'][i, js] * np.sin(an)
    if not near(Z, B):
        return '|B| drawn is off by %g' % np.max(np.abs(Z - B))
    if len(a) > 3 and np.ndim(a[3]) == 0 and a[3] != o.get('ncontours', 25):
        return '%s contours' % a[3]
    return None


def curves(log):
    out = []
    for name, a, k in log:
        if name.split('.')[-1] in ('plot', 'semilogy') and len(a) >= 2:
            x, y = np.asarray(a[0], float), np.asarray(a[1], float)
            if np.array_equal(x, [0, 1]) and not np.any(y):
                continue
            out.append((x, y, k))
    return out


def filtered(c, d):
    h = c['kw'].get('remove_helicity')
    data = np.array(d['bmnc_b'])
    if h is not None:
        for i in range(d['mnboz']):
            if h[1] * int(d['xm_b'][i]) == h[0] * int(d['xn_b'][i]):
                data[i] = 0
    return np.abs(data) if c['kw'].get('log', True) else data


def klass(m, n, nfp, detail):
    if m == 0:
        return 'bg' if n == 0 else 'mirror'
    if n == 0:
        return 'qa'
    if detail:
        return 'plus' if n == nfp * m else 'minus' if n == -nfp * m else 'other'
    return 'hel'


def label_class(s):
    s = s.replace(' ', '')
    if 'Background' in s:
        return 'bg'
    if 'Quasiaxi' in s:
        return 'qa'
    if 'Mirror' in s:
        return 'mirror'
    if 'Other' in s:
        return 'other'
    if 'n=-n$_{fp}$' in s:
        return 'minus'
    if 'n=n$_{fp}$' in s:
        return 'plus'
    return 'hel' if 'Helical' in s else None


def check_radial(c, d, cs):
    rad = np.sqrt(d['s_b']) if c['kw'].get('sqrts') else d['s_b']
    for x, y, k in cs:
        if not near(x, rad):
            return 'radial coordinate %s instead of %s' % (x[:4], rad[:4])
    return None


def check_sym(c, d, log, ret):
    o = c['kw']
    cs = curves(log)
    bad = check_radial(c, d, cs)
    if bad:
        return bad
    data = filtered(c, d)
    det = bool(o.get('helical_detail'))
    cls = [klass(int(m), int(n), d['nfp'], det) for m, n in zip(d['xm_b'], d['xn_b'])]
    B0 = o.get('B0', True)
    shown = [i for i in range(d['mnboz']) if d['xm_b'][i] <= o.get('max_m', 20) and abs(int(d['xn_b'][i])) <= o.get('max_n', 20) * d['nfp'] and (B0 or cls[i] != 'bg')]
    lab = [x for x in cs if x[2].get('label') is not None]
    rest = [x for x in cs if x[2].get('label') is None]
    colour = {}
    for x, y, k in lab:
        q = label_class(str(k['label']))
        if q is None:
            return None
        if not any(near(y, data[i]) for i in range(d['mnboz']) if cls[i] == q):
            return 'the curve labelled %r is no %s mode' % (k['label'], q)
        if q in colour:
            return 'two legend entries for %s modes' % q
        colour[q] = k.get('color')
    need = {q for q in cls if B0 or q != 'bg'}
    if set(colour) != need:
        return 'legend entries %s instead of %s' % (sorted(colour), sorted(need))
    if len({str(v) for v in colour.values()}) != len(colour):
        return 'one colour for two classes: %s' % colour
    left = list(range(len(rest)))
    for i in shown:
        j = next((j for j in left if near(rest[j][1], data[i]) and str(rest[j][2].get('color')) == str(colour[cls[i]])), None)
        if j is None:
            near_ = [j for j in left if near(rest[j][1], data[i])]
            return 'mode m=%d n=%d (%s) is %s' % (d['xm_b'][i], d['xn_b'][i], cls[i], 'drawn as another class' if near_ else 'not drawn')
        left.remove(j)
    if left:
        return '%d curves too many: %s' % (len(left), rest[left[0]][1][:4])
    return None


def check_mode(c, d, log, ret):
    import re
    o = c['kw']
    cs = curves(log)
    bad = check_radial(c, d, cs)
    if bad:
        return bad
    data = filtered(c, d)
    off = 0 if o.get('B0', True) else 1
    L = d['mnboz'] - off
    n = min(o.get('nmodes', 10), L)
    if len(cs) != n:
        return '%d modes drawn instead of %d' % (len(cs), n)
    best = np.sort(np.abs(data[off:, -1]))[::-1][:n]
    seen = set()
    for k, (x, y, kw) in enumerate(cs):
        g = re.findall(r'-?\d+', str(kw.get('label', '')))
        if len(g) != 2:
            return None
        m, nn = int(g[0]), int(g[1])
        w = [i for i in range(off, d['mnboz']) if d['xm_b'][i] == m and d['xn_b'][i] == nn]
        if not w or (m, nn) in seen:
            return 'label %r' % kw.get('label')
        seen.add((m, nn))
        if not near(y, data[w[0]]):
            return 'the curve labelled m=%d n=%d is not the amplitude of that mode' % (m, nn)
        if not near(abs(data[w[0], -1]), best[k]):
            return 'curve %d has outermost amplitude %g instead of %g' % (k, abs(data[w[0], -1]), best[k])
    return None


def check_wire(c, d, log, ret):
    o = c['kw']
    nth, nph, ref = o.get('ntheta', 30), o.get('nphi', 80), o.get('refine', 3)
    js = o.get('js')
    if js is None:
        js = d['ns_b'] - 1
    th, ze = np.meshgrid(np.linspace(0, 2 * np.pi, nth * ref + 1), np.linspace(0, 2 * np.pi, nph * ref + 1), indexing='ij')

    def series(cc, ss, m, n, j, der=False):
        out = np.zeros(th.shape)
        for i in range(len(m)):
            an = int(m[i]) * th - int(n[i]) * ze
            f = -m[i] * np.sin(an) if der else np.cos(an)
            g = m[i] * np.cos(an) if der else np.sin(an)
            if cc is not None:
                out += cc[i, j] * f
            if ss is not None:
                out += ss[i, j] * g
        return out
    A = d['asym']
    b = lambda cn, sn, der=False: series(d[cn] if cn else None, d[sn] if sn else None, d['xm_b'], d['xn_b'], js, der)
    R, Z = b('rmnc_b', 'rmns_b' if A else None), b('zmnc_b' if A else None, 'zmns_b')
    nu = b('numnc_b' if A else None, 'numns_b')
    Rt, Zt = b('rmnc_b', 'rmns_b' if A else None, True), b('zmnc_b' if A else None, 'zmns_b', True)
    phi = ze - nu
    want = []

    def grid(R, Z, phi):
        X, Y = R * np.cos(phi), R * np.sin(phi)
        for i in range(0, nth * ref + 1, ref):
            want.append((X[i], Y[i], Z[i]))
        for i in range(0, nph * ref + 1, ref):
            want.append((X[:, i], Y[:, i], Z[:, i]))
    grid(R, Z, phi)
    if o.get('orig', True):
        j = int(d['compute_surfs'][js])
        q = lambda cn, sn: series(d[cn] if cn else None, d[sn] if sn else None, d['xm'], d['xn'], j)
        grid(q('rmnc', 'rmns' if A else None), q('zmnc' if A else None, 'zmns'), ze)
    # what the figure contains: the objects handed to the last Figure, or added to it
    made = []
    for name, a, k in log:
        if name == 'go.Figure' or name.endswith('.add_traces'):
            ds = k.get('data', a[0] if a else [])
            made += list(ds) if isinstance(ds, (list, tuple)) else [ds]
        elif name.endswith('.add_trace') and a:
            made.append(a[0])
    made = [m.__dict__.get('_made') for m in made if isinstance(m, Recorder)]
    made = [m for m in made if m]
    if not made:
        return None
    lines = [tuple(np.asarray(k[q], float) for q in 'xyz') for name, a, k in made if name == 'go.Scatter3d']
    surfs = [tuple(np.asarray(k[q], float) for q in 'xyz') for name, a, k in made if name == 'go.Surface']
    if len(lines) != len(want):
        return '%d curves instead of %d' % (len(lines), len(want))
    left = list(range(len(lines)))
    for w in want:
        j = next((j for j in left if all(near(g, x) for g, x in zip(lines[j], w))), None)
        if j is None:
            return 'a coordinate curve is missing or misplaced (starts at %s; drawn %s)' % ([float(x[0]) for x in w], [float(x[0]) for x in lines[left[0]]])
        left.remove(j)
    if bool(o.get('surf', True)) != (len(surfs) == 1):
        return '%d surfaces' % len(surfs)
    if surfs:
        g = np.sqrt(Rt * Rt + Zt * Zt)
        ok = g > 1e-6
        Rs, Zs = R - 0.002 * Zt / np.where(ok, g, 1), Z + 0.002 * Rt / np.where(ok, g, 1)
        w = (Rs * np.cos(phi), Rs * np.sin(phi), Zs)
        s = surfs[0]
        if s[0].shape == R.T.shape != R.shape:
            s = tuple(x.T for x in s)
        for x, y, nm in zip(s, w, 'xyz'):
            if x.shape != y.shape:
                return 'the surface has shape %s' % (x.shape,)
            if not near(np.where(ok, x, 0), np.where(ok, y, 0)):
                return 'the surface is off by %g in %s' % (np.max(np.abs(np.where(ok, x - y, 0))), nm)
    return None


CHECK = {'surfplot': check_surf, 'symplot': check_sym, 'modeplot': check_mode, 'wireplot': check_wire}


def case_plot(c, mods):
    _, plots = mods
    f = getattr(plots, c['fn'])
    d = make_data(c)
    calls = []
    Booz_xform.world = dict(calls=calls, boozmn='boozmn_x.nc', data=d)
    del LOG[:]
    what = '%s(%s)' % (c['fn'], ', '.join('%s=%r' % x for x in sorted(c['kw'].items()))) + ' for %s' % {k: v for k, v in c.items() if k not in ('kw', 'fn', 'suite')}
    kw = {k: tuple(v) if isinstance(v, list) else v for k, v in c['kw'].items()}
    if c.get('src') == 'bad':
        try:
            f(c['arg'], **kw)
        except ValueError:
            return None
        except Exception as e:
            return '%s with argument %r: %s instead of ValueError' % (c['fn'], c['arg'], type(e).__name__)
        return '%s accepts the argument %r' % (c['fn'], c['arg'])
    if c.get('src') == 'file':
        b = 'boozmn_x.nc'
    else:
        b = Booz_xform()
        b._a.update(d)
    before = {k: (np.array(v) if isinstance(v, np.ndarray) else v) for k, v in d.items()}
    del calls[:]
    np.seterr(all='ignore')
    try:
        ret = f(b, **kw)
    except Exception as e:
        import traceback
        return '%s raises %s: %s (%s)' % (what, type(e).__name__, e, traceback.format_exc().strip().split('\n')[-3].strip()[:120])
    log = list(LOG)
    if c.get('src') == 'file':
        if [x for x in calls if x[0] != 'new'] != [('read_boozmn', 'boozmn_x.nc')]:
            return '%s from a file calls %s' % (what, calls)
    else:
        for k, v in before.items():
            now = b._a.get(k)
            same = near(now, v, 0) if isinstance(v, np.ndarray) else now == v
            if not same:
                return '%s changes %s of the object' % (what, k)
    m = CHECK[c['fn']](c, d, log, ret)
    return None if m is None else '%s: %s' % (what, m)


def main():
    cases = json.load(sys.stdin)
    out = os.fdopen(os.dup(1), 'w')
    try:
        mods = load()
    except Exception as e:
        out.write(json.dumps({'load': '%s: %s' % (type(e).__name__, e)}) + '\n')
        return
    for i, c in enumerate(cases):
        try:
            m = {'cli': case_cli, 'plot': case_plot}[c['suite']](c, mods)
            out.write(json.dumps({'i': i, 'fail': m}) + '\n')
        except Exception as e:
            import traceback
            out.write(json.dumps({'i': i, 'error': '%r %s' % (e, traceback.format_exc()[-400:])}) + '\n')
        out.flush()


if __name__ == '__main__':
    main()

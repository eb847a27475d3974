"""Replays of the Python layer (C18, C20)."""
import json
import os
import subprocess
import numpy as np
from suites import par, note

HERE = os.path.dirname(os.path.abspath(__file__))


def run_cases(cases, timeout=120):
    """Results of the driver on a list of cases."""
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    try:
        r = subprocess.run(['python3-vt', HERE + '/py_driver.py'], input=json.dumps(cases).encode(), capture_output=True, timeout=timeout, env=env)
        out = r.stdout.decode(errors='replace')
        err = r.stderr.decode(errors='replace')[-300:]
    except subprocess.TimeoutExpired as e:
        out, err = (e.stdout or b'').decode(errors='replace'), 'time limit'
    res = []
    for ln in out.split('\n'):
        try:
            res.append(json.loads(ln))
        except ValueError:
            pass
    return res, err


def batches(ctx, props, cases, size=25):
    def one(b):
        res, err = run_cases(b)
        ctx.n += len(b)
        for r in res:
            if 'load' in r:
                ctx.fail(props, 'the module cannot be imported: ' + r['load'], None, {'python': b[:1]})
                return
            if 'error' in r:
                ctx.errors.append(r['error'])
                continue
            c = b[r['i']]
            note(ctx, c.get('fn', 'main'), {k: v for k, v in c.items() if k != 'suite'})
            if r['fail']:
                ctx.fail(props, r['fail'], None, {'python': [c]})
        if len(res) < len(b):
            ctx.errors.append('python driver: %d of %d cases (%s)' % (len(res), len(b), err))
    par(ctx, one, [cases[i:i + size] for i in range(0, len(cases), size)])


def s_cli(ctx):
    """C18"""
    r = np.random.default_rng(ctx.seed + 11)
    L = []
    base = dict(suite='cli', mboz=12, nboz=6, ns_in=9)
    seps = ['\n', ' ', '\t', '\r\n', '\n\n \t\n', '   ', '\f', '\v']

    def text(mb, nb, ext, cs, lay):
        t = [str(mb), str(nb), ext] + [str(x) for x in cs]
        if lay == 0:
            return '%s %s\n%s\n%s\n' % (mb, nb, ext, ' '.join(t[3:]))
        if lay == 1:
            return '\n'.join(t) + '\n'
        if lay == 2:
            return ' '.join(t)
        if lay == 3:
            return '\n\n\t' + '\r\n'.join(t) + '\r\n\r\n'
        s = ''
        for x in t:
            s += seps[int(r.integers(len(seps)))] + x
        return s + seps[int(r.integers(len(seps)))]
    lists = [[], [0], [8, 0, 4], [2, 2, 0], [8, 7, 6, 5, 4, 3, 2, 1, 0], [10 % 9, 1], [1, 8, 2, 8, 1], [9], [-1, 0], [3, 100], [0, 1, 2, 3, 4, 5, 6, 7, 8] * 40]
    k = 0
    for cs in lists:
        for lay in range(5):
            k += 1
            L.append(dict(base, text=text(20, 3, 'li383_1.4m', cs, lay), argv='sys' if k % 2 else None))
    for mb, nb in ((0, 0), (12, 6), (13, 7), (11, 5), (13, 5), (11, 7), (-4, -9), (1000, 2), (2, 1000), (12, 7), ('+20', '+9'), ('007', '0010')):
        L.append(dict(base, text=text(mb, nb, 'x', [1, 0], 0)))
        L.append(dict(base, text=text(mb, nb, '5', [], 4)))
    L.append(dict(base, ns_in=30, text=text(2, 2, 'a', [9, 10, 8, 11, 29, 3], 1)))       # numbers, not texts, are sorted
    L.append(dict(base, ns_in=3000, text=text(2, 2, 'a', [int(x) for x in r.permutation(3000)], 4)))
    for ext in ('circular_tokamak', '12', '-', 'a.nc', 'wout_x', 'd3d.nc.nc', 'A-b_c.1', '0'):
        L.append(dict(base, text=text(4, 3, ext, [3, 1], 0)))
    for bad in ('2 x 1', '2 1.0 3', '5 # 4', 'x', '1 2 3 end 4 5', '3 1, 2'):
        L.append(dict(base, text='4 3\nq\n' + bad))
    for t in ('', ' \n', '4', '4 3', '4 3\n', '\n4\n\n3 \t', 'q', '4 q', 'four 3 x', '4 x y', '4. 3 x', '3 4.5 x 1'):
        L.append(dict(base, text=t))
        L.append(dict(base, text=t, argv='sys'))
    for a in ([], ['in_booz', 'in_booz'], ['a', 'b', 'c'], ['in_booz', '-v'], ['in_booz', '']):
        for s in (None, 'sys'):
            L.append(dict(base, text='4 3 x 1', args=a, argv=s))
    for s in (None, 'sys'):
        L.append(dict(base, missing=True, args=['absent'], argv=s))
        for th in ('read_wout', 'run', 'write_boozmn'):
            L.append(dict(base, text='4 3 x 1 0', throw=th, argv=s))
            L.append(dict(base, text='4 3 x', throw=th, argv=s))
        L.append(dict(base, text='4 3 x 1 0', wout='wout_other.nc', argv=s))
    for x in ctx.hints.get('ints', []):
        if 0 <= x <= 3000:
            for d in (-1, 0, 1):
                n = max(x + d, 0)
                L.append(dict(base, ns_in=n + 5, text=text(4, 3, 'x', [int(y) for y in r.permutation(n + 5)[:n]], 0)))
                L.append(dict(base, ns_in=n + 5, text=text(n, 3, 'x', [n], 1)))
                L.append(dict(base, ns_in=n + 5, text=text(4, n, 'x', [2, n, 1], 4)))
                L.append(dict(base, ns_in=n + 5, text=text(4, 3, 'x', [0] * n, 4)))
                L.append(dict(base, mboz=n, nboz=n, ns_in=n + 5, text=text(4, 3, 'x', [0], 4)))
    for s in ctx.hints.get('strs', []):
        s = ''.join(ch for ch in s if ch.isprintable() and not ch.isspace())
        if s:
            L.append(dict(base, text=text(4, 3, s, [1, 0], 0)))
            L.append(dict(base, text=text(4, 3, 'x', [1, s, 0], 0)))
    for _ in range(600 if ctx.thorough else 80):
        ns = int(r.integers(1, 30))
        cs = [int(x) for x in r.integers(0, ns, int(r.integers(0, 12)))]
        L.append(dict(base, mboz=int(r.integers(0, 40)), nboz=int(r.integers(0, 40)), ns_in=ns, text=text(int(r.integers(-2, 50)), int(r.integers(-2, 50)), 'e%d' % r.integers(99), cs, int(r.integers(0, 5)))))
    batches(ctx, ['C18'], L, 40)


def s_plots(ctx):
    """C20"""
    r = np.random.default_rng(ctx.seed + 12)
    L = []
    k = 0

    def add(fn, kw, **d):
        nonlocal k
        k += 1
        c = dict(suite='plot', fn=fn, kw=kw, seed=k, nfp=3, ns_b=3, mboz=4, nboz=3, asym=False)
        c.update(d)
        L.append(c)
    odd = [[0, 0], [0, 6], [5, 0], [1, 3], [1, -3], [2, 3], [3, 9], [2, -6], [25, 3], [1, 63], [0, 66], [21, 0], [20, 60], [20, -60], [20, 63], [3, 5]]
    allneg = [[0, 0], [1, -3], [2, -6]]
    noqa = [[0, 0], [1, 3], [2, 6], [0, 3]]
    for asym in (False, True):
        for nfp in (1, 2, 5):
            for kw in ({}, {'fill': False}, {'js': 2}, {'js': -1}, {'ntheta': 7, 'nphi': 11, 'ncontours': 4}, {'ntheta': 12, 'nphi': 5, 'js': 1, 'fill': False}, {'ntheta': 2, 'nphi': 2}):
                add('surfplot', kw, asym=asym, nfp=nfp)
            add('surfplot', {'ntheta': 9, 'nphi': 6}, asym=asym, nfp=nfp, modes=odd)
            add('surfplot', {'ntheta': 9, 'nphi': 6}, asym=asym, nfp=nfp, mboz=1, nboz=0)
            add('surfplot', {'ntheta': 9, 'nphi': 6, 'js': 1}, asym=asym, nfp=nfp, src='file')
        for surf in (True, False):
            for orig in (True, False):
                for d in ({}, {'js': 0}, {'js': 1, 'refine': 1}, {'refine': 2, 'js': -2}, {'ntheta': 1, 'nphi': 1, 'refine': 1}):
                    kw = dict({'ntheta': 4, 'nphi': 5}, surf=surf, orig=orig, **{x: y for x, y in d.items() if x not in ('ntheta', 'nphi')})
                    kw.update({x: y for x, y in d.items() if x in ('ntheta', 'nphi')})
                    add('wireplot', kw, asym=asym, nfp=2, shuffle=True, cs=[4, 1, 3] if surf else None)
        add('wireplot', {'ntheta': 4, 'nphi': 3}, asym=asym, ns_b=1)
        add('wireplot', {'ntheta': 3, 'nphi': 4, 'refine': 2}, asym=asym, src='file')
        add('wireplot', {'ntheta': 3, 'nphi': 4, 'refine': 2}, asym=asym, modes=odd)
        add('wireplot', {}, asym=asym, mboz=2, nboz=1)
    for asym in (False, True):
        for modes in (None, odd, allneg, noqa):
            for kw in ({}, {'log': False}, {'sqrts': True}, {'B0': False}, {'log': False, 'B0': False, 'sqrts': True}, {'remove_helicity': [1, 0]}, {'remove_helicity': [0, 1]},
                       {'remove_helicity': [1, 3]}, {'remove_helicity': [1, -3], 'log': False}, {'ymin': 1e-3}):
                for x in ({}, {'helical_detail': True}, {'max_m': 2, 'max_n': 1}, {'max_m': 0}, {'max_n': 0, 'helical_detail': True}, {'max_m': 100, 'max_n': 100}):
                    add('symplot', dict(kw, **x), asym=asym, modes=modes, shuffle=bool(k % 2), nfp=(3, 1, 5)[k % 3] if modes is None else 3)
                for x in ({}, {'nmodes': 3}, {'nmodes': 1000}, {'nmodes': 1}, {'nmodes': 0}):
                    add('modeplot', dict(kw, **x), asym=asym, modes=modes, shuffle=bool(k % 2), nfp=(3, 1, 5)[k % 3] if modes is None else 3)
    for fn in ('symplot', 'modeplot'):
        add(fn, {}, mboz=1, nboz=0)
        add(fn, {}, ns_b=1)
        add(fn, {}, src='file')
        add(fn, {'B0': False}, mboz=1, nboz=0)
        add(fn, {'B0': False}, mboz=1, nboz=2)
        add(fn, {'lw': 2, 'marker': '.'})
    for fn in ('surfplot', 'symplot', 'modeplot', 'wireplot'):
        for a in (5, None, 1.5, [1], {'a': 1}):
            add(fn, {}, src='bad', arg=a)
    for x in ctx.hints.get('ints', []):
        if 1 <= x <= 300:
            for n in (x, x + 1):
                add('modeplot', {'nmodes': n}, mboz=6, nboz=4)
                add('symplot', {'max_m': n, 'max_n': n}, modes=[[0, 0], [n, 0], [n + 1, 0], [0, 3 * n], [0, 3 * n + 3], [n, 3 * n], [n + 1, 3 * n + 3], [1, n], [n, 3]])
                add('surfplot', {'ntheta': n + 1, 'nphi': 4}, asym=True)
                add('surfplot', {'ntheta': 4, 'nphi': n + 1})
                add('surfplot', {'ntheta': 4, 'nphi': 4}, modes=[[0, 0], [n, 0], [1, n], [n, 3 * n], [n, -3 * n]], asym=bool(n % 2))
                if n < 60:
                    add('surfplot', {'ntheta': 4, 'nphi': 4, 'js': n}, ns_b=n + 2, mboz=2, nboz=1)
                    add('surfplot', {'ntheta': 4, 'nphi': 4}, nfp=n)
                    add('wireplot', {'ntheta': 3, 'nphi': 3, 'refine': 1, 'js': n}, ns_b=n + 2, mboz=2, nboz=1)
                    add('wireplot', {'ntheta': 3, 'nphi': 3, 'refine': 1}, nfp=n, mboz=2, nboz=1)
                    add('wireplot', {'ntheta': n, 'nphi': 2, 'refine': 1}, mboz=2, nboz=1)
                    add('wireplot', {'ntheta': 2, 'nphi': n, 'refine': 1}, mboz=2, nboz=1)
                    add('wireplot', {'ntheta': 2, 'nphi': 2, 'refine': n}, mboz=2, nboz=1)
                if n < 30:
                    for f in ('symplot', 'modeplot', 'surfplot'):
                        add(f, {}, mboz=n, nboz=2, asym=True)
                        add(f, {}, mboz=2, nboz=n)
                        add(f, {}, ns_b=n, mboz=2, nboz=1)
    for _ in range(500 if ctx.thorough else 60):
        fn = ['surfplot', 'symplot', 'modeplot', 'wireplot'][int(r.integers(4))]
        kw = {}
        ns = int(r.integers(1, 6))
        pick = lambda *v: v[int(r.integers(len(v)))]
        if fn == 'surfplot':
            kw = dict(ntheta=int(r.integers(2, 12)), nphi=int(r.integers(2, 12)), js=int(r.integers(-ns, ns)), fill=pick(True, False))
        elif fn == 'wireplot':
            kw = dict(ntheta=int(r.integers(1, 6)), nphi=int(r.integers(1, 6)), refine=int(r.integers(1, 4)), js=pick(None, int(r.integers(-ns, ns))), surf=pick(True, False), orig=pick(True, False))
        else:
            kw = dict(log=pick(True, False), sqrts=pick(True, False), B0=pick(True, False), remove_helicity=pick(None, [1, 0], [0, 1], [int(r.integers(-3, 4)), int(r.integers(-6, 7))]))
            if fn == 'symplot':
                kw.update(max_m=int(r.integers(0, 8)), max_n=int(r.integers(0, 6)), helical_detail=pick(True, False))
            else:
                kw.update(nmodes=int(r.integers(0, 30)))
        add(fn, kw, asym=pick(True, False), nfp=int(r.integers(1, 7)), ns_b=ns, mboz=int(r.integers(1, 7)), nboz=int(r.integers(0, 5)), shuffle=pick(True, False))
    batches(ctx, ['C20'], L, 20)


SUITES = {'C18': [s_cli], 'C20': [s_plots]}

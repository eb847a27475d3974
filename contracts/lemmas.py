"""Theorems over the contracts, checked by Lean on every run."""
import os
import re
import subprocess
import tempfile
LEAN = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lean')
OK_AXIOMS = {'propext', 'Classical.choice', 'Quot.sound'}
GROUPS = {
    'half_grid': ('Quadrature.lean', ['flat', 'reflect', 'half_grid', 'odd_zero']),
    'identity': ('Quadrature.lean', ['cos_cos', 'sin_sin', 'cos_sin', 'identity_cos', 'identity_sin', 'identity_half_cos', 'identity_half_sin']),
}


def check(name):
    f, ths = GROUPS[name]
    res = {'name': 'lean:%s(%s)' % (f, ', '.join(ths)), 'ok': False, 'msg': '', 'back_end': 'lean 4 + Mathlib'}
    try:
        src = open(os.path.join(LEAN, f)).read()
        if re.search(r'\b(sorry|admit|native_decide|axiom)\b', src):
            raise ValueError('the file leaves something unproved')
        d = tempfile.mkdtemp(prefix='lean')
        try:
            p = os.path.join(d, 'Check.lean')
            open(p, 'w').write(src + '\n' + '\n'.join('#print axioms Quadrature.%s' % t for t in ths) + '\n')
            r = subprocess.run(['lean', p], capture_output=True, text=True, timeout=300, cwd=d)
        finally:
            import shutil
            shutil.rmtree(d, ignore_errors=True)
        out = r.stdout + r.stderr
        if r.returncode or 'error' in out:
            raise ValueError(out[:600])
        for t in ths:
            m = re.search(r"'Quadrature\.%s' (?:depends on axioms: \[([^\]]*)\]|does not depend)" % t, out)
            if not m:
                raise ValueError('theorem %s missing' % t)
            ax = {x.strip() for x in (m.group(1) or '').split(',') if x.strip()}
            if not ax <= OK_AXIOMS:
                raise ValueError('%s rests on %s' % (t, sorted(ax - OK_AXIOMS)))
        res['ok'] = True
    except Exception as e:
        res['msg'] = str(e)[:600]
    return res


if __name__ == '__main__':
    for n in GROUPS:
        print(check(n))

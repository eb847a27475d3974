"""Literals of the current sources that the recorded baseline lacks: search hints for the replay, never a verdict."""
import json
import os
import re
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BASE = HERE + '/baseline_literals.json'


def files():
    out = []
    for d, exts in (('/src/_booz_xform', ('.cpp', '.hpp')), ('/src/booz_xform', ('.py',))):
        for f in sorted(os.listdir(REPO + d)):
            if f.endswith(exts):
                out.append(REPO + d + '/' + f)
    return out


def scan():
    res = {}
    for f in files():
        s = open(f, errors='replace').read()
        if f.endswith('.py'):
            s = re.sub(r'#[^\n]*', '', s)
        else:
            s = re.sub(r'/\*.*?\*/', '', s, flags=re.S)
            s = re.sub(r'//[^\n]*', '', s)
        strs = re.findall(r'"((?:[^"\\\n]|\\.)*)"|\'((?:[^\'\\\n]|\\.)*)\'', s)
        s2 = re.sub(r'"(?:[^"\\\n]|\\.)*"', ' ', s)
        nums = re.findall(r'(?<![\w.])(\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?)(?![\w])', s2)
        c = {}
        for x in nums:
            c[x] = c.get(x, 0) + 1
        d = {}
        for a, b in strs:
            d[a or b] = d.get(a or b, 0) + 1
        res[os.path.relpath(f, REPO)] = [c, d]
    return res


def new_literals():
    cur = scan()
    base = json.load(open(BASE)) if os.path.exists(BASE) else {}
    ints, floats, strs = [], [], []
    for f, (c, d) in cur.items():
        b = base.get(f, [{}, {}])
        for x, n in c.items():
            if n > b[0].get(x, 0):
                v = float(x)
                if v == int(v) and abs(v) < 1e6:
                    if int(v) not in ints and (int(v) > 2 or x not in b[0]):
                        ints.append(int(v))
                elif v not in floats:
                    floats.append(v)
        for x, n in d.items():
            if n > b[1].get(x, 0) and x not in strs:
                strs.append(x)
    return ints, floats, strs


if __name__ == '__main__':
    json.dump(scan(), open(BASE, 'w'), indent=0, sort_keys=True)

#!/usr/bin/env python3
"""Decide one property on /repo's current source.

1. Deduction: every unit (function under contract) of the property is executed symbolically from the current source and
   all its obligations go to the back ends.
2. Replay: concrete executions of the same source (sanitised), guided by counter-models of failed obligations.

Exit 1 + VIOLATION: a concrete witness, or a refuted obligation that states the property (counter-model, then
`no-failing-input-found`).  An obligation that is merely not discharged leaves the property undecided: exit 0, and the
evidence says so (bounded by the replay that was run)."""
import json
import os
import re
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")  # the replay has threads of its own
sys.path[:0] = [VERIF + '/engine', VERIF + '/contracts', VERIF + '/replay']
import props as PR       # noqa: E402

RELATIONAL = {'C06', 'C07', 'C08'}


def run_unit(name, limit, out):
    t = time.time()
    env = dict(os.environ, PYTHONHASHSEED='0')
    try:
        r = subprocess.run(['python3-vt', VERIF + '/contracts/units.py', name, out], capture_output=True, text=True, timeout=limit, env=env, cwd=VERIF)
        if r.returncode == 0:
            return json.load(open(out))
        err = 'unit exited %s: %s' % (r.returncode, r.stderr[-400:])
    except subprocess.TimeoutExpired:
        err = 'time limit of %d s' % limit
    except ValueError:
        err = 'no result'
    try:
        d = json.load(open(out))
        return dict(d, error='%s; %s' % (err, d['error'] or ''), error_kind='undecided', wall=round(time.time() - t, 2))
    except (OSError, ValueError):
        pass
    return dict(unit=name, props=[], recs=[], notes=[], functions=[], trusted=[], inlined=[], loops=0, error=err, error_kind='undecided', stats={},
                wall=round(time.time() - t, 2))


def relevant(prop, rec):
    """Does a refuted obligation speak about this property?"""
    if rec['lvl'] != 'prop' or prop not in rec['props']:
        return False
    if prop in RELATIONAL and rec['cat'] in ('post', 'frame'):
        m = (rec.get('info') or {}).get('mentions', [])
        if prop in m:
            return True
        if prop == 'C07' and ('size' in m or rec['cat'] == 'frame'):
            return True
        return False
    return True


def literals():
    """Numbers of the current source that the recorded baseline does not have (search hints only)."""
    import hints
    return hints.new_literals()


def known_findings(prop):
    out = []
    p = VERIF + '/known_findings.txt'
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r'finding: property=(\S+) (.*?) \|\| (.*)$', ln.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    P = PR.PROPS[prop]
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    os.makedirs(VERIF + '/build', exist_ok=True)
    import tempfile
    import shutil
    tmp = tempfile.mkdtemp(prefix='units', dir=VERIF + '/build')
    try:
        code = decide(prop, P, tier, seed, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)                                   # replay workers that are still running end here


def decide(prop, P, tier, seed, t0, tmp):
    names = PR.units_of(prop)
    limit = 330 if tier == 'quick' else 800
    with ThreadPoolExecutor(8) as ex:
        futs = [ex.submit(run_unit, n, limit, '%s/u%d.json' % (tmp, i)) for i, n in enumerate(names)]
        # the sanitised build runs along
        pre = ex.submit(prebuild, prop)
        lem = [ex.submit(run_lemma, prop, l) for l in P.get('lemmas', [])]
        units = [f.result() for f in futs]
        lemmas = [f.result() for f in lem]
        pre.result()
    derived = P.get('derived', [])
    recs, refuted, open_ = [], [], []
    for u in units:
        for r in u['recs']:
            if prop in r['props'] or any(d in r['props'] for d in derived):
                recs.append(r)
                if r['status'] == 'proved':
                    continue
                if r['status'] == 'refuted' and relevant(prop, r):
                    refuted.append(r)
                else:
                    open_.append(r)
    errors = [(u['unit'], u['error']) for u in units if u['error']]
    # obligations that rest on a contract which another unit failed to establish prove nothing
    broken = {r['unit'].split('[')[0] for r in open_ if r['lvl'] == 'int'} | {n.split('[')[0] for n, _ in errors}
    for u in units:
        for r in u['recs']:
            if r['status'] != 'proved' and r['lvl'] == 'int':
                broken.add(u['unit'].split('[')[0])
    if refuted:
        keep = []
        for r in refuted:
            base = r['unit'].split('[')[0]
            if any(b in broken for b in PR.DEPENDS.get(base, ())):
                open_.append(r)
            else:
                keep.append(r)
        refuted = keep
    bad_lemmas = [l for l in lemmas if not l['ok']]
    undecided = bool(open_ or errors or bad_lemmas or not recs)
    # ---------------- replay
    hints = {'models': [], 'ints': [], 'floats': []}
    for r in refuted + open_:
        i = r.get('info') or {}
        for m in (i.get('model'), (i.get('numeric') or {}).get('vars')):
            if m and m not in hints['models'] and len(hints['models']) < 12:
                hints['models'].append(m)
    try:
        li, lf, ls = literals()
        hints['ints'], hints['floats'], hints['strs'] = li[:20], lf[:12], ls[:20]
    except Exception as e:
        hints['error'] = repr(e)
    suspicious = bool(refuted or undecided or hints['ints'] or hints['floats'])
    budget = (60 if not suspicious else 260) if tier == 'quick' else 900
    budget = min(budget, 780 - (time.time() - t0)) if tier == 'quick' else budget
    import suites
    replay_error = None
    ctx = None
    try:
        ctx = suites.Ctx(prop, seed, tier == 'thorough', max(budget, 20), hints)
        box = []

        def work():
            try:
                suites.run_suites(prop, ctx=ctx)
            except BaseException as e:
                box.append(e)
        import threading
        th = threading.Thread(target=work, daemon=True)
        th.start()
        th.join(max(30, 840 - (time.time() - t0)) if tier == 'quick' else budget + 300)
        if th.is_alive():
            ctx.errors.append('the replay did not end in its time')
        if box:
            raise box[0]
        fails = [f for f in ctx.fails if prop in f.props]
    except suites.H.BuildError as e:
        fails, replay_error = [], 'build: %s' % str(e)[-600:]
    except Exception as e:
        import traceback
        fails, replay_error = [], 'replay: %r %s' % (e, traceback.format_exc()[-600:])
    findings = known_findings(prop)
    listed, fresh = [], []
    for f in fails:
        (listed if any(re.search(pat, f.msg) for pat, _ in findings) else fresh).append(f)
    refl = []
    for r in refuted:
        key = '%s: %s' % (r['unit'], r['desc'])
        (listed if any(re.search(pat, key) for pat, _ in findings) else refl).append(r)
    for pat, what in findings:
        print('KNOWN-FINDING: property=%s %s' % (prop, what))
    code = 0
    nviol = 0
    if fresh:
        f = fresh[0]
        path = VERIF + '/evidence/replay_%s.json' % prop
        json.dump({'property': prop, 'message': f.msg, 'script': f.script.lines if f.script is not None else None, 'info': f.info,
                   'reproduce': 'python3-vt /verif/bin/replay.py %s' % path, 'others': [x.msg for x in fresh[1:6]],
                   'failed_obligations': [short_rec(r) for r in (refl + open_)[:10]]}, open(path, 'w'), indent=1, default=str)
        print('replayed on the real code: %s' % f.msg[:600])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        code, nviol = 1, len(fresh)
    elif refl:
        path = VERIF + '/evidence/replay_%s.json' % prop
        json.dump({'property': prop, 'message': 'obligation refuted, no failing input found', 'failed_obligations': [short_rec(r) for r in refl[:20]],
                   'replay_runs': ctx.n if ctx else 0}, open(path, 'w'), indent=1, default=str)
        r = refl[0]
        print('refuted obligation: %s %s: %s %s' % (r['unit'], r['where'], r['desc'], str(r.get('info'))[:500]))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
        code, nviol = 1, len(refl)
    for n, e in errors:
        print('undecided: %s: %s' % (n, e.split('\n')[0][:300]))
    for r in open_[:8]:
        print('not discharged: %s %s: %s (%s)' % (r['unit'], r['where'], r['desc'], r['status']))
    for l in bad_lemmas:
        print('lemma not checked: %s %s' % (l['name'], l['msg'][:300]))
    if replay_error:
        print('replay not available: %s' % replay_error[:300])
    if ctx and ctx.errors:
        print('replay scenarios that did not run: %d (%s)' % (len(ctx.errors), ctx.errors[0][:200]))
    write_evidence(prop, P, tier, seed, t0, names, units, recs, refuted, open_, errors, lemmas, ctx, hints, replay_error, nviol)
    st = 'held' if not code and not undecided and not replay_error else ('violated' if code else 'undecided, no violation found within the bounded replay')
    print('property %s: %d obligations, %d discharged, %d lemmas, %d replay runs: %s (%.0f s)'
          % (prop, len(recs), sum(r['status'] == 'proved' for r in recs), len(lemmas), ctx.n if ctx else 0, st, time.time() - t0))
    return code


def short_rec(r):
    return {k: r.get(k) for k in ('unit', 'fn', 'where', 'cat', 'desc', 'status', 'backend', 'info')}


def prebuild(prop):
    try:
        import harness
        if PR.PROPS[prop].get('build', True):
            harness.build('asan')
    except Exception:
        pass


def run_lemma(prop, name):
    import lemmas
    return lemmas.check(name)


def write_evidence(prop, P, tier, seed, t0, names, units, recs, refuted, open_, errors, lemmas, ctx, hints, replay_error, nviol):
    by = {}
    cats = {}
    for r in recs:
        if r['status'] == 'proved':
            by[r['backend']] = by.get(r['backend'], 0) + 1
        cats[r['cat']] = cats.get(r['cat'], 0) + 1
    n = len(recs) + len(lemmas)
    d = sum(r['status'] == 'proved' for r in recs) + sum(l['ok'] for l in lemmas)
    trusted = sorted(set(P.get('trusted', [])) | set(PR.TRUSTED) | {'library model: ' + t for u in units for t in u['trusted']})
    cov = {
        'obligations': n, 'discharged': d,
        'checker_cmd': 'python3-vt /verif/bin/check.py %s %s   (single unit: python3-vt /verif/contracts/units.py "<unit>")' % (prop, tier),
        'trusted_base': trusted,
        'functions_under_contract': sorted({f for u in units for f in u['functions']}),
        'functions_inlined': sorted({f for u in units for f in u['inlined']}),
        'units': {u['unit']: {'obligations': len([r for r in u['recs'] if prop in r['props'] or any(x in r['props'] for x in P.get('derived', []))]),
                              'wall_s': u['wall'], 'loops_closed': u['loops'], 'z3_queries': u['stats'].get('z3', 0), 'z3_s': u['stats'].get('z3_time', 0),
                              'error': u['error']} for u in units},
        'discharged_by_back_end': by, 'obligations_by_kind': cats,
        'lemmas': lemmas,
        'solver_s': round(sum(u['stats'].get('z3_time', 0) for u in units), 2),
        'samples': [short_rec(r) for r in recs[:: max(1, len(recs) // 4)][:4]],
        'undischarged': [short_rec(r) for r in (refuted + open_)[:20]], 'undecided_units': errors,
        'replay': {'label': 'bounded: concrete executions, never counted as proved', 'runs': ctx.n if ctx else 0,
                   'distinct_inputs': len(ctx.sigs) if ctx else 0, 'samples': ctx.samples if ctx else [], 'errors': (ctx.errors[:5] if ctx else []),
                   'unavailable': replay_error},
    }
    if not recs:
        cov['explanation'] = 'no obligation could be generated from the current source; only the bounded replay speaks'
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': P.get('level', 'proof'), 'coverage': cov,
          'assumptions': P.get('assumptions', []) + PR.ASSUMPTIONS, 'wall_s': round(time.time() - t0, 2), 'violations': nviol}
    if ev['level'] != 'proof':
        cov['explanation'] = P.get('explanation', '')
        cov['evaluations'] = ctx.n if ctx else 0
        cov['distinct_nontrivial'] = len(ctx.sigs) if ctx else 0
        cov['rule'] = P.get('rule', '')
    json.dump(ev, open(VERIF + '/evidence/%s.json' % prop, 'w'), indent=1, default=str)


if __name__ == '__main__':
    main()

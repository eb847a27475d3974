#!/usr/bin/env python3
"""Runs a recorded replay script again on the current source: replay.py FILE"""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE + '/../replay', HERE + '/../engine', HERE + '/../contracts']
import harness as H   # noqa: E402
d = json.load(open(sys.argv[1]))
print(d['message'])
info = d.get('info') or {}
if info.get('python'):
    import py_suites
    print(json.dumps(info['python'], indent=1)[:4000])
    for x in py_suites.run_cases(info['python']):
        print(x)
if info.get('bind'):
    import bind_suites
    print(json.dumps(info['bind']))
    for x in bind_suites.run_cases(info['bind'], info['bind'][0]['suite'] == 'vmec'):
        print(x)
if d.get('script'):
    sc = H.Script()
    sc.lines = d['script']
    import base64
    import re
    import shutil
    import tempfile
    files = (d.get('info') or {}).get('files') or {}
    tmp = tempfile.mkdtemp(prefix='booz')
    for n, b in files.items():
        open(tmp + '/' + n, 'wb').write(base64.b64decode(b))
    # paths of the recorded scratch directory
    m = re.search(r'(/\S*/booz[^/ ]+)/', '\n'.join(sc.lines))
    if m:
        new = tmp + '/' + 'x' * max(0, len(m.group(1)) - len(tmp) - 1) if len(tmp) < len(m.group(1)) else tmp
        os.makedirs(new, exist_ok=True)
        for n in files:
            if new != tmp:
                shutil.copy(tmp + '/' + n, new + '/' + n)
        sc.lines = [x if m.group(1) not in x else x.replace(m.group(1), new) for x in sc.lines]
    exe = H.build('asan')
    if (d.get('info') or {}).get('wraps'):
        import file_suites
        exe = H.build('asan', extra_src=[H.HERE + '/nc_wrap.cpp'], wraps=tuple(file_suites.WRAPS), name='ncw')
    res, info = H.run(exe, sc)
    shutil.rmtree(tmp, ignore_errors=True)
    for r in res:
        s = json.dumps(r)
        print(s[:2000])
    print(info['rc'], info['stderr'][-3000:])

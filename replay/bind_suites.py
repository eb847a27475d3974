"""Replays of the Python class (C19): the bindings of the current source over the current class, with recording
stand-ins for the methods and a second way into the object's members."""
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
import harness as H

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/boozenv/bin/python'

STANDINS = r'''
#include <sstream>
#include <string>
#include "booz_xform.hpp"
std::string bz_record;
namespace {
void put(std::ostream& o, const booz_xform::Vector& v) { o << "[\"v\"," << v.size(); for (int i = 0; i < v.size(); i++) o << "," << v[i]; o << "]"; }
void put(std::ostream& o, const booz_xform::Matrix& v) { o << "[\"m\"," << v.rows() << "," << v.cols(); for (int i = 0; i < v.rows(); i++) for (int j = 0; j < v.cols(); j++) o << "," << v(i, j); o << "]"; }
void put(std::ostream& o, const std::string& s) { o << "\"" << s << "\""; }
void put(std::ostream& o, int i) { o << i; }
void put(std::ostream& o, bool b) { o << (b ? "true" : "false"); }
struct R {
  std::ostringstream s;
  R(const char* f, const void* me) { s << "[\"" << f << "\",\"" << me << "\""; s.precision(17); }
  template <class T> R& operator()(const T& t) { s << ","; put(s, t); return *this; }
  ~R() { bz_record = s.str() + "]"; }
};
}
namespace booz_xform {
void Booz_xform::read_wout(std::string filename, bool flux) { R("read_wout", this)(filename)(flux); }
void Booz_xform::run() { R("run", this); }
void Booz_xform::write_boozmn(std::string filename) { R("write_boozmn", this)(filename); }
void Booz_xform::read_boozmn(std::string filename) { R("read_boozmn", this)(filename); }
void Booz_xform::init_from_vmec(int ns, Vector& a1, Matrix& a2, Matrix& a3, Matrix& a4, Matrix& a5, Matrix& a6, Matrix& a7, Matrix& a8, Matrix& a9,
  Matrix& a10, Matrix& a11, Matrix& a12, Matrix& a13, Vector& a14, Vector& a15, Vector& a16, Vector& a17)
{ R("init_from_vmec", this)(ns)(a1)(a2)(a3)(a4)(a5)(a6)(a7)(a8)(a9)(a10)(a11)(a12)(a13)(a14)(a15)(a16)(a17); }
}
'''


def peek_source():
    out = ['#include <pybind11/pybind11.h>', '#include <pybind11/eigen.h>', '#include <sstream>', '#include "vector_matrix.hpp"',
           '#define private public', '#include "booz_xform.hpp"', '#undef private', 'extern std::string bz_record;',
           'using namespace booz_xform;', 'PYBIND11_MODULE(_peek, m) {', ' m.def("record", []() { std::string r = bz_record; bz_record.clear(); return r; });',
           ' m.def("address", [](Booz_xform& o) { std::ostringstream s; s << (const void*)&o; return s.str(); });']
    for f in fields():
        out.append(' m.def("get_%s", [](Booz_xform& o) { return o.%s; });' % (f, f))
        out.append(' m.def("set_%s", [](Booz_xform& o, decltype(Booz_xform::%s) v) { o.%s = v; });' % (f, f, f))
    return '\n'.join(out + ['}'])


def fields():
    return H.field_types()


def build():
    """Path of the shared library, from the current sources."""
    src = [H.SRC + '/' + f for f in sorted(os.listdir(H.SRC)) if f.endswith(('.cpp', '.hpp', '.h'))]
    h = hashlib.sha256()
    for f in src + [HERE + '/bind_suites.py', HERE + '/harness.py']:
        h.update(f.encode() + open(f, 'rb').read())
    d = '%s/bind-%s' % (H.BUILD, h.hexdigest()[:16])
    so = d + '/_booz_xform.so'
    if os.path.exists(so):
        return so
    tmp = tempfile.mkdtemp(prefix='bind', dir=H._mk(H.BUILD))
    try:
        open(tmp + '/standins.cpp', 'w').write(STANDINS)
        open(tmp + '/peek.cpp', 'w').write(peek_source())
        inc = subprocess.run([PY, '-m', 'pybind11', '--includes'], capture_output=True, text=True).stdout.split()
        flags = ['-std=c++17', '-O0', '-w', '-fPIC', '-fopenmp', '-DOPENMP', '-fvisibility=default', '-I' + H.SRC, '-I' + H.REPO + '/externalPackages/eigen'] + inc + \
            H.nc_flags('cflags')
        files = [tmp + '/standins.cpp', tmp + '/peek.cpp'] + [f for f in src if f.endswith('.cpp') and os.path.basename(f) not in ('driver.cpp', 'xbooz_xform.cpp')]

        def one(f):
            return subprocess.run(['g++', '-c', f, '-o', tmp + '/' + os.path.basename(f) + '.o'] + flags, capture_output=True, text=True)
        with ThreadPoolExecutor(8) as ex:
            for f, r in zip(files, ex.map(one, files)):
                if r.returncode:
                    raise H.BuildError('%s: %s' % (f, r.stderr[-800:]))
        for out, fs in (('/_booz_xform.so', files), ('/real.so', files[1:])):
            if 'real' in out:
                open(tmp + '/rec.cpp', 'w').write('#include <string>\nstd::string bz_record;\n')
                one(tmp + '/rec.cpp')
                fs = fs + ['rec.cpp']
            r = subprocess.run(['g++', '-shared', '-o', tmp + out, '-Wl,-z,muldefs'] + [tmp + '/' + os.path.basename(f) + '.o' for f in fs] + ['-fopenmp'] +
                               H.nc_flags('libs'), capture_output=True, text=True)
            if r.returncode:
                raise H.BuildError(r.stderr[-800:])
        for f in os.listdir(tmp):
            if f.endswith('.o'):
                os.unlink(tmp + '/' + f)
        try:
            os.rename(tmp, d)
        except OSError:
            pass
    finally:
        if os.path.isdir(tmp):
            shutil.rmtree(tmp, ignore_errors=True)
    return so


def run_cases(cases, real=False):
    so = build()
    if real:
        so = os.path.dirname(so) + '/real.so'
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1')
    r = subprocess.run([PY, HERE + '/bind_driver.py', so, json.dumps(fields())], input=json.dumps(cases).encode(), capture_output=True, timeout=200, env=env)
    out = []
    for ln in r.stdout.decode(errors='replace').split('\n'):
        try:
            out.append(json.loads(ln))
        except ValueError:
            pass
    return out, r.stderr.decode(errors='replace')[-400:]


def s_bindings(ctx):
    """C19"""
    cases = [{'suite': 'bind', 'seed': ctx.seed * 1000 + i} for i in range(6 if not ctx.thorough else 40)]
    if ctx.hit():
        return
    res, err = run_cases(cases)
    more = [dict(c, suite='vmec') for c in cases]
    res2, err2 = run_cases(more, True)
    for r in res2:
        r['i'] = r.get('i', 0) + len(cases)
    cases, res, err = cases + more, res + res2, err + err2
    for r in res:
        if 'load' in r:
            ctx.fail(['C19'], 'the extension cannot be imported: ' + r['load'], None, {'bind': cases[:1]})
            return
        ctx.n += r.get('n', 0)
        if 'error' in r:
            ctx.errors.append(r['error'])
        for f in r.get('fail', []):
            ctx.fail(['C19'], 'Python class: ' + f, None, {'bind': [cases[r['i']]]})
    if len(res) < len(cases):
        ctx.errors.append('bindings driver ended after %d of %d cases: %s' % (len(res), len(cases), err))


SUITES = {'C19': [s_bindings]}

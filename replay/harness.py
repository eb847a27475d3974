"""Compiles the current /repo sources into a scriptable driver and runs scripts against it."""
import hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = REPO + '/src/_booz_xform'
BUILD = VERIF + '/build'
CORE = ['booz_xform', 'init_trig', 'init', 'surface_solve', 'check_accuracy', 'run', 'init_from_vmec', 'read_wout',
        'read_boozmn', 'write_boozmn', 'netcdf_reader', 'netcdf_writer', 'driver']


class BuildError(Exception):
    pass


def sources():
    """All library translation units (everything but the bindings and the main program)."""
    out = []
    for f in sorted(os.listdir(SRC)):
        if f.endswith('.cpp') and f not in ('bindings.cpp', 'xbooz_xform.cpp'):
            out.append(f)
    return out


FLAGS = {
    'asan': ['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS', '-D_GLIBCXX_SANITIZE_VECTOR', '-DNAN_INIT', '-fopenmp', '-DOPENMP'],
    'plain': ['-O2', '-fopenmp', '-DOPENMP'],
    'tsan': ['-O1', '-g1', '-fsanitize=thread', '-fopenmp', '-DOPENMP'],
}
LINK = {
    'asan': ['-fsanitize=address,undefined', '-fopenmp'],
    'plain': ['-fopenmp'],
    'tsan': ['-fsanitize=thread'],
}


def nc_flags(kind):
    try:
        return subprocess.run(['pkg-config', '--' + kind, 'netcdf'], capture_output=True, text=True, check=True).stdout.split()
    except Exception:
        return ['-lnetcdf'] if kind == 'libs' else []


def trig_call():
    """The call of init_trig, in the order of its definition."""
    args = dict(theta_grid_x='th', zeta_grid_x='ze', cosmx='cm', sinmx='sm', cosnx='cn', sinnx='sn', mmax='mmax', nmax='nmax', nfpx='nfp')
    name, names = 'init_trig', list(args)
    for f in sorted(os.listdir(SRC)):
        if f.endswith('.cpp'):
            m = re.search(r'\bvoid\s+(?:booz_xform::)?(\w+)\s*\(((?:\s*(?:Vector|Matrix)\s*&\s*\w+\s*,){6}(?:\s*int\s+\w+\s*,?){3})\)\s*\{', open(SRC + '/' + f).read())
            if m:
                name = m.group(1)
                now = re.findall(r'(\w+)\s*(?:,|$)', m.group(2).strip())
                if sorted(now) == sorted(names):
                    names = now
    return '%s(%s)' % (name, ', '.join(args[n] for n in names))


def field_types():
    """Members of Booz_xform with their kinds, from the header text (clang's AST when the engine is loaded)."""
    src = open(SRC + '/booz_xform.hpp').read()
    src = re.sub(r'/\*.*?\*/', '', src, flags=re.S)
    src = re.sub(r'//[^\n]*', '', src)
    m = re.search(r'class\s+Booz_xform\s*\{(.*)\n\s*\};', src, re.S)
    body = m.group(1)
    fields = {}
    # members of nested structures and the bodies of inline functions are not members
    while re.search(r'\{[^{}]*\}', body):
        body = re.sub(r'\{[^{}]*\}', ' ', body)
    for st in re.split(r'[;{}:]', body):
        st = ' '.join(st.split())
        mm = re.match(r'^(int|bool|double|boozfloat|Vector|Matrix|IntVector|std string|std::string) ([A-Za-z_0-9, =.]+)$', st)
        if not mm or '(' in st:
            continue
        for nm in mm.group(2).split(','):
            nm = nm.split('=')[0].strip()
            if re.match(r'^[A-Za-z_]\w*$', nm):
                fields[nm] = mm.group(1)
    return fields


def build(variant='asan', extra_src=(), extra_flags=(), wraps=(), name='drv'):
    flags = FLAGS[variant] + list(extra_flags)
    h = hashlib.sha256()
    files = [SRC + '/' + f for f in sorted(os.listdir(SRC)) if f.endswith(('.cpp', '.hpp', '.h'))]
    files += [HERE + '/' + f for f in ('pre.hpp', 'drv.cpp', 'drv_body.hpp', 'minigomp.cpp', 'harness.py')] + list(extra_src)
    for f in files:
        h.update(f.encode())
        h.update(open(f, 'rb').read())
    h.update(repr((flags, wraps, name, variant)).encode())
    d = '%s/%s-%s-%s' % (BUILD, name, variant, h.hexdigest()[:16])
    exe = d + '/drv'
    if os.path.exists(exe):
        return exe
    tmp = tempfile.mkdtemp(prefix='drv', dir=_mk(BUILD))
    with open(tmp + '/fields.inc', 'w') as o:
        fs = field_types()
        o.write('static void dump_obj(Booz_xform& o) { out << "{";\n')
        o.write('out << "\\"__end\\":0";\n')
        for f in fs:
            o.write('out << ",\\"%s\\":"; pv(o.%s);\n' % (f, f))
        o.write('out << "}"; }\n')
        o.write('static void set_field(Booz_xform& o, const std::string& n, std::istream& f) {\n')
        for f in fs:
            o.write('if (n == "%s") { gv(f, o.%s); return; }\n' % (f, f))
        o.write('throw std::runtime_error("no field " + n); }\n')
        o.write('#define INIT_TRIG %s\n' % trig_call())
    inc = ['-I' + SRC, '-I' + tmp, '-I' + HERE, '-I' + REPO + '/externalPackages', '-I' + REPO + '/externalPackages/eigen',
           '-I' + REPO + '/externalPackages/Eigen'] + nc_flags('cflags')
    for e in os.listdir(REPO + '/externalPackages'):
        inc.append('-I' + REPO + '/externalPackages/' + e)
    jobs = [(SRC + '/' + f, f[:-4] + '.o') for f in sources()]
    jobs += [(HERE + '/drv.cpp', 'drv_main.o')]
    jobs += [(s, 'x_' + os.path.basename(s)[:-4] + '.o') for s in extra_src]
    prog = name == 'drv' and variant == 'asan' and os.path.exists(SRC + '/xbooz_xform.cpp')
    if prog:
        jobs.append((SRC + '/xbooz_xform.cpp', 'prog_main.o'))
    if variant == 'tsan':
        jobs.append((HERE + '/minigomp.cpp', 'minigomp.o'))

    def one(j):
        src, obj = j
        pre = [] if src.endswith('minigomp.cpp') else ['-include', HERE + '/pre.hpp']
        fl = [x for x in flags if not (src.endswith('minigomp.cpp') and x in ('-fopenmp', '-DOPENMP'))]
        cmd = ['g++', '-std=c++11' if False else '-std=c++17', '-w', '-ftemplate-depth=1024'] + fl + inc + pre + ['-c', src, '-o', tmp + '/' + obj]
        r = subprocess.run(cmd, capture_output=True, text=True, cwd=tmp)
        if r.returncode:
            raise BuildError('%s: %s' % (src, r.stderr[-1500:]))
        return obj
    try:
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(one, jobs))
        for target, leave in (('drv', 'prog_main.o'), ('prog', 'drv_main.o')):
            if target == 'prog' and not prog:
                continue
            cmd = ['g++'] + LINK[variant] + [tmp + '/' + o for o in objs if o != leave] + ['-o', tmp + '/' + target] + nc_flags('libs') + ['-lpthread'] \
                + ['-Wl,--wrap=' + w for w in wraps]
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode:
                raise BuildError(r.stderr[-1500:])
        for o in objs:
            os.unlink(tmp + '/' + o)
        try:
            os.rename(tmp, d)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    except BaseException:
        shutil.rmtree(tmp, ignore_errors=True)
        raise
    return exe


def _mk(d):
    os.makedirs(d, exist_ok=True)
    return d


def fnum(x):
    return float.fromhex(x)


def decode(v):
    import numpy as np
    if isinstance(v, str):
        try:
            return float.fromhex(v) if v[:2] in ('0x', '-0', 'na', '-n', 'in') or v in ('inf', '-inf', 'nan', '-nan') else v
        except ValueError:
            return v
    if isinstance(v, list):
        dims, data = v[:-1], v[-1]
        a = np.array([decode(x) for x in data])
        if len(data) == 0:
            a = np.zeros(0)
        return a.reshape(dims)
    return v


class Script:
    def __init__(self):
        self.lines = []

    def num(self, x):
        return float(x).hex() if not float(x) != float(x) else 'nan'

    def op(self, *a):
        self.lines.append(' '.join(str(x) for x in a))
        return self

    def set(self, id, name, v):
        import numpy as np
        if isinstance(v, (bool, np.bool_)):
            s = str(int(v))
        elif isinstance(v, (int, np.integer)):
            s = str(int(v))
        elif isinstance(v, (float, np.floating)):
            s = self.num(v)
        elif isinstance(v, str):
            s = '%d %s' % (len(v.encode()), v)
        else:
            s = self.arr(v)
        self.lines.append('set %d %s %s' % (id, name, s))
        return self

    def arr(self, v):
        import numpy as np
        v = np.asarray(v)
        dims = ' '.join(map(str, v.shape))
        if v.dtype.kind in 'iub':
            return dims + ' ' + ' '.join(str(int(x)) for x in v.ravel())
        return dims + ' ' + ' '.join(self.num(x) for x in v.ravel())

    def path(self, *a):
        p = a[-1]
        self.lines.append(' '.join(str(x) for x in a[:-1]) + ' %d %s' % (len(p.encode()), p))
        return self


CPU_LIMIT = 30        # seconds of processor time; the scripts need about one


def limited(cmd, timeout, env, cwd, cpu=CPU_LIMIT):
    """Run with limits on processor time and output: (rc | 'timeout' | 'hang', stdout, stderr).  'hang' does not depend on the load."""
    def pre():
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        resource.setrlimit(resource.RLIMIT_FSIZE, (200 << 20, 200 << 20))
    with tempfile.TemporaryFile() as so, tempfile.TemporaryFile() as se:
        p = subprocess.Popen(cmd, stdout=so, stderr=se, env=env, cwd=cwd, preexec_fn=pre)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            return 'timeout', '', ''
        if rc in (-signal.SIGXCPU, -signal.SIGXFSZ):
            rc = 'hang'
        out = []
        for f in (so, se):
            f.seek(0)
            out.append(f.read(4 << 20).decode(errors='replace'))
        return rc, out[0], out[1]


def run(exe, script, threads=None, timeout=120, cwd=None, env=None):
    """Returns (list of result dicts, info)."""
    d = tempfile.mkdtemp(prefix='rep')
    try:
        with open(d + '/in', 'w') as f:
            f.write('\n'.join(script.lines) + '\n')
        e = dict(os.environ)
        e.update(env or {})
        e['OMP_NUM_THREADS'] = str(threads or 2)
        e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:allocator_may_return_null=0:max_malloc_fill_size=1073741824:malloc_fill_byte=165:hard_rss_limit_mb=8000'
        e['UBSAN_OPTIONS'] = 'print_stacktrace=0'
        e['TSAN_OPTIONS'] = 'halt_on_error=0 exitcode=66'
        rc, so, err = limited([exe, d + '/in', d + '/out'], timeout, e, cwd or d)
        res = []
        partial = None
        try:
            for ln in open(d + '/out', errors='replace'):
                try:
                    res.append(json.loads(ln))
                except ValueError:
                    partial = ln[:200]
        except OSError:
            pass
        done = bool(res) and res[-1].get('op') == 'end'
        return res, {'rc': rc, 'stderr': err, 'done': done, 'partial': partial, 'stdout': so}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def obj(r):
    """Decode a dump result."""
    o = {}
    strs = {k for k, t in field_types().items() if 'string' in t}
    for k, v in r['obj'].items():
        o[k] = v if k in strs else decode(v)
    return o

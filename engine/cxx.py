"""Extraction: clang AST of /repo's current C++ sources -> function and class tables.

Nothing of the code is copied by hand; every run parses the files in the working tree.
"""
import json, os, re, subprocess, hashlib

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
SRC = 'src/_booz_xform'
_dec = json.JSONDecoder()


class ExtractError(Exception):
    pass


def clang_args(extra=()):
    return ['clang++', '-std=c++11', '-fopenmp', '-DOPENMP', '-fsyntax-only', '-w',
            '-I' + os.path.join(HERE, '..', 'stubs'),
            '-I' + os.path.join(REPO, SRC),
            '-I' + os.path.join(REPO, 'externalPackages/eigen')] + list(extra)


def dump(path, flt='booz_xform', extra=()):
    cmd = clang_args(extra) + ['-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + flt, path]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise ExtractError('clang rejects %s:\n%s' % (path, r.stderr[-3000:]))
    out, pos, s = [], 0, r.stdout
    n = len(s)
    while pos < n:
        while pos < n and s[pos] in ' \n\r\t':
            pos += 1
        if pos >= n:
            break
        if s[pos] != '{':
            e = s.find('\n', pos)
            pos = n if e < 0 else e + 1
            continue
        o, pos = _dec.raw_decode(s, pos)
        out.append(o)
    return out


def plain(t):
    """A type without const, references and namespaces."""
    t = re.sub(r'\bconst\b|&|\bbooz_xform::', ' ', t).replace('boozfloat', 'double')
    return re.sub(r'\s+', ' ', re.sub(r'\s*([(),])\s*', r'\1', t)).strip()


NAMES = json.load(open(os.path.join(HERE, 'names.json')))
EXTRA = set()         # members the contracts do not know
UNMATCHED = set()     # names of the contracts the current code does not have


def renamed(tops):
    """Private members and helpers the current code has under another name: {new name: name in the contracts}.

    The contracts speak about the private state of Booz_xform by name.  A member that is gone is looked for among the
    members the contracts do not know, by type and order of declaration; when that does not fit, the name is recorded as
    unmatched and nothing is refuted from contracts about it."""
    out = {}
    fields, methods, functions = {}, {}, {}

    def walk(n):
        for c in n.get('inner') or []:
            k = c.get('kind')
            if k == 'CXXRecordDecl' and c.get('name') == 'Booz_xform' and c.get('completeDefinition'):
                for x in c['inner']:
                    if x['kind'] == 'FieldDecl' and 'name' in x:
                        fields[x['name']] = plain(x['type']['qualType'])
                    elif x['kind'] == 'CXXMethodDecl' and not x.get('isImplicit'):
                        methods[x['name']] = plain(x['type']['qualType'])
            elif k == 'NamespaceDecl':
                walk(c)
            elif k == 'FunctionDecl':
                functions[c['name']] = plain(c['type']['qualType'])
    walk({'inner': tops})

    def match(now, base, what):
        gone = [n for n in base if n not in now and n not in FREE]
        new = [n for n in now if n not in base]
        for t in {base[n] for n in gone}:
            a = [n for n in gone if base[n] == t]
            b = [n for n in new if now[n] == t]
            if len(a) == len(b):
                out.update(zip(b, a))
            else:
                UNMATCHED.update(a)
    if fields:
        match(fields, NAMES['fields'], 'field')
        match(methods, NAMES['methods'], 'method')
        EXTRA.update(f for f in fields if f not in NAMES['fields'] and f not in out)
    if any(plain(t) == NAMES['functions']['init_trig'] for n, t in functions.items()) and 'init_trig' not in functions:
        match({n: t for n, t in functions.items() if t == NAMES['functions']['init_trig']}, {'init_trig': NAMES['functions']['init_trig']}, 'function')
    return out


FREE = {'completed', 'defaults'}      # no contract mentions them

PARAMS = {'init_trig': 'theta_grid_x zeta_grid_x cosmx sinmx cosnx sinnx mmax nmax nfpx'.split(),
          'check_accuracy': 'js js_b bmod theta_Boozer_grid zeta_Boozer_grid cosm_b cosn_b sinm_b sinn_b'.split()}


def order(func):
    """Where the definition has the contract's parameters: positions, by name when the names are those of the contract in
    another order, else as they come."""
    base = PARAMS[func.name]
    now = [p.get('name') for p in func.params]
    return [now.index(b) for b in base] if sorted(map(str, now)) == sorted(base) else list(range(len(now)))


def to_contract(func, args):
    return [args[i] for i in order(func)]


def to_code(func, args):
    out = list(args)
    for a, i in zip(args, order(func)):
        out[i] = a
    return out


def rename(n, names):
    if isinstance(n, dict):
        if n.get('name') in names and n.get('kind') in ('FieldDecl', 'MemberExpr', 'CXXMethodDecl', 'FunctionDecl'):
            n['name'] = names[n['name']]
        for v in n.values():
            if isinstance(v, (dict, list)):
                rename(v, names)
    elif isinstance(n, list):
        for v in n:
            if isinstance(v, (dict, list)):
                rename(v, names)


class Func:
    def __init__(self, node, qual, cls, path):
        self.node, self.qual, self.cls, self.path = node, qual, cls, path
        self.name = node.get('name')
        self.params = [c for c in node.get('inner', []) if c['kind'] == 'ParmVarDecl']
        self.body = None
        self.inits = [c for c in node.get('inner', []) if c['kind'] == 'CXXCtorInitializer']
        for c in node.get('inner', []):
            if c['kind'] in ('CompoundStmt', 'CXXTryStmt'):
                self.body = c
        self.type = node['type']['qualType']

    def __repr__(self):
        return '<%s %s>' % (self.qual, self.type)


def _fix_lines(node, st):
    """clang prints file/line only when they change: make them explicit."""
    for k in ('loc', 'range'):
        v = node.get(k)
        if not v:
            continue
        for p in ([v] if k == 'loc' else [v.get('begin', {}), v.get('end', {})]):
            for q in ([p] if 'spellingLoc' not in p else [p.get('spellingLoc', {}), p.get('expansionLoc', {})]):
                if 'file' in q:
                    st['file'] = q['file']
                if 'line' in q:
                    st['line'] = q['line']
                if q:
                    q['file'] = st.get('file')
                    q['line'] = st.get('line')
    for c in node.get('inner', []) or []:
        if isinstance(c, dict):
            _fix_lines(c, st)


def where(node):
    r = node.get('range', {}).get('begin', {})
    if 'expansionLoc' in r:
        r = r['expansionLoc']
    f = r.get('file') or '?'
    return '%s:%s' % (os.path.basename(f), r.get('line', '?'))


class TU:
    """All functions and classes of a set of source files."""

    def __init__(self, files):
        self.funcs = {}       # decl id is per-TU; key: (qual, type)
        self.classes = {}     # name -> {field: type}
        self.globals = {}     # name -> VarDecl node
        self.byid = {}        # (path, id) -> decl node
        self.files = files
        self.missing = {}
        for f in files:
            self.load(f)

    def load(self, f, flt='booz_xform'):
        path = f if os.path.isabs(f) else os.path.join(REPO, SRC, f)
        tops = dump(path, flt)
        if flt == 'booz_xform':
            names = renamed(tops)
            if names:
                rename(tops, names)
        for t in tops:
            _fix_lines(t, {'file': path})
            self._walk(t, '', None, path)

    def _walk(self, n, ns, cls, path):
        k = n.get('kind')
        if 'id' in n:
            self.byid[(path, n['id'])] = n
        if k == 'NamespaceDecl':
            for c in n.get('inner', []):
                self._walk(c, ns + n.get('name', '') + '::', cls, path)
        elif k == 'CXXRecordDecl':
            if n.get('completeDefinition') or n.get('inner'):
                nm = n.get('name')
                self.byid[(path, n['id'])] = n
                flds = self.classes.setdefault(nm, {})
                for c in n.get('inner', []):
                    if c['kind'] == 'FieldDecl':
                        flds[c['name']] = c
                        self.byid[(path, c['id'])] = c
                    else:
                        self._walk(c, ns + (nm or '') + '::', nm, path)
        elif k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl'):
            # out-of-line definitions carry parentDeclContextId
            pc = n.get('parentDeclContextId')
            if pc and (path, pc) in self.byid and self.byid[(path, pc)].get('kind') == 'CXXRecordDecl':
                cls = self.byid[(path, pc)].get('name')
            f = Func(n, n.get('name'), cls, path)
            if f.body is not None and not n.get('isImplicit'):
                self.funcs[(cls, f.name, f.type)] = f
        elif k == 'VarDecl':
            if n.get('init') or n.get('inner'):
                self.globals[n['name']] = n
        elif k in ('LinkageSpecDecl',):
            for c in n.get('inner', []):
                self._walk(c, ns, cls, path)
        elif k == 'EnumDecl':
            for i, c in enumerate(x for x in n.get('inner', []) if x['kind'] == 'EnumConstantDecl'):
                c['_enumval'] = i
                self.byid[(path, c['id'])] = c

    def find(self, cls, name, typ=None):
        c = [f for (k, n, t), f in self.funcs.items() if n == name and (cls is None or k == cls)
             and (typ is None or t == typ)]
        return c

    def load_helper(self, path, name):
        """A function outside the namespace (e.g. a file-static helper)."""
        key = (path, name)
        if key in self.missing:
            return
        self.missing[key] = True
        self.load(path, name)


def tree_hash(extra=()):
    h = hashlib.sha256()
    d = os.path.join(REPO, SRC)
    for f in sorted(os.listdir(d)):
        h.update(f.encode())
        h.update(open(os.path.join(d, f), 'rb').read())
    return h.hexdigest()

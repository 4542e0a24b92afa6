"""Loads the facts extracted from the clang AST and indexes the resolved program."""
import hashlib
import json
import os
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SA_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
EXTRACT = os.path.join(BUILD, 'extract')

FLAGS = ('-DPARTICLE_SIMULATOR_MPI_PARALLEL -DPARTICLE_SIMULATOR_THREAD_PARALLEL -Dkiss_fft_scalar=double '
         '-I{repo} -isystem /usr/include/trilinos -I{verif}/stubs -isystem /usr/include/vtk-9.1 '
         '-isystem /usr/include/eigen3 -include /opt/vp/compat/trilinos13.hpp -DNDEBUG -std=c++14 -fopenmp '
         '-I/usr/lib/x86_64-linux-gnu/openmpi/include -I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi -w')

TUS = {
    'SylinderSystem': 'Sylinder/SylinderSystem.cpp',
    'Sylinder': 'Sylinder/Sylinder.cpp',
    'SylinderConfig': 'Sylinder/SylinderConfig.cpp',
    'BCQPSolver': 'Constraint/BCQPSolver.cpp',
    'ConstraintCollector': 'Constraint/ConstraintCollector.cpp',
    'ConstraintOperator': 'Constraint/ConstraintOperator.cpp',
    'ConstraintSolver': 'Constraint/ConstraintSolver.cpp',
    'Boundary': 'Boundary/Boundary.cpp',
    'CPSolver': 'Collision/CPSolver.cpp',
    'TpetraUtil': 'Trilinos/TpetraUtil.cpp',
    'PointDistribution': 'Util/PointDistribution.cpp',
    'Base64': 'Util/Base64.cpp',
    'main': 'Sylinder/SylinderSystem_main.cpp',
    'spec_system': '@/spec/system.cpp',
    'spec_near': '@/spec/near.cpp',
    'spec_forces': '@/spec/forces.cpp',
    'spec_config': '@/spec/config.cpp',
    'spec_con': '@/spec/constraint.cpp',
    'spec_sol': '@/spec/solver.cpp',
    'spec_iface': '@/spec/iface.cpp',
    'spec_bounds': '@/spec/bounds.cpp',
    'spec_setup': '@/spec/setup.cpp',
    'spec_out': '@/spec/output.cpp',
    'spec_dist': '@/spec/dist.cpp',
    'spec_exch': '@/spec/exch.cpp',
    'spec_io': '@/spec/io.cpp',
    'spec_util': '@/spec/util.cpp',
    'spec_b64': '@/spec/b64.cpp',
    'spec_race': '@/spec/race.cpp',
    'spec_coll': '@/spec/coll.cpp',
}


class BrokenAnalysis(Exception):
    """an anchor vanished or the program could not be parsed: no verdict"""


def build_extractor():
    if not os.path.exists(EXTRACT) or os.path.getmtime(EXTRACT) < os.path.getmtime(os.path.join(VERIF, 'engine', 'extract.cpp')):
        r = subprocess.run(['bash', os.path.join(VERIF, 'engine', 'build.sh')], capture_output=True, text=True)
        if r.returncode or not os.path.exists(EXTRACT):
            raise BrokenAnalysis('extractor build failed: ' + r.stderr[-2000:])


_treehash = None


def tree_hash():
    """content hash of every C/C++ source of the repository (cache key of the extraction)"""
    global _treehash
    if _treehash:
        return _treehash
    h = hashlib.sha256()
    for base in (REPO, os.path.join(VERIF, 'stubs'), os.path.join(VERIF, 'engine')):
        for d, ds, fs in os.walk(base):
            ds[:] = sorted(x for x in ds if x not in ('.git', '_build', 'build', 'FDPS', 'spdlog', 'Deprecated') or
                           (x in ('FDPS', 'spdlog') and False))
            for f in sorted(fs):
                if f.endswith(('.cpp', '.hpp', '.h', '.c', '.hxx', '.sh', '.cc', '.ipp', '.inl')):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, base).encode() + b'\0')
                    with open(p, 'rb') as fh:
                        h.update(fh.read())
    h.update(FLAGS.encode())
    h.update(REPO.encode())
    _treehash = h.hexdigest()[:24]
    return _treehash


def outname(cache, n):
    src = TUS[n]
    if src[0] != '@':
        return os.path.join(cache, n + '.json')
    h = hashlib.sha256()
    d = os.path.dirname(VERIF + src[1:])
    for f in sorted(os.listdir(d)):
        if f.endswith('.hpp') or f == os.path.basename(src):
            with open(os.path.join(d, f), 'rb') as fh:
                h.update(fh.read())
    return os.path.join(cache, '%s-%s.json' % (n, h.hexdigest()[:12]))


def extract(names):
    """parse the translation units (in parallel) and return {name: facts}"""
    build_extractor()
    cache = os.path.join(BUILD, 'facts-' + tree_hash())
    os.makedirs(cache, exist_ok=True)
    os.utime(cache)
    res = subprocess.run(['clang-18', '-print-resource-dir'], capture_output=True, text=True).stdout.strip()
    jobs = []
    for n in names:
        src = TUS[n]
        out = outname(cache, n)
        if os.path.exists(out):
            continue
        src = VERIF + src[1:] if src[0] == '@' else os.path.join(REPO, src)
        if not os.path.exists(src):
            raise BrokenAnalysis('translation unit %s is gone' % src)
        tmp = out + '.%d.tmp' % os.getpid()
        roots = ['--root=' + REPO] + (['--root=%s/spec' % VERIF, '--root=%s/harness' % VERIF] if TUS[n][0] == '@' else []) + ['--exclude=%s/%s' % (REPO, x) for x in ('FDPS', 'spdlog', '_build', 'Deprecated')]
        cmd = [EXTRACT] + roots + ['-o', tmp, src, '--'] + \
            FLAGS.format(repo=REPO, verif=VERIF).split() + ['-resource-dir=' + res] + \
            (['-fno-access-control'] if TUS[n][0] == '@' else [])
        jobs.append((n, out, tmp, cmd))
    running = []
    fails = []
    while jobs or running:
        while jobs and len(running) < 8:
            n, out, tmp, cmd = jobs.pop(0)
            running.append((n, out, tmp, subprocess.Popen(cmd, cwd=REPO, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)))
        n, out, tmp, p = running.pop(0)
        err = p.communicate()[1]
        if p.returncode or not os.path.exists(tmp):
            fails.append('%s: %s' % (n, err[-3000:]))
        else:
            os.rename(tmp, out)
    if fails:
        raise BrokenAnalysis('extraction failed: ' + '\n'.join(fails))
    prune(cache)
    r = {}
    for n in names:
        with open(outname(cache, n)) as f:
            r[n] = json.load(f)
    return r


def prune(keep):
    import shutil
    import time
    for x in os.listdir(BUILD):
        p = os.path.join(BUILD, x)
        try:
            if x.startswith('facts-') and p != keep and time.time() - os.path.getmtime(p) > 1800:
                shutil.rmtree(p, ignore_errors=True)
        except OSError:
            pass    # another run removed it first


# --------------------------------------------------------------------------- names
_opre = re.compile(r'operator\s*(\(\)|\[\]|<<=|>>=|<=>|->\*|<<|>>|<=|>=|->|<|>|==|!=|\+\+|--|[-+*/%^&|~!=]=?|&&|\|\||\+\+|--|,)')
_strip = {}


def strip(q):
    """qualified name without template arguments"""
    r = _strip.get(q)
    if r is not None:
        return r
    m = None
    for m in _opre.finditer(q):
        pass
    tail = ''
    head = q
    if m and q[m.start() - 1:m.start()] in ('', ':'):
        head, tail = q[:m.start()], 'operator' + m.group(1)
    out = []
    d = 0
    for ch in head:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif d == 0:
            out.append(ch)
    r = ''.join(out) + tail
    r = r.replace('::(anonymous class)', '')
    _strip[q] = r
    return r


def targs(t):
    """top level template arguments of a type string"""
    i = t.find('<')
    if i < 0:
        return []
    out, cur, d = [], '', 0
    for ch in t[i + 1:t.rfind('>')]:
        if ch in '<([':
            d += 1
        elif ch in '>)]':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


_tk = {}
_INT = {'int', 'unsigned int', 'long', 'unsigned long', 'short', 'unsigned short', 'char', 'signed char',
        'unsigned char', 'long long', 'unsigned long long', '__int128'}


def tk(t):
    """kind of a type: ('b',) ('i',) ('r',) ('p',T) ('mat',r,c,rowmajor) ('map',r,c) ('q',) ('mapq',) ('str',) ('arr',T,n)
    ('vec',T) ('rec',name) ('view',T) ('void',)"""
    r = _tk.get(t)
    if r is None:
        r = _tk[t] = _tkind(t)
    return r


def _tkind(t):
    t = t.strip()
    while True:
        u = t
        for p in ('const ', 'volatile ', 'struct ', 'class '):
            if t.startswith(p):
                t = t[len(p):]
        t = t.strip()
        while t.endswith('&'):
            t = t[:-1].strip()
        for p in (' const', '*const', ' volatile', '__restrict', ' restrict'):
            if t.endswith(p):
                t = (t[:-len(p)] + ('*' if p[0] == '*' else '')).strip()
        if u == t:
            break
    if t == 'void':
        return ('void',)
    if t == 'bool':
        return ('b',)
    if t in _INT:
        return ('i',)
    if t in ('double', 'float', 'long double'):
        return ('r',)
    if '(*)' in t and not t.endswith(')'):
        return ('p', t.replace('(*)', '').strip())
    m = re.match(r'^(.*?)\s*((?:\[\d*\])+)$', t)
    if m:
        dims = re.findall(r'\[(\d*)\]', m.group(2))
        base = m.group(1)
        n = int(dims[0]) if dims[0] else None
        rest = ''.join('[%s]' % d for d in dims[1:])
        return ('arr', base + (' ' + rest if rest else ''), n)
    if t.endswith('*'):
        return ('p', t[:-1].strip())
    if t.endswith(')'):
        return ('fn',)
    if t == 'std::nullptr_t' or t == 'nullptr_t':
        return ('p', 'void')
    base = t.split('<', 1)[0]
    if base in ('Teuchos::RCP', 'std::shared_ptr', 'std::unique_ptr', 'vtkSmartPointer', 'vtkNew'):
        return ('p', targs(t)[0])
    if base == '__gnu_cxx::__normal_iterator':
        return ('p', targs(t)[0][:-1].strip() if targs(t)[0].endswith('*') else targs(t)[0])
    if base in ('std::_Deque_iterator',):
        return ('p', targs(t)[0])
    if base == 'Eigen::Matrix':
        a = targs(t)
        return ('mat', int(a[1]), int(a[2]), bool(int(a[3]) & 1))
    if base == 'Eigen::Map':
        a = targs(t)
        k = tk(a[0])
        if k[0] == 'mat':
            return ('map', k[1], k[2], k[3])
        if k[0] == 'q':
            return ('mapq',)
    if base == 'Eigen::Quaternion':
        return ('q',)
    if base.startswith('Eigen::'):
        return ('eig', t)
    if base in ('std::basic_string', 'std::__cxx11::basic_string'):
        return ('str',)
    if base in ('std::vector', 'std::deque'):
        return ('vec', targs(t)[0])
    if base in ('std::unordered_multimap', 'std::unordered_map', 'std::multimap', 'std::map'):
        a = targs(t)
        return ('vec', 'std::pair<const %s, %s>' % (a[0], a[1]))
    if base in ('std::unordered_set', 'std::set'):
        return ('vec', targs(t)[0])
    if base in ('std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator', 'std::__detail::_Node_iterator_base',
                'std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator'):
        return ('p', targs(t)[0])
    if base == 'std::array':
        a = targs(t)
        return ('arr', a[0], int(a[1]))
    if base == 'Kokkos::View':
        return ('p', targs(t)[0].replace('*', '').strip())
    return ('rec', t)


def isref(t):
    return t.rstrip().endswith('&')


class Prog:
    def __init__(self, names):
        self.names = list(names)
        facts = extract(self.names)
        self.fn = {}
        self.rec = {}
        self.glob = {}
        self.enum = {}
        self.enumt = set()
        for n in self.names:
            d = facts[n]
            T = d['types']
            F = d['files']
            for f in d['functions']:
                f['T'] = T
                f['F'] = F[f['file']]
                f['tu'] = n
                o = self.fn.get(f['u'])
                if o is None or (not o.get('body') and f.get('body')):
                    self.fn[f['u']] = f
            for r in d['records']:
                r['T'] = T
                t = T[r['t']]
                self.rec.setdefault(t, r)
                self.rec.setdefault(r['q'], r)
            for g in d['globals']:
                g['T'] = T
                o = self.glob.get(g['q'])
                if o is None or (not o.get('init') and g.get('init')):
                    self.glob[g['q']] = g
            self.enumt |= {T[i].replace('const ', '') for i in d.get('enumtypes', ())}
            for e in d['enums']:
                e['T'] = T
                self.enum[e['q']] = e
                self.enumt.add(T[e['t']])
        self.byq = {}
        for f in self.fn.values():
            self.byq.setdefault(strip(f['q']), []).append(f)

    def derived(self, q):
        """whether any known class derives from class q"""
        if not hasattr(self, '_bases'):
            self._bases = {strip(r['T'][b]) for r in self.rec.values() for b in r.get('bases') or []}
        return q is None or strip(q) in self._bases

    def find(self, q, nparams=None, pred=None, body=True, opt=False):
        """the unique function with this stripped qualified name"""
        c = [f for f in self.byq.get(q, []) if (f.get('body') or not body)]
        if nparams is not None:
            c = [f for f in c if len(f['params']) == nparams]
        if pred:
            c = [f for f in c if pred(f)]
        if not c:
            if opt:
                return None
            raise BrokenAnalysis('anchor function %s not found' % q)
        return c[0]

    def all(self, q):
        return [f for f in self.byq.get(q, []) if f.get('body')]

    def kind(self, t):
        k = tk(t)
        if k[0] == 'rec':
            n = k[1]
            if n in self.enumt or n in self.enum or n.replace('enum ', '') in self.enumt:
                return ('i',)
        return k


def ptype(f, i):
    return f['T'][f['params'][i]['t']]


def loc_of(f, e):
    return '%s:%s' % (f['F'].replace(REPO + '/', ''), e.get('p', f['line']) if isinstance(e, dict) else e)


# --------------------------------------------------------------------------- generic traversal
_SUB = ('e', 'l', 'r', 'c', 'a', 'b', 'i', 'obj', 'fx', 'init', 'inc', 'range', 'var', 'd', 'fns', 'h', 'fill', 'at',
        'cl', 'body', 'cvd', 'n', 'default', 'v', 'caps')


def walk(x):
    """pre-order over every statement/expression dict below x"""
    if isinstance(x, list):
        for y in x:
            yield from walk(y)
    elif isinstance(x, dict):
        if 'k' in x or 'init' in x or 'body' in x or 'c' in x:
            if 'k' in x:
                yield x
            for key, y in x.items():
                if isinstance(y, (dict, list)) and key not in ('T',):
                    yield from walk(y)


def calls(x):
    for y in walk(x):
        if y.get('k') in ('Call', 'Ctor') and y.get('q'):
            yield y


def writes(p, quals, fields):
    """members of `fields` of the object itself that some of the functions (or what they call) may change"""
    seen, todo, out = set(), [], set()
    for f in p.fn.values():
        if f['q'] in quals:
            todo.append(f)

    def root(x):
        while isinstance(x, dict):
            if x.get('k') == 'Mem':
                b = x.get('b') or {}
                while b.get('k') == 'Cast':
                    b = b.get('e') or {}
                if b.get('k') == 'This':
                    return x['n']
                x = b
            elif x.get('k') in ('Cast', 'Un'):
                x = x.get('e')
            elif x.get('k') == 'Idx':
                x = x.get('b') or x.get('e')
            elif x.get('k') == 'Call' and x.get('obj') is not None and not x.get('arrow') and \
                    not (x.get('q') or '').endswith(('operator*', 'operator->')):
                x = x['obj']
            else:
                return None
        return None
    while todo:
        f = todo.pop()
        if f['u'] in seen:
            continue
        seen.add(f['u'])
        for x in walk(f.get('body')):
            k = x.get('k')
            if k in ('Asg', 'CAsg'):
                n = root(x.get('l') or x.get('a') or x.get('e'))
                if n in fields:
                    out.add(n)
            elif k == 'Un' and x.get('op') in ('++', '--', '&'):
                n = root(x.get('e'))
                if n in fields:
                    out.add(n)
            elif k == 'Call':
                g = p.fn.get(x.get('f'))
                if g is not None:
                    todo.append(g)
                if (x.get('q') or '').startswith(('spdlog::', 'fmt::')):
                    continue
                if x.get('obj') is not None and not x.get('const') and (x.get('q') or '').rsplit('::', 1)[-1] in (
                        'operator=', 'reset', 'swap', 'clear', 'emplace', 'insert', 'operator[]', 'push_back', 'operator>>', 'operator<<'):
                    n = root(x['obj'])
                    if n in fields:
                        out.add(n)
                for a, t in zip(x.get('a') or [], x.get('pt') or []):
                    tt = f['T'][t].strip()
                    n = root(a)
                    if n in fields and tt.endswith('&') and 'const ' not in tt:
                        out.add(n)
    return out

"""Race analysis of the OpenMP regions: every access to memory that the threads of a region share is found by walking the
function (and what it calls) with an abstract store; two accesses of different threads may touch the same location only when
both read, or both hold the same lock."""
import itertools
import re

from prog import strip, walk

# ---------------------------------------------------------------- values
INF = float('inf')


class Aff:
    """sum of coefficient*monomial of symbols + [lo,hi]"""
    __slots__ = ('d', 'lo', 'hi')

    def __init__(self, d=None, lo=0, hi=0):
        self.d = {k: v for k, v in (d or {}).items() if v}
        self.lo, self.hi = lo, hi

    def __eq__(self, o):
        return isinstance(o, Aff) and self.d == o.d and self.lo == o.lo and self.hi == o.hi

    def __hash__(self):
        return hash((frozenset(self.d.items()), self.lo, self.hi))

    def __repr__(self):
        s = ['%d*%s' % (v, '*'.join(k)) if v != 1 else '*'.join(k) for k, v in sorted(self.d.items())]
        if self.lo == self.hi:
            return '+'.join(s + ([str(self.lo)] if self.lo or not s else []))
        return '+'.join(s + ['[%s,%s]' % (self.lo, self.hi)])


class Seg:
    """m times (an index inside the segment of an offset table that belongs to one iteration) plus [lo,hi]"""
    def __init__(self, tab, own, m=1, lo=0, hi=0):
        self.tab, self.own, self.m, self.lo, self.hi = tab, own, m, lo, hi

    def k(self):
        return self.tab, self.own, self.m, self.lo, self.hi

    def __eq__(self, o):
        return isinstance(o, Seg) and self.k() == o.k()

    def __hash__(self):
        return hash(self.k())

    def __repr__(self):
        s = '(%s[%s]+..)' % (self.tab, self.own)
        return s if self.m == 1 else '%d*%s+[%s,%s]' % (self.m, s, self.lo, self.hi)


class Any:
    """unknown value; dep: differs between threads"""
    def __init__(self, dep):
        self.dep = dep

    def __eq__(self, o):
        return isinstance(o, Any) and o.dep == self.dep

    def __hash__(self):
        return hash(self.dep)

    def __repr__(self):
        return '?'


class Ptr:
    """address (or reference, view, smart pointer, iterator) into some places"""
    def __init__(self, pl):
        self.pl = frozenset(pl)

    def __eq__(self, o):
        return isinstance(o, Ptr) and o.pl == self.pl

    def __hash__(self):
        return hash(self.pl)

    def __repr__(self):
        return '&' + '|'.join(map(str, self.pl))


class Lam:
    def __init__(self, fns, fr):
        self.fns, self.fr = fns, fr


class Place:
    """root: ('priv', n) or ('sh', name); path: field names and index tuples"""
    __slots__ = ('root', 'path')

    def __init__(self, root, path=()):
        self.root, self.path = root, path

    def __eq__(self, o):
        return self.root == o.root and self.path == o.path

    def __hash__(self):
        return hash((self.root, self.path))

    def add(self, c):
        if len(self.path) > 14:
            return self
        return Place(self.root, self.path + (c,))

    def __repr__(self):
        s = self.root[1] if self.root[0] == 'sh' else '%s' % (self.root[1],)
        for c in self.path:
            s += '[%s]' % ','.join(map(str, c)) if isinstance(c, tuple) else ('' if c == '*' else '.' + c)
        return str(s)


def add(a, b, sg=1):
    if isinstance(a, Ptr) and not isinstance(b, Ptr):
        return Ptr(shift(p, b if sg > 0 else mul(b, Aff(lo=-1, hi=-1))) for p in a.pl)
    if isinstance(b, Seg) and sg > 0 and not isinstance(a, (Seg, Ptr)):
        a, b = b, a
    if isinstance(a, Seg) and not isinstance(b, (Seg, Ptr)):
        if a.m == 1:
            return a
        if isinstance(b, Aff) and not b.d and sg > 0:
            return Seg(a.tab, a.own, a.m, a.lo + b.lo, a.hi + b.hi)
        return Any(True)
    if isinstance(a, Aff) and isinstance(b, Aff):
        d = dict(a.d)
        for k, v in b.d.items():
            d[k] = d.get(k, 0) + sg * v
        if sg > 0:
            return Aff(d, a.lo + b.lo, a.hi + b.hi)
        return Aff(d, a.lo - b.hi, a.hi - b.lo)
    return Any(dep(a) or dep(b))


def mul(a, b):
    if isinstance(b, Seg):
        a, b = b, a
    if isinstance(a, Seg) and isinstance(b, Aff) and not b.d and b.lo == b.hi and b.lo > 0:
        c = b.lo
        return Seg(a.tab, a.own, a.m * c, a.lo * c, a.hi * c)
    if isinstance(a, Aff) and isinstance(b, Aff):
        for x, y in ((a, b), (b, a)):
            if y.lo == y.hi and (not x.d and x.lo == x.hi or x.lo == x.hi and y.lo == y.hi):
                d = {}
                for k1, v1 in list(x.d.items()) + ([((), x.lo)] if x.lo else []):
                    for k2, v2 in list(y.d.items()) + ([((), y.lo)] if y.lo else []):
                        k = tuple(sorted(k1 + k2))
                        d[k] = d.get(k, 0) + v1 * v2
                c = d.pop((), 0)
                return Aff(d, c, c)
            if not y.d and y.lo == y.hi and abs(y.lo) < INF:
                c = y.lo
                lo, hi = (x.lo * c, x.hi * c) if c >= 0 else (x.hi * c, x.lo * c)
                if c == 0:
                    lo = hi = 0
                return Aff({k: v * c for k, v in x.d.items()}, lo, hi)
    return Any(dep(a) or dep(b))


def dep(a):
    if isinstance(a, Aff):
        return any(s.startswith('@') for k in a.d for s in k)
    if isinstance(a, Any):
        return a.dep
    return isinstance(a, Seg)


def shift(p, b):
    """address p moved by b elements"""
    if p.path and isinstance(p.path[-1], tuple) and len(p.path[-1]) == 1:
        return Place(p.root, p.path[:-1] + ((add(p.path[-1][0], b),),))
    return p.add((b,))


def join(a, b):
    if a == b:
        return a
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return Ptr(a.pl | b.pl)
    if isinstance(a, Ptr):
        return a
    if isinstance(b, Ptr):
        return b
    if isinstance(a, Lam):
        return a
    if isinstance(a, Aff) and isinstance(b, Aff) and a.d == b.d:
        return Aff(a.d, min(a.lo, b.lo), max(a.hi, b.hi))
    if a is None or b is None:
        return a or b
    return Any(dep(a) or dep(b))


# ---------------------------------------------------------------- accesses
class Acc:
    __slots__ = ('place', 'w', 'locks', 'phase', 'tid', 'fn', 'line', 'own', 'once')


def owns(ix, own):
    """(key, lo, hi, stride) when this index is tied to the iteration variable `own`"""
    if isinstance(ix, Seg) and ix.own == own:
        return ('seg', ix.tab, ix.m), ix.lo, ix.hi, ix.m
    if isinstance(ix, Aff):
        mine = {k: v for k, v in ix.d.items() if own in k}
        rest = {k: v for k, v in ix.d.items() if own not in k}
        if len(mine) == 1 and not any(s.startswith('@') for k in rest for s in k):
            (k, v), = mine.items()
            if k.count(own) == 1:
                co = tuple(s for s in k if s != own)
                rng = [(s[0], w) for s, w in rest.items() if len(s) == 1 and s[0].startswith('~')]
                if rng and co and len(rng) == 1 and rng[0][1] == 1 and v == 1 and rng[0][0].startswith('~' + '*'.join(co) + '#'):
                    rest = {s: w for s, w in rest.items() if s != (rng[0][0],)}
                    if ix.lo == ix.hi == 0:
                        return ('aff', k, v, frozenset(rest.items())), 0, 0, 1
                    return None
                return ('aff', k, v, frozenset(rest.items())), ix.lo, ix.hi, abs(v) if not co else 1
    return None


def disjoint(a, b, own):
    """whether accesses a and b of different values of `own` can never meet"""
    for x, y in zip(a.path, b.path):
        if isinstance(x, tuple) and isinstance(y, tuple):
            for p, q in zip(x, y):
                if isinstance(p, Aff) and isinstance(q, Aff):
                    if p.d == q.d and not any(s.startswith('@') or s.startswith('~') for k in p.d for s in k) and \
                            (p.hi < q.lo or q.hi < p.lo):
                        return True
                u, v = owns(p, own), owns(q, own)
                if u and v and u[0] == v[0] and u[3] == v[3] and max(u[2], v[2]) - min(u[1], v[1]) < u[3]:
                    return True
                if (u is None) != (v is None) or (u and v):
                    # tied to the iteration in two ways that do not match: another component may still tell them apart
                    continue
        elif x != y:
            return not isinstance(x, tuple) and not isinstance(y, tuple) or '#size' in (x, y) or '#ptr' in (x, y)
    return False


def digits(a, b, own):
    """the same when the iteration enters through quotient and remainder by one divisor: i / n and i % n"""
    hi = lo = False
    for x, y in zip(a.path, b.path):
        if not (isinstance(x, tuple) and isinstance(y, tuple)):
            if x != y:
                return False
            continue
        for p, q in zip(x, y):
            if not (isinstance(p, Aff) and isinstance(q, Aff)) or p.d != q.d:
                continue
            co = {}
            for k, v in p.d.items():
                for s in k:
                    if s.startswith('@') or s.startswith('~'):
                        if len(k) != 1 or s[:len(own) + 1] not in (own + '/', own + '%'):
                            co = None
                            break
                        co[s] = v
                if co is None:
                    break
            if not co or len({s[len(own) + 1:] for s in co}) != 1:
                continue
            n = next(iter(co))[len(own) + 1:]
            H, L = co.get(own + '/' + n, 0), co.get(own + '%' + n, 0)
            d1, d2 = p.lo - q.hi, p.hi - q.lo
            w = int(n) - 1 if n.isdigit() else None
            if w is None:
                if d1 == d2 == 0:
                    hi |= bool(H) and not L
                    lo |= bool(L)
                continue
            if H and abs(H) > abs(L) * w + max(abs(d1), abs(d2)):
                hi = True
            if L and w <= 512 and not any(d1 <= L * k <= d2 or d1 <= -L * k <= d2 for k in range(1, w + 1)):
                lo = True
    return hi and lo


def conflict(a, b):
    """whether two threads may make accesses a and b to the same location at the same time, one of them writing"""
    if not (a.w or b.w) or a.phase != b.phase or set(a.locks) & set(b.locks) or a.place.root != b.place.root:
        return False
    p, q = a.place, b.place
    if a.once is not None and a.once == b.once:
        return False
    if a.own is not None and a.own == b.own and (disjoint(p, q, a.own) or digits(p, q, a.own)):
        return False
    return not disjoint(p, q, '@tid')


def races(reg):
    """(place, write, other access) of every race of the region"""
    groups = {}
    for a in reg.accs:
        groups.setdefault((a.place.root, a.phase), []).append(a)
    out, seen = [], set()
    for (r, _), L in groups.items():
        u = {}
        for a in L:
            u.setdefault((a.place, a.w, a.locks, a.own, a.once), a)
        L = list(u.values())
        for a in L:
            if not a.w:
                continue
            for b in L:
                if conflict(a, b):
                    key = (str(a.place), a.line)
                    if key not in seen:
                        seen.add(key)
                        out.append((a, b))
                    break
    return out


# ---------------------------------------------------------------- walker
ACCESSORS = {'operator[]', 'operator()', 'at', 'data', 'begin', 'end', 'front', 'back', 'get', 'operator*', 'operator->', 'coeffRef',
             'coeff', 'x', 'y', 'z', 'w', 'vec', 'coeffs', 'col', 'row', 'segment', 'block', 'head', 'tail', 'array', 'matrix', 'noalias',
             'transpose', 'cbegin', 'cend', 'rbegin', 'rend', 'c_str', 'getRawPtr', 'getLocalView', 'ptr', 'derived', 'const_cast_derived',
             'first', 'second', 'value', 'getPointer', 'GetPointer', 'getPtr', 'topRows', 'leftCols', 'diagonal', 'getConst', 'subspan'}
LIBSAFE = ('spdlog::', 'fmt::', 'std::chrono', 'printf', 'fprintf', 'puts', 'exit', 'abort', 'std::exit', 'omp_', 'std::endl', 'std::setw')
UNSAFE = {'rand', 'srand', 'std::rand', 'std::srand', 'strtok', 'std::strtok', 'drand48', 'localtime', 'std::localtime', 'gmtime',
          'lrand48', 'random', 'asctime', 'ctime', 'strerror'}
ALGOREAD = {'accumulate', 'copy', 'max_element', 'min_element', 'any_of', 'all_of', 'count_if', 'find', 'find_if'}
ALGOWRITE = {'fill': (0,), 'copy': (2,), 'sort': (0,), 'swap': (0, 1), 'iota': (0,), 'partial_sum': (2,), 'transform': (2,), 'fill_n': (0,),
             'copy_n': (2,), 'stable_sort': (0,), 'shuffle': (0,), 'reverse': (0,), 'rotate': (0,), 'generate': (0,), 'for_each': (0,),
             'memcpy': (0,), 'memset': (0,)}


class Frame:
    def __init__(self, f, this, T, parent=None):
        self.f, self.this, self.T, self.parent = f, this, T, parent
        self.vars = {}
        self.rets = []
        self.local = set()

    def find(self, i):
        fr = self
        while fr is not None:
            if i in fr.vars:
                return fr
            fr = fr.parent
        return None


class Region:
    def __init__(self, f, line, d):
        self.f, self.line, self.d = f, line, d
        self.accs = []
        self.fns = set()
        self.problems = []


class Walker:
    def __init__(self, prog):
        self.prog = prog
        self.regions = []
        self.reg = None           # current region
        self.own = None           # name of the iteration variable of the current work-sharing construct
        self.tid = '@tid'
        self.locks = ()
        self.phase = 0
        self.once = None
        self.n = itertools.count()
        self.depth = 0
        self.stack = []
        self.scans = set()
        self.priv = {}            # private copies of shared variables inside the current region: id -> name
        self.unknown = {}
        self.gen = 0

    # ------------------------------------------------------------ entry points
    def function(self, f):
        self.scans, self.counters = set(), []
        fr = Frame(f, Place(('sh', 'this')), f['T'])
        for p in f['params']:
            self.bindparam(fr, p)
        self.run(fr, f)

    def functor(self, f):
        """body executed by all threads at once, on arguments of their own"""
        self.scans, self.counters = set(), []
        fr = Frame(f, Place(('sh', 'this')), f['T'])
        self.reg = Region(f, f['line'], 'functor')
        self.regions.append(self.reg)
        for p in f['params']:
            t = f['T'][p['t']]
            name = p['n'] or '?'
            if self.isptr(t):
                # inputs are shared read only, the result buffer belongs to the thread
                c = t.strip().startswith('const') or 'const *' in t or 'const &' in t
                fr.vars[p['id']] = Ptr([Place(('sh', 'in:' + name) if c else ('priv', name))])
            else:
                fr.vars[p['id']] = Any(False)
        self.run(fr, f)
        self.reg = None

    def run(self, fr, f):
        self.fr = fr
        for i in f.get('inits') or []:
            if i.get('e') is not None:
                self.value(i['e'])
        self.stmt(f.get('body'))

    def bindparam(self, fr, p):
        t = fr.T[p['t']]
        if self.isptr(t):
            fr.vars[p['id']] = Ptr([Place(('sh', p['n'] or '?'), ('*',) if t.strip().endswith('*') else ())])
        else:
            k = self.prog.kind(t)
            fr.vars[p['id']] = Aff({('%s' % p['n'],): 1}) if k[0] == 'i' else Ptr([Place(('sh', p['n'] or '?'))]) if k[0] not in ('r', 'b') else Any(False)

    def tabname(self, e):
        while isinstance(e, dict) and e.get('k') == 'Cast':
            e = e['e']
        if not isinstance(e, dict):
            return None
        b = None
        if e.get('k') == 'Idx':
            b = e['b']
        elif e.get('k') == 'Call' and (e.get('q') or '').endswith(('::operator[]', '::at')) and e.get('obj') is not None:
            b = e['obj']
        while isinstance(b, dict) and b.get('k') in ('Cast', 'Un'):
            b = b['e']
        if isinstance(b, dict) and b.get('k') in ('Ref', 'Mem'):
            return b['n']
        return None

    # ------------------------------------------------------------ helpers
    def isptr(self, t):
        t = t.strip()
        if t.endswith('&'):
            return True
        return self.handle(t)

    def handle(self, t):
        """types whose copies refer to the same storage"""
        t = re.sub(r'^(const|volatile|struct|class)\s+', '', t.strip())
        t = re.sub(r'\s*(const|__restrict|restrict)$', '', t)
        return t.endswith('*') or t.startswith(('Teuchos::RCP', 'std::shared_ptr', 'std::unique_ptr', 'vtkSmartPointer', 'vtkNew', 'Kokkos::View',
                                                'Teuchos::ArrayRCP', 'Teuchos::ArrayView', '__gnu_cxx::__normal_iterator',
                                                'std::_Deque_iterator', 'Eigen::Map', 'Eigen::Ref', 'std::reference_wrapper',
                                                'std::__detail::_Node', 'std::_Rb_tree')) or t.endswith('[]')

    def T(self, e):
        t = e.get('t')
        return self.fr.T[t] if t is not None else ''

    def kind(self, e):
        return self.prog.kind(self.T(e))

    def private(self, p):
        return p.root[0] == 'priv'

    def acc(self, places, w, e=None):
        if self.reg is None:
            return
        for p in places:
            if self.private(p):
                continue
            a = Acc()
            a.place, a.w, a.locks, a.phase = p, w, self.locks, self.phase
            a.own, a.once = self.own, self.once
            a.fn, a.line = self.fr.f, (e or {}).get('p', self.line)
            self.reg.accs.append(a)

    line = None

    # ------------------------------------------------------------ expressions
    def place(self, e):
        """set of places that the lvalue e denotes"""
        k = e.get('k')
        if k == 'Cast':
            return self.place(e['e'])
        if k == 'Ref':
            dk = e.get('dk')
            if e.get('id') in self.priv and self.reg is not None and dk in ('local', 'param'):
                return [Place(('priv', 'copy of ' + e['n']))]
            if dk in ('local', 'param', 'parm', 'var') or e.get('id') is not None:
                fr = self.fr.find(e['id']) if e.get('id') is not None else None
                if fr is not None:
                    v = fr.vars[e['id']]
                    if isinstance(v, tuple) and v[0] == 'var':
                        return [v[1]]
                    if isinstance(v, tuple) and v[0] == 'ref':
                        return list(v[1].pl)
                    if isinstance(v, Ptr) and self.T(e).strip() and not self.handle(self.T(e)):
                        return list(v.pl)
                    return [Place(('priv', e['n']))]
            return [Place(('sh', e.get('q') or e['n']))]
        if k == 'This':
            return [self.fr.this]
        if k == 'Mem':
            b = e.get('b')
            if b is None:
                return [self.fr.this.add(e['n'])]
            if e.get('arrow'):
                v = self.value(b)
                return [p.add(e['n']) for p in self.pointees(v, b)]
            return [p.add(e['n']) for p in self.place(b)]
        if k == 'Idx':
            i = self.value(e['i'])
            b = e['b']
            v = self.value(b)
            return [shift(p, i) for p in self.pointees(v, b)]
        if k == 'Un' and e['op'] == '*':
            return self.pointees(self.value(e['e']), e['e'])
        if k == 'Un' and e['op'] in ('++', '--') and not e.get('post'):
            self.value(e)
            return self.place(e['e'])
        if k in ('Asg', 'CAsg'):
            self.value(e)
            return self.place(e['l'])
        if k == 'Cond':
            self.value(e['c'])
            return self.place(e['a']) + self.place(e['b'])
        if k == 'Bin' and e.get('op') == ',':
            self.value(e['l'])
            return self.place(e['r'])
        v = self.call(e) if k == 'Call' else self.value(e)
        if isinstance(v, Ptr):
            return list(v.pl)
        return [self.fresh('temporary')]

    def pointees(self, v, e=None):
        if isinstance(v, Ptr):
            return list(v.pl)
        if isinstance(v, tuple) and v[0] == 'ref':
            return list(v[1].pl)
        return [self.fresh('unknown')]

    def fresh(self, n):
        return Place(('priv', n)) if self.reg is not None else Place(('sh', '%s@%d' % (n, next(self.n))))

    def load(self, e):
        """value of an lvalue expression"""
        k = e.get('k')
        t = self.T(e)
        if k == 'Ref' and e.get('id') is not None:
            fr = self.fr.find(e['id'])
            if fr is not None:
                if e['id'] in self.priv and self.reg is not None:
                    return self.priv[e['id']][1]
                v = fr.vars[e['id']]
                if isinstance(v, tuple) and v[0] == 'var':
                    self.acc([v[1]], False, e)
                    return v[2] if len(v) > 2 else Any(False)
                if isinstance(v, tuple) and v[0] == 'ref':
                    pl = list(v[1].pl)
                    self.acc(pl, False, e)
                    return self.loaded(pl, t, e)
                if isinstance(v, Ptr) and not self.handle(t):
                    self.acc(v.pl, False, e)
                    return v
                return v
        if e.get('cv') is not None:
            try:
                c = int(e['cv'])
                return Aff(lo=c, hi=c)
            except (ValueError, TypeError):
                pass
        pl = self.place(e)
        self.acc([p.add('#ptr') for p in pl] if self.handle(t) else pl, False, e)
        return self.loaded(pl, t, e)

    def loaded(self, pl, t, e):
        if self.isptr(t) or self.prog.kind(t)[0] == 'arr':
            return Ptr(p if self.prog.kind(t)[0] == 'arr' else p.add('*') for p in pl)
        if self.prog.kind(t)[0] == 'i':
            if len(pl) == 1:
                p = pl[0]
                if self.private(p):
                    return Any(True)
                owners = set()
                for c in p.path:
                    if isinstance(c, tuple):
                        for x in c:
                            if dep(x):
                                owners |= {s for kk in x.d for s in kk if s.startswith('@')} if isinstance(x, Aff) else {x.own} if isinstance(x, Seg) else {'?'}
                            elif isinstance(x, Any) or isinstance(x, Aff) and (x.lo != x.hi or any(s.startswith('~') for kk in x.d for s in kk)):
                                owners.add('?')
                if not owners:
                    return Aff({(str(p),): 1})
                if len(owners) == 1 and '?' not in owners:
                    tab = self.tabkey(p)
                    if tab in self.scans:
                        return Seg(tab, owners.pop())
                return Any(True)
            return Any(True)
        return Any(any(not self.private(p) for p in pl) or True)

    def value(self, e):
        if e is None:
            return Any(False)
        m = getattr(self, 'v_' + e.get('k', ''), None)
        if m is None:
            out = Any(False)
            for key in ('e', 'l', 'r', 'c', 'b', 'i', 'n'):
                if isinstance(e.get(key), dict):
                    v = self.value(e[key])
                    if dep(v) if not isinstance(v, (tuple, Ptr, Lam)) and v is not None else False:
                        out = Any(True)
            for x in e.get('a') or [] if isinstance(e.get('a'), list) else []:
                self.value(x)
            return out
        return m(e)

    def v_Int(self, e):
        try:
            return Aff(lo=int(e['v']), hi=int(e['v']))
        except (ValueError, TypeError):
            return Any(False)

    def v_Float(self, e):
        return Any(False)

    def v_Bool(self, e):
        return Any(False)

    v_Str = v_Null = v_Zero = v_SizeOf = v_Trait = v_TypeId = v_Float

    def v_This(self, e):
        return Ptr([self.fr.this])

    def v_Cast(self, e):
        ck = e.get('ck')
        if ck == 'LValueToRValue':
            if self.islv(e['e']):
                return self.load(e['e'])
            v = self.value(e['e'])
            t = self.T(e)
            if isinstance(v, Ptr) and (self.handle(t) or self.prog.kind(t)[0] in ('i', 'r', 'b')) and e['e'].get('k') in ('Call', 'Cond'):
                self.acc([p.add('#ptr') for p in v.pl] if self.handle(t) else v.pl, False, e)
                return self.loaded(list(v.pl), t, e)
            return v
        if ck == 'ArrayToPointerDecay':
            return Ptr(self.place(e['e']))
        if ck in ('IntegralToFloating', 'FloatingToIntegral'):
            v = self.value(e['e'])
            return Any(dep(v)) if not isinstance(v, (tuple, Ptr, Lam)) else Any(True)
        return self.value(e['e'])

    def islv(self, e):
        while e.get('k') == 'Cast':
            e = e['e']
        return e.get('k') in ('Ref', 'Mem', 'Idx') or e.get('k') == 'Un' and e['op'] == '*' or e.get('lv') and e.get('k') not in ('Call', 'Cond')

    def v_Ref(self, e):
        if e.get('dk') in ('fn', 'func', 'function'):
            return Any(False)
        if e.get('dk') == 'enum' or e.get('cv') is not None and self.kind(e)[0] == 'i':
            try:
                return Aff(lo=int(e['cv']), hi=int(e['cv']))
            except (ValueError, TypeError, KeyError):
                return Any(False)
        t = self.T(e)
        k = self.prog.kind(t)
        if e.get('id') is not None:
            fr = self.fr.find(e['id'])
            if fr is not None and isinstance(fr.vars[e['id']], Lam):
                return fr.vars[e['id']]
        if k[0] in ('i', 'r', 'b') or self.handle(t):
            return self.load(e)
        return Ptr(self.place(e))

    def v_Mem(self, e):
        t = self.T(e)
        if self.prog.kind(t)[0] in ('i', 'r', 'b') or self.handle(t):
            return self.load(e)
        return Ptr(self.place(e))

    def v_Idx(self, e):
        return self.v_Mem(e)

    def v_Un(self, e):
        op = e['op']
        if op == '&':
            return Ptr(self.place(e['e']))
        if op == '*':
            return self.v_Mem(e)
        if op in ('++', '--'):
            v = self.value(e['e'])
            one = Aff(lo=1, hi=1)
            nv = add(v, one, 1 if op == '++' else -1) if not isinstance(v, (tuple, Lam)) else v
            self.store(e['e'], nv, e)
            return v if e.get('post') else nv
        v = self.value(e['e'])
        if op == '-' and isinstance(v, Aff):
            return mul(v, Aff(lo=-1, hi=-1))
        if op == '+':
            return v
        return Any(dep(v)) if not isinstance(v, (tuple, Ptr, Lam)) and v is not None else Any(True)

    def v_Bin(self, e):
        a, b = self.value(e['l']), self.value(e['r'])
        op = e['op']
        if op == ',':
            return b
        if isinstance(a, (tuple, Lam)) or isinstance(b, (tuple, Lam)):
            return Any(True)
        if op == '+':
            if isinstance(b, Ptr):
                a, b = b, a
            return add(a, b)
        if op == '-':
            if isinstance(b, Ptr):
                return Any(True)
            return add(a, b, -1)
        if op == '*':
            return mul(a, b)
        if op == '%' and isinstance(b, Aff) and not b.d and b.lo == b.hi and b.lo > 0:
            if not dep(a):
                return Aff(lo=0, hi=b.lo - 1)
        d = (isinstance(a, Ptr) or dep(a)) or (isinstance(b, Ptr) or dep(b))
        if op in ('/', '%') and isinstance(a, Aff) and isinstance(b, Aff) and a.lo == a.hi == 0 and b.lo == b.hi and not dep(b) and len(a.d) == 1 and \
                list(a.d.values()) == [1] and len(next(iter(a.d))) == 1 and next(iter(a.d))[0].startswith('@') and (b.lo > 0 if not b.d else b.lo == 0):
            n = str(b.lo) if not b.d else '(%r)' % b
            return Aff({(next(iter(a.d))[0] + op + n,): 1})
        if not d and isinstance(a, Aff) and isinstance(b, Aff) and a.lo == a.hi and b.lo == b.hi and op in ('/', '%', '<<', '>>') and \
                not any(s[0] == '~' for x in (a, b) for k in x.d for s in k):
            return Aff({('(%r%s%r)' % (a, op, b),): 1})
        return Any(d)

    def v_Cond(self, e):
        self.value(e['c'])
        return join(self.value(e['a']), self.value(e['b']))

    def tabkey(self, p):
        return str(Place(p.root, tuple(c for c in p.path if not isinstance(c, tuple) and c != '*')))

    def scan(self, e):
        """A[..] = A[..] + n, or A[..] = running count: A becomes a table of segment starts"""
        n = self.tabname(e['l'])
        if n is None:
            return
        run = False
        for y in walk(e['r']):
            if y.get('k') == 'Ref' and y.get('id') is not None and any(y['id'] in c for c in self.counters):
                run = True
            if self.tabname(y) == n and any(z.get('k') == 'Bin' and z.get('op') == '+' for z in walk(e['r'])):
                run = True
        if run:
            self.scans |= {self.tabkey(p) for p in self.place(e['l'])}

    def v_Asg(self, e):
        v = self.value(e['r'])
        if self.reg is None or self.once is not None:
            self.scan(e)
        self.store(e['l'], v, e)
        return v

    def v_CAsg(self, e):
        a, b = self.value(e['l']), self.value(e['r'])
        op = e.get('op', '')[:1]
        v = Any(True)
        if not isinstance(a, (tuple, Lam)) and not isinstance(b, (tuple, Lam)):
            v = add(a, b) if op == '+' and not isinstance(b, Ptr) else add(a, b, -1) if op == '-' and not isinstance(b, Ptr) else Any(True)
        self.store(e['l'], v, e)
        return v

    def store(self, l, v, e):
        """assignment to lvalue l"""
        x = l
        while x.get('k') == 'Cast':
            x = x['e']
        if x.get('k') == 'Ref' and x.get('id') is not None:
            fr = self.fr.find(x['id'])
            if fr is not None:
                if x['id'] in self.priv and self.reg is not None:
                    self.priv[x['id']] = (self.priv[x['id']][0], v if isinstance(v, (Aff, Any, Seg, Ptr)) else Any(True))
                    return
                o = fr.vars[x['id']]
                if isinstance(o, tuple) and o[0] == 'ref':
                    self.acc(o[1].pl, True, e)
                    return
                if isinstance(o, tuple) and o[0] == 'var':      # declared before the region: shared in it
                    if self.reg is not None:
                        self.acc([o[1]], True, e)
                    else:
                        if self.handle(self.T(x)) and not isinstance(v, Ptr):
                            v = Ptr([self.fresh(x['n'])])
                        fr.vars[x['id']] = ('var', o[1], self.outer(v))
                    return
                t = self.T(x)
                if isinstance(o, Ptr) and not self.handle(t):
                    self.acc(o.pl, True, e)
                    return
                fr.vars[x['id']] = v
                return
        pl = self.place(l)
        self.acc([p.add('#ptr') for p in pl] if self.handle(self.T(l)) else pl, True, e)

    def outer(self, v):
        return v if isinstance(v, (Ptr, Aff, Lam)) else Aff({('v%d' % next(self.n),): 1})

    def v_IList(self, e):
        for x in e['a']:
            self.value(x)
        return Any(True)

    def v_Lambda(self, e):
        return Lam(e['fns'], self.fr)

    def v_New(self, e):
        for key in ('n', 'init'):
            if isinstance(e.get(key), dict):
                self.value(e[key])
        return Ptr([Place(('priv', 'new'))]) if self.reg is not None else Ptr([Place(('sh', 'new%d' % next(self.n)))])

    def v_Ctor(self, e):
        t = self.T(e)
        f = self.prog.fn.get(e.get('f'))
        vals = [self.value(x) for x in e.get('a') or []]
        for x, v in zip(e.get('a') or [], vals):
            if isinstance(v, Ptr) and not self.handle(self.T(x)) and x.get('k') != 'Un':
                self.acc(v.pl, False, e)
        if self.handle(t):
            for v in vals:
                if isinstance(v, Ptr):
                    if t.strip().startswith(('std::shared_ptr', 'Teuchos::RCP', 'std::unique_ptr')) and not e.get('copy'):
                        return v
                    return v
        return Any(True) if not vals or not isinstance(vals[0], Lam) else vals[0]

    # ------------------------------------------------------------ calls
    def v_Call(self, e):
        v = self.call(e)
        t = self.T(e)
        if e.get('lv') and isinstance(v, Ptr) and (self.handle(t) or self.prog.kind(t)[0] in ('i', 'r', 'b')):
            self.acc([p.add('#ptr') for p in v.pl] if self.handle(t) else v.pl, False, e)
            return self.loaded(list(v.pl), t, e)
        return v

    def call(self, e):
        q = e.get('q')
        if q is None:
            fx = e.get('fx')
            o = self.value(fx) if fx is not None else None
            if isinstance(o, Lam):
                return self.call_lambda(o, e)
            for x in e['a']:
                self.value(x)
            return Any(True)
        sq = strip(q)
        f = self.prog.fn.get(e.get('f'))
        last = sq.rsplit('::', 1)[-1]
        if sq == 'omp_get_thread_num':
            return Aff({('@tid',): 1})
        if sq in ('omp_get_max_threads', 'omp_get_num_threads'):
            return Aff({(sq,): 1})
        if sq in UNSAFE and self.reg is not None:
            self.acc([Place(('sh', sq + '()'))], True, e)
        if any(sq.startswith(x) or sq == x for x in LIBSAFE):
            for x in e['a']:
                self.value(x)
            return Any(False)
        if e.get('obj') is not None and e.get('op') == '()':
            o = self.value(e['obj'])
            if isinstance(o, Lam):
                return self.call_lambda(o, e)
        own = f is not None and f.get('body') is not None and self.mine(f)
        if own and self.depth < 9 and f['u'] not in self.stack:
            return self.inline(f, e)
        return self.library(e, sq, last, f)

    def mine(self, f):
        F = f.get('F') or ''
        return not F.startswith('/usr/') and '/FDPS/' not in F and 'stubs/' not in F

    def inline(self, f, e, this=None, parent=None, T=None):
        if this is None:
            if e.get('obj') is not None:
                if e.get('arrow'):
                    ps = self.pointees(self.value(e['obj']))
                else:
                    ps = self.place(e['obj'])
                this = ps[0] if ps else self.fr.this
                if len(ps) > 1:
                    sh = [p for p in ps if not self.private(p)]
                    this = sh[0] if sh else ps[0]
            else:
                this = self.fr.this
        fr = Frame(f, this, T or f['T'], parent)
        args = e['a']
        if f.get('clsq') and e.get('op') and e.get('obj') is None and len(args) == len(f['params']) + 1:
            ps = self.place(args[0])
            fr.this, args = (ps[0] if ps else this), args[1:]
        for p, x in itertools.zip_longest(f['params'], args):
            if p is None:
                if x is not None:
                    self.value(x)
                continue
            t = fr.T[p['t']]
            if x is None:
                fr.vars[p['id']] = Any(False)
                continue
            if t.strip().endswith('&'):
                y = x
                while y.get('k') == 'Cast':
                    y = y['e']
                v = None if self.islv(x) else self.call(y) if y.get('k') == 'Call' and y.get('lv') else self.value(x)
                if isinstance(v, (Lam, Aff, Seg)):
                    fr.vars[p['id']] = v
                else:
                    cst = t.strip().startswith('const') and self.prog.kind(t)[0] in ('i', 'r', 'b')
                    if cst and v is None:
                        fr.vars[p['id']] = self.load(y)
                    else:
                        pl = self.place(x) if v is None else self.pointees(v)
                        fr.vars[p['id']] = ('ref', Ptr(pl))
            else:
                v = self.value(x)
                if isinstance(v, Ptr) and not self.handle(t):
                    self.acc(v.pl, False, e)
                    v = ('ref', Ptr([Place(('priv', p['n']))]))
                fr.vars[p['id']] = v
        old, self.fr = self.fr, fr
        self.depth += 1
        self.stack.append(f['u'])
        ol = self.line
        if self.reg is not None:
            self.reg.fns.add(f['q'])
        for i in f.get('inits') or []:
            if i.get('e') is not None:
                self.value(i['e'])
        self.stmt(f.get('body'))
        self.line = ol
        self.stack.pop()
        self.depth -= 1
        self.fr = old
        r = None
        for v in fr.rets:
            r = join(r, v) if r is not None else v
        if r is None or isinstance(r, Any) and not dep(r):
            return Any(False) if r is None else r
        return r

    def call_lambda(self, lam, e):
        f = lam.fns[0]
        for g in lam.fns:
            if g.get('u') == e.get('f'):
                f = g
        return self.inline(dict(f, T=lam.fr.T, F=lam.fr.f.get('F')) if f.get('T') is None else f, e, this=lam.fr.this, parent=lam.fr,
                           T=lam.fr.T)

    def library(self, e, sq, last, f):
        pts = [self.fr.T[t] for t in e.get('pt') or []]
        args = list(e['a'])
        recv = None
        isop = e.get('op')
        if e.get('obj') is not None:
            if e.get('arrow'):
                recv = self.pointees(self.value(e['obj']))
            else:
                x = e['obj']
                if self.handle(self.T(x)):
                    v = self.value(x)
                    recv = list(v.pl) if isinstance(v, Ptr) else [Place(('priv', 'temporary'))]
                else:
                    recv = self.place(x)
        vals = []
        for i, x in enumerate(args):
            t = pts[i] if i < len(pts) else ''
            y = x
            while y.get('k') == 'Cast':
                y = y['e']
            v = self.call(y) if y.get('k') == 'Call' and y.get('lv') and t.strip().endswith('&') and not t.strip().startswith('const') else self.value(x)
            if isinstance(v, Lam):
                self.call_all(v, x)
                vals.append(v)
                continue
            tt = t.strip()
            if isinstance(v, Ptr):
                ptrish = self.handle(self.T(x)) or tt.endswith('*')
                const = tt.startswith('const ') or 'const &' in tt or 'const *' in tt or tt.endswith('&&')
                if tt.endswith('&') and not const and not ptrish:
                    self.acc(v.pl, True, e)
                elif tt.endswith('*') and not const:
                    self.acc(v.pl, True, e)
                elif not ptrish or last in ALGOREAD:
                    self.acc(v.pl, False, e)
            elif tt.endswith('&') and not tt.startswith('const ') and not tt.endswith('&&') and self.islv(x):
                self.acc(self.place(x), True, e)
            vals.append(v)
        if last in ALGOWRITE and 'std::' in sq:
            # algorithms over iterators: written ranges
            if last in ('partial_sum', 'exclusive_scan', 'inclusive_scan') and len(vals) > 2 and isinstance(vals[2], Ptr):
                self.scans |= {self.tabkey(p) for p in vals[2].pl}
            for i in ALGOWRITE[last]:
                if i < len(vals) and isinstance(vals[i], Ptr):
                    self.acc([Place(p.root, p.path[:-1]) if p.path and isinstance(p.path[-1], tuple) and not isinstance(p.path[-1][0], Seg) else p
                              for p in vals[i].pl], True, e)
        t = self.T(e)
        ix = [v for v in vals if isinstance(v, (Aff, Any, Seg))]
        if recv is not None:
            const = e.get('const')
            if last in ('operator[]', 'at') and re.match(r'(const )?std::vector<bool', self.T(e['obj']).strip()):
                return Ptr(p.add((Any(False),)) for p in recv)         # neighbouring elements share a word
            if last in ('operator[]', 'operator()', 'at', 'GetComponent', 'GetTypedComponent', 'GetPoint') and args:
                r = [(shift(p, vals[0]) if last == 'operator[]' and self.handle(self.T(e['obj'])) else p.add(tuple(v if isinstance(v, (Aff, Any, Seg)) else Any(True) for v in vals))) for p in recv]
                if last.startswith('Get'):
                    self.acc(r, False, e)
                return self.result(r, t, e)
            if last in ('begin', 'data', 'cbegin', 'front'):
                return Ptr(p.add((Aff(),)) for p in recv)
            if last in ('end', 'back', 'cend', 'rbegin', 'rend'):
                return Ptr(p.add((Any(False),)) for p in recv)
            if last == 'operator->' or last == 'operator*' and not args or last == 'get':
                return Ptr(recv)
            if isop in ('++', '--') and self.handle(self.T(e['obj'])):
                self.store(e['obj'], Ptr(shift(p, Any(False)) for p in recv), e)
                return Ptr(recv)
            if isop in ('+', '-') and self.handle(self.T(e['obj'])) and vals and not isinstance(vals[0], Ptr):
                return Ptr(shift(p, vals[0] if isop == '+' else mul(vals[0], Aff(lo=-1, hi=-1))) for p in recv)
            if last == 'operator=' and self.handle(self.T(e['obj'])) and not self.T(e['obj']).startswith('Eigen::'):
                x = e['obj']
                self.store(x, vals[0] if vals else Any(True), e)
                return Ptr(recv)
            if const:
                if last in ('size', 'getRank', 'getSize', 'empty', 'dimension_0', 'dimension_1', 'extent'):
                    self.acc([p.add('#size') for p in recv], False, e)
                    if len(recv) == 1 and not self.private(recv[0]) and self.prog.kind(t)[0] == 'i':
                        pl = recv[0].add('#' + last)
                        if not any(isinstance(c, tuple) and any(dep(x) or isinstance(x, Any) for x in c) for c in pl.path):
                            return Aff({(str(pl),): 1})
                    return Any(True)
                self.acc(recv, False, e)
                return self.result(recv, t, e) if last in ACCESSORS else Any(True)
            if last in ACCESSORS:
                return self.result([p.add('#' + last) if last not in ('noalias', 'array', 'matrix', 'coeffs', 'vec', 'derived', 'getConst') else p for p in recv], t, e)
            self.acc(recv, True, e)
            return Ptr(recv)
        if isop and args and not isinstance(vals[0], Lam):
            # free operators
            if isop in ('=', '+=', '-=', '*=', '/=', '<<', '>>') and isinstance(vals[0], Ptr) and pts and pts[0].strip().endswith('&') and 'const' not in pts[0]:
                return vals[0]
            if isop in ('+', '-') and self.handle(self.T(args[0])) and isinstance(vals[0], Ptr) and len(vals) > 1 and not isinstance(vals[1], Ptr):
                return add(vals[0], vals[1], 1 if isop == '+' else -1)
        if sq in ('std::move', 'std::forward', 'std::addressof', 'std::ref', 'std::cref', 'std::next', 'std::prev') and vals:
            return vals[0]
        if sq in ('std::min', 'std::max') and len(vals) >= 2 and not any(isinstance(v, (Ptr, Lam)) for v in vals[:2]):
            a, b = vals[:2]
            if isinstance(a, Aff) and isinstance(b, Aff) and not a.d and not b.d:
                return Aff(lo=min(a.lo, b.lo), hi=max(a.hi, b.hi))
        if self.handle(t) or t.strip().endswith('&'):
            ps = [p for v in vals if isinstance(v, Ptr) for p in v.pl]
            return Ptr(ps or [self.fresh(last)])
        return Any(True)

    def call_all(self, lam, x):
        """a lambda handed to a library: called on unknown arguments"""
        for f in lam.fns[:1]:
            fr = Frame(dict(f, F=lam.fr.f.get('F'), T=lam.fr.T), lam.fr.this, f.get('T') or lam.fr.T, lam.fr)
            for p in f.get('params') or []:
                fr.vars[p['id']] = ('ref', Ptr([Place(('priv', p['n']))]))
            old, self.fr = self.fr, fr
            self.stmt(f.get('body'))
            self.fr = old

    def result(self, places, t, e):
        k = self.prog.kind(t)
        if t.strip().endswith('&') or e.get('lv') or self.handle(t) or k[0] not in ('i', 'r', 'b'):
            return Ptr(places)
        return self.loaded(places, t, e)

    # ------------------------------------------------------------ statements
    def stmt(self, s):
        if s is None:
            return
        k = s.get('k')
        if isinstance(s.get('p'), int):
            self.line = s['p']
        m = getattr(self, 's_' + k, None)
        if m is not None:
            return m(s)
        for key in ('e', 'c', 'v'):
            if isinstance(s.get(key), dict):
                self.value(s[key])
        for key in ('b', 'h', 'a'):
            x = s.get(key)
            for y in x if isinstance(x, list) else [x] if isinstance(x, dict) else []:
                self.stmt(y if 'b' not in y or y.get('k') else y['b'])

    def s_Block(self, s):
        for x in s['b']:
            self.stmt(x)

    def s_Expr(self, s):
        e = s['e']
        if isinstance(e.get('p'), int):
            self.line = e['p']
        v = self.value(e)

    def s_Return(self, s):
        if s.get('e') is not None:
            v = self.value(s['e'])
            self.fr.rets.append(v)

    def s_Decl(self, s):
        for d in s['d']:
            self.declare(d)

    def declare(self, d):
        t = self.fr.T[d['t']]
        init = d.get('init')
        tt = t.strip()
        k = self.prog.kind(t)
        if d.get('static'):
            name = 'static %s' % d['n']
            pl = Place(('sh', '%s in %s' % (name, self.fr.f.get('q'))))
            self.fr.vars[d['id']] = ('ref', Ptr([pl]))
            return
        if tt.endswith('&') or d.get('ref'):
            v = None
            if init is not None:
                y = init
                while y.get('k') == 'Cast':
                    y = y['e']
                v = Ptr(self.place(init)) if self.islv(init) else self.call(y) if y.get('k') == 'Call' and y.get('lv') else self.value(init)
            if isinstance(v, Ptr):
                if self.reg is None:
                    # a name of something shared
                    pass
                self.fr.vars[d['id']] = ('ref', v)
            elif isinstance(v, (Lam, Aff)):
                self.fr.vars[d['id']] = v
            else:
                self.fr.vars[d['id']] = ('ref', Ptr([Place(('priv', d['n']))]))
            return
        v = self.value(init) if init is not None else Any(True)
        if isinstance(v, Lam):
            self.fr.vars[d['id']] = v
            return
        if isinstance(v, Ptr) and not self.handle(t):
            self.acc(v.pl, False)
        if self.reg is None:
            if self.handle(t):
                if isinstance(v, Ptr):
                    self.fr.vars[d['id']] = ('var', Place(('sh', d['n'])), v)
                else:
                    self.fr.vars[d['id']] = ('var', Place(('sh', d['n'])), Ptr([Place(('sh', '%s@%d' % (d['n'], next(self.n))))]))
            elif k[0] in ('i', 'r', 'b'):
                self.fr.vars[d['id']] = ('var', Place(('sh', d['n'])), v if isinstance(v, Aff) else Aff({(d['n'] + '#%d' % d['id'],): 1}))
            else:
                self.fr.vars[d['id']] = ('ref', Ptr([Place(('sh', d['n']))]))
        else:
            if self.handle(t) or k[0] in ('i', 'r', 'b'):
                self.fr.vars[d['id']] = v if not self.handle(t) or isinstance(v, Ptr) else Ptr([Place(('priv', d['n']))])
            else:
                self.fr.vars[d['id']] = ('ref', Ptr([Place(('priv', d['n']))]))

    def s_If(self, s):
        if s.get('init') is not None:
            self.stmt(s['init'])
        self.value(s.get('c'))
        v0 = self.snapshot()
        self.stmt(s.get('a'))
        v1 = self.snapshot()
        self.restore(v0)
        self.stmt(s.get('b'))
        self.merge(v1)

    def snapshot(self):
        out = []
        fr = self.fr
        while fr is not None:
            out.append((fr, dict(fr.vars)))
            fr = fr.parent
        return out

    def restore(self, s):
        for fr, v in s:
            fr.vars = dict(v)

    def merge(self, s):
        for fr, v in s:
            for i, x in v.items():
                y = fr.vars.get(i)
                if y is None:
                    fr.vars[i] = x
                elif x is not y and not isinstance(x, tuple) and not isinstance(y, tuple):
                    fr.vars[i] = join(x, y)
                elif isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] == 'var' and x != y:
                    fr.vars[i] = ('var', x[1], self.outer(join(x[2], y[2])))

    def assigned(self, b):
        out = set()
        for x in walk(b):
            t = None
            if x.get('k') in ('Asg', 'CAsg'):
                t = x['l']
            elif x.get('k') == 'Un' and x['op'] in ('++', '--'):
                t = x['e']
            elif x.get('k') == 'Call' and x.get('op') in ('++', '--', '=', '+=', '-=') and (x.get('obj') is not None or x.get('a')):
                t = x.get('obj') or x['a'][0]
            while isinstance(t, dict) and t.get('k') == 'Cast':
                t = t['e']
            if isinstance(t, dict) and t.get('k') == 'Ref' and t.get('id') is not None:
                out.add(t['id'])
        return out

    def loophead(self, parts):
        self.counters.append({l['id'] for b in parts for x in walk(b) if x.get('k') == 'CAsg' and x.get('op') in ('+=', '+')
                              for l in [x['l']] if l.get('k') == 'Ref' and l.get('id') is not None})
        self._loophead(parts)

    def _loophead(self, parts):
        ids = set()
        for b in parts:
            ids |= self.assigned(b)
        for i in ids:
            fr = self.fr.find(i)
            if fr is None:
                continue
            v = fr.vars[i]
            if isinstance(v, (Aff, Any)) or isinstance(v, Seg) and v.m != 1:
                fr.vars[i] = Any(True)
            elif isinstance(v, Ptr):
                fr.vars[i] = Ptr(shift(p, Any(dep(p.path[-1][0]) if p.path and isinstance(p.path[-1], tuple) and len(p.path[-1]) == 1 and not isinstance(p.path[-1][0], Seg) else False))
                                 if not self.private(p) else p for p in v.pl)
            elif isinstance(v, tuple) and v[0] == 'var' and self.reg is None and isinstance(v[2], Aff):
                fr.vars[i] = ('var', v[1], Aff({('v%d' % next(self.n),): 1}))
            if i in self.priv and self.reg is not None:
                self.priv[i] = (self.priv[i][0], Any(True))

    def s_For(self, s):
        self.stmt(s.get('init'))
        head = [s.get('c'), s.get('inc'), s.get('b')]
        var, lo, hi, sym = self.canonical(s)
        self.loophead(head)
        if var is not None:
            fr = self.fr.find(var)
            if isinstance(fr.vars[var], tuple):
                if self.reg is None:
                    fr.vars[var] = ('var', fr.vars[var][1], Aff({('v%d' % next(self.n),): 1}))
            elif self.reg is not None:
                if hi is not None:
                    fr.vars[var] = Aff(lo=lo, hi=hi)
                elif sym is not None:
                    fr.vars[var] = Aff({('~%s#%d' % (sym, next(self.n)),): 1})
                else:
                    fr.vars[var] = Aff({}, lo if lo is not None else -INF, INF)
        self.value(s['c']) if s.get('c') is not None else None
        v0 = self.snapshot()
        self.stmt(s['b'])
        if s.get('inc') is not None:
            self.value(s['inc'])
        self.merge(v0)

    def canonical(self, s):
        """(variable, first value, last value, symbol of the upper bound) of for (int j = a; j < b; j++)"""
        c, inc = s.get('c'), s.get('inc')
        while isinstance(c, dict) and c.get('k') == 'Cast':
            c = c['e']
        none = (None, None, None, None)
        if not isinstance(c, dict) or c.get('k') != 'Bin' or c['op'] not in ('<', '<=', '!='):
            return none
        l = c['l']
        while l.get('k') == 'Cast':
            l = l['e']
        if l.get('k') != 'Ref' or l.get('id') is None or not isinstance(inc, dict):
            return none
        i = inc
        if not (i.get('k') == 'Un' and i['op'] == '++' or i.get('k') == 'CAsg'):
            return none
        if self.fr.find(l['id']) is None or l['id'] in self.assigned(s.get('b')):
            return none
        lo = None
        v = self.fr.find(l['id']).vars[l['id']]
        if isinstance(v, Aff) and not v.d:
            lo = v.lo
        elif isinstance(v, tuple):
            return l['id'], None, None, None
        elif not isinstance(v, Aff):
            return none
        b = self.value(c['r'])
        if isinstance(b, Aff) and not b.d and b.hi < INF and lo is not None:
            return l['id'], lo, b.hi - (0 if c['op'] == '<=' else 1), None
        if isinstance(b, Aff) and lo == 0 and b.lo == b.hi == 0 and len(b.d) == 1 and c['op'] != '<=':
            (k, n), = b.d.items()
            if n == 1 and not any(x[0] in '@~' for x in k):
                return l['id'], 0, None, '*'.join(k)
        if v.d and isinstance(v, Aff):
            return none
        return l['id'], lo, None, None

    def s_While(self, s):
        self.loophead([s.get('c'), s.get('b')])
        self.value(s['c'])
        v0 = self.snapshot()
        self.stmt(s['b'])
        self.merge(v0)

    def s_Do(self, s):
        self.loophead([s.get('c'), s.get('b')])
        self.stmt(s['b'])
        self.value(s['c'])

    def s_RFor(self, s, own=None):
        r = s['range']
        pl = self.place(r) if self.islv(r) else self.pointees(self.value(r))
        self.loophead([s.get('b')])
        d = s['var']
        d = d['d'][0] if isinstance(d, dict) and 'd' in d and isinstance(d['d'], list) else d
        t = self.fr.T[d['t']].strip()
        el = [p.add((own if own is not None else Any(False),)) for p in pl]
        k = self.prog.kind(t)
        if t.endswith('&') or k[0] not in ('i', 'r', 'b'):
            if not t.endswith('&'):
                self.acc(el, False, s)
                el = [Place(('priv', d['n']))] if self.reg is not None else el
            self.fr.vars[d['id']] = ('ref', Ptr(el))
        else:
            self.acc(el, False, s)
            self.fr.vars[d['id']] = Any(True) if self.reg is not None else ('var', Place(('sh', d['n'])), Aff({('v%d' % next(self.n),): 1}))
        self.stmt(s['b'])

    def s_Switch(self, s):
        self.value(s.get('c') or s.get('e'))
        v0 = self.snapshot()
        self.stmt(s.get('b'))
        self.merge(v0)

    def s_Try(self, s):
        self.stmt(s.get('b'))
        for h in s.get('h') or []:
            self.stmt(h.get('b') if isinstance(h, dict) else None)

    # ------------------------------------------------------------ OpenMP
    def s_OMP(self, s):
        d = s['d']
        b = s.get('b')
        cl = s.get('cl') or []
        for c in cl:
            if isinstance(c.get('e'), dict) and c['c'] in ('num_threads', 'if', 'schedule', 'collapse'):
                self.value(c['e'])
        nowait = any(c['c'] == 'nowait' for c in cl)
        if d in ('critical', 'atomic', 'ordered'):
            lock = 'critical:%s' % (s.get('name') or '') if d == 'critical' else d
            old = self.locks
            self.locks = old + (lock,)
            if d == 'atomic':
                # only the update itself is atomic: its operands may be shared reads
                e = b
                while isinstance(e, dict) and e.get('k') in ('Expr', 'Block', 'Cast'):
                    e = e['e'] if 'e' in e else e['b'][0] if len(e['b']) == 1 else None
                self.stmt(b)
            else:
                self.stmt(b)
            self.locks = old
            return
        if d == 'barrier':
            self.phase += 1
            return
        top = self.reg is None and d.startswith('parallel')
        if self.reg is None and not top:
            self.stmt(b)          # orphaned: runs on one thread as far as this function shows
            return
        oldpriv = dict(self.priv)
        new = None
        if top:
            new = self.reg = Region(self.fr.f, s.get('p') or self.line, d)
            self.regions.append(new)
            self.phase, self.locks, self.once, self.own = 0, (), None, None
            self.entry = self.snapshot()
        for c in cl:
            if c['c'] in ('private', 'firstprivate', 'lastprivate', 'reduction', 'linear'):
                for v in c.get('vars') or []:
                    if v.get('id') is not None:
                        val = Any(True)
                        if c['c'] == 'firstprivate':
                            fr = self.fr.find(v['id'])
                            o = fr.vars[v['id']] if fr else None
                            val = o[2] if isinstance(o, tuple) and o[0] == 'var' else Any(True)
                        self.priv[v['id']] = (v['n'], val)
                        if c['c'] == 'reduction':
                            self.reduction(c, v, b)
                        if c['c'] in ('private', 'firstprivate') and top:
                            self.privcheck(c, v, s)
        if 'sections' in d:
            secs = [x for x in walk(b) if x.get('k') == 'OMP' and x['d'] == 'section']
            if not secs:
                self.stmt(b)
            for i, x in enumerate(secs):
                self.once = ('section', id(s), i)
                self.stmt(x.get('b'))
            self.once = None
            self.phase += 0 if nowait else 1
        elif 'for' in d.split():
            oo = self.own
            self.worksharing(s, b)
            self.own = oo
            self.phase += 0 if nowait else 1
        elif d in ('single', 'master', 'masked'):
            oo = self.once
            self.once = ('single', id(s), 0) if d == 'single' else ('master', 0, 0)
            self.stmt(b)
            self.once = oo
            self.phase += 0 if nowait or d != 'single' else 1
        elif d.startswith('parallel') and not top:
            self.stmt(b)
        else:
            if 'task' in d:
                self.reg.problems.append((self.line, 'construct %s is not understood' % d, False))
            self.stmt(b)
        self.priv = oldpriv
        if top:
            self.reg = None
            self.phase, self.locks, self.once = 0, (), None

    def worksharing(self, s, b):
        while isinstance(b, dict) and b.get('k') == 'Block' and len(b['b']) == 1:
            b = b['b'][0]
        own = '@i%d' % next(self.n)
        n = 1
        for c in s.get('cl') or []:
            if c['c'] == 'collapse':
                self.reg.problems.append((self.line, 'collapse is not understood', False))
        if b.get('k') == 'RFor':
            self.own = own
            self.s_RFor(b, Aff({(own,): 1}))
            return
        if b.get('k') != 'For':
            self.stmt(b)
            return
        # the loop variable is private in any case
        ids = self.assigned(b.get('inc'))
        init = b.get('init')
        self.reg_in = True
        if isinstance(init, dict) and init.get('k') == 'Decl':
            for d in init['d']:
                if d.get('init') is not None:
                    self.value(d['init'])
                ids.add(d['id'])
        else:
            self.stmtinit(init, ids)
        self.own = own
        it = Aff({(own,): 1})
        t = None
        for i in ids:
            fr = self.fr.find(i)
            if fr is not None and isinstance(fr.vars[i], tuple):
                self.priv[i] = ('loop variable', it)
            else:
                self.fr.vars[i] = it
            if isinstance(init, dict) and init.get('k') == 'Decl':
                d = next((d for d in init['d'] if d['id'] == i), None)
                if d is not None and self.handle(self.fr.T[d['t']]) and d.get('init') is not None:
                    v = self.value(d['init'])
                    if isinstance(v, Ptr):
                        self.fr.vars[i] = Ptr(shift(p, it) for p in v.pl)
        if b.get('c') is not None:
            self.value(b['c'])
        keep = {i: self.fr.vars.get(i) for i in ids}
        self.loophead([b.get('b')])
        for i, v in keep.items():
            if v is not None and i not in self.assigned(b.get('b')):
                self.fr.vars[i] = v
        self.stmt(b['b'])

    def stmtinit(self, init, ids):
        for x in walk(init):
            if x.get('k') == 'Asg':
                l = x['l']
                while l.get('k') == 'Cast':
                    l = l['e']
                if l.get('k') == 'Ref' and l.get('id') is not None:
                    ids.add(l['id'])
                self.value(x['r'])

    def reduction(self, c, v, b):
        """a reduction variable may only be updated with the operator of the reduction"""
        op = (c.get('op') or '').replace('operator', '')
        comp = {'+': '+', '-': '+', '*': '*', '&&': '&&', '||': '||', '|': '|', '&': '&', '^': '^', 'max': 'max', 'min': 'min'}.get(op)
        isv = lambda e: e.get('k') == 'Ref' and e.get('id') == v['id']

        def peel(e):
            while isinstance(e, dict) and e.get('k') == 'Cast':
                e = e['e']
            return e
        uses = sum(1 for x in walk(b) if x.get('k') == 'Ref' and x.get('id') == v['id'])
        ok = 0
        for x in walk(b):
            if x.get('k') == 'CAsg' and isv(peel(x['l'])):
                o = x.get('op', '').replace('=', '')
                if {'-': '+'}.get(o, o) == comp:
                    ok += 1
            elif x.get('k') == 'Un' and x['op'] in ('++', '--') and isv(peel(x['e'])) and comp == '+':
                ok += 1
            elif x.get('k') == 'Asg' and isv(peel(x['l'])):
                r = peel(x['r'])
                n = sum(1 for y in walk(r) if y.get('k') == 'Ref' and y.get('id') == v['id'])
                if n == 0:
                    w = peel(r)
                    if w.get('k') == 'Bool' and (w.get('v') in (True, 1) and comp == '||' or w.get('v') in (False, 0) and comp == '&&'):
                        ok += 1
                    elif comp in ('max', 'min'):
                        ok += 1
                elif r.get('k') == 'Bin' and ({'-': '+'}.get(r['op'], r['op']) == comp or comp in ('+', '*', '&&', '||') and r['op'] == comp):
                    ok += 1 + n
                elif r.get('k') in ('Call', 'Cond') and comp in ('max', 'min'):
                    s_ = strip(r.get('q') or '')
                    if r.get('k') == 'Cond' or comp in s_:
                        ok += 1 + n
            elif x.get('k') == 'If' and comp in ('max', 'min'):
                n = sum(1 for y in walk(x.get('c')) if y.get('k') == 'Ref' and y.get('id') == v['id'])
                ok += n
        if ok < uses:
            self.reg.problems.append((self.line, 'reduction variable %s is used other than in a %s reduction' % (v['n'], op), True))

    def privcheck(self, c, v, s):
        """a private copy starts undefined (or with the old value in every thread), and what it ends with is lost"""
        def order(x):
            """(reference, writes) in evaluation order"""
            if isinstance(x, list):
                for y in x:
                    yield from order(y)
            elif isinstance(x, dict):
                k = x.get('k')
                if k in ('Asg', 'CAsg'):
                    yield from order(x['r'])
                    l = x['l']
                    while l.get('k') == 'Cast':
                        l = l['e']
                    if l.get('k') == 'Ref' and l.get('id') == v['id']:
                        if k == 'CAsg':
                            yield False
                        yield True
                        return
                    yield from order(x['l'])
                elif k == 'Un' and x['op'] in ('++', '--') and x['e'].get('k') == 'Ref' and x['e'].get('id') == v['id']:
                    yield False
                    yield True
                elif k == 'Ref':
                    if x.get('id') == v['id']:
                        yield False
                elif k == 'OMP':
                    yield from order(x.get('b'))
                elif k == 'For':
                    for key in ('init', 'c', 'b', 'inc'):
                        yield from order(x.get(key))
                else:
                    for key, y in x.items():
                        if isinstance(y, (dict, list)) and key not in ('T', 'cl'):
                            yield from order(y)
        uses = list(order(s.get('b')))
        if not uses:
            return
        if not uses[0] and (c['c'] == 'private' or True in uses):
            self.reg.problems.append((self.line, 'the private copy of %s is read before it is set' % v['n'], True))
        if True in uses:
            seen, after = False, []

            def rest(x):
                nonlocal seen
                if x is s:
                    seen = True
                    return
                if isinstance(x, list):
                    for y in x:
                        rest(y)
                elif isinstance(x, dict):
                    if seen:
                        after.extend(order(x))
                        return
                    for key, y in x.items():
                        if isinstance(y, (dict, list)) and key not in ('T', 'cl'):
                            rest(y)
            rest(self.fr.f.get('body'))
            if after and not after[0]:
                self.reg.problems.append((self.line, '%s is used after the region that only changed private copies of it' % v['n'], True))

"""Algebraic value domain of the dataflow analysis.

Scalars are multi-terminal decision diagrams (class N) whose tests are canonical atoms
("L < k" on a normalised linear form, or an opaque boolean) and whose leaves are Laurent
polynomials (class P) with rational coefficients over interned atoms.  Equal computations get
equal nodes independently of how the source spells them (value numbering); no solver is used.
"""
import functools
import hashlib
import math
import time
import random
from fractions import Fraction

LIMIT_TERMS = 60000


class Undecided(Exception):
    """the analysis cannot represent this construct exactly"""


# --------------------------------------------------------------------------- atoms
class Atom:
    __slots__ = ('id', 'name', 'args', 'typ', 'free', 'bh')

    def __repr__(self):
        return show_atom(self)


_atoms = {}
_alist = []


def atom(name, args=(), typ='r'):
    key = (name, args, typ)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.id = len(_alist)
        a.name = name
        a.args = args
        a.typ = typ
        fr = set()
        bh = 0
        for x in args:
            f, b = _argfree(x)
            fr |= f
            bh = max(bh, b)
        if name == 'it' or name == 'phi':
            fr.add(a.id)
        if name in ('sum', 'fold', 'lam', 'app', 'rep'):
            bh += 1
        if name == 'bv':
            bh = args[0]
        a.free = frozenset(fr)
        a.bh = bh
        _atoms[key] = a
        _alist.append(a)
    return a


def _argfree(x):
    if isinstance(x, P):
        return x.free, x.bh
    if isinstance(x, N):
        return x.free, x.bh
    if isinstance(x, Atom):
        return x.free, x.bh
    if isinstance(x, Ref):
        return _argfree(x.loc)
    if isinstance(x, Ob):
        return _argfree(x.key)
    if isinstance(x, S):
        return _argfree(tuple(y for k, y in x.parts if k == 'n'))
    if isinstance(x, tuple):
        fr, bh = frozenset(), 0
        for y in x:
            f, b = _argfree(y)
            if f:
                fr = fr | f
            if b > bh:
                bh = b
        return fr, bh
    return frozenset(), 0


_E = frozenset()


# --------------------------------------------------------------------------- polynomials
class P:
    __slots__ = ('d', 'id', 'free', 'bh', '_h')

    def __repr__(self):
        return show_p(self)

    def const(self):
        if not self.d:
            return Fraction(0)
        if len(self.d) == 1:
            v = self.d.get(())
            return v
        return None


_ps = {}


CUT = {}    # key of a polynomial -> the atom that names it (see cut)


def mkp(d):
    key = frozenset(d.items())
    if CUT and key in CUT:
        return CUT[key]
    p = _ps.get(key)
    if p is None:
        p = P()
        p.d = d
        p.id = len(_ps)
        fr = _E
        bh = 0
        for m in d:
            for a, _ in m:
                at = _alist[a]
                if at.free:
                    fr = fr | at.free
                if at.bh > bh:
                    bh = at.bh
        p.free = fr
        p.bh = bh
        p._h = p.id
        _ps[key] = p
    return p


def cut(p):
    """from now on the polynomial p is named by one atom (whose value is that of p); the atom"""
    a = mkp({((atom('cut', (p,)).id, 1),): Fraction(1)})
    CUT[frozenset(p.d.items())] = a
    CUT[frozenset((m, -c) for m, c in p.d.items())] = pscale(a, -1)
    for t in (_memo, _mulmemo, _itec, _restr):
        t.clear()
    return a


def pc(x):
    x = Fraction(x)
    return mkp({(): x}) if x else mkp({})


def pa(a, e=1):
    return mkp({((a.id, e),): Fraction(1)})


P0 = pc(0)
P1 = pc(1)


def padd(a, b, f=1):
    d = dict(a.d)
    for m, c in b.d.items():
        v = d.get(m, 0) + c * f
        if v:
            d[m] = v
        else:
            d.pop(m, None)
    return mkp(d)


def pscale(a, f):
    f = Fraction(f)
    if not f:
        return P0
    return mkp({m: c * f for m, c in a.d.items()})


def _mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        v = d.get(a, 0) + e
        if v:
            d[a] = v
        else:
            d.pop(a, None)
    return tuple(sorted(d.items()))


def _needsred(m):
    for a, e in m:
        at = _alist[a]
        n = at.name
        if n == 'sqrt' and e != 1:
            return a, e
        if n == 'inv' and e < 0:
            return a, e
        if n == 'b' and e != 1:
            return a, e
    return None


_mulmemo = {}


def pmul(a, b):
    if a.id > b.id:
        a, b = b, a
    ca = a.const()
    if ca is not None:
        return pscale(b, ca)
    cb = b.const()
    if cb is not None:
        return pscale(a, cb)
    k = (a.id, b.id)
    r = _mulmemo.get(k)
    if r is not None:
        return r
    if len(a.d) * len(b.d) > LIMIT_TERMS * 20:
        raise Undecided('polynomial too large')
    d = {}
    extra = []
    for m1, c1 in a.d.items():
        for m2, c2 in b.d.items():
            m = _mmul(m1, m2)
            r = _needsred(m)
            if r:
                extra.append((m, c1 * c2))
                continue
            v = d.get(m, 0) + c1 * c2
            if v:
                d[m] = v
            else:
                d.pop(m, None)
    res = mkp(d)
    for m, c in extra:
        res = padd(res, pscale(_reduce(m), c))
    if len(res.d) > LIMIT_TERMS:
        raise Undecided('polynomial too large')
    _mulmemo[k] = res
    return res


def _reduce(m):
    r = _needsred(m)
    if not r:
        return mkp({m: Fraction(1)})
    a, e = r
    rest = mkp({tuple(x for x in m if x[0] != a): Fraction(1)})
    at = _alist[a]
    if at.name == 'sqrt':
        p = at.args[0]
        h, odd = divmod(e, 2)
        f = ppow(p, h)
        if odd:
            f = pmul(f, pa(at))
        return pmul(rest, f)
    if at.name == 'inv':
        return pmul(rest, ppow(at.args[0], -e))
    if at.name == 'b':
        return pmul(rest, pa(at)) if e > 0 else rest
    raise AssertionError


def ppow(p, n):
    if n == 0:
        return P1
    if n < 0:
        return ppow(pinv(p), -n)
    r = P1
    b = p
    while n:
        if n & 1:
            r = pmul(r, b)
        n >>= 1
        if n:
            b = pmul(b, b)
    return r


def _lead(p):
    m = min(p.d)
    return m, p.d[m]


def pinv(p):
    c = p.const()
    if c is not None:
        if c == 0:
            return pa(atom('divzero', ()))
        return pc(1 / c)
    if len(p.d) == 1:
        (m, c), = p.d.items()
        return pscale(_reduce(tuple((a, -e) for a, e in m)), 1 / c)
    # common monomial factor
    ms = list(p.d)
    common = dict(ms[0])
    for m in ms[1:]:
        dm = dict(m)
        for a in list(common):
            e = dm.get(a, 0)
            o = common[a]
            if e == 0 or (e > 0) != (o > 0):
                del common[a]
            else:
                common[a] = min(o, e) if o > 0 else max(o, e)
        if not common:
            break
    pre = P1
    if common:
        cm = tuple(sorted((a, -e) for a, e in common.items()))
        f = _reduce(cm)
        if f is not None and len(f.d) == 1:
            q = pmul(p, f)
            if len(q.d) == len(p.d):
                p = q
                pre = f
    m, c = _lead(p)
    p = pscale(p, 1 / c)
    return pscale(pmul(pre, pa(atom('inv', (p,)))), 1 / c)


def isqrt_frac(c):
    if c < 0:
        return None
    n, d = c.numerator, c.denominator
    a, b = math.isqrt(n), math.isqrt(d)
    if a * a == n and b * b == d:
        return Fraction(a, b)
    return None


_zmemo = {}


def pzero(p):
    """is p identically zero (clearing the denominators recorded as inv atoms)?"""
    if not p.d:
        return True
    r = _zmemo.get(p.id)
    if r is None:
        r = _pzero(p)
        _zmemo[p.id] = r
    return r


def _pzero(p):
    for _ in range(40):
        if not p.d:
            return True
        tgt = None
        for m in p.d:
            for a, e in m:
                if _alist[a].name == 'inv':
                    if tgt is None or a > tgt:
                        tgt = a
        if tgt is None:
            return False
        q = _alist[tgt].args[0]
        mx = max(dict(m).get(tgt, 0) for m in p.d)
        byexp = {}
        for m, c in p.d.items():
            e = dict(m).get(tgt, 0)
            byexp.setdefault(e, {})[tuple(x for x in m if x[0] != tgt)] = c
        r = P0
        for e, d in byexp.items():
            r = padd(r, pmul(mkp(d), ppow(q, mx - e)))
        p = r
    raise Undecided('denominators')


# --------------------------------------------------------------------------- non numeric leaves
class Ref:
    """an address; loc = (base, comp, ...) with comps str or P"""
    __slots__ = ('loc',)
    _t = {}

    def __new__(cls, loc):
        r = cls._t.get(loc)
        if r is None:
            r = object.__new__(cls)
            r.loc = loc
            cls._t[loc] = r
        return r

    def __repr__(self):
        return '&' + show_loc(self.loc)


class S:
    """string value: parts are ('l', text) or ('n', N/other key)"""
    __slots__ = ('parts',)
    _t = {}

    def __new__(cls, parts):
        out = []
        for p in parts:
            if p[0] == 'l' and out and out[-1][0] == 'l':
                out[-1] = ('l', out[-1][1] + p[1])
            elif p == ('l', ''):
                continue
            else:
                out.append(p)
        parts = tuple(out)
        r = cls._t.get(parts)
        if r is None:
            r = object.__new__(cls)
            r.parts = parts
            cls._t[parts] = r
        return r

    def text(self):
        if not self.parts:
            return ''
        if len(self.parts) == 1 and self.parts[0][0] == 'l':
            return self.parts[0][1]
        return None

    def __repr__(self):
        return '"' + ''.join(p[1] if p[0] == 'l' else '{%s}' % (p[1],) for p in self.parts) + '"'


class Ob:
    """opaque non numeric value"""
    __slots__ = ('key',)
    _t = {}

    def __new__(cls, *key):
        r = cls._t.get(key)
        if r is None:
            r = object.__new__(cls)
            r.key = key
            cls._t[key] = r
        return r

    def __repr__(self):
        return '<%s>' % (','.join(map(str, self.key)))


NULL = Ob('null')


# --------------------------------------------------------------------------- decision diagrams
class C:
    __slots__ = ('key', 'kind', 'L', 'k', 'ns', 'free', 'bh', 'id')

    def __repr__(self):
        return show_c(self)


_cs = {}
_gids = {}


def mkc(kind, L, k=None, ns=0):
    g = _gids.setdefault((kind, L), len(_gids))
    key = (g, k if k is not None else 0, ns)
    c = _cs.get(key)
    if c is None:
        c = C()
        c.key = key
        c.kind = kind
        c.L = L
        c.k = k
        c.ns = ns
        c.free, c.bh = _argfree(L)
        c.id = len(_cs)
        _cs[key] = c
    return c


class N:
    __slots__ = ('id', 'c', 'hi', 'lo', 'v', 'free', 'bh')

    def __repr__(self):
        return show(self)


_leaf = {}
_node = {}
_cnt = [0]


def leaf(v):
    if isinstance(v, N):
        return v
    if isinstance(v, bool) or isinstance(v, int) or isinstance(v, Fraction):
        v = pc(v)
    n = _leaf.get(v)
    if n is None:
        n = N()
        n.c = None
        n.hi = n.lo = None
        n.v = v
        n.free, n.bh = _argfree(v)
        n.id = _cnt[0]
        _cnt[0] += 1
        _leaf[v] = n
    return n


def mk(c, hi, lo):
    if hi is lo:
        return hi
    # implied tests on the same linear form in the true branch
    while hi.c is not None and hi.c.key[0] == c.key[0] and c.kind == 'thr':
        hi = hi.hi
    if hi is lo:
        return hi
    if c.kind == 'thr' and c.ns == 1 and hi.c is None and lo.c is None and isinstance(hi.v, P) and isinstance(lo.v, P):
        # continuous at the threshold: strictness is immaterial
        if _cont(c, hi.v, lo.v):
            return mk(mkc('thr', c.L, c.k, 0), hi, lo)
    if c.kind == 'thr' and c.k == 1 and c.ns == 0:
        x = _single(c.L)
        if x is not None and x.typ == 'i' and nonneg(x):
            # the true branch is the case x == 0
            try:
                if occurs(hi, x):
                    return iteC(c, at0(hi, x), lo)
                if at0(lo, x) is hi:
                    return lo
            except Undecided:
                pass
    key = (c.id, hi.id, lo.id)
    n = _node.get(key)
    if n is None:
        n = N()
        n.c = c
        n.hi = hi
        n.lo = lo
        n.v = None
        n.free = hi.free | lo.free | c.free
        n.bh = max(hi.bh, lo.bh, c.bh)
        n.id = _cnt[0]
        _cnt[0] += 1
        if _cnt[0] > 6000000:
            raise Undecided('too many nodes')
        _node[key] = n
    return n


_occ = {}


def atoms_in(x):
    """ids of the atoms occurring in x"""
    if isinstance(x, N):
        k = ('n', x.id)
    elif isinstance(x, P):
        k = ('p', x.id)
    elif isinstance(x, Atom):
        k = ('a', x.id)
    elif isinstance(x, tuple):
        r = frozenset()
        for y in x:
            if not isinstance(y, (str, int)):
                r |= atoms_in(y)
        return r
    elif isinstance(x, Ref):
        return atoms_in(x.loc)
    elif isinstance(x, Ob):
        return atoms_in(x.key)
    elif isinstance(x, S):
        return atoms_in(tuple(y for k, y in x.parts if k == 'n'))
    else:
        return frozenset()
    r = _occ.get(k)
    if r is None:
        if k[0] == 'n':
            r = atoms_in(x.v) if x.c is None else atoms_in(x.hi) | atoms_in(x.lo) | atoms_in(x.c.L)
        elif k[0] == 'p':
            r = frozenset()
            for m in x.d:
                for a, e in m:
                    r |= atoms_in(_alist[a])
        else:
            r = atoms_in(x.args) | {x.id}
        _occ[k] = r
    return r


def occurs(n, a):
    return a.id in atoms_in(n)


def at0(n, x):
    """n with the integer atom x set to zero"""
    if not occurs(n, x):
        return n
    if x.name in ('it', 'phi'):
        return subst(n, x, FALSE)
    z = atom('it', ('zero', x.id), 'i')
    return subst(rename(n, x, z), z, FALSE)


def _single(L):
    if len(L.d) != 1:
        return None
    (m, co), = L.d.items()
    if len(m) != 1 or m[0][1] != 1 or co != 1:
        return None
    return _alist[m[0][0]]


def _cont(c, a, b):
    L = c.L
    if len(L.d) != 1:
        return False
    (m, co), = L.d.items()
    if len(m) != 1 or m[0][1] != 1 or co != 1:
        return False
    x = _alist[m[0][0]]
    if x.typ == 'i':
        return False
    try:
        return pzero(psubst1(padd(a, b, -1), x, pc(c.k)))
    except Undecided:
        return False


def psubst1(p, at, val):
    """substitute a top level occurrence of an atom (not inside other atoms)"""
    r = P0
    for m, co in p.d.items():
        t = pc(co)
        for a, e in m:
            if a == at.id:
                if e < 0 and val.const() == 0:
                    raise Undecided('div by zero')
                t = pmul(t, ppow(val, e))
            else:
                t = pmul(t, mkp({((a, e),): Fraction(1)}))
        r = padd(r, t)
    return r


TRUE = leaf(P1)
FALSE = leaf(P0)


def cof(n, c, val):
    if n.c is None:
        return n
    if val:
        while n.c is not None and n.c.key[0] == c.key[0] and (n.c is c or c.kind == 'thr'):
            n = n.hi
        return n
    return n.lo if n.c is c else n


_memo = {}


def apply(op, f, *ns):
    """leafwise f over the product of the diagrams"""
    key = (op,) + tuple(n.id for n in ns)
    r = _memo.get(key)
    if r is not None:
        return r
    top = None
    for n in ns:
        if n.c is not None and (top is None or n.c.key < top.key):
            top = n.c
    if top is None:
        r = f(*[n.v for n in ns])
        if not isinstance(r, N):
            r = leaf(r)
    else:
        hi = apply(op, f, *[cof(n, top, True) for n in ns])
        lo = apply(op, f, *[cof(n, top, False) for n in ns])
        r = iteC(top, hi, lo)
    _memo[key] = r
    return r


_itec = {}


def iteC(c, hi, lo):
    """like mk but hi/lo may contain tests ordered before c"""
    if hi is lo:
        return hi
    if (hi.c is None or hi.c.key > c.key) and (lo.c is None or lo.c.key > c.key):
        return mk(c, hi, lo)
    key = (c.id, hi.id, lo.id)
    r = _itec.get(key)
    if r is None:
        t = c
        for n in (hi, lo):
            if n.c is not None and n.c.key < t.key:
                t = n.c
        if t is c:
            r = mk(c, cof(hi, c, True), cof(lo, c, False))
        else:
            h = iteC(c, cof(hi, t, True), cof(lo, t, True))
            l = iteC(c, cof(hi, t, False), cof(lo, t, False))
            # under t true a same-form test c is implied
            if c.kind == 'thr' and t.key[0] == c.key[0]:
                h = cof(hi, t, True)
            r = mk(t, h, l)
        _itec[key] = r
    return r


def ite(b, x, y):
    if b is TRUE:
        return x
    if b is FALSE:
        return y
    if x is y:
        return x
    key = ('ite', b.id, x.id, y.id)
    r = _memo.get(key)
    if r is not None:
        return r
    if b.c is None:
        bt = truth(b)
        r = ite(bt, x, y)
    else:
        top = b.c
        for n in (x, y):
            if n.c is not None and n.c.key < top.key:
                top = n.c
        hi = ite(cof(b, top, True), cof(x, top, True), cof(y, top, True))
        lo = ite(cof(b, top, False), cof(x, top, False), cof(y, top, False))
        r = iteC(top, hi, lo)
    _memo[key] = r
    return r


def band(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    return ite(a, b, FALSE)


def bor(a, b):
    if a is TRUE or b is TRUE:
        return TRUE
    if a is FALSE:
        return b
    if b is FALSE:
        return a
    return ite(a, TRUE, b)


def bnot(a):
    return ite(a, FALSE, TRUE)


_restr = {}


def restrict(v, g):
    """simplify v under the assumption g"""
    if g is TRUE or v.c is None or g.c is None:
        return v
    key = (v.id, g.id)
    r = _restr.get(key)
    if r is not None:
        return r
    top = v.c if v.c.key <= g.c.key else g.c
    gh, gl = cof(g, top, True), cof(g, top, False)
    if gh is FALSE:
        r = restrict(cof(v, top, False), gl)
    elif gl is FALSE:
        r = restrict(cof(v, top, True), gh)
    elif v.c.key > g.c.key:
        r = restrict(v, bor(gh, gl))
    else:
        r = iteC(top, restrict(cof(v, top, True), gh), restrict(cof(v, top, False), gl))
    _restr[key] = r
    return r


def bcond(c):
    return mk(c, TRUE, FALSE)


def _allint(L):
    for m, c in L.d.items():
        if c.denominator != 1:
            return False
        for a, e in m:
            if _alist[a].typ not in ('i', 'b') or e < 0:
                return False
    return True


_NN = ('#size', '#n', '#nloc', '#nglob', '#len', '#getSize', '#omp_get_max_threads', '#omp_get_thread_num', '#getRank')
_nnm = {}


def nonneg(A):
    """integer quantities that cannot be negative by construction (sizes, ranks, iteration numbers)"""
    r = _nnm.get(A.id)
    if r is None:
        r = False
        if A.typ == 'i' and A.name == 'rd' and isinstance(A.args[-1], str) and A.args[-1] in _NN:
            r = True
        elif A.name in ('it', 'bv', 'ix') and A.typ != 'r':
            r = True
        elif A.name == 'phi' and A.args[0] == 'ctr':
            r = True
        elif A.name == 'bit' or A.id in WID:
            r = True
        elif A.name == 'glen' or (A.name == 'fold' and A.args[2] == 'mu'):
            r = True
        elif A.name in ('idiv', 'imod') and all(isinstance(x, P) for x in A.args) and (A.args[1].const() or 0) > 0:
            r = _nnp(A.args[0])
        elif A.name == 'sum':
            r = all(isinstance(x, P) and _nnp(x) for x in leafset(A.args[2]))
        _nnm[A.id] = r
    return r


def _nnp(p):
    return all(c >= 0 and all(nonneg(_alist[a]) or e == 2 for a, e in m) for m, c in p.d.items())


def _prim(L):
    """(factor, primitive form) with positive leading coefficient"""
    num = 0
    den = 1
    for c in L.d.values():
        num = math.gcd(num, c.numerator)
        den = den * c.denominator // math.gcd(den, c.denominator)
    f = Fraction(num, den)
    m, c = _lead(L)
    if c < 0:
        f = -f
    return f, pscale(L, 1 / f)


def _rem_range(L):
    """range of x - y idiv(x, y) for a non-negative x"""
    if len(L.d) < 2:
        return None
    for m, c in L.d.items():
        if len(m) == 1 and m[0][1] == 1:
            A = _alist[m[0][0]]
            if A.name == 'idiv' and isinstance(A.args[1], P):
                y = A.args[1].const()
                if y is None or y <= 0 or not isinstance(A.args[0], P):
                    continue
                r = padd(A.args[0], pscale(pa(A), y), -1)
                q = mkp({z: v for z, v in r.d.items() if z})
                if r.d.get(()) is None and (L is q or L.d == q.d or L.d == pscale(q, -1).d) and _nnp(A.args[0]):
                    return (0, int(y) - 1) if L.d == q.d else (1 - int(y), 0)
    return None


def _lt_p(a, b, strict=True):
    d = padd(a, b, -1)
    c = d.const()
    if c is not None:
        return TRUE if (c < 0 or (not strict and c == 0)) else FALSE
    k0 = d.d.get((), Fraction(0))
    L = mkp({m: x for m, x in d.d.items() if m})
    f, L = _prim(L)
    k = -k0 / f
    if k.denominator == 1:
        rg = _rem_range(L)
        if rg is not None:
            lo, hi = rg if f > 0 else (-rg[1], -rg[0])
            # f*(L - k): sign of L - k when f > 0, of k - L otherwise
            kk = k if f > 0 else -k
            if hi < kk or (not strict and hi == kk):
                return TRUE
            if lo > kk or (strict and lo == kk):
                return FALSE
    neg = f < 0
    st = strict
    if neg:
        st = not strict  # L' > k  == !(L' <= k)
    if _allint(L):
        # L<k  -> L < ceil(k) ;  L<=k -> L < floor(k)+1
        kk = Fraction(math.ceil(k)) if st else Fraction(math.floor(k) + 1)
        n = FALSE if kk <= 0 and _nnp(L) else bcond(mkc('thr', L, kk, 0))
    else:
        single = len(L.d) == 1
        n = bcond(mkc('thr', L, k, 0 if (st or not single) else 1))
    return bnot(n) if neg else n


def lt(a, b):
    return apply('lt', lambda x, y: _cmp('<', x, y), a, b)


def le(a, b):
    return apply('le', lambda x, y: _cmp('<=', x, y), a, b)


def _cmp(op, x, y):
    if isinstance(x, P) and isinstance(y, P):
        return _lt_p(x, y, op == '<')
    if isinstance(x, Ref) and isinstance(y, Ref) and len(x.loc) == len(y.loc) and x.loc[:-1] == y.loc[:-1] \
            and isinstance(x.loc[-1], P) and isinstance(y.loc[-1], P):
        return _lt_p(x.loc[-1], y.loc[-1], op == '<')
    return bcond(mkc('b', atom('cmp', (op, x, y), 'b')))


def _eq_v(x, y):
    if x is y:
        return TRUE
    if isinstance(x, P) and isinstance(y, P):
        d = padd(x, y, -1)
        c = d.const()
        if c is not None:
            return TRUE if c == 0 else FALSE
        k0 = d.d.get((), Fraction(0))
        L = mkp({m: z for m, z in d.d.items() if m})
        f, L = _prim(L)
        if _allint(L):
            k = -k0 / f
            if k.denominator != 1:
                return FALSE
            if k < 0 and _nnp(L):
                return FALSE
            rg = _rem_range(L)
            if rg is not None and not rg[0] <= k <= rg[1]:
                return FALSE
            return band(TRUE if rg and k == rg[1] else bcond(mkc('thr', L, k + 1, 0)),
                        TRUE if k <= 0 and _nnp(L) or rg and k == rg[0] else bnot(bcond(mkc('thr', L, k, 0))))
        return bcond(mkc('eq', padd(L, pc(-k0 / f), -1)))
    if isinstance(x, Ref) and isinstance(y, Ref) and len(x.loc) == len(y.loc) and x.loc[:-1] == y.loc[:-1] \
            and isinstance(x.loc[-1], P) and isinstance(y.loc[-1], P):
        return _eq_v(x.loc[-1], y.loc[-1])
    if isinstance(x, Ref) and isinstance(y, Ref):
        return FALSE if x.loc != y.loc else TRUE
    if isinstance(x, S) and isinstance(y, S) and x.text() is not None and y.text() is not None:
        return FALSE
    if isinstance(x, P) or isinstance(y, P):
        z = y if isinstance(x, P) else x
        w = x if isinstance(x, P) else y
        if isinstance(z, Ref) and w is P0:
            return _eq_v(z, NULL)
    if isinstance(x, Ref) and y is NULL or isinstance(y, Ref) and x is NULL:
        r = x if isinstance(x, Ref) else y
        b = r.loc[0]
        if isinstance(b, tuple) and b and b[0] == 'D':
            return bcond(mkc('b', atom('isnull', (r,), 'b')))
        return FALSE
    k = sorted((repr(type(x)) + show(leaf(x)), repr(type(y)) + show(leaf(y))))
    return bcond(mkc('b', atom('eq', (x, y) if k[0].startswith(repr(type(x))) else (y, x), 'b')))


def eq(a, b):
    return apply('eq', _eq_v, a, b)


def truth(n):
    """boolean of a value"""
    return apply('truth', _truth_v, n)


def _truth_v(v):
    if isinstance(v, P):
        c = v.const()
        if c is not None:
            return TRUE if c != 0 else FALSE
        return bnot(_eq_v(v, P0))
    if v is NULL:
        return FALSE
    if isinstance(v, Ref):
        return bnot(_eq_v(v, NULL))
    return bcond(mkc('b', atom('true', (v,), 'b')))


def boolatom(a):
    return bcond(mkc('b', a))


def _num(x):
    if not isinstance(x, P):
        raise Undecided('arithmetic on %s' % (x,))
    return x


def add(a, b):
    return apply('+', lambda x, y: _add(x, y), a, b)


def _add(x, y):
    if isinstance(x, P) and isinstance(y, P):
        return padd(x, y)
    if isinstance(x, S) and isinstance(y, S):
        return S(x.parts + y.parts)
    if isinstance(x, Ref) and isinstance(y, P):
        return ref_add(x, y)
    if isinstance(y, Ref) and isinstance(x, P):
        return ref_add(y, x)
    raise Undecided('add %s %s' % (x, y))


def ref_add(r, p):
    if p is P0:
        return r
    if len(r.loc) > 1 and isinstance(r.loc[-1], P):
        return Ref(r.loc[:-1] + (padd(r.loc[-1], p),))
    raise Undecided('pointer arithmetic')


def sub(a, b):
    return apply('-', _sub, a, b)


def _sub(x, y):
    if isinstance(x, P) and isinstance(y, P):
        return padd(x, y, -1)
    if isinstance(x, Ref) and isinstance(y, P):
        return ref_add(x, pscale(y, -1))
    if isinstance(x, Ref) and isinstance(y, Ref):
        if x.loc[:-1] == y.loc[:-1] and isinstance(x.loc[-1], P) and isinstance(y.loc[-1], P):
            return padd(x.loc[-1], y.loc[-1], -1)
    raise Undecided('sub')


def mul(a, b):
    return apply('*', lambda x, y: pmul(_num(x), _num(y)), a, b)


def neg(a):
    return apply('neg', lambda x: pscale(_num(x), -1), a)


def div(a, b):
    return apply('/', lambda x, y: pmul(_num(x), pinv(_num(y))), a, b)


def inv(a):
    return div(TRUE, a)


def isint(p):
    return isinstance(p, P) and _allint_with_const(p)


def _allint_with_const(p):
    for m, c in p.d.items():
        if c.denominator != 1:
            return False
        for a, e in m:
            if _alist[a].typ not in ('i', 'b') or e < 0:
                return False
    return True


# ------------------------------------------------------------------ bits of unsigned values
WID = {}        # atom id -> number of bits of an unsigned value


def oneatom(x):
    """the atom if x is just one"""
    if len(x.d) == 1:
        (m, c), = x.d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return _alist[m[0][0]]
    return None


def bits(x):
    """{position: 1 or (atom, bit number)} of a non-negative integer with known bits, None if unknown"""
    r = {}
    for m, c in x.d.items():
        if c.denominator != 1 or c < 0:
            return None
        c = int(c)
        if not m:
            part = {i: 1 for i in range(c.bit_length()) if c >> i & 1}
        else:
            if len(m) != 1 or m[0][1] != 1 or c & (c - 1):
                return None
            A, s = _alist[m[0][0]], c.bit_length() - 1
            if A.name == 'bit':
                part = {s: A.args}
            elif A.id in WID:
                part = {s + i: (pa(A), i) for i in range(WID[A.id])}
            else:
                return None
        if any(i in r for i in part):
            return None
        r.update(part)
    return r


def frombits(r):
    d = {}
    full = {}
    for i, b in r.items():
        if b != 1:
            full.setdefault((b[0].id, i - b[1]), []).append(i)
    for (p, s), at in full.items():
        x = next(r[i][0] for i in at)
        A = _alist[next(iter(x.d))[0][0]]
        if len(at) == WID.get(A.id) and s >= 0:
            d[((A.id, 1),)] = d.get(((A.id, 1),), 0) + Fraction(1 << s)
            continue
        for i in at:
            a = atom('bit', r[i], 'i')
            d[((a.id, 1),)] = d.get(((a.id, 1),), 0) + Fraction(1 << i)
    c = sum(1 << i for i, b in r.items() if b == 1)
    if c:
        d[()] = Fraction(c)
    return mkp(d)


def bitop_v(op, x, y):
    """P of x op y where the bits are known, else None"""
    a = bits(x)
    if a is None:
        return None
    if op in ('<<', '>>'):
        k = y.const()
        if k is None or k.denominator != 1 or not 0 <= k < 64:
            return None
        k = int(k) if op == '<<' else -int(k)
        return frombits({i + k: b for i, b in a.items() if i + k >= 0})
    b = bits(y)
    if b is None:
        return None
    r = {}
    for i in set(a) | set(b):
        u, v = a.get(i), b.get(i)
        if op == '&':
            if u is None or v is None:
                continue
            if u == 1 or v == 1 or u == v:
                r[i] = v if u == 1 else u
                continue
        elif op in ('|', '^'):
            if u is None or v is None:
                r[i] = u or v
                continue
            if op == '|' and (u == 1 or v == 1 or u == v):
                r[i] = 1 if u == 1 or v == 1 else u
                continue
            if op == '^' and u == v:
                continue
        return None
    return frombits(r)


def lowbits(v, w):
    """v converted to an unsigned type of w bits"""
    def f(x):
        if not isinstance(x, P):
            return leaf(x)
        c = x.const()
        if c is not None and c.denominator == 1:
            return leaf(pc(int(c) % (1 << w)))
        b = bits(x)
        return leaf(x if b is None else frombits({i: y for i, y in b.items() if i < w}))
    return mapleaves(v, f)


def _pow2(c):
    return c is not None and c.denominator == 1 and c > 1 and int(c) & (int(c) - 1) == 0


def idiv(a, b):
    def f(x, y):
        x, y = _num(x), _num(y)
        cx, cy = x.const(), y.const()
        if _pow2(cy) and WID and cx is None:
            r = bitop_v('>>', x, pc(int(cy).bit_length() - 1))
            if r is not None:
                return r
        if cx is not None and cy:
            q = abs(cx) // abs(cy)
            return pc(q if (cx >= 0) == (cy > 0) else -q)
        if cy and cy != 0:
            z = pscale(x, 1 / cy)
            if _allint_with_const(z):
                return z
        return pa(atom('idiv', (x, y), 'i'))
    return apply('idiv', f, a, b)


def imod(a, b):
    def f(x, y):
        x, y = _num(x), _num(y)
        cx, cy = x.const(), y.const()
        if _pow2(cy) and WID and cx is None:
            r = bitop_v('&', x, pc(int(cy) - 1))
            if r is not None:
                return r
        if cx is not None and cy:
            r = abs(cx) % abs(cy)
            return pc(r if cx >= 0 else -r)
        if cy and _allint_with_const(pscale(x, 1 / cy)):
            return P0
        if any(_alist[z].name in ('it', 'bv', 'ix', 'phi') for m in x.d for z, _ in m):
            return pa(atom('imod', (x, y), 'i'))
        # the remainder in terms of the quotient
        return padd(x, pmul(y, pa(atom('idiv', (x, y), 'i'))), -1)
    return apply('imod', f, a, b)


def _sqrt_v(x):
    x = _num(x)
    c = x.const()
    if c is not None:
        r = isqrt_frac(c)
        if r is not None:
            return leaf(pc(r))
        return leaf(pa(atom('sqrt', (x,))))
    # factor the rational content
    f, prim = _prim(x) if len(x.d) > 1 else (Fraction(1), x)
    if len(x.d) == 1:
        (m, co), = x.d.items()
        # even powers come out as absolute values
        out = TRUE
        rest = []
        for a, e in m:
            h = e // 2
            if _alist[a].name in ('sqrt', 'inv'):
                h = 0 if _alist[a].name == 'sqrt' else e // 2
            if h:
                t = leaf(mkp({((a, h),): Fraction(1)}))
                if h % 2:
                    t = fabs_(t)
                out = mul(out, t)
            if e - 2 * h:
                rest.append((a, e - 2 * h))
        r = isqrt_frac(co)
        if r is not None:
            k, co = r, Fraction(1)
        else:
            k = Fraction(1)
        inner = mkp({tuple(rest): co})
        if inner is P1:
            return mul(out, leaf(pc(k)))
        return mul(mul(out, leaf(pc(k))), leaf(pa(atom('sqrt', (inner,)))))
    f = abs(f)
    r = isqrt_frac(f)
    if r is not None:
        return leaf(pscale(pa(atom('sqrt', (pscale(x, 1 / f),))), r))
    return leaf(pa(atom('sqrt', (x,))))


def sqrt_(a):
    return apply('sqrt', _sqrt_v, a)


def fabs_(a):
    return apply('abs', lambda x: ite(_lt_p(_num(x), P0), leaf(pscale(x, -1)), leaf(x)), a)


def min_(a, b):
    return apply('min', lambda x, y: ite(_lt_p(_num(y), _num(x)), leaf(y), leaf(x)), a, b)


def max_(a, b):
    return apply('max', lambda x, y: ite(_lt_p(_num(x), _num(y)), leaf(y), leaf(x)), a, b)


def fn(name, *args, typ='r'):
    """uninterpreted function, applied leafwise"""
    def f(*vs):
        return leaf(pa(atom(name, vs, typ)))
    return apply('fn:' + name + typ, f, *args)


def odd(name, a):
    def f(x):
        x = _num(x)
        if x is P0:
            return leaf(P0)
        if _lead(x)[1] < 0:
            return leaf(pscale(pa(atom(name, (pscale(x, -1),))), -1))
        return leaf(pa(atom(name, (x,))))
    return apply('odd:' + name, f, a)


def even(name, a):
    def f(x):
        x = _num(x)
        if x is P0 and name == 'cos':
            return leaf(P1)
        if x.d and _lead(x)[1] < 0:
            x = pscale(x, -1)
        return leaf(pa(atom(name, (x,))))
    return apply('even:' + name, f, a)


def pow_(a, b):
    def f(x, y):
        x, y = _num(x), _num(y)
        c = y.const()
        if c is not None and c.denominator == 1 and abs(c) <= 12:
            return leaf(ppow(x, int(c)))
        if c is not None and c.denominator == 2 and abs(c) <= 6:
            s = _sqrt_v(x)
            return apply('pw%d' % c.numerator, lambda z: ppow(z, int(c.numerator)), s)
        return leaf(pa(atom('pow', (x, y))))
    return apply('pow', f, a, b)


def num(x):
    return leaf(pc(Fraction(x)))


def toint(a):
    """C conversion of a real value to an integer type"""
    def f(x):
        x = _num(x)
        c = x.const()
        if c is not None:
            return leaf(pc(int(c)))
        if _allint_with_const(x):
            return leaf(x)
        return leaf(pa(atom('trunc', (x,), 'i')))
    return apply('toint', f, a)


# --------------------------------------------------------------------------- leaves / traversal
def leaves(n, g=TRUE):
    """list of (leaf value, guard)"""
    out = {}

    def rec(m, path):
        if m.c is None:
            out.setdefault(m.v, []).append(path)
            return
        rec(m.hi, path + ((m.c, True),))
        rec(m.lo, path + ((m.c, False),))
    rec(n, ())
    res = []
    for v, paths in out.items():
        gg = FALSE
        for p in paths:
            t = TRUE
            for c, val in p:
                b = bcond(c)
                t = band(t, b if val else bnot(b))
            gg = bor(gg, t)
        res.append((v, gg))
    return res


def leafset(n):
    seen = set()
    out = []

    def rec(m):
        if m.id in seen:
            return
        seen.add(m.id)
        if m.c is None:
            out.append(m.v)
        else:
            rec(m.hi)
            rec(m.lo)
    rec(n)
    return out


def mapleaves(n, f):
    """f: leaf value -> N, not memoised globally"""
    memo = {}

    def rec(m):
        r = memo.get(m.id)
        if r is None:
            if m.c is None:
                r = f(m.v)
            else:
                r = iteC(m.c, rec(m.hi), rec(m.lo))
            memo[m.id] = r
        return r
    return rec(n)


# --------------------------------------------------------------------------- substitution
_submemo = {}


def subst(x, at, val):
    """replace the free atom `at` by the value val (N with numeric leaves) in an N"""
    if at.id not in x.free:
        return x
    if val.c is not None:
        return mapleaves(val, lambda v: subst(x, at, leaf(v)))
    key = (x.id, at.id, val.id)
    r = _submemo.get(key)
    if r is not None:
        return r
    if x.c is not None:
        hi, lo = subst(x.hi, at, val), subst(x.lo, at, val)
        c = x.c
        if at.id in c.free:
            b = _subst_c(c, at, val)
            r = ite(b, hi, lo)
        else:
            r = iteC(c, hi, lo)
    else:
        r = _subst_v(x.v, at, val)
    _submemo[key] = r
    return r


def _subst_c(c, at, val):
    if c.kind == 'b':
        r = _subst_a(c.L, at, val)
        if r.c is None and isinstance(r.v, P):
            # an opaque boolean atom rebuilt as a number
            if len(r.v.d) == 1:
                (m, co), = r.v.d.items()
                if co == 1 and len(m) == 1 and m[0][1] == 1:
                    return boolatom(_alist[m[0][0]])
        return truth(r)
    L = _subst_v(c.L, at, val)
    if c.kind == 'eq':
        return eq(L, FALSE)
    return lt(L, leaf(pc(c.k))) if c.ns == 0 else le(L, leaf(pc(c.k)))


def _subst_v(v, at, val):
    if isinstance(v, P):
        r = FALSE
        for m, co in v.d.items():
            t = leaf(pc(co))
            for a, e in m:
                A = _alist[a]
                if at.id in A.free:
                    b = _subst_a(A, at, val)
                    if e == 1:
                        t = mul(t, b)
                    else:
                        t = mul(t, apply('ppow%d' % e, lambda z: ppow(_num(z), e), b))
                else:
                    t = mul(t, leaf(mkp({((a, e),): Fraction(1)})))
            r = add(r, t)
        return r
    if isinstance(v, Ref):
        return leaf(Ref(_subst_loc(v.loc, at, val)))
    if isinstance(v, S):
        out = []
        for p in v.parts:
            if p[0] == 'n' and isinstance(p[1], N):
                out.append(('n', subst(p[1], at, val)))
            else:
                out.append(p)
        return leaf(S(tuple(out)))
    if isinstance(v, Ob):
        return leaf(Ob(*_subst_loc(v.key, at, val)))
    return leaf(v)


def _subst_loc(x, at, val):
    if isinstance(x, tuple):
        return tuple(_subst_loc(y, at, val) for y in x)
    if isinstance(x, P):
        if at.id in x.free:
            n = _subst_v(x, at, val)
            if n.c is not None:
                raise Undecided('index becomes conditional '+str(n)[:300])
            return n.v
        return x
    if isinstance(x, N):
        return subst(x, at, val)
    if isinstance(x, Ref):
        return Ref(_subst_loc(x.loc, at, val))
    if isinstance(x, Ob):
        return Ob(*_subst_loc(x.key, at, val))
    if isinstance(x, S):
        return S(tuple((k, _subst_loc(y, at, val) if k == 'n' else y) for k, y in x.parts))
    return x


def _subst_a(A, at, val):
    if A is at:
        return val
    n, args = A.name, A.args
    if n == 'sqrt':
        return sqrt_(_subst_v(args[0], at, val))
    if n == 'inv':
        return inv(_subst_v(args[0], at, val))
    if n in ('sin',):
        return odd(n, _subst_v(args[0], at, val))
    if n in ('cos',):
        return even(n, _subst_v(args[0], at, val))
    if n == 'trunc':
        return toint(_subst_v(args[0], at, val))
    if n == 'idiv':
        return idiv(_subst_v(args[0], at, val), _subst_v(args[1], at, val))
    if n == 'imod':
        return imod(_subst_v(args[0], at, val), _subst_v(args[1], at, val))
    if n == 'sum':
        return reopen(A, at, val)
    if n in ('fold', 'app', 'lam', 'rep'):
        return reopen(A, at, val)
    if n == 'wr':
        return leaf(pa(atom(n, (subst(args[0], at, val), tuple(subst(x, at, val) for x in args[1]), subst(args[2], at, val)), A.typ)))
    if n == 'rd':
        B = atom(n, _subst_loc(args, at, val), A.typ)
        if A.id in WID:
            WID[B.id] = WID[A.id]
        if _nnm.get(A.id):
            _nnm[B.id] = True
        return leaf(pa(B))
    if n == 'bit':
        def bit(x):
            b = bits(x) if isinstance(x, P) else None
            if b is None:
                return leaf(pa(atom('bit', (x, args[1]), 'i')))
            b = b.get(args[1])
            return leaf(P0 if b is None else P1 if b == 1 else pa(atom('bit', b, 'i')))
        return mapleaves(_subst_v(args[0], at, val), bit)
    return leaf(pa(atom(n, tuple(_subst_arg(x, at, val) for x in args), A.typ)))


def _subst_arg(x, at, val):
    if isinstance(x, P):
        r = _subst_v(x, at, val) if at.id in x.free else leaf(x)
        if r.c is not None:
            raise Undecided('conditional argument')
        return r.v
    if isinstance(x, N):
        return subst(x, at, val)
    return _subst_loc(x, at, val)


# --------------------------------------------------------------------------- binders
_itn = [0]


def fresh_it(tag='', typ='i'):
    _itn[0] += 1
    return atom('it', (tag, _itn[0]), typ)


def fresh_phi(tag, typ='r'):
    _itn[0] += 1
    return atom('phi', (tag, _itn[0]), typ)


def has(x, at):
    return at.id in x.free


def close(body, it):
    """rename the free variable `it` to the canonical bound variable of this body"""
    h = height(body) + 1
    for _ in range(6):
        r = subst(body, it, leaf(pa(atom('bv', (h,), it.typ))))
        k = height(r) + 1
        if k == h:
            break
        h = k
    else:
        h = max(h, body.bh + 1)
        r = subst(body, it, leaf(pa(atom('bv', (h,), it.typ))))
    return r, h


_ht = {}
_fb = {}


def freebv(x):
    """sorted numbers of the bound variables of enclosing binders that occur in x"""
    if isinstance(x, (N, Atom)):
        if not x.bh:
            return ()
        k = x.id if isinstance(x, N) else ('a', x.id)
        r = _fb.get(k)
        if r is None:
            if isinstance(x, Atom):
                if x.name == 'bv':
                    r = (x.args[0],)
                elif x.name in ('sum', 'fold', 'lam', 'app', 'rep'):
                    s = set()
                    for y in x.args[2:]:
                        s.update(freebv(y))
                    s.discard(x.args[1])
                    s.update(freebv(x.args[0]))
                    r = tuple(sorted(s))
                else:
                    r = freebv(x.args)
            elif x.c is not None:
                r = tuple(sorted(set(freebv(x.c.L) + freebv(x.hi) + freebv(x.lo))))
            else:
                r = freebv(x.v)
            _fb[k] = r
        return r
    if isinstance(x, P):
        return tuple(sorted({b for m in x.d for a, _ in m for b in freebv(_alist[a])})) if x.bh else ()
    if isinstance(x, Ref):
        return freebv(x.loc)
    if isinstance(x, Ob):
        return freebv(x.key)
    if isinstance(x, S):
        return freebv(tuple(y for k, y in x.parts if k == 'n'))
    if isinstance(x, tuple):
        return tuple(sorted({b for y in x for b in freebv(y)}))
    if isinstance(x, C):
        return freebv(x.L)
    return ()


def height(x):
    """greatest binder number inside x (0: no binder); bound variables of enclosing binders do not count"""
    if isinstance(x, N):
        if not x.bh:
            return 0
        r = _ht.get(x.id)
        if r is None:
            if x.c is not None:
                r = max(height(x.hi), height(x.lo), height(x.c.L))
            else:
                r = height(x.v)
            _ht[x.id] = r
        return r
    if isinstance(x, P):
        return max((height(_alist[a]) for m in x.d for a, _ in m), default=0) if x.bh else 0
    if isinstance(x, Atom):
        if not x.bh or x.name == 'bv':
            return 0
        k = ('a', x.id)
        r = _ht.get(k)
        if r is None:
            r = max((height(y) for y in x.args), default=0)
            if x.name in ('sum', 'fold', 'lam', 'app', 'rep'):
                r = max(r, x.args[1])
            _ht[k] = r
        return r
    if isinstance(x, Ref):
        return height(x.loc)
    if isinstance(x, Ob):
        return height(x.key)
    if isinstance(x, S):
        return max((height(y) for k, y in x.parts if k == 'n'), default=0)
    if isinstance(x, tuple):
        return max((height(y) for y in x), default=0)
    if isinstance(x, C):
        return height(x.L)
    return 0


def open_(body, h, typ, it):
    """inverse of close: rename bv h to `it` (bv atoms are matched by identity)"""
    bv = atom('bv', (h,), typ)
    return rename(body, bv, it)


_ren = {}


def rename(x, a, b):
    """rename atom a (possibly bound: not in free sets) to b everywhere at this binding level"""
    key = (x.id, a.id, b.id)
    r = _ren.get(key)
    if r is not None:
        return r
    if x.bh < a.bh and x.c is None and not isinstance(x.v, P):
        r = x
    elif x.c is not None:
        hi, lo = rename(x.hi, a, b), rename(x.lo, a, b)
        c = x.c
        if c.kind == 'b':
            bb = boolatom(_ren_atom(c.L, a, b))
        else:
            L = _ren_p(c.L, a, b)
            if c.kind == 'eq':
                bb = eq(leaf(L), FALSE)
            else:
                bb = lt(leaf(L), leaf(pc(c.k))) if c.ns == 0 else le(leaf(L), leaf(pc(c.k)))
        r = ite(bb, hi, lo)
    else:
        v = x.v
        r = leaf(_ren_any(v, a, b))
    _ren[key] = r
    return r


def _ren_any(v, a, b):
    if isinstance(v, P):
        return _ren_p(v, a, b)
    if isinstance(v, N):
        return rename(v, a, b)
    if isinstance(v, tuple):
        return tuple(_ren_any(y, a, b) for y in v)
    if isinstance(v, Ref):
        return Ref(_ren_any(v.loc, a, b))
    if isinstance(v, Ob):
        return Ob(*_ren_any(v.key, a, b))
    if isinstance(v, S):
        return S(tuple((k, _ren_any(y, a, b)) if k == 'n' else (k, y) for k, y in v.parts))
    return v


def _ren_p(p, a, b):
    if p.bh < a.bh:
        return p
    r = P0
    for m, co in p.d.items():
        t = pc(co)
        for i, e in m:
            A = _ren_atom(_alist[i], a, b)
            t = pmul(t, mkp({((A.id, e),): Fraction(1)}))
        r = padd(r, t)
    return r


def _ren_atom(A, a, b):
    if A is a:
        return b
    if A.bh < a.bh:
        return A
    if A.name in ('sum', 'fold', 'app', 'lam', 'rep') and A.args[1] == a.args[0]:
        return A  # rebinds the same name: shadowed
    if A.name == 'bv':
        return A
    return atom(A.name, tuple(_ren_any(x, a, b) for x in A.args), A.typ)


# sum: atom('sum', (T, h, body)); fold: ('fold', (T, h, kind, body, init, extra)); app: ('app', (0, h, op, body, idx))
def reopen(A, at, val):
    it = fresh_it('r', 'i')
    if A.name == 'sum':
        T, h, body = A.args
        b = open_(body, h, 'i', it)
        return sum_(subst(leaf(T), at, val), it, subst(b, at, val))
    if A.name == 'fold':
        T, h, kind, body, init = A.args
        b = open_(body, h, 'i', it)
        return fold_(subst(leaf(T), at, val), it, kind, subst(b, at, val), subst(init, at, val))
    if A.name == 'app':
        o, h, op, body, idx = A.args
        b = open_(body, h, 'i', it)
        return app_(op, it, subst(b, at, val), subst(idx, at, val))
    if A.name == 'rep':
        T, h, body = A.args
        b = open_(body, h, 'i', it)
        return leaf(pa(rep_(subst(T, at, val), it, subst(b, at, val))))
    raise Undecided('reopen ' + A.name)


# contents of an array filled at addresses that cannot be solved for the iteration:
# wr(guard, index, value) one store, rep(T, h, seq) a loop over stores, mem(stores, index, before) the element read
def seq_(items):
    return leaf(Ob('seq', *[pa(x) for x in items]))


def wr_(g, idx, val):
    return atom('wr', (g, tuple(idx), val), 'o')


def rep_(T, it, body):
    b, h = close(body, it)
    return atom('rep', (T, h, b), 'o')


def mem_(items, idx, before, typ):
    return atom('mem', (seq_(items), tuple(idx), before), typ)


def sum_(T, it, body):
    """Sum_{it=0}^{T-1} body"""
    if T.c is not None:
        return mapleaves(T, lambda t: sum_(leaf(t), it, body))
    t = _num(T.v)
    c = t.const()
    if c is not None and c <= 0:
        return FALSE
    if c is not None and c <= 64:
        r = FALSE
        for j in range(int(c)):
            r = add(r, subst(body, it, num(j)))
        return r
    k = t.d.get((), Fraction(0))
    if k and c is None:
        t0 = padd(t, pc(k), -1)
        r = sum_(leaf(t0), it, body)
        if k.denominator != 1 or abs(k) > 8:
            raise Undecided('sum bound')
        if k > 0:
            for j in range(int(k)):
                r = add(r, subst(body, it, leaf(padd(t0, pc(j)))))
        else:
            for j in range(1, int(-k) + 1):
                r = sub(r, subst(body, it, leaf(padd(t0, pc(-j)))))
        return r
    if not has(body, it):
        return mul(leaf(t), body)
    # hoist tests not depending on it
    n = body

    def rec(n):
        if n.c is not None:
            if it.id not in n.c.free:
                return iteC(n.c, rec(n.hi), rec(n.lo))
            # dependent test: hoist invariant tests below
            for c in _conds(n):
                if it.id not in c.free:
                    return iteC(c, rec(_cofall(n, c, True)), rec(_cofall(n, c, False)))
            return _sumnode(t, it, n)
        r = FALSE
        p = _num(n.v)
        for m, co in p.d.items():
            ins, outs = [], []
            for a, e in m:
                (ins if it.id in _alist[a].free else outs).append((a, e))
            f = leaf(mkp({tuple(outs): co}))
            if ins:
                r = add(r, mul(f, _sumnode(t, it, leaf(mkp({tuple(ins): Fraction(1)})))))
            else:
                r = add(r, mul(f, leaf(t)))
        return r
    return rec(n)


def _conds(n):
    seen, out = set(), []

    def rec(m):
        if m.id in seen or m.c is None:
            return
        seen.add(m.id)
        out.append(m.c)
        rec(m.hi)
        rec(m.lo)
    rec(n)
    return sorted(set(out), key=lambda c: c.key)


def _cofall(n, c, val):
    return restrict(n, bcond(c) if val else bnot(bcond(c)))


def _sumnode(t, it, body):
    b, h = close(body, it)
    typ = 'i' if all(isint(v) for v in leafset(body)) else 'r'
    return leaf(pa(atom('sum', (t, h, b), typ)))


def fold_(T, it, kind, body, init):
    """generic fold; kind in ('min','max','any','all', or opaque tag)"""
    if T.c is not None:
        return mapleaves(T, lambda t: fold_(leaf(t), it, kind, body, init))
    c = _num(T.v).const()
    if c is not None and c <= 0:
        return init
    b, h = close(body, it)
    a = atom('fold', (T.v, h, kind, b, init), 'b' if kind in ('any', 'all') else 'i' if kind == 'mu' else 'r')
    if kind in ('any', 'all'):
        return boolatom(a)
    return leaf(pa(a))


def mu_(it, body):
    """the least iteration number for which body (a condition) is false"""
    if body.c is not None and it.id in body.free and subst(body, it, FALSE) is TRUE:
        n = restrict(subst(body, it, add(leaf(pa(it)), TRUE)), le(FALSE, leaf(pa(it))))
        return add(TRUE, mu_(it, n))
    return fold_(TRUE, it, 'mu', body, FALSE)


def app_(op, it, body, idx):
    """(linear operator op applied to the vector lam it. body)[idx], distributed over sums"""
    n = body
    if n.c is None:
        p = _num(n.v)
        r = FALSE
        ok = True
        for m, co in p.d.items():
            ins, outs = [], []
            for a, e in m:
                (ins if it.id in _alist[a].free else outs).append((a, e))
            f = leaf(mkp({tuple(outs): co}))
            inner = leaf(mkp({tuple(ins): Fraction(1)}))
            r = add(r, mul(f, _appnode(op, it, inner, idx)))
        return r
    for c in _conds(n):
        if it.id not in c.free:
            return iteC(c, app_(op, it, _cofall(n, c, True), idx), app_(op, it, _cofall(n, c, False), idx))
    return _appnode(op, it, n, idx)


def _appnode(op, it, body, idx):
    b, h = close(body, it)
    def f(i):
        return leaf(pa(atom('app', (0, h, op, b, leaf(i)), 'r')))
    return mapleaves(idx, f)


# --------------------------------------------------------------------------- printing
def show_atom(a):
    n = a.name
    if n == 'rd':
        return show_loc(a.args)
    if n == 'it':
        return '%s%s' % (a.args[0] or 'i', '')
    if n == 'bv':
        return 'b%d' % a.args[0]
    if n == 'sum':
        return 'SUM[b%d<%s](%s)' % (a.args[1], a.args[0], a.args[2])
    if n == 'fold':
        return 'FOLD:%s[b%d<%s](%s; init %s)' % (a.args[2], a.args[1], a.args[0], a.args[3], a.args[4])
    if n == 'app':
        return '(%s * (b%d->%s))[%s]' % (a.args[2], a.args[1], a.args[3], a.args[4])
    if n == 'wr':
        return '{%s: %s:=%s}' % (a.args[0], list(a.args[1]), a.args[2])
    if n == 'rep':
        return 'FOR[b%d<%s]%s' % (a.args[1], a.args[0], a.args[2])
    if n == 'mem':
        return 'MEM(%s; %s)%s' % (a.args[0], a.args[2], list(a.args[1]))
    return '%s(%s)' % (n, ','.join(show_any(x) for x in a.args))


def show_any(x):
    if isinstance(x, tuple):
        return show_loc(x)
    return str(x)


def show_loc(l):
    out = ''
    for i, c in enumerate(l):
        if isinstance(c, P):
            out += '[%s]' % c
        elif isinstance(c, tuple):
            if c and c[0] == 'D':
                out += '*(' + show_loc(c[1]) + ')'
            else:
                out += '<' + ' '.join(show_any(y) for y in c) + '>'
        else:
            out += ('.' if i else '') + str(c)
    return out


def show_p(p):
    if not p.d:
        return '0'
    out = []
    for m, c in sorted(p.d.items(), key=lambda x: (len(x[0]), x[0])):
        s = '*'.join(show_atom(_alist[a]) + ('^%d' % e if e != 1 else '') for a, e in m)
        if not m:
            out.append(str(c))
        elif c == 1:
            out.append(s)
        elif c == -1:
            out.append('-' + s)
        else:
            out.append('%s*%s' % (c if c.denominator < 10**6 else float(c), s))
    r = ' + '.join(out).replace('+ -', '- ')
    return r if len(r) < 600 else r[:600] + '...'


def show_c(c):
    if c.kind == 'b':
        return show_atom(c.L)
    if c.kind == 'eq':
        return '%s == 0' % show_p(c.L)
    return '%s %s %s' % (show_p(c.L), '<=' if c.ns else '<', c.k)


_shown = {}


def show(n):
    if n.c is None:
        return str(n.v)
    r = _shown.get(n.id)
    if r is None:
        r = '(%s ? %s : %s)' % (n.c, n.hi, n.lo)
        r = _shown[n.id] = r if len(r) < 900 else r[:900] + '...'
    return r


# --------------------------------------------------------------------------- differencing valuations
class Env:
    """pseudo random valuation of atoms, used only to confirm that two different normal forms
    denote different functions (never to establish equality)"""

    def __init__(self, seed, hints=None):
        self.seed = seed
        self.bv = {}
        self.memo = {}
        self.hints = hints or {}
        self.strs = {}
        self.forced = {}    # values of applications chosen on purpose
        self.steps = 60000

    def h(self, *k):
        return int.from_bytes(hashlib.blake2b(repr((self.seed,) + k).encode(), digest_size=8).digest(), 'big')

    def rnd(self, typ, key):
        r = random.Random(self.h(typ, key))
        if typ == 'b':
            return r.randrange(2)
        if typ == 'i':
            if self.seed % 5 == 4:
                return r.choice([0, 1, 2, 3, 9, 10, 19, 49, 50, 99, 100, 133, 199, 200, 399, 400, 1000])
            return r.choice([0, 1, 2, 2, 3, 3, 4, 5, 7])
        x = r.random()
        if self.seed % 11 == 5:
            return float(r.choice([0, 0, 0, 1, 1, -1, 2]))      # coincidences: parallel, degenerate, touching
        if self.seed % 3 == 0:
            return r.uniform(0.05, 2.5)
        if x < 0.12:
            return float(r.choice([0, 0, 1, -1, 2]))
        return r.uniform(-2.5, 2.5) if self.seed % 3 == 1 else r.uniform(-0.5, 2.5)

    def key(self, x):
        if isinstance(x, P):
            return self.q(self.p(x))
        if isinstance(x, N):
            return self.q(self.n(x))
        if isinstance(x, Atom):
            return self.q(self.a(x))
        if isinstance(x, Ref):
            return ('R', self.key(x.loc))
        if isinstance(x, tuple):
            return tuple(self.key(y) for y in x)
        if isinstance(x, S):
            return ('S',) + tuple(p[1] if p[0] == 'l' else self.key(p[1]) for p in x.parts)
        return str(x)

    def q(self, v):
        if isinstance(v, float):
            return round(v, 9) + 0.0
        if isinstance(v, int):
            return round(float(v), 9) + 0.0
        return v if isinstance(v, tuple) else str(v)

    def a(self, A):
        n = A.name
        if n == 'bv':
            return self.bv.get(A.args[0], 0)
        f = freebv(A) if A.bh else None
        k = (A.id, tuple(self.bv.get(b, 0) for b in f)) if f else A.id
        r = self.memo.get(k)
        if r is not None:
            return r
        self.steps -= 1
        if self.steps < 0:
            raise ValueError('long evaluation')
        v = self.memo[k] = self._a(A)
        return v

    def _a(self, A):
        n, g = A.name, A.args
        if n == 'cut':
            return self.p(g[0])
        if n == 'streq' and not A.bh:
            # one string cannot equal two different constants
            for x, y in ((g[0], g[1]), (g[1], g[0])):
                if y.c is None and isinstance(y.v, S) and y.v.text() is not None:
                    had = self.strs.get(x.id)
                    if had is not None:
                        return int(had == y.v.text())
                    r = self.rnd('b', ('streq', x.id, y.v.text()))
                    if r:
                        self.strs[x.id] = y.v.text()
                    return r
        if n == 'sqrt':
            x = self.p(g[0])
            if x < -1e-12:
                raise ValueError('neg sqrt')
            return math.sqrt(max(x, 0.0))
        if n == 'inv':
            x = self.p(g[0])
            if abs(x) < 1e-12:
                raise ValueError('div')
            return 1.0 / x
        if n == 'sin':
            return math.sin(self.p(g[0]))
        if n == 'cos':
            return math.cos(self.p(g[0]))
        if n == 'pi':
            return math.pi
        if n == 'log':
            x = self.p(g[0])
            if x <= 0:
                raise ValueError('log')
            return math.log(x)
        if n == 'pow':
            x = self.p(g[0])
            if x <= 0:
                raise ValueError('pow')
            return x ** self.p(g[1])
        if n == 'bit':
            return int(self.p(g[0])) >> g[1] & 1
        if n == 'trunc':
            return int(self.p(g[0]))
        if n == 'floor':
            return math.floor(self.p(g[0]))
        if n == 'ceil':
            return math.ceil(self.p(g[0]))
        if n == 'round':
            x = self.p(g[0])
            return math.floor(x + 0.5) if x >= 0 else math.ceil(x - 0.5)
        if n == 'fmod':
            y = self.p(g[1])
            if y == 0:
                raise ValueError('fmod')
            return math.fmod(self.p(g[0]), y)
        if n in ('idiv', 'imod'):
            x, y = int(self.p(g[0])), int(self.p(g[1]))
            if y == 0:
                raise ValueError('idiv')
            q = abs(x) // abs(y)
            q = q if (x >= 0) == (y > 0) else -q
            return q if n == 'idiv' else x - q * y
        if n == 'sum':
            T = int(self.p(g[0]))
            s = 0
            old = self.bv.get(g[1])
            for i in self.trips(T):
                self.bv[g[1]] = i
                s += self.n(g[2])
            self.bv[g[1]] = old if old is not None else 0
            return s
        if n == 'fold' and g[2] in ('min', 'max', 'any', 'all'):
            T = int(self.p(g[0]))
            s = self.n(g[4])
            old = self.bv.get(g[1])
            for i in self.trips(T):
                self.bv[g[1]] = i
                b = self.n(g[3])
                s = min(s, b) if g[2] == 'min' else max(s, b) if g[2] == 'max' else \
                    (1 if s or b else 0) if g[2] == 'any' else (1 if s and b else 0)
            self.bv[g[1]] = old if old is not None else 0
            return s
        if n == 'fold' and g[2] == 'mu':
            old = self.bv.get(g[1])
            for i in range(64):
                self.bv[g[1]] = i
                if not self.n(g[3]):
                    break
            else:
                raise Undecided('long search')
            self.bv[g[1]] = old if old is not None else 0
            return i
        if n == 'app':
            # a linear functional: sum_j K(op,idx,j) body(j), j<4
            i = self.key(g[4])
            s = 0.0
            old = self.bv.get(g[1])
            for j in range(4):
                self.bv[g[1]] = j
                s += self.rnd('r', ('K', self.key(g[2]), i, j)) * self.n(g[3])
            self.bv[g[1]] = old if old is not None else 0
            return s
        if n == 'mem':
            d = None
            f = freebv(g[0])
            ck = ('mem', g[0].id, tuple(self.bv.get(b, 0) for b in f))
            d = self.memo.get(ck)
            if d is None:
                d = {}
                self.replay(g[0], d, [4000])
                self.memo[ck] = d
            v = d.get(tuple(self.q(self.n(x)) for x in g[1]))
            return self.n(g[2]) if v is None else v
        if n in ('srt', 'uni', 'unq'):
            f = freebv(g[0])
            ck = (n == 'srt', g[0].id, tuple(self.bv.get(b, 0) for b in f))
            c = self.memo.get(ck)
            if c is None:
                d = {}
                self.replay(g[0], d, [4000])
                c = [d[x] for x in sorted(d)]
                c = sorted(c) if n == 'srt' else [x for i, x in enumerate(c) if not i or c[i - 1] != x]
                self.memo[ck] = c
            if n == 'unq':
                return len(c)
            i = int(self.n(g[2]))
            return c[i] if 0 <= i < len(c) else 0
        if n in ('ord', 'uord'):
            f = freebv(g[0])
            ck = (n, g[0].id, tuple(self.bv.get(b, 0) for b in f))
            c = self.memo.get(ck)
            if c is None:
                d = {}
                self.replay(g[0], d, [4000])
                N_ = int(self.n(g[1]))
                at = lambda x, y: d.get((self.q(x), self.q(y)))
                c = sorted(range(N_) if n == 'ord' else reversed(range(N_)),
                           key=functools.cmp_to_key(lambda x, y: -1 if at(x, y) else 1 if at(y, x) else 0))
                self.memo[ck] = c
            i = int(self.n(g[2]))
            return c[i] if 0 <= i < len(c) else 0
        k = (n,) + tuple(self.key(x) for x in g)
        v = self.forced.get(k)
        if v is not None:
            return v
        if n == 'charat':
            t = self.n(g[0])
            t = t[1] if isinstance(t, tuple) and len(t) == 2 and t[0] == 'S' and isinstance(t[1], str) else None
            if t is not None:
                i = int(self.n(g[1]))
                if 0 <= i < len(t):
                    return ord(t[i])
            return random.Random(self.h(k)).choice([67, 67, 83, 83, 76, 76, 35, 46, 95, 47])
        nm = show_atom(A) if n == 'rd' else None
        for pat, fnv in self.hints.items():
            if nm is not None and pat in nm:
                return fnv(random.Random(self.h('hint', k)))
        if A.id in WID:
            return random.Random(self.h('y', k)).randrange(1 << WID[A.id])
        return self.rnd(A.typ, k)

    def replay(self, seq, d, fuel):
        for p in seq.v.key[1:]:
            A = _single(p)
            fuel[0] -= 1
            if fuel[0] < 0:
                raise ValueError('long loop')
            if A.name == 'wr':
                if self.n(A.args[0]):
                    d[tuple(self.q(self.n(x)) for x in A.args[1])] = self.n(A.args[2])
                continue
            T, h, body = A.args
            T = int(self.n(T))
            old = self.bv.get(h)
            for i in range(T):
                self.bv[h] = i
                self.replay(body, d, fuel)
            self.bv[h] = old if old is not None else 0

    def trips(self, T):
        T = int(T)
        if T > 64:
            raise ValueError('long loop')
        return range(max(0, T))

    def p(self, p):
        s = 0.0
        alli = True
        for m, c in p.d.items():
            if abs(c) > 10 ** 300:
                t = math.inf if c > 0 else -math.inf
            else:
                t = float(c) if c.denominator != 1 else int(c)
            for a, e in m:
                x = self.a(_alist[a])
                if not isinstance(x, (int, float)):
                    raise ValueError('nonnum')
                if e < 0:
                    if abs(x) < 1e-12:
                        raise ValueError('div')
                    t = t / (x ** -e)
                else:
                    t = t * (x ** e)
            s = s + t
        return s

    def c(self, c):
        if c.kind == 'b':
            return bool(self.a(c.L))
        x = self.p(c.L)
        if c.kind == 'eq':
            return abs(x) < 1e-12
        k = float(c.k)
        if abs(x - k) < 1e-11:
            return c.ns == 1
        return x < k

    def n(self, n):
        while n.c is not None:
            n = n.hi if self.c(n.c) else n.lo
        v = n.v
        if isinstance(v, P):
            return self.p(v)
        return self.key(v)


def differ1(a, b, guard, tries, hints, seed, D=None):
    t0 = time.time()
    for k in range(tries):
        if time.time() - t0 > 20:
            return None
        if D is not None:
            env = D() if callable(D) else guided(a, b, guard, k, hints, seed, D)
            if env is None:
                continue
        else:
            env = Env(seed * 100003 + k, hints)
        try:
            if not guard is TRUE and not env.n(guard):
                continue
            x, y = env.n(a), env.n(b)
        except (ValueError, OverflowError, ZeroDivisionError, Undecided):
            continue
        if isinstance(x, (int, float)) and isinstance(y, (int, float)):
            if math.isnan(x) or math.isnan(y) or (math.isinf(x) and math.isinf(y)):
                continue
            if math.isinf(x) != math.isinf(y) or abs(x - y) > 1e-6 * (1 + abs(x) + abs(y)):
                return env, x, y
        elif x != y:
            return env, x, y
    return None


def diffcond(a, b):
    """boolean normal form of 'a and b have different leaves'"""
    return apply('diff', lambda x, y: FALSE if x is y or (isinstance(x, P) and isinstance(y, P) and pzero(padd(x, y, -1))) else TRUE, a, b)


def _fixedloc(x):
    if isinstance(x, tuple):
        return all(_fixedloc(y) for y in x)
    if isinstance(x, P):
        return x.const() is not None
    if isinstance(x, N):
        return x.c is None and (isinstance(x.v, (S, Ob)) or _fixedloc(x.v))
    return not isinstance(x, (Ref, Atom))


_INTERPRETED = {'sqrt', 'inv', 'sin', 'cos', 'pi', 'log', 'pow', 'trunc', 'floor', 'ceil', 'round', 'fmod', 'idiv', 'imod', 'sum', 'fold',
                'app', 'cut', 'mem', 'srt', 'ord', 'uord', 'uni', 'unq', 'bv', 'streq', 'lam', 'rep', 'wr', 'seq'}


def guided(a, b, guard, k, hints, seed, D):
    """a valuation that follows one path of the condition D as far as single unknowns can be chosen"""
    env = Env(seed * 7001 + k, hints)
    rng = random.Random(seed * 31 + k)
    lim = {}
    n = D
    while n.c is not None:
        br = [(True, n.hi), (False, n.lo)]
        br = [x for x in br if x[1] is not FALSE]
        pol, m = rng.choice(br)
        c = n.c
        n = m
        if c.kind == 'b':
            A = c.L
            if A.bh:
                continue
            if A.name == 'streq' and pol:
                for x, y in ((A.args[0], A.args[1]), (A.args[1], A.args[0])):
                    if y.c is None and isinstance(y.v, S) and y.v.text() is not None:
                        if env.strs.setdefault(x.id, y.v.text()) != y.v.text():
                            return None
            if A.name in _INTERPRETED and A.name != 'streq':
                continue
            lim[A.id] = 1 if pol else 0
        elif c.kind == 'thr':
            mons = [x for x in c.L.d if x]
            if len(mons) != 1 or len(mons[0]) != 1 or mons[0][0][1] != 1:
                continue
            A = _alist[mons[0][0][0]]
            if A.bh or A.name in _INTERPRETED:
                continue
            co = c.L.d[mons[0]]
            v = (c.k - c.L.d.get((), Fraction(0))) / co
            strict = (c.ns == 0) == pol
            up = pol == (co > 0)
            lo, hi = lim.get(A.id, (None, None))
            if up:
                hi = min([x for x in (hi, (v, not strict)) if x is not None])
            else:
                lo = max([x for x in (lo, (v, strict)) if x is not None])
            lim[A.id] = (lo, hi)
    # arguments exist before the terms made of them: inner terms are chosen first
    for i in sorted(lim):
        A = _alist[i]
        if A.name == 'streq':
            env.memo[i] = lim[i]
            continue
        if isinstance(lim[i], tuple):
            lo, hi = lim[i]
            integer = A.typ == 'i'
            l = lo[0] if lo else None
            h = hi[0] if hi else None
            if integer:
                l = None if l is None else (math.floor(l) + 1 if lo[1] else math.ceil(l))
                h = None if h is None else (math.ceil(h) - 1 if not hi[1] else math.floor(h))
                if l is None:
                    l = min(0, h) if h >= 0 else h - 3
                if h is None:
                    h = l + rng.choice([0, 1, 2, 5])
                if l > h:
                    return None
                val = rng.randint(int(l), int(h))
            else:
                l = float(h) - 2 if l is None else float(l)
                h = l + 2 if h is None else float(h)
                val = l if l == h else rng.uniform(l, h)
            if not _inrange(A, val):
                return None
        else:
            val = lim[i]
        try:
            k = (A.name,) + tuple(env.key(x) for x in A.args)
        except (ValueError, OverflowError, ZeroDivisionError, Undecided):
            return None
        if env.forced.setdefault(k, val) != val:
            return None
    env.memo = {x: y for x, y in env.memo.items() if x in lim and _alist[x].name == 'streq'}
    return env


def differ(a, b, guard=TRUE, tries=400, hints=None, seed=1):
    """a valuation on which a and b differ (under guard), or None"""
    r = differ1(a, b, guard, tries, hints, seed)
    if r is not None:
        return r
    D = band(guard, diffcond(a, b))
    if D is FALSE:
        return None
    r = differ1(a, b, guard, tries, hints, seed, D)
    if r is not None:
        return r
    t0 = time.time()
    for k in range(tries // 4):
        if time.time() - t0 > 12:
            break
        try:
            env = descend(D, k, hints, seed)
            r = env and differ1(a, b, guard, 1, hints, seed, lambda: env)
        except (ValueError, OverflowError, ZeroDivisionError, Undecided):
            continue
        if r:
            return r
    return None


def _unknowns(x, out, seen):
    """the real and integer unknowns under the interpreted operations of x"""
    if isinstance(x, P):
        for m in x.d:
            for a, _ in m:
                _unknowns(_alist[a], out, seen)
    elif isinstance(x, N):
        for v in leafset(x):
            _unknowns(v, out, seen)
    elif isinstance(x, Atom) and x.id not in seen:
        seen.add(x.id)
        if x.name in _INTERPRETED:
            for y in x.args:
                _unknowns(y, out, seen)
        elif not x.bh and x.typ in ('r', 'i'):
            out.append(x)


def descend(D, k, hints, seed):
    """a valuation that follows one path of D, found by moving one unknown after the other to the limits of the unmet tests"""
    rng = random.Random(seed * 131 + k)
    tests = []
    bools = {}
    n = D
    while n.c is not None:
        br = [x for x in ((True, n.hi), (False, n.lo)) if x[1] is not FALSE]
        pol, m = rng.choice(br)
        c, n = n.c, m
        if c.kind == 'thr':
            us = []
            _unknowns(c.L, us, set())
            tests.append((c, pol, us))
        elif not c.L.bh and c.L.name not in _INTERPRETED:
            bools[c.L.id] = 1 if pol else 0
    start = Env(seed * 7919 + k, hints)
    forced = {}

    def fresh():
        e = Env(seed * 7919 + k, hints)
        e.forced = forced
        return e

    def keyof(e, A):
        return (A.name,) + tuple(e.key(x) for x in A.args)
    for i, v in bools.items():
        forced[keyof(start, _alist[i])] = v

    def gap(e, t):
        c, pol, _ = t
        x = e.p(c.L) - float(c.k)      # pol: x <= 0
        return x if pol else -x

    for step in range(150):
        e = fresh()
        bad = []
        for t in tests:
            g = gap(e, t)
            if g > 0 or (g == 0 and (t[0].ns == 0) == t[1]):
                bad.append((g, t))
        if not bad:
            return e
        g, t = rng.choice(bad)
        if not t[2]:
            return None
        A = rng.choice(t[2])
        ky = keyof(e, A)
        x0 = e.a(A)
        h = 1 if A.typ == 'i' else 1e-4 * (1 + abs(x0))
        forced[ky] = x0 + h
        g1 = gap(fresh(), t)
        sl = (g1 - g) / h
        if abs(sl) < 1e-9:
            x1 = x0 + (rng.uniform(-1, 1) if A.typ == 'r' else rng.choice((-1, 1)))
            forced[ky] = x1 if _inrange(A, x1) else x0
            continue
        dx = -g / sl
        dx += -math.copysign(10 ** rng.uniform(-6, 0), sl) * (1 if rng.random() < .8 else 0)
        if A.typ == 'i':
            x1 = int(math.floor(x0 + dx)) if dx < 0 else int(math.ceil(x0 + dx))
        else:
            x1 = x0 + dx
        forced[ky] = x1 if _inrange(A, x1) else x0
    return None


def _inrange(A, x):
    """a value that the unknown A can have"""
    if A.typ == 'i' and x < 0 and nonneg(A):
        return False
    return A.id not in WID or 0 <= x < 1 << WID[A.id]


def same(a, b):
    """normal form equality"""
    if a is b:
        return True
    d = _same(a, b)
    return d


_samememo = {}


def _same(a, b):
    if a is b:
        return True
    key = (a.id, b.id)
    r = _samememo.get(key)
    if r is not None:
        return r
    if a.c is None and b.c is None:
        if isinstance(a.v, P) and isinstance(b.v, P):
            r = pzero(padd(a.v, b.v, -1))
        else:
            r = False
    else:
        top = a.c if b.c is None or (a.c is not None and a.c.key < b.c.key) else b.c
        r = _same(cof(a, top, True), cof(b, top, True)) and _same(cof(a, top, False), cof(b, top, False))
    _samememo[key] = r
    return r


def implies(a, b):
    return band(a, bnot(b)) is FALSE


# ---------------------------------------------------------------- equality modulo affine order of the tests on a path
def _lin(L):
    """polynomial as (constant, {monomial: coefficient})"""
    return L.d.get((), Fraction(0)), {m: c for m, c in L.d.items() if m != ()}


def _row(L, k, strict, sign):
    """sign*(L - k) < 0 (or <= 0) as (coefficients, bound, strict): sum <= bound"""
    c0, d = _lin(L)
    return {m: sign * c for m, c in d.items()}, sign * (Fraction(k) - c0), strict


def _mono_nn(m):
    for i, e in m:
        if e % 2 and not nonneg(_alist[i]):
            return False
    return True


def feasible(rows, limit=600):
    """Fourier-Motzkin elimination; True when the affine system may have a solution"""
    rows = [r for r in rows]
    monos = {m for r in rows for m in r[0]}
    for m in monos:
        if _mono_nn(m):
            rows.append(({m: Fraction(-1)}, Fraction(0), False))
    while True:
        for d, b, s in rows:
            if not d and (b < 0 or (s and b <= 0)):
                return False
        rows = [r for r in rows if r[0]]
        if not rows:
            return True
        cnt = {}
        for d, b, s in rows:
            for m, c in d.items():
                p = cnt.setdefault(m, [0, 0])
                p[0 if c > 0 else 1] += 1
        m = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1] - cnt[x][0] - cnt[x][1], x))
        up = [r for r in rows if r[0].get(m, 0) > 0]
        dn = [r for r in rows if r[0].get(m, 0) < 0]
        rest = [r for r in rows if m not in r[0]]
        seen = set()
        for d1, b1, s1 in up:
            for d2, b2, s2 in dn:
                f1, f2 = 1 / d1[m], -1 / d2[m]
                d = {}
                for x, c in d1.items():
                    d[x] = c * f1
                for x, c in d2.items():
                    d[x] = d.get(x, 0) + c * f2
                d = {x: c for x, c in d.items() if c}
                row = (d, b1 * f1 + b2 * f2, s1 or s2)
                key = (tuple(sorted(d.items())), row[1], row[2])
                if key not in seen:
                    seen.add(key)
                    rest.append(row)
        rows = rest
        if len(rows) > limit:
            return True


def _tests(c, val):
    """affine rows implied by test c having value val; None when it has no affine content"""
    if c.kind == 'thr':
        if val:
            return [_row(c.L, c.k, c.ns == 0, 1)]
        return [_row(c.L, c.k, c.ns != 0, -1)]
    return []


def same_lin(a, b, guard=TRUE, budget=3000):
    """a and b have the same value on every path whose tests are affinely consistent (under guard)"""
    left = [budget]

    def walk(x, y, g, rows):
        left[0] -= 1
        if left[0] < 0:
            return False
        if x is y or g is FALSE:
            return True
        top = None
        for n in (x, y, g):
            if n.c is not None and (top is None or n.c.key < top.key):
                top = n.c
        if top is None:
            if not (isinstance(x.v, P) and isinstance(y.v, P)):
                return False
            d = padd(x.v, y.v, -1)
            if pzero(d):
                return True
            return not feasible(rows + [_row(d, 0, True, 1)]) and not feasible(rows + [_row(d, 0, True, -1)])
        for val in (True, False):
            r = rows + _tests(top, val)
            if len(r) > len(rows) and not feasible(r):
                continue
            if not walk(cof(x, top, val), cof(y, top, val), cof(g, top, val), r):
                return False
        return True
    return walk(a, b, guard, [])

"""Models of library code (Eigen, the standard library, Tpetra/Teuchos/Kokkos, FDPS, MPI) for the value analysis."""
import math
import re
from fractions import Fraction

import alg
import iomodel
from alg import (P, N, Ref, S, Ob, NULL, TRUE, FALSE, leaf, num, atom, pa, pc, padd, ite, band, bor, bnot,
                 mapleaves, leafset, Undecided, P0)
from prog import tk, strip, isref, targs

# functions of the repository that keep a model of their own (their definition is the subject of another rule)
PREFER = {'B64Converter::getBase64FromVector', 'vtkPoints::GetPoint', 'vtkPoints::GetNumberOfPoints', 'vtkDataSet::GetCellData',
          'vtkDataSet::GetPointData', 'vtkFieldData::GetArray', 'vtkFieldData::GetAbstractArray'}
PI = leaf(pa(atom('pi', ())))


def IV():
    import interp
    return interp


# ------------------------------------------------------------------ literals
def literal(e):
    sp = e.get('sp') or ''
    v = float(e['v'])
    if abs(v - math.pi) < 1e-12:
        return PI
    s = sp.rstrip('fFlL').replace("'", '')
    try:
        return num(Fraction(s))
    except (ValueError, ZeroDivisionError):
        return floatval(v)


def floatval(x):
    if abs(x - math.pi) < 1e-12:
        return PI
    return num(Fraction(x))


def charat(s, i):
    """character of a text"""
    def f(x, y):
        t = x.text() if isinstance(x, S) else None
        c = y.const() if isinstance(y, P) else None
        if t is not None and c is not None and 0 <= c < len(t):
            return num(ord(t[int(c)]))
        return leaf(pa(atom('charat', (leaf(x), leaf(y)), 'i')))
    return alg.apply('charat', f, s, i)


def bitop(op, a, b, ka):
    ca, cb = (x.v.const() if x.c is None and isinstance(x.v, P) else None for x in (a, b))
    if ca is not None and cb is not None and ca.denominator == 1 and cb.denominator == 1:
        x, y = int(ca), int(cb)
        if op in ('<<', '>>') and not 0 <= y < 64:
            raise Undecided('shift')
        return num({'&': x & y, '|': x | y, '^': x ^ y, '<<': x << y if op == '<<' else 0, '>>': x >> y if op == '>>' else 0}[op])
    if ka[0] == 'b':
        if op == '&':
            return band(alg.truth(a), alg.truth(b))
        if op == '|':
            return bor(alg.truth(a), alg.truth(b))
    def f(x, y):
        r = alg.bitop_v(op, x, y) if isinstance(x, P) and isinstance(y, P) else None
        return leaf(r if r is not None else pa(atom('bit' + op, (x, y), 'i')))
    return alg.apply('bit' + op, f, a, b)


# ------------------------------------------------------------------ strings
def cat(a, b):
    def f(x, y):
        xs = x.parts if isinstance(x, S) else (('n', leaf(x)),)
        ys = y.parts if isinstance(y, S) else (('n', leaf(y)),)
        return leaf(S(tuple(xs) + tuple(ys)))
    return alg.apply('cat', f, a, b)


def tostr(v):
    return mapleaves(v, lambda x: leaf(x) if isinstance(x, S) else leaf(S((('n', leaf(x)),))))


def streq(a, b):
    def f(x, y):
        if x == y:
            return TRUE
        if isinstance(x, S) and isinstance(y, S):
            tx, ty = x.text(), y.text()
            if tx is not None and ty is not None:
                return TRUE if tx == ty else FALSE
        return alg.boolatom(atom('streq', (leaf(x), leaf(y)), 'b'))
    return alg.apply('streq', f, a, b)


# ------------------------------------------------------------------ helpers
_D2B = ('UncheckedDerivedToBase', 'DerivedToBase', 'NoOp')


def peel(x):
    while isinstance(x, dict) and x.get('k') == 'Cast' and x.get('ck') in _D2B:
        x = x['e']
    return x


def ref_of(m, v):
    I = IV()
    if isinstance(v, (I.LV, I.Obj)):
        return v.ref
    if isinstance(v, N):
        return mapleaves(v, lambda r: leaf(m.norm_ptr(r)))
    if isinstance(v, I.EV) and v.base is not None:
        return v.base
    if isinstance(v, I.Mat):
        return m.materialize(v)
    raise Undecided('object address of %r' % (v,))


def recv(m, e):
    """address of the receiver object"""
    o = e['obj']
    if e.get('arrow'):
        v = m.ev(o)
    else:
        v = m.lv(peel(o))
    return ref_of(m, v)


def rtype(m, e):
    """declared type of the receiver (casts removed)"""
    t = m.etype(peel(e['obj']))
    k = m.prog.kind(t)
    if e.get('arrow') and k[0] == 'p':
        return k[1]
    return t


def mv(m, x):
    """value of an Eigen expression node (EV, Mat) or scalar N"""
    I = IV()
    x = peel(x)
    v = m.e_any(x)
    if isinstance(v, (I.EV, I.Mat)):
        return v
    t = m.etype(x)
    if isinstance(v, I.LV):
        k = m.prog.kind(t)
        if k[0] in ('r', 'i', 'b'):
            return m.load(v.ref, k)
        return m.view(I.Obj(v.ref), t)
    if isinstance(v, I.Obj):
        return m.view(v, t)
    return v


def mrecv(m, e):
    if e.get('arrow'):
        v = m.ev(e['obj'])
        t = m.prog.kind(m.etype(e['obj']))
        return m.view(IV().Obj(ref_of(m, v)), t[1])
    return mv(m, e['obj'])


def typed(m, ref, t):
    """lvalue of element type t at ref"""
    return IV().LV(ref)


def pts(m, t):
    """kind tuple for loading"""
    return m.kindp(t)


def constidx(n):
    if n.c is None and isinstance(n.v, P):
        c = n.v.const()
        if c is not None and c.denominator == 1:
            return int(c)
    return None


def newobj(m, t, args, tag=None):
    """address of a freshly allocated t constructed from evaluated arguments"""
    ref = leaf(Ref(m.new_heap(tag or t)))
    build(m, ref, t, args)
    return ref


def build(m, ref, t, args):
    """construct a t at ref from evaluated arguments"""
    I = IV()
    k = m.prog.kind(t)
    if k[0] in ('r', 'i', 'b', 'p', 'str', 'mat', 'q'):
        if not args:
            if k[0] in ('r', 'i', 'b', 'p', 'str'):
                m.store(ref, m.zero(k))
            return
        m.assign(ref, t, args[0])
        return
    if len(args) == 1:
        a = args[0]
        if isinstance(a, I.LV):
            a = I.Obj(a.ref)
        if isinstance(a, I.Obj) and (a.t is None or m.prog.kind(a.t)[:2] == k[:2]):
            m.copy_obj(ref, a.ref)
            return
    c = [f for f in m.prog.fn.values() if f.get('ctor') and f.get('body') is not None and f.get('cls') is not None and
         len(f['params']) == len(args) and (f.get('clsq') or '') == strip(t.replace('const ', ''))]
    if not c:
        c = [f for f in m.prog.fn.values() if f.get('ctor') and f.get('body') is not None and len(f['params']) == len(args) and
             strip(f['q']).rsplit('::', 1)[0] == strip(t.replace('const ', '')).strip()]
    if len(c) == 1:
        f = c[0]
        if not f.get('defaulted'):
            m.default_members(ref, t, skip={i['m'] for i in (f.get('inits') or []) if 'm' in i and i.get('written')})
            m.call_function(f, ref, args)
            return
    if not args:
        if k[0] == 'vec':
            m.set_size(ref, FALSE)
            return
        m.default_members(ref, t)
        return
    if k[0] == 'rec' and strip(k[1]) == 'std::pair' and len(args) == 2:
        ta = targs(k[1])
        m.assign(m.field(ref, 'first'), ta[0], args[0])
        m.assign(m.field(ref, 'second'), ta[1], args[1])
        return
    m.note(('construct', t, len(args)))
    m.havoc(ref, 'ctor')


# ------------------------------------------------------------------ Eigen
_inner = re.compile(r'Eigen::Matrix<(?:double|int|float), (-?\d+), (-?\d+)')


def dims_of(t):
    i = _inner.search(t)
    if not i:
        raise Undecided('dims of ' + t)
    return int(i.group(1)), int(i.group(2))


def dot(a, b):
    r = FALSE
    for x, y in zip(a.e, b.e):
        r = alg.add(r, alg.mul(x, y))
    return r


def matmul(a, b):
    I = IV()
    if a.c != b.r:
        raise Undecided('matrix product %dx%d * %dx%d' % (a.r, a.c, b.r, b.c))
    e = []
    for i in range(a.r):
        for j in range(b.c):
            s = FALSE
            for k in range(a.c):
                s = alg.add(s, alg.mul(a.at(i, k), b.at(k, j)))
            e.append(s)
    return I.Mat(a.r, b.c, e)


def cross(a, b):
    I = IV()
    x, y = a.e, b.e
    return I.Mat(3, 1, [alg.sub(alg.mul(x[1], y[2]), alg.mul(x[2], y[1])),
                        alg.sub(alg.mul(x[2], y[0]), alg.mul(x[0], y[2])),
                        alg.sub(alg.mul(x[0], y[1]), alg.mul(x[1], y[0]))])


def rotate(q, v):
    """Eigen: v + w*uv + q.vec x uv with uv = 2 q.vec x v"""
    I = IV()
    qv = I.Mat(3, 1, q.e[:3])
    uv = cross(qv, v).map(lambda z: alg.mul(num(2), z))
    c2 = cross(qv, uv)
    return I.Mat(3, 1, [alg.add(alg.add(a, alg.mul(q.e[3], b)), c) for a, b, c in zip(v.e, uv.e, c2.e)])


def quatmul(a, b):
    I = IV()
    ax, ay, az, aw = a.e
    bx, by, bz, bw = b.e
    M, A, Sb = alg.mul, alg.add, alg.sub
    w = Sb(Sb(Sb(M(aw, bw), M(ax, bx)), M(ay, by)), M(az, bz))
    x = Sb(A(A(M(aw, bx), M(ax, bw)), M(ay, bz)), M(az, by))
    y = Sb(A(A(M(aw, by), M(ay, bw)), M(az, bx)), M(ax, bz))
    z = Sb(A(A(M(aw, bz), M(az, bw)), M(ax, by)), M(ay, bx))
    return I.Mat(4, 1, [x, y, z, w], True)


def norm(a):
    return alg.sqrt_(dot(a, a))


def normalized(a):
    i = alg.inv(norm(a))
    return a.map(lambda x: alg.mul(x, i))


def two_vectors(a, b):
    I = IV()
    return I.Mat(4, 1, [alg.fn('q2v%s' % c, *(a.e + b.e)) for c in 'xyzw'], True)


_XYZW = {'x': 0, 'y': 1, 'z': 2, 'w': 3}


def eigen(m, e, sq):
    I = IV()
    meth = sq.rsplit('::', 1)[1]
    a = e['a']
    if e.get('obj') is None:
        if meth == 'operator*':
            x, y = mv(m, a[0]), mv(m, a[1])
            if isinstance(x, N):
                return m.mat_load(y).map(lambda z: alg.mul(x, z))
            if isinstance(y, N):
                return m.mat_load(x).map(lambda z: alg.mul(y, z))
            return matmul(m.mat_load(x), m.mat_load(y))
        if meth == 'operator<<':
            os = m.e_any(a[0])
            m.event('<<', ref_of(m, os) if not isinstance(os, N) else os, [m.mat_load(mv(m, a[1]))], e)
            return os
        if meth in ('Zero', 'Identity', 'Ones', 'Constant', 'UnitX', 'UnitY', 'UnitZ'):
            r, c = dims_of(m.etype(e) + ' ' + e['q'])
            if r < 0 or c < 0:
                raise Undecided('dynamic size')
            if meth == 'Identity' and 'Quaternion' in sq:
                return I.Mat(4, 1, [FALSE, FALSE, FALSE, TRUE], True)
            if meth in ('UnitX', 'UnitY', 'UnitZ'):
                return I.Mat(3, 1, [TRUE if meth[-1] == x else FALSE for x in 'XYZ'])
            v = FALSE if meth in ('Zero', 'Identity') else TRUE if meth == 'Ones' else m.ev(a[0])
            mt = I.Mat(r, c, [v] * (r * c))
            if meth == 'Identity':
                mt.e = [TRUE if i == j else FALSE for i in range(r) for j in range(c)]
            return mt
        if meth == 'FromTwoVectors':
            return two_vectors(m.mat_load(mv(m, a[0])), m.mat_load(mv(m, a[1])))
        return NotImplemented
    o = mrecv(m, e)
    if isinstance(o, N):
        return NotImplemented
    L = m.mat_load

    def write(new):
        if not isinstance(o, I.EV):
            raise Undecided('write to temporary matrix')
        m.mat_store(o, new)
        return o

    if meth in ('operator()', 'operator[]', 'coeff', 'coeffRef') or (meth in _XYZW and not a):
        if meth in _XYZW:
            i = _XYZW[meth]
        else:
            ix = [m.ev(x) for x in a]
            ci = [constidx(x) for x in ix]
            if None in ci:
                if len(ix) == 1 and isinstance(o, I.EV) and 1 in (o.r, o.c):
                    return I.LV(alg.add(o.refs[0], ix[0]) if o.base is None else m.elem(o.base, ix[0]))
                raise Undecided('symbolic matrix index')
            i = ci[0] if len(ci) == 1 else ci[0] * o.c + ci[1]
            if len(ci) == 2 and not (0 <= ci[0] < o.r and 0 <= ci[1] < o.c):
                raise Undecided('matrix index out of range')
            if len(ci) == 1 and 1 not in (o.r, o.c):
                raise Undecided('linear matrix index')
        if not 0 <= i < o.r * o.c:
            raise Undecided('matrix index out of range')
        return I.LV(o.refs[i]) if isinstance(o, I.EV) else o.e[i]
    if meth == 'operator=':
        return write(L(mv(m, a[0])))
    if meth in ('operator+', 'operator-') and len(a) == 1:
        x, y = L(o), L(mv(m, a[0]))
        if (x.r, x.c) != (y.r, y.c):
            raise Undecided('matrix sum shape')
        f = alg.add if meth[-1] == '+' else alg.sub
        return I.Mat(x.r, x.c, [f(p, q) for p, q in zip(x.e, y.e)])
    if meth == 'operator-':
        return L(o).map(alg.neg)
    if meth in ('operator+=', 'operator-='):
        x, y = L(o), L(mv(m, a[0]))
        f = alg.add if meth[8] == '+' else alg.sub
        return write(I.Mat(x.r, x.c, [f(p, q) for p, q in zip(x.e, y.e)]))
    if meth in ('operator*', 'operator/', 'operator*=', 'operator/='):
        y = mv(m, a[0])
        x = L(o)
        if isinstance(y, N):
            f = alg.div if meth[8] == '/' else alg.mul
            r = x.map(lambda z: f(z, y))
        else:
            y = L(y)
            if x.quat and y.quat:
                r = quatmul(x, y)
            elif x.quat:
                r = rotate(x, y)
            else:
                r = matmul(x, y)
        return write(r) if meth.endswith('=') else r
    if meth == 'dot':
        return dot(L(o), L(mv(m, a[0])))
    if meth == 'cross':
        return cross(L(o), L(mv(m, a[0])))
    if meth == 'norm':
        return norm(L(o))
    if meth == 'squaredNorm':
        x = L(o)
        return dot(x, x)
    if meth == 'normalized':
        return normalized(L(o))
    if meth == 'normalize':
        return write(normalized(L(o)))
    if meth == 'sum':
        r = FALSE
        for x in L(o).e:
            r = alg.add(r, x)
        return r
    if meth in ('cwiseMin', 'cwiseMax', 'cwiseProduct', 'cwiseQuotient'):
        x, y = L(o), L(mv(m, a[0]))
        f = {'cwiseMin': alg.min_, 'cwiseMax': alg.max_, 'cwiseProduct': alg.mul, 'cwiseQuotient': lambda p, q: alg.mul(p, alg.inv(q))}[meth]
        return I.Mat(x.r, x.c, [f(p, q) for p, q in zip(x.e, y.e)])
    if meth in ('cwiseAbs', 'cwiseInverse', 'cwiseSqrt'):
        x = L(o)
        f = {'cwiseAbs': alg.fabs_, 'cwiseInverse': alg.inv, 'cwiseSqrt': alg.sqrt_}[meth]
        return I.Mat(x.r, x.c, [f(p) for p in x.e])
    if meth in ('minCoeff', 'maxCoeff') and not a:
        x = L(o)
        r = x.e[0]
        for y in x.e[1:]:
            r = (alg.min_ if meth == 'minCoeff' else alg.max_)(r, y)
        return r
    if meth == 'trace':
        x = L(o)
        r = FALSE
        for i in range(x.r):
            r = alg.add(r, x.at(i, i))
        return r
    if meth in ('transpose', 'adjoint'):
        if isinstance(o, I.EV):
            return I.EV(o.c, o.r, [o.refs[i * o.c + j] for j in range(o.c) for i in range(o.r)], False)
        return o.T()
    if meth in ('eval', 'matrix', 'array', 'derived', 'noalias', 'coeffs', 'const_cast_derived'):
        if meth == 'coeffs' and isinstance(o, I.EV):
            return I.EV(o.r, o.c, o.refs, False, o.base)
        return o
    if meth in ('setZero', 'setOnes', 'setConstant', 'fill'):
        v = FALSE if meth == 'setZero' else TRUE if meth == 'setOnes' else m.ev(a[0])
        return write(I.Mat(o.r, o.c, [v] * (o.r * o.c)))
    if meth == 'setIdentity':
        if o.quat:
            return write(I.Mat(4, 1, [FALSE, FALSE, FALSE, TRUE], True))
        return write(I.Mat(o.r, o.c, [TRUE if i == j else FALSE for i in range(o.r) for j in range(o.c)]))
    if meth == 'setFromTwoVectors':
        return write(two_vectors(L(mv(m, a[0])), L(mv(m, a[1]))))
    if meth in ('conjugate', 'inverse') and o.quat:
        x = L(o)
        return I.Mat(4, 1, [alg.neg(x.e[0]), alg.neg(x.e[1]), alg.neg(x.e[2]), x.e[3]], True)
    if meth == 'vec' and o.quat:
        return I.EV(3, 1, o.refs[:3]) if isinstance(o, I.EV) else I.Mat(3, 1, o.e[:3])
    if meth in ('toRotationMatrix', 'matrix') and o.quat:
        x = L(o)
        cols = [rotate(x, I.Mat(3, 1, [TRUE if i == j else FALSE for i in range(3)])) for j in range(3)]
        return I.Mat(3, 3, [cols[j].e[i] for i in range(3) for j in range(3)])
    if meth == 'data':
        if isinstance(o, I.EV):
            return o.refs[0]
        return m.elem(m.materialize(o), FALSE)
    if meth in ('rows', 'cols', 'size'):
        return num({'rows': o.r, 'cols': o.c, 'size': o.r * o.c}[meth])
    if meth in ('block', 'head', 'tail', 'segment', 'col', 'row', 'topRows', 'topLeftCorner', 'middleRows'):
        ta = targs(m.etype(e))
        br, bc = int(ta[1]), int(ta[2])
        ix = [constidx(m.ev(x)) for x in a]
        if None in ix or br < 0 or bc < 0:
            raise Undecided('dynamic block')
        i0 = j0 = 0
        if meth == 'block':
            i0, j0 = ix[0], ix[1]
        elif meth == 'segment':
            i0, j0 = (ix[0], 0) if o.c == 1 else (0, ix[0])
        elif meth == 'tail':
            i0, j0 = (o.r - br, 0) if o.c == 1 else (0, o.c - bc)
        elif meth == 'col':
            j0 = ix[0]
        elif meth == 'row':
            i0 = ix[0]
        elif meth == 'middleRows':
            i0 = ix[0]
        if i0 + br > o.r or j0 + bc > o.c:
            raise Undecided('block range')
        idx = [(i0 + i) * o.c + j0 + j for i in range(br) for j in range(bc)]
        return I.EV(br, bc, [o.refs[i] for i in idx]) if isinstance(o, I.EV) else I.Mat(br, bc, [o.e[i] for i in idx])
    if meth == 'llt':
        return L(o)
    if meth == 'matrixL':
        x = L(o)
        return I.Mat(x.r, x.c, [alg.fn('chol%d%d' % (i, j), *x.e) if j <= i else FALSE for i in range(x.r) for j in range(x.c)])
    return NotImplemented


# ------------------------------------------------------------------ constructors producing values
def ctor(m, e, t, k):
    I = IV()
    a = e['a']
    if k[0] == 'mat':
        r, c = k[1], k[2]
        if not a:
            ref = m.temp('mat')
            return m.ev_at(ref, r, c, k[3])
        if len(a) == 1:
            v = mv(m, a[0])
            if isinstance(v, (I.EV, I.Mat)):
                v = m.mat_load(v)
                if v.quat and r * c != 4:
                    cols = [rotate(v, I.Mat(3, 1, [TRUE if i == j else FALSE for i in range(3)])) for j in range(3)]
                    return I.Mat(3, 3, [cols[j].e[i] for i in range(3) for j in range(3)])
                if r > 0 and c > 0 and (v.r, v.c) != (r, c):
                    if v.r * v.c != r * c:
                        raise Undecided('matrix conversion')
                    return I.Mat(r, c, v.e)
                return I.Mat(v.r, v.c, v.e)
            kk = m.prog.kind(m.etype(peel(a[0])))
            if kk[0] == 'p' or kk[0] == 'arr':
                return m.mat_load(m.ev_ptr(v, r, c, k[3]))
            raise Undecided('matrix from scalar')
        vs = [m.ev(x) for x in a]
        if len(vs) == r * c:
            return I.Mat(r, c, vs)
        raise Undecided('matrix constructor')
    if k[0] == 'q':
        if not a:
            return m.ev_at(m.temp('q'), 4, 1, quat=True)
        if len(a) == 4:
            w, x, y, z = [m.ev(b) for b in a]
            return I.Mat(4, 1, [x, y, z, w], True)
        v = mv(m, a[0])
        if isinstance(v, N):
            return m.mat_load(m.ev_ptr(v, 4, 1, quat=True))
        v = m.mat_load(v)
        if v.r * v.c == 4:
            return I.Mat(4, 1, v.e, True)
        raise Undecided('quaternion from matrix')
    if k[0] in ('map', 'mapq'):
        v = m.e_any(a[0])
        if isinstance(v, (I.EV, I.Mat)):
            return v
        if isinstance(v, I.LV):
            kk = m.prog.kind(m.etype(peel(a[0])))
            if kk[0] in ('map', 'mapq'):
                return m.view(I.Obj(v.ref), kk)
            v = m.load(v.ref, m.kindp(m.etype(a[0])))
        if isinstance(v, I.Obj):
            return m.view(v, m.etype(a[0]))
        for x in a[1:]:
            if m.prog.kind(m.etype(x))[0] == 'i':
                raise Undecided('dynamic map')
        if k[0] == 'map':
            if k[1] < 0 or k[2] < 0:
                raise Undecided('dynamic map')
            return m.ev_ptr(v, k[1], k[2], k[3])
        return m.ev_ptr(v, 4, 1, quat=True)
    if k[0] == 'eig':
        if len(a) == 1:
            return mv(m, a[0])
        raise Undecided('Eigen object ' + t[:60])
    if k[0] == 'str':
        if not a:
            return leaf(S(()))
        v = m.ev(a[0])
        if isinstance(v, N):
            return tostr(v)
        raise Undecided('string constructor')
    if k[0] == 'p':
        base = t.replace('const ', '').split('<')[0]
        if base == 'Kokkos::View':
            return view_ctor(m, e, t)
        if not a:
            return leaf(NULL)
        v = m.ev(a[0])
        if isinstance(v, I.Obj):
            v = v.ref
        if isinstance(v, N):
            if len(a) > 1:
                for x in a[1:]:
                    m.e_any(x)
            return leaf(NULL) if v is FALSE else v
        raise Undecided('pointer constructor %r' % (v,))
    raise Undecided('constructor %s' % t)


def view_ctor(m, e, t):
    I = IV()
    a = e['a']
    if not a:
        return leaf(NULL)
    v = m.e_any(a[0])
    k0 = m.prog.kind(m.etype(peel(a[0])))
    if isinstance(v, I.LV) and k0[0] in ('p',):
        return m.load(v.ref, ('p', '', 'raw'))
    if isinstance(v, N) and k0[0] == 'p':
        return v
    # allocation: View(label or ViewAllocateWithoutInitializing, extents...)
    ext = []
    for x in a[1:]:
        if x.get('k') == 'Default' or m.prog.kind(m.etype(x))[0] != 'i':
            continue
        ext.append(m.ev(x))
    ref = leaf(Ref(m.new_heap(t)))
    tx = m.etype(peel(a[0]))
    if 'ViewCtorProp' not in tx:
        m.zero_fill(ref)
    if ext:
        n = ext[0]
        m.set_size(ref, n)
    return m.elem(ref, FALSE)


# ------------------------------------------------------------------ object construction
def construct(m, ref, e, t, k):
    I = IV()
    a = e['a']
    tt = t.replace('const ', '').strip()
    base = strip(tt)
    if k[0] == 'vec':
        if not a:
            m.set_size(ref, FALSE)
            return True
        if e.get('copy') or (len(a) == 1 and m.prog.kind(m.etype(a[0]))[0] == 'vec'):
            v = m.lv(a[0])
            m.copy_obj(ref, ref_of(m, v))
            return True
        k0 = m.prog.kind(m.etype(a[0]))
        if k0[0] == 'i':
            n = m.ev(a[0])
            m.zero_fill(ref)
            kk = m.prog.kind(k[1])
            if len(a) > 1 and m.prog.kind(m.etype(a[1]))[0] in ('r', 'i', 'b', 'p', 'str'):
                fill_range(m, m.elem(ref, FALSE), n, m.ev(a[1]))
            elif kk[0] not in ('r', 'i', 'b', 'p'):
                each_default(m, ref, k[1])
            m.set_size(ref, n)
            return True
        if k0[0] == 'p' and len(a) >= 2:
            b, en = m.ev(a[0]), m.ev(a[1])
            n = alg.sub(en, b)
            copy_range(m, b, n, m.elem(ref, FALSE), m.prog.kind(k[1]))
            m.set_size(ref, n)
            return True
        if 'initializer_list' in m.etype(a[0]):
            il = peel(a[0])
            while il.get('k') in ('Cast', 'Ctor') and (il.get('e') or il.get('a')):
                il = il['e'] if il.get('k') == 'Cast' else il['a'][0]
            if il.get('k') == 'IList':
                for i, x in enumerate(il['a']):
                    m.init_at(m.elem(ref, num(i)), None, x)
                m.set_size(ref, num(len(il['a'])))
                return True
        m.havoc(ref, 'vec')
        return True
    if base == 'std::pair' and len(a) == 2:
        ta = targs(tt)
        for f, x, y in (('first', a[0], ta[0]), ('second', a[1], ta[1])):
            m.assign(m.field(ref, f), y, m.e_any(x))
        return True
    if iomodel.construct(m, ref, e, base, a):
        return True
    if base in ('Teuchos::TimeMonitor', 'std::allocator', 'std::random_device', 'std::mersenne_twister_engine',
                'std::uniform_real_distribution', 'std::lognormal_distribution', 'Teuchos::SumValueReductionOp',
                'Teuchos::MaxValueReductionOp', 'Teuchos::MinValueReductionOp', 'Eigen::Stride', 'Tpetra::RowMatrixTransposer') or base.startswith('trng::') and base.endswith('_dist'):
        args = [m.e_any(x) for x in a]
        if base.startswith('trng::'):
            for i, v in enumerate(args):
                if isinstance(v, N):
                    m.store(m.field(ref, '#p%d' % i), v)
            return True
        if args:
            ev = m.event('ctor:' + base, ref, args, e)
            if base == 'Tpetra::RowMatrixTransposer':
                v = args[0]
                m.store(m.field(ref, '#m'), ref_of(m, v) if not isinstance(v, N) else v)
        return True
    if base in ('std::invalid_argument', 'std::logic_error', 'std::runtime_error', 'std::unordered_multimap', 'std::unordered_map',
                'std::map', 'std::set'):
        if e.get('copy'):
            return False
        m.set_size(ref, FALSE)
        return True
    if base == 'ParticleSimulator::Vector3':
        if len(a) == 3:
            for f, x in zip('xyz', a):
                m.store(m.field(ref, f), m.ev(x))
            return True
        return False
    if base in ('Tpetra::Vector', 'Tpetra::MultiVector'):
        args = [m.e_any(x) for x in a]
        ev = m.event('ctor:' + base, ref, args, e)
        k0 = m.prog.kind(m.etype(peel(a[0])))
        if k0[0] == 'p' and 'Map' in m.etype(peel(a[0])).split('<', 1)[1][:40]:
            mp = args[0]
            if isinstance(mp, I.LV):
                mp = m.load(mp.ref, ('p', ''))
            m.store(m.field(ref, '#map'), mp)
            if len(a) > 1 and 'View' in m.etype(peel(a[1])):
                # vector over an existing view
                src = args[1]
                if isinstance(src, I.LV):
                    src = m.load(src.ref, ('p', '', 'raw'))
                base_ = mapleaves(src, lambda r: leaf(Ref(r.loc[:-1])))
                m.copy_obj(m.field(ref, '$v'), base_)
            else:
                m.zero_fill(m.field(ref, '$v'))
            return True
        src = ref_of(m, args[0])
        m.store(m.field(ref, '#map'), m.load(m.field(src, '#map'), ('p', '')))
        m.copy_obj(m.field(ref, '$v'), m.field(src, '$v'))
        return True
    if base == 'Tpetra::Map':
        args = [m.e_any(x) for x in a]
        args = [m.load(x.ref, m.kindp(m.etype(y))) if isinstance(x, I.LV) and m.prog.kind(m.etype(y))[0] in ('r', 'i', 'b', 'p') else x
                for x, y in zip(args, a)]
        ev = m.event('ctor:Tpetra::Map', ref, args, e)
        # Map(global, local, indexBase, comm)
        ks = [m.prog.kind(m.etype(peel(x)))[0] for x in a]
        if ks[:3] == ['i', 'i', 'i']:
            m.store(m.field(ref, '#nloc'), args[1])
        elif ks[:3] == ['i', 'p', 'i']:
            # Map(global, list, number, indexBase, comm)
            m.store(m.field(ref, '#nlist'), args[2])
            copy_range(m, args[1], args[2], mapleaves(m.field(ref, '#list'), lambda r: leaf(Ref(r.loc + (alg.P0,)))), ('i',))
        return True
    if base == 'Tpetra::CrsMatrix':
        args = [m.e_any(x) for x in a]
        args = [m.load(x.ref, m.kindp(m.etype(peel(y)))) if isinstance(x, I.LV) and m.prog.kind(m.etype(peel(y)))[0] in ('r', 'i', 'b', 'p') else x
                for x, y in zip(args, a)]
        m.event('ctor:Tpetra::CrsMatrix', ref, args, e)
        if isinstance(args[0], N):
            m.store(m.field(ref, '#map'), args[0])
        if len(a) >= 5:
            # row map, column map, row offsets, column indices, values
            if isinstance(args[1], N):
                m.store(m.field(ref, '#colmap'), args[1])
            for x, y, nm in zip(args[2:5], a[2:5], ('#ptr', '#col', '#val')):
                if isinstance(x, (I.LV, I.Obj)) or isinstance(x, N):
                    v = x.ref if not isinstance(x, N) else x
                    # a view is a pointer to its first element
                    v = mapleaves(v, lambda r: leaf(Ref(r.loc[:-1])) if isinstance(r, Ref) and isinstance(r.loc[-1], alg.P) else leaf(r))
                    n = m.size_of(v)
                    m.store(m.field(ref, nm, '#size'), n)
                    copy_range(m, m.elem(v, FALSE), n, m.elem(m.field(ref, nm), FALSE), ('r',) if nm == '#val' else ('i',))
        return True
    return False


def each_default(m, ref, t):
    """value-initialised class elements of an array"""
    k = m.prog.kind(t)
    it = alg.fresh_it('e', 'i')
    el = m.elem(ref, leaf(pa(it)))
    n0 = len(m.log)
    if k[0] == 'vec':
        m.set_size(el, FALSE)
    elif k[0] == 'rec' and m.prog.rec.get(t.replace('const ', '')):
        m.default_members(el, t)
    for en in m.log[n0:]:
        en.q = en.q + [(it, None)]


def fill_range(m, ptr, n, val):
    c = constidx(n)
    if c is not None and c <= 64:
        for i in range(c):
            m.store(alg.add(ptr, num(i)), val)
        return
    it = alg.fresh_it('f', 'i')
    n0 = len(m.log)
    m.store(alg.add(ptr, leaf(pa(it))), val)
    for en in m.log[n0:]:
        en.q = en.q + [(it, n)]


def atom_n(name, args, typ):
    return leaf(pa(atom(name, args, typ)))


def copy_range(m, src, n, dst, k):
    c = constidx(n)
    if c is not None and c <= 64:
        vals = []
        for i in range(c):
            s = alg.add(src, num(i))
            vals.append(m.load(s, k) if k[0] in ('r', 'i', 'b', 'p', 'str') else None)
        for i in range(c):
            if vals[i] is not None:
                m.store(alg.add(dst, num(i)), vals[i])
            else:
                m.copy_obj(alg.add(dst, num(i)), alg.add(src, num(i)))
        return
    it = alg.fresh_it('c', 'i')
    I = leaf(pa(it))
    n0 = len(m.log)
    if k[0] in ('r', 'i', 'b', 'p', 'str'):
        m.store(alg.add(dst, I), m.load(alg.add(src, I), k))
    else:
        m.copy_obj(alg.add(dst, I), alg.add(src, I))
    for en in m.log[n0:]:
        en.q = en.q + [(it, n)]


# ------------------------------------------------------------------ Tpetra
def vec_map(m, fn, ref):
    """this[i] = fn(i) for all local entries"""
    it = alg.fresh_it('v', 'i')
    I = leaf(pa(it))
    val = fn(I)
    n0 = len(m.log)
    m.store(velem(m, ref, I), val)
    n = None
    if view_of(ref):
        mp = m.load(m.field(ref, '#map'), ('p', ''))
        n = m.load(m.field(mp, '#nloc'), ('i',))
    for en in m.log[n0:]:
        en.q = en.q + [(it, n)]


def view_of(ref):
    """(vector, offset) if ref is a view of a part of a vector"""
    if ref.c is None and isinstance(ref.v, Ref) and isinstance(ref.v.loc[-1], tuple) and ref.v.loc[-1][0] == '@view':
        return leaf(Ref(ref.v.loc[:-1])), ref.v.loc[-1][1]
    return None


def velem(m, ref, i):
    w = view_of(ref)
    if w:
        return velem(m, w[0], alg.add(leaf(w[1]), i))
    return m.elem(m.field(ref, '$v'), i)


def vget(m, ref, i):
    return m.load(velem(m, ref, i), ('r',))


def glen(m, ref):
    mp = m.load(m.field(ref, '#map'), ('p', ''))
    return leaf(pa(atom('glen', (mp,), 'i')))


def gdot(m, a, b):
    it = alg.fresh_it('d', 'i')
    I = leaf(pa(it))
    return alg.sum_(leaf(pa(atom('glen', (), 'i'))), it, alg.mul(vget(m, a, I), vget(m, b, I)))


def aval(m, x):
    I = IV()
    v = m.e_any(x)
    if isinstance(v, I.LV):
        k = m.prog.kind(m.etype(x))
        if k[0] in ('r', 'i', 'b', 'p', 'str'):
            return m.load(v.ref, m.kindp(m.etype(x)))
    return v


def tpetra(m, e, sq):
    I = IV()
    a = e['a']
    parts = sq.split('::')
    cls, meth = parts[1], parts[-1]
    if cls == 'Map':
        r = recv(m, e)
        f = {'getNodeNumElements': '#nloc', 'getLocalNumElements': '#nloc', 'getGlobalNumElements': '#nglob', 'getMinGlobalIndex': '#min',
             'getMaxGlobalIndex': '#max'}.get(meth)
        if f:
            return m.load(m.field(r, f), ('i',))
        if meth == 'getComm':
            return m.load(m.field(r, '#comm'), ('p', ''))
        if meth in ('isSameAs', 'isContiguous'):
            return alg.boolatom(atom('map:' + meth, (r,) + tuple(ref_of(m, m.e_any(x)) for x in a), 'b'))
        if meth == 'getMyGlobalIndices':
            return m.elem(m.field(r, '#gids'), FALSE)
        if meth == 'getLocalElement':
            return alg.fn('lid', r, aval(m, a[0]), typ='i')
        return NotImplemented
    if meth in ('getMap', 'getDomainMap', 'getRangeMap', 'getRowMap'):
        r = recv(m, e)
        return m.load(m.field(r, '#map' if meth == 'getMap' or cls == 'DistObject' else '#' + meth[3:].lower()), ('p', ''))
    if meth in ('modify', 'sync', 'resumeFill', 'describe', 'sync_device', 'modify_host'):
        return None
    if meth in ('description',):
        return leaf(S((('l', 'desc'),)))
    if cls in ('MultiVector', 'Vector', 'DistObject'):
        r = recv(m, e)
        if meth in ('getLocalView', 'getLocalViewHost', 'getLocalViewDevice'):
            return velem(m, r, FALSE)
        if meth in ('offsetView', 'offsetViewNonConst'):
            off = aval(m, a[1])
            if r.c is not None or off.c is not None or not isinstance(off.v, P):
                raise Undecided('view')
            w = leaf(Ref(r.v.loc + (('@view', off.v),)))
            mp = m.e_any(a[0])
            if isinstance(mp, I.LV):
                mp = m.load(mp.ref, ('p', ''))
            m.store(m.field(w, '#map'), mp)
            return w
        if meth in ('getLocalLength', 'getGlobalLength'):
            mp = m.load(m.field(r, '#map'), ('p', ''))
            return m.load(m.field(mp, '#nloc' if meth == 'getLocalLength' else '#nglob'), ('i',))
        if meth == 'getNumVectors':
            return num(1)
        if meth in ('getVector', 'getVectorNonConst'):
            m.ev(a[0])
            return r
        if meth == 'putScalar':
            c = aval(m, a[0])
            vec_map(m, lambda i: c, r)
            return None
        if meth == 'scale':
            if len(a) == 1:
                c = aval(m, a[0])
                vec_map(m, lambda i: alg.mul(c, vget(m, r, i)), r)
                return None
            if len(a) == 2:
                c = aval(m, a[0])
                s = ref_of(m, m.e_any(a[1]))
                vec_map(m, lambda i: alg.mul(c, vget(m, s, i)), r)
                return None
        if meth == 'update':
            if len(a) == 3:
                al, A, be = aval(m, a[0]), ref_of(m, m.e_any(a[1])), aval(m, a[2])
                vec_map(m, lambda i: alg.add(alg.mul(al, vget(m, A, i)), alg.mul(be, vget(m, r, i))), r)
                return None
            al, A, be, B, ga = aval(m, a[0]), ref_of(m, m.e_any(a[1])), aval(m, a[2]), ref_of(m, m.e_any(a[3])), aval(m, a[4])
            vec_map(m, lambda i: alg.add(alg.add(alg.mul(al, vget(m, A, i)), alg.mul(be, vget(m, B, i))), alg.mul(ga, vget(m, r, i))), r)
            return None
        if meth == 'elementWiseMultiply':
            al, A, B, be = aval(m, a[0]), ref_of(m, m.e_any(a[1])), ref_of(m, m.e_any(a[2])), aval(m, a[3])
            vec_map(m, lambda i: alg.add(alg.mul(be, vget(m, r, i)), alg.mul(al, alg.mul(vget(m, A, i), vget(m, B, i)))), r)
            return None
        if meth == 'dot':
            return gdot(m, r, ref_of(m, m.e_any(a[0])))
        if meth == 'norm2':
            return alg.sqrt_(gdot(m, r, r))
        if meth in ('normInf', 'norm1'):
            it = alg.fresh_it('d', 'i')
            I_ = leaf(pa(it))
            b = alg.fabs_(vget(m, r, I_))
            T = leaf(pa(atom('glen', (), 'i')))
            return alg.fold_(T, it, 'max', b, FALSE) if meth == 'normInf' else alg.sum_(T, it, b)
        if meth == 'assign' or meth == 'operator=':
            s = ref_of(m, m.e_any(a[0]))
            vec_map(m, lambda i: vget(m, s, i), r)
            return None
        if meth == 'randomize':
            m.event(sq, r, [], e)
            m.havoc(m.field(r, '$v'), 'rand')
            return None
        return NotImplemented
    if meth == 'apply':
        r = recv(m, e)
        x, y = ref_of(m, m.e_any(a[0])), ref_of(m, m.e_any(a[1]))
        mode = al = be = None
        if len(a) > 2:
            mode = aval(m, a[2])
        al = aval(m, a[3]) if len(a) > 3 else TRUE
        be = aval(m, a[4]) if len(a) > 4 else FALSE
        m.event('apply', r, [x, y, mode, al, be], e)
        if r.c is not None:
            raise Undecided('conditional operator')
        tr = 'N'
        if mode is not None:
            cm = constidx(mode) if isinstance(mode, N) else None
            tr = {0: 'N', 1: 'T', 2: 'T'}.get(cm, 'N') if cm is not None else ('T' if 'TRANS' in str(mode) and 'NO_TRANS' not in str(mode) else 'N')
        it = alg.fresh_it('a', 'i')
        body = vget(m, x, leaf(pa(it)))
        op = ('op', r.v.loc, tr)
        vec_map(m, lambda i: alg.add(alg.mul(al, alg.app_(op, it, body, i)), alg.mul(be, vget(m, y, i))), y)
        return None
    if meth in ('fillComplete',):
        r = recv(m, e)
        m.event(sq, r, [m.e_any(x) for x in a], e)
        return None
    if meth == 'createTranspose':
        r = recv(m, e)
        src = m.load(m.field(r, '#m'), ('p', ''))
        def f(x):
            return leaf(Ref((('T', x.loc),)))
        return mapleaves(src, f)
    if meth == 'hasTransposeApply':
        return FALSE
    return NotImplemented


# ------------------------------------------------------------------ calls
_NOOP = {'omp_set_num_threads', 'std::vector::reserve',
         'Teuchos::Time::enable', 'Teuchos::Time::disable', 'Teuchos::TestForException_incrThrowNumber', 'Teuchos::TestForException_break',
         'std::vector::shrink_to_fit', 'std::deque::shrink_to_fit'}


def itername(sq):
    return sq.startswith(('__gnu_cxx::__normal_iterator::', 'std::_Deque_iterator::', 'std::__detail::_Node_iterator::', 'std::__detail::_Node_const_iterator::',
                          'std::_Rb_tree_iterator::', 'std::_Rb_tree_const_iterator::'))


_MAPS = ('std::unordered_multimap::', 'std::unordered_map::', 'std::multimap::', 'std::map::')


def assoc(m, e, sq, meth, a):
    """associative containers: a sequence of pairs, and per key the sequence '#eq'[key] of the pairs with that key"""
    I = IV()
    if e.get('obj') is None:
        return NotImplemented
    r = recv(m, e)
    t = rtype(m, e)
    bucket = lambda k: m.elem(m.field(r, '#eq'), k)
    if meth == 'equal_range':
        b = bucket(aval(m, a[0]))
        o = m.temp('range')
        m.store(m.field(o, 'first'), m.elem(b, FALSE))
        m.store(m.field(o, 'second'), m.elem(b, m.size_of(b)))
        return I.Obj(o)
    if meth in ('count', 'find'):
        k = aval(m, a[0])
        if any(x in m.prog.kind(t)[1] for x in m.append):
            # a container the function fills itself: what it holds by now is free
            n = alg.fn('held:' + alg.show_loc(r.v.loc), k, typ='i')
        else:
            n = m.size_of(bucket(k))
        if meth == 'count':
            return n
        return alg.ite(alg.lt(n, TRUE), m.elem(r, m.size_of(r)), m.elem(bucket(k), FALSE))
    if meth in ('emplace', 'insert'):
        vals = []
        pt = m.prog.kind(t)[1]
        if meth == 'emplace' and len(a) == 2:
            vals = [aval(m, x) for x in a]
        elif len(a) == 1:
            v = m.e_any(a[0])
            if isinstance(v, (I.LV, I.Obj)):
                k1, k2 = [m.prog.kind(x) for x in targs(pt)]
                vals = [m.load(m.field(v.ref, 'first'), k1), m.load(m.field(v.ref, 'second'), k2)]
        if not vals:
            return NotImplemented
        app = any(x in pt for x in m.append)
        m.event('append' if app else 'insert', r, vals, e)
        if not app:
            m.set_size(r, alg.add(m.size_of(r), TRUE))
            m.havoc(m.field(r, '#eq'), 'insert')
        return I.poison('insert', 'o')
    if meth == 'clear':
        m.event('clear', r, [], e)
        m.set_size(r, FALSE)
        m.havoc(m.field(r, '#eq'), 'clear')
        return None
    if meth in ('size', 'empty', 'begin', 'end', 'cbegin', 'cend', 'operator=', 'reserve'):
        return container(m, e, sq, meth, a)
    return NotImplemented


def call(m, e, sq):
    I = IV()
    a = e['a']
    meth = sq.rsplit('::', 1)[-1]
    if sq.startswith('Eigen::'):
        return eigen(m, e, sq)
    if sq.startswith('Tpetra::'):
        return tpetra(m, e, sq)
    if sq.startswith(('__gnu_cxx::operator', 'std::__detail::operator')) and a and m.prog.kind(m.etype(peel(a[0])))[0] == 'p' and len(a) == 2:
        return m.binop(meth[8:], aval(m, a[0]), aval(m, a[1]), ('p',), ('p',))
    if itername(sq):
        if e.get('obj') is not None:
            o = m.lv(peel(e['obj']))
            v = m.load(o.ref, ('p', '', 'raw')) if isinstance(o, I.LV) else o
            op = meth[8:]
            if op == '*' and not a:
                return I.LV(v)
            if op == '->':
                return v
            if op in ('++', '--'):
                n = alg.add(v, TRUE) if op == '++' else alg.sub(v, TRUE)
                m.store(o.ref, n)
                return o if not a else v
            if op in ('+', '-') and len(a) == 1:
                y = aval(m, a[0])
                return alg.add(v, y) if op == '+' else alg.sub(v, y)
            if op in ('+=', '-='):
                y = aval(m, a[0])
                m.store(o.ref, alg.add(v, y) if op == '+=' else alg.sub(v, y))
                return o
            if op == '[]':
                return I.LV(alg.add(v, aval(m, a[0])))
        return NotImplemented
    if sq.startswith('Kokkos::View::'):
        o = m.ev(e['obj'])
        if not isinstance(o, N):
            raise Undecided('view')
        if meth in ('operator()', 'operator[]'):
            ix = [aval(m, x) for x in a]
            if len(ix) == 2 and constidx(ix[1]) != 0:
                pass
            return I.LV(alg.add(o, ix[0]))
        if meth in ('extent', 'dimension_0', 'size', 'extent_int'):
            if a:
                c = constidx(aval(m, a[0]))
                if c == 1:
                    return num(1)

            def sz(r):
                if not isinstance(r, Ref):
                    raise Undecided('extent')
                loc = r.loc[:-1]
                if loc[-1] == '$v':
                    mp = m.load(leaf(Ref(loc[:-1] + ('#map',))), ('p', ''))
                    return m.load(m.field(mp, '#nloc'), ('i',))
                return m.load(leaf(Ref(loc + ('#size',))), ('i',))
            return mapleaves(o, sz)
        if meth == 'data':
            return o
        return NotImplemented
    if sq.startswith('vtk'):
        return iomodel.vtk(m, e, sq, meth, a)
    if sq.startswith('YAML::'):
        return yaml(m, e, sq, meth, a)
    if sq.startswith(_MAPS):
        return assoc(m, e, sq, meth, a)
    if sq.startswith('std::vector::') or sq.startswith('std::deque::') or sq.startswith('std::array::'):
        return container(m, e, sq, meth, a)
    if sq in ('Teuchos::RCP::operator->', 'Teuchos::RCP::get', 'Teuchos::RCP::getRawPtr', 'std::__shared_ptr_access::operator->', 'std::__shared_ptr::get',
              'std::unique_ptr::operator->', 'std::unique_ptr::get', 'Teuchos::RCP::getConst',
              'Teuchos::RCP::ptr', 'Teuchos::RCP::operator()'):
        v = m.lv(peel(e['obj']))
        return m.load(v.ref, ('p', '')) if isinstance(v, I.LV) else v
    if sq in ('Teuchos::RCP::operator*', 'std::__shared_ptr_access::operator*', 'std::unique_ptr::operator*'):
        v = m.lv(peel(e['obj']))
        v = m.load(v.ref, ('p', '')) if isinstance(v, I.LV) else v
        return I.LV(v)
    if sq in ('Teuchos::RCP::operator=', 'std::shared_ptr::operator=', 'std::unique_ptr::operator='):
        o = m.lv(peel(e['obj']))
        v = aval(m, a[0])
        if isinstance(v, I.LV):
            v = m.load(v.ref, ('p', ''))
        m.store(o.ref, leaf(NULL) if v is FALSE else v)
        return o
    if sq in ('Teuchos::RCP::reset', 'std::__shared_ptr::reset', 'std::unique_ptr::reset'):
        o = m.lv(peel(e['obj']))
        v = leaf(NULL)
        if a and a[0].get('k') != 'Default':
            v = aval(m, a[0])
            if not isinstance(v, N):
                raise Undecided('reset')
        m.store(o.ref, v)
        return None
    if sq in ('Teuchos::RCP::swap', 'std::__shared_ptr::swap'):
        o, p = m.lv(peel(e['obj'])), m.lv(peel(a[0]))
        x, y = m.load(o.ref, ('p', '')), m.load(p.ref, ('p', ''))
        m.store(o.ref, y)
        m.store(p.ref, x)
        return None
    if sq in ('Teuchos::RCP::is_null', 'Teuchos::is_null', 'Teuchos::RCP::is_valid_ptr', 'Teuchos::nonnull', 'std::unique_ptr::operator bool',
              'std::__shared_ptr::operator bool', 'Teuchos::RCP::shares_resource'):
        v = m.lv(peel(e['obj'])) if e.get('obj') is not None else m.e_any(a[0])
        v = m.load(v.ref, ('p', '')) if isinstance(v, I.LV) else v
        t = alg.truth(v)
        return bnot(t) if 'is_null' in sq else t
    if sq in ('Teuchos::rcp', 'Teuchos::rcp_dynamic_cast', 'Teuchos::rcp_const_cast', 'Teuchos::rcp_static_cast', 'Teuchos::rcpFromRef',
              'Teuchos::outArg', 'Teuchos::ptr', 'Teuchos::ptrInArg', 'Teuchos::rcpFromPtr'):
        v = m.e_any(a[0])
        if isinstance(v, I.LV):
            k = m.prog.kind(m.etype(peel(a[0])))
            v = m.load(v.ref, ('p', '')) if k[0] == 'p' and 'outArg' not in sq else v.ref
        if isinstance(v, I.Obj):
            v = v.ref
        for x in a[1:]:
            if x.get('k') != 'Default':
                m.e_any(x)
        return v
    if sq in ('std::make_shared', 'std::make_unique'):
        t = m.prog.kind(m.etype(e))[1]
        args = [m.e_any(x) for x in a]
        args = [m.rv(v, m.etype(x)) if isinstance(v, I.LV) and m.prog.kind(m.etype(x))[0] in ('r', 'i', 'b', 'p', 'str') else v for v, x in zip(args, a)]
        return newobj(m, t, args)
    if sq in ('std::move', 'std::forward', 'std::ref', 'std::addressof', 'std::as_const'):
        return m.e_any(a[0])
    if sq in ('std::min', 'std::max', 'fmin', 'fmax', 'std::fmin', 'std::fmax', 'Kokkos::min', 'Kokkos::max') and len(a) == 2:
        x, y = aval(m, a[0]), aval(m, a[1])
        return (alg.min_ if 'min' in meth else alg.max_)(x, y)
    if sq in ('std::min', 'std::max') and len(a) == 1:
        il = peel(a[0])
        while il.get('k') in ('Cast', 'Ctor') and (il.get('e') or il.get('a')):
            il = il['e'] if il.get('k') == 'Cast' else il['a'][0]
        if il.get('k') == 'IList':
            vs = [aval(m, x) for x in il['a']]
            r = vs[0]
            for x in vs[1:]:
                r = (alg.min_ if meth == 'min' else alg.max_)(r, x)
            return r
        return NotImplemented
    if sq in ('fabs', 'std::abs', 'std::fabs', 'abs', 'fabsf'):
        return alg.fabs_(aval(m, a[0]))
    if sq in ('sqrt', 'std::sqrt'):
        return alg.sqrt_(aval(m, a[0]))
    if sq in ('pow', 'std::pow'):
        return alg.pow_(aval(m, a[0]), aval(m, a[1]))
    if sq in ('sin', 'std::sin', 'tan', 'std::tan', 'asin', 'atan'):
        return alg.odd(meth, aval(m, a[0]))
    if sq in ('cos', 'std::cos'):
        return alg.even('cos', aval(m, a[0]))
    if sq in ('log', 'std::log', 'exp', 'std::exp', 'acos', 'std::acos', 'log10', 'std::cbrt', 'cbrt', 'erf', 'std::isfinite', 'std::isnan', 'isnan',
              'isfinite'):
        return alg.fn(meth, aval(m, a[0]))
    if sq in ('floor', 'std::floor', 'ceil', 'std::ceil', 'round', 'std::round', 'lround', 'std::lround',
              'llround', 'std::llround'):
        return alg.fn({'lround': 'round', 'llround': 'round'}.get(meth, meth), aval(m, a[0]), typ='i')
    if sq in ('fmod', 'std::fmod', 'atan2', 'std::atan2'):
        return alg.fn(meth, aval(m, a[0]), aval(m, a[1]))
    if sq in ('std::hypot', 'hypot'):
        x, y = aval(m, a[0]), aval(m, a[1])
        return alg.sqrt_(alg.add(alg.mul(x, x), alg.mul(y, y)))
    if sq in ('std::fma', 'fma'):
        return alg.add(alg.mul(aval(m, a[0]), aval(m, a[1])), aval(m, a[2]))
    if sq.startswith('std::numeric_limits::'):
        k = m.prog.kind(m.etype(e))
        if k[0] == 'r':
            f = {'epsilon': 2.0 ** -52, 'max': 1.7976931348623157e308, 'min': 2.2250738585072014e-308, 'lowest': -1.7976931348623157e308}.get(meth)
            if f is not None:
                return num(Fraction(f))
            if meth == 'infinity':
                return leaf(pa(atom('inf', ())))
        if e.get('cv') is not None:
            return m.constval(e)
        t = m.etype(e)
        sizes = {'int': (31, True), 'unsigned int': (32, False), 'long': (63, True), 'unsigned long': (64, False)}
        if t in sizes:
            b, s = sizes[t]
            return num({'max': 2 ** b - 1, 'min': -2 ** b if s else 0, 'lowest': -2 ** b if s else 0}[meth])
        return NotImplemented
    if sq == 'std::swap':
        x, y = m.lv(a[0]), m.lv(a[1])
        t = m.etype(a[0])
        k = m.prog.kind(t)
        if isinstance(x, I.EV) and isinstance(y, I.EV):
            p, q = m.mat_load(x), m.mat_load(y)
            m.mat_store(x, q)
            m.mat_store(y, p)
            return None
        if k[0] in ('r', 'i', 'b', 'p', 'str'):
            kk = m.kindp(t)
            p, q = m.load(x.ref, kk), m.load(y.ref, kk)
            m.store(x.ref, q)
            m.store(y.ref, p)
            return None
        if k[0] == 'arr' and k[2] and m.prog.kind(k[1])[0] in ('r', 'i', 'b'):
            kk = m.prog.kind(k[1])
            xs = [m.load(m.elem(x.ref, num(i)), kk) for i in range(k[2])]
            ys = [m.load(m.elem(y.ref, num(i)), kk) for i in range(k[2])]
            for i in range(k[2]):
                m.store(m.elem(x.ref, num(i)), ys[i])
                m.store(m.elem(y.ref, num(i)), xs[i])
            return None
        t1 = m.temp('swap')
        m.copy_obj(t1, ref_of(m, x), t)
        m.copy_obj(ref_of(m, x), ref_of(m, y), t)
        m.copy_obj(ref_of(m, y), t1, t)
        return None
    if sq in ('std::fill', 'std::fill_n'):
        b = aval(m, a[0])
        n = aval(m, a[1])
        if sq == 'std::fill':
            n = alg.sub(n, b)
        fill_range(m, b, n, aval(m, a[2]))
        return None
    if sq in ('std::begin', 'std::end'):
        v = m.lv(a[0])
        k = m.prog.kind(m.etype(peel(a[0])))
        r = ref_of(m, v)
        n = num(k[2]) if k[0] == 'arr' else m.size_of(r)
        return m.elem(r, FALSE if meth == 'begin' else n)
    if sq in ('std::copy', 'std::copy_n'):
        b, x = aval(m, a[0]), aval(m, a[1])
        d = aval(m, a[2])
        n = alg.sub(x, b) if sq == 'std::copy' else x
        if sq == 'std::copy_n':
            pass
        k = m.prog.kind(m.prog.kind(m.etype(peel(a[0])))[1])
        copy_range(m, b, n, d, k)
        return alg.add(d, n)
    if sq == 'std::iota':
        b, x, v = aval(m, a[0]), aval(m, a[1]), aval(m, a[2])
        n = alg.sub(x, b)
        it = alg.fresh_it('io', 'i')
        n0 = len(m.log)
        m.store(alg.add(b, leaf(pa(it))), alg.add(v, leaf(pa(it))))
        for en in m.log[n0:]:
            en.q = en.q + [(it, n)]
        return None
    if sq == 'std::partial_sum':
        b, x, d = aval(m, a[0]), aval(m, a[1]), aval(m, a[2])
        n = alg.sub(x, b)
        it, j = alg.fresh_it('ps', 'i'), alg.fresh_it('pj', 'i')
        k = m.prog.kind(m.prog.kind(m.etype(peel(a[0])))[1])
        val = alg.sum_(alg.add(leaf(pa(it)), TRUE), j, m.load(alg.add(b, leaf(pa(j))), k))
        n0 = len(m.log)
        m.store(alg.add(d, leaf(pa(it))), val)
        for en in m.log[n0:]:
            en.q = en.q + [(it, n)]
        return alg.add(d, n)
    if sq == 'std::distance':
        return alg.sub(aval(m, a[1]), aval(m, a[0]))
    if sq in ('std::next', 'std::prev'):
        n = aval(m, a[1]) if len(a) > 1 and a[1].get('k') != 'Default' else TRUE
        return (alg.add if meth == 'next' else alg.sub)(aval(m, a[0]), n)
    if sq == 'std::shuffle':
        b = aval(m, a[0])
        k = m.prog.kind(m.prog.kind(m.etype(peel(a[0])))[1])
        if k[0] in ('i', 'r') and isinstance(b, N) and b.c is None and isinstance(b.v, Ref):
            m.event(sq, None, [contents(m, b, alg.sub(aval(m, a[1]), b), k)], e)
            whole_havoc(m, b.v, sq)
            return None
    if sq in ('std::sort', 'std::unique', 'std::shuffle', 'std::accumulate') and not (sq == 'std::sort' and len(a) == 3):
        args = [m.e_any(x) for x in a]
        m.event(sq, None, args, e)
        b = args[0]
        b = m.load(b.ref, ('p', '', 'raw')) if isinstance(b, I.LV) else b
        k = m.prog.kind(m.prog.kind(m.etype(peel(a[0])))[1])
        if sq in ('std::sort', 'std::unique') and len(a) == 2 and k[0] in ('i', 'r'):
            # the content is replaced by a function of the old content
            e = aval(m, a[1])
            n = alg.sub(e, b)
            it = alg.fresh_it('so', 'i')
            src = alg.seq_([alg.rep_(n, it, alg.seq_([alg.wr_(TRUE, (leaf(pa(it)),), m.load(alg.add(b, leaf(pa(it))), k))]))])
            jt = alg.fresh_it('sp', 'i')
            cnt = n if sq == 'std::sort' else atom_n('unq', (src, n), 'i')
            n0 = len(m.log)
            m.store(alg.add(b, leaf(pa(jt))), atom_n('srt' if sq == 'std::sort' else 'uni', (src, n, leaf(pa(jt))), k[0]))
            for en in m.log[n0:]:
                en.q = en.q + [(jt, cnt)]
            return None if sq == 'std::sort' else alg.add(b, cnt)
        for r in leafset(b):
            if isinstance(r, Ref):
                m.havoc(leaf(Ref(r.loc[:-1])), sq)
        if sq == 'std::unique':
            m.heap += 1
            return alg.add(b, leaf(pa(atom('rd', (('UQ', m.heap),), 'i'))))
        return None
    if sq in ('std::sort', 'std::stable_sort') and len(a) in (2, 3):
        # the elements move to the positions given by the order of all pairs
        b, x = aval(m, a[0]), aval(m, a[1])
        k = m.prog.kind(m.prog.kind(m.etype(peel(a[0])))[1])
        if k[0] not in ('i', 'r'):
            raise Undecided(sq)
        n = alg.sub(x, b)
        it, jt, kt = (alg.fresh_it(z, 'i') for z in ('oi', 'oj', 'ok'))
        l, r = (I.LV(alg.add(b, leaf(pa(z)))) for z in (it, jt))
        n0 = len(m.log)
        v = apply_to(m, m.e_any(a[2]), [l, r], e) if len(a) == 3 else alg.lt(m.load(l.ref, k), m.load(r.ref, k))
        if isinstance(v, I.LV):
            v = m.load(v.ref, ('b',))
        if any(en.loc[0][0] != 'L' for en in m.log[n0:]):
            raise Undecided('comparison with side effects')
        cm = alg.seq_([alg.rep_(n, it, alg.seq_([alg.rep_(n, jt, alg.seq_([alg.wr_(TRUE, (leaf(pa(it)), leaf(pa(jt))), alg.truth(v))]))]))])
        pi = atom_n('ord' if sq == 'std::stable_sort' or len(a) == 2 else 'uord', (cm, n, leaf(pa(kt))), 'i')
        val = m.load(alg.add(b, pi), k)
        n0 = len(m.log)
        m.store(alg.add(b, leaf(pa(kt))), val)
        for en in m.log[n0:]:
            en.q = en.q + [(kt, n)]
        return None
    if sq in ('std::any_of', 'std::all_of', 'std::none_of') and len(a) == 3:
        b, x, f = aval(m, a[0]), aval(m, a[1]), m.e_any(a[2])
        if isinstance(f, I.Lam) and len(f.fns) == 1 or isinstance(f, I.Lam) and len({g.get('q') for g in f.fns}) == 1:
            it = alg.fresh_it('an', 'i')
            n0 = len(m.log)
            v = m.call_lambda(f, [I.LV(alg.add(b, leaf(pa(it))))], dict(e, f=None))
            if any(en.loc[0][0] != 'L' for en in m.log[n0:]):
                raise Undecided('predicate with side effects')
            if isinstance(v, I.LV):
                v = m.load(v.ref, ('b',))
            n = alg.sub(x, b)
            if sq == 'std::all_of':
                return alg.fold_(n, it, 'all', v, TRUE)
            r = alg.fold_(n, it, 'any', v, FALSE)
            return bnot(r) if sq == 'std::none_of' else r
    if sq in ('std::make_pair',):
        ref = m.temp('pair')
        ta = targs(m.etype(e))
        for f, x, y in (('first', a[0], ta[0]), ('second', a[1], ta[1])):
            m.assign(m.field(ref, f), y, m.e_any(x))
        return I.Obj(ref, m.etype(e))
    # ---- strings and streams
    if sq == 'B64Converter::getBase64FromVector':
        r = ref_of(m, m.lv(a[0]))
        t = targs(m.etype(peel(a[0])))[0]
        snap = leaf(Ref(m.new_heap('B64')))
        m.copy_obj(snap, r, m.etype(peel(a[0])))
        n = m.size_of(r)
        m.store(m.field(snap, '#size'), n)
        d = ref_of(m, m.lv(a[1]))
        m.store(d, leaf(S((('n', leaf(Ob('b64:' + t, snap.v))),))))
        m.event('b64', None, [snap, n], e)
        return None
    if sq == 'std::to_string':
        return iomodel.number(aval(m, a[0]), 'f' if m.prog.kind(m.etype(a[0]))[0] == 'r' else None)
    if sq == 'std::operator+' and m.prog.kind(m.etype(e))[0] == 'str':
        x, y = aval(m, a[0]), aval(m, a[1])
        return cat(tostr(x), tostr(y))
    if sq == 'std::operator==' and len(a) == 2 and 'str' in (m.prog.kind(m.etype(a[0]))[0], m.prog.kind(m.etype(a[1]))[0]):
        return streq(tostr(aval(m, a[0])), tostr(aval(m, a[1])))
    if sq in ('std::operator!=', 'std::operator==', 'std::operator<', 'std::operator-', 'std::operator>', 'std::operator+') and len(a) == 2 and \
            m.prog.kind(m.etype(peel(a[0])))[0] == 'p':
        return m.binop(meth[8:], aval(m, a[0]), aval(m, a[1]), ('p',), ('p',))
    if sq.startswith('std::basic_string::'):
        if meth in ('operator+=', 'push_back', 'append', 'size', 'length') and m.strout:
            # text handed over by the caller: what is appended is output
            o = m.lv(peel(e['obj']))
            if isinstance(o, I.LV) and o.ref.c is None and isinstance(o.ref.v, Ref) and o.ref.v.loc and o.ref.v.loc[0][0] in ('A', 'D'):
                cnt = m.field(o.ref, '#appended')
                if meth in ('size', 'length'):
                    return alg.add(alg.fn('strlen', o.ref, typ='i'), m.load(cnt, ('i',)))
                if len(a) == 1:
                    t = iomodel.text_of(m, aval(m, a[0]), m.etype(peel(a[0])))
                    if t.c is None and isinstance(t.v, S):
                        n = FALSE
                        for q in t.v.parts:
                            n = alg.add(n, num(len(q[1])) if q[0] == 'l' else TRUE if 'chr' in str(q[1])[:4] else alg.fn('strlen', leaf(S((q,))), typ='i'))
                        m.event('<<', None, [leaf(alg.Ob('text', o.ref.v.loc)), t], e)
                        m.store(cnt, alg.add(m.load(cnt, ('i',)), n))
                        return o
                raise Undecided('text ' + meth)
        if meth in ('operator=', 'operator+=', 'push_back', 'append') and len(a) == 1:
            o = m.lv(peel(e['obj']))
            v = tostr(aval(m, a[0]))
            if meth != 'operator=':
                meth = 'operator+='
            if meth == 'operator+=':
                v = cat(m.load(o.ref, ('str',)), v)
            m.store(o.ref, v)
            return o
        v = m.ev(peel(e['obj']))
        if meth in ('c_str', 'data'):
            return v
        if meth in ('size', 'length'):
            return alg.fn('strlen', v, typ='i')
        if meth == 'empty':
            return streq(v, leaf(S(())))
        if meth in ('at', 'front'):
            return charat(v, aval(m, a[0]) if a else FALSE)
        if meth in ('find_last_of', 'rfind', 'find', 'find_first_of') and a:
            args = [tostr(v), aval(m, a[0])]
            if meth in ('rfind', 'find_last_of') and m.prog.kind(m.etype(a[0]))[0] == 'i':
                meth = 'rfind'
            return alg.fn('str:' + meth, *args, typ='i')
        if meth == 'substr':
            return mapleaves(alg.fn('str:substr', tostr(v), *[aval(m, x) for x in a if x.get('k') != 'Default'], typ='s'), lambda x: leaf(S((('n', leaf(x)),))))
        if meth == 'replace' and len(a) == 3:
            o = m.lv(peel(e['obj']))
            m.store(o.ref, mapleaves(alg.fn('str:replace', tostr(v), aval(m, a[0]), aval(m, a[1]), tostr(aval(m, a[2])), typ='s'), lambda x: leaf(S((('n', leaf(x)),)))))
            return o
        if meth == 'operator[]':
            return charat(v, aval(m, a[0]))
        return NotImplemented
    r = iomodel.call(m, e, sq, meth, a)
    if r is not NotImplemented:
        return r
    if sq in ('printf', 'std::printf', 'puts', 'fflush') or sq.startswith('spdlog::'):
        args = []
        for x in a:
            try:
                args.append(aval(m, x))
            except Undecided:
                args.append(None)
        m.event(sq, None, args, e)
        return FALSE
    if sq == 'mkdir':
        args = [aval(m, x) for x in a]
        ev = m.event(sq, None, args, e)
        return alg.fn('mkdir', args[0], typ='i')
    if sq in _NOOP:
        for x in a:
            m.e_any(x)
        return FALSE if m.prog.kind(m.etype(e))[0] == 'i' else None
    if sq in ('exit', 'std::exit', 'std::abort', 'abort', 'MPI_Abort', 'std::terminate'):
        m.event(sq, None, [], e)
        m.abort(sq)
        return None
    if sq in ('omp_get_thread_num', 'omp_get_max_threads', 'omp_get_num_threads'):
        return leaf(pa(atom('rd', (('G', '#' + sq),), 'i')))
    # ---- Teuchos
    if sq in ('Teuchos::ScalarTraits::one', 'Teuchos::ScalarTraits::zero'):
        return TRUE if meth == 'one' else FALSE
    if sq == 'Teuchos::OrdinalTraits::invalid':
        return num(-1)
    if sq.startswith('Teuchos::Comm::') or sq.startswith('Teuchos::MpiComm::'):
        if meth in ('getRank', 'getSize'):
            return leaf(pa(atom('rd', (('G', '#' + meth),), 'i')))
        m.event('barrier', None, [], e)
        return None
    if sq in ('Teuchos::TestForException_getThrowNumber',):
        return FALSE
    if sq in ('Teuchos::PerformanceMonitorBase::getNewCounter', 'Teuchos::PerformanceMonitorBase::getNewTimer', 'Teuchos::TimeMonitor::getNewCounter'):
        return leaf(Ref(m.new_heap('timer')))
    if sq == 'Teuchos::Describable::description':
        return leaf(S((('l', 'desc'),)))
    if sq == 'Teuchos::reduceAll':
        op = None
        rest = a[1:]
        v0 = m.e_any(rest[0])
        t0 = m.etype(peel(rest[0]))
        mm = re.search(r'(Sum|Max|Min)ValueReductionOp', t0)
        if mm:
            op = mm.group(1).lower()
        else:
            op = {0: 'sum', 1: 'min', 2: 'max', 3: 'and'}.get(constidx(v0) if isinstance(v0, N) else None)
            if op is None:
                op = str(v0)
                for kx in ('sum', 'min', 'max'):
                    if kx.upper() in op.upper():
                        op = kx
        if len(rest) == 4:
            n = constidx(aval(m, rest[1]))
            s, d = aval(m, rest[2]), aval(m, rest[3])
            t = m.prog.kind(m.prog.kind(m.etype(peel(rest[3])))[1])
            if n is None:
                # as many elements as the count says: the call itself is compared, the destination is unknown afterwards
                m.event('reduceAll', None, [op, aval(m, rest[1]), [m.load(s, t)]], e)
                m.havoc(d, 'reduce')
                return None
            if n > 64:
                raise Undecided('reduceAll count')
            vals = []
            if n == 1 and t[0] not in ('r', 'i'):
                vals = [None]
            else:
                vals = [m.load(alg.add(s, num(i)) if n > 1 else s, t) for i in range(n)]
            m.event('reduceAll', None, [op, num(n), vals], e)
            for i, v in enumerate(vals):
                if v is None:
                    m.havoc(d, 'reduce')
                    continue
                r = alg.fn('allreduce_' + op, v, typ='i' if t[0] == 'i' else 'r')
                m.store(alg.add(d, num(i)) if n > 1 else d, r)
            return None
        if len(rest) == 3:
            v = aval(m, rest[1])
            d = aval(m, rest[2])
            if isinstance(d, I.LV):
                d = d.ref
            if isinstance(v, N):
                m.event('reduceAll', None, [op, num(1), [v]], e)
                m.store(ref_of(m, d), alg.fn('allreduce_' + op, v, typ='r'))
                return None
        return NotImplemented
    if sq in ('Teuchos::TimeMonitor::summarize', 'Teuchos::TimeMonitor::zeroOutTimers'):
        m.event(sq, None, [], e)
        return None
    # ---- FDPS
    if sq.startswith('ParticleSimulator::ParticleSystem::'):
        r = recv(m, e)
        if meth == 'operator[]':
            return I.LV(m.elem(m.field(r, '#ptcl'), aval(m, a[0])))
        if meth == 'getNumberOfParticleLocal':
            return m.load(m.field(r, '#n'), ('i',))
        if meth == 'getNumberOfParticleGlobal':
            m.event(sq, r, [], e)
            return m.load(m.field(r, '#nglob'), ('i',))
        if meth == 'setNumberOfParticleLocal':
            n = aval(m, a[0])
            m.event(sq, r, [n], e)
            m.store(m.field(r, '#n'), n)
            return None
        if meth == 'addOneParticle':
            x = ref_of(m, m.lv(a[0]))
            n = m.load(m.field(r, '#n'), ('i',))
            m.event(sq, r, [x], e)
            m.copy_obj(m.elem(m.field(r, '#ptcl'), n), x, m.etype(a[0]))
            m.store(m.field(r, '#n'), alg.add(n, TRUE))
            return None
        args = [m.e_any(x) for x in a]
        if meth in ('adjustPositionIntoRootDomain', 'exchangeParticle'):
            args.append(ptcl_snapshot(m, r, m.etype(peel(e['obj']))))
        m.event(sq, r, args, e)
        if meth in ('adjustPositionIntoRootDomain', 'exchangeParticle'):
            m.havoc(m.field(r, '#ptcl'), meth)
            if meth == 'exchangeParticle':
                m.havoc(m.field(r, '#n'), meth)
        return None
    if sq.startswith('ParticleSimulator::DomainInfo::') or sq.startswith('ParticleSimulator::TreeForForce::'):
        r = recv(m, e)
        if meth == 'getForce':
            return I.Obj(m.elem(m.field(r, '#force'), aval(m, a[0])), m.etype(e))
        args = [aval(m, x) if x.get('k') != 'Default' else None for x in a]
        if meth.startswith('calcForce'):
            for x in a:
                if strip(m.etype(peel(x)).replace('const ', '')).startswith('ParticleSimulator::ParticleSystem'):
                    args.append(ptcl_snapshot(m, ref_of(m, m.lv(peel(x))), m.etype(peel(x))))
        m.event(sq, r, args, e)
        if meth.startswith('calcForce'):
            whole_havoc(m, m.field(r, '#force').v, sq)
        return None
    if sq in ('ParticleSimulator::Comm::synchronizeConditionalBranchAND', 'ParticleSimulator::Comm::synchronizeConditionalBranchOR'):
        v = alg.truth(aval(m, a[0]))
        m.event(sq, None, [v], e)
        return alg.boolatom(atom('allreduce:' + meth[-3:], (v,), 'b'))
    if sq.startswith('Zoltan_DD::') and meth in ('Find', 'Update', 'Create'):
        r = recv(m, e)
        args = [aval(m, x) for x in a]
        if meth == 'Create':
            args = args[1:]
        if meth == 'Update' or meth == 'Find':
            args[0] = contents(m, args[0], args[4], ('i',))
        m.event(sq, r, args, e)
        f = m.field(r, '#st')
        old = m.load(f, ('i',))
        if meth != 'Find':
            m.store(f, alg.fn('dd:' + meth, old, num(m.ordinal(sq)), typ='i'))
        elif isinstance(args[2], N) and args[2].c is None and isinstance(args[2].v, Ref):
            whole_havoc(m, args[2].v, sq)
        return alg.fn('dd:status', num(m.ordinal(sq)), typ='i')
    if sq == 'ParticleSimulator::Vector3::operator=' and len(a) == 1:
        l = m.lv(e['obj'])
        x = m.e_any(a[0])
        if isinstance(x, (I.LV, I.Obj)):
            m.copy_obj(l.ref, x.ref, 'ParticleSimulator::Vector3<double>')
            return l
    if sq == 'ParticleSimulator::Vector3::operator[]':
        r = recv(m, e)
        c = constidx(aval(m, a[0]))
        if c is None:
            raise Undecided('Vector3 index')
        return I.LV(m.field(r, 'xyz'[c]))
    if sq.startswith('trng::') and meth in ('seed', 'split') and '_dist' not in sq:
        # position in the random sequence; splitting in one part changes nothing
        r = recv(m, e)
        f = m.field(r, '#st')
        x = [aval(m, y) for y in a]
        if meth == 'seed':
            m.store(f, alg.fn('rng:seed', *x, typ='i'))
        else:
            old = m.load(f, ('i',))
            m.store(f, alg.ite(alg.eq(x[0], TRUE), old, alg.fn('rng:split', old, *x, typ='i')))
        return None
    if sq.startswith('trng::') and meth == 'operator=':
        m.copy_obj(recv(m, e), ref_of(m, m.e_any(a[0])))
        return I.LV(recv(m, e))
    if sq.startswith('trng::') and meth == 'operator()':
        n = m.rngcount.get(sq, 0)
        m.rngcount[sq] = n + 1
        eng = [m.e_any(x) for x in a]
        m.event(sq, recv(m, e), [v.ref if isinstance(v, (I.LV, I.Obj)) else v for v in eng], e)
        return leaf(pa(atom('rd', (('RNG', sq, n),) + m.itidx(), 'r')))
    if sq == 'createMPIStructType':
        return leaf(Ref((('G', '#mpitype', str(e.get('ta'))),)))
    if sq.startswith('MPI_'):
        args = []
        for x in a:
            try:
                args.append(aval(m, x))
            except Undecided:
                args.append(None)
        if sq == 'MPI_Allreduce':
            # the same as Teuchos::reduceAll over all ranks
            op = str(args[4])
            op = next((k for k in ('sum', 'min', 'max') if k in op), None)
            n = constidx(args[2]) if args[2] is not None else None
            src = args[1] if args[0] is not None and args[0].c is None and not isinstance(args[0].v, Ref) else args[0]
            ty = str(args[3])
            t = ('r',) if 'double' in ty or 'float' in ty else ('i',) if 'int' in ty or 'long' in ty else None
            if op and n and n <= 64 and t and 'world' in str(args[5]) and isinstance(src, N):
                vals = [m.load(alg.add(src, num(i)) if n > 1 else src, t) for i in range(n)]
                m.event('reduceAll', None, [op, num(n), vals], e)
                for i, v in enumerate(vals):
                    m.store(alg.add(args[1], num(i)) if n > 1 else args[1], alg.fn('allreduce_' + op, v, typ=t[0]))
                return FALSE
        m.event(sq, None, [_buffer(m, x, v) for x, v in zip(a, args)] if sq in _MPIBUF else args, e)
        if sq == 'MPI_Initialized' and isinstance(args[0], N):
            m.store(args[0], leaf(pa(atom('rd', (('G', '#MPI_Initialized'),), 'i'))))
            return FALSE
        if sq in ('MPI_Comm_rank', 'MPI_Comm_size') and isinstance(args[1], N):
            m.store(args[1], leaf(pa(atom('rd', (('G', '#getRank' if 'rank' in sq else '#getSize'),), 'i'))))
            return FALSE
        if sq in ('MPI_Allreduce', 'MPI_Reduce', 'MPI_Bcast', 'MPI_Gather', 'MPI_Gatherv', 'MPI_Scatterv', 'MPI_Allgather', 'MPI_Allgatherv',
                  'MPI_Recv', 'MPI_Alltoall', 'MPI_Alltoallv'):
            ri = {'MPI_Bcast': 0, 'MPI_Recv': 0, 'MPI_Allreduce': 1, 'MPI_Reduce': 1, 'MPI_Gather': 3, 'MPI_Gatherv': 3, 'MPI_Scatterv': 4,
                  'MPI_Allgather': 3, 'MPI_Allgatherv': 3, 'MPI_Alltoall': 3, 'MPI_Alltoallv': 4}[sq]
            d = args[ri]
            if isinstance(d, N):
                for r, g in alg.leaves(d):
                    if isinstance(r, Ref):
                        whole_havoc(m, r, sq)
        return FALSE
    return NotImplemented


_MPIBUF = ('MPI_Reduce', 'MPI_Bcast', 'MPI_Gather', 'MPI_Gatherv', 'MPI_Scatterv', 'MPI_Allgather', 'MPI_Allgatherv', 'MPI_Alltoall',
           'MPI_Alltoallv', 'MPI_Allreduce')


def ptcl_snapshot(m, r, t):
    """what a library call that looks at all particles of the system at r sees"""
    ta = targs(t)
    if not ta:
        raise Undecided('particle system of %s' % t)
    snap = leaf(Ref(m.new_heap('PS')))
    m.copy_obj(snap, m.field(r, '#ptcl'), 'std::vector<%s>' % ta[0])
    m.set_size(snap, m.load(m.field(r, '#n'), ('i',)))
    return snap


def apply_to(m, f, args, e):
    """calls a lambda or function object"""
    I = IV()
    if isinstance(f, I.Lam):
        return m.call_lambda(f, args, dict(e, f=None))
    if isinstance(f, (I.Obj, I.LV)):
        t = getattr(f, 't', None) or ''
        for g in m.prog.byq.get(strip(t) + '::operator()', []):
            if g.get('body') and len(g['params']) == len(args) and g['q'].startswith(t + '::'):
                return m.call_function(g, f.ref, args, e)
    raise Undecided('call of %r' % (f,))


def whole_havoc(m, r, tag):
    """the storage r points into is overwritten by the result of an operation whose arguments are recorded as an event"""
    loc = r.loc[:-1] if isinstance(r.loc[-1], P) and alg.pzero(r.loc[-1]) else r.loc
    n = m.ordinal(('X', tag))
    size = None
    if loc is not r.loc:
        size = m.size_of(leaf(Ref(loc)))  # the number of elements does not change
    m.put(loc, (('Y', tag, n),) + m.itidx(), m.pc, 'havoc')
    if size is not None:
        m.set_size(leaf(Ref(loc)), size)


def contents(m, b, n, k):
    it = alg.fresh_it('cn', 'i')
    v = alg.restrict(m.load(alg.add(b, leaf(pa(it))), k), band(alg.le(FALSE, leaf(pa(it))), alg.lt(leaf(pa(it)), n)))
    return alg.seq_([alg.rep_(n, it, alg.seq_([alg.wr_(TRUE, (leaf(pa(it)),), v)]))])


def _buffer(m, x, v):
    """what a message buffer argument holds"""
    if not isinstance(v, N) or v.c is not None or not isinstance(v.v, Ref):
        return v
    x = peel(x)
    k = m.prog.kind(m.etype(x))
    k = m.prog.kind(k[1]) if k[0] == 'p' else ('o',)
    loc = v.v.loc
    if loc[0][0] == 'G' or 'ompi_' in str(k) or 'MPI_' in m.etype(x):
        return v
    try:
        if isinstance(loc[-1], P) and alg.pzero(loc[-1]):
            n = m.size_of(leaf(Ref(loc[:-1])))
            return contents(m, v, n, k) if k[0] in ('i', 'r') else alg.seq_([alg.wr_(TRUE, (), n)])
        return m.load(v, k) if k[0] in ('i', 'r') else v
    except Undecided:
        return v


def yaml(m, e, sq, meth, a):
    """a node is an address in the document: node[key] / node[i] below it, its scalar per requested type, whether it is defined"""
    I = IV()
    if meth == 'LoadFile':
        return I.Obj(m.field(leaf(Ref((('G', '#yaml', aval(m, a[0])),))), '#root'))
    if sq == 'YAML::detail::iterator_base::operator*':
        return I.LV(m.load(ref_of(m, m.lv(peel(e['obj']))), ('p', '')))
    if sq == 'YAML::detail::iterator_base::operator->':
        return m.load(ref_of(m, m.lv(peel(e['obj']))), ('p', ''))
    if e.get('obj') is None:
        return NotImplemented
    r = recv(m, e)
    if meth == 'operator[]':
        k = m.e_any(a[0])
        if isinstance(k, I.LV):
            k = m.rv(k, m.etype(a[0]))
        if isinstance(k, N) and k.c is None and isinstance(k.v, P):
            return I.Obj(m.elem(r, k))
        if isinstance(k, N) and k.c is None and isinstance(k.v, S) and all(x[0] == 'l' for x in k.v.parts):
            return I.Obj(m.field(r, 'key ' + ''.join(x[1] for x in k.v.parts)))
        raise Undecided('computed document key')
    if meth == 'size':
        return m.size_of(r)
    if meth in ('operator bool', 'IsDefined'):
        return m.load(m.field(r, '#def'), ('b',))
    if meth == 'operator!':
        return bnot(m.load(m.field(r, '#def'), ('b',)))
    if meth == 'as':
        t = m.etype(e)
        k = m.prog.kind(t)
        return m.load(m.field(r, '#as ' + t.split('<')[0]), k)
    return NotImplemented


def container(m, e, sq, meth, a):
    I = IV()
    if e.get('obj') is None:
        return NotImplemented
    r = recv(m, e)
    t = rtype(m, e)
    k = m.prog.kind(t)
    et = k[1] if k[0] in ('vec', 'arr') else None
    if meth in ('operator[]', 'at'):
        return I.LV(m.elem(r, aval(m, a[0])))
    if meth == 'size':
        return num(k[2]) if k[0] == 'arr' else m.size_of(r)
    if meth == 'empty':
        return alg.eq(m.size_of(r), FALSE)
    if meth in ('begin', 'cbegin', 'data'):
        return m.elem(r, FALSE)
    if meth in ('end', 'cend'):
        return m.elem(r, num(k[2]) if k[0] == 'arr' else m.size_of(r))
    if meth == 'back':
        n = num(k[2]) if k[0] == 'arr' else m.size_of(r)
        return I.LV(m.elem(r, alg.sub(n, TRUE)))
    if meth == 'front':
        return I.LV(m.elem(r, FALSE))
    if meth == 'fill' and k[0] == 'arr':
        v = aval(m, a[0])
        for i in range(k[2]):
            m.store(m.elem(r, num(i)), v)
        return None
    if et is None:
        return NotImplemented
    ek = m.prog.kind(et)
    if meth in ('push_back', 'emplace_back'):
        app = any(x in et for x in m.append)
        n = None if app else m.size_of(r)
        el = m.temp('app') if app else m.elem(r, n)
        if meth == 'push_back':
            v = m.e_any(a[0])
            if isinstance(v, I.LV) and ek[0] not in ('r', 'i', 'b', 'p', 'str', 'mat', 'q'):
                v = I.Obj(v.ref)
            if isinstance(v, N) and ek[0] not in ('r', 'i', 'b', 'p', 'str'):
                v = I.Obj(v)
            m.assign(el, et, v)
        else:
            args = []
            for x in a:
                v = m.e_any(x)
                if isinstance(v, I.LV) and m.prog.kind(m.etype(x))[0] in ('r', 'i', 'b', 'p', 'str'):
                    v = m.rv(v, m.etype(x))
                elif isinstance(v, (I.LV, I.Obj)) and m.prog.kind(m.etype(x))[0] == 'arr':
                    v = m.elem(v.ref, FALSE)
                args.append(v)
            build(m, el, et, args)
        if app:
            vals = [m.load(alg.mapleaves(el, lambda x, p=p: leaf(I.Ref(x.loc + p))), kk) for p, kk in m.leaves_of(et)]
            m.event('append', r, vals or [el], e)
            m.set_size(r, alg.add(m.size_of(r), TRUE))
            return None
        m.event('push_back', r, [el], e)
        m.set_size(r, alg.add(n, TRUE))
        return None
    if meth == 'clear':
        m.event('clear', r, [], e)
        m.set_size(r, FALSE)
        return None
    if meth in ('resize', 'assign'):
        n = aval(m, a[0])
        old = m.size_of(r)
        has = len(a) > 1 and a[1].get('k') != 'Default'
        m.event(meth, r, [n] + ([aval(m, a[1])] if has else []), e)
        # elements beyond the old size are value initialised
        it = alg.fresh_it('rs', 'i')
        i_ = leaf(pa(it))
        if meth == 'assign':
            old = FALSE
        n0 = len(m.log)
        el = m.elem(r, alg.add(old, i_) if old is not FALSE else i_)
        if has and ek[0] in ('r', 'i', 'b', 'p', 'str'):
            m.store(el, aval(m, a[1]))
        elif ek[0] in ('r', 'i', 'b', 'p'):
            m.store(el, m.zero(ek))
        elif ek[0] == 'str':
            m.store(el, leaf(S(())))
        else:
            m.zero_fill(el)
            if ek[0] == 'vec':
                m.set_size(el, FALSE)
            elif ek[0] == 'rec' and m.prog.rec.get(et):
                m.default_members(el, et)
        T = alg.sub(n, old) if old is not FALSE else n
        for en in m.log[n0:]:
            en.q = en.q + [(it, T)]
        m.set_size(r, n)
        return None
    if meth == 'operator=':
        v = m.lv(a[0])
        m.copy_obj(r, ref_of(m, v))
        return I.LV(r)
    if meth == 'erase':
        for x in a:
            m.e_any(x)
        m.event('erase', r, [], e)
        m.havoc(r, 'erase')
        return I.poison('erase', 'o')
    if meth == 'pop_back':
        m.set_size(r, alg.sub(m.size_of(r), TRUE))
        return None
    if meth in ('reserve', 'shrink_to_fit'):
        for x in a:
            m.e_any(x)
        return None
    if meth == 'swap':
        o = ref_of(m, m.lv(a[0]))
        t1 = m.temp('swap')
        m.copy_obj(t1, r)
        m.copy_obj(r, o)
        m.copy_obj(o, t1)
        return None
    return NotImplemented

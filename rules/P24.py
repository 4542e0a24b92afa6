"""closest points of segments"""
import alg
from rule import A, conforms
TUS = ['SylinderSystem', 'Sylinder', 'spec_dist']


def check(c, p):
    conforms(c, p, 'DistPointSeg', 'pointSegment', 'point and segment')

    def at(m, i, k):
        return m.elem(A(i), alg.num(k))

    def pre(m):
        m.autocut = 8
        # every input is written as P0, P0 + u, P0 - r, P0 - r + w, a change of variables; the products are then named
        u, w, r = ([m.load(at(m, i, k), ('r',)) for k in range(3)] for i in (1, 3, 2))
        for k in range(3):
            o = m.load(at(m, 0, k), ('r',))
            m.store(at(m, 1, k), alg.add(o, u[k]))
            m.store(at(m, 2, k), alg.sub(o, r[k]))
            m.store(at(m, 3, k), alg.add(alg.sub(o, r[k]), w[k]))
        for x, y in ((u, u), (u, w), (w, w), (u, r), (w, r)):
            s = alg.num(0)
            for k in range(3):
                s = alg.add(s, alg.mul(x[k], y[k]))
            if s.v.d and len(s.v.d) > 1:
                alg.cut(s.v)
    conforms(c, p, 'DCPQuery::operator()', 'segmentSegment', 'two segments', nparams=8, pre=pre, only=lambda l: l[0] != ('this',))

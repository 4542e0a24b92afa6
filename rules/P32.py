"""lists of points on all ranks"""
from rule import conforms
TUS = ['PointDistribution', 'spec_util']
EV = lambda e: e.name.startswith(('MPI_', 'collectPts', 'open', '<<', 'fclose'))


def pre(m):
    import alg
    m.facts = alg.le(alg.num(1), alg.leaf(alg.pa(alg.atom('rd', (('G', '#getSize'),), 'i'))))


def check(c, p):
    conforms(c, p, 'shiftAndScalePoints', 'pointsScale', 'scaling')
    conforms(c, p, 'fixedPoints', 'pointsFixed', 'fixed points', events=EV)
    conforms(c, p, 'distributePts', 'pointsSplit', 'splitting', events=EV)
    conforms(c, p, 'collectPts', 'pointsGather', 'gathering', events=EV, pre=pre)
    conforms(c, p, 'collectPtsAll', 'pointsAll', 'gathering everywhere', events=EV, opaque=('collectPts',))
    conforms(c, p, 'dumpPoints', 'pointsDump', 'dump', events=EV, opaque=('collectPts',), aborts=True)

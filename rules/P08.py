"""constraint assembly"""
from rule import conforms
TUS = ['ConstraintCollector', 'TpetraUtil', 'spec_con']
C = 'ConstraintCollector::'


def check(c, p):
    conforms(c, p, C + 'ConstraintCollector', 'collectorMake', 'one queue per thread', nparams=0)
    conforms(c, p, C + 'clear', 'collectorClear', 'queues cleared')
    conforms(c, p, C + 'getLocalNumberOfConstraints', 'collectorCount', 'count')
    conforms(c, p, C + 'buildConIndex', 'conIndex', 'queue offsets')
    conforms(c, p, C + 'sumLocalConstraintStress', 'stress', 'stress sum')
    conforms(c, p, C + 'writeBackGamma', 'writeBack', 'force write back')
    conforms(c, p, C + 'buildConstraintMatrixVector', 'matrix', 'constraint matrix and vectors')

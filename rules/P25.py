"""global statistics"""
from rule import conforms
TUS = ['SylinderSystem', 'Sylinder', 'spec_forces', 'spec_setup']
USES = [('P08', ('ConstraintCollector::sumLocalConstraintStress',))]
S = 'SylinderSystem::'


def check(c, p):
    red = lambda e: 'educe' in e.name
    conforms(c, p, S + 'calcBoundingBox', 'boundingBox', 'bounding box', events=red)
    conforms(c, p, S + 'getMaxGid', 'maxGid', 'largest id', events=red)
    rec = lambda e: 'educe' in e.name or e.name.startswith('spdlog')
    conforms(c, p, S + 'calcVolFrac', 'volFrac', 'volume fraction', events=rec)
    conforms(c, p, S + 'calcOrderParameter', 'orderParameter', 'order parameter', events=rec)
    st = ('ConstraintCollector::sumLocalConstraintStress',)
    conforms(c, p, S + 'calcConStress', 'conStress', 'collision stress', opaque=st, clobber=st, events=lambda e: rec(e) or e.name in st)

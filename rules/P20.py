"""thermal noise"""
from rule import conforms
TUS = ['SylinderSystem', 'Sylinder', 'spec_forces', 'spec_iface']
USES = [('P12', ('Sylinder::calcDragCoeff',)), ('P31', ('EquatnHelper::rotateEquatn',))]
S = 'SylinderSystem::'


def check(c, p):
    conforms(c, p, S + 'calcVelocityBrown', 'calcVelocityBrown', 'thermal velocity', pure={'Sylinder::calcDragCoeff': {}, 'EquatnHelper::rotateEquatn': {0: 'inout'}}, opaque=('TRngPool::getN01/1',), events=lambda e: e.name.startswith('TRngPool::'))
    conforms(c, p, 'TRngPool::TRngPool', 'rngPool', 'random streams', nparams=1)
    T = 'TRngPool::'
    for q, n, one, here in (('getU01', 'u01', 'uniform', 'uniformHere'), ('getN01', 'n01', 'normal', 'normalHere'), ('getLN', 'lnDistPtr', 'lognormal', 'lognormalHere')):
        conforms(c, p, T + q, one, 'draw of a thread', nparams=1, events=lambda e: e.name.startswith('trng::'))
        conforms(c, p, T + q, here, 'draw of a thread', nparams=0, events=lambda e: e.name.startswith('trng::'))
    conforms(c, p, T + 'setLogNormalParameters', 'lognormalSet', 'random streams')

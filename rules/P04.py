"""pair enumeration"""
from rule import conforms
TUS = ['SylinderSystem', 'Sylinder', 'spec_near', 'spec_system']
PAIR = {'CalcSylinderNearForce::' + x: {2: 'unused'} for x in ('sp_sp', 'sp_sy', 'sy_sy')}  # argument 2 is untouched (decided by P03)


def check(c, p):
    C = 'CalcSylinderNearForce::'
    conforms(c, p, 'SylinderNearEP::copyFromFP', 'copyFromFP', 'particle to neighbour copy')
    conforms(c, p, 'SylinderNearEP::getRSearch', 'rsearch', 'search radius')
    conforms(c, p, 'SylinderNearEP::isSphere', 'epSphere', 'shape class')
    conforms(c, p, C + 'isSphere', 'cfSphere', 'shape class')
    conforms(c, p, 'ForceNear::clear', 'clearForce', 'cleared force')
    conforms(c, p, C + 'operator()', 'pairs', 'pair enumeration', pure=PAIR, append=('ConstraintBlock',))
    S = 'SylinderSystem::'
    conforms(c, p, C + 'CalcSylinderNearForce', 'nearFunctor', 'where the contacts go', nparams=1)
    conforms(c, p, S + 'collectPairCollision', 'collectPairCollision', 'sweep over the pairs', opaque=(S + 'setTreeSylinder',),
             events=lambda e: e.name.startswith(('ParticleSimulator::', S)))

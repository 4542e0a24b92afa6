"""time step protocol"""
from rule import conforms
TUS = ['SylinderSystem', 'Sylinder', 'TpetraUtil', 'spec_system']
S = 'SylinderSystem::'


def check(c, p):
    st = tuple(S + x for x in ('calcVelocityBrown', 'calcVelocityNonCon', 'resolveConstraints', 'saveForceVelocityConstraints',
                               'sumForceVelocity', 'writeResult', 'stepEuler'))
    conforms(c, p, S + 'runStep', 'runStep', 'order of one time step', opaque=st, clobber=st, events=lambda e: e.name in st)
    conforms(c, p, S + 'getIfWriteResultCurrentStep', 'getIfWriteResultCurrentStep', 'snapshot interval')
    rs = tuple(S + x for x in ('collectPairCollision', 'collectBoundaryCollision', 'collectLinkBilateral', 'saveForceVelocityConstraints')) + \
        tuple('ConstraintSolver::' + x for x in ('setup', 'setControlParams', 'solveConstraints', 'writebackGamma'))
    conforms(c, p, S + 'resolveConstraints', 'resolveConstraints', 'constraint resolution', opaque=rs, clobber=rs,
             events=lambda e: e.name in rs)
    ps = tuple(S + x for x in ('decomposeDomain', 'exchangeSylinder', 'calcMobOperator', 'applyBoxBC', 'updateSylinderMap',
                               'buildSylinderNearDataDirectory'))
    conforms(c, p, S + 'prepareStep', 'prepareStep', 'preparation of a step', opaque=ps, clobber=ps, events=lambda e: e.name in ps)
    conforms(c, p, S + 'updateSylinderMap', 'updateSylinderMap', 'particle indexing', opaque=('getTMAPFromLocalSize',),
             events=lambda e: e.name == 'getTMAPFromLocalSize')
    conforms(c, p, S + 'calcMobOperator', 'calcMobOperator', 'mobility operator', opaque=(S + 'calcMobMatrix',), clobber=(S + 'calcMobMatrix',),
             events=lambda e: e.name == S + 'calcMobMatrix')
    fd = lambda e: e.name.startswith('ParticleSimulator::') and not e.name.endswith('getNumberOfParticleLocal')
    conforms(c, p, S + 'decomposeDomain', 'decomposeDomain', 'domain decomposition', events=fd)
    conforms(c, p, S + 'exchangeSylinder', 'exchangeSylinder', 'particle exchange', events=fd)
    conforms(c, p, S + 'applyBoxBC', 'applyBoxBC', 'periodic wrapping', events=fd)
    conforms(c, p, S + 'buildSylinderNearDataDirectory', 'buildSylinderNearDataDirectory', 'particle directory', opaque=('ZDD::buildIndex',), events=lambda e: e.name == 'ZDD::buildIndex')

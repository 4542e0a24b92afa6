"""domain, tree and initial configuration"""
from rule import conforms
TUS = ['SylinderSystem', 'Sylinder', 'spec_setup']
USES = [('P33', ('Sylinder::Sylinder',)), ('P31', ('EquatnHelper::setUnitRandomEquatn', 'getRandPointInCircle'))]
S = 'SylinderSystem::'


def check(c, p):
    fd = lambda e: e.name.startswith('ParticleSimulator::') and not e.name.endswith(('getNumberOfParticleLocal', 'getNumberOfParticleGlobal'))
    conforms(c, p, S + 'setDomainInfo', 'domainInfo', 'domain', events=fd)
    conforms(c, p, S + 'setTreeSylinder', 'setTree', 'tree', events=fd)
    conforms(c, p, S + 'updateSylinderRank', 'sylinderRank', 'owner rank')
    rn = lambda e: e.name.startswith('TRngPool::') or fd(e)
    r = ('TRngPool::getU01/1', 'TRngPool::getLN/1')
    conforms(c, p, S + 'getOrient', 'orient', 'initial orientation', opaque=r, events=rn)
    conforms(c, p, S + 'setInitialFromConfig', 'initConfig', 'initial configuration', opaque=r + (S + 'setInitialCircularCrossSection',), events=rn, ignore=('colBuf', 'radiusSearch'))
    conforms(c, p, S + 'setInitialCircularCrossSection', 'initCircle', 'circular cross section', opaque=r, events=rn)

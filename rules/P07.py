"""links between particles"""
from rule import conforms
TUS = ['SylinderSystem', 'Sylinder', 'spec_forces']
USES = [('P21', ('ZDD::find', 'ZDD::buildIndex')), ('P29', ('CalcSylinderNearForce::collideStress',)), ('P14', ('SylinderSystem::buildSylinderNearDataDirectory',))]
S = 'SylinderSystem::'


def check(c, p):
    conforms(c, p, S + 'collectLinkBilateral', 'collectLinkBilateral', 'link constraints', opaque=('ZDD::find',), clobber=('ZDD::find',),
             pure={'findPBCImage': {}, 'CalcSylinderNearForce::collideStress': {}}, append=('ConstraintBlock', 'unsigned int'), events=lambda e: e.name == 'ZDD::find')
    conforms(c, p, 'findPBCImage', 'pbcImage', 'image in the box', nparams=3)
    conforms(c, p, 'findPBCImage', 'pbcNearest', 'nearest image', nparams=4)

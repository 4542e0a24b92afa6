"""accessors"""
from rule import conforms
TUS = ['SylinderSystem', 'Sylinder', 'ConstraintOperator', 'spec_iface']
S = 'SylinderSystem::'
GET = ('getSnapID', 'getStepCount', 'getForcePartNonBrown', 'getVelocityPartNonBrown', 'getVelocityNonBrown', 'getVelocityBrown', 'getVelocityNonCon',
       'getForceUni', 'getVelocityUni', 'getForceBi', 'getVelocityBi', 'getMobMatrix', 'getMobOperator', 'getConstraintPoolNonConst', 'getLinkMap',
       'getLinkReverseMap', 'getContainer', 'getContainerNonConst', 'getDomainInfo', 'getDomainInfoNonConst', 'getRngPoolPtr', 'getCommRcp',
       'getSylinderNearDataDirectory')


def check(c, p):
    for g in GET:
        conforms(c, p, S + g, g, 'what a host program reads')
    conforms(c, p, 'ConstraintOperator::getForce', 'opForce', 'what a host program reads')
    conforms(c, p, 'ConstraintOperator::getVel', 'opVel', 'what a host program reads')
    conforms(c, p, 'ConstraintOperator::getDMat', 'opD', 'what a host program reads')
    for q, s in (('Sylinder', 'syl'), ('SylinderNearEP', 'ep')):
        conforms(c, p, q + '::getPos', s + 'Where', 'what the particle library sees')
        conforms(c, p, q + '::setPos', s + 'Place', 'what the particle library sees')
        conforms(c, p, q + '::getGid', s + 'Gid', 'what the particle library sees')
    conforms(c, p, 'Sylinder::Coord', 'sylCoord', 'what the particle library sees')
    conforms(c, p, 'SylinderNearEP::getGlobalIndex', 'epIndex', 'what the particle library sees')
    conforms(c, p, 'Sylinder::Sylinder', 'sylMake', 'a new particle', nparams=7)
    ini = dict(only=lambda loc: False, opaque=(S + 'initialize', 'SylinderConfig::SylinderConfig'), events=lambda e: e.name.startswith(S))
    conforms(c, p, S + 'SylinderSystem', 'fromFile', 'one statement start', nparams=4, pred=lambda f: 'string' in f['T'][f['params'][0]['t']], **ini)
    conforms(c, p, S + 'SylinderSystem', 'fromConfig', 'one statement start', nparams=4, pred=lambda f: 'string' not in f['T'][f['params'][0]['t']], **ini)

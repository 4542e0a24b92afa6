"""particles and links added while running"""
from rule import conforms
TUS = ['SylinderSystem', 'Sylinder', 'spec_setup']
USES = [('P25', ('SylinderSystem::getMaxGid',))]
S = 'SylinderSystem::'


def check(c, p):
    ev = lambda e: e.name.startswith('MPI_') or e.name in ('std::shuffle', S + 'getMaxGid')
    conforms(c, p, S + 'addNewSylinder', 'newSylinder', 'new particles', opaque=(S + 'getMaxGid',), events=ev)
    conforms(c, p, S + 'addNewLink', 'newLink', 'new links', append=('std::pair<const int, int>',), events=ev)

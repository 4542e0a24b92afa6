"""particle motion: explicit Euler translation, exponential quaternion rotation"""
from rule import conforms
TUS = ['SylinderSystem', 'Sylinder', 'spec_system']
USES = [('P31', ('EquatnHelper::rotateEquatn',))]


def check(c, p):
    conforms(c, p, 'Sylinder::stepEuler', 'sylStep', 'Euler step of one particle')
    conforms(c, p, 'SylinderSystem::stepEuler', 'stepEuler', 'Euler step of all particles')

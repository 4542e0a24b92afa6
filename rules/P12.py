"""mobility and drag"""
from rule import conforms

TUS = ['SylinderSystem', 'Sylinder', 'TpetraUtil', 'spec_system']


def check(c, p):
    conforms(c, p, 'Sylinder::isSphere', 'sylSphere', 'shape class')
    conforms(c, p, 'Sylinder::calcDragCoeff', 'sylDrag', 'drag coefficients')
    conforms(c, p, 'SylinderSystem::calcMobMatrix', 'calcMobMatrix', 'mobility matrix', events=lambda e: 'Tpetra' in e.name)

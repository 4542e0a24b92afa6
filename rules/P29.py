"""collision stress"""
from rule import conforms
TUS = ['SylinderSystem', 'Sylinder', 'spec_near']


def check(c, p):
    conforms(c, p, 'CalcSylinderNearForce::collideStress', 'collideStress', 'collision stress')

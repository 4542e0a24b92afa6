"""constraint operator"""
from rule import conforms
TUS = ['ConstraintOperator', 'spec_sol']
C = 'ConstraintOperator::'


def check(c, p):
    conforms(c, p, C + 'ConstraintOperator', 'opMake', 'operator construction', pred=lambda f: len(f['params']) == 3,
             ignore=('transposeDMat', 'applyMobMat', 'applyDMat', 'applyDTransMat'))
    conforms(c, p, C + 'apply', 'opApply', 'operator application')
    conforms(c, p, C + 'getDomainMap', 'opMap', 'domain map')
    conforms(c, p, C + 'getRangeMap', 'opMap', 'range map')

"""constraint solver: problem set up and split of the solution"""
from rule import conforms
TUS = ['ConstraintSolver', 'ConstraintOperator', 'BCQPSolver', 'spec_sol']
USES = [('P14', ('SylinderSystem::resolveConstraints',)), ('P09', ('ConstraintOperator::apply', 'ConstraintOperator::ConstraintOperator')), ('P08', ('ConstraintCollector::buildConIndex', 'ConstraintCollector::buildConstraintMatrixVector', 'ConstraintCollector::writeBackGamma'))]
C = 'ConstraintSolver::'


def check(c, p):
    conforms(c, p, C + 'reset', 'solverReset', 'reset')
    conforms(c, p, C + 'setControlParams', 'solverControl', 'control parameters')
    b = ('ConstraintCollector::buildConstraintMatrixVector',)
    conforms(c, p, C + 'setup', 'solverSetup', 'problem', opaque=b, clobber=b, events=lambda e: e.name in b)
    q = ('BCQPSolver::solveBBPGD', 'BCQPSolver::solveAPGD')
    conforms(c, p, C + 'solveConstraints', 'solverSolve', 'solution and split', opaque=q, clobber=q, events=lambda e: e.name in q)
    w = ('ConstraintCollector::writeBackGamma',)
    conforms(c, p, C + 'writebackGamma', 'solverWriteBack', 'write back', opaque=w, events=lambda e: e.name in w)
    for a, b in (('getForceUni', 'forceUni'), ('getVelocityUni', 'velUni'), ('getForceBi', 'forceBi'), ('getVelocityBi', 'velBi')):
        conforms(c, p, C + a, b, 'accessor ' + a)

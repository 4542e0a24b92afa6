"""solver of the constraint problem: bounds, residual and what the iterations return"""
import solvers
from rule import conforms
TUS = ['BCQPSolver', 'spec_bounds']
B = 'BCQPSolver::'


def check(c, p):
    conforms(c, p, 'BCQPSolver::BCQPSolver', 'bqMake', 'new problem', nparams=2, pred=lambda f: 'RCP' in f['T'][f['params'][0]['t']])
    conforms(c, p, B + 'setLowerBound', 'bqLower', 'bounds')
    conforms(c, p, B + 'setUpperBound', 'bqUpper', 'bounds')
    conforms(c, p, B + 'getLowerBound', 'bqGetLower', 'bounds')
    conforms(c, p, B + 'getUpperBound', 'bqGetUpper', 'bounds')
    conforms(c, p, B + 'prepareSolver', 'bqDefault', 'default bounds')
    conforms(c, p, B + 'setDefaultBounds', 'bqDefault', 'default bounds')
    conforms(c, p, B + 'boundProjection', 'bqProject', 'projection')
    conforms(c, p, B + 'checkProjectionResidual', 'bqResidual', 'residual', aborts=True)
    for q in ('solveBBPGD', 'solveAPGD'):
        solvers.check(c, p, B + q, ('boundProjection',), ('checkProjectionResidual',), True)

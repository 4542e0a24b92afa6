"""solver of the linear complementarity problem"""
import solvers
from rule import conforms
TUS = ['CPSolver', 'spec_bounds']
B = 'CPSolver::'


def check(c, p):
    conforms(c, p, 'CPSolver::CPSolver', 'cpMake', 'new problem', nparams=2, pred=lambda f: 'RCP' in f['T'][f['params'][0]['t']])
    conforms(c, p, B + 'clipZero', 'cpClip', 'projection')
    conforms(c, p, B + 'maxXY', 'cpMax', 'maximum')
    conforms(c, p, B + 'minXY', 'cpMin', 'minimum')
    conforms(c, p, B + 'checkResiduePhi', 'cpPhi3', 'residual', nparams=3)
    conforms(c, p, B + 'checkResiduePhi', 'cpPhi4', 'residual', nparams=4)
    conforms(c, p, B + 'hMinMap', 'cpH', 'minimum map')
    conforms(c, p, 'CPMatOp::CPMatOp', 'cpOpMake', 'operator')
    conforms(c, p, 'CPMatOp::apply', 'cpOpApply', 'operator')
    conforms(c, p, 'CPMatOp::getDomainMap', 'cpOpMap', 'operator')
    conforms(c, p, 'CPMatOp::getRangeMap', 'cpOpMap', 'operator')
    for q in ('LCP_BBPGD', 'LCP_APGD'):
        solvers.check(c, p, B + q, ('clipZero',), ('checkResiduePhi',), False)

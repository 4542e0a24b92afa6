"""contacts with boundaries"""
from rule import conforms
TUS = ['SylinderSystem', 'Sylinder', 'Boundary', 'spec_forces']
USES = [('P12', ('Sylinder::isSphere',)), ('P05', tuple(k + f for k in ('Wall', 'Tube', 'SphereShell') for f in ('::project', '::initialize')))]
S = 'SylinderSystem::'


def check(c, p):
    conforms(c, p, S + 'collectBoundaryCollision', 'collectBoundaryCollision', 'boundary contacts',
             pure={'Boundary::project': {0: ('in', 3), 1: ('out', 3), 2: ('out', 3)}}, append=('ConstraintBlock',))

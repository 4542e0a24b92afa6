from rule import conforms
TUS = ['SylinderSystem', 'Sylinder', 'TpetraUtil', 'spec_system']
USES = [('P26', ('getTVFromVector',))]
def check(c, p):
    S = 'SylinderSystem::'
    conforms(c, p, S + 'sumForceVelocity', 'sumForceVelocity', 'total velocity and force')
    conforms(c, p, S + 'calcVelocityNonCon', 'calcVelocityNonCon', 'velocity without constraints')
    conforms(c, p, S + 'saveForceVelocityConstraints', 'saveForceVelocityConstraints', 'constraint parts')
    conforms(c, p, S + 'setForceNonBrown', 'setForceNonBrown', 'given force', nparams=1, opaque=('getTVFromVector',), events=lambda e: e.name == 'getTVFromVector')
    conforms(c, p, S + 'setVelocityNonBrown', 'setVelocityNonBrown', 'given velocity', opaque=('getTVFromVector',), events=lambda e: e.name == 'getTVFromVector')
    conforms(c, p, 'Sylinder::clear', 'sylClear', 'cleared per particle state')

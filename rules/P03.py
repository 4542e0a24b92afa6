from rule import conforms
TUS = ['SylinderSystem', 'Sylinder', 'spec_near']
USES = [('P24', ('DistPointSeg', 'DCPQuery::operator()')), ('P04', ('SylinderNearEP::copyFromFP',))]
PURE = {'DCPQuery::operator()': {'stateless': True}, 'DistPointSeg': {}, 'CalcSylinderNearForce::collideStress': {}}
NOSTRESS = ('stress',)

def check(c, p):
    C = 'CalcSylinderNearForce::'
    for fn, sp in (('sp_sp', 'spsp'), ('sp_sy', 'spsy'), ('sy_sy', 'sysy')):
        conforms(c, p, C + fn, sp, 'contact geometry', pure=PURE, ignore=())

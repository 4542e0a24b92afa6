"""VTK output"""
from rule import conforms
TUS = ['SylinderSystem', 'Sylinder', 'ConstraintCollector', 'spec_out']
USES = [('P16', ('SylinderSystem::writeVTK',)), ('P27', ('B64Converter::kwsysBase64_Encode', 'B64Converter::getBase64FromVector'))]
S = 'SylinderSystem::'
FILE = ('open', '<<', 'b64', 'fprintf', 'fclose')


def check(c, p):
    ev = lambda e: e.name in FILE
    conforms(c, p, 'Sylinder::writeVTP', 'sylVTP', 'particle piece', events=ev)
    conforms(c, p, 'Sylinder::writePVTP', 'sylPVTP', 'particle header', events=ev)
    conforms(c, p, 'ConstraintCollector::writeVTP', 'conVTP', 'constraint piece', events=ev)
    conforms(c, p, 'ConstraintCollector::writePVTP', 'conPVTP', 'constraint header', events=ev)

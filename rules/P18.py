"""text files"""
from rule import conforms
TUS = ['SylinderSystem', 'Sylinder', 'spec_io']
S = 'SylinderSystem::'
FILE = ('open', '<<', 'fprintf', 'fclose')


def check(c, p):
    ev = lambda e: e.name in FILE or 'barrier' in e.name or e.name.endswith(('writeParticleAscii', 'setNumberOfParticleLocal'))
    conforms(c, p, 'Sylinder::writeAscii', 'sylAscii', 'line of a particle', events=ev)
    conforms(c, p, 'SylinderAsciiHeader::writeAscii', 'header', 'file header', events=ev)
    conforms(c, p, S + 'writeAscii', 'writeAscii', 'particle and link file', events=ev)
    conforms(c, p, S + 'writeBox', 'writeBox', 'box file', events=ev)
    conforms(c, p, S + 'setInitialFromFile', 'setInitialFromFile', 'particles of a file', events=ev, append=('Sylinder',))
    conforms(c, p, S + 'setLinkMapFromFile', 'setLinkMapFromFile', 'links of a file', events=ev, append=('std::pair<const int, int>',))

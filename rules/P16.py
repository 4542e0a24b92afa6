"""restart record and snapshot"""
from rule import conforms
from prog import writes
TUS = ['SylinderSystem', 'Sylinder', 'spec_io']
USES = [('P17', ('Sylinder::writeVTP',)), ('P18', ('SylinderSystem::setLinkMapFromFile', 'SylinderSystem::writeAscii'))]
S = 'SylinderSystem::'
FILE = ('open', '<<', 'fprintf', 'fclose')


def check(c, p):
    conforms(c, p, S + 'getResultFolderWithID', 'getResultFolderWithID', 'folder of a snapshot')
    ev = lambda e: e.name in FILE or 'barrier' in e.name
    conforms(c, p, S + 'writeTimeStepInfo', 'writeTimeStepInfo', 'restart record', events=ev)
    vt = ('Sylinder::writeVTP', 'Sylinder::writePVTP', 'ConstraintCollector::writeVTP', 'ConstraintCollector::writePVTP')
    conforms(c, p, S + 'writeVTK', 'writeVTK', 'snapshot pieces and headers', opaque=vt, events=lambda e: e.name in vt)
    wr = tuple(S + x for x in ('writeAscii', 'writeVTK', 'writeTimeStepInfo')) + ('IOHelper::makeSubFolder',)
    conforms(c, p, S + 'writeResult', 'writeResult', 'order of the files of a snapshot', opaque=wr, events=lambda e: e.name in wr)
    conforms(c, p, S + 'setInitialFromVTKFile', 'setInitialFromVTKFile', 'particles of a snapshot',
             events=lambda e: e.name.startswith('vtk') or 'barrier' in e.name or e.name.endswith('setNumberOfParticleLocal'))
    st = tuple(S + x for x in ('setInitialFromVTKFile', 'setLinkMapFromFile', 'stepEuler', 'applyBoxBC', 'decomposeDomain', 'exchangeSylinder',
                               'updateSylinderMap', 'setTreeSylinder', 'calcVolFrac', 'setDomainInfo', 'showOnScreenRank0', 'setInitialFromFile',
                               'setInitialFromConfig', 'prepareStep', 'calcVelocityNonCon', 'resolveConstraints', 'saveForceVelocityConstraints',
                               'sumForceVelocity', 'writeBox')) + ('IOHelper::makeSubFolder', 'getMPIWORLDTCOMM')
    ev = lambda e: e.name in st or 'barrier' in e.name
    # counters, settings and parts that none of these phases replaces
    own = ('runConfig', 'stepCount', 'snapID', 'restartRngSeed', 'rngPoolPtr', 'commRcp', 'conSolverPtr', 'conCollectorPtr')
    keep = sorted(set(own) - writes(p, st, own))
    conforms(c, p, S + 'reinitialize', 'reinitialize', 'restart', opaque=st, clobber=st, events=ev, keep=keep)
    conforms(c, p, S + 'initialize', 'initialize', 'fresh start', opaque=st, clobber=st, events=ev, keep=keep)

"""the driver"""
import proto
from rule import conforms
TUS = ['main', 'SylinderSystem', 'spec_iface']
S = 'SylinderSystem::'
EVENTS = {S + x for x in ('initialize', 'reinitialize', 'prepareStep', 'runStep', 'calcOrderParameter', 'calcConStress', 'writeResult', 'resolveConstraints',
                          'stepEuler', 'addNewSylinder', 'addNewLink', 'setForceNonBrown', 'setVelocityNonBrown', 'applyBoxBC', 'sumForceVelocity')} | \
    {'MPI_Init', 'MPI_Init_thread', 'MPI_Finalize', 'ParticleSimulator::Initialize', 'ParticleSimulator::Finalize'}


def check(c, p):
    proto.check(c, p, 'main', 'driver', 'main program', EVENTS)
    conforms(c, p, 'IOHelper::fileExist', 'exists', 'restart file', this=False)
    # the comparison itself must tell protocols apart
    for x in ('badDriver1', 'badDriver2', 'badDriver3', 'badDriver4'):
        d = proto.difference(proto.Protocol(p, p.find('spec::' + x), EVENTS), proto.Protocol(p, p.find('spec::driver'), EVENTS))
        c.ok('self-test', x, 'told apart') if d else c.bad('self-test', x, 'not told apart from the required protocol')
    for x in ('goodDriver1', 'goodDriver2'):
        d = proto.difference(proto.Protocol(p, p.find('spec::' + x), EVENTS), proto.Protocol(p, p.find('spec::driver'), EVENTS))
        c.bad('self-test', x, 'told apart by %s' % (d,)) if d else c.ok('self-test', x, 'recognised')

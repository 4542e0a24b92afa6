"""boundary shapes"""
from rule import conforms
TUS = ['SylinderConfig', 'Boundary', 'spec_config']


def check(c, p):
    for k in ('Wall', 'Tube', 'SphereShell'):
        s = k.replace('Shell', '').lower()
        conforms(c, p, k + '::project', s + 'Project', k + ' projection')
        conforms(c, p, k + '::check', s + 'Check', k + ' self check')
        conforms(c, p, k + '::' + k, s + 'Make', k + ' construction', pred=lambda f: len(f['params']) > 1)
        conforms(c, p, k + '::initialize', s + 'Init', k + ' settings', events=lambda e: e.name.startswith('std::make_shared'), aborts=True)

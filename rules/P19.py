"""configuration parsing"""
from rule import conforms
TUS = ['SylinderConfig', 'Boundary', 'spec_config']
ex = lambda e: e.name.startswith('std::make_shared')


def check(c, p):
    conforms(c, p, 'SylinderConfig::SylinderConfig', 'config', 'settings', nparams=1, opaque=('std::make_shared',), append=('Boundary',),
             events=ex, aborts=True, pred=lambda f: f.get('ctor') and 'string' in f['T'][f['params'][0]['t']])
    for k in ('Wall', 'Tube', 'SphereShell'):
        conforms(c, p, k + '::initialize', k.replace('Shell', '').lower() + 'Init', k + ' settings', events=ex, aborts=True)

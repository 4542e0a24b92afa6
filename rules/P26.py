"""helpers for distributed maps and vectors"""
from rule import conforms
TUS = ['TpetraUtil', 'spec_util']
EV = lambda e: 'Tpetra' in e.name or e.name.startswith('getTMAP')


def asked(alg):
    t = alg.leaf(alg.pa(alg.atom('rd', (('A', 3),), 'i')))      # one of the three ways
    return alg.band(alg.le(alg.num(0), t), alg.le(t, alg.num(2)))


def check(c, p):
    conforms(c, p, 'getTMAPFromLocalSize', 'mapFromLocal', 'map of a local size', events=EV)
    conforms(c, p, 'getTMAPFromGlobalIndexOnLocal', 'mapFromList', 'map of a list of indices', events=EV)
    conforms(c, p, 'getTMAPFromTwoBlockTMAP', 'mapFromTwo', 'map of two blocks', events=EV, aborts=True)
    conforms(c, p, 'getTVFromTwoBlockTV', 'vecFromTwo', 'vector of two blocks', events=EV, opaque=('getTMAPFromTwoBlockTMAP',))
    conforms(c, p, 'getTVFromVector', 'vecFromList', 'vector of a local list', events=EV, opaque=('getTMAPFromLocalSize',))
    conforms(c, p, 'Belos::OperatorTraits::Apply', 'belosApply', 'operator application', this=False, events=lambda e: e.name == 'apply', facts=asked)
    conforms(c, p, 'Belos::OperatorTraits::HasApplyTranspose', 'belosTranspose', 'operator application', this=False, events=EV)

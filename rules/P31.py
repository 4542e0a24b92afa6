"""rotations and random placement"""
from rule import conforms
TUS = ['spec_util']
Q = 'EquatnHelper::'


def check(c, p):
    conforms(c, p, Q + 'setUnitRandomEquatn', 'quatRandom', 'random orientation')
    conforms(c, p, Q + 'rotateEquatn', 'quatRotate', 'rotation of an orientation')
    conforms(c, p, Q + 'getCrossProductMatrix', 'crossMatrix', 'cross product matrix')
    conforms(c, p, Q + 'getPsiMatFromEquatn', 'psiMatrix', 'rate matrix of an orientation')
    conforms(c, p, 'getRandPointInCircle', 'inCircle', 'point in a circle')
    conforms(c, p, 'getRandPointAngleOnSphere', 'anglesOnSphere', 'angles on a sphere')
    conforms(c, p, 'getRandPointOnSphere', 'onSphere', 'point on a sphere')

"""sorting by tag"""
from rule import conforms
TUS = ['spec_exch']


def check(c, p):
    conforms(c, p, 'sortDataWithTag', 'sortTag', 'sort by tag')

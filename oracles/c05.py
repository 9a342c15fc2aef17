"""Operation sequences on real optimizers (C05)."""
from oracles.util import *
from oracles import optsim

RULE = 'one case = one optimizer (space, acquisition function, design, model limit) driven through a random sequence of ask, batch ask and tell against a reference history'


def fixed(hints):
    return optsim.fixed_cases(hints)


def random_case(rng, hints):
    return optsim.rand_case(rng, hints)


def check(case):
    return optsim.simulate(case, 'C05')

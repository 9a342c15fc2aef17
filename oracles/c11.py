"""Whole minimizer runs (C11)."""
from oracles.util import *
from oracles import minsim

RULE = 'one case = one run of a minimizer (space, budget, initial points, starting data, callbacks) or one Optimizer.run, compared with the schedule the documentation prescribes'


def fixed(hints):
    return minsim.fixed_cases(hints)


def random_case(rng, hints):
    return minsim.rand_case(rng, hints)


def check(case):
    return minsim.simulate(case, 'C11')

"""
A second module with a classifier of the same name as the one in sim.stubs
but with other predictions.
"""
from . import stubs


class SimClf(stubs.SimClf):
    lean = 0.6

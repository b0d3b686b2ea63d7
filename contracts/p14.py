"""P14: the modes of each layer."""
from .common import *
from . import layers as ly, solve


def operators(P):
    ly.build(P, goals=("matrix",))


def modes(P):
    for be in bks(P, "numpy", "torch", "jax"):
        ly.modes(P, be)


def every(P):
    solve.loop(P)
    solve.copies(P)


PARTS = [operators, modes, every]

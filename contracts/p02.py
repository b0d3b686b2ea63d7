"""P02: continuity of the transverse fields."""
from .common import *
from . import smat, stack


def matrices(P):
    smat.explore_S(P, "numpy")
    if smat.SLoop.W is not None:
        smat.key_consistency(P, smat.SLoop.W, "")


def amplitudes(P):
    for be in bks(P, "numpy", "jax"):
        stack.amplitudes(P, be)
        stack.translate(P, be)


def fields(P):
    for be in bks(P, "numpy", "jax"):
        stack.imatrix(P, be)
        stack.continuity(P, be)


def lemmas(P):
    P.lean("Stack.lean", ["loop_exact", "continuity"])


PARTS = [matrices, amplitudes, fields, lemmas]

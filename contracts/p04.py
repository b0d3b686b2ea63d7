"""P04: scattering matrices."""
from .common import *
from . import smat, stack


def matrices(P):
    for be in bks(P, "numpy", "jax"):
        smat.explore_S(P, be)
        if smat.SLoop.W is not None:
            smat.key_consistency(P, smat.SLoop.W, f"[{be}] ")


def interfaces(P):
    stack.imatrix(P)
    stack.cut(P)


def lemmas(P):
    P.lean("Stack.lean", ["loop_exact", "compose", "same_ends", "cut"])


def amplitudes(P):
    stack.amplitudes(P)


PARTS = [matrices, interfaces, amplitudes, lemmas]

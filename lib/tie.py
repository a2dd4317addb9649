"""Chooses which of the optimal solutions of a model the solver returns."""
import contextlib

import xpress as xp

KINDS = ("up", "mix", "down")


@contextlib.contextmanager
def tie(kind):
    xp.TIE = kind
    try:
        yield
    finally:
        xp.TIE = None


def tied(check, name):
    """The check on (kind, item), with a solver that breaks ties in that way."""

    def run(item, c):
        with tie(item[0]):
            check(item[1], c)

    run.__name__ = name
    return run

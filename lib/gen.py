"""Strategies for JSON-serialisable cases.  Numbers are a mixture of a coarse grid
(which produces aligned, parallel, coinciding configurations) and arbitrary floats."""
import math
import sys

from lib.pbt import HYPOTHESIS_PATH

if HYPOTHESIS_PATH not in sys.path:
    sys.path.append(HYPOTHESIS_PATH)

from hypothesis import strategies as st


def num(low, high, grid=4):
    """Number in [low, high]."""
    lo_i, hi_i = math.ceil(low * grid), math.floor(high * grid)
    flt = st.floats(low, high, allow_nan=False, allow_infinity=False).map(
        lambda x: min(max(round(x, 7), low), high)
    )
    if lo_i > hi_i:
        return flt
    ints = st.integers(lo_i, hi_i).map(lambda k: k / grid)
    return st.one_of(flt, ints, flt)


def count(low, high, large):
    """Mostly in [low, high], at times up to `large`."""
    usual = st.integers(low, high)
    return st.one_of(usual, usual, usual, st.integers(high, large))


def angle(low=-math.pi, high=math.pi):
    special = [
        x
        for x in (k * math.pi / 4 for k in range(-8, 9))
        if low <= x <= high
    ]
    flt = st.floats(low, high, allow_nan=False).map(
        lambda x: min(max(round(x, 7), low), high)
    )
    if not special:
        return flt
    return st.one_of(flt, st.sampled_from(special), flt)


def vec(dim, low=-5.0, high=5.0, grid=4):
    return st.lists(num(low, high, grid), min_size=dim, max_size=dim)


def nonzero_vec(dim, low=-5.0, high=5.0, min_norm=1e-2):
    return vec(dim, low, high).filter(
        lambda v: math.sqrt(sum(x * x for x in v)) >= min_norm
    )


def weight01():
    return st.one_of(num(0.0, 1.0), st.sampled_from([0.0, 1.0, 0.5]), num(0.0, 1.0))


def weights_simplex(n):
    """n non-negative numbers (not all zero), the check normalises them."""
    return st.lists(
        st.one_of(st.just(0.0), num(0.01, 1.0), num(0.01, 1.0)), min_size=n, max_size=n
    ).filter(lambda w: sum(w) > 0)


def pose2():
    return st.fixed_dictionaries(
        {"position": vec(2, -4.0, 4.0), "orientation": angle()}
    )


record = st.fixed_dictionaries

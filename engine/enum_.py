"""Selections whose size depends on data (boolean masks, scattered writes)."""
from .arr import *
from .arr import _unsup
from . import arr as A


def enumerate_true(mask, axis):
    raise Unsupported('enumeration of where()')


def compress(m):
    raise Unsupported('compressed boolean selection used as an array')


def scatter(a, key, adv, v):
    """a[i1, i2, ...] = v with integer index arrays"""
    # identity-like scatter along one axis: a[..., arange] etc. is not needed so far
    raise Unsupported('scattered assignment')

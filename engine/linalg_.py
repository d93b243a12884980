"""Abstract inverse of a symbolic-size matrix."""
from .arr import *


def inverse(a):
    f = a.snap()
    n = a.tshape[0]
    i, j = binder(const(0), n, 90), binder(const(0), n, 91)
    key = f((i, j))
    nm = '$inv_%d_%d' % (norm(key[0]).id, n.id)
    if key[1] is not FALSE and not ctx().entails(not_(key[1])):
        raise Unsupported('inverse of possibly undefined matrix')
    INVERSES[nm] = (f, n)
    return new(lambda idx: (uf(nm, idx, 'R'), FALSE), (n, n), FLOAT64)


INVERSES = {}

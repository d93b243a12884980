"""Specification functions shared by several contract files."""


def elementary(V, o, p, k):
    c, s = V.cos, V.sin
    return {'r': [[1, 0, 0], [0, c(o), s(o)], [0, -s(o), c(o)]],
            'p': [[c(p), 0, -s(p)], [0, 1, 0], [s(p), 0, c(p)]],
            'y': [[c(k), s(k), 0], [-s(k), c(k), 0], [0, 0, 1]]}


def mm(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)] for i in range(3)]


def rotation(V, order, o, p, k):
    e = elementary(V, o, p, k)
    return mm(e[order[2]], mm(e[order[1]], e[order[0]]))


def used_before(V, symbolic=True):
    """the object under contract was (not) used for something else before"""
    return (symbolic or not V.symbolic) and V.choice('history', ['new', 'used']) == 'used'


def whole(V, symbolic=False):
    """the type of coordinate arrays: pixel numbers are often integers"""
    return V.choice('coordinate type', ['float64', 'int64']) if symbolic or not V.symbolic else 'float64'

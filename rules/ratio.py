"""Rational functions: normal form of arithmetic over settings, up to conversions to number."""
from .texts import *


def ratio(n):
    """(numerator, denominator) as sums of products of opaque values"""
    while n.op == 'call' and ext_of(n) in ('float', 'numpy.float64', 'numpy.double', 'numpy.float_') and len(n.args[1]) == 1:
        n = n.args[1][0]
    if is_const(n):
        c = n.args[0]
        if isinstance(c, str):
            try:
                c = float(c)
            except ValueError:
                return {(n,): 1}, num(1)
        if isinstance(c, (int, float)) and not isinstance(c, bool):
            return num(c), num(1)
        return {(n,): 1}, num(1)
    if n.op == 'bin' and n.args[0] in ('+', '-', '*', '/'):
        (a, b), (c, d) = ratio(n.args[1]), ratio(n.args[2])
        o = n.args[0]
        if o == '*':
            return mul(a, c), mul(b, d)
        if o == '/':
            return mul(a, d), mul(b, c)
        return add(mul(a, d), mul(c, b), 1 if o == '+' else -1), mul(b, d)
    if n.op == 'call' and len(n.args[1]) == 2 and ext_of(n) in OPS:
        return ratio(N('bin', OPS[ext_of(n)], *n.args[1]))
    return {(n,): 1}, num(1)


OPS = {'numpy.add': '+', 'numpy.subtract': '-', 'numpy.multiply': '*', 'numpy.divide': '/', 'numpy.true_divide': '/'}


def equal(a, b):
    (p, q), (r, s) = a, b
    return same(mul(p, s), mul(r, q))


def of(node):
    return {(node,): 1}, num(1)


def plus(a, b, k=1):
    return add(mul(a[0], b[1]), mul(b[0], a[1]), k), mul(a[1], b[1])


def times(a, b):
    return mul(a[0], b[0]), mul(a[1], b[1])


def over(a, b):
    return mul(a[0], b[1]), mul(a[1], b[0])

"""Exact reference model for discrete random variables: a pmf is a dict {Fraction: Fraction}."""
from fractions import Fraction as Fr


def F(x):
    return Fr(str(x)) if isinstance(x, float) else Fr(x)


def pmf(xs, ps):
    d = {}
    for x, p in zip(xs, ps):
        d[F(x)] = d.get(F(x), Fr(0)) + F(p)
    return {x: p for x, p in d.items() if p != 0}


BIN = {
    "+": lambda x, y: x + y,
    "-": lambda x, y: x - y,
    "*": lambda x, y: x * y,
    "/": lambda x, y: x / y,
    "min": lambda x, y: x if x < y else y,
    "max": lambda x, y: x if x > y else y,
}

UN = {
    "neg": lambda x: -x,
    "abs": lambda x: abs(x),
    "sq": lambda x: x * x,
    "inv": lambda x: 1 / x,
    "x+0.5": lambda x: x + Fr(1, 2),
    "x-1": lambda x: x - 1,
    "1+x": lambda x: 1 + x,
    "3-x": lambda x: 3 - x,
    "2*x": lambda x: 2 * x,
    "x*-0.5": lambda x: x * Fr(-1, 2),
    "x/4": lambda x: x / 4,
    "2/x": lambda x: 2 / x,
    "x**3": lambda x: x ** 3,
    "x**-2": lambda x: x ** -2,
    "min(x,1)": lambda x: min(x, Fr(1)),
    "max(0.5,x)": lambda x: max(Fr(1, 2), x),
}
NEEDS_NONZERO = {"inv", "2/x", "x**-2"}
NEEDS_POS = {"x**3", "x**-2"}


def legal_bin(op, A, B):
    return not (op == "/" and 0 in B)


def legal_un(op, A):
    if op in NEEDS_NONZERO and 0 in A:
        return False
    if op in NEEDS_POS and min(A) <= 0:
        return False
    return True


def binop(op, A, B):
    f = BIN[op]
    d = {}
    for x, p in A.items():
        for y, q in B.items():
            z = f(x, y)
            d[z] = d.get(z, Fr(0)) + p * q
    return d


def unop(op, A):
    f = UN[op]
    d = {}
    for x, p in A.items():
        z = f(x)
        d[z] = d.get(z, Fr(0)) + p
    return d


def key(A):
    return tuple(sorted((x.numerator, x.denominator, p.numerator, p.denominator) for x, p in A.items()))

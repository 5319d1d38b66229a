"""Small expression trees (JSON lists), evaluated with second-order forward
differentiation - the reference for the symbolic code - and converted to sympy."""
import math

import numpy as np


class D2:
    """value, gradient and Hessian with respect to n variables"""

    __slots__ = ("v", "g", "h")

    def __init__(self, v, g, h):
        self.v, self.g, self.h = v, g, h

    @staticmethod
    def const(c, n):
        return D2(float(c), np.zeros(n), np.zeros((n, n)))

    @staticmethod
    def var(x, i, n):
        g = np.zeros(n)
        g[i] = 1.0
        return D2(float(x), g, np.zeros((n, n)))

    def __add__(a, b):
        return D2(a.v + b.v, a.g + b.g, a.h + b.h)

    def __sub__(a, b):
        return D2(a.v - b.v, a.g - b.g, a.h - b.h)

    def __mul__(a, b):
        o = np.outer(a.g, b.g)
        return D2(a.v * b.v, a.v * b.g + b.v * a.g, a.v * b.h + b.v * a.h + o + o.T)

    def f(a, f0, f1, f2):
        return D2(f0, f1 * a.g, f1 * a.h + f2 * np.outer(a.g, a.g))


def ev(e, env, n):
    k = e[0]
    if k == "c":
        return D2.const(e[1], n)
    if k == "s":
        return env[e[1]]
    a = ev(e[1], env, n)
    if k == "sq":
        return a.f(a.v ** 2, 2 * a.v, 2.0)
    if k == "cu":
        return a.f(a.v ** 3, 3 * a.v ** 2, 6 * a.v)
    if k == "sin":
        return a.f(math.sin(a.v), math.cos(a.v), -math.sin(a.v))
    if k == "cos":
        return a.f(math.cos(a.v), -math.sin(a.v), -math.cos(a.v))
    if k == "rt":  # sqrt(1 + a^2)
        r = math.sqrt(1 + a.v ** 2)
        return a.f(r, a.v / r, 1 / r ** 3)
    b = ev(e[2], env, n)
    if k == "+":
        return a + b
    if k == "-":
        return a - b
    if k == "*":
        return a * b
    if k == "/":  # a / (1 + b^2)
        q = 1 + b.v ** 2
        inv = b.f(1 / q, -2 * b.v / q ** 2, -2 / q ** 2 + 8 * b.v ** 2 / q ** 3)
        return a * inv
    raise ValueError(k)


def to_sympy(e, syms):
    import sympy
    k = e[0]
    if k == "c":
        return sympy.Float(e[1]) if e[1] != int(e[1]) else sympy.Integer(int(e[1]))
    if k == "s":
        return syms[e[1]]
    a = to_sympy(e[1], syms)
    if k == "sq":
        return a ** 2
    if k == "cu":
        return a ** 3
    if k == "sin":
        return sympy.sin(a)
    if k == "cos":
        return sympy.cos(a)
    if k == "rt":
        return (1 + a ** 2) ** 0.5
    b = to_sympy(e[2], syms)
    return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / (1 + b ** 2)}[k]()


def size(e):
    return 1 + sum(size(x) for x in e[1:] if isinstance(x, (list, tuple)))

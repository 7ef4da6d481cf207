"""Derivative of a term with respect to a real variable (ghost code only)."""
from .terms import *
from .values import Unsupported


def derivative(t, x):
    memo = {}

    def d(t):
        if t in memo:
            return memo[t]
        memo[t] = r = go(t)
        return r

    def go(t):
        if t is x:
            return rconst(1)
        if x not in free_vars(t):
            return rconst(0)
        op = t.op
        if op == "+":
            acc = rconst(0)
            for a in t.args:
                acc = add(acc, d(a))
            return acc
        if op == "*":
            acc = rconst(0)
            for i, a in enumerate(t.args):
                da = d(a)
                if da is rconst(0):
                    continue
                p = da
                for j, b in enumerate(t.args):
                    if j != i:
                        p = mul(p, b)
                acc = add(acc, p)
            return acc
        if op == "/":
            a, b = t.args
            return div(sub(mul(d(a), b), mul(a, d(b))), mul(b, b))
        if op == "^":
            a, n = t.args
            n = n if isinstance(n, int) else int(cval(n))
            return mul(mul(rconst(n), powi(a, n - 1)), d(a))
        if op == "app":
            f, a = t.args[0], t.args[1]
            if f == "sin":
                return mul(app("cos", a), d(a))
            if f == "cos":
                return mul(neg(app("sin", a)), d(a))
            if f == "exp":
                return mul(t, d(a))
            if f == "log":
                return div(d(a), a)
            if f == "sqrt":
                return div(d(a), mul(rconst(2), t))
        raise Unsupported("derivative of %s" % op)
    return d(t)

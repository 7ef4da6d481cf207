"""Small helpers on terms and values."""
import ast
from .terms import *
from .values import *


def replace_app(t, name, fn):
    memo = {}

    def go(x):
        if x in memo:
            return memo[x]
        if x.op == "app" and x.args[0] == name:
            r = fn(go(x.args[1]))
        elif not x.args or x.op in ("v", "c"):
            r = x
        else:
            r = rebuild(x, [go(a) if type(a) is T else a for a in x.args])
        memo[x] = r
        return r

    return go(t)


def distribute_ite_diff(t, me):
    """t - me for t an ITE tree whose leaves all contain me additively"""
    if t.op == "ite":
        a = distribute_ite_diff(t.args[1], me)
        b = distribute_ite_diff(t.args[2], me)
        if a is None or b is None:
            return None
        return ite(t.args[0], a, b)
    from .norm import Norm, padd
    n = Norm()
    p = padd(n.norm(t), n.norm(me), -1)
    return n.to_term(p)


def same_value(a, b):
    if a is b:
        return True
    if isinstance(a, (int, str)) or isinstance(b, (int, str)):
        return type(a) is type(b) and a == b
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return a.name == b.name and all(x is y for x, y in zip(a.idx, b.idx))
    if isinstance(a, Key) and isinstance(b, Key):
        return a.fam == b.fam and a.idx is b.idx
    if isinstance(a, Rope) and isinstance(b, Rope):
        return len(a.parts) == len(b.parts) and all(
            (x == y) if isinstance(x, str) or isinstance(y, str) else (x.kind == y.kind and same_value(x.value, y.value)) for x, y in zip(a.parts, b.parts))
    return False

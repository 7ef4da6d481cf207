"""C20: Darboux sums."""


def smaller(v, a, b):
    return v.where(a < b, a, b)


def larger(v, a, b):
    return v.where(a < b, b, a)


def grid(v):
    n = v.int("n", ge=1, hi=8)
    return n, v.array("x", n + 1, increasing=True, lo=-10.0, hi=10.0)


def expected(v, n, x, y):
    low = v.sum(n, lambda i: smaller(v, y(i), y(i + 1)) * (x[i + 1] - x[i]))
    high = v.sum(n, lambda i: larger(v, y(i), y(i + 1)) * (x[i + 1] - x[i]))
    return low, high


def theorem_values(v):
    """lower sum and gap for values on a grid."""
    d = v.mod("ries.integration.darboux")
    n, x = grid(v)
    fx = v.array("fx", n + 1, lo=-10.0, hi=10.0)
    f = v.snapshot((x, fx))
    low, gap = d.darboux(fx, x)
    a, b = expected(v, n, x, lambda i: fx[i])
    v.equal("lower sum", low, a, atol=1e-9)
    v.equal("gap", gap, b - a, atol=1e-9)
    v.ensure("arguments are not changed", v.unchanged(f))


def theorem_function(v):
    """lower sum and gap for a function."""
    d = v.mod("ries.integration.darboux")
    n, x = grid(v)
    g = v.fn("g")
    f = v.snapshot(x)
    low, gap = d.darboux(g, x)
    a, b = expected(v, n, x, lambda i: g(x[i]))
    v.equal("lower sum", low, a, atol=1e-9)
    v.equal("gap", gap, b - a, atol=1e-9)
    v.ensure("the grid is not changed", v.unchanged(f))


def theorem_bracket(v):
    """the integral of a function that stays between its end values on each interval (any monotonic one does)
    lies between the first result and the first plus the second: J_i are the integrals over the intervals."""
    d = v.mod("ries.integration.darboux")
    n, x = grid(v)
    fx = v.array("fx", n + 1, lo=-10.0, hi=10.0)
    low, gap = d.darboux(fx, x)
    s = v.array("s", n, ge=0.0, le=1.0)
    part = lambda i: (fx[i] + s[i] * (fx[i + 1] - fx[i])) * (x[i + 1] - x[i])
    total = v.sum(n, part)
    v.ensure("not below the lower sum", v.le(low, total))
    v.ensure("not above the upper sum", v.le(total, low + gap))


def theorem_sign(v):
    """the gap is not negative, and zero for constant functions."""
    d = v.mod("ries.integration.darboux")
    n, x = grid(v)
    fx = v.array("fx", n + 1, lo=-10.0, hi=10.0)
    v.ensure("gap", v.le(0.0, d.darboux(fx, x)[1]))
    c = v.real("c", lo=-5.0, hi=5.0)
    low, gap = d.darboux(v.array_of(n + 1, lambda i: c), x)
    v.equal("constant", low, c * (x[n] - x[0]), atol=1e-9)
    v.equal("no gap", gap, 0.0, atol=1e-9)

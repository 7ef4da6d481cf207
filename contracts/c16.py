"""C16: tabulated cross sections interpolate log-log and stay constant outside."""
import numpy as np


def tabulated(v):
    """attenuation object for an arbitrary table of n >= 2 rows with increasing positive energies"""
    xr = v.mod("ries.nonresonant.xrmac")
    n = v.int("n", ge=2, hi=8)
    t = v.table("t", n)
    return xr.XRMAC(t), t, n


def theorem_nodes(v):
    """the tabulated coefficient at each tabulated energy."""
    x, t, n = tabulated(v)
    i = v.int("i", ge=0, hi=7)
    v.require(i < n)
    v.equal("at a node", x(t[i, 0]), t[i, 1], rtol=1e-7)


def theorem_all_nodes(v):
    """the same for the whole energy column at once."""
    x, t, n = tabulated(v)
    i = v.int("i", ge=0, hi=7)
    v.require(i < n)
    y = x(t[:, 0])
    v.ensure("one value for each", v.same_shape(y, t[:, 0]))
    v.equal("at a node", y[i], t[i, 1], rtol=1e-7)


def line(v, t, i, E):
    """straight line through the rows i and i + 1 in log-log representation"""
    a, b = np.log10(t[i, 0]), np.log10(t[i + 1, 0])
    return ((b - np.log10(E)) * np.log10(t[i, 1]) + (np.log10(E) - a) * np.log10(t[i + 1, 1])) / (b - a)


def theorem_between(v):
    """straight line in log-log representation between neighbours."""
    x, t, n = tabulated(v)
    i = v.int("i", ge=0, hi=6)
    v.require(i + 1 < n)
    E = v.real("E", gt=t[i, 0], lt=t[i + 1, 0])
    v.equal("log-log line", np.log10(x(E)), line(v, t, i, E), rtol=1e-7, atol=1e-7)


def theorem_range(v):
    """between neighbours the result is between the two entries."""
    x, t, n = tabulated(v)
    i = v.int("i", ge=0, hi=6)
    v.require(i + 1 < n)
    E = v.real("E", gt=t[i, 0], lt=t[i + 1, 0])
    y = np.log10(x(E))
    low, high = np.log10(t[i, 1]), np.log10(t[i + 1, 1])
    if low <= high:
        v.ensure("rising", v.all(v.le(low, y), v.le(y, high)))
    else:
        v.ensure("falling", v.all(v.le(high, y), v.le(y, low)))


def theorem_below(v):
    x, t, n = tabulated(v)
    s = v.real("s", gt=0.0, lt=1.0)
    v.equal("below the table", x(s * t[0, 0]), t[0, 1], rtol=1e-7)


def theorem_above(v):
    x, t, n = tabulated(v)
    s = v.real("s", gt=1.0, lo=1.001, hi=100.0)
    v.equal("above the table", x(s * t[n - 1, 0]), t[n - 1, 1], rtol=1e-7)


def theorem_positive(v):
    """positive at every positive energy, scalar or array."""
    x, t, n = tabulated(v)
    E = v.energy("E", gt=0.0, lo=1e-3, hi=50.0)
    y = x(E)
    if v.is_array(y):
        v.ensure("same shape", v.same_shape(y, E))
        v.ensure("positive", v.forall(v.len(E), lambda i: y[i] > 0.0))
    else:
        v.ensure("positive", y > 0.0)


def theorem_array(v):
    """an array of energies gives the value of each energy."""
    x, t, n = tabulated(v)
    k = v.int("k", ge=1, hi=5)
    E = v.array("E", k, gt=0.0, lo=1e-3, hi=50.0)
    j = v.int("j", ge=0, hi=4)
    v.require(j < k)
    y = x(E)
    v.ensure("one value for each", v.same_shape(y, E))
    v.equal("element by element", y[j], x(E[j]), rtol=1e-9)


def theorem_conversions(v):
    """conversions given with a table that is passed directly do not change it."""
    xr = v.mod("ries.nonresonant.xrmac")
    n = v.int("n", ge=2, hi=8)
    t = v.table("t", n)
    x = xr.XRMAC(t, lambda e: 2.0 * e, lambda c: 3.0 * c)
    y = xr.XRMAC(t)
    E = v.real("E", gt=0.0, lo=1e-3, hi=50.0)
    v.equal("same values", x(E), y(E))

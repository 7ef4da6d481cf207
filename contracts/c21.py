"""C21: partitioned quadrature adds up the integrals and errors of all parts."""
import numpy as np


def points(v):
    """integration points as an array or a list, in any order"""
    n = v.int("n", ge=2, hi=5)
    x = v.array("x", n, lo=-2.0, hi=2.0)
    return n, x


def theorem_one_variable(v):
    q = v.mod("ries.integration.quad_partition")
    n, x = points(v)
    f = v.fn("f")
    g = v.snapshot(x)
    total, error = q.quad_partition(f, x)
    part = lambda i: v.integrals(f, (x[i], x[i + 1]))
    v.equal("integral", total, v.sum(n - 1, part), rtol=1e-8, atol=1e-10)
    v.equal("error", error, np.sqrt(v.sum(n - 1, lambda i: v.quad_error(part(i)) ** 2)), rtol=1e-6)
    v.ensure("points are not changed", v.unchanged(g))


def theorem_list_of_points(v):
    q = v.mod("ries.integration.quad_partition")
    n = v.int("n", ge=2, hi=5)
    x = v.list("x", n, lambda i: v.real("x", i, lo=-2.0, hi=2.0))
    f = v.fn("f")
    total, error = q.quad_partition(f, x)
    part = lambda i: v.integrals(f, (x[i], x[i + 1]))
    v.equal("integral", total, v.sum(n - 1, part), rtol=1e-8, atol=1e-10)


def theorem_two_variables(v):
    """one further variable with a fixed range, given as a list, tuple or array."""
    q = v.mod("ries.integration.quad_partition")
    n = v.int("n", ge=2, hi=3)
    x = v.array("x", n, lo=-2.0, hi=2.0)
    f = v.fn("f")
    a = v.real("a", lo=-2.0, hi=2.0)
    b = v.real("b", lo=-2.0, hi=2.0)
    ranges = v.choice("ranges", [[a, b]], [(a, b)], np.array([[a, b]]))
    g = v.snapshot((x, ranges))
    total, error = q.quad_partition(f, x, ranges)
    part = lambda i: v.integrals(f, (x[i], x[i + 1]), (a, b))
    v.equal("integral", total, v.sum(n - 1, part), rtol=1e-7, atol=1e-9)
    v.equal("error", error, np.sqrt(v.sum(n - 1, lambda i: v.quad_error(part(i)) ** 2)), rtol=1e-6)
    v.ensure("arguments are not changed", v.unchanged(g))


def theorem_three_variables(v):
    """two further variables, each with its own range, in order."""
    q = v.mod("ries.integration.quad_partition")
    n = v.int("n", ge=2, hi=2)
    x = v.array("x", n, lo=-1.0, hi=1.0)
    f = lambda p, r, s: (1.0 + p) * r * r + s
    a = v.real("a", lo=-1.0, hi=1.0)
    b = v.real("b", lo=-1.0, hi=1.0)
    c = v.real("c", lo=-1.0, hi=1.0)
    d = v.real("d", lo=-1.0, hi=1.0)
    ranges = v.choice("ranges", [[a, b], [c, d]], np.array([[a, b], [c, d]]))
    total, error = q.quad_partition(f, x, ranges)
    part = lambda i: v.integrals(f, (x[i], x[i + 1]), (a, b), (c, d))
    v.equal("integral", total, v.sum(n - 1, part), rtol=1e-7, atol=1e-9)
    v.equal("error", error, np.sqrt(v.sum(n - 1, lambda i: v.quad_error(part(i)) ** 2)), rtol=1e-6)


def theorem_four_variables(v):
    """three further variables, each with its own range, in order."""
    q = v.mod("ries.integration.quad_partition")
    n = v.int("n", ge=2, hi=2)
    x = v.array("x", n, lo=-1.0, hi=1.0)
    f = lambda p, r, s, t: (1.0 + p) * r * r + s * t * t * t
    a = v.real("a", lo=-1.0, hi=1.0)
    b = v.real("b", lo=-1.0, hi=1.0)
    c = v.real("c", lo=-1.0, hi=1.0)
    ranges = v.choice("ranges", [[a, b], [b, c], [c, a]], np.array([[a, b], [b, c], [c, a]]))
    total, error = q.quad_partition(f, x, ranges)
    part = lambda i: v.integrals(f, (x[i], x[i + 1]), (a, b), (b, c), (c, a))
    v.equal("integral", total, v.sum(n - 1, part), rtol=1e-7, atol=1e-9)


def theorem_few_points(v):
    """with fewer than two points both results are 0."""
    q = v.mod("ries.integration.quad_partition")
    f = v.fn("f")
    x = v.choice("points", [], [v.real("x", lo=-2.0, hi=2.0)], np.array([v.real("x", lo=-2.0, hi=2.0)]))
    total, error = q.quad_partition(f, x)
    v.equal("integral", total, 0.0)
    v.equal("error", error, 0.0)
    total, error = q.quad_partition(f, x, [[0.0, 1.0]])
    v.equal("integral, two variables", total, 0.0)
    v.equal("error, two variables", error, 0.0)


def theorem_repeated_calls(v):
    """a call with further variables does not influence later calls without."""
    q = v.mod("ries.integration.quad_partition")
    n = v.int("n", ge=2, hi=3)
    x = v.array("x", n, lo=-2.0, hi=2.0)
    f = lambda p, r: p * p + r
    g = lambda p: p * p * p
    q.quad_partition(f, x, [[0.0, 1.0]])
    total, error = q.quad_partition(g, x)
    v.equal("integral", total, v.sum(n - 1, lambda i: (x[i + 1] ** 4 - x[i] ** 4) / 4.0), rtol=1e-8, atol=1e-9)

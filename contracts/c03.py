"""C03: even energy grids, and probability grids of sums as sorted unions."""
from contracts.lib import state, ground_state, weighted_sum


def limits_of(v):
    lo = v.real("lo", lo=-5.0, hi=5.0)
    hi = v.real("hi", lo=-5.0, hi=10.0)
    v.require(lo < hi)
    return lo, hi, v.choice("limits", [lo, hi], (lo, hi))


def even(v, label, grid, lo, hi, n):
    v.ensure(label + ": n points", v.len(grid) == n)
    v.equal(label + ": first", grid[0], lo, atol=1e-12)
    v.equal(label + ": last", grid[n - 1], hi, atol=1e-12)
    v.equal(label + ": equal spacing", grid, v.array_of(n, lambda i: lo + (hi - lo) * i / (n - 1)), atol=1e-9)


def theorem_energy_grid(v):
    """even grid of any cross section and of a weighted sum."""
    lo, hi, limits = limits_of(v)
    n = v.int("n", ge=2, hi=30)
    a = v.cross_section("a")
    s = weighted_sum(v, "s")
    even(v, "cross section", a.equidistant_energy_grid(limits, n), lo, hi, n)
    even(v, "weighted sum", s.equidistant_energy_grid(limits, n), lo, hi, n)
    even(v, "expression", (2.0 * a + s).equidistant_energy_grid(limits, n), lo, hi, n)


def theorem_energy_grid_from_array_limits(v):
    """limits given as an array."""
    limits = v.array("lim", 2, increasing=True, lo=-5.0, hi=5.0)
    n = v.int("n", ge=2, hi=30)
    a = v.cross_section("a")
    s = weighted_sum(v, "s")
    even(v, "cross section", a.equidistant_energy_grid(limits, n), limits[0], limits[1], n)
    even(v, "weighted sum", s.equidistant_energy_grid(limits, n), limits[0], limits[1], n)


def theorem_constant_and_nonresonant(v):
    """constant and nonresonant cross sections: both grids are the even grid."""
    cs = v.mod("ries.cross_section")
    nr = v.mod("ries.nonresonant.nonresonant")
    kn = v.mod("ries.nonresonant.klein_nishina")
    lo, hi, limits = limits_of(v)
    n = v.int("n", ge=2, hi=30)
    c = cs.ConstantCrossSection(v.number("c", lo=-5, hi=5))
    even(v, "constant, probability", c.equidistant_probability_grid(limits, n), lo, hi, n)
    even(v, "constant, energy", c.equidistant_energy_grid(limits, n), lo, hi, n)
    k = kn.KleinNishina(v.real("Z", gt=0.0, lo=1.0, hi=100.0))
    even(v, "Klein-Nishina, probability", k.equidistant_probability_grid(limits, n), lo, hi, n)
    even(v, "Klein-Nishina, energy", k.equidistant_energy_grid(limits, n), lo, hi, n)
    m = nr.Nonresonant()
    even(v, "nonresonant, probability", m.equidistant_probability_grid(limits, n), lo, hi, n)


def theorem_tabulated(v):
    """tabulated cross sections: both grids are the even grid."""
    xr = v.mod("ries.nonresonant.xrmac")
    lo, hi, limits = limits_of(v)
    n = v.int("n", ge=2, hi=30)
    x = xr.XRMAC(v.table("t", v.int("m", ge=2, hi=6)))
    even(v, "probability", x.equidistant_probability_grid(limits, n), lo, hi, n)
    even(v, "energy", x.equidistant_energy_grid(limits, n), lo, hi, n)


def theorem_union_of_grids(v):
    """the probability grid of a weighted sum is the sorted union of its constituents' grids."""
    lo, hi, limits = limits_of(v)
    n = v.int("k", ge=2, hi=8)
    s = weighted_sum(v, "s")
    g = s.equidistant_probability_grid(limits, n)
    v.ensure("strictly increasing", v.increasing(g))
    v.ensure("union", v.is_unique_union(g, [r.equidistant_probability_grid(limits, n) for r in s.reactions]))


def theorem_union_of_expressions(v):
    """the same for expressions, with nested sums, constants and repeated constituents."""
    lo, hi, limits = limits_of(v)
    n = v.int("k", ge=2, hi=8)
    a = v.cross_section("a")
    b = v.cross_section("b")
    ga = a.equidistant_probability_grid(limits, n)
    gb = b.equidistant_probability_grid(limits, n)
    even_grid = v.array_of(n, lambda i: lo + (hi - lo) * i / (n - 1))
    x = a + b
    v.ensure("a + b", v.is_unique_union(x.equidistant_probability_grid(limits, n), [ga, gb]))
    v.ensure("3*(a + b) + a", v.is_unique_union((3.0 * x + a).equidistant_probability_grid(limits, n), [ga, gb, ga]))
    v.ensure("0*a + b", v.is_unique_union((0.0 * a + b).equidistant_probability_grid(limits, n), [ga, gb]))
    v.ensure("a + (a + b)", v.is_unique_union((a + x).equidistant_probability_grid(limits, n), [ga, ga, gb]))
    v.ensure("increasing", v.increasing((a + x).equidistant_probability_grid(limits, n)))
    v.ensure("single", v.is_unique_union((2 * a).equidistant_probability_grid(limits, n), [ga]))


def theorem_union_with_constant(v):
    """a number added to a cross section contributes the even grid."""
    cs = v.mod("ries.cross_section")
    lo, hi, limits = limits_of(v)
    n = v.int("k", ge=2, hi=8)
    a = v.cross_section("a")
    c = v.number("c", lo=-5, hi=5)
    ga = a.equidistant_probability_grid(limits, n)
    ge = cs.ConstantCrossSection(c).equidistant_energy_grid(limits, n)
    v.ensure("a + c", v.is_unique_union((a + c).equidistant_probability_grid(limits, n), [ga, ge]))
    v.ensure("c + 2*a", v.is_unique_union((c + 2.0 * a).equidistant_probability_grid(limits, n), [ga, ge]))

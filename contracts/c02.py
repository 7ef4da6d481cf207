"""C02: building or evaluating expressions never alters operands or arguments."""
from contracts.lib import state, ground_state, weighted_sum


def theorem_sum_operators(v):
    """+ with a weighted sum on either side leaves operands, their lists and values alone."""
    s = weighted_sum(v, "s")
    t = weighted_sum(v, "t")
    a = v.cross_section("a")
    c = v.number("c", lo=-5, hi=5)
    E = v.real("E", lo=0.1, hi=10.0)
    old_s = s(E)
    old_t = t(E)
    f = v.snapshot((s, t))
    u = s + t
    u = s + a
    u = a + s
    u = s + c
    u = c + s
    u = s + s
    u(E)
    v.ensure("operands are not changed", v.unchanged(f))
    v.equal("value of s", s(E), old_s)
    v.equal("value of t", t(E), old_t)


def theorem_product_operators(v):
    """* with a number leaves the weighted sum alone."""
    s = weighted_sum(v, "s")
    c = v.number("c", lo=-5, hi=5)
    E = v.real("E", lo=0.1, hi=10.0)
    old = s(E)
    f = v.snapshot(s)
    u = s * c
    u = c * s
    u(E)
    v.ensure("the operand is not changed", v.unchanged(f))
    v.equal("value of s", s(E), old)


def theorem_earlier_expressions(v):
    """expressions built later on top of an expression do not change it."""
    a = v.cross_section("a")
    b = v.cross_section("b")
    c = v.number("c", lo=-5, hi=5)
    E = v.real("E", lo=0.1, hi=10.0)
    x = a + b
    y = c * a
    fx = v.snapshot((x, y))
    z = x + y
    z = z + a
    z = x * c + y
    z = y + x + c
    z = x + x
    z(E)
    v.ensure("earlier expressions are not changed", v.unchanged(fx))
    v.equal("x", x(E), a(E) + b(E))
    v.equal("y", y(E), c * a(E))
    w = z + a
    v.equal("z after w", z(E), 2.0 * (a(E) + b(E)), atol=1e-12)
    v.equal("w", w(E), 3.0 * a(E) + 2.0 * b(E), atol=1e-12)


def theorem_in_place_operators(v):
    """+= and *= bind a new object: other names of the old one keep its value."""
    a = v.cross_section("a")
    s = weighted_sum(v, "s")
    c = v.number("c", lo=-5, hi=5)
    E = v.real("E", lo=0.1, hi=10.0)
    old = s(E)
    alias = s
    f = v.snapshot(s)
    s += a
    s *= c
    s += c
    s += alias
    v.ensure("the old object is not changed", v.unchanged(f))
    v.equal("its value", alias(E), old)


def theorem_evaluation(v):
    """evaluation changes neither the expression nor the array of energies, nor earlier results."""
    s = weighted_sum(v, "s")
    a = v.cross_section("a")
    c = v.number("c", lo=-5, hi=5)
    n = v.int("k", ge=1, hi=5)
    m = v.int("m", ge=1, hi=5)
    E = v.array("E", n, lo=0.1, hi=10.0)
    F = v.array("F", m, lo=0.1, hi=10.0)
    x = c * (s + a)
    f = v.snapshot((E, F, s, x))
    first = x(E)
    g = v.snapshot(first)
    second = x(F)
    third = s(E)
    x(E)
    v.ensure("the expression and the energies are not changed", v.unchanged(f))
    v.ensure("the first result is not changed", v.unchanged(g))


def theorem_results_of_constituents(v):
    """summing does not write into the arrays the constituents returned (a constituent may keep them)."""
    cs = v.mod("ries.cross_section")
    kept = v.array("kept", v.int("k", ge=1, hi=5), lo=-5.0, hi=5.0)
    a = v.fixed_result(kept)
    b = v.cross_section("b")
    c = v.real("c", lo=-5.0, hi=5.0)
    f = v.snapshot(kept)
    E = v.array("E", v.len(kept), lo=0.1, hi=10.0)
    s = cs.CrossSectionWeightedSum([a, b])
    s(E)
    s = cs.CrossSectionWeightedSum([a, b], [c, 1.0])
    s(E)
    s = cs.CrossSectionWeightedSum([a], [1.0])
    r = s(E)
    s(E)
    (c * s)(E)
    (s + a)(E)
    v.ensure("the constituent's array is not changed", v.unchanged(f))


def theorem_grids_of_constituents(v):
    """the union of the grids is formed without writing into the grids of the constituents."""
    cs = v.mod("ries.cross_section")
    k = v.int("k", ge=1, hi=5)
    kept = v.array("kept", k, lo=-5.0, hi=5.0)
    a = v.fixed_result(kept)
    b = v.cross_section("b")
    f = v.snapshot(kept)
    s = cs.CrossSectionWeightedSum([a, b])
    s.equidistant_probability_grid([1.0, 2.0], k)
    (b + s).equidistant_probability_grid([1.0, 2.0], k)
    cs.CrossSectionWeightedSum([a]).equidistant_probability_grid([1.0, 2.0], k)
    v.ensure("the constituent's grid is not changed", v.unchanged(f))


def theorem_grids(v):
    """asking for grids changes neither the expression nor the limits nor grids returned earlier."""
    s = weighted_sum(v, "s")
    a = v.cross_section("a")
    x = s + a
    lo = v.real("lo", lo=0.1, hi=5.0)
    hi = v.real("hi", lo=5.0, hi=10.0)
    n = v.int("k", ge=2, hi=6)
    limits = v.choice("limits", [lo, hi], (lo, hi))
    f = v.snapshot((x, s, limits))
    p = x.equidistant_energy_grid(limits, n)
    fp = v.snapshot(p)
    q = x.equidistant_probability_grid(limits, n)
    fq = v.snapshot(q)
    x.equidistant_energy_grid(limits, n)
    x.equidistant_probability_grid(limits, n)
    s.equidistant_probability_grid(limits, n)
    v.ensure("expression and limits are not changed", v.unchanged(f))
    v.ensure("the energy grid returned first is not changed", v.unchanged(fp))
    v.ensure("the probability grid returned first is not changed", v.unchanged(fq))


def theorem_constructor_arguments(v):
    """lists passed to the constructor are not changed by it or by later expressions."""
    cs = v.mod("ries.cross_section")
    n = v.int("n", ge=0, hi=5)
    reactions = v.list("r", n, lambda i: v.cross_section("cs", i))
    w = v.list("w", n, lambda i: v.real("w", i, lo=-3.0, hi=3.0))
    E = v.real("E", lo=0.1, hi=10.0)
    a = v.cross_section("a")
    f = v.snapshot((reactions, w))
    s = cs.CrossSectionWeightedSum(reactions, w)
    t = cs.CrossSectionWeightedSum(reactions)
    u = s + t + a
    u = 2.0 * u
    u = s + a
    u = t + a
    u(E)
    s(E)
    v.ensure("the lists are not changed", v.unchanged(f))


def theorem_no_shared_defaults(v):
    """objects created without their optional collections do not share one."""
    cs = v.mod("ries.cross_section")
    iso = v.mod("ries.constituents.isotope")
    p = cs.CrossSectionWeightedSum()
    q = cs.CrossSectionWeightedSum()
    v.ensure("weighted sums", not v.shares(p, q))
    a = v.cross_section("a")
    E = v.real("E", lo=0.1, hi=10.0)
    p.reactions.append(a)
    p.scale_factors.append(1.0)
    v.equal("an empty sum stays empty", q(E), 0.0)
    v.equal("a new sum is empty", cs.CrossSectionWeightedSum()(E), 0.0)
    x = iso.Isotope("4He", 4.0)
    y = iso.Isotope("3He", 3.0)
    v.ensure("isotopes", not v.shares(x, y))
    x.excited_states.append("level")
    v.ensure("levels of one isotope are not levels of another", v.len(y.excited_states) == 0)
    v.ensure("nor of a later one", v.len(iso.Isotope("2H", 2.0).excited_states) == 0)
    z = iso.Isotope("12C", 12.0, v.record(J_pi="0+"))
    v.ensure("with a ground state", v.len(z.excited_states) == 0)


def theorem_resonance_arguments(v):
    """resonances leave energies, limits and level data alone."""
    bw = v.mod("ries.resonance.breit_wigner")
    ga = v.mod("ries.resonance.gauss")
    E1 = v.real("E1", gt=0.0, lo=0.5, hi=10.0)
    amu = v.real("amu", gt=0.0, lo=1.0, hi=300.0)
    T = v.real("T", gt=0.0, lo=1.0, hi=1000.0)
    g0 = ground_state(v, "a")
    lev = state(v, "b", E1)
    final = state(v, "c", 0.5 * E1)
    f = v.snapshot((g0, lev, final))
    r = v.choice("class", bw.BreitWigner, ga.Gauss)
    if r is bw.BreitWigner:
        r = bw.BreitWigner(g0, lev, final)
    else:
        r = ga.Gauss(g0, lev, amu, T, final)
    E = v.array("E", v.int("k", ge=1, hi=5), lo=0.1, hi=10.0)
    lo = v.real("lo", lo=0.1, hi=5.0)
    hi = v.real("hi", lo=5.0, hi=10.0)
    v.require(lo < hi)
    limits = [lo, hi]
    n = v.int("n", ge=2, hi=6)
    fr = v.snapshot((r, E, limits))
    first = r(E)
    g = v.snapshot(first)
    r(E, False)
    r(E, True)
    r.equidistant_energy_grid(limits, n)
    r.equidistant_probability_grid(limits, n)
    r.coverage_interval(0.5)
    v.ensure("states are not changed", v.unchanged(f))
    v.ensure("resonance, energies and limits are not changed", v.unchanged(fr))
    v.ensure("the first result is not changed", v.unchanged(g))


def theorem_nonresonant_arguments(v):
    """Klein-Nishina and tabulated cross sections leave energies and tables alone."""
    kn = v.mod("ries.nonresonant.klein_nishina")
    E = v.array("E", v.int("k", ge=1, hi=5), gt=0.0, lo=0.1, hi=10.0)
    theta = v.array("theta", v.len(E), ge=0.0, lo=0.1, hi=3.0)
    c = kn.KleinNishina(v.real("Z", gt=0.0, lo=1.0, hi=100.0))
    f = v.snapshot((c, E, theta))
    first = c(E)
    g = v.snapshot(first)
    c(E)
    c.cs_total(E)
    c.cs_diff_dtheta(E, theta)
    c.cs_diff_dOmega(E, theta, theta)
    c.cs_diff_dOmega_unpolarized(E, theta)
    c.compton_edge(E)
    c.Ep_over_E(E, theta)
    v.ensure("energies and angles are not changed", v.unchanged(f))
    v.ensure("the first result is not changed", v.unchanged(g))


def theorem_table_arguments(v):
    """a tabulated cross section leaves the table it was given alone."""
    xr = v.mod("ries.nonresonant.xrmac")
    n = v.int("n", ge=2, hi=6)
    table = v.table("t", n)
    E = v.array("E", v.int("k", ge=1, hi=5), gt=0.0, lo=0.01, hi=20.0)
    f = v.snapshot((table, E))
    x = xr.XRMAC(table)
    first = x(E)
    g = v.snapshot(first)
    (2.0 * x)(E)
    x.equidistant_probability_grid((0.1, 1.0), 5)
    v.ensure("table and energies are not changed", v.unchanged(f))
    v.ensure("the first result is not changed", v.unchanged(g))


def theorem_two_levels(v):
    """operators on all pairs of operand kinds, twice: nothing built earlier changes its value."""
    cs = v.mod("ries.cross_section")
    E = v.energy("E", lo=0.1, hi=10.0)
    a = v.cross_section("a")
    b = v.cross_section("b")
    k = v.real("k", lo=-5.0, hi=5.0)
    c = v.number("c", lo=-5, hi=5)
    const = cs.ConstantCrossSection(k)
    base = [a, b, const, 3.0 * a, a + const, const + a, a + c]
    f = v.snapshot(base)
    old = [x(E) for x in base]
    first = [x + y for x in base for y in base] + [x + c for x in base] + [c * x for x in base]
    v.ensure("operands are not changed by the first operator", v.unchanged(f))
    g = v.snapshot(first)
    mid = [x(E) for x in first]
    second = [x + y for x in first for y in base] + [x + c for x in first] + [c + x for x in first] + [x * c for x in first]
    for x in second:
        x(E)
    v.ensure("operands are not changed by the second operator", v.unchanged(f))
    v.ensure("results are not changed by the second operator", v.unchanged(g))
    for i in range(len(base)):
        v.equal("values of operands", base[i](E), old[i])
    for i in range(len(first)):
        v.equal("values of results", first[i](E), mid[i])

"""C12: level widths and element masses are exact weighted sums."""


def theorem_total_width(v):
    """the width of a level with any number of decays is the sum of its partial widths."""
    st = v.mod("ries.constituents.state")
    n = v.int("n", ge=0, hi=6)
    widths = v.dict("widths", n, lambda i: v.key("J", i), lambda i: v.real("g", i, gt=0.0, lo=1e-9, hi=1.0))
    f = v.snapshot(widths)
    lev = st.State("x", 2, 1, v.real("e", lo=0.1, hi=10.0), widths)
    v.equal("width", lev.width, v.sum(n, lambda i: v.real("g", i, gt=0.0, lo=1e-9, hi=1.0)))
    v.ensure("the table is not changed", v.unchanged(f))


def theorem_branching_ratios(v):
    """the ratios partial width / width over all listed final states sum to 1."""
    st = v.mod("ries.constituents.state")
    n = v.int("n", ge=1, hi=6)
    widths = v.dict("widths", n, lambda i: v.key("J", i), lambda i: v.real("g", i, gt=0.0, lo=1e-9, hi=1.0))
    lev = st.State("x", 2, 1, v.real("e", lo=0.1, hi=10.0), widths)
    total = v.sum(n, lambda i: v.real("g", i, gt=0.0, lo=1e-9, hi=1.0))
    v.require(total > 0.0)
    v.equal("sum of branching ratios", v.sum(n, lambda i: lev.partial_widths[v.key("J", i)] / lev.width), 1.0)


def theorem_branching_ratios_of_resonances(v):
    """the final-state channels of a resonance sum to the strength without a final state."""
    st = v.mod("ries.constituents.state")
    bw = v.mod("ries.resonance.breit_wigner")
    g = [v.real("g%d" % i, gt=0.0, lo=1e-9, hi=1.0) for i in range(3)]
    e = v.real("e", gt=0.0, lo=0.5, hi=10.0)
    ground = st.GroundState("a", 0, 1)
    low = st.State("b", 4, 1, 0.1 * e, {"a": g[0]})
    mid = st.State("c", 2, -1, 0.2 * e, {"a": g[1]})
    top = st.State("d", 2, 1, e, {"a": g[0], "b": g[1], "c": g[2]})
    v.equal("width", top.width, g[0] + g[1] + g[2])
    full = bw.BreitWigner(ground, top).energy_integrated_cross_section
    parts = [bw.BreitWigner(ground, top, f).energy_integrated_cross_section for f in (ground, low, mid)]
    v.equal("channels", parts[0] + parts[1] + parts[2], full)


def isotopes_of(v, n):
    iso = v.mod("ries.constituents.isotope")
    return v.dict("isotopes", n, lambda i: v.key("A", i), lambda i: iso.Isotope(v.key("A", i), v.real("m", i, gt=0.0, lo=1.0, hi=300.0)))


def theorem_element_mass(v):
    """mass = sum of mass times abundance, matched by name, whatever the order of the tables."""
    el = v.mod("ries.constituents.element")
    n = v.int("n", ge=1, hi=6)
    isotopes = isotopes_of(v, n)
    abundances = v.shuffled_dict("abundances", n, "A", lambda i: v.real("w", i, ge=0.0, lo=0.0, hi=1.0))
    f = v.snapshot((isotopes, abundances))
    x = el.Element(1, "X", isotopes, abundances)
    expected = v.sum(n, lambda i: v.real("m", i, gt=0.0, lo=1.0, hi=300.0) * v.real("w", i, ge=0.0, lo=0.0, hi=1.0))
    v.equal("mass", x.amu, expected)
    v.equal("static method", el.Element.amu_from_isotopic_composition(abundances, isotopes), expected)
    v.ensure("the tables are not changed", v.unchanged(f))


def theorem_further_abundances(v):
    """abundances listed for isotopes that are not in the isotope table do not count."""
    el = v.mod("ries.constituents.element")
    n = v.int("n", ge=1, hi=5)
    k = v.int("k", ge=0, hi=4)
    isotopes = isotopes_of(v, n)
    extra = v.dict("extra", k, lambda i: v.key("B", i), lambda i: v.real("x", i, ge=0.0, lo=0.0, hi=1.0))
    own = v.shuffled_dict("abundances", n, "A", lambda i: v.real("w", i, ge=0.0, lo=0.0, hi=1.0))
    abundances = v.merge(extra, own) if v.flag("first") else v.merge(own, extra)
    x = el.Element(1, "X", isotopes, abundances, v.real("rho", lo=0.1, hi=20.0))
    v.equal("mass", x.amu, v.sum(n, lambda i: v.real("m", i, gt=0.0, lo=1.0, hi=300.0) * v.real("w", i, ge=0.0, lo=0.0, hi=1.0)))


def theorem_elements_are_independent(v):
    """building another element does not change the mass of the first."""
    el = v.mod("ries.constituents.element")
    iso = v.mod("ries.constituents.isotope")
    m = v.real("m0", gt=0.0, lo=1.0, hi=300.0)
    p = v.real("m1", gt=0.0, lo=1.0, hi=300.0)
    w = v.real("w0", ge=0.0, le=1.0)
    a = iso.Isotope("1X", m)
    b = iso.Isotope("2X", p)
    x = el.Element(1, "X", {"1X": a, "2X": b}, {"2X": 1.0 - w, "1X": w})
    y = el.Element(1, "X", {"2X": b}, {"1X": w, "2X": 1.0})
    v.equal("first", x.amu, m * w + p * (1.0 - w))
    v.equal("second", y.amu, p)

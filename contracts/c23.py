"""C23: shipped element, density, attenuation and Debye data are consistent."""


def theorem_mass_between_isotopes(v):
    """abundances that sum to 1 give a mass between any lower and upper limit of the isotope masses."""
    el = v.mod("ries.constituents.element")
    iso = v.mod("ries.constituents.isotope")
    n = v.int("n", ge=1, hi=6)
    m = v.array("m", n, gt=0.0, lo=1.0, hi=300.0)
    w = v.array("w", n, ge=0.0, hi=1.0)
    total = v.sum(n, lambda i: w[i])
    v.require(total > 0.0)
    isotopes = v.dict("isotopes", n, lambda i: v.key("A", i), lambda i: iso.Isotope(v.key("A", i), m[i]))
    abundances = v.dict("abundances", n, lambda i: v.key("A", i), lambda i: w[i] / total)
    low = v.real("low", lo=0.0, hi=100.0)
    high = v.real("high", lo=100.0, hi=400.0)
    v.require(v.forall(n, lambda i: v.implies(w[i] > 0.0, v.all(low <= m[i], m[i] <= high))))
    x = el.Element(1, "X", isotopes, abundances)
    v.induct("weighted masses", n, lambda k: v.all(
        low * v.sum(k, lambda i: w[i]) <= v.sum(k, lambda i: m[i] * w[i]),
        v.sum(k, lambda i: m[i] * w[i]) <= high * v.sum(k, lambda i: w[i])))
    v.equal("mass times weight", x.amu * total, v.sum(n, lambda i: m[i] * w[i]))
    v.ensure("not below the lightest", v.le(low, x.amu, 1e-12))
    v.ensure("not above the heaviest", v.le(x.amu, high, 1e-12))


def theorem_no_abundance(v):
    """an element without natural abundance has mass 0."""
    el = v.mod("ries.constituents.element")
    iso = v.mod("ries.constituents.isotope")
    n = v.int("n", ge=0, hi=6)
    isotopes = v.dict("isotopes", n, lambda i: v.key("A", i), lambda i: iso.Isotope(v.key("A", i), v.real("m", i, gt=0.0, lo=1.0, hi=300.0)))
    abundances = v.dict("abundances", n, lambda i: v.key("A", i), lambda i: 0.0)
    v.equal("mass", el.Element(1, "X", isotopes, abundances).amu, 0.0)


def theorem_element_table(v):
    """the element table holds for every number the element with its own symbol, isotopes, abundances, mass and density."""
    z = v.int("Z", ge=1, le=118)
    symbol, n, key, m, w, density = v.reader_tables(z)
    el = v.module_turn("ries.constituents.element", z)
    v.ensure("symbol", el.X[z] == symbol)
    x = el.natural_elements[symbol]
    v.equal("atomic number", x.Z, z)
    v.ensure("own symbol", x.X == symbol)
    v.equal("density", x.density, density)
    v.equal("number of isotopes", len(x.isotopes), n)
    v.equal("number of abundances", len(x.abundances), n)
    j = v.int("j", ge=0, hi=5)
    v.require(j < n)
    v.equal("mass of an isotope", x.isotopes[key(j)].amu, m[j])
    v.equal("abundance of an isotope", x.abundances[key(j)], w[j], atol=0.0)
    v.equal("mass", x.amu, v.sum(n, lambda i: m[i] * w[i]))


def bounded_elements(v):
    """all 118 shipped elements against an independent reading of the shipped tables."""
    el = v.mod("ries.constituents.element")
    records = v.nist_records()
    densities = v.density_records()
    v.equal("number of elements", len(el.natural_elements), 118)
    v.ensure("atomic numbers", sorted(el.X) == list(range(1, 119)))
    v.ensure("symbols are unique", len(set(el.X.values())) == 118)
    for Z in range(1, 119):
        own = [r for r in records if r["Z"] == Z]
        s = own[0]["X"]
        v.equal("symbol of %d" % Z, el.X[Z], s)
        x = el.natural_elements[s]
        names = ["%d%s" % (r["A"], r["X"]) for r in own]
        v.equal("atomic number of " + s, x.Z, Z)
        v.equal("own symbol of " + s, x.X, s)
        v.ensure("isotopes of " + s, sorted(x.isotopes) == sorted(names))
        v.ensure("abundances of " + s, sorted(x.abundances) == sorted(names))
        for r, name in zip(own, names):
            v.equal("mass of " + name, x.isotopes[name].amu, r["amu"], rtol=1e-14)
            v.equal("name of " + name, x.isotopes[name].AX, name)
            v.equal("abundance of " + name, x.abundances[name], r["share"], rtol=1e-14, atol=0.0)
        total = sum(x.abundances.values())
        v.ensure("abundances of %s sum to 1 or are 0" % s, abs(total - 1.0) < 1e-9 or total == 0.0)
        stable = [r["amu"] for r in own if r["share"] > 0.0]
        if stable:
            v.ensure("mass of %s between its isotopes" % s, min(stable) * (1.0 - 1e-9) <= x.amu <= max(stable) * (1.0 + 1e-9))
        v.equal("mass of " + s, x.amu, sum(r["amu"] * r["share"] for r in own), rtol=1e-12)
        v.equal("density of " + s, x.density, densities.get(s))


def bounded_debye(v):
    """all shipped Debye temperatures belong to an element symbol."""
    el = v.mod("ries.constituents.element")
    deb = v.mod("ries.resonance.debye_model")
    symbols = [r["X"] for r in v.nist_records()]
    for k in deb.room_temperature_T_D:
        t = deb.room_temperature_T_D[k]
        v.ensure("Debye key %s is a symbol" % k, k in symbols and k in el.natural_elements)
        v.ensure("Debye temperature of %s" % k, t is None or t > 0.0)


def bounded_attenuation(v):
    """all 92 shipped attenuation tables, every row and energies between the rows."""
    el = v.mod("ries.constituents.element")
    x = v.mod("ries.nonresonant.xrmac")
    u = v.const("atomic mass constant")
    v.equal("number of tables", len(x.xrmac_cm2_per_g), 92)
    v.equal("number of per-atom tables", len(x.xrmac_fm2_per_atom), 92)
    for Z in range(1, 93):
        s = el.X[Z]
        rows = v.attenuation_records(Z)
        e = [r[0] for r in rows]
        a, b = x.xrmac_cm2_per_g[s], x.xrmac_fm2_per_atom[s]
        v.equal("rows of " + s, a.data, rows, rtol=1e-14)
        v.ensure("energies of %s increase" % s, all(p < q for p, q in zip(e, e[2:])) and all(p <= q for p, q in zip(e, e[1:])))
        inside = [e[0], e[-1]] + [p + (q - p) * f for p, q in zip(e, e[1:]) for f in (0.25, 0.75) if q > p * (1.0 + 1e-6)] + [0.5 * e[0], 2.0 * e[-1]]
        m = el.natural_elements[s].amu * u * 1000.0 * 1e26
        va, vb = a(inside), b(inside)
        v.ensure("per-gram cross section of %s is positive" % s, all(y > 0.0 for y in va))
        v.equal("ratio for " + s, vb, va * m, rtol=1e-9)


def bounded_per_atom(v):
    """per-atom cross sections of all 92 elements are positive."""
    el = v.mod("ries.constituents.element")
    x = v.mod("ries.nonresonant.xrmac")
    for Z in range(1, 93):
        s = el.X[Z]
        e = [r[0] for r in v.attenuation_records(Z)]
        v.ensure("per-atom cross section of %s is positive" % s, all(y > 0.0 for y in x.xrmac_fm2_per_atom[s](e)))

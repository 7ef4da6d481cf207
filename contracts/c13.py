"""C13: the NIST isotope table is read record by record without loss or mix-up."""

VALUE = "0123456789.,[]()"
NOTES = "abcdefghijklmnopqrstuvwxyz,"


def number(v, tag, i):
    return v.int(tag + "_A", i, ge=1, hi=320)


def symbol(v, tag, i):
    return v.symbol("X", v.int(tag + "_X", i, ge=0, hi=40))


def mass(v, tag, i):
    return v.real(tag + "_mass", i, ge=0.0, hi=300.0)


def printed(v, tag, i):
    """1: the mass is printed with an uncertainty"""
    return v.int(tag + "_printed", i, ge=0, le=1)


def field(v, tag, i):
    """composition field, 0: with uncertainty, 1: without, 2: empty"""
    return v.int(tag + "_field", i, ge=0, le=2)


def share(v, tag, i):
    return v.real(tag + "_share", i, ge=0.0, le=1.0)


def composition(v, tag, i):
    return v.where(field(v, tag, i) == 2, 0.0, share(v, tag, i))


def record(v, tag, i, Z):
    """one paragraph of the table"""
    f = field(v, tag, i)
    err = v.digits(v.int(tag + "_err", i, ge=0, hi=99))
    m = v.text("Relative Atomic Mass = ", v.decimal(mass(v, tag, i)))
    c = "Isotopic Composition = "
    p = v.text(c, v.decimal(share(v, tag, i)))
    return [
        v.text("Atomic Number = ", v.digits(Z), "\n"),
        v.text("Atomic Symbol = ", symbol(v, tag, i), "\n"),
        v.text("Mass Number = ", v.digits(number(v, tag, i)), "\n"),
        v.line_if(printed(v, tag, i) == 1, v.text(m, "(", err, ")\n"), v.text(m, "\n")),
        v.line_if(f == 2, c + "\n", v.line_if(f == 0, v.text(p, "(", err, ")\n"), v.text(p, "\n"))),
        v.text("Standard Atomic Weight = ", v.free(tag + "w", i, VALUE), "\n"),
        v.text("Notes = ", v.free(tag + "n", i, NOTES), "\n"),
        "\n",
    ]


def header(v):
    return v.choice("header", [], ["# Isotopic data\n", "#\n", "\n"])


def table(v, Z, before, own, after):
    """sorted by atomic number: some records below Z, the records of Z, some records above Z"""
    low = lambda i: v.int("low_Z", i, ge=1, lt=Z)
    high = lambda i: v.int("high_Z", i, gt=Z, hi=130)
    v.require(v.forall(own, lambda a: v.forall(own, lambda b: v.implies(a < b, v.not_(number(v, "own", a) == number(v, "own", b))))))
    return v.text_file(
        header(v),
        v.lines(before, lambda i: record(v, "low", i, low(i))),
        v.lines(own, lambda i: record(v, "own", i, Z)),
        v.lines(after, lambda i: record(v, "high", i, high(i))),
    )


def theorem_isotopes(v):
    """exactly the isotopes of the records with this atomic number, each with its own mass and composition."""
    mod = v.mod("ries.constituents.natural_element_data")
    Z = v.int("Z", ge=1, hi=118)
    before = v.int("before", ge=0, hi=3)
    v.require(v.any(before == 0, Z > 1))
    own = v.int("own", ge=0, hi=4)
    after = v.int("after", ge=0, hi=3)
    r = mod.NISTElementDataReader(table(v, Z, before, own, after))
    abundances, isotopes = r.read_nist_element_data(Z)
    v.equal("number of compositions", len(abundances), own)
    v.equal("number of isotopes", len(isotopes), own)
    j = v.int("j", ge=0, hi=3)
    v.require(j < own)
    name = v.text(v.digits(number(v, "own", j)), symbol(v, "own", j))
    v.ensure("isotope is there", name in isotopes)
    v.ensure("composition is there", name in abundances)
    v.equal("composition", abundances[name], composition(v, "own", j))
    v.equal("mass", isotopes[name].amu, mass(v, "own", j))
    v.ensure("name", isotopes[name].AX == name)
    v.ensure("no states", v.all(isotopes[name].ground_state is None, len(isotopes[name].excited_states) == 0))


def element(v, e):
    return v.int("element_Z", e, ge=1, hi=118)


def theorem_symbols(v):
    """the symbol table maps every atomic number to the symbol of its first record."""
    mod = v.mod("ries.constituents.natural_element_data")
    m = v.int("elements", ge=0, hi=4)
    more = lambda e: v.int("more", e, ge=0, hi=3)
    v.require(v.forall(m, lambda a: v.forall(m, lambda b: v.implies(a < b, element(v, a) < element(v, b)))))
    name = v.text_file(header(v), v.lines(m, lambda e: [
        record(v, "first", e, element(v, e)),
        v.lines(more(e), lambda i: record(v, "next", (e, i), element(v, e)))]))
    X = mod.NISTElementDataReader(name).read_nist_element_symbols()
    v.equal("number of elements", len(X), m)
    j = v.int("j", ge=0, hi=3)
    v.require(j < m)
    v.ensure("element is there", element(v, j) in X)
    v.ensure("symbol", X[element(v, j)] == symbol(v, "first", j))

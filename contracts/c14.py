"""C14: density lookup returns the element's own density or None."""


def table(v, n, last):
    """lines 'symbol, padded to two characters' + blanks + number, after a header; the symbols are distinct"""
    v.require(v.forall(n, lambda a: v.forall(n, lambda b: v.implies(a < b, v.not_(code(v, a) == code(v, b))))))

    gap = v.choice("gap", " ", "   ")
    end = v.choice("end", "\n", "      \n")

    def line(i):
        return v.text(v.padded(v.symbol("X", code(v, i)), 2), gap, v.decimal(rho(v, i)), end)
    header = v.choice("header", [], ["# Densities of natural elements \n", "#\n"], ["# H 1.0\n", "\n", "#B 2.0\n"])
    if last:
        return v.text_file(header, v.lines(n, line), v.text(v.padded(v.symbol("X", v.int("last_code", ge=0, hi=60)), 2), " ", v.decimal(v.real("last_rho", ge=0.0, hi=30.0))))
    return v.text_file(header, v.lines(n, line))


def code(v, i):
    return v.int("code", i, ge=0, hi=60)


def rho(v, i):
    return v.real("rho", i, ge=0.0, hi=30.0)


def theorem_listed(v):
    """the density of a listed symbol is the number on its line, converted."""
    mod = v.mod("ries.constituents.natural_element_data")
    n = v.int("n", ge=1, hi=6)
    j = v.int("j", ge=0, hi=5)
    v.require(j < n)
    f = v.fn("conversion")
    name = table(v, n, False)
    v.equal("converted density", mod.Geant4DensityDataReader(name, f).read_density_data(v.symbol("X", code(v, j))), f(rho(v, j)))
    v.equal("plain density", mod.Geant4DensityDataReader(name).read_density_data(v.symbol("X", code(v, j))), rho(v, j))


def theorem_not_listed(v):
    """None for a symbol without a line, never the density of another symbol."""
    mod = v.mod("ries.constituents.natural_element_data")
    n = v.int("n", ge=0, hi=6)
    c = v.int("wanted", ge=0, hi=60)
    v.require(v.forall(n, lambda a: v.not_(code(v, a) == c)))
    r = mod.Geant4DensityDataReader(table(v, n, False), v.fn("conversion"))
    v.ensure("None", r.read_density_data(v.symbol("X", c)) is None)


def theorem_not_a_symbol(v):
    """None for longer or shorter text than a symbol, or a symbol in the wrong case."""
    mod = v.mod("ries.constituents.natural_element_data")
    wanted = v.choice("wanted", "lium", "he", "b", "HE", "Helium", "Bor", "1H")
    r = mod.Geant4DensityDataReader(v.text_file(["# header\n"], ["H  0.1\n", "He 0.2\n", "B  2.4\n", "Be 1.8\n"]), v.fn("conversion"))
    v.ensure("None", r.read_density_data(wanted) is None)


def theorem_last_line(v):
    """the last line counts also without a final newline."""
    mod = v.mod("ries.constituents.natural_element_data")
    n = v.int("n", ge=0, hi=6)
    c = v.int("last_code", ge=0, hi=60)
    v.require(v.forall(n, lambda a: v.not_(code(v, a) == c)))
    r = mod.Geant4DensityDataReader(table(v, n, True))
    v.equal("density", r.read_density_data(v.symbol("X", c)), v.real("last_rho", ge=0.0, hi=30.0))


def theorem_repeated_use(v):
    """a reader can be used again and looks up each symbol on its own."""
    mod = v.mod("ries.constituents.natural_element_data")
    n = v.int("n", ge=2, hi=6)
    j = v.int("j", ge=0, hi=5)
    k = v.int("k", ge=0, hi=5)
    v.require(v.all(j < n, k < n))
    r = mod.Geant4DensityDataReader(table(v, n, False))
    v.equal("first", r.read_density_data(v.symbol("X", code(v, j))), rho(v, j))
    v.equal("second", r.read_density_data(v.symbol("X", code(v, k))), rho(v, k))
    v.equal("first again", r.read_density_data(v.symbol("X", code(v, j))), rho(v, j))

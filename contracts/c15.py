"""C15: attenuation tables are read completely with the right unit conversion."""
import numpy as np


def energy(v, i):
    return v.real("energy", i, gt=0.0, hi=20.0)


def total(v, i):
    return v.real("total", i, gt=0.0, hi=1e4)


def absorbed(v, i):
    return v.real("absorbed", i, gt=0.0, hi=1e4)


def columns(v, e, c, d, end):
    return v.text(v.decimal(e), "  ", v.decimal(c), "  ", v.decimal(d), end)


def table(v, n):
    """file of n lines and a last one with index n, with or without edge-label column and final newline"""
    style = v.choice("style", "plain", "labels")
    end = v.choice("end", "\n", " \n")
    final = v.choice("final", "\n", " \n", "", " ")

    def line(i, tail):
        body = columns(v, energy(v, i), total(v, i), absorbed(v, i), tail)
        if style == "plain":
            return [body]
        labelled = v.int("labelled", i, ge=0, le=1)
        edge = v.padded(v.word("edge", i, 2), 3)
        return [v.line_if(labelled == 1, v.text(edge, body), v.text("   ", body))]
    return v.text_file(v.lines(n, lambda i: line(i, end)), line(n, final))


def rows(v, m, f, g):
    cols = [v.array_of(m, lambda i: f(energy(v, i))), v.array_of(m, lambda i: g(total(v, i))), v.array_of(m, lambda i: g(absorbed(v, i)))]
    return cols


def check(v, data, n, f, g):
    v.equal("number of lines", data.shape[0], n + 1)
    v.equal("number of columns", data.shape[1], 3)
    for k, col in enumerate(rows(v, n + 1, f, g)):
        v.equal("column %d" % k, data[:, k], col)


def ready(v):
    """a reader: an object made from a table that has nothing to do with the file"""
    mod = v.mod("ries.nonresonant.xrmac")
    return mod.XRMAC(np.array([[1.0, 2.0, 3.0], [2.0, 5.0, 1.0]]))


def theorem_plain(v):
    """one row per line, numbers as printed."""
    n = v.int("n", ge=0, hi=5)
    data = ready(v).read_nist_xrmac(table(v, n))
    check(v, data, n, lambda x: x, lambda x: x)


def theorem_conversions(v):
    """energies pass through the energy conversion, both coefficients through the coefficient conversion."""
    mod = v.mod("ries.nonresonant.xrmac")
    n = v.int("n", ge=0, hi=5)
    f, g = v.fn("f"), v.fn("g")
    which = v.choice("given", "both", "energy", "coefficient")
    d = np.array([[1.0, 2.0, 3.0], [2.0, 5.0, 1.0]])
    same = lambda x: x
    if which == "both":
        r = mod.XRMAC(d, f, g)
        check(v, r.read_nist_xrmac(table(v, n)), n, f, g)
    elif which == "energy":
        r = mod.XRMAC(d, energy_conversion=f)
        check(v, r.read_nist_xrmac(table(v, n)), n, f, same)
    else:
        r = mod.XRMAC(d, xrmac_conversion=g)
        check(v, r.read_nist_xrmac(table(v, n)), n, same, g)


def theorem_from_file(v):
    """a cross section made from a file name holds the converted table and returns it at the printed energies."""
    mod = v.mod("ries.nonresonant.xrmac")
    n = v.int("n", ge=2, hi=4)
    s = v.real("s", gt=0.0, hi=10.0)
    t = v.real("t", gt=0.0, hi=10.0)
    e = v.array("e", n, increasing=True, gt=0.0, lo=0.01, hi=20.0)
    c = v.array("c", n, gt=0.0, lo=0.01, hi=1e4)
    d = v.array("d", n, gt=0.0, lo=0.01, hi=1e4)
    name = v.text_file(v.lines(n, lambda i: columns(v, e[i], c[i], d[i], "\n")))
    x = mod.XRMAC(name, lambda E: s * E, lambda y: t * y)
    v.equal("energies", x.data[:, 0], s * e)
    v.equal("coefficients", x.data[:, 1], t * c)
    v.equal("absorption coefficients", x.data[:, 2], t * d)
    j = v.int("j", ge=0, hi=3)
    v.require(j < n)
    v.equal("value at a printed energy", x(s * e[j]), t * c[j], rtol=1e-8)


def theorem_readers_are_independent(v):
    """two readers with different conversions do not share them."""
    mod = v.mod("ries.nonresonant.xrmac")
    n = v.int("n", ge=0, hi=4)
    f, g, h = v.fn("f"), v.fn("g"), v.fn("h")
    d = np.array([[1.0, 2.0, 3.0], [2.0, 5.0, 1.0]])
    first = mod.XRMAC(d, f, g)
    second = mod.XRMAC(d, xrmac_conversion=h)
    name = table(v, n)
    check(v, first.read_nist_xrmac(name), n, f, g)
    check(v, second.read_nist_xrmac(name), n, lambda x: x, h)
    check(v, first.read_nist_xrmac(name), n, f, g)


def theorem_per_atom(v):
    """every shipped element: both tables hold its own file, per atom times the mass of its own atom, also after import."""
    z = v.int("Z", ge=1, le=92)
    symbol, amu = v.element_tables(z)

    def file(t):
        m, e, c, d = v.attenuation(t)
        return v.text_file(v.lines(m, lambda i: columns(v, e[i], c[i], d[i], "\n")))
    v.numbered_files("ries/nonresonant/nist_xrmac", ".txt", file)
    n, e, c, d = v.attenuation(z)
    mod = v.module_turn("ries.nonresonant.xrmac", z)
    per_g, per_atom = mod.xrmac_cm2_per_g[symbol], mod.xrmac_fm2_per_atom[symbol]
    factor = 1e26 * amu * v.const("atomic mass constant") * 1000.0
    for k, col in enumerate((e, c, d)):
        v.equal("per gram: column %d" % k, per_g.data[:, k], col)
    v.equal("per atom: energies", per_atom.data[:, 0], e)
    v.equal("per atom: coefficients", per_atom.data[:, 1], factor * c)
    v.equal("per atom: absorption coefficients", per_atom.data[:, 2], factor * d)
    y = v.real("y", gt=0.0, hi=1e4)
    v.equal("conversion after import", per_atom.xrmac_conversion(y), factor * y)
    v.equal("no conversion per gram", per_g.xrmac_conversion(y), y)
    v.equal("energies are not converted", per_atom.energy_conversion(y), y)

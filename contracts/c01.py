"""C01: sums and multiples of cross sections have the linear-combination value.

Every operation is verified for operands with arbitrary value functions, and for weighted sums of any
number of arbitrary constituents and factors; expressions of any depth follow by induction over the
operations (an operand of one operation is any object another operation may return).
"""
from contracts.lib import state, ground_state, weighted_sum


def theorem_sum_of_two(v):
    """a + b for cross sections a, b (also a + a)."""
    a = v.cross_section("a")
    b = v.cross_section("b")
    E = v.energy("E", lo=0.1, hi=10.0)
    v.equal("a + b", (a + b)(E), a(E) + b(E))
    v.equal("b + a", (b + a)(E), a(E) + b(E))
    v.equal("a + a", (a + a)(E), 2.0 * a(E))


def theorem_number_plus_cross_section(v):
    """a + c and c + a for a plain number c."""
    a = v.cross_section("a")
    E = v.energy("E", lo=0.1, hi=10.0)
    c = v.number("c", lo=-5, hi=5)
    v.equal("a + c", (a + c)(E), a(E) + c)
    v.equal("c + a", (c + a)(E), a(E) + c)


def theorem_number_times_cross_section(v):
    """a * c and c * a for a plain number c."""
    a = v.cross_section("a")
    E = v.energy("E", lo=0.1, hi=10.0)
    c = v.number("c", lo=-5, hi=5)
    v.equal("a * c", (a * c)(E), c * a(E))
    v.equal("c * a", (c * a)(E), c * a(E))


def theorem_weighted_sum_value(v):
    """a weighted sum of any number of cross sections has the weighted sum of the values."""
    cs = v.mod("ries.cross_section")
    n = v.int("n", ge=0, hi=6)
    reactions = v.list("r", n, lambda i: v.cross_section("cs", i))
    E = v.energy("E", lo=0.1, hi=10.0)
    s = cs.CrossSectionWeightedSum(reactions)
    if v.is_array(E):
        k = v.len(E)
        v.equal("without factors", s(E), v.array_of(k, lambda j: v.sum(n, lambda i: v.cross_section_value("cs", i, E[j]))))
    else:
        v.equal("without factors", s(E), v.sum(n, lambda i: v.cross_section_value("cs", i, E)))
    w = v.list("w", n, lambda i: v.real("w", i, lo=-3.0, hi=3.0))
    s = cs.CrossSectionWeightedSum(reactions, w)
    if v.is_array(E):
        k = v.len(E)
        v.equal("with factors", s(E), v.array_of(k, lambda j: v.sum(n, lambda i: w[i] * v.cross_section_value("cs", i, E[j]))))
    else:
        v.equal("with factors", s(E), v.sum(n, lambda i: w[i] * v.cross_section_value("cs", i, E)))


def theorem_weighted_sum_plus_cross_section(v):
    """s + a and a + s."""
    s = weighted_sum(v, "s")
    a = v.cross_section("a")
    E = v.energy("E", lo=0.1, hi=10.0)
    v.equal("s + a", (s + a)(E), s(E) + a(E), atol=1e-9)
    v.equal("a + s", (a + s)(E), s(E) + a(E), atol=1e-9)


def theorem_weighted_sum_plus_number(v):
    """s + c and c + s for a plain number c."""
    s = weighted_sum(v, "s")
    c = v.number("c", lo=-5, hi=5)
    E = v.energy("E", lo=0.1, hi=10.0)
    v.equal("s + c", (s + c)(E), s(E) + c, atol=1e-9)
    v.equal("c + s", (c + s)(E), s(E) + c, atol=1e-9)


def theorem_weighted_sum_plus_weighted_sum(v):
    """s + t and s + s."""
    s = weighted_sum(v, "s")
    t = weighted_sum(v, "t")
    E = v.energy("E", lo=0.1, hi=10.0)
    v.equal("s + t", (s + t)(E), s(E) + t(E), atol=1e-9)
    v.equal("s + s", (s + s)(E), 2.0 * s(E), atol=1e-9)


def theorem_weighted_sum_times_number(v):
    """c * s and s * c for a plain number c."""
    s = weighted_sum(v, "s")
    c = v.number("c", lo=-5, hi=5)
    E = v.energy("E", lo=0.1, hi=10.0)
    v.equal("c * s", (c * s)(E), c * s(E), atol=1e-9)
    v.equal("s * c", (s * c)(E), c * s(E), atol=1e-9)


def theorem_nested(v):
    """nested expressions with shared operands."""
    a = v.cross_section("a")
    b = v.cross_section("b")
    c = v.real("c", lo=-5.0, hi=5.0)
    d = v.number("d", lo=-5, hi=5)
    E = v.energy("E", lo=0.1, hi=10.0)
    x = a + c * b
    y = d * x + a
    z = x * c + (y + d) * 2
    u = a + z
    vx = a(E) + c * b(E)
    vy = d * vx + a(E)
    vz = vx * c + (vy + d) * 2
    v.equal("a + c*b", x(E), vx, atol=1e-9)
    v.equal("d*(a + c*b) + a", y(E), vy, atol=1e-9)
    v.equal("x*c + (y + d)*2", z(E), vz, atol=1e-9)
    v.equal("a + z", u(E), a(E) + vz, atol=1e-9)
    v.equal("x again", x(E), vx, atol=1e-9)
    v.equal("d*u + z", (d * u + z)(E), d * (a(E) + vz) + vz, atol=1e-8)
    v.equal("u + u", (u + u)(E), 2 * (a(E) + vz), atol=1e-8)


def theorem_in_place_operators(v):
    """s += a and s *= c give the sum and the multiple."""
    a = v.cross_section("a")
    b = v.cross_section("b")
    s = weighted_sum(v, "s")
    c = v.number("c", lo=-5, hi=5)
    E = v.energy("E", lo=0.1, hi=10.0)
    before = s(E)
    s += a
    v.equal("s += a", s(E), before + a(E), atol=1e-9)
    s *= c
    v.equal("s *= c", s(E), c * (before + a(E)), atol=1e-9)
    s += c
    v.equal("s += c", s(E), c * (before + a(E)) + c, atol=1e-9)
    t = a
    t += b
    v.equal("a += b", t(E), a(E) + b(E), atol=1e-9)
    t = a
    t *= c
    v.equal("a *= c", t(E), c * a(E), atol=1e-9)


def theorem_two_evaluations(v):
    """an expression evaluated again, at other energies, has the value there."""
    a = v.cross_section("a")
    s = weighted_sum(v, "s")
    E = v.energy("E", lo=0.1, hi=10.0)
    E2 = v.energy("E2", lo=0.1, hi=10.0)
    c = v.real("c", lo=-5.0, hi=5.0)
    x = c * (s + a)
    x(E)
    v.equal("second energy", x(E2), c * (s(E2) + a(E2)), atol=1e-9)
    v.equal("first energy again", x(E), c * (s(E) + a(E)), atol=1e-9)


def theorem_constant(v):
    """a constant cross section has its value at every energy, alone and in sums."""
    cs = v.mod("ries.cross_section")
    c = v.number("c", lo=-5, hi=5)
    d = v.number("d", lo=-5, hi=5)
    E = v.energy("E", lo=0.1, hi=10.0)
    k = cs.ConstantCrossSection(c)
    a = v.cross_section("a")
    v.equal("constant", k(E), c)
    v.equal("constant + number", (k + d)(E), c + d)
    v.equal("number * constant", (d * k)(E), c * d)
    v.equal("a + constant", (a + k)(E), a(E) + c, atol=1e-12)
    v.equal("constant + a", (k + a)(E), a(E) + c, atol=1e-12)


def theorem_shipped_classes(v):
    """the same for the cross sections of the package."""
    kn = v.mod("ries.nonresonant.klein_nishina")
    bw = v.mod("ries.resonance.breit_wigner")
    ga = v.mod("ries.resonance.gauss")
    E1 = v.real("E1", gt=0.0, lo=0.5, hi=10.0)
    amu = v.real("amu", gt=0.0, lo=1.0, hi=300.0)
    T = v.real("T", gt=0.0, lo=1.0, hi=1000.0)
    E = v.energy("E", gt=0.0, lo=0.1, hi=10.0)
    c = v.number("c", lo=-5, hi=5)
    k = kn.KleinNishina(v.real("Z", gt=0.0, lo=1.0, hi=100.0))
    b = bw.BreitWigner(ground_state(v, "a"), state(v, "b", E1))
    g = ga.Gauss(ground_state(v, "a"), state(v, "b", E1), amu, T)
    x = k + c * b
    v.equal("k + c*b", x(E), k(E) + c * b(E))
    v.equal("b + g", (b + g)(E), b(E) + g(E))
    v.equal("c*(g + k)", (c * (g + k))(E), c * (g(E) + k(E)))
    v.equal("c + k", (c + k)(E), c + k(E))
    v.equal("x + x*c", (x + x * c)(E), (1 + c) * (k(E) + c * b(E)), rtol=1e-8, atol=1e-9)


def theorem_two_levels(v):
    """every operator on every pair of operand kinds, and once more on every result."""
    cs = v.mod("ries.cross_section")
    E = v.energy("E", lo=0.1, hi=10.0)
    a = v.cross_section("a")
    b = v.cross_section("b")
    k = v.real("k", lo=-5.0, hi=5.0)
    c = v.number("c", lo=-5, hi=5)
    const = cs.ConstantCrossSection(k)
    base = [(a, a(E)), (b, b(E)), (const, k), (3.0 * a, 3.0 * a(E)), (a + const, a(E) + k)]
    first = []
    for x, p in base:
        for y, q in base:
            first.append((x + y, p + q))
        first.append((c * x, c * p))
        first.append((x * 2, 2 * p))
        first.append((x + c, p + c))
        first.append((c + x, c + p))
    for x, p in first:
        v.equal("one operator", x(E), p, atol=1e-12)
    for x, p in first:
        for y, q in base:
            v.equal("two operators", (x + y)(E), p + q, atol=1e-12)
            v.equal("two operators, reversed", (y + x)(E), q + p, atol=1e-12)
        v.equal("multiple", (c * x)(E), c * p, atol=1e-12)
        v.equal("plus a number", (x + c)(E), p + c, atol=1e-12)
        v.equal("number plus", (c + x)(E), c + p, atol=1e-12)

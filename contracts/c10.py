"""C10: probability grids and energy grids of resonances."""
from contracts.lib import doppler_width, target, total_width
from contracts.c07 import fwhm, weight
from contracts.c08 import accuracy
from contracts.c09 import cdf
import numpy as np


def resonance(v, which):
    """a resonance of one of the shipped classes at an arbitrary energy with an arbitrary width"""
    st = v.mod("ries.constituents.state")
    initial = st.GroundState("0^+_1", 0, 1)
    intermediate = st.State("1^+_1", 2, 1, v.real("Er", gt=0.0, lo=0.05, hi=20.0), {"0^+_1": total_width(v, "b")})
    if which == "uniform":
        return v.mod("ries.resonance.resonance").Resonance(initial, intermediate)
    if which == "breit_wigner":
        return v.mod("ries.resonance.breit_wigner").BreitWigner(initial, intermediate)
    amu, T = target(v)
    if which == "gauss":
        return v.mod("ries.resonance.gauss").Gauss(initial, intermediate, amu, T)
    if which == "pseudo":
        return v.mod("ries.resonance.pseudo_voigt").PseudoVoigt(initial, intermediate, amu, T)
    return v.mod("ries.resonance.voigt").Voigt(initial, intermediate, amu, T)


def rounding(v, r, which):
    """accuracy of probabilities: step width of the root finder or spacing of floating-point numbers"""
    if which == "pseudo" or which == "voigt":
        return accuracy(v, r.resonance_energy, r.intermediate_state.width, v.real("amu", gt=0.0), v.real("T", gt=0.0))
    return 1e-9 + 4e-15 * r.resonance_energy * r.probability_distribution.pdf(r.resonance_energy, *r.probability_distribution_parameters)


def weights(v, r, which):
    """lemmas on the mixture of the pseudo-Voigt shape"""
    if which == "pseudo" or which == "voigt":
        G = r.intermediate_state.width
        f = fwhm(v, G, doppler_width(v, r.resonance_energy, v.real("amu", gt=0.0), v.real("T", gt=0.0)))
        v.lemma("widths", v.le(G, f))
        v.lemma("ratio", v.all(0.0 < G / f, v.le(G / f, 1.0)))
        v.lemma("weight", v.all(weight(v, G / f) >= 0.0, v.le(weight(v, G / f), 1.0)))


def scale(v, r, which):
    """a length typical for the shape"""
    if which == "uniform":
        return 1.0
    if which == "breit_wigner":
        return r.intermediate_state.width
    D = doppler_width(v, r.resonance_energy, v.real("amu", gt=0.0), v.real("T", gt=0.0))
    return D + r.intermediate_state.width


def range_grid(v, which):
    r = resonance(v, which)
    weights(v, r, which)
    L = scale(v, r, which)
    a = v.near("a", r.resonance_energy, L)
    b = v.near("b", r.resonance_energy, L)
    v.require(a < b)
    n = v.int("n", ge=2, lo=2, hi=9)
    if which == "uniform":
        v.lemma("order of the probabilities", v.le(cdf(r, a), cdf(r, b)))
    else:
        v.lemma("probabilities", v.all(0.0 < cdf(r, a), cdf(r, a) < cdf(r, b), cdf(r, b) < 1.0))
    o = v.observe(r.equidistant_probability_grid, (a, b), n)
    v.ensure("no exception", o.raised is None)
    if o.raised is None:
        g = o.value
        v.equal("number of points", v.len(g), n)
        v.equal("starts exactly at the lower limit", g[0], a, rtol=0.0)
        v.equal("ends exactly at the upper limit", g[n - 1], b, rtol=0.0)
        i = v.int("i", ge=0, lo=0, hi=8)
        v.require(i <= n - 1)
        v.ensure("within the limits", v.all(g[i] >= a, g[i] <= b))
        j = v.int("j", ge=0, lo=0, hi=8)
        v.require(v.all(i < j, j <= n - 1))
        if not o.warned:
            low = cdf(r, a)
            v.equal("equal parts", cdf(r, g[i]), low + (cdf(r, b) - low) * i / (n - 1), atol=rounding(v, r, which))
        v.ensure("non-decreasing", v.le(g[i], g[j], tol=1e-12))


def coverage_grid(v, which):
    r = resonance(v, which)
    weights(v, r, which)
    c = v.real("c", gt=0.0, lt=1.0, lo=0.001, hi=0.999)
    n = v.int("n", ge=2, lo=2, hi=9)
    o = v.observe(r.equidistant_probability_grid, c, n)
    v.ensure("no exception", o.raised is None)
    if o.raised is None:
        g = o.value
        v.equal("number of points", v.len(g), n)
        i = v.int("i", ge=0, lo=0, hi=8)
        v.require(i <= n - 1)
        if not o.warned:
            v.equal("equal parts of the coverage", cdf(r, g[i]), 0.5 * (1.0 - c) + c * i / (n - 1), atol=rounding(v, r, which))
        else:
            v.ensure("only the numerical quantiles are announced as approximate", which == "pseudo" or which == "voigt")


def even_grid(v, which):
    """the energy grid for a coverage is the even grid over the coverage interval (C09)"""
    r = resonance(v, which)
    weights(v, r, which)
    c = v.real("c", gt=0.0, lt=1.0, lo=0.001, hi=0.999)
    n = v.int("n", ge=2, lo=2, hi=9)
    below = cdf(r, 0.0)
    o = v.observe(r.equidistant_energy_grid, c, n)
    v.ensure("no exception", o.raised is None)
    if o.raised is None:
        g = o.value
        v.equal("number of points", v.len(g), n)
        i = v.int("i", ge=0, lo=0, hi=8)
        v.require(i <= n - 1)
        v.equal("even", g[i], g[0] + (g[n - 1] - g[0]) * i / (n - 1))
        v.ensure("not negative", g[0] >= 0.0)
        exact = which != "pseudo" and which != "voigt"
        if exact or not o.warned:
            v.equal("upper end", cdf(r, g[n - 1]), 0.5 * (1.0 + c), atol=rounding(v, r, which))
        if not o.warned:
            v.equal("lower end", cdf(r, g[0]), 0.5 * (1.0 - c), atol=rounding(v, r, which))
        elif exact:
            v.equal("clipped", g[0], 0.0)


def even_range_grid(v, which):
    r = resonance(v, which)
    a = v.real("a")
    b = v.real("b")
    n = v.int("n", ge=2, lo=2, hi=9)
    g = r.equidistant_energy_grid((a, b), n)
    v.equal("even grid over given limits", g, v.array_of(n, lambda i: a + (b - a) * i / (n - 1)), atol=1e-12)


def theorem_range_grid_uniform(v):
    range_grid(v, "uniform")


def theorem_coverage_grid_uniform(v):
    coverage_grid(v, "uniform")


def theorem_even_grid_uniform(v):
    even_grid(v, "uniform")


def theorem_even_range_grid_uniform(v):
    even_range_grid(v, "uniform")


def theorem_range_grid_breit_wigner(v):
    range_grid(v, "breit_wigner")


def theorem_coverage_grid_breit_wigner(v):
    coverage_grid(v, "breit_wigner")


def theorem_even_grid_breit_wigner(v):
    even_grid(v, "breit_wigner")


def theorem_even_range_grid_breit_wigner(v):
    even_range_grid(v, "breit_wigner")


def theorem_range_grid_gauss(v):
    range_grid(v, "gauss")


def theorem_coverage_grid_gauss(v):
    coverage_grid(v, "gauss")


def theorem_even_grid_gauss(v):
    even_grid(v, "gauss")


def theorem_even_range_grid_gauss(v):
    even_range_grid(v, "gauss")


def theorem_range_grid_pseudo_voigt(v):
    range_grid(v, "pseudo")


def theorem_coverage_grid_pseudo_voigt(v):
    coverage_grid(v, "pseudo")


def theorem_even_grid_pseudo_voigt(v):
    even_grid(v, "pseudo")


def theorem_even_range_grid_pseudo_voigt(v):
    even_range_grid(v, "pseudo")


def theorem_range_grid_voigt(v):
    range_grid(v, "voigt")


def theorem_coverage_grid_voigt(v):
    coverage_grid(v, "voigt")


def theorem_even_grid_voigt(v):
    even_grid(v, "voigt")


def theorem_even_range_grid_voigt(v):
    even_range_grid(v, "voigt")

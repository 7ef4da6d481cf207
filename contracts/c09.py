"""C09: coverage intervals."""
from contracts.lib import levels, target, ground_state, state
from contracts.c07 import fwhm, weight
from contracts.c08 import accuracy
from contracts.lib import doppler_width
import numpy as np


def resonance(v, which):
    """a resonance of one of the shipped classes"""
    initial, intermediate, final, d = levels(v)
    if which == "uniform":
        return v.mod("ries.resonance.resonance").Resonance(initial, intermediate)
    if which == "breit_wigner":
        return v.mod("ries.resonance.breit_wigner").BreitWigner(initial, intermediate)
    amu, T = target(v)
    if which == "gauss":
        return v.mod("ries.resonance.gauss").Gauss(initial, intermediate, amu, T)
    if which == "pseudo":
        return v.mod("ries.resonance.pseudo_voigt").PseudoVoigt(initial, intermediate, amu, T)
    return v.mod("ries.resonance.voigt").Voigt(initial, intermediate, amu, T)


def cdf(r, E):
    return r.probability_distribution.cdf(E, *r.probability_distribution_parameters)


def numbers(v, messages):
    """all numbers stated in the warnings"""
    out = []
    for m in messages:
        out = out + v.numbers_in(m)
    return out


def interval(v, which, exact=True):
    r = resonance(v, which)
    c = v.real("c", gt=0.0, lt=1.0, lo=0.001, hi=0.999)
    below = cdf(r, 0.0)
    rounding = 1e-9 + 2e-15 * r.resonance_energy * r.probability_distribution.pdf(r.resonance_energy, *r.probability_distribution_parameters)
    v.require(v.any(below < 0.5 * (1.0 - c) - 1e-12, below > 0.5 * (1.0 - c) + 1e-12))
    o = v.observe(r.coverage_interval, c)
    v.ensure("no exception", o.raised is None)
    if o.raised is None:
        v.equal("two limits", v.len(o.value), 2)
        stated = numbers(v, o.messages)
        if exact:
            v.equal("probability up to the upper limit", cdf(r, o.value[1]), 0.5 * (1.0 + c), atol=rounding)
            v.ensure("finite", v.finite(o.value[1]))
            if o.warned:
                v.ensure("only for a negative lower limit", below > 0.5 * (1.0 - c))
                v.equal("replaced by 0", o.value[0], 0.0)
                v.ensure("largest coverage", len(stated) == 1)
                v.equal("its value", stated[0], 100.0 * (1.0 - below), atol=1e-6)
            else:
                v.ensure("lower limit is not negative", o.value[0] >= 0.0)
                v.ensure("no unannounced replacement", v.le(below, 0.5 * (1.0 - c)))
                v.equal("probability below the lower limit", cdf(r, o.value[0]), 0.5 * (1.0 - c), atol=rounding)
        else:
            v.ensure("lower limit is not negative", o.value[0] >= 0.0)
            Er, G, amu, T = r.resonance_energy, r.intermediate_state.width, v.real("amu", gt=0.0), v.real("T", gt=0.0)
            numerical = accuracy(v, Er, G, amu, T)
            if not o.warned:
                v.equal("probability up to the upper limit", cdf(r, o.value[1]), 0.5 * (1.0 + c), atol=numerical)
                v.equal("probability below the lower limit", cdf(r, o.value[0]), 0.5 * (1.0 - c), atol=numerical)
            if len(stated) > 0 and len(o.messages) == 1:
                # the quantiles are not approximations
                f = fwhm(v, G, doppler_width(v, Er, amu, T))
                v.lemma("widths", v.le(G, f))
                v.lemma("ratio", v.all(0.0 < G / f, v.le(G / f, 1.0)))
                v.lemma("weight", v.all(weight(v, G / f) >= 0.0, v.le(weight(v, G / f), 1.0)))
                v.equal("probability up to the upper limit", cdf(r, o.value[1]), 0.5 * (1.0 + c), atol=numerical)
                v.ensure("only for a negative lower limit", v.le(0.5 * (1.0 - c), below, tol=numerical))
            if len(stated) > 0:
                v.equal("replaced by 0", o.value[0], 0.0)
                v.equal("largest coverage", stated[0], 100.0 * (1.0 - below), atol=1e-6)


def theorem_uniform(v):
    interval(v, "uniform")


def theorem_breit_wigner(v):
    interval(v, "breit_wigner")


def theorem_gauss(v):
    interval(v, "gauss")


def theorem_pseudo_voigt(v):
    """numerical quantiles: the limits may be announced approximations (see C08)."""
    interval(v, "pseudo", exact=False)


def theorem_voigt(v):
    interval(v, "voigt", exact=False)


def theorem_coverage_one(v):
    """the whole axis: infinite upper limit with a warning, lower limit 0."""
    r = resonance(v, v.choice("which", "breit_wigner", "gauss"))
    o = v.observe(r.coverage_interval, 1.0)
    v.ensure("no exception", o.raised is None)
    v.ensure("warned", o.warned)
    v.equal("two warnings", v.len(o.messages), 2)
    v.equal("lower limit", o.value[0], 0.0)
    v.ensure("upper limit", v.isinf(o.value[1]))


def theorem_box_coverage_one(v):
    """the bounded shape has finite limits and needs no warning while these are not negative."""
    r = resonance(v, "uniform")
    Er = r.resonance_energy
    v.require(v.any(Er < 0.499, Er > 0.501))
    o = v.observe(r.coverage_interval, 1.0)
    v.ensure("no exception", o.raised is None)
    v.equal("upper limit", o.value[1], Er + 0.5)
    v.equal("lower limit", o.value[0], v.where(Er < 0.5, 0.0, Er - 0.5))
    v.ensure("warned exactly if it is negative", v.iff(o.warned, Er < 0.5))


def theorem_lower_limit_zero(v):
    """a lower limit of exactly 0 is not negative: no warning."""
    m = v.int("m", ge=1, lt=32, hi=31)
    r = v.mod("ries.resonance.resonance").Resonance(ground_state(v, "a"), state(v, "b", m / 64.0))
    o = v.observe(r.coverage_interval, m / 32.0)
    v.ensure("no exception", o.raised is None)
    if o.raised is None:
        v.equal("lower limit", o.value[0], 0.0)
        v.equal("upper limit", o.value[1], m / 32.0)
        v.ensure("no warning", not o.warned)

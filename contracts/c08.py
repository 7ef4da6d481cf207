"""C08: pseudo-Voigt quantiles are inverse CDF values or announced approximations."""
from contracts.lib import levels, target, doppler_width
from contracts.c07 import parameters, fwhm, weight
import numpy as np
from scipy.stats import norm, cauchy


def mixture(v, q, Er, G, amu, T):
    """the documented approximation: mixture of the two quantile functions"""
    f = fwhm(v, G, doppler_width(v, Er, amu, T))
    eta = weight(v, G / f)
    return (1.0 - eta) * norm.ppf(q, Er, f / (2.0 * np.sqrt(2.0 * np.log(2.0)))) + eta * cauchy.ppf(q, Er, 0.5 * f)


def accuracy(v, Er, G, amu, T):
    """probability within the step width at which the root finder stops"""
    return 1e-7 + 4e-8 / fwhm(v, G, doppler_width(v, Er, amu, T))


def distribution(v, which, Er, G, amu, T):
    if which == "pseudo":
        return v.mod("ries.resonance.pseudo_voigt").PseudoVoigtDistribution(Er, G, amu, T)
    return v.mod("ries.resonance.voigt").SemiPseudoVoigtDistribution(Er, G, amu, T)


def one_quantile(v, which):
    Er, G, amu, T = parameters(v)
    d = distribution(v, which, Er, G, amu, T)
    q = v.real("q", gt=0.0, lt=1.0)
    r = v.observe(d.ppf, q)
    v.ensure("no exception", r.raised is None)
    if r.raised is None:
        v.ensure("a number", v.is_number(r.value))
        v.ensure("finite", v.finite(r.value))
        if r.warned:
            v.equal("announced approximation", r.value, mixture(v, q, Er, G, amu, T), rtol=1e-7, atol=1e-12)
        else:
            v.equal("solves CDF(E) = q", d.cdf(r.value), q, atol=accuracy(v, Er, G, amu, T))


def theorem_one_quantile(v):
    one_quantile(v, "pseudo")


def theorem_one_quantile_voigt(v):
    one_quantile(v, "voigt")


def many_quantiles(v, which):
    Er, G, amu, T = parameters(v)
    d = distribution(v, which, Er, G, amu, T)
    n = v.int("n", ge=1, hi=6)
    q = v.array("q", n, gt=0.0, lt=1.0)
    f = v.snapshot(q)
    r = v.observe(d.ppf, q)
    v.ensure("no exception", r.raised is None)
    v.ensure("the quantiles are not changed", v.unchanged(f))
    if r.raised is None:
        v.ensure("shape", v.same_shape(r.value, q))
        v.ensure("finite", v.forall(n, lambda i: v.finite(r.value[i])))
        if r.warned:
            v.equal("announced approximation", r.value, v.array_of(n, lambda i: mixture(v, q[i], Er, G, amu, T)), rtol=1e-7, atol=1e-12)
        else:
            v.equal("solves CDF(E) = q", d.cdf(r.value), q, atol=accuracy(v, Er, G, amu, T))


def theorem_many_quantiles(v):
    many_quantiles(v, "pseudo")


def theorem_many_quantiles_voigt(v):
    many_quantiles(v, "voigt")


def theorem_tails(v):
    """quantiles so close to 0 or 1 that the root finder fails for some of them."""
    Er, G, amu, T = parameters(v)
    d = distribution(v, "pseudo", Er, G, amu, T)
    p = v.real("p", gt=0.0, lt=0.5, lo=1e-14, hi=1e-3)
    q = v.array_of(4, lambda i: v.where(i == 0, p, v.where(i == 1, 0.5, v.where(i == 2, 1.0 - p, 0.5 + p))))
    r = v.observe(d.ppf, q)
    v.ensure("no exception", r.raised is None)
    if r.raised is None:
        v.ensure("shape", v.same_shape(r.value, q))
        v.ensure("finite", v.forall(4, lambda i: v.finite(r.value[i])))
        if r.warned:
            v.equal("announced approximation", r.value, v.array_of(4, lambda i: mixture(v, q[i], Er, G, amu, T)), rtol=1e-7, atol=1e-12)
        else:
            v.equal("solves CDF(E) = q", d.cdf(r.value), q, atol=accuracy(v, Er, G, amu, T))


def theorem_resonances(v):
    """the resonances use their own distribution."""
    initial, intermediate, final, diff = levels(v)
    amu, T = target(v)
    which = v.choice("which", "pseudo", "voigt")
    if which == "pseudo":
        r = v.mod("ries.resonance.pseudo_voigt").PseudoVoigt(initial, intermediate, amu, T)
    else:
        r = v.mod("ries.resonance.voigt").Voigt(initial, intermediate, amu, T)
    Er = r.resonance_energy
    G = intermediate.width
    q = v.real("q", gt=0.0, lt=1.0)
    o = v.observe(r.probability_distribution.ppf, q)
    v.ensure("no exception", o.raised is None)
    if o.raised is None:
        if o.warned:
            v.equal("announced approximation", o.value, mixture(v, q, Er, G, amu, T), rtol=1e-7, atol=1e-12)
        else:
            v.equal("solves CDF(E) = q", r.probability_distribution.cdf(o.value), q, atol=accuracy(v, Er, G, amu, T))


def failures(v, which):
    """however the root finder fails, for one quantile or some of many, this is announced."""
    Er, G, amu, T = parameters(v)
    d = distribution(v, which, Er, G, amu, T)
    v.root_finder_faults()
    if v.choice("input", "one", "many") == "one":
        q = v.real("q", gt=0.0, lt=1.0)
        expected = mixture(v, q, Er, G, amu, T)
    else:
        n = v.int("n", ge=1, hi=6)
        q = v.array("q", n, gt=0.0, lt=1.0)
        expected = v.array_of(n, lambda i: mixture(v, q[i], Er, G, amu, T))
    r = v.observe(d.ppf, q)
    v.ensure("no exception", r.raised is None)
    if r.raised is None and r.root_failed:
        v.ensure("a failure of the root finder is announced", r.warned)
        v.equal("the documented approximation is returned", r.value, expected, rtol=1e-7, atol=1e-12)


def theorem_failures(v):
    """however the root finder fails, for one quantile or some of many, this is announced."""
    failures(v, "pseudo")


def theorem_failures_voigt(v):
    """the same for the Voigt distribution."""
    failures(v, "voigt")

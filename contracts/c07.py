"""C07: the pseudo-Voigt line shape is one proper mixture for density and distribution."""
from contracts.lib import levels, total_width, target, doppler_width
import numpy as np
from scipy.stats import norm, cauchy


def parameters(v):
    Er = v.real("Er", gt=0.0, lo=0.05, hi=20.0)
    G = v.real("G", gt=0.0, lo=1e-7, hi=1.0)
    amu, T = target(v)
    return Er, G, amu, T


def fwhm(v, G, D):
    """Thompson's quintic combination of the Lorentz width G and the Gaussian FWHM 2*sqrt(ln 2)*D"""
    g = 2.0 * np.sqrt(np.log(2.0)) * D
    return (g ** 5 + 2.69269 * g ** 4 * G + 2.42843 * g ** 3 * G ** 2 + 4.47163 * g ** 2 * G ** 3 + 0.07842 * g * G ** 4 + G ** 5) ** 0.2


def weight(v, q):
    return 1.36603 * q - 0.47719 * q ** 2 + 0.11116 * q ** 3


def theorem_mixture(v):
    """density and distribution are the mixture with the quintic width."""
    pv = v.mod("ries.resonance.pseudo_voigt")
    Er, G, amu, T = parameters(v)
    D = doppler_width(v, Er, amu, T)
    f = fwhm(v, G, D)
    eta = weight(v, G / f)
    s = f / (2.0 * np.sqrt(2.0 * np.log(2.0)))
    d = pv.PseudoVoigtDistribution(Er, G, amu, T)
    t = v.energy("t", lo=-6.0, hi=6.0)
    E = Er + t * f
    v.equal("density", d.pdf(E), (1.0 - eta) * norm.pdf(E, Er, s) + eta * cauchy.pdf(E, Er, 0.5 * f), rtol=1e-6)
    v.equal("distribution", d.cdf(E), (1.0 - eta) * norm.cdf(E, Er, s) + eta * cauchy.cdf(E, Er, 0.5 * f), rtol=1e-6)


def theorem_weight(v):
    """the weight is between 0 and 1 (a lemma about the formula, and about the object)."""
    pv = v.mod("ries.resonance.pseudo_voigt")
    Er, G, amu, T = parameters(v)
    d = pv.PseudoVoigtDistribution(Er, G, amu, T)
    D = doppler_width(v, Er, amu, T)
    f = fwhm(v, G, D)
    q = G / f
    v.lemma("the total width is larger than the Lorentz width", v.le(G, f))
    v.lemma("ratio", v.all(0.0 < q, v.le(q, 1.0)))
    v.equal("the weight used", d.eta, weight(v, q))
    v.ensure("at least 0", weight(v, q) >= 0.0)
    v.ensure("at most 1", v.le(weight(v, q), 1.0))


def theorem_weight_range(v):
    """the weight polynomial maps [0, 1] into [0, 1], 0 to 0 and 1 to 1."""
    q = v.real("q", ge=0.0, le=1.0)
    v.ensure("at least 0", weight(v, q) >= 0.0)
    v.ensure("at most 1", v.le(weight(v, q), 1.0))
    v.equal("Lorentz only", weight(v, 1.0), 1.0)
    v.equal("Gauss only", weight(v, 0.0), 0.0)


def theorem_proper(v):
    """positive, symmetric, 1/2 at Er, increasing."""
    pv = v.mod("ries.resonance.pseudo_voigt")
    Er, G, amu, T = parameters(v)
    d = pv.PseudoVoigtDistribution(Er, G, amu, T)
    D = doppler_width(v, Er, amu, T)
    f = fwhm(v, G, D)
    v.lemma("widths", v.le(G, f))
    v.lemma("ratio", v.all(0.0 < G / f, v.le(G / f, 1.0)))
    v.lemma("weight", v.all(weight(v, G / f) >= 0.0, v.le(weight(v, G / f), 1.0)))
    x = v.real("t", lo=-6.0, hi=6.0) * f
    v.ensure("positive", d.pdf(Er + x) > 0.0)
    v.equal("symmetric density", d.pdf(Er + x), d.pdf(Er - x), rtol=1e-6)
    v.equal("symmetric distribution", d.cdf(Er + x) + d.cdf(Er - x), 1.0)
    v.equal("half at the resonance energy", d.cdf(Er), 0.5)
    y = v.real("y", lo=-6.0, hi=6.0) * f
    v.ensure("increasing", v.implies(x < y, v.le(d.cdf(Er + x), d.cdf(Er + y))))
    v.ensure("probability", v.all(d.cdf(Er + x) > 0.0, v.lt(d.cdf(Er + x), 1.0)))


def theorem_strictly_increasing(v):
    """the distribution function is strictly increasing."""
    pv = v.mod("ries.resonance.pseudo_voigt")
    Er, G, amu, T = parameters(v)
    d = pv.PseudoVoigtDistribution(Er, G, amu, T)
    D = doppler_width(v, Er, amu, T)
    f = fwhm(v, G, D)
    v.lemma("widths", v.le(G, f))
    v.lemma("ratio", v.all(0.0 < G / f, v.le(G / f, 1.0)))
    v.lemma("weight", v.all(weight(v, G / f) > 0.0, v.le(weight(v, G / f), 1.0)))
    x = v.real("t", lo=-4.0, hi=4.0) * f
    y = v.real("y", lo=-4.0, hi=4.0) * f
    v.ensure("increasing", v.implies(x < y, v.lt(d.cdf(Er + x), d.cdf(Er + y))))


def theorem_resonance(v):
    """a pseudo-Voigt resonance uses this mixture for its own total width, energy and target."""
    initial, excited, final, e = levels(v)
    amu, T = target(v)
    if v.flag("with_final"):
        r = v.mod("ries.resonance.pseudo_voigt").PseudoVoigt(initial, excited, amu, T, final)
    else:
        r = v.mod("ries.resonance.pseudo_voigt").PseudoVoigt(initial, excited, amu, T)
    G = total_width(v, "b")
    D = doppler_width(v, e, amu, T)
    f = fwhm(v, G, D)
    eta = weight(v, G / f)
    s = f / (2.0 * np.sqrt(2.0 * np.log(2.0)))
    t = v.real("t", lo=-6.0, hi=6.0)
    E = e + t * f
    v.equal("cross section", r(E), r.energy_integrated_cross_section * ((1.0 - eta) * norm.pdf(E, e, s) + eta * cauchy.pdf(E, e, 0.5 * f)), rtol=1e-6)
    v.equal("relative energy", r(t * f, False), r(E), rtol=1e-6)


def theorem_voigt_shares_the_distribution(v):
    """the Voigt resonance uses the same distribution function."""
    vo = v.mod("ries.resonance.voigt")
    pv = v.mod("ries.resonance.pseudo_voigt")
    Er, G, amu, T = parameters(v)
    a = vo.SemiPseudoVoigtDistribution(Er, G, amu, T)
    b = pv.PseudoVoigtDistribution(Er, G, amu, T)
    E = v.energy("E", lo=0.01, hi=30.0)
    v.equal("distribution", a.cdf(E), b.cdf(E))


def theorem_limits(v):
    """a width of zero gives the pure other shape."""
    pv = v.mod("ries.resonance.pseudo_voigt")
    Er, G, amu, T = parameters(v)
    D = doppler_width(v, Er, amu, T)
    t = v.real("t", lo=-6.0, hi=6.0)
    E = Er + t * D
    d = pv.PseudoVoigtDistribution(Er, 0.0, amu, T)
    v.equal("no Lorentz width: density", d.pdf(E), norm.pdf(E, Er, D / np.sqrt(2.0)), rtol=1e-6)
    v.equal("no Lorentz width: distribution", d.cdf(E), norm.cdf(E, Er, D / np.sqrt(2.0)), rtol=1e-6)
    E = Er + t * G
    d = pv.PseudoVoigtDistribution(Er, G, amu, 0.0)
    v.equal("no Doppler width: density", d.pdf(E), cauchy.pdf(E, Er, 0.5 * G), rtol=1e-6)
    v.equal("no Doppler width: distribution", d.cdf(E), cauchy.cdf(E, Er, 0.5 * G), rtol=1e-6)

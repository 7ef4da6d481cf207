"""C19: polarised and unpolarised Compton cross sections."""
import numpy as np


def compton(v):
    kn = v.mod("ries.nonresonant.klein_nishina")
    m = v.real("m", gt=0.0, lo=0.05, hi=2000.0)
    Z = v.real("Z", gt=0.0, lo=1.0, hi=100.0)
    return kn.KleinNishina(Z, m), Z, m


def theorem_average(v):
    """the polarised cross section is A + B*cos(2*phi) with A the unpolarised one, so that the ghost function
    A*phi + B/2*sin(2*phi) is its antiderivative and the mean over [0, 2*pi] is A."""
    k, Z, m = compton(v)
    E = v.real("E", gt=0.0, lo=1e-2, hi=100.0)
    t = v.real("t", ge=0.0, le=np.pi)
    phi = v.real("phi", lo=-7.0, hi=14.0)
    A = k.cs_diff_dOmega_unpolarized(E, t)
    B = k.cs_diff_dOmega(E, t, 0.0) - A
    F = lambda f: A * f + B * np.sin(f) * np.cos(f)
    v.equal("antiderivative", k.cs_diff_dOmega(E, t, phi), v.derivative(F, phi), rtol=1e-5, atol=1e-9)
    v.equal("average", (F(2.0 * np.pi) - F(0.0)) / (2.0 * np.pi), A, rtol=1e-9)


def theorem_angle_differential(v):
    """2*pi*sin(t) times the unpolarised cross section is the angle-differential one, for scalars and arrays."""
    k, Z, m = compton(v)
    E = v.real("E", gt=0.0, lo=1e-2, hi=100.0)
    t = v.energy("t", ge=0.0, le=np.pi)
    v.equal("per angle", k.cs_diff_dtheta(E, t), 2.0 * np.pi * np.sin(t) * k.cs_diff_dOmega_unpolarized(E, t))


def theorem_energy_azimuth(v):
    """integral of the energy-azimuth cross section over the azimuth, by an antiderivative."""
    k, Z, m = compton(v)
    E = v.real("E", gt=0.0, lo=1e-2, hi=100.0)
    s = v.real("s", gt=0.0, lt=1.0, lo=0.02, hi=0.98)
    Ep = E / (1.0 + 2.0 * E / m * s)
    phi = v.real("phi", lo=-7.0, hi=14.0)
    A = k.cs_diff_dEp(E, Ep) / (2.0 * np.pi)
    B = k.cs_diff_dEp_dphi(E, Ep, 0.0) - A
    F = lambda f: A * f + B * np.sin(f) * np.cos(f)
    v.equal("antiderivative", k.cs_diff_dEp_dphi(E, Ep, phi), v.derivative(F, phi), rtol=1e-5, atol=1e-9)
    v.equal("integral", F(2.0 * np.pi) - F(0.0), k.cs_diff_dEp(E, Ep), rtol=1e-9)


def theorem_non_negative(v):
    """all differential cross sections are non-negative."""
    k, Z, m = compton(v)
    E = v.real("E", gt=0.0, lo=1e-2, hi=100.0)
    t = v.real("t", ge=0.0, le=np.pi)
    phi = v.real("phi", lo=-7.0, hi=14.0)
    v.ensure("polarised", v.le(0.0, k.cs_diff_dOmega(E, t, phi)))
    v.ensure("unpolarised", v.le(0.0, k.cs_diff_dOmega_unpolarized(E, t)))
    v.ensure("per angle", v.le(0.0, k.cs_diff_dtheta(E, t)))


def theorem_non_negative_energy(v):
    k, Z, m = compton(v)
    E = v.real("E", gt=0.0, lo=1e-2, hi=100.0)
    s = v.real("s", ge=0.0, le=1.0, lo=0.0, hi=0.999)
    Ep = E / (1.0 + 2.0 * E / m * s)
    phi = v.real("phi", lo=-7.0, hi=14.0)
    v.ensure("per energy", v.le(0.0, k.cs_diff_dEp(E, Ep)))
    v.ensure("per energy and azimuth", v.le(0.0, k.cs_diff_dEp_dphi(E, Ep, phi)))


def theorem_values(v):
    """the formulas of Klein and Nishina for the polarised and unpolarised cross section, arrays element by element."""
    k, Z, m = compton(v)
    E = v.real("E", gt=0.0, lo=1e-2, hi=100.0)
    t = v.energy("t", ge=0.0, le=np.pi)
    phi = v.real("phi", lo=-7.0, hi=14.0)
    r2 = Z * (v.const("fine-structure constant") * v.const("Planck constant over 2 pi times c in MeV fm") / m) ** 2
    w = 1.0 / (1.0 + E / m * (1.0 - np.cos(t)))
    v.equal("polarised", k.cs_diff_dOmega(E, t, phi), 0.5 * r2 * w * w * (w + 1.0 / w - 2.0 * np.sin(t) ** 2 * np.cos(phi) ** 2), rtol=1e-7)
    v.equal("unpolarised", k.cs_diff_dOmega_unpolarized(E, t), 0.5 * r2 * w * w * (w + 1.0 / w - np.sin(t) ** 2), rtol=1e-7)


def theorem_arrays_of_azimuths(v):
    """the same for an array of azimuthal angles, element by element."""
    k, Z, m = compton(v)
    E = v.real("E", gt=0.0, lo=1e-2, hi=100.0)
    s = v.real("s", gt=0.0, lt=1.0, lo=0.02, hi=0.98)
    t = np.arccos(1.0 - 2.0 * s)
    phi = v.array("phi", v.int("n", ge=1, hi=5), lo=-7.0, hi=14.0)
    f = v.snapshot(phi)
    r2 = Z * (v.const("fine-structure constant") * v.const("Planck constant over 2 pi times c in MeV fm") / m) ** 2
    w = 1.0 / (1.0 + E / m * (1.0 - np.cos(t)))
    shape = 0.5 * r2 * w * w * (w + 1.0 / w - 2.0 * np.sin(t) ** 2 * np.cos(phi) ** 2)
    Ep = E * w
    v.equal("polarised", k.cs_diff_dOmega(E, t, phi), shape, rtol=1e-7)
    v.equal("per energy and azimuth", k.cs_diff_dEp_dphi(E, Ep, phi), shape * m / (Ep * Ep), rtol=1e-5)
    v.ensure("the angles are not changed", v.unchanged(f))

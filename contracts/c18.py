"""C18: integrals of the differential Compton cross sections."""
import numpy as np


def compton(v):
    kn = v.mod("ries.nonresonant.klein_nishina")
    m = v.real("m", gt=0.0, lo=0.05, hi=2000.0)
    Z = v.real("Z", gt=0.0, lo=1.0, hi=100.0)
    return kn.KleinNishina(Z, m), Z, m


def unit(v, Z, m):
    """Z * alpha^2 * (hbar c)^2 / m^2: number of centers times the classical radius squared"""
    return Z * (v.const("fine-structure constant") * v.const("Planck constant over 2 pi times c in MeV fm")) ** 2 / (m * m)


def klein_nishina(v, Z, m, x):
    """the total cross section formula of Klein and Nishina, x = E/m"""
    return 2.0 * np.pi * unit(v, Z, m) * ((1.0 + x) / (x * x) * (2.0 * (1.0 + x) / (1.0 + 2.0 * x) - np.log(1.0 + 2.0 * x) / x) + np.log(1.0 + 2.0 * x) / (2.0 * x) - (1.0 + 3.0 * x) / (1.0 + 2.0 * x) ** 2)


def theorem_total(v):
    """the total cross section is the Klein-Nishina formula, and calling the object returns it."""
    k, Z, m = compton(v)
    x = v.energy("x", gt=0.0, lo=0.002, hi=100.0)
    E = x * m
    v.equal("total", k.cs_total(E), klein_nishina(v, Z, m, x), rtol=1e-6)
    v.equal("called", k(E), k.cs_total(E))


def antiderivative(v, Z, m, x, u):
    """ghost: antiderivative of the angle-differential cross section, as a function of u = E/E' = 1 + x*(1 - cos t)"""
    a = 1.0 + 1.0 / x
    return np.pi * unit(v, Z, m) / x * (np.log(u) - 0.5 / (u * u) + (1.0 - a * a) / u - 2.0 * a / x * np.log(u) + u / (x * x))


def theorem_angle(v):
    """the ghost antiderivative differentiates to the angle-differential cross section, and its increment over [0, pi] is the total."""
    k, Z, m = compton(v)
    x = v.real("x", gt=0.0, lo=0.2, hi=20.0)
    E = x * m
    t = v.real("t", ge=0.0, le=np.pi, lo=0.1, hi=3.0)
    F = lambda s: antiderivative(v, Z, m, x, 1.0 + x * (1.0 - np.cos(s)))
    v.equal("derivative", k.cs_diff_dtheta(E, t), v.derivative(F, t), rtol=1e-4)
    v.equal("increment", F(np.pi) - F(0.0), k.cs_total(E), rtol=1e-6)


def theorem_energy(v):
    """the same for the energy-differential one between the Compton edge and E."""
    k, Z, m = compton(v)
    x = v.real("x", gt=0.0, lo=0.2, hi=20.0)
    E = x * m
    s = v.real("s", gt=0.0, lt=1.0, lo=0.02, hi=0.98)
    Ep = E / (1.0 + 2.0 * x * s)
    F = lambda e: -antiderivative(v, Z, m, x, E / e)
    v.equal("derivative", k.cs_diff_dEp(E, Ep), v.derivative(lambda w: F(E * w), Ep / E) / E, rtol=1e-4)
    v.equal("increment", F(E) - F(k.compton_edge(E)), k.cs_total(E), rtol=1e-6)


def theorem_arrays(v):
    """arrays of angles and of energies, element by element."""
    k, Z, m = compton(v)
    x = v.real("x", gt=0.0, lo=0.2, hi=20.0)
    E = x * m
    t = v.energy("t", gt=0.0, lt=np.pi, lo=0.1, hi=3.0)
    u = 1.0 + x * (1.0 - np.cos(t))
    f = np.pi * unit(v, Z, m) / (u * u) * (u + 1.0 / u - np.sin(t) ** 2)
    v.equal("by angle", k.cs_diff_dtheta(E, t), f * np.sin(t), rtol=1e-7)
    v.equal("by energy", k.cs_diff_dEp(E, E / u), f * m * u * u / (E * E), rtol=1e-6)


def theorem_scaling(v):
    """proportional to the number of centers and, at fixed E/m, to 1/m^2."""
    kn = v.mod("ries.nonresonant.klein_nishina")
    k, Z, m = compton(v)
    x = v.real("x", gt=0.0, lo=0.2, hi=20.0)
    t = v.real("t", gt=0.0, lt=np.pi, lo=0.1, hi=3.0)
    w = 1.0 / (1.0 + x * (1.0 - np.cos(t)))
    Z2 = v.real("Z2", gt=0.0, lo=1.0, hi=100.0)
    m2 = v.real("m2", gt=0.0, lo=0.05, hi=2000.0)
    q = kn.KleinNishina(Z2, m)
    v.equal("total, centers", q.cs_total(x * m) * Z, k.cs_total(x * m) * Z2, rtol=1e-7)
    v.equal("angle, centers", q.cs_diff_dtheta(x * m, t) * Z, k.cs_diff_dtheta(x * m, t) * Z2)
    v.equal("energy, centers", q.cs_diff_dEp(x * m, w * x * m) * Z, k.cs_diff_dEp(x * m, w * x * m) * Z2)
    p = kn.KleinNishina(Z, m2)
    v.equal("total, mass", p.cs_total(x * m2) * m2 ** 2, k.cs_total(x * m) * m ** 2, rtol=1e-5)
    v.equal("angle, mass", p.cs_diff_dtheta(x * m2, t) * m2 ** 2, k.cs_diff_dtheta(x * m, t) * m ** 2, rtol=1e-7)
    v.equal("energy, mass", p.cs_diff_dEp(x * m2, w * x * m2) * m2 ** 3, k.cs_diff_dEp(x * m, w * x * m) * m ** 3, rtol=1e-6)


def theorem_defaults(v):
    """without arguments: one center with the electron mass; integer charge numbers."""
    kn = v.mod("ries.nonresonant.klein_nishina")
    me = v.const("electron mass energy equivalent in MeV")
    x = v.real("x", gt=0.0, lo=0.2, hi=20.0)
    v.equal("one electron", kn.KleinNishina()(x * me), klein_nishina(v, 1.0, me, x), rtol=1e-6)
    Z = v.int("N", ge=1, hi=100)
    v.equal("an atom", kn.KleinNishina(Z)(x * me), klein_nishina(v, Z, me, x), rtol=1e-6)

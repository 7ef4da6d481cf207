"""C17: Compton kinematics."""
import numpy as np


def compton(v):
    """scattering object for an arbitrary particle mass, an energy and an angle in [0, pi]"""
    kn = v.mod("ries.nonresonant.klein_nishina")
    m = v.real("m", gt=0.0, lo=0.05, hi=2000.0)
    Z = v.real("Z", gt=0.0, lo=1.0, hi=100.0)
    return kn.KleinNishina(Z, m), m


def theorem_scattered_energy(v):
    """E' = E/(1 + E/m*(1 - cos t)), for scalars and arrays of energies and angles."""
    k, m = compton(v)
    E = v.energy("E", gt=0.0, lo=1e-3, hi=100.0)
    t = v.real("t", ge=0.0, le=np.pi)
    v.equal("scattered energy", k.Ep_over_E(E, t) * E, E / (1.0 + E / m * (1.0 - np.cos(t))))


def theorem_scattered_energy_angles(v):
    k, m = compton(v)
    E = v.real("E", gt=0.0, lo=1e-3, hi=100.0)
    t = v.energy("t", ge=0.0, le=np.pi)
    v.equal("scattered energy", k.Ep_over_E(E, t) * E, E / (1.0 + E / m * (1.0 - np.cos(t))))


def theorem_range(v):
    """between the Compton edge and E; the edge is E/(1 + 2E/m) and reached at t = pi."""
    k, m = compton(v)
    E = v.real("E", gt=0.0, lo=1e-3, hi=100.0)
    t = v.real("t", ge=0.0, le=np.pi)
    Ep = k.Ep_over_E(E, t) * E
    v.equal("edge", k.compton_edge(E), E / (1.0 + 2.0 * E / m))
    v.ensure("at least the edge", v.le(k.compton_edge(E), Ep))
    v.ensure("at most E", v.le(Ep, E))
    v.equal("backward", k.Ep_over_E(E, np.pi) * E, k.compton_edge(E))
    v.equal("forward", k.Ep_over_E(E, 0.0) * E, E)


def theorem_edge_of_arrays(v):
    k, m = compton(v)
    E = v.energy("E", gt=0.0, lo=1e-3, hi=100.0)
    v.equal("edge", k.compton_edge(E), E / (1.0 + 2.0 * E / m))


def theorem_decreasing(v):
    """larger angles leave less energy."""
    k, m = compton(v)
    E = v.real("E", gt=0.0, lo=1e-3, hi=100.0)
    t = v.real("t", ge=0.0, le=np.pi)
    u = v.real("u", ge=0.0, le=np.pi)
    v.require(t < u)
    v.ensure("decreasing", v.lt(k.Ep_over_E(E, u) * E, k.Ep_over_E(E, t) * E))


def theorem_angle(v):
    """the angle recovered from the scattered energy is the angle; and the energy from the angle."""
    k, m = compton(v)
    E = v.real("E", gt=0.0, lo=1e-2, hi=100.0)
    t = v.real("t", ge=0.0, le=np.pi, lo=0.05, hi=3.1)
    Ep = k.Ep_over_E(E, t) * E
    v.equal("angle of the scattered energy", k.theta(E, Ep), t, rtol=1e-5)


def theorem_energy_of_angle(v):
    k, m = compton(v)
    E = v.real("E", gt=0.0, lo=1e-2, hi=100.0)
    s = v.real("s", ge=0.0, le=1.0, lo=0.01, hi=0.99)
    edge = E / (1.0 + 2.0 * E / m)
    Ep = edge + s * (E - edge)
    v.equal("energy of the recovered angle", k.Ep_over_E(E, k.theta(E, Ep)) * E, Ep, rtol=1e-7)
    v.ensure("the angle is in [0, pi]", v.all(v.le(0.0, k.theta(E, Ep)), v.le(k.theta(E, Ep), np.pi)))


def theorem_angles_of_arrays(v):
    k, m = compton(v)
    E = v.real("E", gt=0.0, lo=1e-2, hi=100.0)
    edge = E / (1.0 + 2.0 * E / m)
    s = v.energy("s", ge=0.0, le=1.0, lo=0.01, hi=0.99)
    Ep = edge + s * (E - edge)
    v.equal("cosine of the angle", np.cos(k.theta(E, Ep)), 1.0 - m / Ep + m / E, rtol=1e-6, atol=1e-6)


def theorem_conservation(v):
    """energy and momentum: the particle of mass m takes E - E' and the momentum E - E' (vectors)."""
    k, m = compton(v)
    E = v.real("E", gt=0.0, lo=1e-2, hi=100.0)
    t = v.real("t", ge=0.0, le=np.pi, lo=0.05, hi=3.1)
    Ep = k.Ep_over_E(E, t) * E
    px = E - Ep * np.cos(t)
    py = Ep * np.sin(t)
    total = m + E - Ep
    v.equal("mass shell of the particle", total * total, px * px + py * py + m * m, rtol=1e-7)


def theorem_default_mass(v):
    """without a mass the electron mass is used; objects with other masses do not interfere."""
    kn = v.mod("ries.nonresonant.klein_nishina")
    me = v.const("electron mass energy equivalent in MeV")
    E = v.real("E", gt=0.0, lo=1e-2, hi=100.0)
    t = v.real("t", ge=0.0, le=np.pi)
    k = kn.KleinNishina()
    q, m = compton(v)
    v.equal("electron", k.Ep_over_E(E, t), 1.0 / (1.0 + E / me * (1.0 - np.cos(t))))
    v.equal("edge", k.compton_edge(E), E / (1.0 + 2.0 * E / me))
    v.equal("other particle", q.Ep_over_E(E, t), 1.0 / (1.0 + E / m * (1.0 - np.cos(t))))

"""C06: Doppler width law and its inverse."""
from contracts.lib import target, doppler_width
import numpy as np


def theorem_law(v):
    """Doppler width = E*sqrt(2*k*T/(M*c^2)), for one energy or an array."""
    mb = v.mod("ries.resonance.maxwell_boltzmann")
    amu, T = target(v)
    E = v.energy("E", gt=0.0, lo=1e-3, hi=20.0)
    D = mb.MaxwellBoltzmann(amu, T).get_doppler_width(E)
    v.equal("law", D, doppler_width(v, E, amu, T))
    v.ensure("positive", D > 0.0)


def theorem_scaling(v):
    """proportional to E, to sqrt(T) and to 1/sqrt(M)."""
    mb = v.mod("ries.resonance.maxwell_boltzmann")
    amu, T = target(v)
    E = v.real("E", gt=0.0, lo=1e-3, hi=20.0)
    s = v.real("s", gt=0.0, lo=0.01, hi=100.0)
    D = mb.MaxwellBoltzmann(amu, T).get_doppler_width(E)
    v.equal("E", mb.MaxwellBoltzmann(amu, T).get_doppler_width(s * E), s * D)
    v.equal("T", mb.MaxwellBoltzmann(amu, s * s * T).get_doppler_width(E), s * D)
    v.equal("M", mb.MaxwellBoltzmann(s * s * amu, T).get_doppler_width(E), D / s)


def theorem_inverse(v):
    """temperature of the width of a temperature, and width of the temperature of a width."""
    mb = v.mod("ries.resonance.maxwell_boltzmann")
    amu, T = target(v)
    E = v.energy("E", gt=0.0, lo=1e-3, hi=20.0)
    D = mb.MaxwellBoltzmann(amu, T).get_doppler_width(E)
    v.equal("temperature of the width", mb.MaxwellBoltzmann.get_effective_temperature(D, amu, E), T)
    W = v.real("W", gt=0.0, lo=1e-8, hi=1.0)
    e = v.real("e", gt=0.0, lo=1e-3, hi=20.0)
    T2 = mb.MaxwellBoltzmann.get_effective_temperature(W, amu, e)
    v.equal("width of the temperature", mb.MaxwellBoltzmann(amu, T2).get_doppler_width(e), W)
    k = v.const("Boltzmann constant in eV/K") * 1e-6
    m = amu * v.const("atomic mass constant energy equivalent in MeV")
    v.equal("inverse law", 2.0 * k * T2 * e * e, W * W * m)


def theorem_objects_are_independent(v):
    """the inverse called through an object does not depend on the object's own values."""
    mb = v.mod("ries.resonance.maxwell_boltzmann")
    amu, T = target(v)
    amu2 = v.real("amu2", gt=0.0, lo=1.0, hi=300.0)
    E = v.real("E", gt=0.0, lo=1e-3, hi=20.0)
    a = mb.MaxwellBoltzmann(amu, T)
    b = mb.MaxwellBoltzmann(amu2, 300.0)
    W = v.real("W", gt=0.0, lo=1e-8, hi=1.0)
    T2 = b.get_effective_temperature(W, amu, E)
    v.equal("through an object", T2, mb.MaxwellBoltzmann.get_effective_temperature(W, amu, E))
    b.get_doppler_width(2.0 * E)
    v.equal("first object", a.get_doppler_width(E), doppler_width(v, E, amu, T))
    v.equal("second object", b.get_doppler_width(E), doppler_width(v, E, amu2, 300.0))

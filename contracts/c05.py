"""C05: line shapes of the Breit-Wigner, Doppler (Gauss) and Voigt resonances."""
from contracts.lib import levels, position, total_width, target, doppler_width, gauss_shape, breit_wigner_shape
import numpy as np


def final_of(v, final):
    return final if v.flag("with_final") else None


def theorem_breit_wigner(v):
    """(G/2pi)/((E-Er)^2+G^2/4) with the total width G."""
    initial, excited, final, d = levels(v)
    r = v.mod("ries.resonance.breit_wigner").BreitWigner(initial, excited, final_of(v, final))
    E = v.energy("E", lo=0.05, hi=20.0)
    G = total_width(v, "b")
    S = r.energy_integrated_cross_section
    v.equal("line shape", r(E), S * breit_wigner_shape(v, E, r.resonance_energy, G), rtol=position(d, G))


def theorem_gauss(v):
    """exp(-((E-Er)/D)^2)/(sqrt(pi)*D) with the Doppler width D at Er."""
    initial, excited, final, d = levels(v)
    amu, T = target(v)
    r = v.mod("ries.resonance.gauss").Gauss(initial, excited, amu, T, final_of(v, final))
    D = doppler_width(v, d, amu, T)
    t = v.energy("t", lo=-6.0, hi=6.0)
    E = r.resonance_energy + t * D
    S = r.energy_integrated_cross_section
    v.equal("line shape", r(E), S * gauss_shape(v, E, r.resonance_energy, D), rtol=1e-6)


def theorem_voigt(v):
    """convolution of exactly these two."""
    initial, excited, final, d = levels(v)
    amu, T = target(v)
    r = v.mod("ries.resonance.voigt").Voigt(initial, excited, amu, T, final_of(v, final))
    D = doppler_width(v, d, amu, T)
    G = total_width(v, "b")
    t = v.energy("t", lo=-6.0, hi=6.0)
    E = r.resonance_energy + t * D
    S = r.energy_integrated_cross_section
    v.equal("line shape", r(E), S * v.voigt(E - r.resonance_energy, D / np.sqrt(2.0), G / 2.0), rtol=1e-6)


def theorem_symmetric_and_positive(v):
    """all three are symmetric about Er and positive."""
    initial, excited, final, d = levels(v)
    amu, T = target(v)
    cls = v.choice("class", "BreitWigner", "Gauss", "Voigt")
    if cls == "BreitWigner":
        r = v.mod("ries.resonance.breit_wigner").BreitWigner(initial, excited)
        w = total_width(v, "b")
    elif cls == "Gauss":
        r = v.mod("ries.resonance.gauss").Gauss(initial, excited, amu, T)
        w = doppler_width(v, d, amu, T)
    else:
        r = v.mod("ries.resonance.voigt").Voigt(initial, excited, amu, T)
        w = doppler_width(v, d, amu, T)
    t = v.energy("t", lo=-6.0, hi=6.0)
    x = t * w
    v.equal("symmetric", r(r.resonance_energy + x), r(r.resonance_energy - x), rtol=position(d, w))
    v.equal("symmetric, relative energies", r(x, False), r(-x, False), rtol=position(d, w))
    v.ensure("positive", r(r.resonance_energy + x) > 0.0)


def theorem_two_targets(v):
    """resonances for different targets do not influence each other."""
    initial, excited, final, d = levels(v)
    amu, T = target(v)
    amu2 = v.real("amu2", gt=0.0, lo=1.0, hi=300.0)
    T2 = v.real("T2", gt=0.0, lo=1.0, hi=3000.0)
    ga = v.mod("ries.resonance.gauss")
    vo = v.mod("ries.resonance.voigt")
    r = ga.Gauss(initial, excited, amu, T)
    s = ga.Gauss(initial, excited, amu2, T2)
    p = vo.Voigt(initial, excited, amu, T)
    q = vo.Voigt(initial, excited, amu2, T2)
    D = doppler_width(v, d, amu, T)
    D2 = doppler_width(v, d, amu2, T2)
    G = total_width(v, "b")
    t = v.real("t", lo=-3.0, hi=3.0)
    E = d + t * D
    s(E)
    q(E)
    S = r.energy_integrated_cross_section
    v.equal("first Gauss", r(E), S * gauss_shape(v, E, r.resonance_energy, D), rtol=1e-6)
    v.equal("first Voigt", p(E), S * v.voigt(E - r.resonance_energy, D / np.sqrt(2.0), G / 2.0), rtol=1e-6)
    E = d + t * D2
    v.equal("second Gauss", s(E), S * gauss_shape(v, E, d, D2), rtol=1e-6)
    v.equal("second Voigt", q(E), S * v.voigt(E - d, D2 / np.sqrt(2.0), G / 2.0), rtol=1e-6)

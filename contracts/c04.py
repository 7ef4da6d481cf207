"""C04: resonance strength and cross section follow the photonuclear formula."""
from contracts.lib import position, state, ground_state, levels, target, total_width, partial_width
import numpy as np


def strength(v, Er, initial, excited, final):
    """(pi*hbar*c)^2/Er^2 * (2*J2+1)/(2*J0+1) * G20 * b"""
    hc = v.const("reduced Planck constant times c in MeV fm")
    J0 = v.int("two_J_a", ge=0, hi=12) / 2
    J2 = v.int("two_J_b", ge=0, hi=12) / 2
    G20 = partial_width(v, "b", "a")
    b = 1.0
    if final == "a":
        b = G20 / total_width(v, "b")
    if final == "c":
        b = partial_width(v, "b", "c") / total_width(v, "b")
    return (np.pi * hc) ** 2 / Er ** 2 * (2 * J2 + 1) / (2 * J0 + 1) * G20 * b


def make(v, initial, excited, final, which):
    f = {"none": None, "a": initial, "c": final}[which]
    cls = v.choice("class", "Resonance", "BreitWigner", "Gauss", "PseudoVoigt", "Voigt")
    if cls == "Resonance":
        return v.mod("ries.resonance.resonance").Resonance(initial, excited, f)
    if cls == "BreitWigner":
        return v.mod("ries.resonance.breit_wigner").BreitWigner(initial, excited, f)
    amu, T = target(v)
    if cls == "Gauss":
        return v.mod("ries.resonance.gauss").Gauss(initial, excited, amu, T, f)
    if cls == "PseudoVoigt":
        return v.mod("ries.resonance.pseudo_voigt").PseudoVoigt(initial, excited, amu, T, f)
    return v.mod("ries.resonance.voigt").Voigt(initial, excited, amu, T, f)


def theorem_strength(v):
    """energy-integrated cross section of every resonance class, with and without a final state."""
    initial, excited, final, d = levels(v)
    which = v.choice("final", "none", "a", "c")
    r = make(v, initial, excited, final, which)
    v.equal("resonance energy", r.resonance_energy, d)
    v.equal("strength", r.energy_integrated_cross_section, strength(v, d, initial, excited, which))


def theorem_strength_with_recoil(v):
    """with a recoil correction the strength is for the recoil-corrected resonance energy."""
    res = v.mod("ries.resonance.resonance")
    recoil = v.mod("ries.resonance.recoil")
    initial, excited, final, d = levels(v)
    amu = v.real("amu", gt=0.0, lo=1.0, hi=300.0)
    which = v.choice("final", "none", "a", "c")
    f = {"none": None, "a": initial, "c": final}[which]
    r = res.Resonance(initial, excited, f, recoil.FreeNucleusRecoil(amu))
    m = amu * v.const("atomic mass constant energy equivalent in MeV")
    v.equal("resonance energy", 2.0 * m * r.resonance_energy, 2.0 * m * d + d * d)
    v.equal("strength", r.energy_integrated_cross_section, strength(v, r.resonance_energy, initial, excited, which))


def theorem_cross_section(v):
    """cross section = strength * line shape, for absolute energies and energies relative to the resonance."""
    initial, excited, final, d = levels(v)
    r = make(v, initial, excited, final, "none")
    E = v.energy("E", lo=0.1, hi=20.0)
    x = v.energy("x", lo=-0.45, hi=0.45)
    rounding = position(d, total_width(v, "b"))
    dist = r.probability_distribution
    par = r.probability_distribution_parameters
    S = r.energy_integrated_cross_section
    v.equal("absolute energy", r(E), S * dist.pdf(E, *par), rtol=1e-6)
    v.equal("absolute energy, flag given", r(E, True), S * dist.pdf(E, *par), rtol=1e-6)
    v.equal("absolute energy, flag by name", r(E, input_is_absolute_energy=True), S * dist.pdf(E, *par), rtol=1e-6)
    v.equal("relative energy", r(x, False), S * dist.pdf(r.resonance_energy + x, *par), rtol=rounding)
    v.equal("relative energy, flag by name", r(x, input_is_absolute_energy=False), S * dist.pdf(r.resonance_energy + x, *par), rtol=rounding)
    v.equal("absolute energy again", r(E), S * dist.pdf(E, *par), rtol=1e-6)


def theorem_two_resonances(v):
    """resonances are independent of each other."""
    bw = v.mod("ries.resonance.breit_wigner")
    initial, excited, final, d = levels(v)
    d2 = v.real("E2", gt=0.0, lo=0.05, hi=20.0)
    other = state(v, "d", d2)
    r = bw.BreitWigner(initial, excited, final)
    S = r.energy_integrated_cross_section
    q = bw.BreitWigner(ground_state(v, "a"), other)
    E = v.real("E", lo=0.1, hi=20.0)
    q(E)
    v.equal("strength", r.energy_integrated_cross_section, strength(v, d, initial, excited, "c"))
    v.equal("cross section", r(E), S * r.probability_distribution.pdf(E, *r.probability_distribution_parameters))

"""Shared parts of the contracts."""
import numpy as np


def ground_state(v, name):
    st = v.mod("ries.constituents.state")
    return st.GroundState("J" + name, v.int("two_J_" + name, ge=0, hi=12), 1)


def total_width(v, name):
    return v.real("G_" + name, gt=0.0, lo=1e-10, hi=1.0)


def partial_width(v, name, to):
    """partial width of level `name` to level `to`: arbitrary positive parts of the arbitrary total"""
    G = total_width(v, name)
    fa = v.real("fa_" + name, gt=0.0, lt=1.0, lo=1e-4, hi=0.5)
    fb = v.real("fb_" + name, gt=0.0, lt=1.0, lo=1e-4, hi=0.49)
    v.require(fa + fb < 1.0)
    return {"a": fa * G, "b": fb * G, "c": (1.0 - fa - fb) * G}[to]


def state(v, name, energy):
    """a level with decays to levels a, b, c (a is the ground state in most contracts)"""
    st = v.mod("ries.constituents.state")
    widths = {"Ja": partial_width(v, name, "a"), "Jb": partial_width(v, name, "b"), "Jc": partial_width(v, name, "c")}
    return st.State("J" + name, v.int("two_J_" + name, ge=0, hi=12), 1, energy, widths)


def position(Er, w):
    """relative tolerance of executions: an energy near Er is known to Er times the machine precision, compared with the width w"""
    return 1e-6 + 1e-14 * Er / w


def weighted_sum(v, name, hi=5):
    """a weighted sum of any number of arbitrary cross sections with arbitrary factors"""
    cs = v.mod("ries.cross_section")
    n = v.int("n_" + name, ge=0, hi=hi)
    reactions = v.list("reactions_" + name, n, lambda i: v.cross_section("cs_" + name, i))
    factors = v.list("factors_" + name, n, lambda i: v.real("w_" + name, i, lo=-3.0, hi=3.0))
    return cs.CrossSectionWeightedSum(reactions, factors)


def doppler_width(v, E, amu, T):
    """specification: E*sqrt(2*k*T/(M*c^2))"""
    k = v.const("Boltzmann constant in eV/K") * 1e-6
    u = v.const("atomic mass constant energy equivalent in MeV")
    return E * np.sqrt(2.0 * k * T / (amu * u))


def gauss_shape(v, E, Er, D):
    """specification: normalised Gaussian of the Doppler width D"""
    return np.exp(-(((E - Er) / D) ** 2)) / (np.sqrt(np.pi) * D)


def breit_wigner_shape(v, E, Er, G):
    return G / (2.0 * np.pi) / ((E - Er) ** 2 + G * G / 4.0)


def levels(v):
    """initial level (ground state or excited), excited level b, final level c, energy difference"""
    d = v.real("d", gt=0.0, lo=0.05, hi=20.0)
    if v.flag("from_ground_state"):
        return ground_state(v, "a"), state(v, "b", d), state(v, "c", 0.5 * d), d
    E0 = v.real("E0", gt=0.0, lo=0.01, hi=10.0)
    return state(v, "a", E0), state(v, "b", E0 + d), state(v, "c", 0.5 * d), d


def target(v):
    """mass and effective temperature"""
    return v.real("amu", gt=0.0, lo=1.0, hi=300.0), v.real("T", gt=0.0, lo=1.0, hi=3000.0)

"""C11: recoil-corrected resonance energies conserve energy and momentum."""
from contracts.lib import state, ground_state, levels
from contracts.c04 import make


def theorem_free_nucleus(v):
    """(m+E)^2 - E^2 = (m+d)^2 for the returned photon energy E, rest energy m = amu * u c^2."""
    recoil = v.mod("ries.resonance.recoil")
    amu = v.real("amu", gt=0.0, lo=0.1, hi=300.0)
    d = v.real("d", lo=-30.0, hi=30.0)
    E = recoil.FreeNucleusRecoil(amu)(d)
    m = amu * v.const("atomic mass constant energy equivalent in MeV")
    v.equal("energy and momentum are conserved", 2.0 * m * E, 2.0 * m * d + d * d)
    v.ensure("E > d for d > 0", v.implies(d > 0.0, v.lt(d, E)))


def theorem_free_nucleus_array(v):
    """the same for an array of energy differences, element by element."""
    recoil = v.mod("ries.resonance.recoil")
    amu = v.real("amu", gt=0.0, lo=0.1, hi=300.0)
    n = v.int("n", ge=1, hi=6)
    d = v.array("d", n, lo=-30.0, hi=30.0)
    before = v.snapshot(d)
    E = recoil.FreeNucleusRecoil(amu)(d)
    m = amu * v.const("atomic mass constant energy equivalent in MeV")
    v.equal("energy and momentum are conserved", 2.0 * m * E, 2.0 * m * d + d * d)
    v.ensure("the argument is not changed", v.unchanged(before))


def theorem_reused(v):
    """one recoil object used repeatedly: every call is for its own argument and mass."""
    recoil = v.mod("ries.resonance.recoil")
    amu = v.real("amu", gt=0.0, lo=0.1, hi=300.0)
    amu2 = v.real("amu2", gt=0.0, lo=0.1, hi=300.0)
    d = v.real("d", lo=-30.0, hi=30.0)
    d2 = v.real("d2", lo=-30.0, hi=30.0)
    a = recoil.FreeNucleusRecoil(amu)
    b = recoil.FreeNucleusRecoil(amu2)
    a(d2)
    b(d)
    E = a(d)
    u = v.const("atomic mass constant energy equivalent in MeV")
    v.equal("first object", 2.0 * amu * u * E, 2.0 * amu * u * d + d * d)
    E = b(d2)
    v.equal("second object", 2.0 * amu2 * u * E, 2.0 * amu2 * u * d2 + d2 * d2)


def theorem_no_recoil(v):
    """without recoil the energy difference is returned unchanged."""
    recoil = v.mod("ries.resonance.recoil")
    d = v.number("d", lo=-30.0, hi=30.0)
    v.equal("NoRecoil", recoil.NoRecoil()(d), d)
    v.equal("Recoil", recoil.Recoil()(d), d)


def theorem_resonance_location(v):
    """a resonance is at the recoil-corrected difference of the excitation energies of its two states."""
    res = v.mod("ries.resonance.resonance")
    recoil = v.mod("ries.resonance.recoil")
    E0 = v.real("E0", ge=0.0, hi=10.0)
    E1 = v.real("E1", gt=0.0, hi=20.0)
    v.require(E1 > E0)
    initial = state(v, "a", E0)
    inter = state(v, "b", E1)
    kind = v.choice("recoil", "default", "none", "free", "other")
    if kind == "default":
        r = res.Resonance(initial, inter)
        v.equal("resonance energy", r.resonance_energy, E1 - E0)
    elif kind == "none":
        r = res.Resonance(initial, inter, recoil_correction=recoil.NoRecoil())
        v.equal("resonance energy", r.resonance_energy, E1 - E0)
    elif kind == "free":
        amu = v.real("amu", gt=0.0, lo=0.1, hi=300.0)
        r = res.Resonance(initial, inter, recoil_correction=recoil.FreeNucleusRecoil(amu))
        m = amu * v.const("atomic mass constant energy equivalent in MeV")
        d = E1 - E0
        v.equal("resonance energy", 2.0 * m * r.resonance_energy, 2.0 * m * d + d * d)
    else:
        f = v.fn("f", positive=True)
        v.require(f(E1 - E0) > 0.0)
        r = res.Resonance(initial, inter, recoil_correction=f)
        v.equal("resonance energy", r.resonance_energy, f(E1 - E0))
    plain = res.Resonance(initial, inter)
    v.equal("other resonances are not affected", plain.resonance_energy, E1 - E0)


def theorem_resonance_from_ground_state(v):
    """the ground state has excitation energy 0."""
    res = v.mod("ries.resonance.resonance")
    E1 = v.real("E1", gt=0.0, hi=20.0)
    r = res.Resonance(ground_state(v, "a"), state(v, "b", E1))
    v.equal("resonance energy", r.resonance_energy, E1)


def theorem_location_of_line_shapes(v):
    """every resonance class, from the ground state or an excited one, with and without a final state."""
    initial, excited, final, d = levels(v)
    r = make(v, initial, excited, final, v.choice("final", "none", "a", "c"))
    v.equal("resonance energy", r.resonance_energy, d)

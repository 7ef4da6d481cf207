"""C22: Debye effective temperature."""
import numpy as np


def debye(v, T, TD):
    return 3.0 * T * (T / TD) ** 3 * v.integral(lambda t: t ** 3 * (1.0 / (np.exp(t) - 1.0) + 0.5), 0.0, TD / T)


def theorem_scalar(v):
    dm = v.mod("ries.resonance.debye_model")
    T = v.real("T", gt=0.0, lo=5.0, hi=1000.0)
    TD = v.real("TD", gt=0.0, lo=20.0, hi=2000.0)
    v.equal("formula", dm.effective_temperature_debye_approximation(T, TD), debye(v, T, TD), rtol=1e-6)


def theorem_array_of_temperatures(v):
    dm = v.mod("ries.resonance.debye_model")
    n = v.int("n", ge=1, hi=4)
    T = v.array("T", n, gt=0.0, lo=5.0, hi=1000.0)
    TD = v.real("TD", gt=0.0, lo=20.0, hi=2000.0)
    g = v.snapshot(T)
    r = dm.effective_temperature_debye_approximation(T, TD)
    v.equal("element by element", r, v.array_of(n, lambda i: debye(v, T[i], TD)), rtol=1e-6)
    v.ensure("the argument is not changed", v.unchanged(g))


def theorem_array_of_debye_temperatures(v):
    dm = v.mod("ries.resonance.debye_model")
    n = v.int("n", ge=1, hi=4)
    T = v.real("T", gt=0.0, lo=5.0, hi=1000.0)
    TD = v.array("TD", n, gt=0.0, lo=20.0, hi=2000.0)
    r = dm.effective_temperature_debye_approximation(T, TD)
    v.equal("element by element", r, v.array_of(n, lambda i: debye(v, T, TD[i])), rtol=1e-6)


def theorem_two_arrays(v):
    dm = v.mod("ries.resonance.debye_model")
    n = v.int("n", ge=1, hi=4)
    T = v.array("T", n, gt=0.0, lo=5.0, hi=1000.0)
    TD = v.array("TD", n, gt=0.0, lo=20.0, hi=2000.0)
    r = dm.effective_temperature_debye_approximation(T, TD)
    v.equal("element by element", r, v.array_of(n, lambda i: debye(v, T[i], TD[i])), rtol=1e-6)


def theorem_bounds(v):
    """never smaller than T or 3/8*TD: 1/(exp(t)-1) + 1/2 is larger than 1/t and than 1/2 for t > 0."""
    dm = v.mod("ries.resonance.debye_model")
    T = v.real("T", gt=0.0, lo=5.0, hi=1000.0)
    TD = v.real("TD", gt=0.0, lo=20.0, hi=2000.0)
    r = dm.effective_temperature_debye_approximation(T, TD)
    v.ensure("at least 3/8 TD", v.le(3.0 / 8.0 * TD, r))
    exceeds = lambda t: v.nonneg_from("(t-2)*exp(t) + t + 2", lambda s: (s - 2.0) * np.exp(s) + s + 2.0, 0.0, t, 2)
    v.integral_order("1/t", lambda t: t * t, lambda t: t ** 3 * (1.0 / (np.exp(t) - 1.0) + 0.5), 0.0, TD / T, exceeds)
    v.ensure("at least T", v.le(T, r))

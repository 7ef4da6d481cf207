"""Concrete side of the contract language: the same theorems executed by CPython on the real package.

Used to replay counterexamples of failed obligations, as a bounded stand-in where the verifier does
not reach, and to check that the assumptions of every theorem are satisfiable.

usage: python vspec/concrete.py JOB.json OUT.json
"""
import ast
import atexit
import copy
import glob
import importlib
import json
import math
import os
import random
import re
import shutil
import string
import sys
import tempfile
import time
import traceback
import types
import warnings

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

import numpy as np

REPO = os.environ.get("VERIF_REPO", "/repo")


class Reject(Exception):
    """the sampled input does not satisfy the precondition"""


class HarnessError(Exception):
    pass


class Obs:
    def __init__(self, value, raised, warned, messages, root_failed=False):
        self.value, self.raised, self.warned, self.messages = value, raised, warned, messages
        self.root_failed = root_failed


class RootFinder:
    """scipy.optimize.newton, watched, and made to fail in one of the ways scipy's own does

    One number: RuntimeError, or with disp=False a result that is not converged.  An array: RuntimeError,
    or some entries not converged (and wrong) with a RuntimeWarning."""

    def __init__(self, fault):
        import scipy.optimize
        self.fault, self.failed = fault, False
        self.newton = scipy.optimize.newton

    def __call__(self, func, x0, *args, **kw):
        full = kw.get("full_output", False)
        disp = kw.get("disp", True)
        if self.fault == "raise" and (np.ndim(x0) or disp):
            self.failed = True
            raise RuntimeError("Failed to converge after 50 iterations, value is %r." % (x0,))
        try:
            r = self.newton(func, x0, *args, **dict(kw, full_output=True))
        except RuntimeError:
            self.failed = True
            raise
        if np.ndim(x0) == 0:
            if self.fault in ("raise", "some"):
                self.failed = True
                if disp:
                    raise RuntimeError("Failed to converge after 50 iterations, value is %r." % (r[0],))
                r[1].converged = False
                r = (self._wrong(r[0]), r[1])
            elif not r[1].converged:
                self.failed = True
            return r if full else r[0]
        if self.fault == "some" and np.size(r[0]) > 1:
            k = np.size(r[0]) // 2
            root, conv = np.array(r[0]), np.array(r[1])
            root[k], conv[k] = self._wrong(root[k]), False
            r = type(r)(root, conv, r[2])
            warnings.warn("some failed to converge after 50 iterations", RuntimeWarning)
        if not np.all(r[1]):
            self.failed = True
        return r if full else r[0]

    def _wrong(self, x):
        return x + 1.0 + 0.3 * abs(x)

    def __enter__(self):
        import scipy.optimize
        self.places = [(m, n) for k, m in list(sys.modules.items()) if m is scipy.optimize or k == "ries" or k.startswith("ries.")
                       for n, x in list(vars(m).items()) if x is self.newton]
        for m, n in self.places:
            setattr(m, n, self)
        return self

    def __exit__(self, *exc):
        for m, n in self.places:
            setattr(m, n, self.newton)


def mine_constants():
    nums, strs = set(), set()
    for p in glob.glob(os.path.join(REPO, "ries", "**", "*.py"), recursive=True):
        try:
            tree = ast.parse(open(p).read())
        except (SyntaxError, OSError):
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant):
                if isinstance(n.value, (int, float)) and not isinstance(n.value, bool) and abs(n.value) < 1e6:
                    nums.add(float(n.value))
                elif isinstance(n.value, str) and 0 < len(n.value) <= 12:
                    strs.add(n.value)
    # constants that only occur in comparisons or arithmetic are few: keep the list small and sorted
    return sorted(nums), sorted(strs)


MINED, MINED_STR = mine_constants()


SCRATCH = []


def scratch():
    """directory for generated files, removed when the run ends"""
    if not SCRATCH:
        SCRATCH.append(tempfile.mkdtemp(prefix="verif-scratch-"))
        atexit.register(shutil.rmtree, SCRATCH[0], ignore_errors=True)
    return SCRATCH[0]


class Integral(float):
    """value of an integral that remembers the error estimate of the integration routine"""

    def __new__(cls, value, error):
        x = float.__new__(cls, value)
        x.error = error
        return x


class ConcV:
    def __init__(self, tag, pins, jitter=0):
        self.tag, self.pins = tag, pins or {}
        self.jit = random.Random("%s/jitter/%d" % (tag, jitter)) if jitter else None
        self.rng = random.Random(tag)
        self.compared = {}
        self.failures = []
        self.inputs = {}
        self.drawn = []
        self.functions = {}
        self.checked = 0

    # ------------------------------------------------------------------ inputs
    def _key(self, name, i):
        if i is None:
            return name
        if isinstance(i, tuple):
            return "|".join([name] + [str(x) for x in i])
        return "%s|%s" % (name, i)

    def _pin(self, key):
        return self.pins.get(key)

    def _rng(self, key):
        """every input has its own stream: replays do not depend on the order of requests"""
        self.rng = random.Random("%s/%s" % (self.tag, key))
        return self.rng

    def _shake(self, x, gt, ge, lt, le):
        if self.jit is None or x == 0.0:
            return x
        y = x * (1.0 + self.jit.choice([-1, 1]) * self.jit.uniform(1.0, 3000.0) * 2.2e-16)
        return y if self._ok(y, gt, ge, lt, le) else x

    def _limits(self, gt, ge, lt, le, lo, hi):
        a, b = -math.inf, math.inf
        for x in (gt, ge):
            if x is not None:
                a = max(a, float(x))
        for x in (lt, le):
            if x is not None:
                b = min(b, float(x))
        sa = a if lo is None else max(a, float(lo))
        sb = b if hi is None else min(b, float(hi))
        if sa == -math.inf:
            sa = max(a, min(-100.0, sb - 100.0) if sb != math.inf else -100.0)
        if sb == math.inf:
            sb = sa + 200.0 if sa > -100.0 else 100.0
        return a, b, sa, sb

    def _ok(self, x, gt, ge, lt, le):
        return (gt is None or x > gt) and (ge is None or x >= ge) and (lt is None or x < lt) and (le is None or x <= le)

    def _draw(self, gt, ge, lt, le, lo, hi, special=True):
        r = self.rng
        a, b, sa, sb = self._limits(gt, ge, lt, le, lo, hi)
        for _ in range(40):
            u = r.random()
            if special and u < 0.12:
                x = r.choice([0.0, 1.0, -1.0, 2.0, 0.5, sa, sb, 0.25, 3.0, 10.0, -2.0, 1e-3, 0.1, 100.0])
            elif special and u < 0.22 and MINED:
                x = r.choice(MINED) * r.choice([1.0, 1.0, 1.0 + 1e-6, 1.0 - 1e-6, 2.0, 0.5, -1.0])
            elif special and u < 0.30 and self.drawn:
                x = r.choice(self.drawn) * r.choice([1.0, 1.0, 1.0 + 1e-6, 1.0 - 1e-6, -1.0, 2.0])
            elif sa > 0 and u < 0.65:
                x = math.exp(r.uniform(math.log(sa), math.log(sb)))
            elif sa >= 0 and u < 0.5:
                x = sa + (sb - sa) * 10.0 ** r.uniform(-6, 0)
            elif special and u < 0.72:
                x = float(round(r.uniform(sa, sb)))
            else:
                x = r.uniform(sa, sb)
            if sa <= x <= sb and self._ok(x, gt, ge, lt, le):
                return x
        x = sa + (sb - sa) * r.uniform(0.01, 0.99)
        return x

    def real(self, name, i=None, gt=None, ge=None, lt=None, le=None, lo=None, hi=None):
        k = self._key(name, i)
        if k in self.inputs:
            return self.inputs[k]
        p = self._pin(k)
        self._rng(k)
        if p is not None:
            x = float(p)
            a, b, sa, sb = self._limits(gt, ge, lt, le, lo, hi)
            if not self._ok(x, gt, ge, lt, le) or (lo is not None and x < sa) or (hi is not None and x > sb):
                # a solver value outside of the float-friendly sampling range
                x = min(max(x, sa), sb)
                if not self._ok(x, gt, ge, lt, le):
                    x = self._draw(gt, ge, lt, le, lo, hi)
        else:
            x = self._draw(gt, ge, lt, le, lo, hi)
        self.drawn.append(x)
        if float(x).is_integer() and abs(x) < 1e6 and random.Random("%s/int/%s" % (self.tag, k)).random() < 0.3:
            x = int(x)  # callers also give integers
        else:
            x = self._shake(x, gt, ge, lt, le)
        self.inputs[k] = x
        return x

    def near(self, name, center, scale):
        k = self._key(name, None)
        if k in self.inputs:
            return self.inputs[k]
        p = self._pin(k)
        self._rng(k)
        x = float(p) if p is not None else float(center + self.real(name + "_t", lo=-8.0, hi=8.0) * scale)
        self.inputs[k] = x
        return x

    def int(self, name, i=None, gt=None, ge=None, lt=None, le=None, lo=None, hi=None):
        k = self._key(name, i)
        if k in self.inputs:
            return self.inputs[k]
        p = self._pin(k)
        a = max([x for x in (ge, lo, gt + 1 if gt is not None else None) if x is not None], default=-20)
        b = min([x for x in (le, hi, lt - 1 if lt is not None else None) if x is not None], default=max(a, 0) + 20)
        if p is not None and a <= p <= b:
            x = int(p)
        else:
            r = self._rng(k)
            u = r.random()
            if u > 0.97 and hi is not None and hi <= 8 and ge in (0, 1, 2) and le is None and lt is None:
                b = 4 * b  # now and then a size above the usual ones
            x = r.randint(int(a), int(min(b, a + 4))) if u < 0.5 else r.randint(int(a), int(b))
        self.inputs[k] = x
        return x

    def number(self, name, i=None, **b):
        if self._choice("number:" + name, 2) == 0:
            return self.real(name + "_f", i, **b)
        return self.int(name + "_i", i, **{k: (math.floor(x) if k in ("hi", "le") else math.ceil(x)) for k, x in b.items()})

    def _choice(self, name, n):
        if "choice:" + name in self.inputs:
            return self.inputs["choice:" + name]
        p = self.pins.get("choice:" + name)
        c = p if p is not None and p < n else self._rng("choice:" + name).randrange(n)
        self.inputs["choice:" + name] = c
        return c

    def flag(self, name):
        return self._choice(name, 2) == 0

    def choice(self, name, *options):
        return options[self._choice(name, len(options))]

    def array(self, name, n, increasing=False, i=None, step=None, gt=None, ge=None, lt=None, le=None, lo=None, hi=None):
        pre = () if i is None else (i if isinstance(i, tuple) else (i,))
        xs = []
        for k in range(n):
            p = self._pin(self._key(name, pre + (k,)))
            self._rng(self._key(name, pre + (k,)))
            xs.append(self._draw(gt, ge, lt, le, lo, hi) if p is None or not self._ok(p, gt, ge, lt, le) else float(p))
        whole = n > 0 and random.Random("%s/int/%s" % (self.tag, self._key(name, i))).random() < 0.08
        if whole:
            whole = [float(round(x)) for x in xs]
            if all(self._ok(x, gt, ge, lt, le) and (lo is None or x >= lo) and (hi is None or x <= hi) for x in whole) and not (increasing and len(set(whole)) < n):
                xs = whole
            else:
                whole = False
        if increasing:
            xs.sort()
            for k in range(1, n):
                if not xs[k] - xs[k - 1] > 1e-9 * (1.0 + abs(xs[k])):
                    xs[k] = xs[k - 1] + 1e-3 * (1.0 + abs(xs[k - 1]))
                    if not self._ok(xs[k], gt, ge, lt, le):
                        raise Reject()
        for k, x in enumerate(xs):
            self.inputs[self._key(name, pre + (k,))] = x
        self.drawn.extend(xs)
        if whole:
            return np.array(xs, dtype=int)
        if self.jit is not None:
            ys = [self._shake(x, gt, ge, lt, le) for x in xs]
            if not increasing or all(a < b for a, b in zip(ys, ys[1:])):
                xs = ys
        return np.array(xs, dtype=float)

    def energy(self, name="E", **b):
        if self._choice("energy:" + name, 2) == 0:
            return self.real(name, **b)
        return self.array(name + "s", self.int("len_" + name, ge=1, le=5), **b)

    def _function(self, name, i, positive, lo=None, hi=None):
        k = self._key("fn:" + name, i)
        if k in self.functions:
            return self.functions[k]
        self._rng(k)
        c = [round(self.rng.uniform(-2, 2), 3) for _ in range(4)]
        if self.rng.random() < 0.15:
            c = [0.0, 0.0, 0.0, round(self.rng.uniform(-2, 2), 3)]
        self.inputs[k] = c

        def f(*xs):
            s = c[3]
            for j, x in enumerate(xs):
                s = s + (c[0] + 0.3 * j) * np.sin((c[1] + 0.1 * j) * x + c[2] + 0.7 * j)
            if positive:
                s = np.exp(s)
            if lo is not None:
                s = lo + (hi - lo) / (1.0 + np.exp(-s))
            return s
        self.functions[k] = f
        return f

    def fn(self, name, i=None, positive=False):
        return self._function(name, i, positive)

    def key(self, fam, i):
        return "%s%s" % (fam, i)

    # ------------------------------------------------------------------ text
    def digits(self, x):
        return "%d" % x

    def decimal(self, x):
        x = float(x)
        for t in ("%g", "%.5E", "%.3f", "%.10f", "%.12e"):
            if float(t % x) == x:
                return t % x
        return repr(x)

    def symbol(self, fam, i):
        r = random.Random("%s/symbols/%s" % (self.tag, fam))
        names = [a + b for a in r.sample(string.ascii_uppercase, 26) for b in [""] + r.sample(string.ascii_lowercase, 26)]
        return names[i % len(names)]

    def word(self, fam, i, width):
        r = random.Random("%s/word/%s/%s" % (self.tag, fam, i))
        return r.choice(string.ascii_uppercase) + "".join(r.choice(string.ascii_letters + string.digits) for _ in range(r.randrange(width)))

    def free(self, fam, i, chars):
        r = random.Random("%s/free/%s/%s" % (self.tag, fam, i))
        return "".join(r.choice(chars) for _ in range(r.choice([0, 1, 2, 5, 12])))

    def padded(self, text, n):
        return text.ljust(n)

    def text(self, *parts):
        return "".join(parts)

    def line_if(self, c, a, b):
        return a if c else b

    def lines(self, n, fn):
        return [fn(i) for i in range(n)]

    def text_file(self, *parts):
        def flat(p):
            return p if isinstance(p, str) else "".join(flat(x) for x in p)
        path = os.path.join(scratch(), "%d.txt" % len(os.listdir(scratch())))
        with open(path, "w") as f:
            f.write(flat(parts))
        return path

    # ------------------------------------------------------------------ shipped data, read independently
    def nist_records(self):
        """records of the shipped isotope table"""
        with open(os.path.join(REPO, "ries/constituents/nist_elements/elements.txt")) as f:
            blocks = re.split(r"\n\s*\n", f.read())
        out = []
        for b in blocks:
            d = dict(re.findall(r"^([A-Z][A-Za-z ]+?) = ?(.*)$", b, re.M))
            if "Atomic Number" in d:
                num = lambda t: float(re.match(r"[0-9.]*", t).group(0) or 0.0)
                out.append({"Z": int(d["Atomic Number"]), "X": d["Atomic Symbol"].strip(), "A": int(d["Mass Number"]),
                            "amu": num(d["Relative Atomic Mass"]), "share": num(d["Isotopic Composition"])})
        return out

    def density_records(self):
        with open(os.path.join(REPO, "ries/constituents/geant4_densities/element_densities.txt")) as f:
            rows = [line.split() for line in f if not line.startswith("#")]
        return {r[0]: float(r[1]) for r in rows if len(r) == 2}

    def module_turn(self, name, z):
        return self.mod(name)

    def element_tables(self, z):
        el = self.mod("ries.constituents.element")
        return el.X[z], el.natural_elements[el.X[z]].amu

    def reader_tables(self, z):
        own = [r for r in self.nist_records() if r["Z"] == z]
        s = own[0]["X"]
        return (s, len(own), lambda i: "%d%s" % (own[i]["A"], own[i]["X"]), np.array([r["amu"] for r in own]),
                np.array([r["share"] for r in own]), self.density_records().get(s))

    def numbered_files(self, folder, ending, fn):
        pass

    def attenuation(self, z):
        r = np.array(self.attenuation_records(z))
        return len(r), r[:, 0], r[:, 1], r[:, 2]

    def attenuation_records(self, Z):
        with open(os.path.join(REPO, "ries/nonresonant/nist_xrmac/%02d.txt" % Z)) as f:
            return [[float(t) for t in line.split()[-3:]] for line in f if line.strip()]

    def list(self, name, n, fn):
        return [fn(i) for i in range(n)]

    def dict(self, name, n, keyfn, valfn):
        return {keyfn(i): valfn(i) for i in range(n)}

    def shuffled_dict(self, name, n, fam, valfn):
        idx = list(range(n))
        vals = {i: valfn(i) for i in idx}
        self._rng("shuffle:" + name).shuffle(idx)
        return {self.key(fam, i): vals[i] for i in idx}

    def merge(self, *ds):
        out = {}
        for d in ds:
            out.update(d)
        return out

    def concat(self, *ls):
        return [x for l in ls for x in l]

    def cross_section(self, name, i=None):
        cls = self.mod("ries.cross_section").CrossSection
        f = self._constant(name, i) if self._is_constant(name, i) else self._function(name, i, False)
        self._rng(self._key("salt:" + name, i))
        salt = self.rng.uniform(0.5, 2.0)
        coarse = self.rng.random() < 0.5
        if self._is_constant(name, i):
            return self.mod("ries.cross_section").ConstantCrossSection(f)

        class Arbitrary(cls):
            def __init__(self):
                pass

            def __call__(self, E):
                return f(E)

            def equidistant_probability_grid(self, limits, n_points):
                u = np.linspace(0.0, 1.0, n_points)
                g = limits[0] + (limits[1] - limits[0]) * u ** salt
                if coarse:
                    g = np.round(g, 1)      # values shared between constituents
                return g

            def __repr__(self):
                return "cs:%s%s" % (name, "" if i is None else i)
        return Arbitrary()

    def _is_constant(self, name, i):
        """an arbitrary cross section may also be a constant one"""
        self._rng(self._key("kind:" + name, i))
        return self.rng.random() < 0.15

    def _constant(self, name, i):
        self._rng(self._key("constant:" + name, i))
        return self.rng.choice([0.0, 1.0, round(self.rng.uniform(-3.0, 3.0), 2)])

    def cross_section_value(self, name, i, E):
        if self._is_constant(name, i):
            return self._constant(name, i)
        return self._function(name, i, False)(E)

    def fixed_result(self, kept):
        """a cross section that returns the same array object every time"""
        cls = self.mod("ries.cross_section").CrossSection

        class Keeps(cls):
            def __init__(self):
                pass

            def __call__(self, E):
                return kept

            def equidistant_probability_grid(self, limits, n_points):
                return kept
        return Keeps()

    def table(self, name, n):
        """attenuation table: increasing positive energies, positive coefficients"""
        return np.column_stack([self.array(name + "_e", n, increasing=True, gt=0.0, lo=0.01, hi=20.0),
                                self.array(name + "_c", n, gt=0.0, lo=1e-3, hi=1e3), self.array(name + "_d", n, gt=0.0, lo=1e-3, hi=1e3)])

    def record(self, **attrs):
        return types.SimpleNamespace(**attrs)

    def mod(self, name):
        return importlib.import_module(name)

    def const(self, name):
        from scipy.constants import physical_constants
        return physical_constants[name][0]

    # ------------------------------------------------------------------ specification vocabulary
    def bt(self, c):
        if isinstance(c, np.ndarray):
            return bool(np.all(c))
        return bool(c)

    def require(self, c):
        if not self.bt(c):
            raise Reject()

    def _fail(self, label, detail, measured=False):
        if not measured:
            self.compared[label] = math.inf
        self.failures.append("%s: %s" % (label, detail))

    def ensure(self, label, c):
        self.checked += 1
        ok = self.bt(c)
        self.compared.setdefault(label, 0.0 if ok else math.inf)
        if not ok:
            self.compared[label] = math.inf
            self._fail(label, "does not hold")

    def induct(self, label, n, fn):
        pass

    def lemma(self, label, c):
        """a step of the proof, no statement of its own"""

    def voigt(self, x, sigma, gamma):
        from scipy.special import wofz
        return np.real(wofz((x + 1j * gamma) / (sigma * math.sqrt(2.0)))) / (sigma * math.sqrt(2.0 * math.pi))

    def all(self, *cs):
        return all(self.bt(c) for c in cs)

    def any(self, *cs):
        return any(self.bt(c) for c in cs)

    def implies(self, a, b):
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            return np.logical_or(np.logical_not(a), b)
        return (not a) or self.bt(b)

    def iff(self, a, b):
        return self.bt(a) == self.bt(b)

    def not_(self, a):
        return not self.bt(a)

    def le(self, a, b, tol=1e-9):
        """a <= b up to rounding"""
        a, b = np.asarray(a, float), np.asarray(b, float)
        with np.errstate(all="ignore"):
            return np.all((a <= b) | (a - b <= tol * np.maximum(np.abs(a), np.abs(b))))

    def lt(self, a, b, tol=1e-9):
        """a < b up to rounding"""
        return self.le(a, b, tol)

    def forall(self, n, fn):
        return all(self.bt(fn(i)) for i in range(n))

    def sum(self, n, fn):
        return math.fsum(fn(i) for i in range(n))

    def sum_over(self, lst, fn):
        return math.fsum(fn(x) for x in lst)

    def integral(self, fn, a, b):
        from scipy.integrate import quad
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return quad(fn, a, b, epsabs=0.0, epsrel=1e-10, limit=200)[0]

    def integrals(self, fn, *ranges):
        from scipy.integrate import nquad
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            value, error = nquad(fn, [list(r) for r in ranges])[:2]
            return Integral(value, error)

    def quad_error(self, value):
        return value.error

    def len(self, x):
        return len(x)

    def map(self, x, fn):
        return np.array([fn(e) for e in x]) if isinstance(x, np.ndarray) else fn(x)

    def where(self, c, a, b):
        return a if self.bt(c) else b

    def array_of(self, n, fn):
        return np.array([fn(i) for i in range(n)])

    def is_array(self, x):
        return isinstance(x, np.ndarray) and x.ndim > 0

    def is_number(self, x):
        return isinstance(x, (int, float, np.floating, np.integer)) and not isinstance(x, bool)

    def equal(self, label, a, b, rtol=1e-9, atol=0.0):
        self.checked += 1
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            if a != b:
                self._fail(label, "%r != %r" % (a, b))
            return
        try:
            x, y = np.asarray(a, float), np.asarray(b, float)
        except (TypeError, ValueError):
            self._fail(label, "%r is not comparable with %r" % (a, b))
            return
        if x.shape != y.shape and not (x.shape == () or y.shape == ()):
            self._fail(label, "shape %s, expected %s" % (x.shape, y.shape))
            return
        with np.errstate(all="ignore"):
            big = np.maximum(np.abs(x), np.abs(y))
            d = np.abs(x - y)
            excess = (x - y) / np.where(atol + rtol * big > 0, atol + rtol * big, 1e-300)
            good = (d <= atol + rtol * big) | (x == y) | (np.isnan(x) & np.isnan(y))
        flat = np.where(good, 0.0, excess).ravel()
        worst = flat[np.argmax(np.abs(flat))] if flat.size else 0.0
        if np.isnan(worst):
            worst = math.inf
        # signed excess over the tolerance of the worst element
        if abs(worst) >= abs(self.compared.get(label, 0.0)):
            self.compared[label] = float(worst)
        if not np.all(good):
            self._fail(label, "got %s, expected %s" % (short(a), short(b)), True)

    def same_shape(self, a, b):
        return np.shape(a) == np.shape(b)

    def root_finder_faults(self):
        self.fault = self.choice("root finder", "as it is", "raise", "some")

    def observe(self, fn, *args):
        with RootFinder(getattr(self, "fault", None)) as finder, warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            raised, value = None, None
            try:
                value = fn(*args)
            except Reject:
                raise
            except Exception as e:
                raised = type(e).__name__
        user = [x for x in w if not issubclass(x.category, (RuntimeWarning, DeprecationWarning))]
        return Obs(value, raised, len(user) > 0, [str(x.message) for x in user], finder.failed)

    def numbers_in(self, message):
        return [float(x) for x in re.findall(r"(?<![A-Za-z_])[-+]?\d+(?:\.\d*)?(?:[eE][-+]?\d+)?", message)]

    def finite(self, x):
        return bool(np.isfinite(x))

    def isinf(self, x):
        return bool(np.isinf(x))

    def increasing(self, a):
        return bool(np.all(np.diff(np.asarray(a, float)) > 0))

    def nondecreasing(self, a):
        a = np.asarray(a, float)
        return bool(np.all(np.diff(a) >= -1e-12 * (1e-300 + np.max(np.abs(a)))))

    def derivative(self, fn, x):
        h = 1e-4
        d = lambda h: (fn(x + h) - fn(x - h)) / (2 * h)
        return (4 * d(h / 2) - d(h)) / 3

    def nonneg_from(self, label, fn, a, t, order):
        pass

    def integral_order(self, label, g, f, a, b, lemma=None):
        pass

    def pi(self):
        return math.pi

    def is_unique_union(self, grid, parts):
        parts = [np.asarray(p, float) for p in parts]
        want = np.unique(np.concatenate(parts)) if parts else np.array([])
        g = np.asarray(grid, float)
        return g.shape == want.shape and bool(np.all(g == want))

    def snapshot(self, obj):
        return (obj, freeze(obj, {}), ids(obj))

    def unchanged(self, snap):
        obj, old, _ = snap
        return same_frozen(freeze(obj, {}), old)

    def shares(self, a, b):
        return bool(containers(a) & containers(b))

    def note(self, *a, **k):
        return None


setattr(ConcV, "not", ConcV.not_)


def short(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + "..."


def containers(o):
    out = set()
    for v in vars(o).values() if hasattr(o, "__dict__") else ():
        if isinstance(v, (list, dict, np.ndarray)):
            out.add(id(v))
    return out


def ids(o):
    return id(o)


def freeze(o, seen):
    """structural value of everything reachable (callables and modules by identity)"""
    if id(o) in seen:
        return ("ref", seen[id(o)])
    if isinstance(o, (int, float, str, bool, type(None), np.floating, np.integer)):
        return o
    if isinstance(o, np.ndarray):
        return ("arr", o.shape, o.tolist())
    seen[id(o)] = len(seen)
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, id(o) if isinstance(o, list) else 0, tuple(freeze(x, seen) for x in o))
    if isinstance(o, dict):
        return ("dict", id(o), tuple((k, freeze(x, seen)) for k, x in o.items()))
    if isinstance(o, (types.FunctionType, types.MethodType, types.BuiltinFunctionType, type, types.ModuleType)):
        return ("id", id(o))
    if hasattr(o, "__dict__") and type(o).__module__.split(".")[0] in ("ries", "__main__", "vspec", "types", "contracts"):
        return ("obj", id(o), tuple(sorted((k, freeze(x, seen)) for k, x in vars(o).items())) if True else ())
    return ("id", id(o))


def same_frozen(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same_frozen(x, y) for x, y in zip(a, b))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same_frozen(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def run_one(fn, name, seed, pins, trial, jitter=0):
    """-> (status, failures, inputs, checked, compared)"""
    tag = "%s/%s/%s" % (seed, name, trial)
    np.random.seed(random.Random(tag).randrange(2 ** 31))
    v = ConcV(tag, pins, jitter)
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            fn(v)
    except Reject:
        return "reject", [], v.inputs, v.checked, {}
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = any(os.path.abspath(f.filename).startswith(os.path.abspath(REPO) + os.sep) for f in tb)
        last = "%s:%s" % (os.path.basename(tb[-1].filename), tb[-1].lineno)
        label = "no exception is raised" if inrepo else "the result can be used as specified"
        v.compared[label] = math.inf
        v._fail(label, "%s: %s at %s" % (type(e).__name__, e, last))
    return ("fail" if v.failures else "pass"), v.failures, v.inputs, v.checked, v.compared


def confirm(fn, name, seed, pins, trial, first):
    """does the failure repeat, and is it more than rounding?

    The trial is repeated with inputs changed in their last digits.  A deviation that keeps its size
    (or one that exists only exactly at the special input) is real; one that changes at random with
    the last digits of the input is rounding noise."""
    again = run_one(fn, name, seed, pins, trial)
    if again[0] != "fail":
        return False
    bad = {k: e for k, e in first.items() if e}
    runs = [run_one(fn, name, seed, pins, trial, jitter=k + 1)[4] for k in range(12)]
    for label, e in bad.items():
        es = [r[label] for r in runs if label in r]
        if not es:
            return True
        if math.isinf(e):
            hits = sum(1 for x in es if x)
            if hits == len(es) or hits == 0:
                return True
            continue
        if all(x == 0.0 for x in es):
            # within tolerance everywhere else: real only if far outside here
            if abs(e) > 50.0:
                return True
            continue
        es = [min(max(x, -1e12), 1e12) for x in es + [e] if not math.isnan(x)]
        if not es:
            return True
        mean = sum(es) / len(es)
        spread = math.sqrt(sum((x - mean) ** 2 for x in es) / len(es))
        if abs(mean) > 3.0 * spread:
            return True
    return False


def main(jobfile, outfile):
    job = json.load(open(jobfile))
    prop, seed = job["property"], job["seed"]
    out = {"theorems": {}, "error": None}
    try:
        mod = importlib.import_module("contracts." + prop.lower())
    except Exception as e:
        out["error"] = "cannot import the contracts: %s" % traceback.format_exc()[-1500:]
        json.dump(out, open(outfile, "w"))
        return
    t0 = time.time()
    names = job["theorems"]
    for idx, name in enumerate(names):
        fn = getattr(mod, name)
        rec = {"trials": 0, "passed": 0, "rejected": 0, "checked": 0, "failures": [], "distinct": 0}
        seen = set()
        samples = []
        tries = [(p, "pin%d" % j) for p in job.get("pins", {}).get(name, []) for j in range(job.get("pin_trials", 6))]
        tries += [(None, "r%d" % j) for j in range(job["trials"])]
        share = job["budget"] / max(1, len(names))
        t1 = time.time()
        minimum = job.get("min_trials", 5)
        for pins, trial in tries:
            if time.time() - t1 > share and rec["trials"] >= minimum:
                break
            st, fails, inputs, checked, comp = run_one(fn, name, seed, pins, trial)
            rec["trials"] += 1
            rec["checked"] += checked
            if st == "reject":
                rec["rejected"] += 1
                continue
            key = json.dumps(inputs, sort_keys=True, default=str)
            if key not in seen:
                seen.add(key)
                if len(samples) < 3:
                    samples.append({k: inputs[k] for k in list(inputs)[:12]})
            if st == "pass":
                rec["passed"] += 1
                if name.startswith("bounded_") and not inputs:
                    rec["exhaustive"] = True
                    break
                continue
            rec["suspicious"] = rec.get("suspicious", 0) + 1
            if confirm(fn, name, seed, pins, trial, comp):
                rec["failures"].append({"trial": trial, "pins": pins, "inputs": inputs, "failures": fails[:400]})
                if len(rec["failures"]) >= 3:
                    break
            if name.startswith("bounded_") and not inputs:
                # nothing is sampled: one run covers all cases
                rec["exhaustive"] = True
                break
        rec["distinct"] = len(seen)
        rec["samples"] = samples
        rec["wall"] = round(time.time() - t1, 3)
        out["theorems"][name] = rec
    out["wall"] = round(time.time() - t0, 3)
    json.dump(out, open(outfile, "w"), default=str)


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        # replay file: re-run the recorded theorem with the recorded seed and values
        r = json.load(open(sys.argv[2]))
        mod = importlib.import_module("contracts." + r["property"].lower())
        st, fails, inputs, _, _ = run_one(getattr(mod, r["theorem"]), r["theorem"], r["seed"], r["pins"], r["trial"])
        print(st)
        print(json.dumps(inputs, indent=1, default=str))
        for f in fails:
            print("FAILED", f)
        sys.exit(1 if st == "fail" else 0)
    main(sys.argv[1], sys.argv[2])

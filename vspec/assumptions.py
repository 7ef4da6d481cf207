"""What the verifier assumes about names outside ries, in words (written into the evidence)."""

TEXT = {
    "numpy.sqrt": "sqrt(u) is the nonnegative root of u >= 0 (asked to be defined)",
    "numpy.log": "log is increasing, log 1 = 0, log u <= u - 1, log turns products and powers into sums and multiples, 0.693147 < log 2 < 0.693148",
    "numpy.log10": "log10(u) = log(u) / log(10)",
    "numpy.exp": "exp is positive and increasing, exp u >= u + 1, exp(u + w) = exp u exp w",
    "numpy.cos": "cos^2 + sin^2 = 1, cos decreases on [0, pi] from 1 to -1, usual parity and derivative",
    "numpy.sin": "cos^2 + sin^2 = 1, sin >= 0 on [0, pi], usual parity and derivative",
    "numpy.arccos": "arccos is the inverse of cos on [0, pi], defined on [-1, 1]",
    "numpy.array": "array of the given numbers, a copy of its argument",
    "numpy.isinf": "true exactly at an infinite value",
    "numpy.linspace": "linspace(a, b, n) has n points a + i (b - a) / (n - 1)",
    "numpy.ones": "array of n ones", "numpy.zeros": "array of zeros of that shape",
    "numpy.sum": "sum over the entries (or along the axis)",
    "numpy.min": "smallest entry (or along the axis)", "numpy.max": "largest entry (or along the axis)",
    "numpy.clip": "element-wise restriction to [low, high], new array",
    "numpy.roll": "cyclic shift by one",
    "numpy.unique": "strictly increasing array of the distinct values of its argument",
    "numpy.vectorize": "element-wise application",
    "itertools.chain": "concatenation of its arguments",
    "warnings.warn": "records a warning and returns (warnings are not turned into errors)",
    "scipy.stats.cauchy.pdf": "density (g/pi) / ((x - l)^2 + g^2), symmetric about l, positive",
    "scipy.stats.norm.pdf": "density exp(-(x - l)^2 / (2 s^2)) / (s sqrt(2 pi)), symmetric about l, positive",
    "scipy.stats.uniform.pdf": "density 1 / scale on [loc, loc + scale], 0 elsewhere",
    "scipy.stats.cauchy.cdf": "location-scale family of one increasing function with value 1/2 at 0, F(-z) = 1 - F(z), values in (0, 1)",
    "scipy.stats.norm.cdf": "location-scale family of one increasing function with value 1/2 at 0, F(-z) = 1 - F(z), values in (0, 1)",
    "scipy.stats.uniform.cdf": "(x - loc) / scale restricted to [0, 1]",
    "scipy.stats.cauchy.ppf": "inverse function of cdf on (0, 1), increasing, odd about 1/2, infinite at 0 and 1",
    "scipy.stats.norm.ppf": "inverse function of cdf on (0, 1), increasing, odd about 1/2, infinite at 0 and 1",
    "scipy.stats.uniform.ppf": "loc + scale q",
    "scipy.special.voigt_profile": "voigt_profile(x, s, g) is the convolution at x of the normal density with deviation s and the Cauchy density with scale g (so positive and even in x)",
    "scipy.interpolate.interp1d": "piecewise linear function through its nodes (nodes sorted, at least two), the given fill values outside",
    "scipy.optimize.newton": "raises RuntimeError, or returns numbers; an entry reported as converged is a zero of the function handed over, an entry not reported as converged is any number; it may warn if an entry did not converge",
    "scipy.integrate.quad": "the integral of the integrand over the range, and an error estimate that is a function of it",
    "scipy.integrate.nquad": "the iterated integral of the integrand over the ranges (first range: first argument), and an error estimate that is a function of it",
    "mean value theorem (ghost lemma)": "a function with nonnegative derivative above a and nonnegative value at a is nonnegative above a (used in a ghost lemma)",
    "monotonicity of the integral (ghost lemma)": "g <= f inside [a, b] implies the same for the integrals (used in a ghost lemma)",
}

PROPERTY = {
    "C13": ["text: a line is a sequence of literal characters and tokens over stated alphabets; int() and float() of a number token are the number it denotes; equal text of two symbol tokens is equality of the symbols",
            "open() of the table yields its lines with their newlines, and reading does not change the file"],
    "C18": ["fundamental theorem of calculus: the integral is the difference of the ghost antiderivative whose derivative is proved to be the integrand"],
    "C19": ["fundamental theorem of calculus: the integral is the difference of the ghost antiderivative whose derivative is proved to be the integrand"],
    "C12": ["a dictionary is a finite map; sums over its keys do not depend on their order"],
    "C01": ["arbitrary operands: any object with the documented interface whose value is a function of the energy"],
    "C02": ["arbitrary operands: any object with the documented interface whose methods change nothing visible"],
    "C03": ["arbitrary operands: any object with the documented interface whose grid is a function of limits and number of points"],
}
PROPERTY["C14"] = PROPERTY["C13"]
PROPERTY["C15"] = PROPERTY["C13"] + [
    "module-level loop: its turns share nothing but entries of module-level dictionaries; element symbols are distinct (C23); the element's mass is positive (8 elements without natural abundance are known findings of C23)"]
PROPERTY["C23"] = ["module-level loop: its turns share nothing but entries of module-level dictionaries; element symbols are distinct"]


def words(prop, assumed):
    out = []
    for a in assumed:
        out.append("assumed: " + a + (": " + TEXT[a] if a in TEXT else ""))
    return out + ["assumed: " + a for a in PROPERTY.get(prop, ())]

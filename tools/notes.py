NOTES.update({
    "C01": "Expressions of any depth: by structural induction, the induction step (operators on arbitrary operands) is proved.",
    "C02": "Frames: snapshots of all operands and arguments before and after each operation.",
    "C03": "Number of constituents and points unbounded.",
    "C04": "All five shipped resonance classes.",
    "C05": "scipy's voigt_profile is assumed to be the convolution of its Gaussian and Lorentzian.",
    "C06": "", "C07": "Distribution functions of scipy.stats norm and cauchy by their assumed laws.",
    "C08": "All outcomes of the root finder: an entry reported as converged is assumed to be a root of the function handed over.",
    "C09": "All five shipped resonance classes; quantile functions by their assumed laws, the root finder as in C08.",
    "C10": "Any number of grid points, all five shipped resonance classes; quantile functions by their assumed laws, the root finder as in C08.",
    "C11": "",
    "C12": "Any number of final states and isotopes, tables in any order.",
    "C16": "Tables of any length; scipy's interp1d is assumed to be the piecewise linear interpolant of its nodes.",
    "C17": "", "C18": "Ghost antiderivatives; the fundamental theorem of calculus is assumed.",
    "C19": "Ghost antiderivatives; the fundamental theorem of calculus is assumed.",
    "C20": "Any number of grid points.",
    "C21": "Any number of points, zero to three further variables; nquad is assumed to return the integral and its error estimate.",
    "C22": "The inequality by a ghost lemma on the integrand (mean value theorem, monotonicity of the integral assumed).",
    "C13": "Any number of records and elements, all contents of the fields; text is modelled as literal characters and tokens (numbers, symbols, free text over an alphabet).",
    "C14": "Any number of lines; symbols of one or two letters; text modelled as in C13.",
    "C15": "Any number of lines, all conversions; text modelled as in C13. The module-level loop that makes the shipped tables is executed for one arbitrary element (turns share nothing but their dictionary entries).",
    "C23": "Mass rule and element table (module-level loop executed for one arbitrary element, readers by their contracts C13 and C14) are proved for any tables. The contents of the shipped files are finite; they are checked by execution over every element and row (bounded: shipped files), against an independent reading of the files.",
})

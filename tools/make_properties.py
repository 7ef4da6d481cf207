"""Writes /verif/properties.jsonl (the property texts live here, one P(...) per property)."""
import json, os

OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
rows = []

def P(id, title, statement, over, text, why, files, mech, observe):
    rows.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

CS = "ries/cross_section.py"
P("C01", "Sums and multiples of cross sections have the linear-combination value",
  "For any expression built from cross sections and plain numbers with + and with * by a number (in either operand order, nested to any depth, with repeated or shared operands), evaluating it at an energy or an array of energies gives exactly that linear combination of the operands' values at these energies. A plain number added to a cross section acts as a cross section that has this value at every energy.",
  ["inputs", "programs"], "all expressions over +, * and numbers, any number of summands, all weights (also 0, negative, int or float), all energies (scalar or array)",
  "Tests evaluate a few hand-written sums of two or three terms; the claim is about every expression, any number of terms and any weight.",
  [CS], [("CrossSection.__add__/__radd__/__mul__/__rmul__", CS), ("CrossSectionWeightedSum.__add__/__mul__/__call__", CS), ("ConstantCrossSection.__call__", CS)],
  ["value returned by calling the expression"])
P("C02", "Building or evaluating expressions never alters operands or arguments",
  "Building an expression from existing cross sections or weighted sums, evaluating it, or asking for a grid never changes the value of any other cross section, the operands' own lists, a sequence or array passed as argument, or a result returned earlier. Objects created without their optional collections do not share a collection with each other.",
  ["histories", "inputs"], "all sequences of constructions, evaluations and grid requests, all operands",
  "Aliasing only shows in particular sequences (build b from a, extend or evaluate b, look at a again); tests check one or two short sequences.",
  [CS, "ries/constituents/isotope.py"], [("new lists built in CrossSectionWeightedSum.__add__/__mul__", CS), ("accumulation from a fresh 0.0 in CrossSectionWeightedSum.__call__", CS), ("`or []` defaults", "ries/constituents/isotope.py")],
  ["later evaluation of the operands", "argument arrays after the call"])
P("C03", "Grids of sums: even energy grid and sorted union of constituent grids",
  "For every cross section or weighted sum the equidistant energy grid for limits (a, b) and n points has n points with first a, last b and equal spacing. The probability grid of a weighted sum is strictly increasing and contains exactly the energies that occur in at least one constituent's own probability grid for the same limits and number of points; for constant and nonresonant cross sections that grid is the even energy grid.",
  ["inputs", "programs"], "all weighted sums (any number of constituents, nested), all limits a<b, all n >= 2",
  "Tests look at one or two sums with fixed limits; duplicates and nesting only appear for particular combinations.",
  [CS, "ries/nonresonant/nonresonant.py"], [("np.unique over chained grids", CS), ("np.linspace", CS)], ["returned grids"])
RS = "ries/resonance/resonance.py"
P("C04", "Resonance strength and cross section follow the photonuclear formula",
  "For a resonance with resonance energy Er the energy-integrated cross section is (pi*hbar*c)^2/Er^2 * (2*J2+1)/(2*J0+1) * G20 * b, where G20 is the partial width of the excited state to the initial state and b is 1 or, if a final state is given, its partial width divided by the total width. The cross section at energy E is this value times the line shape at E, and when E is given relative to the resonance, times the line shape at Er+E.",
  ["inputs", "configurations"], "all spins, excitation energies, partial-width tables, final states, line-shape classes and energies (scalar or array)",
  "Tests compare a few sets of quantum numbers with stored values; the law is for all of them.",
  [RS], [("get_statistical_factor, get_final_state_branching_ratio, get_energy_integrated_cross_section", RS), ("Resonance.__call__", RS)],
  ["energy_integrated_cross_section", "value of the resonance at an energy"])
P("C05", "Line shapes: Breit-Wigner, Doppler Gaussian and Voigt",
  "For all level and target parameters the line shape is (G/2pi)/((E-Er)^2+G^2/4) with total width G for the Breit-Wigner resonance, exp(-((E-Er)/D)^2)/(sqrt(pi)*D) with Doppler width D at Er for the Gaussian, and the convolution of exactly these two for the Voigt resonance. The Voigt density and the Gaussian and Breit-Wigner densities are symmetric about Er and positive.",
  ["inputs"], "all Er, widths, masses, temperatures and energies",
  "Tests sample single parameter sets and compare the shapes with each other on coarse grids with loose tolerances.",
  ["ries/resonance/breit_wigner.py", "ries/resonance/gauss.py", "ries/resonance/voigt.py"],
  [("cauchy/norm parameters", "ries/resonance/breit_wigner.py, ries/resonance/gauss.py"), ("voigt_profile arguments", "ries/resonance/voigt.py")],
  ["value of the resonance divided by its energy-integrated cross section"])
MB = "ries/resonance/maxwell_boltzmann.py"
P("C06", "Doppler width law and its inverse",
  "The Doppler width at energy E for mass M and effective temperature T is E*sqrt(2*k*T/(M*c^2)): it is proportional to E, grows with the square root of T and falls with the square root of M. Converting a Doppler width back to an effective temperature inverts this exactly, and vice versa.",
  ["inputs"], "all E>0, M>0, T>0 (scalars or arrays of E)",
  "Tests check one round trip at one parameter set.",
  [MB], [("get_doppler_width / get_effective_temperature", MB)], ["returned width and temperature"])
PV = "ries/resonance/pseudo_voigt.py"
P("C07", "Pseudo-Voigt line shape is one proper mixture for density and distribution",
  "For all widths, masses and temperatures the pseudo-Voigt density and distribution function are the same mixture, with the documented weight (between 0 and 1), of a Gaussian and a Lorentzian centred at Er that both have the full width at half maximum given by the quintic Thompson formula from the Lorentz width and the Gaussian Doppler FWHM. The mixture is positive, symmetric about Er, its distribution function is increasing with value 1/2 at Er, and if one of the two widths tends to zero it becomes the pure other shape.",
  ["inputs"], "all widths >= 0 (not both 0), masses, temperatures, energies",
  "Tests compare with the exact Voigt profile at few parameters and loose tolerance; limits and the range of the weight are never checked.",
  [PV], [("get_Gamma, get_eta, pseudo_voigt_expression", PV)], ["pdf and cdf values", "mixing weight"])
P("C08", "Pseudo-Voigt quantiles are inverse CDF values or announced approximations",
  "Asking the pseudo-Voigt (or Voigt) distribution for one quantile or an array of quantiles in (0, 1) always returns finite numbers of the shape of the input. If no warning is issued, every returned energy solves CDF(E) = quantile to the accuracy of the numerical root finder; if the root finder fails for any of them, in whatever way it reports this, a warning is issued and the documented mixture of the two quantile functions is returned.",
  ["inputs", "fault_sequences"], "all quantiles in (0,1), scalar or array, all outcomes of the root finder (convergence, partial convergence, exception)",
  "Tests only reach parameter sets where Newton's method converges.",
  [PV], [("PseudoVoigtDistribution.ppf", PV)], ["returned quantile", "warnings"])
P("C09", "Coverage interval holds the central probability, clipped at zero energy",
  "For every coverage in (0, 1) the coverage interval of a resonance is the pair of energies with probability (1-coverage)/2 below the lower and above the upper one, except that a negative lower limit is replaced by 0. A warning is given if and only if the lower limit was negative (stating the largest coverage reachable with positive energies) or the upper limit is infinite (coverage 1).",
  ["inputs", "configurations"], "all coverages, resonance classes and parameters",
  "Tests use one coverage with narrow resonances; clipping was never exercised with its value.",
  [RS], [("Resonance.coverage_interval", RS)], ["returned pair", "warnings"])
P("C10", "Probability grids split a resonance into equally probable intervals",
  "For limits a<b the probability grid of a resonance starts exactly at a, ends exactly at b, is non-decreasing, never leaves [a, b], and splits the probability between a and b into equal parts; for a coverage it splits the central coverage into equal parts, i.e. point i has cumulative probability (1-c)/2 + c*i/(n-1) (unless a warning announces approximate quantiles). The energy grid for a coverage is the even grid over the coverage interval.",
  ["inputs", "configurations"], "all resonance classes, limits (also far from the resonance), coverages, n >= 2",
  "Tests use limits around the peak and few grid sizes; far-off limits gave infinite grid points.",
  [RS], [("Resonance.equidistant_probability_grid, equidistant_energy_grid", RS)], ["returned grids", "CDF at the grid points"])
RC = "ries/resonance/recoil.py"
P("C11", "Recoil-corrected resonance energies conserve energy and momentum",
  "The photon energy E returned for a free nucleus of rest energy m and an energy difference d satisfies (m+E)^2 - E^2 = (m+d)^2 exactly, so E > d for d > 0, and without recoil the energy difference is returned unchanged. A resonance is located at the recoil-corrected difference of the excitation energies of its two states.",
  ["inputs", "configurations"], "all masses, all excitation energies of both states, all recoil models",
  "Tests evaluate one nucleus.",
  [RC, RS], [("FreeNucleusRecoil.__call__", RC), ("Resonance.__init__", RS)], ["returned energy", "resonance_energy"])
P("C12", "Level widths and element masses are exact weighted sums",
  "The total width of a level is the sum of all its partial widths, so the branching ratios to all listed final states sum to 1. The mass of an element is the sum over its isotopes of mass times abundance, matched by isotope name, whatever the order of the tables and whether or not abundances are listed for further isotopes.",
  ["inputs"], "all partial-width tables, all isotope and abundance tables of any size",
  "Tests build two or three levels and elements.",
  ["ries/constituents/state.py", "ries/constituents/element.py"], [("State.__init__", "ries/constituents/state.py"), ("Element.amu_from_isotopic_composition", "ries/constituents/element.py")],
  ["width", "amu"])
ND = "ries/constituents/natural_element_data.py"
P("C13", "NIST isotope table is read record by record without loss or mix-up",
  "For every table in the NIST linearised format, sorted by atomic number, reading element Z returns exactly the isotopes of the records with that atomic number, each under the name mass number + symbol with its own relative atomic mass and its own composition (0 if the field is empty, the number itself if it carries no uncertainty). The symbol table maps every atomic number to the symbol of its first record.",
  ["inputs"], "all files in the format, any number of records, values with or without uncertainty, empty compositions, all Z",
  "Tests read the shipped file and look at a few elements; values without an uncertainty were silently read as 0.",
  [ND], [("NISTElementDataReader", ND)], ["returned dictionaries"])
P("C14", "Density lookup returns the element's own density or None",
  "Looking up a symbol in a density table returns the (converted) number on the line of exactly that symbol, and None if no line has that symbol. Symbols that are a prefix or part of another symbol are never confused with it.",
  ["inputs"], "all tables, all symbols of one or two letters",
  "Tests look up one element; boron, sulfur and iodine returned the density of another element.",
  [ND], [("Geant4DensityDataReader.read_density_data", ND)], ["returned density"])
XR = "ries/nonresonant/xrmac.py"
P("C15", "Attenuation tables are read completely with the right unit conversion",
  "For every attenuation-coefficient file in the NIST column format (with or without an edge-label column, with or without a final newline) the table has one row per line with the energy and the two coefficients as printed, each passed through the given energy or coefficient conversion. Per-atom tables are the per-gram tables times the mass of that element's own atom, also when the conversion is used after import.",
  ["inputs", "configurations"], "all files in the format, any number of lines, all conversions, all elements",
  "Tests check the table of one element at few energies; the last line of the lead table was misread.",
  [XR], [("XRMAC.read_nist_xrmac", XR), ("module-level xrmac_fm2_per_atom", XR)], ["data table", "cross section values"])
P("C16", "Tabulated cross sections interpolate log-log and stay constant outside",
  "For every table with increasing energies the attenuation cross section equals the tabulated coefficient at each tabulated energy, follows the straight line in log-log representation between neighbouring entries, and is constant (first or last coefficient) below or above the table. Hence it is positive everywhere and lies between the neighbouring entries.",
  ["inputs"], "all tables of any length >= 2, all energies (scalar or array)",
  "Tests compare a handful of energies.",
  [XR], [("XRMAC.interpolate_log_log, XRMAC.__call__", XR)], ["value at an energy"])
KN = "ries/nonresonant/klein_nishina.py"
P("C17", "Compton kinematics: angle and energy maps are inverse and use the right mass",
  "For every particle mass m, photon energy E and angle t in [0, pi] the scattered energy is E/(1+E/m*(1-cos t)), which lies between the Compton edge E/(1+2E/m) and E and decreases with the angle, and the angle recovered from this energy is t. The energy transfer conserves energy and momentum for a free particle of exactly that mass.",
  ["inputs", "configurations"], "all E>0, masses > 0, angles in [0, pi] (scalars or arrays)",
  "Tests check one energy with the default mass; other masses were ignored.",
  [KN], [("KleinNishina.theta, Ep_over_E, compton_edge", KN)], ["returned angle and energies"])
P("C18", "Integrated differential Compton cross sections give the total cross section",
  "For every charge number, particle mass and photon energy, the angle-differential cross section integrated over [0, pi] and the energy-differential one integrated from the Compton edge to E both equal the total cross section given by the Klein-Nishina formula, which is what calling the object returns. All of them are proportional to the number of scattering centers and, at fixed E/m, to 1/m^2.",
  ["inputs", "configurations"], "all Z, masses, energies",
  "Tests integrate numerically at one energy for the default particle.",
  [KN], [("cs_total, cs_diff_dtheta, cs_diff_dEp, scale_factor", KN)], ["values of the differential and total cross sections"])
P("C19", "Polarised and unpolarised Compton cross sections are consistent and positive",
  "The unpolarised solid-angle differential cross section is the average over the azimuthal angle of the polarised one, and 2*pi*sin(t) times it is the angle-differential cross section. The energy-azimuth differential cross section integrates over the azimuthal angle to the energy-differential one, and all of them are non-negative.",
  ["inputs"], "all E, masses, charge numbers, angles",
  "Tests only compare the fully integrated values at one energy.",
  [KN], [("cs_diff_dOmega, cs_diff_dOmega_unpolarized, cs_diff_dEp_dphi, cs_diff_dEp", KN)], ["values of the differential cross sections"])
DB = "ries/integration/darboux.py"
P("C20", "Darboux sums are the exact lower sum and the gap to the upper sum",
  "For a function or its values on an increasing grid of any length, the result is the sum over intervals of the smaller end value times the interval length, and the difference to the same sum with the larger end values. Hence for any function monotonic on each interval the true integral lies between the first result and the first plus the second.",
  ["inputs"], "all grids of n >= 2 points, all functions or value arrays",
  "Tests integrate two functions on one grid each.",
  [DB], [("darboux", DB)], ["returned pair"])
QP = "ries/integration/quad_partition.py"
P("C21", "Partitioned quadrature adds up the integrals and errors of all parts",
  "The partitioned integral over points x_0..x_n is the sum of the adaptive integrals over each [x_i, x_(i+1)] (times the fixed ranges of further variables, given as lists or arrays), and the reported error is the square root of the sum of the squared errors. With fewer than two points both are 0.",
  ["inputs"], "all functions, partitions of any length, numbers of further dimensions",
  "Tests integrate one or two functions on one partition.",
  [QP], [("quad_partition", QP)], ["returned pair"])
DE = "ries/resonance/debye_model.py"
P("C22", "Debye effective temperature follows the Debye integral",
  "For every temperature T and Debye temperature TD (scalars or arrays, element by element) the effective temperature is 3*T*(T/TD)^3 * integral from 0 to TD/T of t^3*(1/(exp(t)-1)+1/2) dt. It is never smaller than T or than 3/8*TD.",
  ["inputs"], "all T>0, TD>0, scalars and arrays",
  "Tests check one temperature.",
  [DE], [("effective_temperature_debye_approximation", DE)], ["returned temperature"])
P("C23", "Shipped element, density, attenuation and Debye data are consistent",
  "For every element from 1 to 118 the shipped tables give a unique symbol, isotopes named after it, natural abundances that sum to 1 (or are all 0), a mass between its lightest and heaviest naturally occurring isotope, and the density listed for its own symbol; every Debye-temperature key is an element symbol. For every element up to 92 there is an attenuation table with increasing energies (two rows share an energy only at an absorption edge), and the per-gram and per-atom cross sections are positive and differ exactly by the atom's mass.",
  ["inputs", "configurations"], "all elements and all shipped table rows (finite, exhausted)",
  "Tests look at a few elements; monoisotopic elements had mass 0 and two Debye keys named no element.",
  ["ries/constituents/element.py", XR, DE], [("module-level tables", "ries/constituents/element.py, ries/nonresonant/xrmac.py, ries/resonance/debye_model.py")],
  ["natural_elements", "X", "xrmac_cm2_per_g", "xrmac_fm2_per_atom", "room_temperature_T_D"])

with open(OUT, "w") as f:
    for r in rows:
        assert len(r["title"]) <= 80, (r["id"], len(r["title"]))
        f.write(json.dumps(r) + "\n")
print(len(rows), "properties")

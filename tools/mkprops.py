#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list is reviewable)."""
import json, os
W = "src/ripplegw/waveforms/"
P = []
def p(id, title, statement, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))
NB = "The only stable tests are four notebooks that run a generator on a handful of parameter points; "
INIT = "src/ripplegw/__init__.py"
WF = [W+"TaylorF2.py", W+"IMRPhenomD.py", W+"IMRPhenomD_NRTidalv2.py", W+"IMRPhenomXAS.py", W+"IMRPhenomPv2.py"]
GENS = [("gen_TaylorF2_hphc", W+"TaylorF2.py"), ("gen_IMRPhenomD_hphc", W+"IMRPhenomD.py"),
        ("gen_IMRPhenomD_NRTidalv2_hphc", W+"IMRPhenomD_NRTidalv2.py"),
        ("gen_IMRPhenomXAS_hphc", W+"IMRPhenomXAS.py"), ("gen_IMRPhenomPv2_hphc", W+"IMRPhenomPv2.py")]

p("C01", "Mass parameter conversions are mutually inverse and ordered",
  "For all positive component masses, converting to chirp mass and symmetric mass ratio and back returns the same two masses, the heavier one first. For every positive chirp mass and every symmetric mass ratio in (0, 1/4], converting to component masses and back returns the same pair, and the component masses are real, positive and satisfy m1 >= m2.",
  ["inputs"], "all positive masses; all (Mc, eta) with Mc > 0 and 0 < eta <= 1/4",
  NB+"none converts masses back, and an inverse law is about the whole two-dimensional parameter space.",
  [INIT], [("Mc_eta_to_ms", INIT), ("ms_to_Mc_eta", INIT)])
p("C02", "Tidal deformability conversions are mutually inverse and consistent",
  "For all masses with mass ratio at least 1/20 (the published combination is not invertible near mass ratio 0.02) and all individual deformabilities, converting to the mass-weighted pair (dominant and secondary combination) and back returns the original deformabilities, in the variant that takes component masses and in the variant that takes the mass ratio, and both variants give the same values for the same binary. No denominator in the back-conversion vanishes for any mass ratio in [1/20, 1], and for two equal objects the dominant combination equals the common deformability while the secondary one vanishes.",
  ["inputs"], "all masses m1 >= m2 > 0 with m2/m1 >= 1/20 and all real deformabilities",
  NB+"no test converts in both directions, and a vanishing determinant would only show at isolated mass ratios.",
  [INIT], [("lambdas_to_lambda_tildes", INIT), ("lambda_tildes_to_lambdas", INIT),
           ("lambdas_to_lambda_tildes_from_q", INIT), ("lambda_tildes_to_lambdas_from_q", INIT)])
p("C03", "Effective spin is the mass-weighted mean; ISCO frequency follows its formula",
  "The effective spin of a binary is the mass-weighted mean of the two spins: it lies between the two spins, equals them when they are equal, is unchanged when the two objects are swapped and when both masses are rescaled by the same factor. The ISCO frequency of a mass m is c^3/(6^(3/2) pi G m).",
  ["inputs"], "all positive masses, all real spins",
  NB+"neither function is exercised by a test.", [INIT], [("get_chi_eff", INIT), ("get_f_isco", INIT)])
p("C04", "Parameter samplers stay in range and respect the ordering",
  "Every pair drawn by the chirp-mass/mass-ratio sampler has its first entry in the first requested range and its second entry in the second requested range. Every pair drawn by the component-mass sampler is a reordering of one draw from the first range and one draw from the second range, with the larger value first.",
  ["inputs"], "all ranges with lower end <= upper end, all keys, all sample counts",
  NB+"no test calls a sampler, and a finite sample cannot show that no draw leaves the range.",
  [INIT], [("get_M_eta_sampler", INIT), ("get_m1_m2_sampler", INIT)])
p("C05", "Noise-weighted match is normalised, symmetric and bounded by one",
  "For every positive noise power spectral density and all non-zero strains on any frequency grid, the phase-maximised inner product and the match lie in [0, 1], the match of a strain with itself is exactly 1, and neither value changes when either strain is multiplied by a non-zero complex constant. Exchanging the two strains leaves the inner product unchanged once the sign of the time shift is reversed.",
  ["inputs"], "all strains h1, h2, all positive PSDs, all grid lengths, all time shifts, all pad lengths",
  NB+"none checks a bound or an invariance of the match.", [INIT],
  [("get_phase_maximized_inner_product_arr", INIT), ("get_match_arr", INIT), ("get_match", INIT), ("get_phase_maximized_inner_product", INIT)])
p("C06", "Padding lengths complete the frequency grid",
  "For every evenly spaced frequency grid whose first and last entries are whole multiples k0 < k1 of the spacing (2 <= k1 <= 2^24), up to double-precision rounding of the entries, the two padding arrays contain only zeros and have lengths k0 and k1 - 2.",
  ["inputs"], "all grids fs = df*(k0..k1), df > 0", NB+"none calls the padding helper with more than one grid.",
  [INIT], [("get_eff_pads", INIT)])
p("C07", "Noise curves reproduce their tables and are infinite outside them",
  "Each tabulated detector noise curve returns, at every tabulated frequency, the tabulated power spectral density (the square of the tabulated value for amplitude tables, infinity where the table holds zero), interpolates linearly between neighbouring entries, and is infinite below the first and above the last tabulated frequency, which are the published frequency range. The analytic LIGO-I curve is infinite up to and including 40 Hz and equals 9e-46*((4.49x)^-56 + 0.16 x^-4.52 + 0.52 + 0.32 x^2), x = f/150 Hz, above.",
  ["inputs"], "all real frequencies, all six shipped tables", "No stable test touches the noise module.",
  ["src/ripplegw/noise.py"], [("_load_noise", "src/ripplegw/noise.py"), ("Sn_LIGOI", "src/ripplegw/noise.py"), ("Sn_aLIGO, Sn_ce, Sn_et, Sn_aLIGOZeroDetHighPower, Sn_O3a, Sn_O2", "src/ripplegw/noise.py")])
p("C08", "Strain is inversely proportional to the luminosity distance",
  "In every frequency-domain waveform model, multiplying the luminosity distance by any positive factor divides both polarisations by that factor at every frequency and changes nothing else.",
  ["inputs"], "all models, all parameters in the model's domain, all frequencies, all factors k > 0",
  NB+"no test compares two distances.", WF, GENS)
p("C09", "Coalescence time only applies a linear phase",
  "In every frequency-domain waveform model, shifting the coalescence time by any amount d multiplies both polarisations at frequency f by exp(-2 pi i f d), at every frequency and for every other parameter. All models use the same sign and the same unit (seconds).",
  ["inputs"], "all models, parameters, frequencies and real shifts d",
  NB+"all of them keep the coalescence time fixed.", WF, GENS)
p("C10", "Coalescence phase only applies a constant phase",
  "In every aligned-spin frequency-domain model, shifting the coalescence phase by any amount d multiplies both polarisations at every frequency by exp(+2 i d) and changes nothing else. Shifting it by pi leaves the strain unchanged.",
  ["inputs"], "TaylorF2, PhenomD, PhenomD_NRTidalv2, PhenomXAS; all parameters, frequencies and real shifts",
  NB+"all of them keep the coalescence phase fixed.", WF[:4], GENS[:4])
p("C11", "Inclination enters through the quadrupole pattern only",
  "In every aligned-spin frequency-domain model there is one strain h0, independent of inclination and equal to what the model's single-strain generator returns, such that the plus polarisation is h0 (1 + cos^2 i)/2 and the cross polarisation is -i h0 cos i at every frequency.",
  ["inputs"], "TaylorF2, PhenomD, PhenomD_NRTidalv2, PhenomXAS; all inclinations, parameters and frequencies",
  NB+"none varies the inclination.", WF[:4], GENS[:4])
p("C12", "Waveforms are covariant under a change of the total mass",
  "In every frequency-domain waveform model, scaling all masses by s > 0 while dividing every frequency and the reference frequency by s and multiplying the coalescence time by s (spins, mass ratio, deformabilities, distance and angles unchanged) multiplies both polarisations by s^2.",
  ["inputs"], "all models, parameters, frequencies and factors s > 0",
  NB+"none compares two total masses.", WF, GENS)
p("C13", "Strain at one frequency does not depend on the rest of the grid",
  "In every frequency-domain waveform model the polarisations at a frequency depend only on that frequency, the parameters and the reference frequency: not on the other frequencies of the grid, its length, its spacing or its order.",
  ["inputs"], "all models, all grids of any length, all parameters",
  NB+"each uses one fixed, dense, increasing grid.", WF, GENS)
p("C14", "PhenomD amplitude and phase join smoothly at every region boundary",
  "For every mass ratio and all aligned spins, the PhenomD phase and amplitude and their first frequency derivatives have equal one-sided limits at each internal boundary between the inspiral, intermediate and merger-ringdown regions, and at the boundary itself the strain takes that common value.",
  ["inputs"], "all masses and aligned spins for which the boundaries are ordered; all internal boundaries",
  NB+"a sampled grid almost never contains a boundary and a small kink is invisible in a plot.",
  [W+"IMRPhenomD.py", W+"IMRPhenomD_utils.py"],
  [("Phase", W+"IMRPhenomD.py"), ("Amp", W+"IMRPhenomD.py"), ("get_IIa_Amp", W+"IMRPhenomD.py"), ("get_delta0..4", W+"IMRPhenomD_utils.py")])
p("C15", "PhenomXAS amplitude and phase join smoothly at every region boundary",
  "For every mass ratio and all aligned spins, the PhenomXAS phase and amplitude and their first frequency derivatives have equal one-sided limits at each internal boundary between the inspiral, intermediate and merger-ringdown regions, and at the boundary itself the strain takes that common value.",
  ["inputs"], "all masses and aligned spins for which the boundaries are ordered; all internal boundaries",
  "No stable test runs PhenomXAS.", [W+"IMRPhenomXAS.py", W+"IMRPhenomX_utils.py"],
  [("Phase", W+"IMRPhenomXAS.py"), ("Amp", W+"IMRPhenomXAS.py"), ("get_intermediate_raw_phase", W+"IMRPhenomXAS.py"), ("get_intermediate_Amp", W+"IMRPhenomXAS.py")])
p("C16", "Strain vanishes above the model's cutoff",
  "For every mass, spin and grid, the PhenomD and PhenomPv2 strain is exactly zero at every frequency f with G(m1+m2)f/c^3 >= 0.2 and the PhenomXAS strain at every frequency with G(m1+m2)f/c^3 > 0.3, and the tapered PhenomD_NRTidalv2 strain is exactly zero from 1.2 times its merger frequency on.",
  ["inputs"], "all grids (also grids lying entirely above the cutoff), all parameters in the model's domain",
  NB+"none has a grid that starts above the cutoff.", WF[1:],
  [("Amp", W+"IMRPhenomD.py"), ("Amp", W+"IMRPhenomXAS.py"), ("get_planck_taper", W+"IMRPhenomD_NRTidalv2.py")])
p("C17", "The tidal model reduces to its point-particle baseline",
  "With both deformabilities zero, both spins zero and no taper, PhenomD_NRTidalv2 returns exactly the PhenomD strain at every frequency below the point-particle cutoff. For every parameter, the tapered strain is the untapered strain times a real factor that depends on frequency, masses and deformabilities only, and the tidal phase correction vanishes linearly with the effective deformability.",
  ["inputs"], "all masses, distances, times, phases, inclinations, reference frequencies and frequencies",
  NB+"the tidal notebook uses one non-zero deformability.", [W+"IMRPhenomD_NRTidalv2.py", W+"IMRPhenom_tidal_utils.py", W+"IMRPhenomD.py"],
  [("gen_IMRPhenomD_NRTidalv2", W+"IMRPhenomD_NRTidalv2.py"), ("_gen_IMRPhenomD_NRTidalv2", W+"IMRPhenomD_NRTidalv2.py")])
p("C18", "The precessing model reduces to the aligned-spin model",
  "When both in-plane spin vectors vanish, each PhenomPv2 polarisation has, at every frequency below the cutoff and for every mass, aligned spin, distance and inclination, the same magnitude as the corresponding PhenomD polarisation, and the phase difference between the two models is linear in frequency.",
  ["inputs"], "all masses m1 > m2, aligned spins, distances, inclinations, frequencies",
  "No stable test runs PhenomPv2.", [W+"IMRPhenomPv2.py", W+"IMRPhenomPv2_utils.py", W+"IMRPhenomD.py"],
  [("gen_IMRPhenomPv2", W+"IMRPhenomPv2.py"), ("convert_spins", W+"IMRPhenomPv2_utils.py"), ("PhenomPCoreTwistUp", W+"IMRPhenomPv2.py")])
p("C19", "Inspiral phases follow the post-Newtonian expansion",
  "The TaylorF2 phase without tides and the PhenomD inspiral phase contain exactly the known stationary-phase post-Newtonian coefficients (non-spinning terms through 3.5PN with their logarithms, aligned spin-orbit terms through 3.5PN, spin-spin terms at 2PN; TaylorF2 also the spin-spin terms at 3PN), and the PhenomXAS inspiral phase has, up to a constant phase, the same non-spinning coefficients and logarithms through 3.5PN and the same linear-in-spin terms through 3.5PN and spin-spin terms at 2PN and 3PN. The leading tidal terms of TaylorF2 at 5PN and 6PN are the known ones.",
  ["inputs"], "all mass ratios, aligned spins, deformabilities and frequencies in the inspiral region",
  NB+"one notebook compares TaylorF2 with a reference at one set of points.", [W+"TaylorF2.py", W+"IMRPhenomD.py", W+"IMRPhenomXAS.py"],
  [("get_PNPhasing_F2", W+"TaylorF2.py"), ("get_inspiral_phase", W+"IMRPhenomD.py"), ("get_inspiral_phase", W+"IMRPhenomXAS.py")])
p("C20", "Equal-mass binaries are symmetric under exchange of the two objects",
  "In every aligned-spin frequency-domain model, at equal masses exchanging the two spins (together with the two individual deformabilities in the tidal models) leaves both polarisations unchanged at every frequency. The effective tidal coupling, the post-Newtonian phasing coefficients and the tidal spin corrections are symmetric under exchange of the two objects (mass, spin and deformability together) for every mass ratio.",
  ["inputs"], "all spins, deformabilities, masses, frequencies; equal mass for the full waveforms",
  NB+"equal masses are never used because of the square root at eta = 1/4.", WF[:4]+[W+"IMRPhenom_tidal_utils.py"],
  GENS[:4]+[("get_kappa", W+"IMRPhenom_tidal_utils.py"), ("get_spin_phase_correction", W+"IMRPhenomD_NRTidalv2.py")])
p("C21", "The tidal taper is a monotone window and its derivative rule is right",
  "The taper applied to the tidal waveform is 1 below its starting frequency y, exactly 0 from 1.2 y on, and strictly between and non-increasing in frequency in the transition band, with no undefined value at either end. The derivative it reports with respect to the starting frequency under automatic differentiation is the true derivative of the window.",
  ["inputs"], "all frequencies and all starting frequencies y > 0",
  NB+"a grid does not hit the band edges, and no test differentiates the taper.", [W+"IMRPhenomD_NRTidalv2.py"],
  [("get_planck_taper", W+"IMRPhenomD_NRTidalv2.py"), ("get_planck_taper_der", W+"IMRPhenomD_NRTidalv2.py")])
p("C22", "Universal relations have the black-hole limit and no jump",
  "The spin-induced quadrupole parameter equals 1 at zero deformability, is at least 1 and increases with the deformability, and has no jump in value or slope (relative size above 1e-6) where its two branches meet. The octupole parameter is a single function of the quadrupole parameter over the whole range.",
  ["inputs"], "all deformabilities in [0, 10000]",
  NB+"one deformability value per notebook.", [W+"IMRPhenom_tidal_utils.py"], [("get_quadparam_octparam", W+"IMRPhenom_tidal_utils.py")])
p("C23", "Remnant quantities stay physical over the whole parameter space",
  "For every symmetric mass ratio in (0, 1/4] and all aligned spins in [-1, 1] of an ordered binary, the fitted radiated energy of PhenomD lies in (0, 1/2), the fitted final spin lies in [-1, 1] up to 1e-3, and ringdown and damping frequencies are positive. The ringdown frequency does not exceed 0.2 in units of the total mass, so that the merger lies below the cutoff.",
  ["inputs"], "0 < eta <= 1/4, -1 <= chi1, chi2 <= 1", NB+"bounds over a three-dimensional region cannot be sampled.",
  [W+"IMRPhenomD_utils.py", W+"IMRPhenomD_QNMdata.py"], [("EradRational0815", W+"IMRPhenomD_utils.py"), ("FinalSpin0815_s", W+"IMRPhenomD_utils.py"), ("get_fRD_fdamp", W+"IMRPhenomD_utils.py")])
p("C24", "Reference frequency only fixes a constant phase",
  "In every aligned-spin frequency-domain model, changing the reference frequency multiplies both polarisations by one common unit-modulus constant that does not depend on frequency. In TaylorF2, PhenomD and PhenomXAS the orbital phase at the reference frequency is thereby the same for every choice of it: apart from the coalescence time and phase terms, the strain's phase at f = f_ref is a constant of the model.",
  ["inputs"], "TaylorF2, PhenomD, PhenomD_NRTidalv2, PhenomXAS; all parameters, frequencies and pairs of reference frequencies",
  NB+"all of them use a single reference frequency.", WF[:4], GENS[:4])
p("C25", "Precession geometry preserves length and total power",
  "The frame rotations used for the precessing model preserve the length of every vector and compose additively in the angle; the half-angle coefficients satisfy cos^2 + sin^2 = 1; and the five spin-weighted harmonics satisfy sum |Y|^2 = 5/(4 pi) for every angle. Rotating the polarisation basis leaves |h+|^2 + |hx|^2 unchanged.",
  ["inputs"], "all vectors, angles, velocities, spins", "No stable test runs PhenomPv2.",
  [W+"IMRPhenomPv2_utils.py", W+"IMRPhenomPv2.py"], [("ROTATEZ", W+"IMRPhenomPv2_utils.py"), ("ROTATEY", W+"IMRPhenomPv2_utils.py"), ("WignerdCoefficients", W+"IMRPhenomPv2_utils.py"), ("SpinWeightedY", W+"IMRPhenomPv2_utils.py")])
p("C26", "Sine-Gaussian burst obeys its defining symmetries",
  "For every quality factor, frequency, phase and eccentricity, the sine-Gaussian polarisations are proportional to the requested root-sum-square amplitude, are windowed by the Gaussian exp(-(2 pi f t)^2/(2 Q^2)), are unchanged when time is scaled by s and the frequency by 1/s up to the factor 1/sqrt(s), and satisfy h+(-t; phase) = h+(t; -phase) and hx(-t; phase) = -hx(t; -phase). At zero eccentricity the two amplitudes at phase pi/4 coincide and at eccentricity 1 the cross polarisation vanishes.",
  ["inputs"], "all times, all Q > 0, f > 0, phases, eccentricities in [0, 1]", NB+"one notebook plots a single burst.",
  [W+"SineGaussian.py"], [("gen_SineGaussian_hphc", W+"SineGaussian.py"), ("semi_major_minor_from_e", W+"SineGaussian.py")])
p("C27", "The waveform front end dispatches to the named model",
  "The frequency-domain front end returns, for each supported model name, exactly what that model's own polarisation generator returns on the same frequencies, parameters and reference frequency, and raises ValueError for every other name.",
  ["inputs", "histories"], "all supported names, all other strings, all arguments", "No stable test uses the front end.",
  ["src/ripplegw/FD_waveform.py"], [("FD_waveform_generator.generate_waveform", "src/ripplegw/FD_waveform.py")])
p("C28", "Both tidal parametrisations give the same waveform",
  "In TaylorF2 and PhenomD_NRTidalv2, passing the two individual deformabilities with the individual parametrisation selected gives, at every frequency, the same polarisations as passing the corresponding mass-weighted combinations with the default parametrisation.",
  ["inputs"], "all masses, spins, deformabilities, frequencies", NB+"each uses one parametrisation.",
  [W+"TaylorF2.py", W+"IMRPhenomD_NRTidalv2.py", INIT], [("gen_TaylorF2", W+"TaylorF2.py"), ("gen_IMRPhenomD_NRTidalv2", W+"IMRPhenomD_NRTidalv2.py")])
p("C29", "Square roots and logarithms stay in their domain",
  "For every valid mass ratio including exactly 1/4 as represented in floating point, and for all spins in [-1, 1], no mass conversion produces an undefined value: the radicand of every mass-difference square root is non-negative, also when rounding pushes the symmetric mass ratio slightly above 1/4.",
  ["inputs"], "all eta in (0, 1/4], including rounding of equal masses", NB+"none uses equal masses.",
  [INIT]+WF, [("Mc_eta_to_ms", INIT)])
p("C30", "Unit constants are mutually consistent",
  "The solar mass in seconds, in metres and in kilograms, the speed of light, Newton's constant, pi and the megaparsec agree with one another: G Msun/c^3, G Msun/c^2 and c divided by the length of a gigaparsec equal the corresponding published constants of the library to better than a relative 1e-4.",
  ["configurations"], "all exported constants", NB+"none compares constants.", ["src/ripplegw/constants.py"], [("gt, MRSUN, clightGpc, TWO_PI", "src/ripplegw/constants.py")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as fh:
    for q in P:
        assert len(q["title"]) <= 80, q["id"]
        fh.write(json.dumps(q) + "\n")
print(len(P), "properties")

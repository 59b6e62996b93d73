#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a table here so it stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("G01", "Spherical-harmonic coefficient sets are values under any operation history",
  "After any sequence of construction, resizing, copying, moving, assignment (self-assignment included) and coefficient writes, a coefficient set reads back exactly the last value written for every cosine/sine degree/order pair of its current degree, distinct pairs never share storage, and its degree, order and model constants are those last given to it. A copy is independent of its source, and no history leaks, double-frees or touches memory outside the set.",
  ["histories"], "every operation sequence over three coefficient sets up to the stated depth, with degrees 0..4 forced to shrink and grow through each other",
  "test_icgem prints one parsed model and is not run by the test target; no test performs two operations on one coefficient set",
  ["src/harmonic_coeffs.hpp", "src/gravity/harmonic_coeffs.cpp", "var/icgem/src/harmonic_coeffs.hpp", "var/icgem/src/harmonic_coeffs.cpp"],
  [("row allocation and packed triangular indexing", "src/gravity/harmonic_coeffs.cpp"), ("copy/move/resize members", "src/harmonic_coeffs.hpp")],
  ["C(i,j)/S(i,j) accessors", "heap state under AddressSanitizer/LeakSanitizer"])

p("G02", "Denormalising multiplies each coefficient by its exact normalisation factor once",
  "Converting a fully normalised coefficient set to un-normalised form multiplies every C and S of degree n and order m up to the requested order by sqrt((2-d0m)(2n+1)(n-m)!/(n+m)!) to within floating-point rounding, for every degree, including those whose factorials overflow a double. Degree-zero terms, orders above the requested one and the normalisation state are handled consistently: the conversion is applied once and never twice.",
  ["inputs", "histories"], "every degree n<=180 (quick) and every order m<=n, every order limit up to the stated degree, and every sequence of conversion calls up to length 3",
  "the only program that denormalises is not run by the test target and checks no value",
  ["src/gravity/harmonic_coeffs.cpp", "src/gravity/parse_coefficients.cpp", "src/factorial.hpp", "var/icgem/src/harmonic_coeffs.cpp"],
  [("factor accumulation", "src/gravity/harmonic_coeffs.cpp denormalize"), ("normalised flag", "src/harmonic_coeffs.hpp")],
  ["coefficients before and after conversion"])

p("G03", "Gravity-model headers are decoded faithfully whatever their layout",
  "For every header of the gravity-model file format, whatever the order of its records, the optional records present, blank lines, free-text preamble, trailing blanks or line-end convention, the reader reports exactly the stated model name, product type, constants, maximum degree, tide system, error type and normalisation, and places the data section correctly. A header that lacks a mandatory record or holds a malformed value is reported as an error and never crashes or yields made-up values.",
  ["inputs"], "every header built from the record grammar within the stated number of deviations (record order, omission, duplication, spacing, line ends, value forms)",
  "one fixed file outside the repository is the only header a test ever names",
  ["src/gravity/icgemio_rdhead.cpp", "src/icgemio.hpp", "var/icgem/src/icgemio_rdhead.cpp"],
  [("keyword table and value parsing", "src/gravity/icgemio_rdhead.cpp")], ["return status and header members"])

p("G04", "Gravity-model coefficients are loaded exactly, or the load fails",
  "For every data section (any record order, Fortran or C exponents, extra columns, comment or foreign records, missing final newline, truncation to any lower degree/order), a successful load holds exactly the file's coefficient for every degree/order within the requested limits, the conventional defaults for the degree-0/1 terms that models omit, and zero for every sine term of order zero. A section that misses, duplicates or corrupts a required coefficient, or carries out-of-range indices, yields an error status, never a silent wrong value or memory corruption.",
  ["inputs"], "every data section up to degree 4 within the stated number of deviations from a complete ordered one, crossed with every requested degree/order",
  "one external file, never present in the repository, is the only input tests name",
  ["src/gravity/icgemio_rddata.cpp", "src/gravity/parse_coefficients.cpp", "src/icgemio.hpp", "var/icgem/src/icgemio_rddata.cpp"],
  [("record loop, counters and degree-one defaults", "src/gravity/icgemio_rddata.cpp"), ("load + denormalise entry point", "src/gravity/parse_coefficients.cpp")],
  ["return status, coefficients read back"])

p("G05", "Gravity acceleration is the field's exact gradient, its partials the Jacobian",
  "For every degree and order cut-off and every position outside the central body, the computed acceleration is the gradient of the truncated spherical-harmonic potential, and the computed partial derivatives form its full symmetric, trace-free Jacobian. Results depend only on the arguments, never on the previous contents or size of the caller's work arrays.",
  ["inputs", "histories"], "each single coefficient and all-coefficients field up to degree 5 (quick) / 9, every (degree, order) cut-off, a direction/altitude grid including near-polar and equatorial points, each with poisoned and reused work arrays",
  "the gravity programs are not built by the test target and check no partials",
  ["src/gravity/gravity_acceleration.cpp", "src/gravity/lagrange_poly.cpp", "src/egravity.hpp", "var/icgem/src/gravity_acceleration.cpp"],
  [("recursion of basis functions", "src/gravity/lagrange_poly.cpp"), ("acceleration and partial sums", "src/gravity/gravity_acceleration.cpp")],
  ["acceleration vector", "3x3 partials matrix"])

p("G06", "Third-body attraction and its partials are consistent",
  "The perturbing acceleration of a third body equals the difference between its attraction of the satellite and of the Earth's centre, and the returned partials are the Jacobian of that acceleration with respect to the satellite position, for every geometry. The Sun and Moon accelerations use the bodies' positions at the requested epoch and their own mass constants, whatever was computed before.",
  ["inputs", "histories"], "a grid of satellite and perturber directions and distances, Sun- and Moon-like, with every axis permutation",
  "no test evaluates the third-body partials",
  ["src/gravity/point_mass_acceleration.cpp", "src/sunmoon.cpp", "src/egravity.hpp"],
  [("closed-form acceleration and partials", "src/gravity/point_mass_acceleration.cpp")], ["acceleration and partials"])

p("M01", "Matrix containers store one value per cell in every layout and history",
  "In every storage layout (row-wise, column-wise, packed trapezoid) distinct legal cells of a matrix map to distinct storage inside its allocation, reading a cell returns the last value written to it, and bulk fill, row/column slices and element counts agree with cell access. Copies are deep, moves transfer contents, and any history of resize, copy, move, assignment and destruction neither leaks nor corrupts memory.",
  ["histories", "configurations"], "every shape up to 5x5 in every layout, and every operation sequence over two matrices up to the stated depth",
  "no test exercises the containers directly",
  ["src/cmat2d.hpp"],
  [("offset formulas per layout", "src/cmat2d.hpp"), ("ownership members", "src/cmat2d.hpp")], ["cell reads", "heap state"])

p("K01", "Orbital elements and Cartesian states convert back and forth without loss",
  "For every bound orbit, converting Keplerian elements to a Cartesian state and back returns the same orbit, all available conversion variants agree with one another and with the two-body invariants (energy, angular momentum, eccentricity vector), and every returned angle is in its documented range. This includes near-circular, near-equatorial, polar and retrograde orbits and every quadrant of every angle.",
  ["inputs"], "the full product grid of semi-major axis, eccentricity, inclination, node, perigee and anomaly values including all quadrant boundaries",
  "tests replay a handful of textbook examples and are not built by the test target",
  ["src/astrodynamics.hpp", "src/astrodynamics/state2kepler.cpp", "src/astrodynamics/perifocal.cpp", "src/astrodynamics/pos2ra.cpp"],
  [("element/state conversions", "src/astrodynamics/state2kepler.cpp"), ("perifocal transforms", "src/astrodynamics/perifocal.cpp")], ["elements and state vectors"])

p("K02", "Kepler's equation solvers converge to the true root or report failure",
  "For every eccentricity below one and every mean anomaly, positive or negative and beyond one revolution, each Kepler solver that reports success returns an eccentric anomaly satisfying Kepler's equation to its stated tolerance, in the same revolution as the mean anomaly modulo 2*pi, and the solvers agree. Both converge for every eccentricity up to 0.9999.",
  ["inputs"], "an eccentricity x mean-anomaly grid including 0, pi, 2*pi and their neighbours",
  "one textbook value is the only sample",
  ["src/astrodynamics/kepler.cpp"], [("Newton iterations with iteration cap", "src/astrodynamics/kepler.cpp")], ["eccentric anomaly and status"])

p("K03", "Two-body propagation forms a group and its transition matrix is its Jacobian",
  "Propagating a state by t1 and then t2 equals propagating by t1+t2, propagating by -t undoes propagating by t and energy and angular momentum are conserved. The returned state-transition matrix and the partials of state with respect to elements are the true derivatives of the corresponding functions, the perifocal rotations are proper rotations, and forward/backward rotations are mutual inverses.",
  ["inputs", "histories"], "orbit grid x every ordered pair of time steps (forward, backward, multi-revolution)",
  "one textbook propagation is the only sample, and it is not built by the test target",
  ["src/astrodynamics/propagate_state.cpp", "src/astrodynamics/state_partials.cpp", "src/astrodynamics/perifocal.cpp"],
  [("propagation and transition matrix", "src/astrodynamics/propagate_state.cpp"), ("element partials", "src/astrodynamics/state_partials.cpp")], ["states and matrices"])

p("I01", "The multistep integrator's answer does not depend on how it is driven",
  "Whatever sequence of target epochs the caller requests (repeated, tiny, dense, sparse, reversed, interpolated or not, restarted, resumed after a work-limit return), each successful call returns the solution at exactly the requested epoch to within the requested accuracy, and consecutive outputs are consistent with a single trajectory. Two integrators never influence one another and a run is reproducible.",
  ["histories"], "every sequence of target epochs/modes up to the stated length from an alphabet of forward, backward, zero-length and short/long steps, on problems with known solutions, one and two interleaved integrators",
  "the single shipped example integrates one orbit monotonically and checks only its end error",
  ["src/integrators/sgode.hpp", "src/integrators/sgode_de.cpp", "src/integrators/sgode_step.cpp", "src/integrators/sgode_intrp.cpp", "var/ode_solvers/sgode.hpp", "var/ode_solvers/sgode_de.cpp", "var/ode_solvers/sgode_step.cpp", "var/ode_solvers/sgode_intrp.cpp"],
  [("driver state machine (continuation flag, saved direction, overshoot/interpolate)", "src/integrators/sgode_de.cpp"), ("step/order control", "src/integrators/sgode_step.cpp"), ("dense output", "src/integrators/sgode_intrp.cpp")],
  ["solution vector, epoch and status after each call"])

p("I02", "The integrator reports misuse and exhaustion instead of wrong answers",
  "A call with invalid tolerances, coincident epochs on start, or a tolerance too small to meet returns the documented status and leaves the caller's epoch consistent with the returned state; work exhaustion can be resumed and then reaches the target. No call sequence loops for ever, and after an error a corrected call works.",
  ["histories", "fault_sequences"], "every call sequence up to the stated length containing misuse, tolerance collapse and budget exhaustion at each position",
  "tests never provoke an error return",
  ["src/integrators/sgode_de.cpp", "src/integrators/sgode_step.cpp", "var/ode_solvers/rkf45_rkfs.cpp"],
  [("input validation and status codes", "src/integrators/sgode_de.cpp")], ["status, epoch, state"])

p("I03", "The Runge-Kutta-Fehlberg integrator meets its tolerance for every problem size",
  "For systems of any dimension and any target sequence, a successful call returns the solution at the requested epoch within a modest multiple of the requested tolerance, uses an error estimate taken from every component, and touches no memory outside its own. Failures (bad tolerances, minimum step, too much work) are reported by status.",
  ["histories", "inputs"], "dimensions 1..8, tolerances 1e-3..1e-10, forward/backward/dense/sparse target sequences up to the stated length",
  "the shipped example never runs the Runge-Kutta solver over more than its fixed orbit and asserts nothing about dimension or tolerance",
  ["var/ode_solvers/rkf45.hpp", "var/ode_solvers/rkf45_rkfs.cpp", "var/ode_solvers/rkf45_fehl.cpp"],
  [("Fehlberg stages", "var/ode_solvers/rkf45_fehl.cpp"), ("step-size control and status", "var/ode_solvers/rkf45_rkfs.cpp")], ["solution, epoch, status"])

p("R01", "DORIS RINEX headers decode to what they say, in any legal record order",
  "For every legal header (any order and repetition of records the format allows, optional records present or absent, scale factors for all or some observables spread over several records) the reader yields exactly the declared version, satellite, dates, observable list with scale factors, L1/L2 date offset, stations, reference beacons and time span, independent of what the process did before. A malformed or truncated header is refused with an error and no uninitialised value is ever used.",
  ["inputs", "configurations"], "every header within the stated number of deviations from a base header: record permutation, omission, repetition, short/long lines, bad numbers, station and observable counts, with clean and dirty error state before the call",
  "no test reads a RINEX header in the test target",
  ["src/rinex/read_rnx_header.cpp", "src/doris_rinex.hpp", "src/doris/doris_system_info.cpp", "src/rinex/doris_rinex.cpp"],
  [("header record dispatch and field parsing", "src/rinex/read_rnx_header.cpp"), ("station record parsing", "src/doris/doris_system_info.cpp")], ["header accessors, constructor outcome"])

p("R02", "DORIS RINEX data blocks decode exactly and damage is reported, not papered over",
  "Iterating a file yields, for every data block in order, exactly the epoch, clock offset, beacon set, observation values (scaled, with flags) and missing-value marks that the file states, for any observable count and beacon count. Reading through two iterators at once, or skipping some blocks, changes nothing; a truncated or malformed block yields an error or end-of-data and never values carried over from another line, block or file.",
  ["inputs", "histories", "crash_points"], "every small file over the block grammar, every prefix (byte truncation) of it, every interleaving of read/skip over two readers, every short-line and blank-field pattern within the stated bound",
  "no test parses a data block; nothing truncates or interleaves",
  ["src/rinex/doris_rinex.cpp", "src/rinex/rnx_datablock_iterator.cpp", "src/doris_rinex.hpp"],
  [("epoch and observation line parsing", "src/rinex/doris_rinex.cpp"), ("iterator", "src/rinex/rnx_datablock_iterator.cpp")],
  ["iterator status, decoded blocks"])

p("R03", "Beacon, observable and epoch look-ups in a RINEX are consistent",
  "The internal number, the four-character identifier and the record of a beacon map to each other one-to-one for every station list, unknown keys are reported as such, and the position of an observable is found exactly when it is declared. The corrected time tag of an observation is the receiver epoch plus its clock offset (and carrier date offset) with the documented sign, the same through every overload, at nanosecond resolution.",
  ["inputs"], "every station list up to 4 beacons with colliding prefixes, every subset/order of observables up to the bound, epoch x offset grid across day boundaries and signs",
  "no test exercises the look-ups",
  ["src/doris_rinex.hpp", "src/rinex/doris_rinex.cpp", "src/doris_system_info.hpp"],
  [("linear searches over stations and codes", "src/rinex/doris_rinex.cpp"), ("epoch arithmetic", "src/doris_rinex.hpp")], ["lookup results"])

p("R04", "Relative frequency offset fit recovers the drift actually in the file",
  "For every file whose receiver frequency offsets follow a polynomial of the fitted order, the estimated model reproduces the offset at every observation epoch, blocks without beacons and missing values are excluded rather than corrupting the fit, and the result does not depend on which beacons contribute. An empty or too short file is reported as an error.",
  ["inputs"], "every small file over block count, beacon count, missing-value positions and offset patterns within the stated bound",
  "the fitting programs are not built by the test target",
  ["src/rinex/fit_rfo.cpp", "src/doris/fit_rfo.cpp"],
  [("accumulation of (epoch, offset) pairs and least squares", "src/rinex/fit_rfo.cpp"), ("linear Kalman estimator", "src/doris/fit_rfo.cpp")], ["fitted model values"])

p("R05", "Doppler counts pair each beacon's own successive observations",
  "For every file, the differences formed from successive observations are exactly those between an observation of a beacon and the preceding one of the same beacon, with the values of the 2 GHz and 400 MHz phase wherever they are in the observable list and the elapsed time between the two; nothing is formed from missing values, and calling twice gives the same.",
  ["inputs"], "every small file over beacons present per block, observable layout and missing-value positions within the stated bound",
  "the program that uses it is not built by the test target",
  ["src/doris/extract_doppler_count.cpp"],
  [("latest observation per beacon", "src/doris/extract_doppler_count.cpp")], ["printed differences"])

p("D01", "Observation codes, carriers, beacon records and antenna types convert losslessly",
  "Every observation type has one character and every character at most one type, every code's text form is the type character followed by its carrier digit and parses back to itself, illegal type/carrier pairs are rejected, and a beacon's nominal transmission frequencies follow the documented shift-factor formula for every factor. Station records round-trip through their text form, antenna type and number are derived from the identifier in every case, and the ionosphere-free phase centre and correction are the documented linear combinations for every antenna.",
  ["inputs"], "all characters, all types, all carriers, shift factors -200..200, every identifier letter pattern, all antenna types",
  "only spot values appear in tests that are not part of the test target",
  ["src/doris_system_info.hpp", "src/doris/doris_system_info.cpp", "src/doris_observation_equations.hpp"],
  [("conversion switches", "src/doris/doris_system_info.cpp"), ("frequency formula", "src/doris/doris_system_info.cpp")], ["converted values, exceptions"])

p("D02", "Antenna phase-law look-ups interpolate the table inside and flag the outside",
  "For every antenna type, carrier and zenith angle in the tabulated range, the phase correction equals the linear interpolation of the published table (exact at every node, both ends included), it never reads outside the table, and the out-of-range indicator is set exactly when the argument is outside the table, for every type including those without a phase law.",
  ["inputs"], "every type x carrier x 0.25-degree zenith grid, all nodes and both ends with neighbours",
  "the only pcv program prints a table and is not built by the test target",
  ["src/antenna_pcv.hpp", "var/antenna/phselaw.cc"],
  [("index computation and interpolation", "src/antenna_pcv.hpp")], ["correction value, out-of-range flag"])

p("E01", "Earth-orientation tables keep their contents through any history",
  "After any sequence of construction, resizing, copying, moving and assignment, an Earth-orientation table holds exactly the rows written to it in every column, copies are independent, and nothing leaks or is read uninitialised; removing regularised zonal-tide signals changes only the documented columns.",
  ["histories"], "every operation sequence over two or three tables up to the stated depth, sizes 0..4",
  "tests only fill one table once",
  ["src/eop.hpp"], [("single-allocation column storage and ownership members", "src/eop.hpp")], ["columns read back", "heap state"])

p("E02", "C04 files are read exactly over the requested days; interpolation honours nodes",
  "Reading a C04 series for a range of days yields exactly one row per day with the file's values in documented units and time scale, or an error if a day is absent, duplicated or malformed. Interpolation returns the tabulated values at table epochs, is exact for polynomials of the documented degree, uses only the rows around the epoch, and reports epochs outside the table.",
  ["inputs"], "every file over header forms, day gaps, duplicates, order, truncation, and every requested range up to the bound; interpolation at every node, midpoint and end for every order and table size",
  "tests need an external C04 file and are not in the test target",
  ["src/iers/parse_c04.cpp", "src/iers/eop_interpolate.cpp", "src/eop.hpp"],
  [("line filter and column parsing", "src/iers/parse_c04.cpp"), ("windowed Lagrange interpolation", "src/iers/eop_interpolate.cpp")], ["table rows, interpolated record, status"])

p("F01", "Celestial and terrestrial frame conversions are mutually inverse rotations",
  "Converting any position or state from celestial to terrestrial and back returns it, lengths of positions are preserved, the velocity conversion is the time derivative of the position conversion under Earth rotation, and results do not depend on temporary storage. The rotation at an epoch is the one built from the Earth orientation parameters of that epoch, for every table and order of calls.",
  ["inputs", "histories"], "a grid of precession/nutation and polar-motion matrices, rotation angles and states; every epoch of a lattice over small tables",
  "the frame code is not built by the test target",
  ["src/itrs2gcrs.cpp", "src/orbit_integration.hpp"], [("rotation composition and Earth-rotation term", "src/itrs2gcrs.cpp")], ["positions and states"])

p("S01", "Attitude look-ups return the right quaternion for any query order",
  "For every attitude file and every order of query epochs inside it, the returned quaternion is the spherical interpolation of the two records bracketing the epoch (the record itself at a record epoch) with unit norm, and a query outside the file, or behind the records the forward-going look-up keeps, is reported as an error. A failed query does not disturb later ones.",
  ["histories", "inputs"], "every sequence of query epochs up to the stated length over small files, including comments, gaps and exact record epochs",
  "no test queries attitudes out of order",
  ["src/satellites/jason3_quaternions.cpp", "src/satellites/jason3_quaternions.hpp"],
  [("sliding record buffer", "src/satellites/jason3_quaternions.cpp")], ["quaternion, angles, status"])

p("S02", "Satellite mass and centre-of-gravity histories give the record in force",
  "For every mass-history file and epoch, the correction returned is that of the last record whose date is not after the epoch (date compared before time of day), comments and spacing notwithstanding, and the resulting mass and centre of gravity are the initial values plus it. Before the first record the initial values hold, a malformed record up to the epoch is reported as an error; phase centres and plates are the published ones.",
  ["inputs"], "every small file over record dates/times straddling the epoch in all lexicographic orders, comment and spacing forms, malformed fields at each position",
  "no test supplies such a file",
  ["src/satellites/satellite_corrections.cpp", "src/satellites/jason3.hpp", "src/satellites/cryosat2.hpp"],
  [("record scan and comparison", "src/satellites/satellite_corrections.cpp")], ["corrections, status"])

p("N01", "Site coordinate extrapolation applies each site's own solution",
  "For every SINEX solution and every request list in any order, the coordinates returned for a site are its own reference position moved along its own velocity for the elapsed years from its own reference epoch, labelled with its identifier. Missing sites are skipped or reported exactly as requested, and values are never mixed between sites.",
  ["inputs"], "every request list up to 3 sites over every subset/ordering of estimates incl. missing sites, missing components and multiple solutions",
  "the only program needs external files and is not in the test target",
  ["src/ids/get_pdop_crd.cpp", "src/doris_utils.hpp"], [("site search and extrapolation", "src/ids/get_pdop_crd.cpp")], ["result array, count, status"])

p("B01", "Space-weather records are found and decoded exactly for any window and date",
  "For every space-weather file and requested window, the records returned are those of exactly the requested consecutive days with every field decoded from its own column; a day that is absent, a gap, a malformed or foreign file yields an error. Sequential next-day retrieval gives the same as a fresh read.",
  ["inputs", "histories"], "every small file over first day, gaps, truncation at each line, malformed fields, and every window and sequence of retrievals up to the bound",
  "one program over one data file walks forward in time only, outside the test target",
  ["src/var/celestrak_swdata.cpp", "src/var/celestrak.hpp"], [("column walk and day matching", "src/var/celestrak_swdata.cpp")], ["records, file position, status"])

p("B02", "Atmosphere inputs follow the clock for any sequence of updates",
  "After any sequence of updates (forward, backward, repeated, across hours, days and years), the solar-flux and geomagnetic inputs equal those a fresh start at that epoch would give: daily values, previous-day flux, current and preceding three-hourly indices and the two eight-value averages over the documented hours. A failed update reports an error and does not corrupt later ones, and the local solar time given to the model fits the clock and the longitude of the place asked for.",
  ["histories"], "every sequence of update epochs up to the stated length from an alphabet of in-hour, cross-hour, cross-day, multi-day and out-of-file moves",
  "the feed test walks forward over one file, outside the test target, and compares nothing at history boundaries",
  ["src/atmosphere/nrlmsise00_get_flux_data.cpp", "src/atmosphere/nrlmsise00.hpp", "src/atmosphere/nrlmsise00_params.cpp"],
  [("sliding four-day buffer and hour index", "src/atmosphere/nrlmsise00_get_flux_data.cpp")], ["model inputs after each update"])

p("A01", "Atmospheric density model: pure, and equal to the published equations",
  "Density and temperature returned for given inputs do not depend on earlier evaluations, on the model instance or on stale memory, agree with the published reference cases and, for every place, time, solar input, switch setting and requested gas, with the published model equations. They are continuous across the internal layer boundaries where the published model is, and in metric mode are the same quantities in SI units.",
  ["inputs", "histories"], "every ordered sequence of evaluations up to the bound from the reference cases x altitudes, an altitude scan across every layer boundary, all masses and unit modes",
  "the reference program runs 17 cases in one fixed order on one instance and is not in the test target",
  ["src/atmosphere/nrlmsise00_gtd7.cpp", "src/atmosphere/nrlmsise00_gts7.cpp", "src/atmosphere/nrlmsise00_globe7.cpp", "src/atmosphere/nrlmsise00_glob7s.cpp", "src/atmosphere/nrlmsise00_densu.cpp", "src/atmosphere/nrlmsise00_densm.cpp", "src/atmosphere/nrlmsise00_data.cpp"],
  [("model state recomputed from inputs on every call", "src/atmosphere/nrlmsise00_gtd7.cpp")], ["densities, temperatures"])

p("A02", "Shadow, drag and radiation models respect geometry and their own partials",
  "A satellite is sunlit whenever it is on the Sun's side of the Earth, eclipsed when deep behind it, and shadow factors lie in [0,1], are rotation invariant and agree between models outside the penumbra. Drag opposes the velocity relative to the rotating atmosphere, radiation pressure points away from the Sun with inverse-square magnitude, and returned partials are the derivatives of the returned accelerations. The exponential atmosphere follows its published layer table for every altitude.",
  ["inputs"], "a grid of Sun directions and satellite positions around the shadow cone, all rotations of the grid; drag/radiation geometry grid incl. anti-parallel cases",
  "one printed eclipse scan, outside the test target",
  ["src/astrodynamics/occultation.cpp", "src/astrodynamics/drag.cpp", "src/astrodynamics/solar_radiation.cpp", "src/astrodynamics.hpp", "src/atmosphere/exponential_atmospheric_model.cpp"],
  [("shadow cone geometry", "src/astrodynamics/occultation.cpp"), ("drag and radiation formulas", "src/astrodynamics/drag.cpp")], ["shadow factor, accelerations, partials"])

p("A03", "Low-precision Sun and Moon positions agree across implementations and time",
  "For every epoch within the validity century, the alternative analytic Sun and Moon positions agree with one another within their stated accuracies, keep their distances within physical bounds and vary continuously; no result depends on earlier calls, and relativistic clock and ionospheric terms are those of the published formulas.",
  ["inputs"], "a dense epoch grid over 1950-2050 and adjacent-step continuity",
  "the reference programs need an external kernel and are not in the test target",
  ["src/planets/sunpos.cpp", "src/planets/moonpos.cpp", "src/relativity/relativistic_clock_correction.cpp", "src/planetpos.hpp"],
  [("analytic series", "src/planets/sunpos.cpp")], ["position vectors"])

p("X01", "Force-model derivatives equal the acceleration and partials of their parts",
  "For every state, epoch, satellite parameter set and transition matrix, the derivative handed to the integrator is the sum of the gravity, third-body and drag accelerations in the inertial frame, and its matrix part is the documented Jacobian of that acceleration times the transition matrix plus the parameter partials. It does not depend on earlier calls or on the build type, missing data are reported as an error in every build, and the transition matrix an integration returns is the derivative of the integrated state with respect to the initial state and parameters.",
  ["inputs", "histories"], "every orbit, epoch and transition matrix of a lattice with deviations of the parameters, every history of calls up to the stated length, integrations in both directions, all with and without assertions",
  "only programs that need external kernels and gravity models call it; partials are evaluated nowhere",
  ["src/variational_equations.cpp", "src/orbit_integration.hpp", "src/sunmoon.cpp"],
  [("accelerations and partials summed and rotated", "src/variational_equations.cpp")], ["state derivative, status"])

p("P01", "Ephemeris kernels are loaded once and recognised by their full name",
  "For every sequence of kernel load requests, a kernel is loaded exactly when it is not among the loaded ones under its own complete name, kernels of other names are not mistaken for it, and constants asked from a kernel are those of the body and item named.",
  ["histories"], "every sequence of load calls up to the stated length over kernel names extending one another or differing in case, of every kind of kernel",
  "tests need NAIF kernels and load each one once",
  ["src/planets/cspice_utils.cpp", "src/planetpos.hpp"], [("loaded-kernel lookup", "src/planets/cspice_utils.cpp")], ["list of loaded kernels, returned constants, status"])

p("L01", "Filter parameters never alias: each setter touches exactly its own parameter",
  "For every number of satellites-parameters and beacons, the state vector has exactly one slot per parameter, the slots of satellite state, drag, radiation, per-beacon frequency and zenith-delay and other parameters are disjoint and cover the vector, and setting an a-priori value or sigma, for one or for all beacons, changes exactly the corresponding slots of estimate and covariance.",
  ["configurations", "histories"], "every configuration up to 4 beacons and every setter sequence up to the bound",
  "the filter is never instantiated by a test",
  ["src/filters/filters.hpp", "src/filters/ekf.hpp"], [("index functions and strided setters", "src/filters/filters.hpp")], ["estimate vector, covariance"])

p("L02", "Sequential filter updates equal the batch solution in any order",
  "Processing any sequence of scalar observations through the filter gives the same estimate and covariance as a single weighted least-squares solution with the same prior, in whatever order the observations arrive, and the covariance stays symmetric and non-negative; a time update applies exactly the given transition and noise.",
  ["histories"], "every ordering of every observation multiset up to the bound over a small alphabet of design rows and sigmas, with interposed time updates",
  "the filter is never run by a test",
  ["src/filters/ekf.hpp", "src/filters/models.hpp"], [("Kalman gain and covariance update", "src/filters/ekf.hpp")], ["estimate and covariance"])

p("L03", "Polynomial models keep their coefficients and evaluate exactly",
  "After any sequence of construction, copying, moving, assignment, order changes and coefficient writes a polynomial model evaluates to the sum of its coefficients times powers of the argument offset from its reference, copies are independent, and no history leaks or frees twice.",
  ["histories", "inputs"], "every operation sequence over two models up to the stated depth, orders 0..3, argument grid",
  "no test instantiates the model directly",
  ["src/filters/models.hpp"], [("coefficient storage and ownership", "src/filters/models.hpp")], ["evaluated values", "heap state"])

p("W01", "A download either delivers the whole file or fails without damage",
  "Fetching a remote file returns success only when every byte received is stored in the local file; any failure of the transfer, of opening, writing or closing the local file returns an error and leaves no partial file behind. An existing local file is never touched unless overwriting was requested, and a failed overwrite does not destroy it.",
  ["fault_sequences", "histories"], "every single and double fault at each transfer/open/write/close point, every chunking up to the bound, with the target absent, present, forced or not",
  "the only test needs the network and checks nothing",
  ["src/web/http_get.cpp", "src/cweb.hpp"], [("temporary/target file handling around the transfer", "src/web/http_get.cpp")], ["status, directory contents"])

p("V01", "Flag sets behave as sets for every operation history",
  "For every sequence of set, clear, flip and query operations on a flag set or on a packed observation flag, a query reports exactly the flags set and not cleared since, operations on one flag never change another, and combining sets is a union.",
  ["histories"], "every operation sequence up to the stated depth over all flags of each set type",
  "tests try one fixed sequence of a few operations",
  ["src/enum_bitset.hpp", "var/flags.cc", "var/compound_measurement.cc"], [("bit masks", "src/enum_bitset.hpp")], ["queries"])

p("V02", "Table interpolators honour nodes, range and smoothness",
  "For every strictly increasing table and argument in range, nearest-value, linear and quadratic interpolation return the tabulated value at nodes, the documented formula between them and a status telling extrapolation apart; arguments outside the range never read outside the table.",
  ["inputs"], "every table of 2..6 nodes over small spacing patterns and every argument on a sub-node grid including both ends",
  "the shipped program is not in the test target",
  ["var/intrp.cc"], [("bracketing search and formula", "var/intrp.cc")], ["value and status"])

p("T01", "Beacon height tables yield exactly the records in force at an epoch",
  "For every beacon table file and epoch, the loaded list holds exactly the records whose validity interval (start included, end excluded) holds the epoch, in file order, each with its own identifier, height and interval. A malformed record raises an error, and the outcome does not depend on errors that occurred earlier in the process.",
  ["inputs"], "every small table over interval adjacency/overlap patterns and epochs on/around every bound, malformed fields at each position, clean and dirty error state before the call",
  "no test reads a beacon table",
  ["src/beacon_tbl/beacon_tbl.cpp", "src/beacon_tbl.hpp"], [("record parsing and interval filter", "src/beacon_tbl/beacon_tbl.cpp")], ["loaded list, exceptions"])

p("Y01", "Site logs become height-table rows exactly, or the dump fails",
  "For every site log, asking for a block returns exactly the fields of each of that block's sub-blocks, whatever blocks precede or follow it, end it or are absent, and in whatever order blocks are asked for. The height table made of one log or of a directory of logs holds one row per antenna of every log with its identifier, installation interval (open intervals end at the end of time) and exact height in metres; a missing or unreadable field raises an error and never a wrong height.",
  ["inputs", "histories"], "every log of up to the stated number of antennas over written forms of heights and dates, field orders, omissions, neighbouring blocks, ends of file; every sequence of block requests; every small directory",
  "the scripts have no tests",
  ["script/pydoris/pydoris/log/ids_log_parser.py", "script/ids_logs2station_info.py"], [("block search and field parsing", "script/pydoris/pydoris/log/ids_log_parser.py")], ["returned dictionaries", "table rows", "exceptions and exit status"])

p("Y02", "Fetched Earth-orientation and space weather files are whole, or fetching fails",
  "For every date and window the fetched Earth-orientation file holds every day of the window exactly once, in order, with the values the monthly bulletins give, whichever bulletins it takes and in whatever order they are merged; the program ends, and fails when the server lacks a day or a bulletin is damaged. The space weather fetcher delivers the bytes received to the requested place, or fails leaving what was there.",
  ["inputs", "fault_sequences"], "every day of several years, every window half-width of a list, archives ending around the window, every merge order, every damage at marked rows, every answer of the server",
  "the scripts have no tests; which dates fail depends on the bulletins' edges",
  ["script/fetch_iers_c04.py", "script/fetch_celestrak_space_weather_data_csv.py"], [("bulletin search and merge", "script/fetch_iers_c04.py")], ["merged file", "downloaded file", "exit status, requests made"])

p("Y03", "Gravity files converted from Fortran notation describe the same model",
  "For every gravity-model file the converter writes the header as it was and every data record with the same words and exactly the same numbers, in a notation a C program reads, line by line. A file that has no end of header, or is missing, makes it fail; it always ends.",
  ["inputs"], "every pair of number forms in every kind of record, every small header and line structure, every byte prefix",
  "the script has no tests",
  ["script/gfc_fortran2c.py"], [("number rewriting", "script/gfc_fortran2c.py")], ["output text", "exit status"])

p("C01", "Configuration values are the ones the file states, or an error is returned",
  "For every configuration file and every two- or three-level path, the look-ups return success exactly when the file holds a value of the requested type there, and then that value, complete. Anything else, at any level up to the document itself, gives a non-zero status; no look-up ends the program or changes what a later one finds.",
  ["inputs"], "every document in the bounded grammar with every replaced entry, every path and value form, every history of look-ups",
  "no test reads a configuration",
  ["src/var_utils.hpp", "src/var/yaml_utils.cpp"], [("look-ups", "src/var_utils.hpp"), ("text values", "src/var/yaml_utils.cpp")], ["status", "value"])

if __name__ == "__main__":
    import sys
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    import specs
    P = [x for x in P if x["id"] in specs.SPECS or x["id"] in specs.NOT_APPLICABLE]
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P: f.write(json.dumps(x) + "\n")
    import re
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        n = len(re.findall(r"\.(\s|$)", x["statement"]))
        assert n <= 3, (x["id"], n)
    print(len(P), "properties")

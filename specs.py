VARG = dict(isolate=True, inc=["var/icgem/src"], flags=["-Ddso=dso_var", "-DVAR_COPY"])
SPECS = {
 "G01": dict(units=[dict(harness=["harness/G01.cpp"], src=["src/gravity/harmonic_coeffs.cpp"]),
                    dict(harness=["harness/G01.cpp"], src=["var/icgem/src/harmonic_coeffs.cpp"], **VARG)]),
 "G02": dict(units=[dict(harness=["harness/G02.cpp"], src=["src/gravity/harmonic_coeffs.cpp"]),
                    dict(harness=["harness/G02.cpp"], src=["var/icgem/src/harmonic_coeffs.cpp"], **VARG)]),
 "G03": dict(units=[dict(harness=["harness/G03.cpp"], src=["src/gravity/*.cpp"], flags=["-DDEBUG"]),
                    dict(harness=["harness/G03.cpp"], src=["var/icgem/src/*.cpp"], isolate=True, inc=["var/icgem/src"], flags=["-Ddso=dso_var", "-DVAR_COPY", "-DDEBUG"])]),
 "G04": dict(units=[dict(harness=["harness/G04.cpp"], src=["src/gravity/*.cpp"]),
                    dict(harness=["harness/G04.cpp"], src=["var/icgem/src/*.cpp"], **VARG)]),
 "V01": dict(units=[dict(harness=["harness/V01.cpp"], flags=["-fpermissive"])]),
 "V02": dict(units=[dict(harness=["harness/V02.cpp"])]),
 "W01": dict(units=[dict(harness=["harness/W01.cpp"], src=["src/web/*.cpp"])]),
 "M01": dict(units=[dict(harness=["harness/M01.cpp"])]),
 "E01": dict(units=[dict(harness=["harness/E01.cpp"], src=["src/iers/*.cpp"])]),
 "E02": dict(units=[dict(harness=["harness/E02.cpp"], src=["src/iers/*.cpp"])]),
 "D01": dict(units=[dict(harness=["harness/D01.cpp"], src=["src/doris/doris_system_info.cpp"])]),
 "D02": dict(units=[dict(harness=["harness/D02.cpp"])]),
 "B01": dict(units=[dict(harness=["harness/B01.cpp"], src=["src/var/celestrak_swdata.cpp"])]),
 "B02": dict(units=[dict(harness=["harness/B02.cpp"], src=["src/var/celestrak_swdata.cpp", "src/atmosphere/nrlmsise00_get_flux_data.cpp", "src/atmosphere/nrlmsise00_params.cpp"])]),
 "R01": dict(units=[dict(harness=["harness/R01.cpp"], src=["src/rinex/*.cpp", "src/doris/*.cpp"])]),
 "R02": dict(units=[dict(harness=["harness/R02.cpp"], src=["src/rinex/*.cpp", "src/doris/*.cpp"])]),
 "R03": dict(units=[dict(harness=["harness/R03.cpp"], src=["src/rinex/*.cpp", "src/doris/*.cpp"])]),
 "R04": dict(units=[dict(harness=["harness/R04.cpp"], src=["src/rinex/*.cpp", "src/doris/*.cpp"])]),
 "R05": dict(units=[dict(harness=["harness/R05.cpp"], src=["src/rinex/*.cpp", "src/doris/*.cpp"])]),
 "S01": dict(units=[dict(harness=["harness/S01.cpp"], src=["src/satellites/*.cpp"])]),
 "S02": dict(units=[dict(harness=["harness/S02.cpp"], src=["src/satellites/*.cpp"])]),
 "N01": dict(units=[dict(harness=["harness/N01.cpp"], src=["src/ids/get_pdop_crd.cpp", "src/doris/doris_system_info.cpp"])]),
 "K01": dict(units=[dict(harness=["harness/K01.cpp"], src=["src/astrodynamics/*.cpp"])]),
 "K02": dict(units=[dict(harness=["harness/K02.cpp"], src=["src/astrodynamics/*.cpp"])]),
 "K03": dict(units=[dict(harness=["harness/K03.cpp"], src=["src/astrodynamics/*.cpp"])]),
 "G05": dict(units=[dict(harness=["harness/G05.cpp"], src=["src/gravity/*.cpp"]),
                    dict(harness=["harness/G05.cpp"], src=["src/gravity/*.cpp"], isolate=True, flags=["-DNDEBUG", "-Ddso=dso_rel"]),
                    dict(harness=["harness/G05.cpp"], src=["var/icgem/src/harmonic_coeffs.cpp", "var/icgem/src/lagrange_poly.cpp", "var/icgem/src/gravity_acceleration.cpp"], **VARG)]),
 "G06": dict(units=[dict(harness=["harness/G06.cpp"], src=["src/gravity/point_mass_acceleration.cpp", "src/sunmoon.cpp", "src/planets/cspice_utils.cpp"], flags=["-DNEW_EOP"]),
                    dict(harness=["harness/G06.cpp"], src=[], **VARG)]),
 "P01": dict(units=[dict(harness=["harness/P01.cpp"], src=["src/planets/cspice_utils.cpp"])]),
 "F01": dict(units=[dict(harness=["harness/F01.cpp"], src=["src/itrs2gcrs.cpp", "src/iers/*.cpp"], flags=["-DNEW_EOP"])]),
 "A02": dict(units=[dict(harness=["harness/A02.cpp"], src=["src/astrodynamics/drag.cpp", "src/astrodynamics/solar_radiation.cpp", "src/astrodynamics/occultation.cpp", "src/atmosphere/exponential_atmospheric_model.cpp"])]),
 "A01": dict(units=[dict(harness=["harness/A01.cpp"], src=["src/atmosphere/nrlmsise*.cpp", "src/var/celestrak_swdata.cpp"])]),
 "A03": dict(units=[dict(harness=["harness/A03.cpp"], src=["src/planets/sunpos.cpp", "src/planets/moonpos.cpp", "src/relativity/*.cpp"]),
                    dict(harness=["harness/A03.cpp"], src=["src/planets/sunpos.cpp", "src/planets/moonpos.cpp"], isolate=True, flags=["-DDEBUG", "-Ddso=dso_debug"])]),
 "X01": dict(units=[dict(harness=["harness/X01.cpp"], src=["src/variational_equations.cpp", "src/itrs2gcrs.cpp", "src/sunmoon.cpp", "src/iers/*.cpp", "src/planets/cspice_utils.cpp", "src/gravity/*.cpp", "src/astrodynamics/drag.cpp", "src/atmosphere/nrlmsise*.cpp", "src/var/celestrak_swdata.cpp", "src/satellites/*.cpp", "src/integrators/*.cpp"], flags=["-DNEW_EOP"]),
                    dict(harness=["harness/X01.cpp"], src=["src/variational_equations.cpp", "src/itrs2gcrs.cpp", "src/sunmoon.cpp", "src/iers/*.cpp", "src/planets/cspice_utils.cpp", "src/gravity/*.cpp", "src/astrodynamics/drag.cpp", "src/atmosphere/nrlmsise*.cpp", "src/var/celestrak_swdata.cpp", "src/satellites/*.cpp", "src/integrators/*.cpp"], isolate=True, flags=["-DNEW_EOP", "-DNDEBUG", "-Ddso=dso_rel"])]),
 "T01": dict(units=[dict(harness=["harness/T01.cpp"], src=["src/beacon_tbl/*.cpp"])]),
 "L01": dict(units=[dict(harness=["harness/L01.cpp"])]),
 "L02": dict(units=[dict(harness=["harness/L02.cpp"])]),
 "L03": dict(units=[dict(harness=["harness/L03.cpp"])]),
 "I03": dict(units=[dict(harness=["harness/I03.cpp"], src=["var/ode_solvers/rkf45*.cpp"], inc=["var/ode_solvers"])]),
 "I01": dict(units=[dict(harness=["harness/I01.cpp"], src=["src/integrators/*.cpp"], flags=["-DNEW_EOP"]),
                    dict(harness=["harness/I01.cpp"], src=["var/ode_solvers/sgode*.cpp"], isolate=True, inc=["var/ode_solvers"], flags=["-Ddso=dso_var", "-DVAR_COPY"])]),
 "I02": dict(units=[dict(harness=["harness/I02.cpp"], src=["src/integrators/*.cpp"], flags=["-DNEW_EOP"]),
                    dict(harness=["harness/I02.cpp"], src=["var/ode_solvers/sgode*.cpp"], isolate=True, inc=["var/ode_solvers"], flags=["-Ddso=dso_var", "-DVAR_COPY"])]),
}

SPECS["C01"] = dict(units=[dict(harness=["harness/C01.cpp"], src=["src/var/*.cpp"])], ld=["-lyaml-cpp"])
# checks of the Python tools: explorer and harnesses in py/
for _i in ("Y01", "Y02", "Y03"): SPECS[_i] = dict(cmd="py/run.py")

MC, EX, FE = "model_checking", "exploration", "fault_enumeration"
SL = "bounded exhaustive exploration of operation histories on the real code against a reference model"
INFO = {
 "G01": (MC, SL, "Every history within the stated depth is executed on the real classes (src/ and var/icgem copies) under AddressSanitizer/UBSan; nothing is claimed for longer histories or larger alphabets."),
 "M01": (MC, SL, "Every history within the stated depth and every shape within the bound is executed on the real template under AddressSanitizer/UBSan."),
 "G02": (MC, "exhaustive enumeration of degree/order/cut-off/history choices executed on the real code, against an exact closed-form reference", "Every (degree, order, requested order, call history) within the bound is executed on both copies; the reference factor is computed in long double with logarithms avoided."),
 "G03": (MC, "exhaustive enumeration of bounded header texts (all record orders and all combinations of up to the stated number of deviations) parsed by the real code, against a generator that knows the answer", "Header files are generated from choices and parsed by the real reader of both copies under AddressSanitizer/UBSan; nothing is claimed beyond the alphabet. Free text whose first word is exactly a keyword is excluded, since the format itself cannot tell it from a record."),
 "G04": (MC, "exhaustive enumeration of bounded data sections (record orders, formats, damages, truncation points) loaded by the real code, against a generator that knows the answer", "Every data section within the alphabet and deviation bound is loaded by the real reader of both copies under AddressSanitizer/UBSan. A coefficient cut in the middle of its digits is indistinguishable from a shorter number and is excluded."),
 "V01": (MC, SL, "All states and all single operations of the event flag, and every history within the depth for the others, are executed on the real code."),
 "V02": (MC, "exhaustive enumeration of bounded tables and arguments on the real code, against an independent formula", "Every table and argument within the bound is executed on the real code under AddressSanitizer."),
 "W01": (FE, "exhaustive fault enumeration: every combination of up to the stated number of transport and storage faults, at every point, on the real code", "The real http_get runs against a stand-in for libcurl whose every answer is enumerated and against real operating-system limits; the directory is compared before and after every call."),

 "I01": (MC, SL, "Every drive sequence within the depth runs on the real integrators (both copies) and is judged against exact solutions with an error bound that follows the problem's own error growth; the bound is a multiple of the tolerance, so a loss of accuracy of less than an order of magnitude passes."),
 "I02": (FE, "exhaustive enumeration of call sequences with misuse, unreachable tolerances and exhaustion at every position, on the real code", "Every call sequence within the depth runs on both copies of the multistep integrator; each status, epoch and state is checked. The Runge-Kutta solver's statuses are covered by I03."),
 "I03": (MC, SL, "Every (dimension, fast component, magnitudes, tolerance, target sequence) within the bound runs on the real solver under AddressSanitizer against the exact solution."),
 "L01": (MC, SL, "Every configuration and every setter sequence within the depth runs on the real filter classes; every slot is compared after every operation."),
 "L02": (MC, SL, "Every observation/time-update sequence within the bound runs on the real filter and is compared with an extended-precision least-squares solution; nothing is claimed for ill-conditioned systems beyond the alphabet."),
 "L03": (MC, SL, "Every history within the depth is executed on the real class template under AddressSanitizer, with an exact heap balance."),
 "E01": (MC, SL, "Every history within the depth runs on the real class under AddressSanitizer with an exact heap balance; the zonal-tide model is a stand-in."),
 "E02": (MC, "exhaustive enumeration of bounded files, requested ranges, tables, orders and epochs on the real code, against a generator that knows the answer", "Every file and range within the alphabet is read by the real parser; interpolation runs the real table code over a stand-in for the external Lagrange routine."),
 "T01": (MC, "exhaustive enumeration of bounded tables, damages, epochs and prior error states on the real code, against a generator that knows the answer", "Every table within the alphabet and deviation bound is read by the real reader under AddressSanitizer/UBSan."),
 "D01": (MC, "exhaustive enumeration of codes, carriers, factors and bounded station records on the real code, against an independent statement of the format", "Codes and carriers are covered completely; records over the stated alphabet and deviation bound under AddressSanitizer/UBSan."),
 "D02": (MC, "exhaustive enumeration of antenna types, carriers, table nodes with their floating-point neighbours and a fine grid between them on the real code, against the published tables", "Every node and interval of every table of both copies is covered; between nodes a fine grid."),
 "B01": (MC, "exhaustive enumeration of bounded files, damages, windows and read sequences on the real code, against a generator that knows the answer", "Every file, window and retrieval sequence within the alphabet and deviation bound is read by the real parser under AddressSanitizer/UBSan."),
 "B02": (MC, SL, "Every update sequence within the depth runs on the real feed over real files and is compared with indices counted backwards from the epoch."),
 "R01": (MC, "exhaustive enumeration of bounded header texts (contents, layouts, damages, byte prefixes) parsed by the real code, against a generator that knows the answer", "Every header within the alphabet and deviation bound is parsed by the real reader under AddressSanitizer/UBSan."),
 "R02": (MC, "exhaustive enumeration of bounded data sections, damages, byte prefixes and reader interleavings on the real code, against a generator that knows the answer", "Every file, interleaving and prefix within the alphabet and deviation bound is read by the real iterator under AddressSanitizer/UBSan."),
 "R03": (MC, "exhaustive enumeration of station lists, observable lists, keys and epoch/offset combinations on the real code, against exact integer arithmetic", "Every combination within the stated alphabets is executed on the real code."),
 "R04": (MC, "exhaustive enumeration of bounded files, damages, averaging lengths and windows fitted by the real code, against the polynomial that generated them", "Every file within the alphabet and deviation bound is fitted by the real code under AddressSanitizer; noise-free data only."),
 "R05": (MC, SL, "Every file within the bound is differenced by the real code under AddressSanitizer and compared line by line."),
 "S01": (MC, "exhaustive enumeration of query sequences, reader interleavings and bounded files on the real code, against an independent spherical interpolation", "Every query sequence and file within the bound is executed on the real code under AddressSanitizer."),
 "S02": (MC, "exhaustive enumeration of bounded histories, damages and query epochs on the real code, against a generator that knows the answer", "Every history within the alphabet and deviation bound is queried at every epoch class on the real code under AddressSanitizer."),
 "N01": (MC, "exhaustive enumeration of request lists, solutions, orders, damages and epochs on the real code, against the solution the file was made from", "Every combination within the alphabet and deviation bound runs on the real code under AddressSanitizer; the SINEX reader itself is outside the repository and replaced by an in-memory stand-in."),
 "K01": (MC, "exhaustive enumeration of a bounded orbit lattice through every conversion on the real code, against extended-precision two-body formulas", "Every orbit of the lattice runs through every conversion of the real code; nothing is claimed between lattice points or beyond eccentricity 0.95."),
 "K02": (MC, "exhaustive enumeration of a bounded (eccentricity, mean anomaly, tolerance) lattice on the real solvers, against an extended-precision root", "Every lattice point is solved by both real solvers; nothing is claimed between lattice points."),
 "K03": (MC, SL, "Every sequence of time steps within the depth from every orbit of the lattice runs on the real code; derivatives are compared with extended-precision differences of the exact solution."),
 "G05": (MC, "exhaustive enumeration of cut-offs, coefficients, call forms and work-array histories on the real code, against closed-form harmonics differentiated in extended precision", "Every combination within the bound runs on both copies (and on src/ compiled without assertions) under AddressSanitizer; directions and distances are a fixed lattice that includes the axes."),
 "G06": (MC, "exhaustive enumeration of geometries and call sequences on the real code, against the formula in extended precision", "Every geometry of the lattice and every call sequence within the depth runs on the real code; the ephemeris is a stand-in with known motion."),
 "P01": (MC, SL, "Every sequence of load calls within the depth runs on the real code; the ephemeris library's kernel list is a stand-in that follows its documentation."),
 "F01": (MC, SL, "Every conversion sequence within the depth, and every epoch of the lattice, runs on the real code; matrices are rebuilt in extended precision from the same table values."),
 "A02": (MC, "exhaustive enumeration of geometries and parameters on the real code, against the formulas in extended precision", "Every combination of the lattice runs on the real code under AddressSanitizer."),
 "A01": (MC, SL, "Every combination and call history within the alphabet and deviation bound runs on the real code; the model equations are evaluated independently in extended precision with a copy of the published tables."),
 "X01": (MC, SL, "Every combination and call history within the alphabet and deviation bound runs on the real code; derivatives are checked by differences of the code's own acceleration and by composing its parts."),
 "A03": (MC, "exhaustive enumeration of epochs, geometries and call sequences on the real code, against the formulas in extended precision", "Every epoch of the grid and every call sequence within the depth runs on the real code; the published series are evaluated independently."),
 "C01": (MC, "exhaustive enumeration of bounded configuration documents, paths, value forms and look-up histories on the real code, against the document tree the file was written from", "Every document within the alphabet and deviation bound is loaded with the installed yaml-cpp and read by the real code under AddressSanitizer."),
 "Y01": (MC, "exhaustive enumeration of bounded site logs, block requests and log directories on the real scripts, against a generator that knows the answer", "Every log within the alphabet and deviation bound is read by the real parser and script; nothing is claimed beyond the alphabet."),
 "Y02": (MC, "exhaustive enumeration of dates, windows, archives, merge orders, damages and server answers on the real scripts, against a generator that knows the answer", "Every date, window and archive within the bound runs through the real programs; the requests library is a stand-in."),
 "Y03": (MC, "exhaustive enumeration of number forms, file structures and byte prefixes on the real script, against the value of every token", "Every file within the alphabet and deviation bound runs through the real program."),
}
NOT_APPLICABLE = {}

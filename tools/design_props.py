# property -> (oracle, cost of the quick tier, why this reaches what tests cannot)
HIST = "a defect here needs a particular history (order of operations, state left by an earlier one); the tests build each object once and never reuse it"
ORACLE = {
"G01": ("map (degree, order, kind) -> last value written, compared after every operation; distinct addresses; exact heap balance", "2 s", HIST),
"G02": ("sqrt((2-d0m)(2n+1)(n-m)!/(n+m)!) by product in extended precision, relative 1e-13", "1 s", "errors appear only above degree 85, at order limits or on the second call"),
"G03": ("the generator's own record values", "1 s", "the tests need model files that are not in the repository; damages and orders multiply far beyond a handful of files"),
"G04": ("the generator's coefficient table restricted to the requested degree/order; a damaged required record must give an error", "19 s", "which record is missing, repeated or malformed, and where the file ends, decides the outcome"),
"M01": ("array of last-written values per object; heap balance; every legal cell of every shape has its own address", "1 s", HIST),
"I01": ("exact solutions; limit 100 x condition x tolerance x (length + calls); twin runs bit-identical; two integrators interleaved equal each alone", "72 s", "the continuation state machine is entered only by unusual sequences of targets (back, tiny, exact stop, restart)"),
"I02": ("documented status per call; state and epoch consistent after a refusal; a corrected call succeeds; step horizon for non-termination", "25 s", "misuse combined with earlier good calls"),
"I03": ("exact solutions with the same error model; AddressSanitizer; twin runs", "18 s", "the only example integrates one small system"),
"R01": ("the generator's header values", "8 s", "record order, optional records, damage position and left-over process state all matter"),
"R02": ("the generator's blocks, value by value with flags; damages must surface as error or end of data", "203 s", "carry-over defects need a short line after a long one, or two readers at once"),
"R03": ("linear search and exact integer nanosecond arithmetic written independently", "1 s", "prefix-sharing identifiers and decimals lost by truncation are not in any sample"),
"D01": ("tables and formulas of the DORIS RINEX format written out independently", "28 s", "complete over characters and factors"),
"D02": ("linear interpolation of the published table, 1e-12; out-of-range flag from comparison with the table's ends", "<1 s", "ends, nodes and neighbours"),
"E01": ("copy of every cell per object; heap balance", "7 s", HIST),
"E02": ("the generator's rows; exact polynomial values for interpolation; poisoned rows outside the window must not matter", "39 s", "damage position relative to the range"),
"T01": ("the generator's list filtered by the half-open interval in integer nanoseconds", "23 s", "bounds to one nanosecond; left-over errno"),
"B01": ("the generator's rows", "49 s", "windows cut by the end of the file; every column damage"),
"B02": ("indices counted backwards from the epoch in the same file", "46 s", HIST),
"L01": ("per-slot reference vector and covariance diagonal", "27 s", "aliasing shows only for some beacon counts and setter orders"),
"L02": ("extended-precision normal equations", "15 s (+39 s compile)", "order of observations"),
"L03": ("coefficient array per object evaluated in extended precision; heap balance", "1 s", HIST),
"W01": ("directory snapshot before and after; success iff every byte is stored", "6 s", "faults cannot be provoked by tests without a fault injector"),
"V01": ("std::set of events", "4 s", "all 4096 states"),
"V02": ("independent formula, exact at nodes", "0.5 s", "end nodes, neighbours of nodes"),
"R04": ("the generating polynomial itself, evaluated at every block's epoch; number of usable averages decides between success and error", "120 s", "which block lacks the value, where windows and files end and how many values remain for the last average are combinations no sample file has"),
"R05": ("differences recomputed from the generated values, line by line", "57 s", "beacons come and go between blocks; values are missing in particular places"),
"S01": ("spherical interpolation in extended precision of the two generated records around the epoch", "35 s", HIST),
"S02": ("the last generated record not after the epoch, compared as (day, nanosecond)", "32 s", "the order of times of day against days, and the place of a damage relative to the epoch"),
"N01": ("the generated solution of each site moved along its velocity, per request entry", "40 s", "order and completeness of the estimates against order and repetition of the requests"),
"K01": ("two-body formulas in extended precision on the state itself; where an angle is undefined, the state rebuilt from the elements", "21 s", "quadrant boundaries and singular orbits; the tests are not in the test target"),
"K02": ("root of Kepler's equation by bisection in extended precision", "2 s", "non-convergence appears for isolated combinations of eccentricity and anomaly"),
"K03": ("exact two-body solution at the accumulated time; differences of it in extended precision", "30 s", "sequences of forward and backward steps"),
"G05": ("closed form of each solid harmonic and its derivatives in extended precision", "45 s", "each coefficient, cut-off and work-array history separately: sums over a full field hide single wrong terms"),
"G06": ("difference of two attractions, and its Jacobian, in extended precision", "2 s", "cancellation and units per body; partials are evaluated nowhere"),
"P01": ("set of full names loaded so far", "10 s", HIST),
"F01": ("rotation matrices rebuilt in extended precision from the generated orientation parameters", "50 s", "temporary storage, table edges and sequences of conversions"),
"A01": ("the published equations evaluated independently in extended precision; the published cases", "45 s", "histories over instances, gas limits, layer edges and switches multiply beyond any list of cases"),
"A03": ("the published series and formulas in extended precision; one implementation against the other", "60 s", "a wrong rate shows only years away from the reference epoch"),
"X01": ("composition of the parts, differences of the acceleration, differences of integrated orbits", "65 s", "wrong rotations and histories cancel in sums; partials are evaluated nowhere"),
"Y01": ("the generated fields of each sub-block; heights as decimal numbers", "20 s", "last blocks, missing fields and unusual heights appear in single logs among hundreds"),
"Y02": ("values known per day; directory and requests recorded", "25 s", "only windows that touch a bulletin's first or last day fail"),
"Y03": ("each token's own value", "20 s", "combinations of number forms"),
"C01": ("the document the file was written from", "20 s", "missing and mistyped keys, documents of another shape"),
"A02": ("differences in extended precision; cone geometry; the published table", "12 s", "terminator, shadow axis and penumbra edge; partials evaluated nowhere"),
}
FALSE = [
 "A03: Montenbruck's Sun keeps the perihelion fixed (0.32 deg per century); the accuracy demanded of it allows for that.",
 "A01: the published model itself jumps at 72.5 km and 123.435 km and gives negative anomalous oxygen and NaN at extreme geomagnetic input; agreement with the published equations is what is checked there, and positivity was taken out of the property.",
 "X01: the parameter column of an integrated transition matrix is not smooth where the orbit crosses the atmosphere model's gas limits; the tolerance there allows for it.",
 "R04: a last line cut inside its values is a line with trimmed blanks for the format (values missing), not damage; outliers are not detected by the code and were taken out of the property.",
 "S01: solar-panel angles have no reader in the repository and were taken out of the property; going back behind the buffered records may be refused, as the look-up is documented to go forward.",
 "S02: before the first record the initial values hold (correction zero), which is what the files mean; a missing seconds column in the record that ends the scan cannot always be told.",
]

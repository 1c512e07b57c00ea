"""the property list (properties.jsonl) and what is claimed (MANIFEST.json)"""
PROPS = []; CLAIMS = {}; NA = {}
TECH = "contracts + VC generation from the clang IR of /repo's source, discharged by z3/cvc5 and complete residue case splits"


def P(id, title, statement, qtext, why, files, mech, over=("inputs",), observe=None, claim=None, na=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    PROPS.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": list(over), "text": qtext},
                  "why_tests_cant": why, "anchors": a})
    if claim: CLAIMS[id] = (claim[2] if len(claim) > 2 else TECH, claim[0], claim[1])
    else: NA[id] = na or "no check built yet"


P("C01", "Calendar conversions round-trip for every day and every date",
  "For each supported calendar, converting a day number to a date gives a valid date (the day lies between 1 and the length of that month in that year) and converting that date back gives the same day number; converting any valid date to a day number and back gives the same date. Consecutive years abut with no gap or overlap, month lengths add up to the length of the year, and the conversion always terminates. Where a calendar has data only for some years, days outside them are reported as unconvertible rather than given a wrong date.",
  "all day numbers within +-2*10^9 and all valid dates in years up to +-5.8 million, in nine calendars",
  "Each calendar has exceptional years (postponements, intercalary months, table edges, negative years) spread over millions of years; the tests sample a few hundred modern dates.",
  ["date.cpp", "date.h", "chinese.h"], [("day_to_dmy / dmy_to_day", "date.cpp"), ("year data of each calendar", "date.cpp get_*_year_data"), ("year estimate", "date.cpp approx_year")],
  claim=("proof", "every obligation discharged for all days/dates in the stated ranges; 'long' taken as 64 bits"))
P("C02", "Every calendar follows its own published rule",
  "Year starts, leap years and month lengths agree with the definition of the calendar: Gregorian and Julian leap rules, the tabular Islamic 30-year cycle, the Hebrew molad and the four postponements, the French Revolutionary and Persian arithmetic or break tables, the 2820-year modern Persian cycle, and the published Chinese month table, with the mixed Julian/Gregorian calendar changing over on 4/15 October 1582. The day number and the date returned for any input are those the rule gives.",
  "all years up to +-5.8 million (Chinese and Persian: the range of their tables)",
  "An error in a leap rule or postponement shows only in particular years, some once in tens of thousands of years, and is self-consistent in a round-trip test.",
  ["date.cpp", "chinese.h"], [("get_calendar_data", "date.cpp"), ("find_tishri_1, dehiyyot", "date.cpp"), ("Chinese month table", "chinese.h")],
  claim=("proof", "proved equal to independently written closed-form rules; the Chinese table is compared with a committed reference copy"))
P("C03", "Easter dates follow the ecclesiastical rules in every year",
  "The Gregorian Easter date for every year from 1583 and the Julian Easter date for every year from 1 is the first Sunday strictly after the paschal full moon of the corresponding church calendar. It always falls between 22 March and 25 April.",
  "all years from 1583 (Gregorian) or 1 (Julian) to 10^9",
  "The Gregorian cycle is 5,700,000 years long and its exceptional epacts are rare; tests look at counts over a cycle and at single years, and not at all at the Julian function.",
  ["easter.cpp"], [("easter_date", "easter.cpp"), ("easter_date_julian", "easter.cpp")],
  claim=("proof", "complete: all residues of the 5,700,000 (532) year cycle, quotient eliminated symbolically"))
P("C05", "Base-62 ('mutant hex') numbers encode and decode exactly",
  "A character stands for a value 0 to 61 exactly when it is one of 0-9, A-Z, a-z, and the two digit functions are inverse to each other; every other character or value is reported as invalid (-1, or NUL). Decoding an n-character field gives its positional base-62 value, or -1 if any character is not a digit; encoding a value writes exactly its n base-62 digits, nothing outside the field, and reports a non-zero excess exactly when the value does not fit.",
  "all characters, all int values, all fields of up to five digits",
  "Two thousand million values and every malformed field; tests try a handful of designations.",
  ["unpack.cpp", "mpc_func.h"], [("mutant_hex_char_to_int / int_to_mutant_hex_char", "unpack.cpp"), ("get_mutant_hex_value / encode_value_in_mutant_hex", "unpack.cpp")],
  claim=("proof", "every obligation discharged for all inputs"))
P("C06", "MPC packed designations follow the published scheme and read back unchanged",
  "For every designation the Minor Planet Center's scheme covers - numbered minor planets up to 15396335, provisional designations including the extended form above number 619, survey designations, provisional and numbered comets with fragments, numbered and provisional natural satellites, and artificial satellites - create_mpc_packed_desig() succeeds and yields the twelve published characters, and unpack_mpc_desig() turns these characters back into the same designation and reports the right kind of object. No buffer is overrun.",
  "all numbers, years, half-month and order letters, order numbers, fragments and planets of each family",
  "Hundreds of millions of designations with exceptions at digit-count, letter-skip and range boundaries; test_des.txt lists a few dozen.",
  ["mpc_fmt.cpp", "unpack.cpp", "mpc_func.h"], [("create_mpc_packed_desig", "mpc_fmt.cpp"), ("unpack_mpc_desig", "unpack.cpp"), ("extended numbering", "unpack.cpp unpack_provisional_packed_desig")],
  claim=("proof", "byte-for-byte postconditions of both functions for every family; satellites' Roman numerals by complete symbolic execution of all 999 x 8 cases"))
P("C07", "Variable-star designations number and read back in Argelander's order",
  "For every variable number, make_var_desig() writes the star's name in Argelander's order (R to Z, RR to ZZ, AA to QZ without the letter J, then V335, V336 ...), and decipher_var_desig() returns that number for that name in either case, and -1 for every letter pair that is not such a name. A name that ends early, or is empty, is never read past its end.",
  "variable numbers 1 to 9999 and all one-, two- and three-or-more-character designations",
  "The numbering has three unequal triangular blocks and a skipped letter; nothing in the tests covers it.",
  ["miscell.cpp"], [("make_var_desig", "miscell.cpp"), ("decipher_var_desig", "miscell.cpp")],
  claim=("proof", "postconditions of both functions against the enumerated naming scheme; every obligation discharged for all inputs"))
P("C10", "Rotations and precession are proper rotations, and mutually inverse",
  "Every matrix the library builds for precession, with or without nutation, and for galactic and supergalactic coordinates is a right-handed orthonormal rotation; it equals the product of the published rotations (Lieske's angles, Laskar's obliquity). Precessing from A to B and from B to A are inverse, precession through J2000 is consistent between any two years, and no result depends on which calls came before it in spite of the cached values. Rotating or precessing a vector, its inverse, and the equatorial/ecliptic conversions do exactly what the rotation says, also when input and output are the same array, and precess_ra_dec() returns the turned direction with a right ascension within half a turn of the one given.",
  "all years, matrices, vectors, angles and sequences of calls",
  "Wrong terms are tiny near 2000 where the tests look, an inverse or in-place call is rarely exercised, and a stale cache needs a particular order of calls.",
  ["precess.cpp", "miscell.cpp", "obliquit.cpp", "alt_az.cpp"], [("setup_precession, setup_ecliptic_precession and their cache", "precess.cpp"), ("rotate_vector, spin_matrix, invert_orthonormal_matrix", "miscell.cpp"), ("mean_obliquity and its cache", "obliquit.cpp"), ("precess_ra_dec", "precess.cpp"), ("galactic matrices", "alt_az.cpp")],
  over=("inputs", "histories"), claim=("proof", "floating point taken as real arithmetic; identities decided by polynomial normal form and z3", "contracts + VC generation from the clang IR of /repo's source, discharged by polynomial normal form over the reals and z3/cvc5"))
P("C04", "TD-UTC and Delta-T follow the published tables at every date",
  "Dynamical minus Universal time is UT's Delta-T before 1961, the thirteen published linear relations of UTC from 1961 to 1971, and 32.184 s plus a whole number of seconds afterwards: the number of leap seconds announced by the IERS up to 2021, and from then on the whole number that keeps UTC within half a second of UT in the middle of the half-year, the same for every day of a half-year, with no leap second after the configured last date. Delta-T itself follows the Espenak-Meeus polynomials before 1620, interpolates the two-yearly table without a jump until 2024 and continues its last slope with 32.5 s per century squared. TDB-TDT is the published series and TDB-UTC the sum of both in seconds.",
  "all dates within 2*10^9 days and all settings of the last date of predicted leap seconds",
  "Each of 41 steps, 206 interval boundaries and the first and last day of every half-year is its own case; tests look at a few dates.",
  ["delta_t.cpp", "mjd_defs.h", "eop_prec.cpp"], [("td_minus_utc", "delta_t.cpp"), ("default_td_minus_ut, evaluate_delta_t_string", "delta_t.cpp"), ("td_minus_ut", "delta_t.cpp"), ("tdb_minus_tdt, tdb_minus_utc", "delta_t.cpp")],
  claim=("proof", "floating point taken as real arithmetic; half-years by complete residue evaluation of the 400-year cycle", "contracts + VC generation from the clang IR of /repo's source, discharged by polynomial normal form over the reals, complete residue evaluation and z3"))
P("C11", "Angular distance and position angle are right, and lead back to the point",
  "For any two directions, calc_dist_and_posn_ang() returns the angle between them (0 to 180 degrees) and the position angle of the second seen from the first (0 to 360 degrees, measured from north towards decreasing first coordinate), also for nearly equal and nearly opposite points, and reports -1 exactly when the position angle is undefined. reverse_dist_and_posn_ang() returns the point at a given distance and position angle, so that each function undoes the other.",
  "all pairs of directions, distances and position angles",
  "The functions switch formulae by region of the sphere; tests compare distances of random points only.",
  ["dist_pa.cpp", "afuncs.h"], [("calc_dist_and_posn_ang", "dist_pa.cpp"), ("reverse_dist_and_posn_ang", "dist_pa.cpp")],
  claim=("proof", "floating point taken as real arithmetic; vector identities by polynomial normal form, ranges and branches by z3", "contracts + VC generation from the clang IR of /repo's source, discharged by polynomial normal form over the reals and z3/cvc5"))
P("C13", "Interpolation reproduces the table and never reads outside it",
  "cubic_spline_interpolate_within_table() returns, for any argument, the cubic that takes the table's values at the two neighbouring entries and has there the mean slope of the entries on either side (so it equals the table at inner grid points and has a continuous derivative), continued from the first or last full cell outside it, with error code 0, -1 or -2 as documented. lagrange_interpolate_within_table() returns the table entry at a grid point and otherwise the value, and on request the derivative, of the polynomial through the n_pts entries centred on the argument, the window being moved to stay inside the table; the derivative at a grid point is the central difference of that function. Neither reads outside the table.",
  "all tables of at least four (n_pts) entries, all real contents, all arguments, n_pts from 1 to 16",
  "The first and last cells, the shift of the window at the ends, odd and even numbers of points, and arguments exactly on a grid point are separate cases; no stable test calls these functions near the ends of a table.",
  ["spline.cpp"], [("cubic_spline_interpolate_within_table", "spline.cpp"), ("lagrange_interpolate_within_table", "spline.cpp")],
  claim=("proof", "tables of symbolic length; floating point taken as real arithmetic; one proof for each n_pts from 1 to 16", "contracts + VC generation from the clang IR of /repo's source, discharged by polynomial normal form with partial fractions and z3"))
P("C08", "Bounded string operations stay inside the buffer and report truncation",
  "strlcpy() and strlcat() (and strlcpy_err, strlcat_err) write at most the given number of bytes, leave the destination NUL-terminated whenever it has room, copy exactly the leading characters that fit, leave every other byte unchanged and return the length they tried to create; the _err forms end the program exactly when the result did not fit. snprintf_append(), snprintf_append_trunc() and snprintf_err() add the formatted text after what is already there, never write past the given size, and truncate it (snprintf_append_trunc) or end the program (the others) exactly when it does not fit.",
  "all buffer sizes, all string contents and lengths, including sizes 0 and 1 and strings that exactly fill the buffer",
  "Off-by-one errors show only when the text exactly fills the buffer or exceeds it by one, or when the size is 0; no test calls these with such sizes.",
  ["snprintf.cpp", "stringex.h"], [("strlcpy, strlcat", "snprintf.cpp"), ("strlcpy_err, strlcat_err, snprintf_append, snprintf_append_trunc, snprintf_err", "snprintf.cpp")],
  claim=("proof", "unbounded lengths and sizes (below 2^40) by automatically found inductive loop invariants; vsnprintf's C-standard contract is assumed; source and destination do not overlap", "contracts + VC generation from the clang IR of /repo's source with inferred inductive loop invariants, discharged by z3 over arrays"))
P("C12", "Every direction lies in the constellation whose boundaries enclose it",
  "For every right ascension (a turn below zero to two turns above) and every declination from pole to pole, at equinox B1875, constell_from_ra_dec() returns the index of the constellation within whose IAU boundaries the point lies, and writes that constellation's three-letter IAU abbreviation followed by a NUL into the four-byte buffer, if there is one. Points on a boundary belong to the area east and north of it. The table is never read outside.",
  "all directions, including both poles, boundaries, and right ascensions outside 0..360 degrees",
  "There are 2961 boundary cells; one wrong table entry or comparison moves a sliver of sky that no sampled point hits. The test suite looks at a handful of points.",
  ["conbound.c"], [("constell_from_ra_dec", "conbound.c"), ("bounds table, constell_names", "conbound.c")],
  claim=("proof", "complete: one proof per boundary cell, symbolic position inside it, against a reference partition whose 88 areas are checked against the published ones; floating point taken as real arithmetic", "contracts + VC generation from the clang IR of /repo's source; interval reasoning and z3 per boundary cell"))
P("C14", "Two-body orbits: elements, positions and velocities obey Kepler's laws",
  "derive_quantities() gives the orbit's axis vectors for the given angles, semimajor axis, time unit, axis ratio and angular momentum consistent with Kepler's laws (or Barker's constant for a parabola). kepler() returns a solution of Kepler's equation E - e sin E = M (any M, however many turns) or e sinh F - F = M. comet_posn_and_vel() gives the position a (cos E - e), b sin E (and the hyperbolic and parabolic counterparts) in the orbit's axes, with the velocity being its time derivative. calc_classical_elements() inverts this: the elements it computes from a position and velocity (circular, elliptic, parabolic, hyperbolic, retrograde, or in the xy plane) reproduce that position and velocity when given to comet_posn_and_vel().",
  "all periapsis distances, eccentricities 0 to 100, all three angles, all times and all mean anomalies up to 10^6 radians; all state vectors with those elements",
  "Retrograde inclinations, orbits in the xy plane, mean anomalies beyond half a turn, negative hyperbolic anomalies and eccentricities close to 1 are handled by separate code; the test suite follows a handful of orbits.",
  ["astfuncs.cpp", "classel.cpp"], [("derive_quantities, setup_orbit_vectors, kepler, near_parabolic, comet_posn_part_ii, comet_posn_and_vel", "astfuncs.cpp"), ("calc_classical_elements, remaining_terms", "classel.cpp")],
  claim=("proof", "floating point taken as real arithmetic; kepler()'s loops are cut by an inductive argument (partial correctness); eccentricities within 1e-13 of 1 other than 1 are excluded for calc_classical_elements", "contracts + VC generation from the clang IR of /repo's source, discharged by polynomial normal form with named quotients and roots over the reals and z3"))

P("C15", "Altitude and azimuth are those of the direction, and lead back to it",
  "full_ra_dec_to_alt_az() gives the altitude (within a quarter turn) and the azimuth (from south, westward) of the direction with the given right ascension and declination, precessed to the date when a J2000 place is given, for the apparent sidereal time at the place; the hour angle it returns is within half a turn; the place at epoch is returned. full_alt_az_to_ra_dec() gives the right ascension and declination (precessed to 2000) of the direction with the given altitude and azimuth (from north, eastward; its hour angle is by mean sidereal time), also when the altitude is given beyond the zenith or the nadir. Both hold at the north and south poles too. asine() and acose() are inverses of sine and cosine, and treat arguments beyond 1 as 1.",
  "all latitudes (the poles included), longitudes, directions and dates, except the zenith, nadir and celestial poles, where azimuth or hour angle is undefined",
  "The poles, negative right ascensions, azimuths outside 0 to 360 degrees and altitudes beyond 90 are branches or wrap-arounds of their own, which no test reaches.",
  ["alt_az.cpp", "miscell.cpp"], [("full_ra_dec_to_alt_az, ra_dec_to_alt_az, full_alt_az_to_ra_dec, alt_az_to_ra_dec", "alt_az.cpp"), ("asine, acose", "miscell.cpp")],
  claim=("proof", "floating point taken as real arithmetic; sidereal time, nutation and precession are arbitrary values here; latitudes within 2e-5 rad of a pole other than the pole itself are excluded", "contracts + VC generation from the clang IR of /repo's source, discharged by polynomial normal form with named quotients and roots over the reals and z3"))

P("C20", "Planetary, lunar and satellite positions agree with the theories they implement",
  "VSOP87/Poulain, ELP82, PS1996, Galilean, Saturnian and Martian satellite positions agree with the published theories, to the accuracy stated by each source, over the stated span of time.",
  "all dates in the span of each theory",
  "Tests compare printed positions at a handful of dates.",
  ["vsopson.cpp", "lunar2.cpp", "pluto.cpp", "jsats.cpp", "ssats.cpp"], [("series evaluation", "vsopson.cpp, lunar2.cpp")],
  na="the statement is numerical closeness to thousands of tabulated terms, partly in binary data files absent from the sandbox; a contract would be a copy of the table, and closeness to the sky is not a logical property of the code")
P("C21", "Dates and times print and read back the same",
  "A time written by full_ctime() in any of its formats is read back by get_time_from_string() as the same time to the precision printed.",
  "all times, calendars and format flags",
  "Formats, rounding to the next minute or day, negative years and calendars combine; tests read fixed strings.",
  ["date.cpp", "miscell.cpp"], [("full_ctime, split_time", "miscell.cpp"), ("get_time_from_stringl", "miscell.cpp")],
  na="both directions are built on the C library's sprintf/sscanf/atof with floating-point formats, whose correctly rounded decimal conversion has no contract the back ends can reason with (real-arithmetic abstraction removes exactly the rounding at issue); it is also false as stated for two-digit and negative years")
P("C22", "Programs that read observations and element files survive any input file",
  "mpc2sof, astcheck, integrat, tle and the CGI programs process any input file without memory errors and report malformed lines.",
  "all input files",
  "Malformed input is unbounded.",
  ["mpc_fmt.cpp", "cgi_func.cpp", "astcheck.cpp"], [("line parsers", "mpc_fmt.cpp")],
  na="the readers are long I/O loops over stdio with floating-point parsing; no contract for the file system state was built within reach.  The string primitives they use are covered by C08, and designations by C06")

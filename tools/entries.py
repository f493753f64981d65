ENTRIES = []
def add(**k): ENTRIES.append(k)
REAL = "machine f64 arithmetic is treated as exact real arithmetic (no NaN, infinity, rounding)"

add(id="C01", title="Spectral grid neighbours are exactly the adjacent cells, circular in direction",
    statement="For a grid whose columns are frequencies and whose rows are directions, the neighbours reported for a cell are exactly the cells at most one column and one row away, where rows wrap around (direction is circular) and columns do not. Every neighbour is a valid index, reported once when there are at least three rows, and the relation is symmetric: if b is a neighbour of a then a is a neighbour of b.",
    quant="every width, height >= 1 and every index below width*height",
    why="the tests check three or four hand-picked cells of one or two small grids; the wrap-around and edge arithmetic has to hold for every size and cell",
    files=["src/tools/analysis.rs"], mech=[("nearest_neighbors", "src/tools/analysis.rs"), ("watershed uses it to grow basins", "src/tools/analysis.rs")],
    specs=["spec/neighbors.vo"], level="proof",
    note="Verus proves the set of returned indices equals the adjacency relation for all sizes, with no overflow; symmetry is a lemma over that contract. Trusts the extractor, Verus and Z3.")

add(id="C09", title="Unit conversion is physically right, and value and label move together",
    statement="Converting a value between two supported units gives the physically right number (exact definitions for temperatures, within 0.1 % for the rest), converting to an unsupported unit leaves the number alone, and converting there and back returns the original. Switching a quantity, a swell, a summary or a whole record to a unit system changes every field's value and unit label together, to that system's unit for the quantity, keeps missing values missing and changes nothing else.",
    quant="every value, every (unit, unit) and (unit, system) pair, every record and every mix of missing fields",
    why="the tests convert a handful of values in three pairs; no test converts a record, and none compares a label with its value",
    files=["src/units/mod.rs", "src/dimensional_data.rs", "src/swell.rs", "src/data/wave_data_record.rs", "src/data/forecast_cbulletin_wave_data_record.rs", "src/data/forecast_spectral_wave_data_record.rs", "src/data/meteorological_data_record.rs", "src/data/latest_obs_data_record.rs", "src/data/gfs_wave_grib_point_data_record.rs", "src/data/spectral_wave_data_record.rs"],
    mech=[("Unit::convert", "src/units/mod.rs"), ("Unit::convert_system", "src/units/mod.rs"), ("UnitConvertible::to_units", "src/dimensional_data.rs, src/swell.rs, src/data/*")],
    specs=["spec/units.vo"], level="proof", assumptions=[REAL],
    note="Verus proves convert against an SI table over the reals, convert_system against the table of system units, to_units of quantities (f64, i64, directions), swells, summaries and all seven record types against both. f64 rounding is not modelled; a whole-number quantity is the converted value with its fraction cut off.")

add(id="C02", title="Watershed partitioning labels every cell and leaves no basin empty",
    statement="Partitioning an energy grid either rejects data whose length is not width*height with InvalidData, or returns one label per cell, every label in 0..n where n is the returned count, and every basin 1..n holding at least one cell, for every grid, number of levels and blur, without panicking. Distinct peaks (flat regions of the digitized grid with no higher neighbour, direction being circular) get distinct basins and each peak lies whole in one; a cell on the ridge joins the basin of a neighbour in up to five rounds outward from the basins, so, for data whose differences never exceed the largest value (as energies, which are not negative), every cell within five steps of a peak has a basin and only longer ridges keep unlabelled (0) cells.",
    quant="every grid of f64 (including constant and non-finite data), every steps value, with and without blur",
    why="the tests run one grid; the flooding queue, its distances and the label counter have to stay in range on every grid and level order",
    files=["src/tools/analysis.rs", "src/tools/vector.rs"], mech=[("watershed", "src/tools/analysis.rs"), ("nearest_neighbors", "src/tools/analysis.rs"), ("argsort", "src/tools/vector.rs")],
    specs=["spec/watershed.vo"], level="proof", assumptions=["the image crate's blur depends only on the picture, its size and sigma and keeps the number of pixels and GrayImage::from_raw accepts a buffer of at least width*height bytes", "slice::sort_by permutes its slice into the order of its comparator, stably"],
    note="Verus proves shape, label range, non-empty basins, termination, and absence of panics and overflow for every grid below 2^31 cells, over nearest_neighbors' and argsort's own contracts. From the digitized grid, which the contract computes from the data (through the blur, left an unspecified function of the picture, its size and sigma), Verus also proves that every peak lies whole in one basin, that distinct peaks get distinct basins, that every basin holds a peak, and, whenever no difference of two values exceeds the largest one (as for energies, finite and not negative), that every cell within five steps of a peak is labelled.")

add(id="C10", title="Units, directions and steepness parse back from their own text",
    statement="Every unit is recovered by Unit::from from its own abbreviation and from its own name, in any letter case and with surrounding whitespace; every cardinal direction and steepness is recovered by parsing what it displays as (cardinal directions in any letter case), and a unit displays as its abbreviation. A Direction parses from a cardinal direction (which it keeps, with a degree value inside that sector) or from a whole number of degrees (which it keeps, with the matching sector), and nothing else parses as a direction.",
    quant="every unit, cardinal direction, steepness; every text",
    why="the tests parse two or three strings; aliases, case folding and shadowed match arms have to be right for all of them",
    files=["src/units/mod.rs", "src/units/cardinal_direction.rs", "src/units/steepness.rs", "src/units/direction.rs"],
    mech=[("From<&str> for Unit, abbreviation, name", "src/units/mod.rs"), ("FromStr/Display for CardinalDirection", "src/units/cardinal_direction.rs"), ("FromStr/Display for Steepness", "src/units/steepness.rs"), ("FromStr for Direction", "src/units/direction.rs")],
    specs=["spec/names.vo"], level="proof", assumptions=["str::trim and str::to_lowercase behave as documented on ASCII plus the degree sign and superscript two", "Display of a str writes its characters"],
    note="Verus compares the literal texts of the source character by character: every text each type writes is one its parser maps back to it. Integer parsing is an uninterpreted function. The text of a Direction is proved in spec/directions.vo under C11.")

add(id="C11", title="Compass directions stay consistent: sectors, half turns, opposites, conventions",
    statement="A whole degree from 0 to 360 maps to the cardinal direction whose 22.5 degree sector contains it (any other number to Invalid); a cardinal direction's degree value is the centre of its own sector: exactly for the eight main directions, within a degree and a half for the others. Every Direction made from degrees, radians or a cardinal direction carries the sector of its degrees. Flipping or inverting turns it by exactly half a circle, into 0..360, with the matching sector. Two directions are opposite exactly when they are at least 170 degrees apart around the circle. Normalizing keeps From, turns Towards by 180 and maps the mathematical convention d to 270 - d, into 0..360.",
    quant="every i32 degree (turns: 0..=2^31-256), every pair of directions in 0..=360, every real convention input in 0..=360",
    why="the tests sample a few degrees; sector edges, wrap-around at north and both operand orders need every value",
    files=["src/units/cardinal_direction.rs", "src/units/direction.rs"],
    mech=[("CardinalDirection::from_degrees/to_degrees", "src/units/cardinal_direction.rs"), ("Direction::flip/invert/is_opposite, DirectionConvention::normalize", "src/units/direction.rs")],
    specs=["spec/directions.vo"], level="proof", assumptions=[REAL + ", for normalize only"],
    note="Verus proves all of it for all integers by exact case analysis; normalize over the reals.")

add(id="C12", title="Model run times are the latest run that is complete, for every instant",
    statement="Rounding an instant to a multiple of hours gives the start of the latest hour of that day that is a multiple, at or before it, with minutes, seconds and fractions zero. The closest station (gridded, hourly) model run for an instant is the latest 6-hourly (6-hourly, hourly) run at or before the instant minus 6 (5, 2) hours, across midnight and month and year ends. The list of runs for a window starts at the latest 6-hourly run at or before the start, steps by 6 hours and holds every run up to and including the end, none after.",
    quant="every instant within chrono's range (less ten hours at its ends), every multiplier, every window",
    why="the tests use one afternoon; the carry across midnight, the sub-second part and window ends need every instant",
    files=["src/tools/date.rs"], mech=[("round_to_nearest_multiple_hour, closest_*_datetime, gfs_model_fmrc_datetimes", "src/tools/date.rs")],
    specs=["spec/dates.vo"], level="proof", assumptions=["chrono's DateTime<Utc> behaves as a day number plus hour, minute, second, nanosecond (spec/lib/time.vo states the model of +, <=, hour, with_hour, with_minute, with_second, with_nanosecond)"],
    note="Verus proves each function equals the floor of shifted time, over an assumed model of chrono's arithmetic.")

add(id="C13", title="Places: great-circle distance, and boxes and longitudes in either convention",
    statement="The distance between two places is the great-circle (haversine) distance on a sphere of the unit system's earth radius: symmetric, zero between a place and itself, at most half the circumference, and the same whichever way a longitude is written (-180..180 or 0..360). A place is within a box (west, south, east, north) exactly when its latitude is between south and north and its longitude is met going east from west to east, also when the box crosses the prime or the 180 degree meridian, is written in the other convention, or goes all the way round. Relative longitudes lie in -180..=180 and absolute longitudes in 0..360, and both name the same meridian.",
    quant="every pair of places with latitude in -90..=90 and longitude in -180..360; every box with corners in those ranges",
    why="the tests check four conversions, two boxes and no distance at all; wrap-around and sign cases need every place",
    files=["src/location.rs", "src/units/mod.rs"], mech=[("Location::distance, Location::within_bbox", "src/location.rs"), ("normalize_*/absolute_*/relative_*", "src/location.rs"), ("UnitSystem::earths_radius", "src/units/mod.rs")],
    specs=["spec/location.vo"], level="proof", assumptions=[REAL, "textbook facts about sin, cos, asin and sqrt over the reals (spec/lib/trig.vo)"],
    note="Verus proves distance equals the haversine formula, its bounds, symmetry and periodicity (from addition theorems assumed as axioms), and within_bbox equals the circular arc over the reals.")

add(id="C20", title="linspace yields n evenly spaced numbers from a to b, from either end",
    statement="linspace(a, b, n) yields exactly n numbers, the k-th being a + k (b - a)/(n - 1) (just a when n is 1): the first is a, the last is b, neighbours are equally far apart. Taking from the back yields the same numbers in reverse, mixing both ends yields each once, the remaining length is always exact, and an exhausted iterator stays exhausted.",
    quant="every a, b, every n, every interleaving of next and next_back",
    why="the one test collects five numbers forwards",
    files=["src/tools/linspace.rs"], mech=[("linspace, next, next_back, size_hint", "src/tools/linspace.rs")],
    specs=["spec/linspace.vo"], level="proof", assumptions=[REAL],
    note="Verus proves each step against the k-th number over the reals, with the type parameter F read as f64.")

add(id="C21", title="Vector helpers: stable argsort, differences, extremes and packing round trip",
    statement="argsort and argsort_partial return every index once, in ascending order of the data, equal elements in index order. diff and diff_abs return one difference per element: element minus predecessor (absolute for diff_abs), the first repeated. min_max and min_max_fill return the least and greatest of the numbers, ignoring NaN (infinities when there are none); the latter replaces exactly the NaNs by the fill value. Packing a value between min and max into 0..=bins and unpacking it loses less than one step and keeps both ends; values outside saturate.",
    quant="every vector (differences: of length two or more; argsort_partial: of mutually comparable elements), every range and bin count",
    why="the tests sort two vectors, pack eight values and look for one NaN",
    files=["src/tools/vector.rs"], mech=[("argsort, argsort_partial, diff, diff_abs, bin, unbin, min_max, min_max_fill", "src/tools/vector.rs")],
    specs=["spec/vector_order.vo", "spec/vector_bins.vo"], level="proof", assumptions=[REAL + ", for packing only", "slice::sort_by permutes its slice into the order of its comparator, stably"],
    note="Verus proves everything but the order laws of f64 comparison (assumed from IEEE 754) and sort_by's own behaviour.")

add(id="C22", title="Peak detection finds exactly the peaks that stand out by delta, alternating",
    statement="detect_peaks returns indices of maxima and minima that alternate in position, starting with a maximum. Each is the greatest (least) value since the extreme before it and differs from its neighbouring extremes by more than delta. None is missed: from where the last extreme was confirmed to the end of the data, no value falls (rises) by more than delta from an earlier one.",
    quant="every vector of finite numbers of any length, every delta >= 0",
    why="no test runs detect_peaks on its own; running extremes and their resets have to hold for every history of values",
    files=["src/tools/analysis.rs"], mech=[("detect_peaks", "src/tools/analysis.rs")],
    specs=["spec/peaks.vo"], level="proof", assumptions=["IEEE 754: comparison is a total order on numbers, and adding or taking away the same number is monotone (spec/lib/order.vo)"],
    note="Verus proves alternation, prominence, extremality and completeness from order axioms of f64 alone, with no real-number reading.")

add(id="C24", title="Linear and bilinear interpolation, wind vectors and missing markers",
    statement="lerp gives the first value at x0, the second at x1, and in between moves linearly and stays between them, whichever end is larger. bilerp equals interpolating along x at both ys and then along y: exact at the corners, inside the corner values elsewhere. scalar_from_uv gives the length of the vector and, as a whole number of degrees in 0..360 rounded down, the compass direction it comes from. A reading is missing exactly when it is within 1e-5 of the missing marker; any other reading is kept unchanged.",
    quant="all real arguments with distinct ends",
    why="the tests check one vector and two readings; neither interpolation has a test",
    files=["src/tools/analysis.rs", "src/tools/math.rs"], mech=[("lerp, bilerp", "src/tools/analysis.rs"), ("scalar_from_uv, f_eq, is_some_missing", "src/tools/math.rs")],
    specs=["spec/mathtools.vo"], level="proof", assumptions=[REAL, "textbook facts about sin, cos, atan2 and sqrt over the reals (spec/lib/trig.vo)"],
    note="Verus proves all of it over the reals.")

add(id="C07", title="PCHIP interpolation: exact at knots, no overshoot, monotone, clamped",
    statement="For knots with strictly increasing x, the interpolated curve passes through every knot; between two neighbouring knots it moves one way only and never leaves the interval between their two values; rising (falling) data give a rising (falling) curve; data on a straight line give that line; two knots give the line between them; before the first and after the last knot the value is the first and last knot's. Interpolating many points gives each point's own value, in order.",
    quant="every number of knots from two up, every spacing, all values, every point of the line",
    why="the tests sample four small data sets on even spacing; overshoot needs uneven spacing and steep steps next to shallow ones",
    files=["src/tools/interpolation.rs"], mech=[("PchipInterpolator::new, interpolate, interpolate_many, find_interval", "src/tools/interpolation.rs")],
    specs=["spec/pchip.vo"], level="proof", assumptions=[REAL],
    note="Verus proves that new() leaves every slope within three secants of its interval (Fritsch-Carlson), that interpolate evaluates the cubic of the right interval, and from those the listed facts as lemmas, over the reals.")

add(id="C08", title="Interpolation around the compass is exact at directions and wraps at north",
    statement="circular_pchip_interpolate gives the value of a source direction at that direction (at 360 the value at 0 when 0 is a source direction), and at any other target in 0..=360 a value between those of the two source directions next to it around the circle, including the pair on either side of north, whatever the spacing and whether or not 0 is among the directions.",
    quant="every number of directions from one up, ascending, spanning less than a full turn; all values; every target in 0..=360",
    why="the tests use four even directions starting at 0; the gap across north and uneven spacing need every layout",
    files=["src/tools/interpolation.rs"], mech=[("circular_pchip_interpolate", "src/tools/interpolation.rs"), ("PchipInterpolator", "src/tools/interpolation.rs")],
    specs=["spec/circular.vo"], level="proof", assumptions=[REAL],
    note="Verus proves the three-turn unrolling and, through the contract of PchipInterpolator, the bounds and exactness for every pair of circular neighbours.")

add(id="C03", title="Splitting a spectrum by its partition loses no energy",
    statement="The part of a spectrum belonging to a label has the same frequencies, directions and convention and, cell by cell, the source's energy where the cell carries that label and zero elsewhere. Splitting gives one such part for each label from 0 up to the limit (the partition count when no limit is given), in label order, so that when every label is below the count the parts add up, cell by cell, exactly to the source.",
    quant="every spectrum, every labelling with one label per cell, every count and limit up to 2^31-1",
    why="the tests split one station file and look at summaries; conservation has to hold for every labelling",
    files=["src/spectra.rs"], mech=[("Spectra::from_component, split_from_components", "src/spectra.rs")],
    specs=["spec/partition.vo"], level="proof", assumptions=["for the sum only: " + REAL],
    note="Verus proves each part cell by cell for all labellings, and conservation as a lemma over that contract.")

add(id="C04", title="Spectrum layout, integrals and moments",
    statement="Energy is stored frequency by frequency for each direction: cell i is frequency i mod nk, direction i div nk, and energy_at reads exactly that cell. A bin is as wide as its distance to the bin before it (the first as the second). oned integrates over the other axis; integrating either one dimensional spectrum gives the same total. mom_f and mom_d are the moments of every direction (by frequency) and every frequency (sine and cosine), the zeroth being the one dimensional spectra. mean_wave_direction_f is, in 0..360, the direction of the energy weighted mean vector under the spectrum's convention. Period is 1/frequency, direction_deg and direction_rad are the normalized directions, energy_range the least and greatest energy.",
    quant="every spectrum of at least two frequencies and two directions, every moment number, every convention",
    why="the tests read one station file; index layout, which width goes with which axis and the angle conventions have to hold for every grid",
    files=["src/spectra.rs", "src/tools/vector.rs", "src/units/direction.rs"], mech=[("Spectra::energy_at, energy_indices, oned, mom_f, mom_d, mean_wave_direction_f, dk, dth, period, direction_deg, direction_rad, energy_range", "src/spectra.rs"), ("diff", "src/tools/vector.rs")],
    specs=["spec/spectra.vo"], level="proof", assumptions=[REAL, "textbook facts about atan2, sin, cos, powi and sqrt over the reals (spec/lib/trig.vo)"],
    note="Verus proves every listed function against recursive sums over the grid, and the equality of the two totals and the zeroth moments as lemmas, over the reals.")

add(id="C05", title="Energy between spectrum bins, across north and at the edges",
    statement="For ascending bins, closest_k gives the last frequency at or below the given one (the first when there is none) and the next; closest_th the last direction at or below and the next around the circle (the last and first when there is none below). interp_energy is linear in frequency and in direction between those bins, with the direction gap across the wrap taken the short way round: exact at a bin and never outside the energies of the four surrounding cells; below the first and above the last frequency it is the edge's energy. A fractional bin index gives the bin itself at a whole index, a value in proportion between two bins, and the end bins outside.",
    quant="every spectrum with ascending frequencies and ascending directions within one turn; every frequency, direction and index",
    why="no test calls them; the brackets were the first bins for almost every input, and whole indices gave NaN",
    files=["src/spectra.rs", "src/tools/analysis.rs"], mech=[("Spectra::closest_k, closest_th, interp_energy, ik, ith", "src/spectra.rs"), ("lerp, bilerp", "src/tools/analysis.rs")],
    specs=["spec/bracket.vo"], level="proof", assumptions=[REAL],
    note="Verus proves brackets, the interpolated value and its exactness and bounds (lemma_between) over the reals, through the contracts of lerp and bilerp.")

add(id="C06", title="Regridding a spectrum never invents, loses or misplaces energy peaks",
    statement="interpolate_to_grid gives a spectrum with exactly the target frequencies and directions (degrees in, radians stored, convention From) and no negative energy. On a source bin the energy is the source's (negatives cut to zero), whatever order and convention the source directions come in. Elsewhere it stays within the energies of the four source cells around the target, directions taken around the circle; below the lowest source frequency it is zero, and above the highest within the energies of the last frequency's two cells.",
    quant="every source of two or more ascending positive frequencies and distinct compass directions in any order; every positive target frequency and every target direction from 0 to 360",
    why="the tests use even grids starting at 0 and four energies; sorting, wrap-around, two-stage indexing and the edges need every layout",
    files=["src/spectra.rs", "src/tools/interpolation.rs"], mech=[("Spectra::interpolate_to_grid", "src/spectra.rs"), ("PchipInterpolator, circular_pchip_interpolate", "src/tools/interpolation.rs")],
    specs=["spec/regrid.vo"], level="proof", assumptions=[REAL, "ln is strictly increasing over the positive reals", "slice::sort_by permutes its slice into the order of its comparator", "the contracts of PchipInterpolator and circular_pchip_interpolate, proved under C07 and C08, and of direction_deg, proved under C04"],
    note="Verus proves the whole function through the contracts of its callees, for any layout; lemma_regridded derives the stated bounds from its postcondition.")
add(id="C27", title="A buoy's directional spectrum is the one its five reported series define",
    statement="DirectionalSpectralWaveDataRecord::new and from_data_records give, for each frequency k and direction t, the density E(k)/pi * (1/2 + r1(k) cos(t - a1(k)) + r2(k) cos(2(t - a2(k)))) with a1, a2 in degrees, cut at zero when negative, and zero for every direction when any of the five values is the missing flag (999.9 for energy, 999.0 otherwise); stored at k + t * nk on exactly the given axes, convention From, dated as the energy record.",
    quant="every number of frequencies and directions; every reported value, including missing flags in any of the series",
    why="no test checks a value of the distribution; it must hold for every angle, coefficient and pattern of missing values",
    files=["src/data/directional_spectral_wave_data_record.rs", "src/tools/math.rs"], mech=[("DirectionalSpectralWaveDataRecord::new, from_data_records", "src/data/directional_spectral_wave_data_record.rs"), ("f_eq", "src/tools/math.rs")],
    specs=["spec/buoyspec.vo"], level="proof", assumptions=[REAL, "the five series have a value for each frequency"],
    note="Verus proves the closed formula cell by cell, with the missing-value cut, for any axes; the witness also compares the directional total with the reported energy.")
add(id="C23", title="Wave lengths, speeds and breaking heights follow linear wave theory",
    statement="A wavelength L from ldis satisfies the dispersion relation w^2 h/g = kh tanh kh (k = 2 pi/L) to 1 part in 100,000. celerity = wavelength * frequency; wavenuma and wavenu3 are Chen-Thomson's and Beji's wavenumbers, the latter with its linear group velocity. shoaling_coefficient is sqrt(Cg0/Cg); refraction_coefficient turns the ray by Snell's law and conserves flux between rays. break_wave and estimate_breaking_wave_height give the breaker height for that wavelength, the estimate for the smaller angle between swell and beach (an error above 90 degrees); wave_energy and the moments are their formulas.",
    quant="every positive period, frequency and depth; every angle up to 90 degrees; every swell and beach heading",
    why="no test calls these functions; a Newton iteration's result and textbook relations between functions need every input",
    files=["src/tools/waves.rs"], mech=[("ldis, wavenu3, wavenuma, celerity, wavelength", "src/tools/waves.rs"), ("shoaling_coefficient, refraction_coefficient, break_wave, estimate_breaking_wave_height", "src/tools/waves.rs")],
    specs=["spec/waves.vo"], level="proof", assumptions=[REAL, "textbook facts about tanh, sinh, exp, sin, cos and asin (module wv and lib/trig.vo)", "the swell has height, period and direction", "convergence of ldis within 50 steps is searched, not proved"],
    note="Verus proves that the Newton stopping rule bounds the dispersion residual for every period and depth, and each closed formula; the witness compares with bisection.")

add(id="C14", title="Observation and index rows decode column by column, or are rejected",
    statement="A row of the buoy formats (detailed wave, standard meteorological, latest observations, spectral) and of a GRIB index becomes a record exactly when it has all its columns and its date columns name a real minute (a spectral row: and every energy/frequency pair is numeric; latest observations: numeric position; an index row: numeric message and offset and a date d=YYYYMMDDHH); any other row is an error, never a panic. The record carries that date, and every field is what its own documented column reads as, in that column's unit and under the measurement's own name, a missing or malformed value (MM) being no value; spectral pairs keep their order. A file yields the records of its good rows, in order, and skips the others; its wave records summarize to the mean height, period and direction with swell and wind waves as components.",
    quant="every row of texts: any number of columns, any content, valid or not; every file of such rows",
    why="the tests decode one good row per format and read two or three of its columns; swapped columns, missing values, impossible dates and short rows are never tried",
    files=["src/data/wave_data_record.rs", "src/data/spectral_wave_data_record.rs", "src/data/meteorological_data_record.rs", "src/data/latest_obs_data_record.rs", "src/data/grib_index_record.rs", "src/dimensional_data.rs", "src/units/direction.rs", "src/units/steepness.rs"],
    mech=[("WaveDataRecord::from_data_row, swell_data", "src/data/wave_data_record.rs"), ("SpectralWaveDataRecord::from_data_row", "src/data/spectral_wave_data_record.rs"), ("MeteorologicalDataRecord::from_data_row", "src/data/meteorological_data_record.rs"), ("LatestObsDataRecord::from_data_row", "src/data/latest_obs_data_record.rs"), ("GribIndexRecord::from_data_row", "src/data/grib_index_record.rs"), ("from_data and records of the five collections", "src/data/wave_data_record.rs, src/data/spectral_wave_data_record.rs, src/data/meteorological_data_record.rs, src/data/latest_obs_data_record.rs, src/data/grib_index_record.rs"), ("DimensionalData::from_raw_data", "src/dimensional_data.rs")],
    specs=["spec/rows.vo", "spec/collections.vo"], level="proof", assumptions=["str::parse of a number, and chrono's calendar constructor and date format parser, depend on their arguments only (uninterpreted functions of the text)", "the csv crate's rows of a text under given settings are an uninterpreted function of both; that they are its lines cut at the delimiter is judged by the bounded search", "records() is a lazy iterator; the proof follows it to its end, as a vector of what it yields"],
    note="Verus proves each row decoder (exactly when it succeeds, every field against its column and unit, no out-of-bounds access) and the five file readers: the settings handed to the csv crate, and that records() yields exactly the rows that decode, in order, from their non-empty columns, converted to metric, past any number of bad rows. How the csv crate cuts a text and what number and date texts mean is judged by the bounded search.")

add(id="C25", title="Model output hours, indexes, sources and file addresses agree",
    statement="A model's outputs come at hour 0 and then every step: hourly, three-hourly, or hourly (three-hourly) up to a changeover hour and three-hourly (six-hourly) after it, the changeover being a whole number of steps. hour_for_index gives the hour of output k; index_for_hour the last output at or before an hour, so it undoes hour_for_index; a range of indexes gives those outputs' hours in order, a range of hours one index per hour, and hours_for_hour_range every output hour from the one serving the start to the end. A data source is recovered from its own name in any letter case, and a text naming no provider is an error. A model's file address names the latest run complete at the queried instant (six-hourly, five hours late): that run's date and hour zero-padded, never the query's, and the output hour on three digits.",
    quant="every resolution, every changeover, index and hour up to 2^28; every instant, source and output hour",
    why="the tests try one or two indexes per resolution and one afternoon for each address; the changeover and runs that belong to the day, month or year before need every value",
    files=["src/model/noaa_model.rs", "src/model/gfswave.rs", "src/model/gefswave.rs", "src/model/nwps.rs", "src/tools/date.rs"],
    mech=[("ModelTimeOutputResolution", "src/model/noaa_model.rs"), ("TryFrom<&str> for ModelDataSource", "src/model/noaa_model.rs"), ("create_url, url_root", "src/model/gfswave.rs, src/model/gefswave.rs, src/model/nwps.rs")],
    specs=["spec/models.vo"], level="proof", assumptions=["chrono's DateTime<Utc> as in spec/lib/time.vo", "format! writes its pieces one after another; the digits of a number are an uninterpreted function of it"],
    note="Verus proves all of it, over the contract of closest_gfs_model_gridded_datetime (proved under C12). src/model needs the gribberish crate, which cannot be fetched here: the bounded search builds it against a stand-in for that crate. create_idx_url is in the bounded search only.")
add(id="C18", title="Swell partitions tracked through time keep one id for as long as they last",
    statement="track_partitions gives back every swell of every step, in place, with only its id set; fewer than two steps come back as they are. The first step keeps its ids. In a later step no two swells share an id, and each either goes on as its closest swell of the step before, whose id it takes, or gets an id never used in any step so far. Closest is by the turn between the headings around the circle, which must not exceed the limit, over that limit, plus the change of period over the change expected of a swell from that distance in that time. A swell that does not take its closest one's id loses it to one at least as close. No input of steps panics: empty steps and swells without a period or direction are allowed.",
    quant="every series of steps of any length, each with any number of swells of any period, direction and first id, every limit and distance",
    why="no test calls it; a turn across north was measured the long way one way round, new ids repeated those of the first step, and an empty step panicked",
    files=["src/tools/waves.rs"], mech=[("track_partitions", "src/tools/waves.rs"), ("dfp_swell_sea", "src/tools/waves.rs")],
    specs=["spec/track.vo"], level="proof", assumptions=[REAL, "slice::sort_by permutes its slice into the order of its comparator", "the contract of dfp_swell_sea, proved under C23", "a HashSet is a set", "usize has 64 bits", "no swell without a period or direction and at least a second between steps (the witness tries the rest)", "first ids below 2^48, fewer than 2^31 steps and swells to a step"],
    note="Verus proves the whole function, greedy assignment included, for any number of steps and swells; ids never reused is the invariant that every id so far is below the counter.")
add(id="C19", title="Mirror-image swell components are found and removed, nothing else",
    statement="A component is a probable mirror image exactly when an earlier component, the first displayed with the same period text, has the opposite direction (170 to 190 degrees apart); one without a direction never is, nor makes another one. probable_false_components lists each of them once; filtered_components keeps all other components, unchanged and in order. Swell::new labels the wave height in the unit system's unit (feet or metres), the period in seconds, the direction in degrees, the density in m^2/Hz and the energy in kilojoules, with the values given.",
    quant="every list of components: any number, periods and directions from 0 to 360, missing values included",
    why="no test calls them; a hash map's order, repeated periods and missing directions are cases a test does not sample",
    files=["src/swell.rs", "src/units/direction.rs"], mech=[("SwellSummary::probable_false_components, filtered_components, Swell::new", "src/swell.rs")],
    specs=["spec/swell.vo"], level="proof", assumptions=["std's HashMap by its documented behaviour, its iteration order unknown (spec/lib/hash.vo)", "the text a quantity is displayed as depends on that quantity only", "is_opposite by its contract, proved under C11", "derived Clone copies its value"],
    note="Verus proves that the flagged indexes are exactly the mirror images, for every list and every iteration order of the map.")

add(id="C17", title="Height, period, direction and energy of swell from a partitioned spectrum",
    statement="swell_data gives one component per partition whose significant height is at least 0.1 m and no other, each partition once, by decreasing energy. Its height is 4 sqrt(m0), m0 summing the partition's own cells, each weighted by the band its frequency covers on the angular scale, plus the f^-5 tail beyond the last frequency, times the direction step / 2 pi; its period is that of the first frequency with the most energy; its direction is where the energy-weighted vector sum points, in the spectrum's convention; its peak density is the top of the parabola through the peak; its energy is wave_energy of that height and period. The summary is the same over all cells, its energy the components' total. Depth and wind change none of it. The buoy and forecast records' swell is that of their own spectrum, partitioned by the watershed.",
    quant="every spectrum of two or more ascending positive frequencies and two or more directions, every labelling and number of partitions, every convention, depth and wind",
    why="no test compares a value; each frequency took the band of its lower neighbour and the tail a frequency beyond the last, unseen",
    files=["src/tools/waves.rs", "src/spectra.rs", "src/swell.rs"], mech=[("pt_mean", "src/tools/waves.rs"), ("Spectra::swell_data, partition", "src/spectra.rs"), ("swell_data of the spectral records", "src/data/directional_spectral_wave_data_record.rs, src/data/forecast_spectral_wave_data_record.rs")],
    specs=["spec/swellparams.vo", "spec/swelldata.vo", "spec/swellrecords.vo"], level="proof", assumptions=[REAL, "textbook facts about atan2, sin, cos, sqrt and copysign (spec/lib/trig.vo)", "slice::sort_by permutes its slice into the order of its comparator", "derived PartialOrd compares the value first", "the contracts of wavenu3, wavelength and wave_energy, proved under C23, of Swell::new, proved under C19, and of watershed, proved under C02"],
    note="Verus proves pt_mean's five accumulating passes against recursive sums over the grid, for any size, labelling and number of partitions; swell_data through its contract.")

add(id="C15", title="Wave bulletin rows decode to dated swell components, or are rejected",
    statement="A row of a wave bulletin is DDHH, a wave height and any number of swell triples (height, period, direction). It becomes a record exactly when the step is a real day and hour, on the first such day of the month on or after the run's day (in the run's month, else the next one, January following December), and every triple is complete and numeric; any other row is an error, never a panic. The record has the step's date, the height as its column reads, in feet, and one component per triple, in order: its height in feet, period, direction, and the energy of a wave of that height in metres. Its summary is the significant height with the first component's period and direction, and needs a component. A bulletin's head gives the place (north and east positive) and run date; its rows are answered in order in metric units, rows that do not decode being skipped.",
    quant="every run date, every row of texts of any length and content, every bulletin",
    why="the tests decode two rows of one May run; December runs, impossible dates, short or non-ASCII steps and incomplete triples panicked or came out wrong",
    files=["src/data/forecast_cbulletin_wave_data_record.rs", "src/tools/waves.rs", "src/units/mod.rs", "src/dimensional_data.rs"],
    mech=[("from_data_row, swell_data, parse_latitude, parse_longitude, FromStr, from_data, records", "src/data/forecast_cbulletin_wave_data_record.rs"), ("wave_energy", "src/tools/waves.rs"), ("Unit::convert", "src/units/mod.rs")],
    specs=["spec/bulletin.vo", "spec/bulletinfile.vo"], level="proof", assumptions=[REAL, "str::parse of a number and chrono's calendar constructor depend on their arguments only (uninterpreted functions of the text)", "texts slice by their UTF-8 byte offsets", "the rows the csv crate reads from a text under given settings, and what the regex crate captures in it, are uninterpreted functions; a match of one of the head's patterns has its mandatory groups, and a position's text ends in a one-byte character", "the iterator records() returns is followed to its end"],
    note="Verus proves the row decoder (exactly when it succeeds, every field, no out-of-bounds or mid-character slice), the summary, the reading of positions and of a bulletin's head, and that records() answers the decoded rows of the whole file in order and in metric units, for bulletins of any length.")
add(id="C16", title="Spectral forecast files decode to their spectra, record by record",
    statement="A WAVEWATCH III spectral file starts with its counts of frequencies and directions, then so many frequencies and directions, running over lines as needed; directions counted in radians from east against the clock become compass bearings to the nearest degree. Each record is a date line (YYYYMMDD HHMM), a point line (position, depth, wind and current speed and direction) and frequencies x directions energies over as many lines as needed. A record takes exactly its own lines and has its own date and point values in metres, metres per second and degrees to the nearest one, the first record's date as reference date, and a spectrum on the file's frequencies and directions with exactly those energies in file order. A date line that is no date or point line without its numbers is an error, a record cut short ends the file, and nothing panics.",
    quant="every text, of any number of lines of any content; every number of frequencies, directions and records",
    why="the test reads one well formed file's head; line breaks between numbers, cut files, short lines and several records need every text, and directions lost up to a degree so the bins did not close the circle",
    files=["src/data/forecast_spectral_wave_data_record.rs", "src/units/direction.rs", "src/spectra.rs", "src/location.rs"],
    mech=[("FromStr for ForecastSpectralWaveDataRecordMetadata, from_data, parse_next, next, records", "src/data/forecast_spectral_wave_data_record.rs"), ("Direction::from_degrees", "src/units/direction.rs")],
    specs=["spec/spectralfile.vo"], level="proof", assumptions=[REAL, "lines and words of a text, what a regular expression captures in it, str::parse of a number and chrono's calendar constructor depend on their arguments only (uninterpreted functions)", "a head's two-digit counts multiply without overflow", "fewer than 2^64 - 1 lines", "the iterator records() returns is followed to its end"],
    note="Verus proves the head's reader, opening a file, one step of the reader for all lines (what it answers, which lines it takes and leaves), and by induction that records() answers the file's records in order and nothing else, for files of any length.")

add(id="C26", title="Requests to data services and station lookups name exactly what was asked for",
    statement="A tide prediction request names the station, both dates (YYYYMMDD) and times (HH:MM), datum, interval and unit system it was asked with, each in its own place. A weather address names the position (latitude, longitude) or office and grid cell; a buoy's addresses name its own identifier, the kind of file and, for forecasts, the source and the run's zero-padded date and hour. A data constraint is written as its variable and its ranges [start:step:end] in order, reads back as itself, and a malformed one is an error, not a panic. A lookup gives the first station with that identifier, or none. A station built from parts has them, is active when it has any of its four kinds of data, and as GeoJSON is a point at (longitude, latitude) with its own identifier, name and so on.",
    quant="every identifier, position, instant, datum, interval, unit system, list of constraints and list of stations",
    why="the tests look at no address and one station; swapped dates or coordinates, missing zeros, repeated identifiers and damaged constraints need every value; tsunami and weather buoys were reported inactive",
    files=["src/tide_station.rs", "src/weather.rs", "src/tools/dap.rs", "src/buoy_station.rs", "src/location.rs", "src/units/mod.rs"],
    mech=[("tidal_data_url, find_station_by_id, Into<Feature>", "src/tide_station.rs"), ("create_points_url and the grid addresses", "src/weather.rs"), ("DapConstraint, format_dods_url", "src/tools/dap.rs"), ("BuoyStation, BuoyStations, NDBCBoolVisitor, F64Visitor", "src/buoy_station.rs")],
    specs=["spec/services.vo", "spec/visitors.vo"], level="proof", assumptions=["format! writes its pieces one after another; the text of a number or a date is an uninterpreted function of it and its format", "geojson and serde_json maps keep what is inserted", "chrono's DateTime<Utc> as in spec/lib/time.vo", "str::parse depends on its text only", "derived Clone copies its value"],
    note="Verus proves every address character for character, the lookups for lists of any length, the GeoJSON of a station, and how the marks (y, n) and numbers of a station list are read. Reading a constraint back and putting stations together from XML are judged by the bounded search only; dap.rs and buoy_station.rs are searched against stand-ins for crates that cannot be fetched.")

add(id="C28", title="Weather forecasts and tide predictions decode period by period",
    statement="A weather forecast answers one record per period, in order. Each has the period's own start and end as instants, whatever offset they are written with, its daytime mark and texts; its temperature, dewpoint and humidity with their values and in the unit their own code names; as wind speed the number the wind text starts with, in the unit it ends with (a range of speeds counts by its low end, a text without a number is no value), and as wind direction that compass name with a bearing in its sector, in degrees. No wind text panics. A tide prediction has the instant its date names in UTC, its value whether written as a number or a text, and its high or low mark if any; an impossible date or a value that is no number is an error for the whole answer, never a panic.",
    quant="every period: any texts, values, offsets and units; every forecast and list of predictions",
    why="the tests look at one hourly period with a single wind speed; ranges of speeds, calm wind and offsets need every text; a range lost its unit and a one-word wind panicked",
    files=["src/data/nws_weather_forecast_data_record.rs", "src/data/tidal_data_record.rs", "src/units/mod.rs", "src/units/direction.rs", "src/dimensional_data.rs"],
    mech=[("From<&NwsWeatherForecastPeriodData>, records, from_json", "src/data/nws_weather_forecast_data_record.rs"), ("utc_date_time_from_str, tidal_value_f64", "src/data/tidal_data_record.rs"), ("From<&str> for Unit", "src/units/mod.rs")],
    specs=["spec/forecast.vo", "spec/tidal.vo"], level="proof", assumptions=["what serde_json reads as a text or a JSON value, and what chrono reads of a text under a format, are uninterpreted functions", "str::parse of a number and str::split depend on their text only (uninterpreted functions); a split has at least one piece", "the contracts of Unit::from, DimensionalData::from_raw_data and Direction's parser, proved under C11 and C14"],
    note="Verus proves the decoding of a period, of all periods, and of a tide prediction's date and value, for every text and JSON value. The derived decoders that put the fields together are judged by the bounded search only.")

add(id="C29", title="The polar picture shows at each pixel the bin drawn nearest to it",
    statement="Projecting a spectrum to a square picture of size by size pixels draws every bin whose period is at most the threshold (the longest period unless one is given) at its compass direction, north up and east to the right, at a distance from the centre pixel (size/2, size/2) that grows from the centre with the given power of its period and reaches size/2 at the threshold. Every pixel up to the rim then maps to the drawn bin nearest to it, and no pixel maps to a bin that is not drawn or to one further away than another; a pixel is empty only outside the rim or if no bin is drawn at all. A picture of any data on the same grid has, at each pixel, the value of the bin the map names there, row by row from the top, and NaN where the map is empty; projecting through a stored map is the same as projecting at once.",
    quant="every spectrum with positive frequencies and directions of one turn, every convention, size, threshold and scaling, every pixel and every data set",
    why="the tests project one buoy spectrum at one size and only look at the file written; orientation, conventions and thresholds need every bin and pixel",
    files=["src/spectra.rs", "src/units/direction.rs"],
    mech=[("Spectra::compute_cartesian_projection_map", "src/spectra.rs"), ("Spectra::project_cartesian_with_map, project_cartesian", "src/spectra.rs"), ("Spectra::direction_deg, period, energy_indices", "src/spectra.rs")],
    specs=["spec/cartesian.vo"], level="proof", assumptions=[REAL, "the kdtree crate finds what was added: nearest gives the closest point by squared Euclidean distance", "x to the power y of a positive x is positive, and x to the power 1 is x; the textbook facts about sin, cos and atan2", "the contracts of Spectra's period, direction_deg and energy_indices, proved under C04"],
    note="Verus proves the placing of every bin (including the half turn and quarter turn identities that put north up), the map of every pixel and both projections.")

add(id="C30", title="Sunrise and sunset are when the sun crosses the horizon, if it does",
    statement="For a location and a date the solar events are the two instants around local noon of that calendar date (12:00 less one hour for each 15 degrees east) at which the upper rim of the sun crosses the horizon there (its centre 5/6 of a degree below): the sun is up between sunrise and sunset, and sunrise comes before sunset. Longitudes from 0 to 360 and from -180 to 180 name the same places, and the time of day of the date does not matter. There are no events, rather than some instant, for a place off the map and on days when the sun stays above or below the horizon.",
    quant="every place on earth in either count of longitudes, every date",
    why="the test looks at one day in one place; polar days and nights, eastern longitudes and other hours need every place; polar days answered 1970-01-01",
    files=["src/solar.rs", "src/location.rs"],
    mech=[("calculate_solar_events", "src/solar.rs"), ("From<&Location> for Option<Coordinates>", "src/solar.rs"), ("Location::relative_latitude, relative_longitude", "src/location.rs")],
    specs=["spec/solar.vo"], level="proof", assumptions=[REAL, "the sunrise crate computes the instants of a place and a day, sunrise before sunset, or one and the same instant for both if there are none (checked against an independent almanac by the bounded search)", "the contracts of Location's relative coordinates, proved under C13"],
    note="Verus proves which place, day and event is asked for, and that a day without events has none; the astronomy is the sunrise crate's and is judged by the bounded search only.")

add(id="C31", title="Contours outline exactly where the values reach each level",
    statement="Contouring a grid of width by height values gives one outline per level, in order, carrying its level; the centre of a cell is inside an outline exactly when its value is above the level (one equal to it may go either way). Given a map of points, every vertex is the mapped one and the outline also carries its level's share of the range of levels and, with a formatter, its label; without one neither. A wrong number of values is an error. A spectrum's contours are ten levels from 0.1 to its highest energy at (period, compass direction in its convention) of the bins. A map's contours lie at the cells' places between the given longitudes and latitudes; a map around the globe (its ends, normalized, no further apart than its step, to a thousandth of a degree) is closed with its first column once more; missing values are outside every outline and do not count for the range; the levels run from the lowest to the highest value unless given, twenty unless given.",
    quant="every grid size, every values, levels, maps of points, formatters, spectra and longitude and latitude boxes",
    why="no test calls them; an outline shifted by half a cell, a column lost at the date line or a missing value taken for a level looks fine on one picture; spectra were outlined half a bin off",
    files=["src/tools/contour.rs", "src/spectra.rs", "src/tools/linspace.rs", "src/tools/vector.rs"],
    mech=[("compute_contours, compute_latlng_gridded_contours", "src/tools/contour.rs"), ("Spectra::contoured, ik, ith", "src/spectra.rs"), ("min_max_fill", "src/tools/vector.rs")],
    specs=["spec/contour.vo"], level="proof", assumptions=[REAL, "the contour crate outlines where its picture, with value i in the middle of cell i, reaches a level (its use is checked by the bounded search), and errs exactly on a wrong number of values", "geojson features keep what is set", "the contracts of ik and ith, proved under C05, linspace and min_max_fill, proved under C13 and C10, energy_range under C04"],
    note="Verus proves which values, levels, vertices and labels are asked for and given, for any sizes and any map of points, including the repeated column; the outlining itself is the contour crate's and is judged by the bounded search only.")

add(id="C32", title="What is displayed: value, unit, compass name, or that it is missing",
    statement="A quantity displays as its value with one decimal, a space and its unit's abbreviation (a number of degrees gets no label), or as N/A when it is missing; asked for its text only if it has a value it answers that same text or nothing, and its JSON carries value, name, unit and unit label and reads back as the same quantity. A direction displays as its whole degrees, a degree sign and the name of its sector; a swell as height @ period direction. Errors display what went wrong and the reason they carry. An observation turned into a map holds the date and every one of its fourteen measurements under its own, non-empty name: directions as degrees, and in the map of texts as what each displays or nothing.",
    quant="every value, unit, direction and swell, every mix of missing fields, every observation whose names are distinct",
    why="no test looks at a displayed text, at a map or at what is in the JSON; a wrong unit label or a swapped field shows only for some units and fields",
    files=["src/dimensional_data.rs", "src/swell.rs", "src/units/direction.rs", "src/data/meteorological_data_record.rs", "src/data/parseable_data_record.rs"],
    mech=[("Display, try_string, unit_label, get_value_opt, Serialize for DimensionalData", "src/dimensional_data.rs"), ("Display for Swell and SwellProviderError", "src/swell.rs"), ("Display for Direction", "src/units/direction.rs"), ("From<MeteorologicalDataRecord> for HashMap", "src/data/meteorological_data_record.rs"), ("Display for DataRecordParsingError", "src/data/parseable_data_record.rs")],
    specs=["spec/shown.vo"], level="proof",
    assumptions=["write!/format! write their pieces one after another; the text of a number, and of a number to n decimals, is an uninterpreted function of it", "a text written through {:.1} by a type with its own Display that writes its parts itself is its ordinary text", "HashMap::from holds every pair whose key no other pair has", "String::to_string and clone copy the text"],
    note="Verus proves the displayed text of every quantity, direction, swell and error piece by piece, and both maps field by field. The derived JSON is judged by the search only.")

add(id="C33", title="A model message is read at the grid points of a location",
    statement="On a regular grid, whose first and last points bound it and whose columns run eastwards, a location inside the grid reads the value of a grid point at most half a step away in latitude and in longitude, or, interpolated, the bilinear blend of the points around it (a point's own value at that point, on an edge or between two points too), however its longitude is written and also across the prime meridian and the date line; a query within a tolerance returns, in grid order, the values that are not missing of all the points within it each way and no others. A location outside the grid is an error, and none of them panics. A point record made of messages takes for each variable the mean of those values, needs height, period and direction, and lists the swells that are not missing from the highest down.",
    quant="every regular grid of at least 2x2 points from -180 to 360 degrees, every location and tolerance",
    why="no test checks what value a query returns; which point is read depends on sizes, steps, signs and wrap-around together",
    files=["src/model/noaa_model.rs", "src/data/gfs_wave_grib_point_data_record.rs", "src/location.rs", "src/tools/analysis.rs"],
    mech=[("NOAAModel::query_location_data, interp_location_data, query_location_tolerance, degrees_east, grid_position", "src/model/noaa_model.rs"), ("GFSWaveGribPointDataRecord::from_messages", "src/data/gfs_wave_grib_point_data_record.rs"), ("lerp, bilerp", "src/tools/analysis.rs"), ("Location::within_bbox, absolute_longitude", "src/location.rs")],
    specs=["spec/gridpoint.vo"], level="proof",
    assumptions=[REAL, "gribberish, which is not at hand: a message has rows x columns values row by row, the first and last point of its projector are those of the grid, its box spans them, and lat_lng gives the latitudes of the rows and the longitudes of the columns", "f64::round is within a half of its argument", "the contract of within_bbox, proved under C13"],
    note="Verus proves the three queries for every regular grid over the reals, through the contracts of lerp, bilerp and within_bbox. That missing values are left out, and from_messages, which is outside the extracted subset (it fills a map from a closure that prints), are judged by the search only, which compiles the module with a stand-in for gribberish.")

add(id="C34", title="Buoy data sets decode variable by variable and time by time",
    statement="A buoy's weather data set gives a record for each time that all of its thirteen series reach, in order and no others, dated by the data set's time axis: each quantity is the value of its own variable at that time (water temperature from sea_surface_temperature, tide from water_level, and so on), nothing when that is the variable's flag for missing (999 for directions and temperatures, 9999 for pressure, 99 otherwise), in its unit and under its name, directions in whole degrees. A spectral data set gives a record for each time whose values are all there, in order: its date, the frequency axis, and the energies, mean and principal directions and first and second coefficients of that time, each frequency's from its own place; a time cut short ends the records.",
    quant="every data set that has the variables with a time axis (and frequencies), of any number of times, frequencies and values",
    why="the tests count the records of one file; a series taken for another, a record shifted by a frequency or a flag taken for a value passes them",
    files=["src/data/meteorological_data_record.rs", "src/data/swden_wave_data_record.rs", "src/tools/math.rs", "src/units/direction.rs"],
    mech=[("StdmetDataRecordCollection::from_data, records", "src/data/meteorological_data_record.rs"), ("SwdenWaveDataRecordIterator::new, next; SwdenWaveDataRecordCollection::from_data, records", "src/data/swden_wave_data_record.rs"), ("is_some_missing, f_eq", "src/tools/math.rs")],
    specs=["spec/dods.vo"], level="proof",
    assumptions=[REAL, "readap, which is not at hand: a data set has named variables, each with its axes and its values in order, and its values convert to numbers or not", "an instant depends on the number of seconds only (uninterpreted)", "the data set has the variables, its times are instants, and its spectra have a frequency and no more times than its axis", "izip! is the chain of zips it is defined as, and the iterators returned are followed to their end"],
    note="Verus proves every function of both decoders, for data sets of any size; that stepping the spectral reader to its end gives exactly the complete spectra is proved by induction over its steps. The search compiles the modules with a stand-in for readap.")

P("C01", "Frame changes are proper rotations and compose as a group",
  "For every pair of supported reference frames, every epoch and every Earth-orientation model, the change of frame is a proper rotation: it preserves lengths, angles and handedness. Going there and back restores the vector, and going A to C directly equals going A to B to C through any third frame at the same epoch, for directions, positions and velocities alike.",
  "all frame pairs and triples, epochs 1600-2400, nutation models, EOP sources and vectors",
  "tests check a few frame pairs at a few epochs; the law quantifies over all pairs, epochs, models and vectors",
  ["src/coordinates/transform/providers/mod.rs","src/coordinates/transform/providers/frames_inertial.rs","src/coordinates/transform/providers/frames_earth.rs","src/coordinates/transform/providers/frames_catalog.rs","src/coordinates/transform/providers/frames_planetary.rs","src/coordinates/transform/providers/frames_teme.rs","src/coordinates/transform/ext.rs"],
  [("frame rotation providers composed through ICRS","src/coordinates/transform/providers/mod.rs")],
  ["DirectionAstroExt / PositionAstroExt / VectorAstroExt conversions","frame_rotation"],
  "group laws (orthogonality, determinant, inverse, composition) over generated epochs, models and vectors")
P("C02", "Frame rotations equal the IAU/IERS definitions",
  "At every epoch the rotation between two frames equals the one the IAU/IERS standards define for them: frame bias, IAU 2006 precession, nutation, CIO-based intermediate systems, Earth rotation angle and polar motion for terrestrial frames, fixed galactic/FK4/ecliptic rotations, IAU pole and prime-meridian elements for planetary body-fixed frames, and the TEME convention.",
  "all epochs 1800-2200, models, EOP sources and directions",
  "tests compare a handful of epochs with loose tolerances or only invert what they build; a wrong sign or a swapped angle at other epochs passes",
  ["src/coordinates/transform/providers/frames_inertial.rs","src/coordinates/transform/providers/frames_earth.rs","src/coordinates/transform/providers/frames_catalog.rs","src/coordinates/transform/providers/frames_planetary.rs","src/coordinates/transform/providers/frames_teme.rs","src/astro/cio.rs","src/astro/polar_motion.rs","src/astro/frame_bias.rs"],
  [("rotation builders","src/astro"),("providers","src/coordinates/transform/providers")],
  ["frame_rotation", "conversion extension traits"],
  "differential testing against an independent SOFA/IERS-style reference model")
P("C03", "Center changes are exact, antisymmetric and transitive",
  "Moving a position from one origin to another (barycentre, Sun, Earth, Moon, planets, Mars, satellites' hosts, Lagrange points) adds exactly the offset given by the chosen ephemeris at that epoch, expressed in the position's frame. The shift A to B is the negative of B to A, A to C equals A to B plus B to C, and a round trip restores the position.",
  "all center pairs, frames, epochs, ephemerides and positions",
  "tests sample few pairs and epochs",
  ["src/coordinates/transform/providers/centers_standard.rs","src/coordinates/transform/providers/centers_planetary.rs","src/coordinates/transform/providers/centers_lagrange.rs","src/coordinates/transform/centers/mod.rs","src/coordinates/transform/centers/position/to_bodycentric.rs","src/coordinates/transform/ext.rs"],
  [("center shift providers composed through the barycentre","src/coordinates/transform/providers")],
  ["center_shift","PositionAstroExt::to_center"],
  "algebraic laws and differential testing against the ephemeris itself and a synthetic ephemeris")
P("C04", "Precession, nutation, ERA, sidereal time and EE follow the IAU models",
  "For every epoch, the precession angles, mean obliquity, nutation in longitude and obliquity for each supported model, Earth rotation angle, mean and apparent sidereal time and the CIO quantities X, Y and s equal the values the named IAU model defines, to the model's stated precision. Derived quantities stay consistent with each other: apparent minus mean sidereal time is the equation of the equinoxes, and ERA advances by one turn per sidereal day.",
  "all epochs 1800-2200 and all four nutation models",
  "tests compare with SOFA at one or two epochs only; a wrong coefficient of a long-period or secular term is invisible there",
  ["src/astro/precession.rs","src/astro/nutation/mod.rs","src/astro/nutation/nut00a.rs","src/astro/era.rs","src/astro/sidereal.rs","src/astro/cio.rs","src/astro/earth_rotation.rs"],
  [("series evaluation and polynomials","src/astro")],
  ["public functions of the astro modules"],
  "differential testing against independently written IAU/SOFA models")
P("C05", "Earth-orientation data are interpolated exactly and never extrapolated",
  "Within a table's coverage, polar motion, UT1-UTC, length of day and pole offsets at any epoch are the interpolation between the two bracketing daily rows, leap-second steps in UT1-UTC included, and exactly the row on a row. Outside coverage a checked query reports an error naming the epoch rather than inventing a value, and IERS files are parsed into exactly the rows they contain.",
  "all generated tables, bulletin files and query epochs",
  "tests use the bundled table and a few dates; tables with leap seconds, gaps and boundary epochs are not sampled",
  ["src/astro/eop.rs","src/astro/iers_data.rs","src/formats/iers/eop.rs","src/astro/earth_rotation_provider.rs","src/astro/earth_rotation.rs"],
  [("EOP providers and the IERS parser","src/astro/eop.rs, src/formats/iers/eop.rs")],
  ["EopProvider implementations","IERS parser"],
  "differential testing against a reference interpolator and a table writer (round trip)")
P("C06", "Aberration is the exact relativistic law and inverts",
  "For every direction and every observer velocity below light speed, the aberrated direction is the one given by the Lorentz transformation of the light direction: it stays a unit vector, moves towards the velocity apex in the plane of direction and velocity by the relativistic angle, and removing aberration restores the original direction.",
  "all directions, velocities and epochs",
  "tests use Earth's velocity and a few stars; magnitude, apex-direction and inverse laws over all velocities are not sampled",
  ["src/astro/aberration.rs","src/coordinates/observation/observational_direction.rs","src/coordinates/observation/observer_state.rs"],
  [("aberration formula","src/astro/aberration.rs")],
  ["aberration functions","astrometric/apparent direction wrappers"],
  "differential testing against a boost of the photon four-momentum, plus inverse and apex laws")
P("C07", "Gravitational light deflection follows the IAU formula",
  "For every source direction, observer position and deflecting body, the deflected direction is a unit vector displaced away from the body in the plane of body and source by the general-relativistic angle, growing towards the limb and limited there. The inverse operation restores the original direction and far from every deflector the direction is unchanged to the stated precision.",
  "all source directions, observer geometries and deflectors",
  "tests use a few geometries",
  ["src/astro/light_deflection.rs"],
  [("deflection formula","src/astro/light_deflection.rs")],
  ["light deflection functions"],
  "differential testing against the IAU formula, plus plane, sign and inverse laws")
P("C08", "Proper and space motion propagate stars rigorously and reversibly",
  "A star's catalogue position propagated between any two epochs moves as uniform space motion (or, where only proper motion is given, as the stated linear rule) with the declared proper-motion convention: the result is a valid direction, propagation by zero is the identity, and propagation there and back or in two steps equals the direct one.",
  "all catalogue positions including near the poles and RA wrap, proper motions, parallaxes, radial velocities and epoch pairs",
  "tests sample few stars away from poles and wraps",
  ["src/astro/proper_motion.rs","src/bodies/stars.rs"],
  [("proper motion propagation","src/astro/proper_motion.rs")],
  ["proper motion functions"],
  "differential testing against Cartesian uniform space motion, identity/inverse/composition laws")
P("C09", "Topocentric and horizontal transforms are geometrically exact",
  "For any site, epoch and target, the topocentric position is the target minus the site's ellipsoidal (WGS84) position rotated by Earth orientation, and horizontal coordinates are that vector resolved on local north-east-up: altitude from the horizon, azimuth from north through east. The inverse transforms restore the input.",
  "all geodetic sites including poles and negative heights, epochs and targets",
  "tests sample a few sites and stars",
  ["src/coordinates/transform/centers/position/to_topocentric.rs","src/coordinates/transform/frames/to_horizontal.rs","src/coordinates/transform/horizontal.rs","src/coordinates/centers.rs"],
  [("site to vector and ENU resolution","src/coordinates/transform/horizontal.rs")],
  ["to_topocentric, to_horizontal, from_horizontal"],
  "differential testing against reference WGS84/ENU/Earth-rotation vector geometry and round trips")
P("C10", "Horizontal-coordinate conventions and ecliptic-of-date transforms are consistent",
  "Converting azimuth conventions (origin north/south, clockwise/counter-clockwise) is a bijection that names the same point of the sky and normalises azimuth to one turn. Conversions between spherical and Cartesian forms of directions and positions, and the ecliptic-of-date transforms, preserve the point and round-trip everywhere, including poles and wrap-around.",
  "all conventions, angles (any number of turns), directions and positions",
  "tests sample a few convention pairs and mid-latitude points",
  ["src/coordinates/horizontal.rs","src/coordinates/transform/ecliptic_of_date.rs","src/coordinates/transform/to_cartesian.rs","src/coordinates/transform/to_spherical.rs"],
  [("convention conversion","src/coordinates/horizontal.rs")],
  ["convention conversion functions, to_cartesian, to_spherical, ecliptic of date"],
  "bijection and metamorphic laws plus a reference unit-vector model")
P("C11", "Sky-direction samplers cover what they promise, uniformly",
  "For every altitude range and step size, a sky grid yields exactly the number of cells it reports, at the documented cell centres inside the requested region, in the documented order and without duplicates. Each cell's solid angle is the documented one, and for steps that divide the region the areas add up to the region's solid angle to midpoint accuracy.",
  "all region shapes, resolutions and sizes",
  "tests fix a few sizes",
  ["src/coordinates/sampling.rs"],
  [("grid construction","src/coordinates/sampling.rs")],
  ["sampling iterators"],
  "invariants over generated grids (count, region membership, solid-angle sums)")
P("C12", "Altitude event search finds every crossing, extremum and period",
  "For any target, site, window and threshold, the reported crossings, culminations, above/below and in-range periods are exactly those of the target's altitude curve: each reported time is on the threshold (or at a local extremum) within tolerance with the right direction and value, nothing longer than the documented resolution is missed, and periods lie inside the window, sorted, disjoint and alternating. Above-threshold and below-threshold periods partition the window.",
  "all targets (Sun, Moon, planets, stars, user-defined providers), sites including polar, windows, thresholds and search options",
  "tests sample one site and date per body; grazing events, polar days, window edges and unusual altitude curves are not reached",
  ["src/event/altitude/events.rs","src/event/altitude/provider.rs","src/event/altitude/search.rs","src/event/search/intervals.rs","src/event/search/crossings.rs","src/event/search/extrema.rs","src/event/search/root_finding.rs","src/event/search/scan_fallback.rs","src/event/search/bracketing.rs","src/event/lunar/altitude_periods.rs","src/event/lunar/moon_cache.rs","src/event/stellar/altitude_periods.rs","src/event/solar/periods.rs"],
  [("scan + root refinement","src/event/search"),("per-body engines","src/event")],
  ["crossings, culminations, altitude_ranges, above_threshold, below_threshold"],
  "differential testing against dense evaluation of the public altitude function and of synthetic altitude curves with known roots")
P("C13", "Azimuth event search finds every crossing, extremum and period",
  "For any target, site, window and bearing, the reported azimuth crossings, extrema and in-range periods are exactly those of the target's azimuth curve on the circle, including ranges that wrap through north: times are on the bearing within tolerance, nothing longer than the documented resolution is missed, and in-range and out-of-range periods partition the window.",
  "all targets, sites, windows and bearing ranges including wrap-around",
  "tests sample a few bearings",
  ["src/event/azimuth/events.rs","src/event/azimuth/provider.rs","src/event/azimuth/search.rs","src/event/azimuth/types.rs"],
  [("unwrapped azimuth search","src/event/azimuth")],
  ["azimuth crossings, extrema, ranges"],
  "differential testing against dense evaluation of the public azimuth function and synthetic azimuth curves")
P("C14", "Lunar phase, illumination and phase events match the geometry",
  "At every epoch the Moon's elongation, phase angle and illuminated fraction satisfy the Sun-Moon-observer geometry, and the phase label is the one of the elongation octant. Searches over any window return every principal phase exactly once, in order and cyclic sequence, at the instant the elongation reaches the defining angle, and illumination-range periods are exactly where the fraction lies in the range.",
  "all epochs, observers, windows and illumination ranges",
  "tests sample a few known lunations",
  ["src/event/lunar/phase.rs","src/event/lunar/photometry.rs","src/event/lunar/moon_equations.rs"],
  [("phase geometry and event search","src/event/lunar/phase.rs")],
  ["moon_phase functions, find_phase_events, illumination ranges"],
  "differential testing against Sun/Moon vectors from the ephemeris and dense evaluation")
P("C15", "Twilight classification and solar day events agree with Sun altitude",
  "For every site and instant the twilight class is the one of the Sun's altitude band, and daily events (rise, set, transits, twilight boundaries, night periods, day length) are exactly the times at which the Sun's altitude crosses the corresponding threshold, with polar day and night reported as such. Events come in chronological order and night periods for each twilight kind nest.",
  "all sites including polar, dates and twilight kinds",
  "tests sample mid-latitude sites on a few dates",
  ["src/event/solar/classification.rs","src/event/solar/night_types.rs","src/event/solar/daily_events.rs","src/event/solar/periods.rs","src/event/solar/sun_equations.rs"],
  [("classification and daily events","src/event/solar")],
  ["twilight classification, daily events, night periods"],
  "differential testing against dense evaluation of the Sun's altitude; ordering and nesting laws")
P("C16", "Analytic ephemerides evaluate their series and their velocities are derivatives",
  "At every epoch the analytic planetary, lunar and Pluto positions equal the published series evaluated term by term, every velocity equals the time derivative of the matching position, and all convenience views (barycentric, heliocentric, geocentric, body wrappers) agree with each other.",
  "all bodies and epochs within the theories' span",
  "tests compare isolated epochs; a dropped or wrongly scaled term or power of time appears only at other epochs",
  ["src/ephemeris/vsop87/vsop87_impl.rs","src/ephemeris/vsop87/vsop87a.rs","src/ephemeris/vsop87/vsop87e.rs","src/ephemeris/elp2000/elp_series.rs","src/ephemeris/pluto.rs","src/ephemeris/vsop87_backend.rs","src/ephemeris/mod.rs","src/bodies/solar_system.rs","src/event/lunar/meeus_ch47.rs"],
  [("series evaluators","src/ephemeris")],
  ["Ephemeris trait, planet types' vsop87a/vsop87e, Moon::get_geo_position, Pluto"],
  "differential testing against an independent evaluator of the published tables; finite-difference derivative law")
P("C17", "Keplerian orbits obey two-body dynamics",
  "For every valid set of elliptic or hyperbolic elements the heliocentric (or explicit-mu) position at any epoch is the two-body one: Kepler's equation holds, energy and angular momentum are conserved, the orbit is swept at the mean-motion rate, and the plain, prepared, conic and mean-motion forms agree wherever they describe the same orbit, up to the parabolic limit from either side. Angles outside their conventional ranges mean the same orbit. Invalid and parabolic elements are rejected with an error, never turned into a wrong or panicking orbit; elements survive serialisation.",
  "all element sets, eccentricities through the parabolic limit and epochs",
  "tests sample few orbits with moderate eccentricity",
  ["src/astro/orbit.rs","src/astro/conic.rs","src/astro/conic_equations.rs","src/bodies/comet.rs","src/bodies/asteroid.rs","src/bodies/satellite.rs"],
  [("Kepler and conic solvers","src/astro/conic_equations.rs")],
  ["orbit position/velocity functions"],
  "invariants of two-body motion and differential testing against a universal-variable reference")
P("C18", "TLE mean elements propagate as the documented secular-J2 theory",
  "For every usable element set, near-Earth and deep-space alike, and every time offset either way, the propagated TEME position and velocity are those of Keplerian motion whose node, perigee and anomaly drift at the secular J2 rates of the chosen gravity model and whose mean motion follows the element set's own derivatives (printed, as in every TLE, divided by two and six): radius within the apsides, energy and angular momentum of that ellipse, velocity the rate of change of position up to the J2 rates. Propagating to a UTC instant equals propagating by the elapsed time to it, leap seconds included, to sub-second precision, and the state carries the requested epoch. Unusable elements, decayed states and non-finite offsets are errors, never panics or non-finite states.",
  "all element sets up to eccentricity 1-1e-7 and offsets of minutes to years, both signs",
  "tests sample a few published satellites",
  ["src/astro/sgp4/propagator.rs","src/astro/sgp4/elements.rs","src/astro/sgp4/state.rs","src/astro/sgp4/error.rs"],
  [("TLE propagator","src/astro/sgp4/propagator.rs")],
  ["TlePropagator::{from_tle_with_model, propagate_at, propagate_minutes}"],
  "differential testing against an independent statement of the theory (bisection Kepler solver, rotation matrices); two-body invariants; finite-difference velocity; independent leap-second table")
P("C19", "TLE text round-trips and every corruption of a checked field is rejected",
  "Formatting any representable element set gives two 69-column lines with correct checksums, and parsing them returns the same elements to the format's resolution, 2-digit years and exponent fields included. A line with wrong length, line number, checksum, mismatched catalogue numbers or unreadable fields is rejected with an error that names the problem, and an element set no TLE can hold is an error rather than a misaligned line.",
  "all representable element sets and all single-character corruptions",
  "tests use a few published TLEs",
  ["src/formats/tle/parse.rs","src/formats/tle/tle.rs","src/formats/tle/builder.rs","src/formats/tle/error.rs"],
  [("TLE parser and writer","src/formats/tle")],
  ["Tle parse, to_lines, builder"],
  "round-trip against an independent TLE writer/reader and exhaustive single-character mutation")
P("C20", "OMM documents in KVN, XML and JSON carry the same element set",
  "Any element set written as an OMM document in KVN, XML or JSON parses back to the same values, the three encodings agree with each other and with the equivalent TLE, and documents that omit a mandatory field or hold malformed numbers or epochs are rejected.",
  "all element sets, field orders, optional-field subsets and encodings",
  "tests use one sample document per encoding",
  ["src/formats/tle/omm/mod.rs","src/formats/tle/omm/kvn.rs","src/formats/tle/omm/xml.rs","src/formats/tle/omm/json.rs"],
  [("OMM parsers","src/formats/tle/omm")],
  ["OMM parse/write functions"],
  "round-trip and cross-encoding differential testing with an independent document generator")
P("C21", "CCSDS OEM, OPM and TDM messages are read and written faithfully",
  "Every state, epoch, observation and metadata value the OEM (KVN and XML), OPM and TDM readers expose is returned unchanged and in file order, with skipped covariance and manoeuvre blocks leaving the states around them intact. Writing and re-reading preserves a message, OEM to its printed resolution with valid calendar stamps, OPM and TDM exactly. OEM and OPM documents missing mandatory keywords, and documents with malformed or non-finite values, impossible epochs or unterminated blocks are rejected.",
  "all generated messages",
  "tests use one or two sample messages",
  ["src/formats/ccsds/oem.rs","src/formats/ccsds/opm.rs","src/formats/ccsds/tdm.rs"],
  [("CCSDS parsers/writers","src/formats/ccsds")],
  ["OEM/OPM/TDM parse and write"],
  "round-trip with an independent message writer (model = generated message)")
P("C22", "SP3, ANTEX, SINEX, ORBEX, RINEX and DORIS products are read and written as is",
  "For every well-formed SP3, ANTEX, SINEX, ORBEX, RINEX navigation, RINEX observation or RINEX-DORIS product the reader returns each supported record's epoch, satellite or station identifier, values and header items as written and in file order (also where numbers fill their columns and abut), records of kinds the reader does not support are skipped without disturbing their neighbours, a blank observation is absent, and the SP3 stream reader yields what the batch reader yields. The SP3, ANTEX, RINEX navigation and RINEX observation writers print values in the format's columns and reading them back gives the same product. Strict reading refuses impossible or malformed epochs, malformed or non-finite numbers and truncated records instead of inventing or dropping data.",
  "all generated products, including column-filling values, CRLF line ends, records of other kinds in between, and single-field damage",
  "tests use tiny fixtures",
  ["src/formats/igs/sp3.rs","src/formats/igs/antex.rs","src/formats/igs/sinex.rs","src/formats/igs/orbex.rs","src/formats/rinex/nav.rs","src/formats/rinex/obs.rs","src/formats/rinex/doris.rs"],
  [("column parsers","src/formats/igs, src/formats/rinex")],
  ["read_sp3, Sp3Stream, write_sp3, read_antex, write_antex, read_sinex, read_orbex, parse_rinex_nav, write_rinex_nav, read_rinex_obs, write_rinex_obs, read_rinex_doris"],
  "round-trip with independent file writers (model = generated product)")
P("C23", "ILRS CPF predictions and CRD ranging data are read as written",
  "Every header item, record, epoch and value of a well-formed CPF or CRD file (in the column layouts the modules document) is returned as written and in file order, also where fractional seconds round up across a second, minute or day, and records of unsupported kinds are skipped without disturbing their neighbours. Writing a CPF file and reading it back preserves header and records to the printed millimetre and millisecond. A record with a missing, malformed, non-finite or out-of-range field is an error in strict mode and is skipped alone in permissive mode.",
  "all generated files",
  "tests use tiny fixtures",
  ["src/formats/ilrs/cpf.rs","src/formats/ilrs/crd.rs"],
  [("CPF/CRD parsers","src/formats/ilrs")],
  ["parse_cpf, write_cpf, parse_crd (strict and permissive)"],
  "round-trip with independent file writers (model = generated file), damaged records")
P("C24", "No parser panics, hangs or exhausts memory on damaged input",
  "Every reader of external data, given arbitrary, truncated, mutated or adversarially sized bytes, terminates promptly and returns either a value or an error: it never panics, overflows the stack, hangs or allocates out of proportion to its input. The same holds for the queries and writers applied to whatever value was returned.",
  "all byte strings, with emphasis on mutations of valid files",
  "tests feed a few malformed samples per format",
  ["src/formats/error.rs","src/formats/tle/parse.rs","src/formats/ccsds/oem.rs","src/formats/igs/sp3.rs","src/formats/spice/daf.rs","src/formats/spice/text.rs","src/formats/ilrs/crd.rs","src/formats/rinex/nav.rs","src/formats/adsb/mod.rs"],
  [("error-returning parsers","src/formats")],
  ["every parse entry point"],
  "structure-aware mutation fuzzing of valid documents with a no-panic/no-crash/time/allocation oracle (crash isolation in a child process)")
P("C25", "ADS-B messages and compact position reports decode to what was sent",
  "Any position encoded as an even/odd CPR pair decodes globally to within the encoding resolution (the position of the latest frame), and locally from a single frame near a reference, everywhere including the poles and the date line; pairs from different latitude zones or beyond a pole are refused and longitudes lie in [-180, 180). A frame is accepted exactly when its length, digits, parity and downlink format (17 or 18) are right. Identification, altitude (25 ft codes), position and ground velocity fields decode to the transmitted values, components coded as not available are absent, and reserved characters, other type codes and subtypes are errors.",
  "all latitudes (incl. poles and NL boundaries), longitudes, altitudes, velocities and callsigns",
  "tests decode a few published frames",
  ["src/formats/adsb/cpr.rs","src/formats/adsb/mod.rs"],
  [("CPR and message decoding","src/formats/adsb")],
  ["ADS-B decode functions, CPR decode"],
  "round-trip against an independent DO-260 encoder")
P("C26", "Binary SPK/DAF kernels evaluate exactly as written",
  "For any well-formed DAF/SPK file in either byte order, every segment's descriptor and coefficients are read as written, states at any covered epoch equal the Chebyshev or interpolation polynomial the segment defines (velocity its derivative), later segments take precedence, body chains add up, and epochs or bodies outside coverage give an error, which where it speaks of a range names the epoch asked for and a segment's span that does not contain it.",
  "all generated kernels (segment types, record counts, orders, byte orders, chains) and query epochs",
  "tests use tiny synthetic files",
  ["src/formats/spice/daf.rs","src/formats/spice/segment.rs","src/formats/spice/spk.rs","src/formats/spice/spk_kernel.rs","src/formats/spice/kernel.rs","src/ephemeris/jpl/eval.rs"],
  [("DAF reader, segment evaluators","src/formats/spice")],
  ["SPK kernel open and state queries"],
  "differential testing against polynomials the generator chose, through an independent DAF writer")
P("C27", "SPICE text kernels, clocks and attitude kernels mean what they say",
  "Every variable assignment of a well-formed text kernel is returned with its values in order, later assignments replacing and += appending as the standard says, and LSK, SCLK, FK, PCK and IK readers return the leap seconds, clock conversions, frames, orientation constants and fields of view the file defines. A CK kernel (type 1 in the record layout the module documents, and type 3) gives the pointing of the latest segment covering the encoded clock, interpolated inside an interval, and an error outside.",
  "all generated kernels and query epochs",
  "tests use tiny hand-written kernels",
  ["src/formats/spice/text.rs","src/formats/spice/lsk.rs","src/formats/spice/sclk.rs","src/formats/spice/fk.rs","src/formats/spice/pck.rs","src/formats/spice/ik.rs","src/formats/spice/ck.rs","src/formats/sck.rs","src/formats/spice/naif.rs"],
  [("text kernel parser and readers","src/formats/spice")],
  ["text kernel parse, LSK/SCLK/FK/PCK/IK/CK queries"],
  "round-trip with independent kernel writers (model = generated kernel)")
P("C28", "A SPICE kernel pool resolves data by load order and explicit coverage",
  "Over any history of loading kernels into a SPICE context, each query is answered from the most recently loaded kernel that can answer it: SPK states by the latest kernel covering body and epoch (chained through common centres inside it), leap seconds by the latest LSK, frames and body constants by their latest definition. A combination no loaded kernel covers gives an error, never a stale or wrong state, and a load that fails leaves the context as before. The same SPK kernel gives the same answers through every provider built on it.",
  "all load histories and queries",
  "tests load one or two kernels",
  ["src/spice/context.rs","src/spice/kernel_set.rs","src/spice/frame_registry.rs","src/pod/spice/provider.rs","src/pod/providers.rs"],
  [("kernel set precedence","src/spice")],
  ["SpiceContext / KernelSet queries"],
  "stateful model-based testing against a list model of loaded segments", over=("histories","inputs"))
P("C29", "Runtime ephemerides reproduce their kernel and refuse to extrapolate",
  "A runtime-loaded planetary ephemeris gives for Sun, Earth and Moon exactly the combination of kernel segments the standard chain prescribes (Earth from its own segment or from the Moon and the Earth-Moon mass ratio, later segments first) in J2000 ecliptic axes and the documented units, with Earth's velocity the kernel's, and an error at epochs or for bodies its segments do not cover (naming the epoch and the span). Loading from a file, from bytes or from parsed segments gives the same ephemeris.",
  "all generated kernels and epochs including the span boundaries",
  "tests exercise one synthetic kernel",
  ["src/ephemeris/runtime_backend.rs","src/ephemeris/jpl/eval.rs","src/ephemeris/jpl/bodies.rs"],
  [("segment chain","src/ephemeris/runtime_backend.rs")],
  ["RuntimeEphemeris"],
  "differential testing against the polynomials written into a generated kernel")
P("C30", "Lagrange points satisfy the restricted three-body equations",
  "For every ephemeris, epoch and point, the solved Sun-Earth Lagrange point is in equilibrium in the instantaneous rotating frame (Sun, Earth and Moon attraction against rotation): L1 and L2 on the Sun-Earth line either side of the Earth, L3 opposite it, L4 and L5 sixty degrees ahead and behind. Fitted records reproduce the solver within the error they report, tile exactly the requested span and refuse to extrapolate, and the embedded archive is one continuous rigid configuration over exactly its advertised span.",
  "all systems, points and epochs",
  "tests check a few epochs",
  ["src/ephemeris/lagrange/solver.rs","src/ephemeris/lagrange/fit.rs","src/ephemeris/lagrange/mod.rs","src/ephemeris/lagrange/embedded.rs"],
  [("quintic solver and rotation to the primaries' frame","src/ephemeris/lagrange/solver.rs")],
  ["Lagrange point solver, fitter and embedded archive"],
  "residual of the defining equations computed independently from ephemeris vectors")
P("C31", "Orbit force models give the physical accelerations",
  "For every state, epoch and parameter set, each force model (central and zonal gravity, third bodies, drag, solar radiation pressure with eclipse, relativity, empirical terms) returns the acceleration its defining formula gives, and a composite model is the sum of its parts. The geodetic altitudes, air densities, shadow factors and spacecraft area-to-mass ratios they rest on equal their definitions. Missing context data and unphysical properties are errors rather than zeros.",
  "all states, epochs, spacecraft parameters and environments",
  "tests check a few states and magnitudes",
  ["src/astro/dynamics/forces/geopotential.rs","src/astro/dynamics/forces/third_body.rs","src/astro/dynamics/forces/drag.rs","src/astro/dynamics/forces/srp.rs","src/astro/dynamics/forces/relativity.rs","src/astro/dynamics/forces/empirical.rs","src/astro/dynamics/forces/mod.rs","src/astro/dynamics/density.rs","src/astro/dynamics/context.rs","src/astro/dynamics/gravity/egm_low_degree.rs"],
  [("force model implementations","src/astro/dynamics/forces")],
  ["force model acceleration", "EclipseModel", "density models", "SpacecraftProperties"],
  "differential testing against independent formulas and the gradient of the potential")
P("C32", "Propagation solves the dynamics; its transition matrix is the derivative",
  "For every initial state, force set, step control and arc, the propagated state solves the equations of motion to the tolerance asked for, forwards and backwards, at exactly the requested times, and propagating in two legs or there and back equals one arc. The state-transition and sensitivity matrices equal the derivatives of the final state with respect to initial state and parameters, the diagnostics comparing them report the true discrepancy, and radius crossings are recorded in order and sense. Impossible steps, tolerances, intervals and missing context are errors.",
  "all initial states, force combinations, step sizes and arcs",
  "tests propagate a few orbits",
  ["src/astro/dynamics/propagation/propagator.rs","src/astro/dynamics/state.rs","src/pod/propagation/integrators.rs","src/pod/propagation/variational.rs","src/pod/propagation/adapter.rs","src/pod/propagation/validation.rs"],
  [("integrators and variational equations","src/pod/propagation")],
  ["propagators and STM APIs"],
  "differential testing against analytic two-body motion and a reference integrator; finite differences")
P("C33", "Estimators return the weighted least-squares / Kalman solution",
  "The batch estimator's correction, covariance and reduced chi-square equal the normal-equation solution of the accumulated weighted observations (any order, repeated partials included), where a refused observation leaves no trace and singular systems are errors. Nonlinear iteration re-linearises at its own estimate, reaches the minimum of solvable problems and says so. The sequential filter's predict and update equal the textbook Kalman equations with symmetric positive semi-definite covariance, and parameter ordering and covariance validation accept exactly what they define.",
  "all generated design matrices, weights, priors, measurement sequences and outliers",
  "tests use tiny fixed problems",
  ["src/pod/estimation/wls.rs","src/pod/estimation/nonlinear.rs","src/pod/estimation/sequential.rs","src/pod/problem/covariance.rs","src/pod/problem/parameter.rs"],
  [("solvers","src/pod/estimation")],
  ["WLS, Gauss-Newton and EKF APIs"],
  "differential testing against independent normal-equation and Kalman implementations; optimality conditions")
P("C34", "Process-noise matrices are the exact covariance integrals",
  "For every interval and parameter set, the process-noise covariance is symmetric, positive semi-definite and equal to the integral of its diffusion (white acceleration on position and velocity, Gauss-Markov scale factors, white empirical accelerations), so that consecutive intervals compose and a zero interval adds nothing. Negative or non-finite intervals, densities, sigmas and time constants are refused. A piecewise schedule gives the level of the interval containing the elapsed time, and the last one afterwards.",
  "all intervals, spectral densities and correlation times",
  "tests check a few numbers",
  ["src/pod/process/noise.rs"],
  [("closed forms","src/pod/process/noise.rs")],
  ["process noise functions"],
  "differential testing against numerical quadrature; composition and definiteness laws")
P("C35", "Thrust models burn exactly inside their arcs with the commanded vector",
  "For every schedule, attitude law and epoch, thrust acceleration is non-zero exactly while an arc is active (from its start up to, not including, its stop), has the commanded magnitude for the current mass and points along the normalised commanded direction. Mass flow is thrust over exhaust velocity, the propellant ledger follows the rocket equation over any history of burns, and refused burns leave it unchanged.",
  "all arcs, frames, states and epochs including the arc boundaries",
  "tests check a few burns",
  ["src/pod/force/thrust.rs","src/pod/force/low_thrust.rs","src/pod/force/thrust_arc.rs","src/pod/force/empirical_periodic.rs"],
  [("thrust models","src/pod/force")],
  ["thrust force models"],
  "differential testing against independent formulas; model-based testing of the ledger over generated burn histories")
P("C36", "Measurement models and corrections predict the physical observable",
  "For every geometry, GNSS pseudorange and carrier-phase residuals are the measurement minus range, clock difference, documented Saastamoinen troposphere, broadcast (Klobuchar, scaled to the frequency; opposite sign for phase) ionosphere, Earth-rotation and relativistic (-2 r.v/c) terms and ambiguity, and SLR residuals the measurement minus the two-way light-time range, troposphere and Shapiro delay. Chained range corrections (phase centre and tide along the line of sight, Shapiro) apply in order of registration. A batch answers every observation of the asked epoch, in insertion order, with the residual that observation gives on its own.",
  "all geometries, clocks, meteorology and frequencies",
  "tests check a few numbers per correction",
  ["src/pod/observation/corrections.rs","src/pod/observation/gnss_obs.rs","src/pod/observation/slr_obs.rs","src/pod/observation/batch.rs","src/pod/observation/obs_trait.rs","src/pod/observation/provider_bundle.rs"],
  [("observation models","src/pod/observation")],
  ["observation models and correction functions"],
  "differential testing against independent formulas")
P("C37", "POD products and quality metrics report exactly what was computed",
  "SP3 and OEM products read back to the same states, identifiers and epochs (to the written resolution) under a header that describes the same data, and residual files in CSV and Parquet keep every record written. Manifests are canonical whatever the order of their entries and carry correct hashes, product names parse back to what they were formatted from. Residual statistics, SLR validation and radial/along/cross differences equal their definitions.",
  "all generated solutions, names and residual sets",
  "tests write one tiny product each",
  ["src/pod/product/orbit.rs","src/pod/product/residuals_csv.rs","src/pod/product/residuals_parquet.rs","src/pod/product/naming.rs","src/pod/product/manifest.rs","src/pod/product/qc_json.rs","src/pod/qc/orbit_compare.rs","src/pod/qc/residuals.rs","src/pod/qc/slr_validation.rs","src/pod/run/manifest.rs","src/pod/run/dataset.rs"],
  [("writers and statistics","src/pod/product, src/pod/qc")],
  ["product writers, naming, qc functions"],
  "round-trip through the library's and independent readers; reference statistics")
P("C38", "Force and problem configuration build exactly what they declare",
  "A force configuration yields exactly the declared force models, in field order and with their parameters, and each acts as the same model built by hand; the registry builds what was last registered under a name, and an unknown name or parameters of the wrong shape are refused with an error naming the model. Arcs run from start to stop, and a parameter ordering finds the first slot of a kind. Covariance checks accept exactly the matrices of the right size, symmetric within the tolerance and with a non-negative diagonal, and name the offending entry otherwise.",
  "all configurations and registration histories",
  "tests use a few configurations",
  ["src/pod/force/config.rs","src/pod/force/registry.rs","src/pod/problem/arc.rs","src/pod/problem/parameter.rs","src/pod/problem/covariance.rs"],
  [("registry","src/pod/force/registry.rs")],
  ["force registry and configuration"],
  "stateful model-based testing against a map model; acceleration equality with directly built models", over=("configurations","histories"))
P("C39", "Mission geometry predicates agree with 3-D geometry",
  "For all observer, target and body geometries, occultation fraction and eclipse state follow from the apparent disks of the two spheres (nothing behind the target hides it), line-of-sight obstruction, azimuth-elevation-range, range rate and light time, beta angle and local times of node and sub-satellite point equal what the vector geometry defines, including degenerate alignments. Terrain masks interpolate their profile all the way round, and field-of-view containment follows its half angles. The mission context looks up exactly what was last registered under an alias.",
  "all geometries",
  "tests sample simple alignments",
  ["src/mission/geometry/az_el_range.rs","src/mission/geometry/eclipse.rs","src/mission/geometry/fov.rs","src/mission/geometry/local_frame.rs","src/mission/geometry/occultation.rs","src/mission/geometry/orbit_relative.rs","src/mission/geometry/terrain_mask.rs","src/mission/site.rs","src/mission/context.rs"],
  [("geometry functions","src/mission/geometry")],
  ["mission geometry functions"],
  "differential testing against independent vector geometry")
P("C40", "Catalogue searches return exactly the matching entries",
  "For any catalogue content, centre, radius, filter and epoch, the cone searches (whole, chunked, at an epoch) return in order exactly the entries whose angular distance and attributes match, across the RA wrap, the poles and large radii. Proper motion moves an entry linearly at its catalogue rates and leaves it in range. Reading a CSV table keeps every valid row's values and reports a missing, non-numeric, non-finite or out-of-range value with its column and line; the named stars and observatories stand where they do in reality.",
  "all catalogues and queries",
  "tests query a few entries",
  ["src/catalogs/catalog.rs","src/catalogs/ingest.rs","src/catalogs/record.rs","src/catalogs/mod.rs","src/catalogs/observatories.rs","src/bodies/catalog.rs"],
  [("catalogue index","src/catalogs")],
  ["catalogue search, ingest"],
  "model-based testing against a linear scan")
P("C41", "Atmosphere models follow their formulas and physical bounds",
  "For every wavelength, altitude, pressure, zenith angle and profile, Rayleigh, aerosol, ozone and airglow quantities, phase functions, airmass, transmission and the standard atmosphere follow their published formulas or tables, stay within physical bounds and are monotone where physics requires. Inverse functions (pressure altitude, geometric altitude) invert, phase functions integrate to one, and transmission multiplies along the path.",
  "all physical inputs including domain edges",
  "tests check a few numbers",
  ["src/atmosphere/rayleigh.rs","src/atmosphere/mie.rs","src/atmosphere/ozone.rs","src/atmosphere/airglow.rs","src/atmosphere/airmass.rs","src/atmosphere/extinction.rs","src/atmosphere/profile.rs","src/atmosphere/scattering.rs","src/bodies/aircraft/isa.rs","src/bodies/aircraft/inner.rs"],
  [("formulas","src/atmosphere")],
  ["atmosphere functions"],
  "differential testing against independent formulas; bounds, monotonicity, normalisation and inverse laws")
P("C42", "Serialisation round-trips every public value",
  "Orbits, coordinates with their sites and centre parameters, proper motions, timed samples, Moon phases, estimation parameters and covariances, dataset references, run manifests and residual statistics and records read back equal from JSON (numbers to their last bit, epochs to 0.1 ms). A document that lacks a required member, holds the wrong kind of value, is cut short or names something unknown is refused. Orbit elements that the validated constructors refuse are refused when read as well.",
  "all values of all serialisable types",
  "tests round-trip single instances of some types",
  ["src/coordinates/centers.rs","src/astro/conic.rs","src/astro/orbit.rs","src/astro/proper_motion.rs","src/event/lunar/phase.rs","src/ephemeris/lagrange/mod.rs","src/targets/target.rs","src/pod/problem/parameter.rs","src/pod/problem/covariance.rs","src/pod/run/dataset.rs","src/pod/run/manifest.rs","src/pod/qc/residuals.rs","src/pod/product/residuals_csv.rs"],
  [("serde implementations","src")],
  ["serde_json round trip"],
  "round-trip over generated values")
P("C43", "Data checksums are SHA-256 and verification is exact",
  "For every byte string the digest equals SHA-256, and converting digests to and from hexadecimal is lossless in either letter case. An integrity assertion passes exactly when the digests are equal.",
  "all byte strings, with lengths around every padding and block boundary, and all hex strings",
  "tests use the published vectors only",
  ["src/checksum.rs"],
  [("SHA-256","src/checksum.rs")],
  ["checksum functions"],
  "differential testing against an independent SHA-256; metamorphic splitting")
P("C44", "Photometric quantities follow passband curves and lunar photometry",
  "Passband transmission at every wavelength is the linear interpolation of the published curve and zero outside it. Lunar albedo, phase attenuation and reflected moonlight equal the published formulas for every wavelength, phase and distance (fading with the inverse square of the distance), and an input that is not finite or a distance that is not positive gives NaN.",
  "all wavelengths, bands, phases and distances",
  "tests check a few wavelengths",
  ["src/photometry/passbands/bessell1990.rs","src/photometry/passbands/mod.rs","src/event/lunar/photometry.rs"],
  [("tables and interpolation","src/photometry")],
  ["passband and photometry functions"],
  "differential testing against an independent interpolator and formula")
P("C45", "Targets carry positions, epochs and motions without loss",
  "A coordinate sample keeps the position, epoch and motion it was given: an update changes only position and epoch, and a conversion to another frame or centre changes only the position, by the transform at its stored epoch. Every trackable object (Sun, Moon, planets, stars, ICRS directions, samples) gives through the tracking interface what its own API gives at that epoch, and an aircraft moves by constant speed, track and climb over the sphere. Body constructors and builders keep every field or refuse when one is missing, and the preset Sun, planets, moons and Lagrange points are where the ephemerides and periods put them (planets within 3 degrees for a century).",
  "all bodies, stars, targets, frames and epochs",
  "tests check one target each",
  ["src/targets/target.rs","src/targets/trackable.rs","src/targets/transform.rs","src/bodies/solar_system.rs","src/bodies/planets.rs","src/bodies/satellite.rs","src/bodies/stars.rs","src/bodies/asteroid.rs","src/bodies/comet.rs","src/bodies/aircraft/inner.rs"],
  [("Target and Trackable","src/targets")],
  ["CoordinateWithPM / Trackable APIs"],
  "differential testing of every trackable against its own API")

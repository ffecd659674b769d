S = "geokit/src/"
PROPS = [
 dict(id="G01", title="Longitudes, latitudes and azimuths always stay in their documented range",
  statement="Whatever constructor, operator or compound assignment produced it, a longitude lies in [-180°, 180°], a latitude in [-90°, 90°] and an azimuth in ]-180°, 180°]. Normalising a longitude or an angle, and taking the difference of two longitudes, azimuths or angles, always gives a value in ]-180°, 180°]. This holds for every finite input, including values many turns away and values one rounding step from a bound.",
  quant="every finite operand of every constructor and operator of the three coordinate types", why="The bound must hold for all 2^64 operands including those where the remainder rounds onto or past the bound; tests sample a dozen.",
  files=[S+"cs/geodetic.rs", S+"cs/azimuth.rs", S+"quantities/angle.rs", S+"math/fp.rs"], mech="Lon::new/Lat::new/Azimuth::new wrap or clamp; operators rebuild through them"),
 dict(id="G02", title="Wrapping only removes whole turns; clamping only moves out-of-range values",
  statement="Normalising an angle, building a longitude or azimuth and adding to or subtracting from them changes the angle by a whole number of turns and nothing else, so its direction is preserved. Values already in range are left unchanged. Latitudes are clamped: out-of-range values go to the nearest pole and all others are unchanged.",
  quant="every angle", why="A wrap that is wrong by less or more than a turn only shows for particular magnitudes or signs.",
  files=[S+"cs/geodetic.rs", S+"cs/azimuth.rs", S+"quantities/angle.rs", S+"math/fp.rs"], mech="remainder by one turn, clamp"),
 dict(id="G03", title="Unit conversion is exactly the documented linear factor, both ways",
  statement="Expressing a number in any angle or length unit and reading it back in any unit multiplies by the ratio of the units' factors and nothing else, whichever constructor or operator order is used, and a round trip in one unit returns the number. The named units have their defined size (degree, gradian, arc second, foot = 0.3048 m, US survey foot = 1200/3937 m, ppm) and arc length is radius times angle.",
  quant="every number and every unit factor", why="A wrong factor in one direction only shows for the unit and direction that is tested.",
  files=[S+"units/angle.rs", S+"units/length.rs", S+"quantities/angle.rs", S+"quantities/length.rs", S+"quantities/scale.rs"], mech="unit fractions applied on construction and on reading"),
 dict(id="G04", title="All spellings of one arithmetic operation agree",
  statement="For angles, lengths, longitudes, latitudes and azimuths the binary operator, its mirrored form and its compound assignment compute the same mathematical result, with wrapping or clamping applied where the type demands it. Trigonometric helpers, sign, absolute value and ordering of these types are those of the wrapped number.",
  quant="every pair of operands", why="There are about fifty operator implementations; tests exercise a few on friendly numbers.",
  files=[S+"quantities/angle.rs", S+"quantities/length.rs", S+"cs/geodetic.rs", S+"cs/azimuth.rs"], mech="hand-written operator impls"),
 dict(id="G05", title="Geodetic axes map each coordinate with the right order, sign and unit",
  statement="For each of the five geodetic axis systems, reading raw coordinates takes longitude, latitude and height from the documented slot, with the documented sign and unit (height 0 for two-dimensional systems), and writing does the exact inverse and touches no other slot. In-range coordinates survive a read-write round trip, and tolerances are converted to the same slots and units.",
  quant="every axis system, coordinate, angle unit and height unit", why="Swapped axes or units agree with tests whose coordinates or units coincide.",
  files=[S+"cs/geodetic.rs"], mech="GeodeticAxes::normalize/denormalize/denormalize_tol"),
 dict(id="G06", title="Geocentric and projected axes map coordinates and tolerances faithfully",
  statement="Geocentric coordinates are read and written in metres in x, y, z order, projected coordinates in east, north, (up) order in the declared horizontal and vertical units, two-dimensional systems read height 0 and write only two slots. Reading and writing are inverse of each other, tolerances use the same slots and units, and the distance between two cartesian points is the Euclidean one.",
  quant="every axis system, coordinate and unit", why="Unit mistakes on one axis are invisible for metres, which is all the tests use.",
  files=[S+"cs/cartesian/geocentric.rs", S+"cs/cartesian/projected.rs", S+"cs/cartesian/mod.rs"], mech="normalize/denormalize/dist_to"),
 dict(id="G07", title="Approximate equality means every axis is within its own documented tolerance",
  statement="Two coordinates compare approximately equal exactly when the absolute difference on every axis is at most that axis' tolerance, where longitudes and azimuths are compared around the circle so that -180° and 180° coincide. The named tolerance levels have their documented bounds on every axis.",
  quant="every pair of coordinates and every tolerance", why="Swapped tolerances or a missed wrap only matter near the bound or the antimeridian.",
  files=[S+"cs/geodetic.rs", S+"cs/azimuth.rs", S+"cs/cartesian/mod.rs", S+"cs/cartesian/geocentric.rs", S+"cs/cartesian/projected.rs", S+"quantities/angle.rs", S+"quantities/length.rs"], mech="AbsDiffEq impls, approx_eq, tolerance constructors"),
 dict(id="G08", title="Ellipsoid parameters are mutually consistent and bad axes are refused",
  statement="An ellipsoid built from its two axes or from one axis and the inverse flattening reports axes, squares, flattenings and eccentricities that all describe that same oblate ellipsoid, and its radii of curvature and auxiliary latitudes are those of differential geometry at every latitude. Axes or flattenings that do not describe an oblate ellipsoid or a sphere are refused and all others accepted; exactly the ellipsoids with equal axes are spherical.",
  quant="every pair of axes, every inverse flattening, every latitude", why="Confusing first and second eccentricity or the two radii is invisible at small flattening, at the equator or at the pole.",
  files=[S+"geodesy/ellipsoid.rs"], mech="Ellipsoid constructors and accessors"),
 dict(id="G09", title="Predefined ellipsoids, meridians and datums carry their published values",
  statement="Each predefined ellipsoid, prime meridian and geodetic datum has the published defining values (axes or inverse flattening, longitude from Greenwich) of the body it is named after, and predefined datums that differ are not equal.",
  quant="every predefined constant of the library", why="There are about sixty constants and tests use two or three; a digit slip in any of the others is silent.",
  files=[S+"geodesy/ellipsoid.rs", S+"geodesy/prime_meridian.rs", S+"geodesy/geodetic_datum.rs"], mech="consts modules"),
 dict(id="G10", title="Geodetic to geocentric conversion is the exact closed formula",
  statement="Converting longitude, latitude and ellipsoidal height to geocentric coordinates gives the point at that height on the ellipsoid normal, with longitudes counted from the datum's prime meridian, on ellipsoids and spheres alike. Points of height zero lie on the ellipsoid and the height displaces them along the normal by exactly that distance.",
  quant="every datum (ellipsoid or sphere, any prime meridian), longitude, latitude and height", why="Datums with a prime meridian other than Greenwich, spheres and large heights are each separate paths.",
  files=[S+"geodesy/geodetic_datum.rs", S+"geodesy/ellipsoid.rs"], mech="GeodeticDatum::llh_to_xyz"),
 dict(id="G11", title="Geocentric to geodetic conversion inverts the forward conversion",
  statement="Converting geocentric coordinates back gives the longitude of the point's direction counted from the datum's prime meridian and a latitude and height that the forward formulas send back to the same point, for every point outside the evolute of the meridian ellipse, on ellipsoids and spheres. On the polar axis the latitude is the pole's and the height the distance to it; on the equator and the antimeridian nothing degenerates.",
  quant="every datum and every geocentric position outside the evolute", why="The closed formula has separate branches for the axis, the equator plane and the sphere.",
  files=[S+"geodesy/geodetic_datum.rs", S+"geodesy/ellipsoid.rs"], mech="GeodeticDatum::xyz_to_llh"),
 dict(id="G12", title="Mercator projections follow their published formulas in both directions",
  statement="The Mercator variants A and B and the Pseudo-Mercator projection compute the easting, northing and height of the published formulas with the given parameters, measure longitudes the short way from the origin across the antimeridian, and refuse the poles. Their inverses compute the published inverse formulas, and the Pseudo-Mercator inverse undoes the projection exactly.",
  quant="every ellipsoid, parameter set and position", why="Tests cover one published worked example per projection; a wrong use of a parameter that is zero or one there is invisible.",
  files=[S+"projections/cyl/mercator.rs", S+"projections/mod.rs"], mech="Mercator, WebMercator proj/unproj"),
 dict(id="G13", title="Transverse Mercator and UTM follow the published formulas and zones",
  statement="The transverse Mercator projection and its inverse compute the published JHS formulas (fourth-order series in the third flattening) for any ellipsoid, origin, scale and false origin, within 90° of the central meridian. UTM zone n has central meridian 6n-183°, scale 0.9996, false easting 500 km and a false northing of 0 (north) or 10 000 km (south); heights pass through.",
  quant="every ellipsoid, parameter set, zone and position", why="Series coefficients, origin latitudes and zones away from the worked example are never sampled.",
  files=[S+"projections/cyl/transverse_mercator.rs", S+"projections/mod.rs"], mech="TransverseMercator proj/unproj, UTM specs"),
 dict(id="G14", title="A coordinate transformation is the composition of its documented steps",
  statement="Transforming from one reference system to another gives the result of reading the source coordinates, converting them to geocentric with the source datum, applying the source-to-reference and reference-to-target shifts in that order, converting to the target datum and writing in the target axes; the reverse transformation composes the inverse steps in the opposite order. This holds for geocentric, geographic and projected systems on either side. When a projection refuses a position an error is reported and the output is left untouched.",
  quant="every datum, projection parameter, datum shift and coordinate", why="Swapped shifts, datums or directions cancel out whenever both sides share a datum or the shift is the identity, as in the tests.",
  files=[S+"transformations/mod.rs", S+"transformations/xyz.rs", S+"crs/mod.rs", S+"crs/geocentric.rs", S+"crs/geographic.rs", S+"crs/projected.rs"], mech="CrsXYZTransformation fwd/bwd"),
 dict(id="G15", title="Datum shifts follow their declared convention and reverse by sign",
  statement="A geocentric translation adds its vector going to the reference and subtracts it coming back, so that a round trip is exact. A seven-parameter shift applies (1 + ppm/1e6)(I + R)X + T with R the small rotation of the declared convention, position vector or coordinate frame, the two being each other's negative rotation; its reverse uses the sign-reversed parameters. With zero rotation and scale it equals the translation.",
  quant="every parameter set and geocentric position", why="One worked example with all parameters small cannot see a transposed rotation, a sign slip or a mis-scaled term below its tolerance.",
  files=[S+"transformations/xyz.rs", S+"quantities/scale.rs"], mech="GeocentricTranslation, Helmert7Params, RotationConvention"),
 dict(id="G16", title="The Vincenty solver computes Vincenty's published solution",
  statement="The direct solution gives the end point and end azimuth of Vincenty's 1975 formulas for any start, azimuth and distance, and the inverse solution gives the distance and azimuths of his inverse formulas for any two points, measuring the longitude difference the short way around across the antimeridian. Iterations stop when successive values differ by at most 1e-12 and failure to get there in 30 iterations is reported as an error instead of a result; two equal points have distance 0.",
  quant="every ellipsoid, start point, azimuth, distance and pair of points, and every number of iterations", why="Tests sample about ten lines; a wrong high-order coefficient or quadrant stays below their tolerance or off their lines.",
  files=[S+"geodesy/geodesics/vincenty.rs", S+"geodesy/geodesics/mod.rs"], mech="VincentyGeodesicSolver solve_direct/solve_inverse"),
 dict(id="G17", title="The Rapp solver computes Rapp's published iterative solution",
  statement="The direct and inverse solutions are those of Rapp's iterative formulas with the published series coefficients for distance and longitude on any ellipsoid, for any start, azimuth and distance or pair of points. The iteration stops at its documented tolerance and reports an error when 30 iterations do not reach it; two equal points have distance 0.",
  quant="every ellipsoid, start point, azimuth, distance and pair of points, and every number of iterations", why="High-order series coefficients contribute less than the tolerance of the sampled lines.",
  files=[S+"geodesy/geodesics/rapp.rs", S+"geodesy/geodesics/mod.rs"], mech="RappIterativeGeodisicSolver solve_direct/solve_inverse"),
 dict(id="G18", title="The Karney solver's direct solution is Karney's published one",
  statement="The direct geodesic problem is solved by Karney's 2013 closed series of order 6 on the auxiliary sphere: end latitude, longitude and azimuth are those of the published equations with the published coefficients, for any ellipsoid, start point, azimuth and distance.",
  quant="every ellipsoid, start point, azimuth and distance", why="The sixth-order coefficients act below a nanometre on the sampled lines.",
  files=[S+"geodesy/geodesics/karney.rs", S+"geodesy/geodesics/mod.rs"], mech="KarneyGeodesicSolver solve_direct"),
 dict(id="G19", title="Distance in a reference system is measured in metres in that system's geometry",
  statement="The distance between two coordinates is the Euclidean distance of their geocentric positions or, for projected systems, of their easting, northing and height converted to metres; for three-dimensional geographic systems it is the chord between the two points and for two-dimensional ones the geodesic length on the system's own ellipsoid. A coordinate is at distance 0 from itself and coordinates of the wrong dimension are refused; approximate equality compares every axis with that axis' tolerance.",
  quant="every axis order, unit, datum and pair of coordinates", why="Axis or unit mix-ups vanish for the default axes and metres used in tests.",
  files=[S+"crs/mod.rs", S+"crs/geocentric.rs", S+"crs/geographic.rs", S+"crs/projected.rs"], mech="Crs::dist, Crs::approx_eq"),
 dict(id="G20", title="The numeric kernel computes what it names",
  statement="Polynomial evaluation, real or complex and by either scheme, equals the polynomial for any coefficients; complex arithmetic obeys the field laws and reports division by zero; the Clenshaw summation equals the sine series it stands for; the remainder of a division lies within half the divisor and differs from the dividend by a whole multiple of it.",
  quant="every coefficient, argument and complex number", why="Special-case coefficients and arguments hide wrong terms.",
  files=[S+"math/polynomial.rs", S+"math/complex.rs", S+"math/fp.rs"], mech="Polynomial, Complex, clenshaw_sin_sum, remainder, sum"),
 dict(id="G21", title="Line strings are the broken line through their positions",
  statement="A line string starts and ends at its first and last position, has the dimension of its reference system and a length that is the sum of the reference system's distances between consecutive positions; closing it adds its start as last position. The position at a distance from the start lies on the segment containing that distance, at the proportional place, is the start at 0 and the end at the total length, and other distances are refused. Positions of another dimension and positions whose distance cannot be computed are refused by the builder.",
  quant="every sequence of positions and every parameter", why="Which segment a parameter falls in and what happens at its ends depends on all coordinates.",
  files=[S+"geometry/coordinate/curve/line_string.rs", S+"geometry/coordinate/curve/mod.rs", S+"geometry/coordinate/mod.rs"], mech="LineStringBuilder, LineString as ParameterizedCurve",
  note="Decided for all positions and parameters of line strings of up to 8 positions, parameters with up to 6 (the loops over segments are unfolded); longer ones are not covered. Distances are an arbitrary symmetric function. Real arithmetic; equalities carry the one-sided error of random interpretation (< 2^-50)."),
 dict(id="G22", title="Curves join their segments end to end and points keep their coordinates",
  statement="A curve accepts a segment only if it has the curve's dimension and starts where the curve ends; its length is the sum of the lengths of its segments, its start and end are those of the first and last segment, and the position at a parameter is that of the segment containing it. It is closed exactly when start and end coincide, its boundary is then empty and otherwise consists of these two points. Points give back the coordinates and dimension they were made of.",
  quant="every sequence of segments, every parameter and every point", why="Segment selection and joints depend on all lengths and coordinates.",
  files=[S+"geometry/primitive/curve.rs", S+"geometry/primitive/point.rs", S+"geometry/mod.rs"], mech="CurveBuilder, Curve, CurveBoundary, Point",
  note="Decided for all coordinates and parameters of curves of up to three segments (the loops over segments are unfolded). Real arithmetic; equalities carry the one-sided error of random interpretation (< 2^-50)."),
 dict(id="G23", title="Circle intervals know whether they are empty, full and how long they are",
  statement="An interval of directions built from two angles is empty only for the dedicated bounds, full only for the whole turn, and its length is the eastward sweep from the first to the second bound, between 0 and a full turn; a bound given as -180° means 180°. A single direction gives a non-empty interval of length 0.",
  quant="every pair of bounds in [-180°, 180°]", why="The interesting cases are the bounds at ±180° and intervals across the antimeridian.",
  files=[S+"cs/s1.rs"], mech="Interval::new/length/is_empty/is_full"),
 dict(id="G24", title="Degrees-minutes-seconds conversions are carried correctly and lose nothing",
  statement="Building a longitude, latitude or azimuth from degrees, minutes and seconds gives the sexagesimal value with minutes and seconds taking the sign of the degrees. Decomposing an angle gives minutes in 0..59 and seconds in [0, 60[ that recompose to the angle, up to the documented snapping of the last 1e-8 minute.",
  quant="every angle and every field value", why="Carries only occur for angles within rounding distance of whole minutes.",
  files=[S+"quantities/angle.rs", S+"cs/geodetic.rs", S+"cs/azimuth.rs"], mech="dms constructors and Angle::dms"),
 dict(id="G25", title="Every operation terminates, whatever the numbers",
  statement="Every iteration is bounded by a fixed count or by the length of a finite collection, whether or not the floating-point values converge, and no operation calls itself. In particular the geodesic solvers and the inverse projections return for every input, including not-a-number and near-antipodal points.",
  quant="every input", why="Non-termination needs inputs for which the iteration does not converge.", files=[S+"geodesy/geodesics/", S+"projections/cyl/", S+"math/", S+"geometry/"], mech="iteration limits of the solvers and projections, loops over slices",
  tech="control-flow analysis of rustc MIR: natural loops, loop-carried counters and iterators, call-graph cycles",
  note="Every natural loop of every function is shown to advance a finite iterator or a counter compared with a fixed bound on every way round. Loops inside the standard library and dependencies are taken to end. The one helper loop driven by its caller (math::utils::iter_fn) is listed in known-findings.txt."),
 dict(id="G26", title="Every operation the interface offers is implemented",
  statement="Each function has a way from its entry to a result and reaches no placeholder for missing code.",
  quant="every function and every path", why="A placeholder only shows when a caller takes that branch.", files=["geokit/src/"], mech="all functions",
  tech="interprocedural reachability analysis of rustc MIR",
  note="Every non-test function of the crate, including generic ones. The four known placeholders are listed in known-findings.txt."),
 dict(id="G27", title="Results depend only on the arguments",
  statement="No operation keeps state between calls or reads anything but its arguments: calling it again, in any order or from several threads, gives the same result. Objects do not change behind a shared reference.",
  quant="every history of calls and every interleaving", over=["histories", "schedules"], why="Hidden state only shows for particular orders of calls.", files=["geokit/src/"], mech="absence of statics, interior mutability, I/O, clocks and randomness",
  tech="effect analysis of rustc MIR: statics, interior mutability of types, calls with effects",
  note="All functions, types and statics of the crate; functions of the standard library are classified by path. Text printed by diagnostic helpers is not counted as a result."),
 dict(id="G28", title="Equality and copies of definitions and coordinates are by meaning",
  statement="Two ellipsoids are equal exactly when their sizes are equal and two prime meridians exactly when their longitudes are, whatever their names; two datums additionally need the same identifier; reference systems are equal exactly when identifier, datum, axes with their units and projection parameters all are, and coordinates and geodesics exactly when all their components are. Copies equal the original and keep its names.",
  quant="every pair of definitions and coordinates", why="A component that is not compared only shows for pairs that differ in nothing else.",
  files=[S+"geodesy/ellipsoid.rs", S+"geodesy/prime_meridian.rs", S+"geodesy/geodetic_datum.rs", S+"crs/", S+"cs/", S+"projections/mod.rs"], mech="PartialEq and Clone implementations"),
 dict(id="G29", title="Failures are reported, never swallowed",
  statement="When a transformation, projection or construction step inside an operation fails, the operation itself fails: no failure is replaced by a default value, turned into a panic or left unread.",
  quant="every call that may fail", why="The failing inner step needs particular inputs in a particular composition.", files=[S+"transformations/", S+"crs/", S+"projections/", S+"geometry/", S+"geodesy/geodesics/"], mech="Result plumbing",
  tech="use analysis of every Result in rustc MIR, and value-graph obligations with stand-in steps that fail",
  note="Every call returning a Result in every non-test function is checked for unwrapping, defaulting and ignoring; explicit matches on an outcome are decided by obligations in which the inner step may fail."),
 dict(id="G30", title="The text form shows the value it names",
  statement="Lengths print as metres, angles as radians or degrees, azimuths and meridians as degrees, minutes and seconds, each at full precision and followed by its unit. Coordinates, intervals, ellipsoids, meridians, datums and geodesics print their own components under the right labels in the documented order.",
  quant="every value", why="Swapped or stale components only show when somebody reads the text.",
  files=[S+"quantities/angle.rs", S+"quantities/length.rs", S+"cs/", S+"geodesy/"], mech="Display and LowerExp implementations"),
dict(id="G31", title="What is not a number never turns into a plausible value",
  statement="Whenever an argument is not a number (NaN), every number computed from it is NaN too, every comparison and approximate equality involving it is false, or the operation reports a failure: no operation, from quantities over coordinates, ellipsoids, projections and geodesic solvers to distances and line strings, returns an ordinary-looking number that a NaN went into.",
  quant="every position of a NaN among the arguments and every value of the others", why="Which selection, clamp or early return swallows the NaN depends on where it enters and on the other arguments.",
  files=[S+"quantities/", S+"cs/", S+"geodesy/", S+"projections/", S+"crs/", S+"geometry/", S+"math/"], mech="arithmetic, clamping, normalisation and branch selection on floating-point values",
  tech="forward dataflow analysis of certainly-NaN values over the value graphs built from rustc MIR",
  note="For each obligation one argument at a time is NaN and all others are arbitrary. A result counts as proved when every node on the way is NaN in every branch or the branch fails; a violation additionally needs concrete other arguments at which the graph, evaluated in doubles, gives an ordinary number."),
 dict(id="G32", title="Values that need no conversion, and error-free sums, are exact",
  statement="Numbers that need no change are handed on bit for bit (up to the sign of zero): lengths in metres and angles in radians, longitudes, latitudes and azimuths already in range, sums and differences that stay in range, coordinates read and written in metres and radians, heights through axes and projections, the parameters of ellipsoids, datums and meridians, identity transformations, the points, azimuth and distance given to a geodesic solver, and the positions given to points and line strings. The error-free sum returns the rounded sum and exactly its rounding error.",
  quant="every finite value", why="A detour through another unit or through normalisation changes only the last bit of some values.",
  files=[S+"quantities/", S+"cs/", S+"geodesy/", S+"projections/", S+"transformations/", S+"geometry/", S+"math/fp.rs"], mech="constructors, accessors, normalisation and axis conversion",
  tech="value graphs of rustc MIR rewritten with the laws that hold exactly in IEEE arithmetic, with interval case splits",
  note="Only rewriting steps that are exact in IEEE double arithmetic are used; a violation needs arguments at which the graph, evaluated in doubles, differs from the required value. The ellipsoid is fixed in the solver and projection obligations."),
 dict(id="G33", title="Values and definitions can be shared between threads",
  statement="Quantities, units, coordinates, axes, tolerances, intervals, ellipsoids, meridians, datums, reference systems, geodesics and their solvers, projection parameters, errors, points, line strings, complex numbers and polynomials can be sent to and shared between threads (Send and Sync). Boxed curves, projections and transformations, whose implementation is open, are not included.",
  quant="every value of these types and every schedule", over=["schedules"], why="A test only shows that the types it happens to share are shareable.",
  files=["geokit/src/"], mech="the types' fields",
  tech="type-level witnesses: the compiler's own Send and Sync derivation for each type, read off the type-checked program",
  note="Decided by the type checker for each type listed; no code is run."),
]
NA = [
 dict(id="N01", title="Round trips are accurate to the stated tolerance",
  statement="Projecting and un-projecting a point, or converting it to geocentric coordinates and back, returns the point to within a fraction of a millimetre everywhere inside the domain of the projection.",
  quant="every point of the domain", why="Tests sample a few points.", files=[S+"projections/", S+"geodesy/geodetic_datum.rs"], mech="series coefficients and fixed-point iterations",
  reason="The error is the accumulated rounding and truncation error of transcendental series and data-dependent iterations; no interval or affine domain in reach bounds it below the tolerance. What the formulas compute is decided exactly (G07-G11), their rounding error is not."),
 dict(id="N02", title="The geodesic solvers converge to the true geodesic",
  statement="For every pair of points that is not nearly antipodal the Vincenty and Karney solvers return the true shortest distance and azimuths to the accuracy published for the method.",
  quant="every pair of points", why="Convergence depends on the geometry of the pair.", files=[S+"geodesy/geodesics/"], mech="iteration of the auxiliary longitude",
  reason="Convergence of the iteration is a statement about the real dynamics of a nonlinear map; a static argument would have to prove contraction over the whole domain. The iteration step, the stopping rule and the failure report are decided (G16-G18, G25)."),
]

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table, so the two stay in step."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def F(names):
    return ["src/%s.cc" % n for n in names.split()]

# (id, title, statement, quantifier text, over, why tests cannot settle it, files, mechanisms [(name, where)], oracle)
P = []
def prop(id, title, stmt, qtext, why, files, mech, oracle, over=("inputs",), observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, stmt=stmt, q=qtext, over=list(over), why=why, files=F(files),
                  mech=mech, oracle=oracle, observe=observe))

prop("C01", "Angle normalisation returns the same angle, inside the promised range",
     "For every finite angle, normalising to the signed range returns a value in [-pi, +pi] and normalising to the unsigned range returns a value in [0, 2pi], and in both cases the returned value differs from the given angle by a whole number of turns up to rounding. "
     "An angle that is already strictly inside the range comes back unchanged. Single and double precision versions obey the same rule.",
     "every finite float/double angle, in particular multiples of pi, values one ulp around them, tiny negative angles and angles of many turns",
     "The suite calls each function once with one ordinary angle; range ends, signs and many-turn angles are never sampled.",
     "range drange ranorm dranrm",
     [("remainder followed by one corrective turn", "src/range.cc, src/drange.cc"), ("remainder and shift of negatives", "src/ranorm.cc, src/dranrm.cc")],
     "exact remainder of the angle by 2pi in extended precision; interval membership; identity inside the range")

prop("C02", "Sexagesimal output is well formed, correctly rounded and correctly signed",
     "Converting days or radians to hours/degrees, minutes, seconds and a decimal fraction always yields minutes and seconds in 0..59 and a fraction with no more than the requested number of decimals, so a value that rounds up carries into the larger fields instead of showing 60. "
     "Put back together the fields equal the magnitude of the input rounded to the requested resolution (nearest unit, within floating-point rounding), and the sign is '-' exactly for inputs below zero. "
     "A negative number of decimal places means none.",
     "every value, sign and resolution for which the fields fit their integers; values just below and above rounding boundaries",
     "The suite checks one value at one or two resolutions per function; carries, ties, negative resolutions and tiny negative values are not sampled.",
     "cd2tf dd2tf cr2af dr2af cr2tf dr2tf",
     [("round to the field resolution before splitting", "src/dd2tf.cc"), ("delegation with a scale factor", "src/dr2af.cc, src/dr2tf.cc, src/cd2tf.cc")],
     "extended-precision rescaling and rounding, compared field by field away from ties and to one unit at ties")

prop("C03", "Hours/degrees-minutes-seconds input gives the right value and the right status",
     "Combining hours or degrees, minutes and seconds into days or radians returns the exact linear combination (to rounding) for every input, whether or not a field is out of range. "
     "The status is OK exactly when all fields are in range; otherwise it names a field that really is out of range (0..359 degrees or 0..23 hours, 0..59 minutes, seconds from 0 up to but excluding 60). "
     "Converting to fields and back reproduces the value within half of the last displayed unit.",
     "every triple of fields, in range and out of range, at and one step beyond each limit, single and double precision",
     "The suite checks one valid triple per function and never an invalid one.",
     "caf2r daf2r ctf2d dtf2d ctf2r dtf2r",
     [("range checks setting the status", "src/daf2r.cc, src/dtf2d.cc"), ("linear combination", "src/daf2r.cc, src/dtf2d.cc, src/dtf2r.cc")],
     "extended-precision linear combination and an independent statement of the valid ranges; round trip through C02's functions")

prop("C04", "Gregorian dates, Modified Julian Dates and year/day agree with the calendar",
     "For every proleptic Gregorian date from -4699 on, the date-to-MJD conversion equals the day count from 1858 November 17, MJD-to-date is its inverse (with the fraction of day rounded to the requested number of decimals and carried into the date when it reaches a whole day), and the year/day-in-year result is that of the Julian calendar aligned to the Gregorian one for 1900 March 1 to 2100 February 28. "
     "Two-digit years 0-49 mean 2000-2049 and 50-99 mean 1950-1999 in the variants that promise this, and only there. "
     "Years too early, impossible months, impossible days and MJDs outside the accepted interval are reported with the documented status, and an impossible day still returns a value.",
     "every year, month and day (leap years, centuries, month ends, year ends, invalid fields) and every MJD in the accepted interval including values a rounding step away from midnight",
     "The suite samples two or three dates per function; century rules, invalid fields, early dates and midnight rounding are unsampled.",
     "cldj caldj clyd calyd djcal djcl slalib",
     [("integer calendar algorithms", "src/cldj.cc, src/clyd.cc, src/djcl.cc, src/djcal.cc"), ("century default and day validation", "src/slalib.cc")],
     "independent day-by-day civil calendar model; inverse round trip")

prop("C05", "UTC/TAI/TT offsets, Delta T and Julian/Besselian epochs follow their definitions",
     "TAI-UTC equals the announced step table (and the drifting-rate expressions of 1960-1972) for every UTC date, changing exactly at the start of the announced day, TT-UTC is always that plus 32.184 s, and the Delta T model is the documented piecewise formula. "
     "Julian and Besselian epoch conversions are the defining linear relations, inverse to each other, and the epoch converter returns the given epoch unchanged when both systems are the same and converts otherwise, whatever the letter case.",
     "every date and epoch, in particular each step date and the instants just before it, and both letter cases of both epoch codes",
     "The suite checks one or two dates; most of the steps, rates, and code letters are never exercised.",
     "dat dtt dt epj epj2d epb epb2d epco",
     [("chain of step dates, most recent first", "src/dat.cc"), ("piecewise parabolas", "src/dt.cc"), ("linear epoch relations", "src/epj.cc, src/epb.cc, src/epj2d.cc, src/epb2d.cc, src/epco.cc")],
     "independent table of leap seconds and rates by calendar date; independently written formulae; round trips")

prop("C06", "Sidereal time and the relativistic clock term match their published expressions",
     "Greenwich mean sidereal time equals the IAU 1982 expression for every UT1 date and lies in [0, 2pi], and the split-date form gives the same answer however the date is divided between its two arguments, with the better precision the split permits. "
     "The TDB-TT difference equals the published series plus the topocentric terms for every date, UT1 fraction, longitude and distance from the spin axis and equator.",
     "every date (past and future), every division of a date into two parts, every observer location",
     "The suite evaluates two dates; range ends, splits and dates before J2000 are barely sampled.",
     "gmst gmsta rcc dranrm",
     [("IAU 1982 polynomial", "src/gmst.cc, src/gmsta.cc"), ("series plus topocentric terms", "src/rcc.cc")],
     "extended-precision evaluation of the published polynomial and series; split-invariance relation")

prop("C07", "3-vector and 3x3 matrix products and normalisation are exact algebra",
     "Scalar, vector, matrix-vector, transposed-matrix-vector and matrix-matrix products of 3-vectors and 3x3 matrices equal their definitions to rounding, and normalisation returns the modulus and a unit vector along the input, with the zero vector giving zero for both. "
     "The result is the same when the output argument is one of the inputs, inputs that are not also outputs are never modified, and multiplying by a rotation and then by its transpose restores the vector.",
     "every finite vector and matrix, any magnitude within the squared range of the type, and an output that is the same array as any one input of its kind",
     "The suite multiplies one vector and one matrix with separate output arrays.",
     "vdv dvdv vn dvn vxv dvxv mxm dmxm mxv dmxv imxv dimxv",
     [("temporary result before the output is written", "src/dmxm.cc, src/dmxv.cc, src/dimxv.cc, src/dvxv.cc"), ("zero guard", "src/dvn.cc")],
     "extended-precision products with a rounding bound from the sum of absolute products; alias vs non-alias equality")

prop("C08", "Rotation matrices from Euler angles and axial vectors are right and invertible",
     "A matrix built from Euler angles is the product, in the order given, of the elementary rotations about the axes named, for every order string of up to three axis codes (letters in either case or digits, stopping at the first unknown character), using the convention that a positive rotation is anticlockwise seen looking towards the origin from the positive axis. "
     "A matrix built from an axial vector rotates the reference frame by the vector's length about its direction, the zero vector gives the identity, and turning the matrix back into a vector recovers the same rotation for angles below pi. "
     "Every matrix produced is orthogonal with determinant +1.",
     "every order string and angle triple; every axial vector, including null, tiny, near-pi and beyond-pi rotations",
     "The suite builds one matrix with one order string and one axial vector.",
     "euler deuler av2m dav2m m2av dm2av",
     [("successive elementary rotations", "src/deuler.cc"), ("Rodrigues form", "src/dav2m.cc"), ("antisymmetric part and trace", "src/dm2av.cc")],
     "elementary-rotation products and Rodrigues' formula in extended precision; orthogonality; round trip")

prop("C09", "Spherical and Cartesian coordinates convert both ways, with velocities",
     "Direction-to-unit-vector conversion yields the unit vector of the given longitude and latitude, the reverse yields longitude and latitude (latitude within [-pi/2, pi/2], zero longitude on the polar axis, zeros for a null vector) of any vector regardless of its length, and the two are inverse. "
     "The position-and-velocity versions additionally carry distance and all three rates consistently with the time derivative of the position, in both directions, with zero angular rates on the polar axis.",
     "every direction, distance and rate, including the poles, points near the poles, the origin and negative or many-turn longitudes",
     "The suite converts one direction and one position/velocity set away from the poles.",
     "cc2s dcc2s cs2c dcs2c cc62s dc62s cs2c6 ds2c6",
     [("atan2 with axis guards", "src/dcc2s.cc, src/dc62s.cc"), ("direct trigonometric products", "src/dcs2c.cc, src/ds2c6.cc")],
     "extended-precision geometry and analytic derivatives; round trips; scale invariance")

prop("C10", "Angular separations and bearings are accurate at every distance",
     "The angle between two directions, given as spherical coordinates or as vectors of any length, is the great-circle separation in [0, pi], symmetric, accurate for coincident, nearly coincident and nearly opposite directions alike. "
     "The bearing of one point from another, in both forms, is the position angle measured from north through east in [-pi, pi], zero for coincident points, and both forms and precisions agree.",
     "every pair of directions including coincident, antipodal, polar, and separations down to rounding level; vectors of any non-zero length",
     "The suite measures one or two separations of moderate size.",
     "sep dsep sepv dsepv bear dbear pav dpav",
     [("cross and scalar product with atan2", "src/dsepv.cc"), ("bearing from components", "src/dbear.cc, src/dpav.cc")],
     "extended-precision vector geometry; symmetry, scale and rotation invariance, spherical vs Cartesian agreement")

prop("C11", "Equatorial and horizon coordinates, zenith distance and parallactic angle agree",
     "Hour angle/declination to azimuth/elevation and back are mutually inverse rotations for every latitude, with azimuth in [0, 2pi] measured from north through east, and zenith distance and parallactic angle are those of the same spherical triangle (zero parallactic angle at the zenith itself). "
     "Away from critical geometry (zenith, poles, meridian passage and tangency), the hour angles reported as valid for a requested azimuth or parallactic angle really have it and no existing one is missed. "
     "The air mass is the documented polynomial in sec z - 1, is even in zenith distance, never falls as zenith distance grows, and stays constant beyond the documented limit.",
     "every hour angle, declination, latitude, azimuth and parallactic angle of either sign, including zenith, poles, meridian, horizon and equator",
     "The suite uses one pointing per function.",
     "e2h de2h h2e dh2e zd pa airmas pda2h pdq2h",
     [("frame rotations", "src/de2h.cc, src/dh2e.cc"), ("triangle solutions", "src/zd.cc, src/pa.cc, src/pda2h.cc, src/pdq2h.cc"), ("clamped polynomial", "src/airmas.cc")],
     "extended-precision spherical triangle; forward re-evaluation of the solutions; round trips")

prop("C12", "Altazimuth mount angles, rates and accelerations are consistent derivatives",
     "For every pointing away from the immediate zenith, the azimuth, elevation and parallactic angle are those of the spherical triangle, the reported velocities are their first derivatives with respect to hour angle and the accelerations their second derivatives. "
     "Azimuth lies in [0, 2pi] and the parallactic angle in [-pi, pi], every output is finite, and very close to the zenith the rates stay bounded.",
     "every hour angle, declination and latitude, including exact zenith passage, meridian, poles and below the horizon",
     "The suite checks two pointings.",
     "altaz",
     [("closed-form rates and accelerations with a zenith clamp", "src/altaz.cc")],
     "extended-precision triangle and analytic/central-difference derivatives computed independently")

prop("C13", "Precession matrices and coordinate precession follow the published angles",
     "The FK5, long-term and FK4 precession matrices equal the rotation by the published polynomial angles for every pair of epochs, are proper rotations, are the identity between equal epochs and approximately the inverse of the reverse matrix. "
     "Precessing a right ascension and declination applies exactly the matrix of the selected system, returns right ascension in [0, 2pi], and any unsupported system yields the documented invalid coordinates.",
     "every pair of epochs, forwards and backwards, and every direction and catalogue system",
     "The suite evaluates one pair of epochs per matrix and one direction per system.",
     "prec precl prebn preces",
     [("Euler rotation by polynomial angles", "src/prec.cc, src/precl.cc, src/prebn.cc"), ("dispatch on the system", "src/preces.cc")],
     "extended-precision polynomial angles composed from elementary rotations; inverse/composition relations; cross-model bounds")

prop("C14", "Nutation, obliquity and ecliptic transformations are mutually consistent",
     "Both nutation theories give longitude, obliquity and mean-obliquity values equal to their published series at every date and agree with each other within their documented difference; the nutation matrix is the rotation built from the newer theory and the combined matrix is nutation times precession. "
     "Equatorial-to-ecliptic and ecliptic-to-equatorial conversions are inverse proper rotations by precession and the IAU 1980 obliquity of date, and the equation of the equinoxes equals nutation in longitude times cos(obliquity) plus the two node terms.",
     "every date within several centuries of J2000 and every direction",
     "The suite evaluates a single date for each.",
     "nutc nutc80 nut prenut ecmat eqecl ecleq eqeqx",
     [("series summation", "src/nutc.cc, src/nutc80.cc"), ("rotation assembly", "src/nut.cc, src/prenut.cc, src/ecmat.cc"), ("precess then rotate", "src/eqecl.cc, src/ecleq.cc")],
     "independent extended-precision evaluation of the series; rotation algebra; cross-theory bound; round trips")

prop("C15", "Galactic, supergalactic and E-term transformations are right and invertible",
     "Equatorial (FK4 and FK5), galactic and supergalactic conversions are fixed proper rotations given by the published pole and origin, preserve angular separations, return longitude in [0, 2pi] and latitude in [-pi/2, pi/2], and each pair is mutually inverse to the documented accuracy. "
     "Adding and removing the E-terms of aberration shifts a direction by the published E-term vector of the given epoch, and the two operations undo each other to second order.",
     "every direction, poles and origins included, and every Besselian epoch",
     "The suite transforms one direction each way.",
     "eqgal galeq galsup supgal eg50 ge50 etrms addet subet",
     [("constant rotation matrices", "src/eqgal.cc, src/galeq.cc, src/galsup.cc, src/supgal.cc, src/eg50.cc, src/ge50.cc"), ("E-term vector", "src/etrms.cc")],
     "rotations rebuilt from the published pole/origin angles; extended-precision E-terms; separation preservation; round trips")

prop("C16", "Atmospheric refraction functions agree with each other and with the physics",
     "The refraction integral equals an independent integration of the same model atmosphere, is odd in zenith distance, non-decreasing towards the horizon, zero at the zenith, zero without air, and unaffected by input values beyond its documented limits, which are treated as the limits; it uses the optical law up to 100 micrometres and the radio law above. "
     "The two-constant model passes through the integral at the two fitting zenith distances, the quick constants approximate it within documented accuracy, the angle and vector forms of applying the constants agree and bend towards the zenith by A tan z + B tan^3 z in terms of the refracted angle down to 83 degrees and smoothly and boundedly beyond. "
     "Rescaling the constants to another wavelength reproduces constants computed there for optical wavelengths and leaves them unchanged for radio wavelengths.",
     "every zenith distance, observer height, temperature, pressure, humidity, wavelength, latitude, lapse rate and tolerance, and every azimuth",
     "The suite evaluates a handful of points; limits, clamps, radio/optical switch and horizon behaviour are unsampled.",
     "refro refco refcoq refz refv atmdsp",
     [("clamped arguments and adaptive Simpson integration", "src/refro.cc"), ("two-point fit", "src/refco.cc"), ("iteration and horizon model", "src/refz.cc, src/refv.cc"), ("refractivity ratio", "src/atmdsp.cc")],
     "independent extended-precision numerical integration; inverse relation; form equivalence; clamp equivalence")

prop("C17", "Tangent-plane projections invert each other and report the geometry truthfully",
     "Projecting a direction on the tangent plane gives the gnomonic coordinates of that direction, deprojecting returns the direction, and spherical and Cartesian forms agree, in both precisions. "
     "The status tells whether the star is in front, too far from the axis, or behind the plane, and the plate-centre solver reports zero exactly when no tangent point can place the star at the given coordinates, otherwise returns two tangent points (declination beyond 90 degrees meaning over the pole) that really do, and reports one when only the first of them avoids crossing the pole.",
     "every star, tangent point and plate coordinate, including poles, right angles, antipodes and fields with no solution",
     "The suite projects a single star near the plate centre.",
     "s2tp ds2tp tp2s dtp2s v2tp dv2tp tp2v dtp2v tps2c dtps2c tpv2c dtpv2c",
     [("gnomonic formulae with a guard", "src/ds2tp.cc, src/dv2tp.cc"), ("inverse", "src/dtp2s.cc, src/dtp2v.cc"), ("quadratic for the plate centre", "src/dtps2c.cc, src/dtpv2c.cc")],
     "extended-precision gnomonic projection; forward re-projection of every solution; spherical/Cartesian equivalence")

prop("C18", "Linear plate models: least-squares fit, application, inverse, decomposition",
     "The fitted six-coefficient or four-coefficient (solid body, including mirror-image when better) model is the least-squares optimum of its class for every data set that determines it, an exact model is recovered from exact data, too few points are reported without touching the model, and coincident or axis-aligned points that determine no model are reported as such. "
     "Applying the model, the predicted positions, and the x, y and total RMS follow their definitions; the inverse model undoes the model and is refused for singular ones; and the decomposition recombines to the same transformation.",
     "every number of points, layout (coincident, mirrored, repeated points, two-point, squashed, offset from the origin) and model",
     "The suite fits one set of points.",
     "fitxy xy2xy pxy invf dcmpf",
     [("normal equations solved by elimination", "src/fitxy.cc"), ("two handedness passes", "src/fitxy.cc"), ("affine algebra", "src/xy2xy.cc, src/invf.cc, src/dcmpf.cc, src/pxy.cc")],
     "extended-precision independent least squares and optimality test; recomposition; inverse round trip")

prop("C19", "Radial distortion and its removal are inverse and radial",
     "Applying pincushion or barrel distortion multiplies both coordinates by one plus the coefficient times the squared radius, and removing it returns a point on the same line through the axis whose distorted image is the given point, the one that moves it least when there are several. "
     "A zero coefficient changes nothing.",
     "every coefficient of either sign and every position, including the axis and strong barrel distortion near and beyond the turning point",
     "The suite applies one coefficient to one point.",
     "pcd unpcd",
     [("cubic in closed form", "src/unpcd.cc"), ("radial factor", "src/pcd.cc")],
     "extended-precision bisection for all roots of the cubic; round trip both ways")

prop("C20", "Matrix inversion solves the system or reports it singular",
     "For every square system that is not singular to working precision, the solver returns the inverse matrix, the solution vector and the determinant to within the conditioning of the matrix and reports success; for a singular matrix it reports failure with zero determinant. "
     "It works for every order including one, needs pivoting in any position, and touches nothing beyond the arrays of the given order.",
     "every matrix order, entry pattern (zero leading pivots, permutations, triangular, badly scaled rows, zero rows or columns) and right-hand side, both precisions",
     "The suite inverts one 3x3 matrix and never sees a singular one or one needing pivoting.",
     "dmat smat",
     [("Gaussian elimination with partial pivoting and unscrambling", "src/dmat.cc, src/smat.cc")],
     "extended-precision elimination with full pivoting; residuals with condition-scaled bounds; guard zones")

prop("C21", "Singular value decomposition, solution and covariance hold for every shape",
     "For every matrix with at least as many rows as columns, the decomposition yields orthonormal U and V and non-negative singular values whose product reproduces the matrix, whatever its rank and however large the storing array; more columns than rows is refused. "
     "The solver returns the minimum-norm least-squares solution, ignoring singular values set to zero, and the covariance routine returns V W^-2 V^T under the same rule.",
     "every shape, rank (including zero and one), scale, and physical dimension larger than the logical one",
     "The suite decomposes one full-rank matrix of one shape.",
     "svd svdsol svdcov",
     [("Householder bidiagonalisation and QR iteration", "src/svd.cc"), ("back-substitution", "src/svdsol.cc"), ("covariance assembly", "src/svdcov.cc")],
     "reconstruction, orthonormality, normal-equation and null-space tests, direct formulas in extended precision; guard zones")

prop("C22", "Earth position and velocity agree across all ephemerides and with each other",
     "Over 1900 to 2100 the fast Earth ephemeris stays within 2100 km (heliocentric) or 13500 km (barycentric) and 0.7 m/s of the precise one, and over 1950 to 2050 the quick one within its documented accuracy, after referring them to the same equinox. At every date each of the three equals its published series or elements to the arithmetic's precision, and its velocity is the time derivative of its position. "
     "Barycentric and heliocentric states differ by the Sun's barycentric motion only, requesting a given equinox equals precessing the of-date vectors to it, and the Earth-correction velocity and light time are the projections of the approximate state on the given direction.",
     "every date of the supported centuries and every direction and equinox",
     "The suite evaluates one date each.",
     "earth evp epv ecor",
     [("series tables", "src/epv.cc, src/evp.cc"), ("low-precision elements", "src/earth.cc"), ("projection", "src/ecor.cc")],
     "independent extended-precision evaluation of the tables; cross-ephemeris bounds; numerical differentiation; equinox rotation relation")

prop("C23", "Moon position and velocity follow their published series at every date",
     "At every date the precise Moon ephemeris equals the published periodic series and its velocity is the time derivative of its position. The quick ephemeris equals the leading terms of the same series, position and rate, to single precision, and so stays close to the precise one from 1900 to 2100 (80 arcsec in direction, 1400 km in distance, 1 arcsec/hour and 7.5 m/s). "
     "The geocentric distance always stays within the Moon's known perigee and apogee limits.",
     "every date of the supported centuries",
     "The suite evaluates one date each.",
     "moon dmoon",
     [("periodic terms and analytic derivatives", "src/dmoon.cc, src/moon.cc")],
     "independent extended-precision evaluation of the series; numerical differentiation; cross-ephemeris bound")

prop("C24", "Observer geometry: geocentric coordinates, polar motion and the station list",
     "Geodetic latitude and height convert to distances from spin axis and equator on the reference spheroid, and the observer's position and velocity are that point turned to the local sidereal time, moving east at the Earth's rotation rate. "
     "Polar-motion correction equals the rotation of the site vector by the pole coordinates with the azimuth change that follows. "
     "The station list returns every station by number and by identifier consistently, the first match for a partial identifier, and the documented 'not found' result otherwise, with every stored coordinate equal to the published one.",
     "every latitude, height, sidereal time, pole offset, station number and identifier string",
     "The suite checks one site and a few station look-ups.",
     "geoc pvobs polmo obs",
     [("spheroid formulae", "src/geoc.cc, src/pvobs.cc"), ("rotation of the site vector", "src/polmo.cc"), ("table look-up with prefix match", "src/obs.cc")],
     "extended-precision spheroid and rotation models; independent copy of the station data; exhaustive numbers and all prefixes")

prop("C25", "Radial-velocity components are projections of the published solar motions",
     "The velocity component towards a position due to Earth rotation, the two standards of rest, galactic rotation and motion in the Local Group equals, for every direction, the projection of the published motion vector on that direction in the documented sense, so it is a first-degree harmonic over the sky. "
     "Earth-rotation velocity vanishes on the meridian and at the poles and changes sign with hour angle.",
     "every direction, latitude and sidereal time",
     "The suite evaluates one direction each.",
     "rverot rvgalc rvlg rvlsrd rvlsrk",
     [("scalar product with a constant vector", "src/rvgalc.cc, src/rvlg.cc, src/rvlsrd.cc, src/rvlsrk.cc"), ("diurnal formula", "src/rverot.cc")],
     "vectors rebuilt from the published apex, speed and galactic axes in extended precision")

prop("C26", "Proper motion moves a star along a straight line in space",
     "For every star the position at the new epoch is the direction of the position vector displaced linearly by the space velocity implied by proper motion, parallax and radial velocity over the epoch difference, with right ascension in [0, 2pi]. "
     "Equal epochs leave the direction unchanged, and without parallax or radial velocity only the transverse motion acts.",
     "every position, proper motion, parallax, radial velocity and pair of epochs, including high declinations and negative intervals",
     "The suite moves one star.",
     "pm",
     [("space-motion vector", "src/pm.cc")],
     "extended-precision linear motion; equal-epoch and transverse-only relations")

prop("C27", "Combination and permutation generators enumerate everything exactly once",
     "Starting from the documented initial state, repeated calls deliver every combination (or permutation) exactly once, in the documented form, then report exhaustion and start over with the first one again, for every admissible size and from any point of the sequence. "
     "Inadmissible arguments are reported and leave the caller's arrays alone.",
     "every admissible pair of sizes, every number of calls past exhaustion, and invalid arguments",
     "The suite steps through one small case.",
     "combn permut",
     [("successor functions with wrap-around", "src/combn.cc, src/permut.cc")],
     "set of all combinations/permutations; uniqueness, completeness and wrap-around over whole call histories",
     over=("inputs", "histories"))

prop("C28", "Random generators, delay and version queries keep their contracts",
     "Every uniform deviate lies in [0, 1), the seed only matters on the first call of a process, where it selects the sequence; equal first seeds give equal sequences, and long runs are uniform and uncorrelated; normal deviates scale exactly with the requested standard deviation and long runs have normal distribution with zero mean. "
     "Built thread-safe, each thread has generators of its own that behave as in a process by itself. The delay waits at least the rounded number of seconds, and the version number and version string denote the same version.",
     "every first seed, call history, requested deviation and run length",
     "The suite checks only that a few calls return values in a loose range.",
     "random gresid wait veri vers",
     [("process-wide generator with first-time seeding", "src/random.cc, src/gresid.cc"), ("pairwise normal deviates", "src/gresid.cc"), ("version constants", "src/veri.cc, src/vers.cc")],
     "distribution tests with fixed seeds in fresh processes, history relations, concurrent threads, interrupted delays", over=("inputs", "histories", "schedules"))

prop("C29", "Every other function is pure: no memory of earlier calls, no side effects",
     "Except for the random generators, what a call returns depends only on its arguments: not on earlier calls, on what the output arguments or unused memory held before, or on calls running in other threads. "
     "Input arguments are never modified, outputs are written completely, and nothing outside the documented output arguments changes.",
     "every sequence of calls of all functions with repeated, neighbouring and unrelated arguments, any prior contents of outputs and stack, and concurrent callers",
     "The suite runs each function once or twice in one fixed order and in one thread.",
     "slalib nutc evp epv dmoon obs rcc refro svd fitxy dmat",
     [("no mutable static state outside the generators; every local initialised", "src/*.cc")],
     "model-based call sequences: each call's result compared bit for bit with the same call in a fresh process, under different stack and output fills, and from concurrent threads",
     over=("histories", "inputs", "schedules"))

prop("C30", "No documented call crashes, overruns memory, or has undefined behaviour",
     "For every argument within the documented domain, every function returns normally, without assertion failure, out-of-bounds access, integer overflow, invalid conversion, division trap or endless loop, and its results are finite numbers. "
     "Arrays of exactly the documented size are sufficient.",
     "every function and every documented argument, including limits, degenerate geometry, minimum array sizes and extreme magnitudes",
     "The suite runs a few ordinary points without sanitizers.",
     "svd svdsol svdcov dmat smat fitxy pxy combn permut refro unpcd djcal djcl dd2tf obs",
     [("bounds and guards in each function", "src/*.cc")],
     "address and undefined-behaviour sanitizers with exactly sized heap buffers, a step limit, and finiteness of outputs")

prop("C31", "Value types: every accessor denotes its own field and nothing else",
     "In the public value types (directions, positions, Cartesian and spherical position-velocity pairs, mount angles, sexagesimal fields, plate models) every named getter returns what was last stored in the field it names, whichever of the synonymous setters, constructors, subscripts or views stored it, and storing one field never changes another. "
     "Synonyms (longitude, right ascension and hour angle; latitude and declination; hours and degrees; minutes and arcminutes; seconds and arcseconds) share one field, the sign reads back as '+' or '-', and copies are independent and equal.",
     "every history of setting, copying and reading any fields of every value type, in both precisions, with arbitrary values",
     "The suite reads results through a few of the getters once; most setters, synonyms and views are never used together.",
     "slalib", [("inline accessors over private arrays", "src/slalib.h")],
     "model-based histories: a plain array holds what each field must contain after every step", over=("histories", "inputs"))

prop("C32", "Any chain of celestial frame changes is rigid and its reverse undoes it",
     "Converting directions between equatorial, ecliptic, galactic, supergalactic and horizon coordinates, precessing and nutating them, and turning them with Euler-angle, axial-vector or precession-nutation matrices, in any order and any number of times, preserves every angular separation and the handedness, keeps latitudes within [-pi/2, pi/2] and longitudes within one turn, and going back step by step, by the opposite function or by the transposed matrix of the same change, restores the original directions.",
     "every sequence of frame changes with any dates, epochs, latitudes and angles, applied to any directions including coincident, opposite, polar and nearly coincident ones",
     "The suite transforms one direction once per function and never goes back or combines functions.",
     "eqgal galeq galsup supgal eqecl ecleq preces prec precl prebn nut prenut ecmat de2h dh2e deuler dav2m dmxv dimxv dcs2c dcc2s",
     [("each conversion goes through a rotation matrix of its own", "src/eqgal.cc, src/galsup.cc, src/eqecl.cc, src/preces.cc, src/de2h.cc")],
     "metamorphic: separations and the triple product of three directions are invariant along the chain, the reverse chain by alternative functions is the identity", over=("histories", "inputs"))

LEVEL_NOTE = ("Generated-input search: {o}. Seeded and deterministic; shows absence of counterexamples only among the "
              "cases generated. Trusts the compiler, libm's long double functions and the reference models under /verif/pbt.")

def main():
    import sys
    claimed = sorted(f[:3].upper() for f in os.listdir(os.path.join(ROOT, "pbt/props")) if f.endswith(".cc"))
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                     observe_at=["return values, status codes and output arguments of the public functions declared in src/slalib.h"],
                     hook_needed=None)
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["stmt"],
                                    quantifier=dict(over=p["over"], text=p["q"]),
                                    why_tests_cant=p["why"], anchors=a)) + "\n")
    man = dict(version=1, setup_cmd="python3 tools/check.py --setup", checks=[], not_applicable=[],
               notes="All checks are property-based tests run by one engine (pbt/engine.h); tools/check.py builds the "
                     "library from /repo's working tree, runs the property's laws, shrinks failures and writes evidence. "
                     "No hooks are needed in /repo.")
    for p in P:
        if p["id"] in claimed:
            man["checks"].append(dict(property=p["id"],
                quick_cmd="python3 tools/check.py %s" % p["id"],
                thorough_cmd="python3 tools/check.py %s --thorough" % p["id"],
                evidence_file="evidence/%s.json" % p["id"],
                technique="property-based testing: generated inputs against an explicit oracle (%s)" % p["oracle"],
                level="exploration", level_note=LEVEL_NOTE.format(o=p["oracle"])))
        else:
            man["not_applicable"].append(dict(property=p["id"], reason="check not built yet"))
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1); f.write("\n")
if __name__ == "__main__":
    main()

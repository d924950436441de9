"""Regenerates /verif/properties.jsonl (the list is maintained here)."""
import json, os
C = 'src/nvector/core.py'; R = 'src/nvector/rotation.py'; U = 'src/nvector/util.py'; O = 'src/nvector/objects.py'
P = []


def p(id_, title, statement, over, text, why, files, mech):
    P.append(dict(id=id_, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))


p('C01', 'Latitude/longitude and n-vector are exact inverses on the whole sphere',
  'Converting latitude and longitude to an n-vector yields a unit vector whose component along the Earth axis is sin(latitude) and whose equatorial part points towards the longitude; converting an n-vector back gives latitude in [-pi/2, pi/2] and longitude in [-pi, pi] of the same direction. The two conversions are inverse to each other (longitude is free at the poles), for both supported axis conventions.',
  ['inputs', 'configurations'], 'Every latitude, longitude, every non-zero n-vector incl. poles and the antimeridian, any number of columns, both choices of E-axes.',
  'Tests convert a handful of points; the quantifier is the whole sphere times column counts times axis conventions.',
  [C, R], [('lat_lon2n_E', C), ('n_E2lat_lon', R), ('E_rotation', R)])
p('C02', 'n-vector and depth give the geometrically exact ECEF position',
  'The Cartesian position computed from an n-vector and a depth lies exactly depth metres along the inward ellipsoid normal from a point of the ellipsoid with semi-axis a and flattening f, whose outward normal is that n-vector. Depth defaults to the surface, and the n-vector is normalised first.',
  ['inputs', 'configurations'], 'Every unit (or non-zero) n-vector, every depth, every a > 0 and 0 <= f < 1, any number of columns, depth scalar or per column, both E-axes.',
  'Tests compare two or three points on WGS84 to rounded literals.',
  [C], [('n_EB_E2p_EB_E', C), ('unit', U)])
p('C03', 'ECEF position to n-vector and depth inverts the forward conversion',
  'Converting a Cartesian position to n-vector and depth returns a unit n-vector and the depth that reproduce that position through the forward conversion, and converting n-vector and depth to Cartesian and back returns the same n-vector and depth. Holds for positions on, above and below the ellipsoid surface (outside the evolute), on any supported ellipsoid.',
  ['inputs', 'configurations'], 'Every position outside the evolute of the ellipsoid, incl. the polar axis and the equatorial plane; every a > 0, 0 <= f < 1 (f = 0 is a sphere); any number of columns; both E-axes.',
  'Tests round-trip a few near-surface points on one ellipsoid; the closed-form solution has sub-expressions that only matter elsewhere.',
  [C, U], [('p_EB_E2n_EB_E', C), ('_equation23', C), ('_compute_k', C), ('nthroot', U)])
p('C04', 'Delta vectors between two positions are consistent and invertible',
  'The delta vector from A to B equals the Cartesian position of B minus that of A, each on the same ellipsoid with its own depth; it is antisymmetric and zero for A = B. Adding the delta vector to A recovers the n-vector and depth of B.',
  ['inputs', 'configurations'], 'All pairs of positions outside the evolute, all depths, all ellipsoids, any number of columns, both E-axes.',
  'Tests check single examples; argument mix-ups (depths, ellipsoid, axes) that cancel at those examples stay unseen.',
  [C], [('n_EA_E_and_n_EB_E2p_AB_E', C), ('n_EA_E_and_p_AB_E2n_EB_E', C)])
p('C05', 'Euler-angle matrices are the stated proper rotations and can be inverted',
  'The matrix built from x-y-z (respectively z-y-x) Euler angles is the product of the elementary rotations about those axes in that order, hence orthonormal with determinant one. Extracting the angles returns the original ones for the middle angle strictly inside (-pi/2, pi/2) and the other two in (-pi, pi].',
  ['inputs'], 'All angle triples, scalars or arrays of any equal or broadcastable length.',
  'Tests use a few angle triples.', [R], [('xyz2R', R), ('zyx2R', R), ('R2xyz', R), ('R2zyx', R)])
p('C06', 'Local-frame rotation matrices are proper rotations aligned with down/north',
  'The rotation matrix of the North-East-Down frame at an n-vector is a proper rotation whose columns are north, east and down (down is minus the n-vector, east is perpendicular to the Earth axis with a fixed convention at the poles), and the n-vector is recovered from it. The matrix of the wander-azimuth frame equals the North-East-Down one turned about down by the wander azimuth and gives back the same n-vector.',
  ['inputs', 'configurations'], 'Every unit n-vector including both poles (poles for the N frame and n-vector recovery), every wander azimuth, any number of columns, both E-axes.',
  'Tests use a few positions and never mix pole and non-pole columns.', [R],
  [('n_E2R_EN', R), ('n_E_and_wa2R_EL', R), ('R_EN2n_E', R), ('R_EL2n_E', R)])
p('C07', 'Great-circle and chord distances are exact, symmetric and well-conditioned',
  'The great-circle distance is radius times the angle in [0, pi] between the two n-vectors (symmetric, zero exactly for equal and pi*radius for antipodal positions) and the Euclidean distance is radius times the chord, i.e. 2*radius*sin(angle/2). Distances stay accurate in floating point for very small and nearly antipodal separations, and are paired column by column.',
  ['inputs'], 'Every pair of unit n-vectors (coincident, tiny separation, 90 degrees, antipodal), any radius > 0 (scalar or per column), any number of columns.',
  'Tests check a few pairs at moderate separations.', [C], [('great_circle_distance', C), ('euclidean_distance', C)])
p('C08', 'Spherical direct problem and azimuth obey great-circle geometry',
  'Travelling an angular distance along an azimuth gives a unit n-vector at exactly that angle from the start, in the direction cos(azimuth)*north + sin(azimuth)*east (with the documented north/east convention at the poles). The azimuth from A to B is the angle, clockwise from north at A, of the delta vector between the two surface positions on the given ellipsoid; on a sphere it inverts the direct problem.',
  ['inputs', 'configurations'], 'Every start n-vector (incl. poles for the direct problem), every distance and azimuth (any sign, any number of turns), any ellipsoid for the azimuth, any number of columns, both E-axes.',
  'Tests use a few starts, azimuths in one quadrant, and one start per call.', [C],
  [('n_EA_E_distance_and_azimuth2n_EB_E', C), ('n_EA_E_and_n_EB_E2azimuth', C), ('great_circle_distance', C)])
p('C09', 'Interpolated positions lie on the path between the end points',
  'Interpolating between two positions returns a unit n-vector in the plane of the two end points, equal to the end points at parameters 0 and 1 and proportional to the linear chord interpolation in between. Depth is interpolated linearly for path objects.',
  ['inputs'], 'Every pair of non-antipodal unit n-vectors, every parameter in [0, 1] (scalar or per column), any number of columns, any depths.',
  'Tests interpolate a couple of paths.', [C, O], [('interpolate', C), ('GeoPath.interpolate', O), ('unit', U)])
p('C10', 'Path intersection lies on both great circles, on the near side of A1',
  'The intersection of two paths is a unit n-vector perpendicular to the normals of both great circles and, of the two candidates, is the one that is not on the opposite hemisphere from the first point of the first path. Equal or degenerate great circles give NaN together with a warning.',
  ['inputs'], 'All pairs of paths given by unit n-vectors (including equal, reversed and perpendicular paths), any number of paths per call.',
  'Tests intersect a few path pairs, one at a time.', [C, O], [('intersect', C), ('GeoPath.intersect', O)])
p('C11', 'Cross-track distance is the signed angle to the great circle',
  'The great-circle cross-track distance is radius times the signed angle in [-pi/2, pi/2] between the position and the great-circle plane, positive to the right of the travel direction from the first to the second path point; the Euclidean variant is radius times the sine of that angle. Reversing the path flips the sign, and positions at the pole of the great circle give plus or minus a quarter turn rather than NaN.',
  ['inputs', 'configurations'], 'All non-degenerate paths, all positions, any radius > 0, both methods, any number of columns (one path with many positions, many paths with many positions).',
  'Tests check few positions.', [C, O], [('cross_track_distance', C), ('great_circle_normal', C), ('GeoPath.cross_track_distance', O)])
p('C12', 'On-great-circle and on-path tests accept exactly the right positions',
  'A position is reported on a great circle iff its cross-track distance is within the tolerance, and on a path iff additionally it lies between the end points along the shorter arc. End points and interpolated points are accepted; positions beyond an end, on the far side of the Earth, or off the great circle by more than the tolerance are rejected.',
  ['inputs', 'configurations'], 'All non-degenerate paths shorter than a half turn, all positions, all tolerances and radii > 0, any number of columns; functional and object-oriented API, spherical and ellipsoidal methods.',
  'Tests probe a few positions near one or two paths.', [C, O],
  [('on_great_circle', C), ('on_great_circle_path', C), ('GeoPath.on_path', O), ('GeoPath.on_great_circle', O)])
p('C13', 'Closest point on a great circle is on it and no other point is closer',
  'The closest point on the great circle through a path is a unit n-vector on that great circle, and no other point of the great circle is nearer to the given position; the closest point on the path segment is the great-circle point if it lies on the segment and otherwise the nearer end point. The returned depth is the mean of the depths of the end points for a great-circle point.',
  ['inputs'], 'All non-degenerate paths, all positions other than the pole of the great circle, any number of columns (functional API).',
  'Tests check a few configurations.', [C, O], [('closest_point_on_great_circle', C), ('GeoPath.closest_point_on_great_circle', O), ('GeoPath.closest_point_on_path', O)])
p('C14', 'Mean position is the normalised vector sum',
  'The mean horizontal position of n positions is the unit vector along the sum of their n-vectors; it does not depend on their order, equals the position itself when all are equal, and minimises the sum of squared chord distances. The mean depth is the arithmetic mean of the depths.',
  ['inputs'], 'Any number of n-vectors whose sum is not zero.',
  'Tests average three fixed positions.', [C, O], [('mean_horizontal_position', C), ('Nvector.mean', O)])
p('C15', 'Vectorised calls equal column-by-column calls',
  'Calling a function with n columns gives, column by column, the same as n separate calls with one column each, and a one-column argument combined with n columns behaves as if it were repeated n times. The output shapes depend only on the number of columns (never n-by-n), including n = 1 and n = 3.',
  ['inputs', 'configurations'], 'All functional conversions and geodesic functions, all numbers of columns, all inputs in the domain of each function.',
  'Tests exercise a few functions with n > 1; n = 3 (where matrix shapes coincide) and mixed 1/n columns are rarely covered.',
  [C, R, U], [('all functions of core and rotation', C), ('mdot', U), ('unit', U)])
p('C16', 'Object conversions agree with the functional API and are mutually consistent',
  'Converting between geodetic point, n-vector and ECEF position objects gives the same numbers as the functional API with the ellipsoid and axes of the frame of the object, and round trips through any of the representations return the same position and depth. Results keep the frame of the source.',
  ['inputs', 'configurations'], 'All positions outside the evolute, all frames (ellipsoid and axes), degrees or radians, scalars or arrays.',
  'Tests convert a few points, mostly on the default frame.', [O],
  [('GeoPoint.to_nvector', O), ('Nvector.to_ecef_vector', O), ('Nvector.to_geo_point', O), ('ECEFvector.to_nvector', O)])
p('C17', 'Deltas in local frames are rotations of the ECEF delta and can be undone',
  'The delta vector between two positions expressed in a North-East-Down, wander-azimuth or body frame is the ECEF delta multiplied by the transpose of the rotation matrix of that frame; converting it back to ECEF returns the ECEF delta. Length is invariant; azimuth is the angle of the horizontal part from the x axis towards the y axis and elevation the arcsine of the z part over the length.',
  ['inputs', 'configurations'], 'All pairs of distinct positions, all frames and ellipsoids, all yaw/pitch/roll and wander azimuths, one or many columns.',
  'Tests check single examples.', [O],
  [('delta_E', O), ('delta_N', O), ('delta_L', O), ('ECEFvector.change_frame', O), ('Pvector.to_ecef_vector', O), ('FrameB.R_EN', O), ('Pvector.azimuth', O), ('Pvector.elevation', O), ('Pvector.length', O)])
p('C18', 'Ellipsoidal direct and inverse problems solve the geodesic at the given depth',
  'The ellipsoidal distance, azimuths and destination are those of the geodesic problem on the ellipsoid with semi-axis a - z and flattening f, in consistent units (degrees or radians) and with longitude unrolling only when requested. Direct and inverse are inverse to each other, the inverse is symmetric under exchanging the points, and arrays are solved element by element.',
  ['inputs', 'configurations'], 'All latitudes, longitudes, azimuths, distances, depths, ellipsoids, both unit systems, both unrolling options, scalars or broadcastable arrays.',
  'Tests check a handful of points.', [O], [('FrameE.inverse', O), ('FrameE.direct', O), ('GeoPoint.displace', O), ('GeoPoint.distance_and_azimuth', O)])
p('C19', 'Great-circle displacement and distance of points agree with each other',
  'The great-circle distance between two points is the mean of their distances from the Earth centre times the angle between their n-vectors, with the azimuths at both ends measured from north in the direction of travel, in (-pi, pi]. Displacing a point by a great-circle distance moves its n-vector by that distance over its distance from the Earth centre along the azimuth and keeps its depth.',
  ['inputs', 'configurations'], 'All pairs of distinct non-polar points, all distances and azimuths, degrees or radians, all frames, scalars or arrays.',
  'Tests check one or two points on the default frame.', [O], [('GeoPoint.displace', O), ('GeoPoint.distance_and_azimuth', O), ('GeoPath.track_distance', O)])
p('C20', 'Quantities of different frames are never silently combined',
  'Adding, subtracting, differencing, changing the frame of, or computing the distance and azimuth between two positions or vectors whose Earth frames differ (in semi-axis, flattening or axes) raises ValueError; with equal frames, even when distinct objects, it succeeds and the result carries that frame.',
  ['inputs', 'configurations'], 'All pairs of Earth frames; addition, subtraction, delta vectors, change of frame, distance-and-azimuth.',
  'Tests try one incompatible pair.', [O], [('_check_frames', O), ('FrameE._is_equal_to', O)])
p('C21', 'Equality of positions and frames is a tolerance comparison of all parts',
  'Two positions (or frames) compare equal iff all their coordinates, depths and frames agree within the stated tolerance - longitudes modulo a full turn -; equality is reflexive and symmetric, != is its negation, and comparing with unrelated objects is False. The underlying isclose/allclose compare |a-b| with max(atol, rtol*max(|a|,|b|)) element by element, with infinities equal only to themselves and NaN only if requested.',
  ['inputs', 'configurations'], 'All pairs of objects of the library with equal shapes; all finite, infinite and NaN elements; all tolerances.',
  'Tests compare a few equal and a few very different objects.', [O, U], [('_Common.__eq__', O), ('_is_equal_to', O), ('isclose', U), ('allclose', U)])
p('C22', 'Ellipsoid registry and frames deliver the requested parameters',
  'Every registered ellipsoid is found by number and by any of its names (case and blanks ignored) with its own semi-axis and a flattening in (0, 0.004), and unknown names raise KeyError. A frame uses exactly the a and f it is given, taking any missing one from the named ellipsoid (WGS84 by default), and the requested axes.',
  ['inputs', 'configurations'], 'All names and numbers of the registry, all combinations of given/omitted a, f, name and axes.',
  'Tests look up very few names.', [U, O, R], [('get_ellipsoid', U), ('ELLIPSOID', U), ('FrameE.__init__', O)])
p('C23', 'No function modifies the arrays or objects passed to it',
  'Calling any exported function or query method leaves the contents of its array arguments, of the objects it is called on and of the module-level constants unchanged, so repeated calls give identical results.',
  ['inputs', 'histories', 'configurations'], 'All public functions and query methods (Nvector.unit, which normalises in place by contract, excepted), all inputs, any call sequence.',
  'Tests do not compare inputs before and after.', [C, R, U, O], [('unit', U), ('E_ROTATION_MATRIX', R), ('interpolate', O)])
p('C24', 'Unit, angle and matrix helpers compute what they say',
  'Degree and radian conversion are linear inverses; normalisation returns the parallel unit vector of every column and the documented constant for zero columns; the matrix product helper multiplies 3x3 matrices (and 3-vectors) column by column; the n-th root raised to n returns the argument.',
  ['inputs'], 'All real arguments (non-negative for roots), any number of columns, any norm for zero vectors.',
  'Tests use a few values.', [U], [('deg', U), ('rad', U), ('unit', U), ('mdot', U), ('nthroot', U)])
p('C25', 'Time interpolation of tracks hits the samples and stays on the sphere',
  'Interpolating a track of n-vectors in time returns unit n-vectors of the requested times that equal the (normalised) samples at the sample times and for the linear kind lie on the chord between neighbouring samples; times outside the track give NaN. Depth is interpolated alike and the smoothing window is widened to the next odd length.',
  ['inputs', 'configurations'], 'All tracks with increasing times, all query times inside or outside, with and without smoothing, scalar or per-sample depth.',
  'Tests interpolate two tracks.', [C, O], [('interp_nvectors', C), ('_interp_vectors', C), ('Nvector.interpolate', O)])
p('C26', 'Scalar positions give scalar results, array positions give arrays',
  'A single position built from scalar latitude, longitude and depth stays scalar through conversions, and distances, azimuths, lengths and angles derived from single positions are scalars (numpy scalars or 0-d), while quantities derived from n positions have n elements.',
  ['inputs', 'configurations'], 'All object-oriented conversions and queries, scalar and n-element positions.',
  'Tests check shape only incidentally.', [O], [('GeoPoint.scalar', O), ('Nvector.scalar', O), ('Pvector.length', O), ('GeoPath.track_distance', O)])
p('C27', 'Results do not depend on the choice of E-axes',
  'Expressing the same positions with the other axis convention changes vectors only by the fixed axis rotation; latitudes, longitudes, depths, distances, azimuths and all other scalar results are unchanged.',
  ['inputs', 'configurations'], 'All functions and methods that take axes or a frame, all inputs, both axis conventions.',
  'Tests use the non-default axes in few places.', [C, R, O], [('E_rotation', R), ('R_Ee arguments', C), ('FrameE.R_Ee', O)])
p('C28', 'Vector objects obey vector-space arithmetic',
  'Addition, subtraction, negation, and scalar multiplication and division of n-vector objects act component-wise on vector and depth, and those of ECEF and delta vectors act component-wise; operations return new objects with the same frame and multiplying two n-vectors is refused.',
  ['inputs'], 'All n-vector and ECEF objects in one frame, all scalars, one or many columns.',
  'Tests add and subtract a couple of vectors.', [O], [('Nvector.__add__', O), ('Nvector.__mul__', O), ('ECEFvector.__sub__', O), ('ECEFvector.__neg__', O)])

for q in P:
    for f in q['anchors']['mechanism']:
        f['where'] = f['where']
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as fh:
    for q in P:
        assert len(q['title']) <= 80, q['title']
        fh.write(json.dumps(q) + '\n')

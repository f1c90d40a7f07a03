#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below (run by hand after editing it)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "libs/mathlib/include/"
T = "The unit tests evaluate %s; the guarantee is over every %s, including %s."
P = []
def prop(id, title, statement, over, text, why, files, mech, tech, note):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[I + f if not f.startswith("libs") else f for f in files], mechanism=[dict(name=n, where=(I + w if not w.startswith("libs") else w)) for n, w in mech]), tech=tech, note=note))

prop("C01", "Vector algebra computes its mathematical definition",
  "Every arithmetic operation, product, length, distance, normalisation, comparison, min/max, major/minor coordinate and conversion of 2D, 3D and 4D vectors returns the mathematically defined value within floating-point rounding, the in-place and the value-returning form agree, and operands that are not the target keep their value. The algebraic identities (anticommutative cross product orthogonal to both factors, Lagrange identity, zero vectors staying zero under normalisation) hold.",
  ["inputs"], "all finite vectors and scalars of both precisions over many magnitudes, ties, zero components and aliased operands",
  T % ("each operation on one or two hand-picked vectors", "pair of vectors and scalar", "ties, signs, zero components, magnitudes from 1e-6 to 1e6 and in-place use"),
  ["vec2.h", "vec3.h", "vec4.h", "impl/vec2.h", "impl/vec3.h", "impl/vec4.h"], [("component formulas", "impl/vec3.h"), ("component formulas", "impl/vec2.h"), ("component formulas", "impl/vec4.h")],
  "online oracle monitor: extended-precision reference with running error bound", "Each observed call is compared with a long-double reference carrying a rigorous rounding bound")
prop("C02", "Rotating, mirroring and converting vectors keeps geometry",
  "Rotating a vector (any angle, quarter turns, about a coordinate axis) preserves its length, turns it by exactly that angle in the right-handed sense and fixes the axis; mirroring negates exactly one coordinate and is an involution; angle/fromAngle, dropping a coordinate and embedding with any 2D-to-3D or 3D-to-4D conversion are consistent inverses. Any chain of rotations equals the rotation by the sum.",
  ["inputs", "histories"], "all vectors, angles (including multiples of a quarter turn and many turns), axes, and chains of rotations",
  T % ("a few vectors at a few angles", "vector, angle, axis and chain of operations", "all quadrants, all axes and repeated in-place rotation"),
  ["vec2.h", "vec3.h", "impl/vec2.h", "impl/vec3.h"], [("rotate, rotated90/180/270, mirror, angle, set", "impl/vec2.h"), ("rotate, mirror, toVec2", "impl/vec3.h")],
  "online oracle monitor over generated rotation histories", "Reference rotations in extended precision")
prop("C03", "Angular interpolation follows the short arc at constant rate",
  "Interpolating between two angles, two 2D directions or two 3D directions starts at the first and ends at the second, moves along the shorter arc, and has turned by exactly ratio times the arc; the limited forms turn towards the target by at most the given angle and reach it when it is closer. This holds for angles any number of turns apart and for acute, obtuse and nearly opposite directions, and vector lengths follow the documented rule.",
  ["inputs"], "all pairs of angles and directions, ratios in [0,1] and maximum angles",
  T % ("a handful of pairs, mostly acute and within one turn", "pair of angles or directions", "differences beyond half a turn in either direction and obtuse arcs"),
  ["functions.h", "interpolation.h", "impl/vec2.h", "impl/vec3.h"], [("clerp, clerpMaxAngle", "interpolation.h"), ("Vec2 clerp", "impl/vec2.h"), ("Vec3 slerp", "impl/vec3.h")],
  "online oracle monitor: arc reference", "Reference arc computed with atan2 in extended precision; pairs within rounding of opposite are only checked for the properties that remain defined")
prop("C04", "Matrix operations compose like the maps they represent",
  "Multiplying, transforming, rotating, scaling, translating (before or after), transposing, negating and scaling by a number yield the matrix of the composed linear, affine or projective map, whatever sequence of operations built the operands, whichever of the equivalent forms (operator, in-place, value-returning, static, aliased with itself) is used, and whatever shortcut the library takes for identity, rotation or translation-rotation-scale matrices. Applying the result to a vector equals applying the factors in order.",
  ["histories", "inputs"], "all histories of composing operations over 2x2, 3x3, 3x4 and 4x4 matrices of both precisions, including self-multiplication, singular, reflected, nearly identity and projective matrices",
  T % ("single products of a few fixed matrices", "history of operations", "those whose classification flags select a shortcut and those that alias destination and operand"),
  ["mat2.h", "mat3.h", "mat34.h", "mat4.h", "impl/mat2.h", "impl/mat3.h", "impl/mat34.h", "impl/mat4.h"], [("multiply and its flag shortcuts", "impl/mat4.h"), ("operator*=, rotate, scale", "impl/mat3.h"), ("transform, transformPre, translate", "impl/mat34.h"), ("rotate, scale, multiply", "impl/mat2.h")],
  "history monitor: shadow matrix in extended precision beside every operation", "Histories of up to ten operations; a shadow matrix with error bounds is advanced next to the real one. Three sites pinned by existing tests are known findings")
prop("C05", "Transforming vectors and arrays applies the matrix to each element",
  "Transforming one vector, an array of vectors or a strided array by a matrix stores at every destination element exactly the matrix applied to the corresponding source element (points translated, directions not, 4D vectors with their own w), for any count and strides, in place or not. Nothing outside the destination elements is written and nothing outside the source elements is read.",
  ["inputs"], "all matrices, counts, strides (including 0 and overlapping in-place use) and vectors",
  T % ("short packed arrays with distinct source and destination", "layout, count and matrix", "in-place transforms, strides larger than the element, interleaved buffers and count 0"),
  ["impl/mat2.h", "impl/mat3.h", "impl/mat34.h", "impl/mat4.h"], [("transform, transformVector with strides", "impl/mat4.h"), ("transform", "impl/mat34.h"), ("transform", "impl/mat3.h"), ("transform", "impl/mat2.h")],
  "online oracle monitor with canary bytes; AddressSanitizer on exact heap blocks", "Padding bytes are randomised and compared; blocks end at the last element")
prop("C06", "Inverse, determinant, adjoint, cofactors and transpose are consistent",
  "For every matrix the determinant, trace, transpose, cofactors and adjoint equal their definitions; the inverse multiplied with the matrix gives the identity within the rounding the condition number allows, whichever shortcut is taken; a matrix without inverse gives the zero matrix. In-place and value-returning forms agree and the inverse of a classified matrix is correctly classified.",
  ["inputs", "histories"], "all matrices built directly or through a history: singular, badly scaled, unimodular, reflected, orthonormal, nearly orthonormal, affine and projective",
  T % ("a few invertible matrices", "matrix and the history that set its classification", "singular ones and those where a classification shortcut replaces the general inverse"),
  ["impl/mat2.h", "impl/mat3.h", "impl/mat34.h", "impl/mat4.h"], [("inverse with orthonormal/TRS/identity shortcuts", "impl/mat4.h"), ("inverse, adjoint, cofactors", "impl/mat3.h"), ("inverse", "impl/mat34.h"), ("inverse", "impl/mat2.h")],
  "online oracle monitor: extended-precision inverse with condition-number bound", "Exact singular cases on power-of-two grids; others bounded by the condition number")
prop("C07", "Matrix classification is truthful after any history",
  "After any sequence of operations, a matrix that reports itself normal, orthogonal, orthonormal, identity or translation-rotation-scale really is so within the tolerance in force, no operation relies on a stale classification, and recomputing the classification reports exactly what the elements satisfy. Copies and casts carry a classification that is true of the copy.",
  ["histories", "inputs"], "all histories of up to ten operations over every matrix type with default and custom tolerances",
  T % ("the flags after one operation on a fixed matrix", "sequence of operations", "those where an operation that does not preserve a property follows one that sets it"),
  ["impl/mat2.h", "impl/mat3.h", "impl/mat34.h", "impl/mat4.h", "common.h"], [("flag updates in every operation", "impl/mat4.h"), ("flag updates", "impl/mat3.h"), ("flag updates", "impl/mat34.h"), ("flag updates", "impl/mat2.h")],
  "invariant monitor after every step of generated histories", "The invariant recomputes the defining errors from the elements after each step, with slack for rounding accumulated in the history")
prop("C08", "Rotation matrices and frames are right-handed and orthonormal",
  "Rotation matrices built from an angle, an axis and angle, a coordinate axis or a quaternion are orthonormal with determinant one and perform exactly that right-handed rotation; frames built from one exact and one approximate axis keep the exact direction, put the approximate axis in the right half-plane and are right-handed; orthonormalising yields a rotation near the given matrix (in 2D keeping the first axis). Local axes and planes of a transformation are those of the transformed frame.",
  ["inputs"], "all axes, angles, quaternions (every branch of the conversion) and all ordered axis pairs",
  T % ("a few axes and angles", "rotation", "every branch of the quaternion conversion and every ordered pair of axes"),
  ["impl/mat2.h", "impl/mat3.h", "impl/mat34.h", "impl/mat4.h", "impl/quat.h"], [("constructors from axis/angle/quaternion/frame, orthonormalize", "impl/mat3.h"), ("localAxis, localPlane", "impl/mat34.h"), ("constructors", "impl/mat4.h"), ("conversion from matrix", "impl/quat.h")],
  "online oracle monitor: Rodrigues reference and frame invariants", "Reference rotations in extended precision")
prop("C09", "Quaternion algebra represents rotations faithfully",
  "Quaternion product, inverse, quotient, negation, log, exp and conversions to and from axis-angle, matrices and from-to directions represent the corresponding rotations: rotating by a product is rotating by the factors in order, q times its inverse is one, exp undoes log, and the from-to quaternion carries the first direction onto the second also when they are opposite. Every unit quaternion, also one rounded slightly beyond unit length, converts without failing.",
  ["inputs"], "all unit and non-unit quaternions, all axes and angles, all pairs of directions including parallel and opposite",
  T % ("a few quaternions", "quaternion and pair of directions", "opposite directions, tiny angles, w beyond one by rounding and non-unit divisors"),
  ["quat.h", "impl/quat.h"], [("operators, set, toAxisAngle, log, exp", "impl/quat.h")],
  "online oracle monitor: extended-precision quaternion algebra", "Rotations compared through their action and through components up to sign where both signs are valid")
prop("C10", "Rotation interpolation is the constant-rate shortest path",
  "Spherical interpolation of quaternions, 2x2, 3x3 and 3x4 rotations returns the first rotation at 0, the second at 1 and in between the rotation turned by that fraction along the shorter path, always a valid rotation; the limited forms turn by at most the given angle; cubic (squad) interpolation passes through its keys. Nearby, equal, opposite-sign and almost half-turn-apart keys are no exception.",
  ["inputs"], "all pairs of rotations, weights in [0,1] and maximum angles",
  T % ("a few pairs of quaternions", "pair of rotations and weight", "negative dot products, nearly equal keys and half-turn separations"),
  ["impl/quat.h", "impl/mat2.h", "impl/mat3.h", "impl/mat34.h"], [("slerp, slerpMaxAngle, slerpNoInvert, lerp, squad", "impl/quat.h"), ("slerp", "impl/mat3.h"), ("slerp", "impl/mat2.h")],
  "online oracle monitor: great-arc reference", "Near half a turn apart either direction is accepted")
prop("C12", "Easing, interpolation and response curves keep their contract",
  "Every easing curve is 0 up to 0, 1 from 1 on, non-decreasing and within 0..1 in between, and equals its closed form to the precision of its type; linear interpolation hits both ends and is affine for reals, integers (rounded) and vectors, and with a curve it interpolates by the curve's value. Response curves (evaluate with a threshold) are odd, zero within the threshold, non-decreasing and, except for the Zero type, reach one at full deflection.",
  ["inputs", "configurations"], "all modes, all ratios (dense, ends, beyond the ends), all parameters of the response curves, both precisions",
  T % ("each mode at five points with a loose margin", "mode, ratio and precision", "the seams of the piecewise curves and double precision"),
  ["interpolation.h", "functions.h", "common.h"], [("interpolationRatio, lerp", "interpolation.h"), ("evaluate", "functions.h")],
  "online oracle monitor: closed forms plus shape invariants (range, monotone, odd)", "The base-2 exponential modes use rounded constants, so only about 5e-6 is demanded of them")
prop("C13", "Scalar helpers and constants obey their definitions",
  "Positive modulo lies in [0, y), centered modulo in [-y/2, y/2], both differ from their argument by a multiple of y and the plain one is the exact remainder; clipping returns the nearest value of the interval, arc sine and arc cosine of arguments beyond [-1, 1] return the end of their range, and absolute value, minimum, maximum, distances, coordinate cycling and degree/radian conversions equal their definitions. All constants equal the mathematical value in each precision.",
  ["inputs"], "all finite arguments incl. negative, zero, tiny, exact multiples and out-of-domain values",
  T % ("each helper at a few points", "argument", "tiny negative remainders, exact multiples, interval ends and arguments just outside the domain"),
  ["functions.h", "constants.h", "impl/constants.h"], [("fmodPositive, fmodCentered, clippedBetween, asin, acos", "functions.h"), ("constant values", "impl/constants.h")],
  "online oracle monitor: extended-precision reference and range invariants", "Exactness demanded where the definition is exact")
prop("C14", "Random helpers stay in range and reach their whole range",
  "For every value the underlying generator can return, including its extremes, the random helpers return a value inside the documented interval, random unit vectors have unit length and random colors are valid; over the whole generator range every documented value, sign and octant is reachable and the mapping is uniform. No helper uses randomness other than the standard generator, so a seed reproduces the sequence.",
  ["inputs", "histories"], "all outputs of the underlying generator (scripted, incl. 0 and the maximum) and all interval arguments",
  "The unit tests draw a few numbers from one seeded stream; extremes of the generator (probability 2^-31 each) and uniformity are out of their reach.",
  ["functions.h", "impl/vec2.h", "impl/vec3.h", "impl/colorrgb.h", "impl/colorrgba.h", "impl/colorhsv.h"], [("randAmplitude, randInterval and friends", "functions.h"), ("randomUnitVector", "impl/vec3.h"), ("random colors", "impl/colorrgb.h")],
  "fault injection at the generator (interposed rand()) with range and distribution monitors", "rand() is interposed with scripted extremes; distribution checks use fixed counts with wide margins")
prop("C15", "RGB and RGBA color algebra is componentwise",
  "Adding, subtracting, scaling, comparing, interpolating, casting and converting between RGB and RGBA treats each channel independently and within rounding, in place or not; adding or dropping alpha never changes the color channels, bytes 0..255 map to channel over 255, gray constructors set every color channel. Named colors have their named components.",
  ["inputs"], "all colors, including components outside [0,1], all bytes and ratios, and destinations that alias an operand",
  T % ("one or two colors per operation", "color", "out-of-range components and every channel independently"),
  ["colorrgb.h", "colorrgba.h", "impl/colorrgb.h", "impl/colorrgba.h"], [("operators, interp, conversions", "impl/colorrgb.h"), ("operators, interp, conversions", "impl/colorrgba.h")],
  "online oracle monitor per channel", "Reference with rounding bounds per channel")
prop("C16", "HSV conversion round-trips and interpolates hue the short way",
  "Converting RGB to HSV gives hue in [0,360), saturation in [0,1] and value equal to the largest channel; converting back returns the same color for every valid color, in every sextant and on its borders; grays have no saturation and hue 0, and a hue any number of turns away denotes the same color. Interpolating HSV moves the hue along the shorter arc and the other channels linearly.",
  ["inputs"], "all valid RGB and HSV colors, hues at and around sextant borders, all pairs and ratios",
  T % ("primary colors and a few mixes", "color and pair of colors", "colors a rounding below a sextant border and hue differences over half a turn"),
  ["colorhsv.h", "impl/colorhsv.h", "impl/colorrgb.h", "impl/colorrgba.h"], [("toRGB, interp", "impl/colorhsv.h"), ("toHSV", "impl/colorrgb.h")],
  "online oracle monitor: independent conversion reference and round trip", "Extended-precision sextant reference")
prop("C17", "Axis-aligned boxes behave as point sets",
  "Union, intersection, containment, overlap, translation, scaling, growing by points and bounding arrays (packed or strided) of min/max boxes agree with the sets of points the boxes denote: a union is the smallest box containing both, an intersection contains exactly the common points, bounding boxes touch their extreme points, border points belong to the box. Center, extents, size, volume, relative points and inner/outer balls are those of the set.",
  ["inputs", "histories"], "all boxes (flat, degenerate, empty), points on, just inside and just outside faces, arrays of any length and stride, chains of updates and aliased arguments",
  T % ("a few boxes per operation", "pair of boxes and point", "touching faces, one-ulp misses, flattened boxes, strided arrays and arguments that alias the box"),
  ["aabb2.h", "aabb3.h", "impl/aabb2.h", "impl/aabb3.h"], [("extend, unite, intersect, contains", "impl/aabb3.h"), ("extend, unite, intersect, contains", "impl/aabb2.h")],
  "online oracle monitor: point-set model", "Set semantics evaluated exactly on the stored bounds; measured quantities with rounding bounds")
prop("C18", "Center/extents boxes agree with min/max boxes",
  "Every operation of the center-and-extents boxes gives, within rounding, the same set as the corresponding operation on the min/max box of the same set, and converting between the two representations preserves it. Containment and overlap agree for every point and box that is not within rounding of a border.",
  ["inputs", "histories"], "all boxes, points, arrays and chains of operations of both representations",
  T % ("a few boxes per operation", "box and operation", "the agreement of the two independently coded representations, which no test compares"),
  ["caabb2.h", "caabb3.h", "impl/caabb2.h", "impl/caabb3.h"], [("center/extents operations", "impl/caabb3.h"), ("center/extents operations", "impl/caabb2.h")],
  "differential online monitor: two representations and a set model", "Borders within rounding are undecided")
prop("C19", "Ray and segment queries against boxes find the true entry and exit",
  "A ray or segment is reported to hit or intersect a box exactly when it has a point in common with it (beyond rounding of a border), and the reported parameters are the true first entry and last exit: the points they denote lie on the border, nothing before the entry is inside, and a start inside is reported as documented. This includes rays parallel to faces, rays starting inside, behind or beyond the box and flat boxes.",
  ["inputs"], "all boxes and rays or segments, including axis-parallel ones, starts on either side and inside, grazing ones",
  T % ("a dozen rays from outside along the axes", "ray and box", "rays that pass beside the box, point away from it or start inside it"),
  ["impl/aabb2.h", "impl/aabb3.h"], [("hits, intersects", "impl/aabb3.h"), ("hits, intersects", "impl/aabb2.h")],
  "online oracle monitor: slab reference in extended precision with margin", "Grazing within rounding is undecided")
prop("C20", "Circles and spheres behave as balls",
  "Containment and overlap of points and balls, contact points and depths, bounding balls of arrays (packed or strided), and scaling and translation agree with the point sets the circles and spheres denote. A segment is reported exactly when it enters the ball from outside, at the first point of the surface along it and the parameter of that point.",
  ["inputs"], "all balls, points, segments (inside, crossing, tangent, missing, pointing away), arrays of any length and stride",
  T % ("a few positions per query", "configuration", "segments ending inside, starting inside, passing tangentially and enclosed balls"),
  ["circle.h", "sphere.h", "impl/circle.h", "impl/sphere.h"], [("contains, hits, intersects, from points", "impl/sphere.h"), ("contains, hits, intersects, from points", "impl/circle.h")],
  "online oracle monitor: ball model in extended precision with margin", "Tangencies within rounding are undecided")
prop("C21", "Planes measure, project and intersect correctly",
  "Planes built from a normal and distance, a point, tangents or three points contain what built them with the right orientation; signed distances, projections (orthogonal and along a direction), moved and flipped planes, hits of rays, segments, thick segments and spheres and three-plane intersections satisfy the plane equation and the reported parameters. Queries report a hit exactly when the moving point or ball reaches the plane, from the side documented.",
  ["inputs"], "all planes, points, rays, segments, spheres, directions (parallel, towards, away) and triples of planes (including dependent ones)",
  T % ("axis-aligned planes and a few points", "plane and query", "tilted planes off the origin, approaches from behind, parallel directions and dependent triples"),
  ["plane.h", "impl/plane.h"], [("set, distance, project, hits, intersects, intersectAtSinglePoint", "impl/plane.h")],
  "online oracle monitor: plane equation in extended precision with margin", "Exactly parallel cases on a power-of-two grid")
prop("C22", "Lines, rays, triangles and 2D intersections are geometrically right",
  "Points at a parameter, lengths, nullness, and distances from a point to the line through a segment or ray in 2D and 3D, point-in-triangle, and the intersection of two 2D lines equal their geometric definition. A triangle contains exactly the points on the inner side of all edges whatever its orientation; two lines are reported to intersect unless they are parallel, at parameters that denote the same point on both.",
  ["inputs"], "all segments, rays, points, triangles of both orientations and pairs of figures (crossing, parallel, collinear, touching, degenerate)",
  T % ("a few figures", "configuration", "points on the line, beyond an end, degenerate segments and parallel pairs"),
  ["line2.h", "line3.h", "ray2.h", "ray3.h", "tri2.h", "impl/line2.h", "impl/line3.h", "impl/ray2.h", "impl/ray3.h", "impl/tri2.h", "impl/vec2.h"], [("distance, pointAt", "impl/line3.h"), ("distance, pointAt", "impl/ray3.h"), ("contains", "impl/tri2.h"), ("distance", "impl/line2.h"), ("distance", "impl/ray2.h")],
  "online oracle monitor: point-to-line and crossing references with margin", "One site (3D ray distance of a point exactly on the ray's line) is a known finding pinned by a test")
prop("C23", "A frustum contains exactly the points inside its six faces",
  "A frustum built from eight corners (directly or through a transformation) contains a point exactly when the point is on the inner side of all six faces, contains a ball exactly when its center is inside all six faces by at least the radius, and reports an overlap unless the ball lies wholly beyond one of the faces; its corners are the given corners transformed. Setting it anew leaves nothing of the old shape.",
  ["inputs", "histories"], "all convex eight-corner volumes (perspective, box, skewed), transformations, points and balls around every face",
  T % ("one frustum and a few points", "frustum, transformation and point or ball", "each of the six faces separately, double precision and reuse of an object"),
  ["frustum.h", "impl/frustum.h"], [("computePlanes, contains, intersects", "impl/frustum.h")],
  "online oracle monitor: half-space model with margin", "Points within rounding of a face are undecided")
prop("C24", "Hermite segments interpolate their end points and tangents",
  "A Hermite segment passes through its end points with its end tangents, equals the cubic determined by them at every parameter, and its tangent is the derivative of its point; basis functions sum as they must and setters accept the segment's own data. Converting to the Bezier form gives the same curve.",
  ["inputs", "histories"], "all control data, parameters inside and outside [0,1] and sequences of setters with aliased arguments",
  T % ("one segment at a few parameters", "segment and parameter", "derivative consistency and setters fed with the segment's own data"),
  ["spline3.h", "impl/spline3.h"], [("hermite basis and evaluation", "impl/spline3.h")],
  "online oracle monitor: cubic reference in extended precision", "Error bounds by Horner-free reference with magnitudes")
prop("C25", "Bezier segments, splitting and forward differencing describe one curve",
  "A Bezier segment starts and ends at its end control points, stays in the hull of its control points, and its tangent is the derivative; splitting at any parameter gives two segments that retrace it, also when a result overwrites the segment; forward differencing visits the points and tangents of the uniform parameters; the length is that of the polyline of the given number of steps, and its frenet frame is right-handed, orthonormal and follows the tangent, or is refused without writing anything where the curve has no curvature.",
  ["inputs", "histories"], "all control points (degenerate, collinear, coincident), parameters, step counts and aliased arguments",
  T % ("one segment", "segment, parameter and step count", "aliased splits, degenerate control polygons and long forward-difference runs"),
  ["spline3.h", "impl/spline3.h"], [("bezier basis, split, length, frame, forward differences", "impl/spline3.h")],
  "online oracle monitor: de Casteljau reference, history monitor over stepping", "Forward-difference drift is bounded by the accumulated rounding")
prop("C26", "Spline solvers produce smooth curves through all points",
  "The natural, clamped and closed spline solvers return control points such that consecutive segments meet at the given points with equal first and second derivatives, with zero end curvature, the given end tangents or a smooth closure respectively, for every number of points they accept. The points passed in are not modified and nothing outside the outputs is written.",
  ["inputs"], "all point counts from the smallest accepted up, all point sets including coincident and collinear points",
  T % ("one spline of each kind", "number of points and point set", "the smallest counts and long splines"),
  ["spline3.h", "impl/spline3.h", "impl/linearequations.h"], [("natural, clamped, closed solvers", "impl/spline3.h")],
  "online oracle monitor: C2-continuity residuals; canaries and AddressSanitizer", "Residuals bounded by the rounding of the tridiagonal solve")
prop("C27", "Tridiagonal and cyclic solvers satisfy the system or refuse it",
  "When the tridiagonal or cyclic solver reports success the returned vector satisfies the equations within the rounding its conditioning allows; when a pivot vanishes or the system is singular it reports failure instead of returning garbage, and a cyclic system needs three unknowns. Coefficients are not modified and nothing outside the output is written.",
  ["inputs"], "all sizes from one, all coefficient patterns (dominant, indefinite, zero pivots, singular) and both scalar and vector right-hand sides",
  T % ("one system per solver", "system", "sizes one and two, vanishing pivots and singular cyclic corners"),
  ["linearequations.h", "impl/linearequations.h"], [("TriDiagonal solve, solveCyclic", "impl/linearequations.h")],
  "online oracle monitor: backward-error residual against an extended-precision solution", "Bounds follow the pivot growth of elimination without pivoting")
prop("C28", "Gauss-Jordan solves, inverts in place and refuses singular systems",
  "Solving a regular system replaces the right-hand sides by the solutions and the matrix by its inverse, whatever pivoting is required; a singular or not-a-number system is refused. No element outside the given arrays is read or written for any contents.",
  ["inputs"], "all sizes, numbers of right-hand sides, pivot patterns (permutations, zero diagonals), scales and hostile contents (NaN, infinities)",
  T % ("one or two small systems", "matrix and right-hand side", "full pivoting patterns, extreme scales, singular matrices and NaN"),
  ["linearequations.h", "impl/linearequations.h"], [("GaussJordan solve with full pivoting", "impl/linearequations.h")],
  "online oracle monitor: condition-bounded reference; canaries and sanitizers for hostile contents", "Exact singular cases built from power-of-two entries")
prop("C29", "No call on valid arguments has undefined behaviour",
  "For every use within the documented interface, no operation of the library reads or writes outside the objects and arrays it was given, reads uninitialised data, overflows or converts out of range, divides integers by zero, leaks or uses memory after its lifetime. The library's own assertions hold for every valid argument.",
  ["inputs", "histories"], "the union of the workloads of all other properties, both precisions",
  "The test suite is built with assertions off and without sanitizers; out-of-bounds reads of adjacent memory and uninitialised reads usually leave results intact.",
  ["impl/mat4.h", "impl/linearequations.h", "impl/spline3.h", "impl/aabb3.h", "impl/quat.h", "functions.h", "interpolation.h"], [("array and stride arithmetic", "impl/mat4.h"), ("work arrays", "impl/spline3.h"), ("pivot bookkeeping", "impl/linearequations.h"), ("asserted preconditions", "impl/quat.h")],
  "AddressSanitizer + UBSan + LeakSanitizer, MemorySanitizer and clang float-cast checks over every workload, assertions on", "Sanitizers observe only the executions produced; intra-object overflows are invisible to them")
prop("C30", "Concurrent read-only use is race-free and repeatable",
  "Any number of threads may call the functions of the library and the const operations of shared objects and constants at the same time without data races, and every such call returns what it returns when called alone, whatever was called before on this or any other thread. Const operations leave the bytes of the object unchanged.",
  ["schedules", "histories"], "all interleavings of const operations on shared objects and of independent operations on separate objects",
  "The test suite is single-threaded, so hidden shared state (static work buffers, mutable caches) is invisible to it.",
  ["mathlib.h", "impl/mat4.h", "impl/spline3.h", "impl/frustum.h", "interpolation.h", "functions.h"], [("absence of shared mutable state", "mathlib.h"), ("work arrays allocated per call", "impl/spline3.h")],
  "ThreadSanitizer over every workload on four threads, plus replay monitor on shared const objects", "Race detection is happens-before based: a race on the executed accesses is reported whatever the schedule; rand()-based helpers are serialised inside the C library")
prop("C31", "The test matchers accept exactly the values within the margin",
  "Each matcher of the test support library accepts a value exactly when every component is within the margin of the target's, rejects it when any single component is beyond it or not a number, is symmetric, refuses a negative margin and defaults to a margin of one thousandth. What it prints names the margin and every component in order.",
  ["inputs"], "all supported types, targets, margins and single-component deviations in every position",
  "The tests use the matchers as their oracle and never check them: a matcher that ignores a component makes every other test weaker without failing any.",
  ["libs/testlib/include/mathlib_testlib.h", "libs/testlib/include/impl/catch_matchers.h", "libs/testlib/include/impl/catch_matchers_mat4.h", "libs/testlib/include/impl/catch_matchers_frustum.h"], [("marginCheck overloads", "libs/testlib/include/impl/catch_matchers.h"), ("matcher classes and string makers", "libs/testlib/include/impl/catch_matchers_vec3.h")],
  "online oracle monitor: componentwise margin model", "Differences within 1e-12 relative of the margin are undecided")

NA = []
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
man = dict(version=1, setup_cmd="python3 check.py --setup", checks=[dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"], thorough_cmd="python3 check.py %s thorough" % p["id"],
    technique=p["tech"], level="exploration", level_note=p["note"] + ". Held on the executions observed (counts in the evidence file), not for all inputs; trusts the compilers' sanitizers and the reference model in harness/" + p["id"].lower() + ".cpp" * (p["id"] != "C29") + "*.cpp" * 0) for p in P], not_applicable=NA)
for c in man["checks"]:
    if c["property"] == "C29": c["level_note"] = c["level_note"].replace("harness/c29", "harness/*.cpp")
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    assert p["statement"].count(". ") <= 2, p["id"]
print(len(P), "properties")

# Single source for properties.jsonl and MANIFEST.json: python3 tools/props.py rewrites both.
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "include/math/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, note=None, na=None, tech=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, note=note, na=na, tech=tech))

prop("C01", "SIMD float vectors compute every operation lane by lane",
 "For every input, each lane of the four-lane SIMD float vector's arithmetic, negation, comparison, equality mask, select, minimum, maximum, clamp, fused multiply-add, absolute value, square root, sign and sign-bit operations equals what the IEEE single-precision scalar operation gives on that lane's operands (a fused multiply-add may round once or twice; for minimum, maximum and clamp the operands are not NaN). This includes the forms with a plain number on either side, the compound assignments (which return their object and take an operand that is one of its own lanes as if copied first) and the named constants; a whole-vector equality is true exactly when all four lanes compare equal. It holds at every instruction-set level the library can be built for (SSE2, SSE4.1, AVX2).",
 ["inputs","configurations"], "all 2^128-bit operand patterns incl. NaN, infinities, signed zeros, denormals and huge values in any lane, at each SIMD level",
 "Tests compare a handful of fixed vectors with a squared-distance tolerance at one SIMD level; no special values, no per-lane asymmetry, no other level.",
 [I+"simd/vector/float.hpp", I+"simd/types.hpp"],
 [("f32x4 operators, comparisons, select, min/max/clamp, fma, abs, sqrt, sign, signBits", I+"simd/vector/float.hpp")],
 ["return values of each operation, bit patterns of the four lanes"])

prop("C02", "SIMD integer vectors compute modulo 2^32 with the right signedness",
 "For all 32-bit lane values, each lane of the SIMD integer vectors' addition, subtraction, multiplication, division, remainder, negation, bitwise and/or/xor/not/and-not and shift operations equals the two's-complement scalar result on that lane, and comparisons, equality masks, minimum, maximum and clamp order the lanes as signed numbers for the signed vector and as unsigned numbers for the unsigned vector. A comparison lane is all ones when true and zero when false, select picks by the mask's top bit, and the all-true / any-true / all-false / any-false style queries answer exactly that about the masks. It holds at SSE2, SSE4.1 and AVX2 and for the forms with a plain number and the compound assignments, which return their object and take an operand that is one of its own lanes as if copied first.",
 ["inputs","configurations"], "all 32-bit lane patterns incl. 0, 1, 2^31-1, 2^31, 2^32-1 in any lane, at each SIMD level",
 "The unsigned-vector test is never called and the signed one samples a few small values, so values at and above 2^31 and lane asymmetry are never exercised.",
 [I+"simd/vector/int.hpp", I+"simd/vector/uint.hpp"],
 [("i32x4 operators and functions", I+"simd/vector/int.hpp"), ("u32x4 operators and functions", I+"simd/vector/uint.hpp")],
 ["return values of each operation, the four lanes"])

prop("C03", "Scalar 2/3/4-component vectors compute component by component",
 "For every input, every operator and element-wise function of the 2-, 3- and 4-component float, signed and unsigned vectors (arithmetic, bit operations, shifts, comparisons, equal/notEqual masks, select, min, max, clamp, fma, abs, sign, roots, powers, exponentials, logarithms, trigonometric and hyperbolic functions) gives in each component the result of the same scalar operation on that component. Forms taking a plain number broadcast it, compound assignments equal the plain operator and return their object, also when the operand is one of its own components, whole-vector equality means all components are equal and the lane-mask queries answer exactly all / any. Component access by index reads and writes exactly the named component.",
 ["inputs"], "all operand values in any component position, incl. special floats and integer extremes, for all nine vector types",
 "Tests cover a few 3- and 4-component operators on one fixed vector each; most of the functions and two-component types are never called.",
 [I+"vector/float.hpp", I+"vector/int.hpp", I+"vector/uint.hpp", I+"common.hpp"],
 [("vector operators and element-wise functions", I+"vector/*.hpp")],
 ["each component of every result"])

prop("C04", "Vector construction, conversion, load/store and swizzles keep components",
 "Building a vector from parts, converting it between dimensions, between scalar and SIMD form, between element types, loading or storing it from aligned or unaligned memory, setting a component, swizzling, splatting and bit-casting puts each source component, unchanged or converted as the scalar cast would, into exactly the documented destination component and touches no memory outside the vector. Numeric conversions cover the full destination range: unsigned lanes at or above 2^31 convert to and from float as unsigned numbers, and bit-casts round-trip every bit pattern. An array of vectors is its components one after another without gaps.",
 ["inputs","configurations"], "all component values (full 32-bit range), all constructors and conversion operators, all 256 swizzles, all memory offsets, each SIMD level",
 "Tests only use the constructors they happen to need, with small values and aligned locals.",
 [I+"vector/float.hpp", I+"vector/int.hpp", I+"vector/uint.hpp", I+"simd/vector/float.hpp", I+"simd/vector/int.hpp", I+"simd/vector/uint.hpp"],
 [("constructors, conversion operators, load/store/loadAligned/storeAligned, swizzle/splat, setX..setW/fixW, *As* casts", I+"simd/vector/*.hpp")],
 ["components of results, guard bytes around stored vectors"])

prop("C05", "Dot, cross, length, distance, normalise and horizontal min/max are accurate",
 "Dot and cross products, (squared) lengths and distances, and horizontal minimum and maximum agree with the exact real-number result to single-precision rounding of the terms involved; normalising a vector whose squared length is representable gives a unit vector in the same direction, and is-normalised and is-close answer by the squared length against the given tolerance. The three-component forms on four-lane vectors depend only on the first three lanes whatever the fourth holds, including NaN, and SIMD and scalar forms agree at every SIMD level.",
 ["inputs","configurations"], "all vectors over many orders of magnitude with arbitrary (also non-finite) unused fourth lane, each SIMD level",
 "Tests use one fixed vector pair per function, no cancellation, and never put garbage in the unused lane.",
 [I+"simd/vector/float.hpp", I+"vector/float.hpp"],
 [("dot3/dot4/cross3/length*/distance*/normalize*/min3..max4, isClose/isNormalized", I+"simd/vector/float.hpp"), ("scalar dot/cross/length/distance/normalize", I+"vector/float.hpp")],
 ["return values against long double references"])

prop("C06", "Rounding functions return the correct integral neighbour",
 "For every float, floor, ceil and trunc (scalar and SIMD, in every lane) return exactly the greatest integral value not above, the least not below, and the nearest towards zero, and round returns an integral value at most one half away. Values that are already integral, including huge magnitudes beyond the integer range, infinities and signed zeros are returned unchanged, and NaN stays NaN.",
 ["inputs","configurations"], "all 2^32 float patterns per lane (thorough enumerates every one), each SIMD level",
 "Tests sample a few small positive values.",
 [I+"simd/vector/float.hpp", I+"vector/float.hpp"],
 [("round/floor/ceil/trunc", I+"simd/vector/float.hpp")], ["lanes of the results"])

prop("C07", "SIMD log, exp, pow and sine/cosine meet single-precision accuracy",
 "For every input in their range, the SIMD natural logarithm, exponential and power functions and the simultaneous sine/cosine agree with the mathematically exact result to a few parts in 10^6 (the fast power to a relative error that grows only with the size of the exponent's logarithm product; sine/cosine absolutely, for angles up to several thousand radians). Special values follow the usual conventions: log of zero is minus infinity, log of a negative number or NaN is NaN, log of plus infinity is plus infinity; exp overflows to infinity, underflows to zero and propagates NaN; anything to the power zero is one, and a negative base with an integral exponent takes the sign of the exponent's parity (the fast power of a negative base with a fractional exponent is never negative). Each lane is independent of the others, and the sine or the cosine may be stored over the angle.",
 ["inputs","configurations"], "all finite floats incl. denormals and specials per lane, each SIMD level",
 "Tests compare at a handful of points with a tolerance too loose to see a wrong polynomial coefficient, and no special values.",
 [I+"simd/vector/float.hpp"], [("log, exp, pow, fastPow, sinCos", I+"simd/vector/float.hpp")],
 ["lanes of the results against double/long double libm"])

prop("C08", "Interpolation, wrapping, gain and angle helpers keep their contracts",
 "Linear interpolation hits its endpoints and stays between them in proportion, for scalars, all vectors and SIMD vectors; the frame-rate independent interpolation gives the same result for one step of duration s+t as for a step s followed by a step t. Repeat maps any finite value into the closed unit interval, congruent to its argument modulo one, modulo returns the remainder of the division, and gain maps the unit interval monotonically onto itself, point-symmetric about one half. Degree/radian conversions are inverse linear maps with 180 degrees equal to pi, and min/max/sign of plain numbers are exact.",
 ["inputs"], "all finite operands, interpolation factors in [0,1], positive steps, in every component and SIMD form",
 "Tests call a few of these once with fixed operands and never the laws (endpoints, composition, symmetry, congruence).",
 [I+"common.hpp", I+"vector/float.hpp", I+"simd/vector/float.hpp", I+"angles.hpp"],
 [("lerp, lerpDelta, repeat, mod, gain, radians, degrees", I+"common.hpp")], ["results against double references"])

prop("C09", "Matrix arithmetic follows linear algebra in scalar and SIMD form",
 "Matrix addition, subtraction, products, matrix-vector and vector-matrix products, transposition, scaling by a number and element access follow the standard column-major definitions: applying a product equals applying its factors in turn, a row vector times a matrix equals the transposed matrix times that vector, transposition reverses products (transposing the 3x3 part of a SIMD 4x4 leaves its fourth column alone and zeroes the fourth row of the other three), and the identity changes nothing. The 2x2, 3x3, 4x3, 4x4 and SIMD 4x4 forms agree with the exact result to rounding, and conversions between them keep every element. In memory a matrix is its columns one after another without gaps.",
 ["inputs","configurations"], "all matrices over several orders of magnitude, non-symmetric and degenerate, at each SIMD level",
 "Tests multiply one fixed, mostly symmetric matrix pair; vector-matrix products, 2x2/4x3 forms and conversions are never exercised.",
 [I+"matrix/float.hpp", I+"simd/matrix/float.hpp"],
 [("matrix operators, transpose, multiply3x3, conversions", I+"matrix/float.hpp and "+I+"simd/matrix/float.hpp")], ["every element against double references"])

prop("C10", "A matrix inverse really inverts",
 "For every invertible, reasonably conditioned 2x2, 3x3 and 4x4 matrix, in scalar and SIMD form, the inverse multiplied by the matrix from either side gives the identity to an error bounded by rounding times the condition number. Scalar and SIMD inverses of the same matrix agree.",
 ["inputs","configurations"], "all invertible matrices with condition number up to 10^4, incl. permutations, shears, negative determinants, projections; each SIMD level",
 "One fixed 4x4 matrix is inverted by the tests; 2x2 and 3x3 inverses are never called.",
 [I+"matrix/float.hpp", I+"simd/matrix/float.hpp"],
 [("inverse(float2x2/3x3/4x4), inverse4x4(f32x4x4)", I+"matrix/float.hpp")], ["product of inverse and matrix in double"])

prop("C11", "Quaternions compose and rotate like the rotations they denote",
 "The quaternion product is associative and composes rotations in the same order as the matrix product, rotating a vector by a unit quaternion preserves its length and equals both the Rodrigues rotation by its axis and angle and the product with its rotation matrix, and the vector-times-quaternion form applies the inverse rotation. Conjugation and inversion undo the rotation, the inverse of any non-zero quaternion multiplied by it is the identity, the identity quaternion does nothing and normalising yields unit length.",
 ["inputs","configurations"], "all axes, angles within several turns, non-unit quaternions, vectors with any fourth lane, each SIMD level",
 "The quaternion test checks one rotation.",
 [I+"quaternion.hpp", I+"matrix/transform.hpp"], [("quat operators, conjugate, inverse, normalize, rotate(quat)", I+"quaternion.hpp")], ["results against double references"])

prop("C12", "Euler angles and rotation matrices convert to and from quaternions",
 "Building a quaternion from Euler angles equals composing the three axis rotations in the documented order, and extracting the angles from any unit quaternion and rebuilding gives the same rotation, including at and near the gimbal singularity and with zero or half-turn angles. Extracting a quaternion from any rotation matrix, whichever component dominates, reproduces that rotation, and the individual pitch, yaw and roll extractors agree with the combined one.",
 ["inputs"], "all unit quaternions and rotation matrices, incl. half turns, axis-aligned and near-singular orientations",
 "No test extracts angles or quaternions; the singular cases need particular inputs.",
 [I+"quaternion.hpp", I+"matrix/transform.hpp"], [("fromEulerAngles, extractPitch/Yaw/Roll/EulerAngles, extractQuat", I+"quaternion.hpp")], ["rotations rebuilt in double"])

prop("C13", "Spherical interpolation moves along the shortest arc at constant speed",
 "For unit quaternions, spherical interpolation returns a unit quaternion that equals the first at factor zero and the second (up to sign) at factor one, lies on the great arc between them, and its angle from the start is the factor times the total rotation angle, never more than half a turn of rotation. This holds for nearly identical, nearly opposite and sign-flipped inputs without producing NaN.",
 ["inputs"], "all pairs of unit quaternions and factors in [0,1], incl. nearly equal and antipodal pairs",
 "Never called by a test.", [I+"quaternion.hpp"], [("slerp", I+"quaternion.hpp")], ["angles in double"])

prop("C14", "Transform matrices compose from and decompose into their parts",
 "A model matrix built from a position, rotation and scale maps every point to the rotated scaled point plus the position, and decomposing it returns the same position, the same rotation and the same positive scale. The translate, scale and rotate constructors and their pre- and post-multiplying forms equal multiplication by the corresponding matrix; getting and setting the translation, and extracting scale or rotation alone, touch only their part.",
 ["inputs"], "all positions, unit and non-unit rotations, positive non-uniform scales, affine matrices",
 "No test includes the transform header.", [I+"matrix/transform.hpp"],
 [("translate/scale/rotate, calcModel, extractTransform/Scale/Rotation, get/setTranslation", I+"matrix/transform.hpp")], ["matrix elements against double references"])

prop("C15", "View and look-at construction aim the chosen axis and stay rigid",
 "The look-at matrix is a rigid transform that maps the eye to the origin, the target onto the positive forward axis at the eye-target distance, and keeps the up vector in the upper half plane; the look rotations and the look-at quaternion are proper rotations that send the forward axis to the requested direction with the same up convention. The rigid-transform inverse equals the true inverse of any rotation-plus-translation matrix.",
 ["inputs"], "all eye/target/up combinations with up not parallel to the direction, all rigid matrices",
 "No test includes the transform header.", [I+"matrix/transform.hpp"], [("lookAt, lookAtQuat, rotate(front,up)/(from,to,up), inverseTransRot", I+"matrix/transform.hpp")], ["orthonormality, determinant and images of points in double"])

prop("C16", "Projection matrices map the view volume onto the clip volume",
 "A perspective or orthographic projection maps the corners and interior of its view volume into the normalised clip box with depth between zero and one: near to zero and far to one for the ordinary forms, near to one and far (or infinity) to zero for the reversed forms, vertical axis flipped, points outside the volume outside the box. Depth is monotonic between the planes and the field of view and aspect ratio are respected.",
 ["inputs"], "all fields of view in (0,pi), aspect ratios, near/far and box extents of non-zero size, either way round",
 "Projections are never called by a test.", [I+"matrix/projection.hpp"], [("calcPerspProj*, calcOrthoProj*", I+"matrix/projection.hpp")], ["clip coordinates in double"])

prop("C17", "Frustum planes bound the clip volume and culling never drops the visible",
 "The planes extracted from a view-projection matrix have a point on their non-negative side exactly when that point satisfies the corresponding clip inequality, and normalising them keeps the plane and gives unit normals. A box, optionally under a model matrix, is reported behind the frustum only if all of its corners are outside one common plane, and is always reported so in that case; in particular a box with any point inside the frustum is never culled.",
 ["inputs"], "all camera matrices (perspective, infinite, reversed, orthographic), boxes inside, outside and straddling, affine models, any plane count",
 "No test touches planes or culling.", [I+"plane.hpp", I+"aabb.hpp"], [("extractFrustumPlanes, normalizePlanes, isBehindFrustum", I+"plane.hpp and "+I+"aabb.hpp")], ["signed distances in double with an error margin"])

prop("C18", "Closest points and distances to shapes are truly minimal",
 "The closest point on a segment, ray, plane, box or triangle to a query point belongs to the shape and no other point of the shape is nearer; for a sphere it is the surface point in the query's direction. The signed distance to a plane is the normal component plus the offset, so it is zero on the plane, and a plane built from a triangle contains its corners. Results depend only on the three spatial components.",
 ["inputs"], "all shapes incl. thin, obtuse and far-from-origin ones, query points in every region, any fourth lane",
 "None of these shapes is included by a test.", [I+"line.hpp", I+"ray.hpp", I+"plane.hpp", I+"aabb.hpp", I+"sphere.hpp", I+"triangle.hpp"],
 [("closestPoint overloads, distance3, Plane(Triangle)", I+"*.hpp")], ["distances in double against an independent minimiser"])

prop("C19", "Containment and overlap tests answer geometric truth",
 "For boxes, spheres and triangles, is-inside and is-intersected answer true exactly when the point or shape is contained in, or shares a point with, the other shape (for triangles, points of the plane of the triangle), and the tests between two shapes of the same kind are symmetric where the relation is. Points within rounding distance of the boundary may go either way, except that a point on a box face counts as inside, and boxes or spheres that exactly touch one another intersect. Barycentric coordinates sum to one and reproduce the point from the corners.",
 ["inputs"], "all boxes, spheres, triangles and points, incl. nested, touching, flat and disjoint along a single axis, any fourth lane",
 "None of these is included by a test.", [I+"aabb.hpp", I+"sphere.hpp", I+"triangle.hpp"], [("isInside, isIntersected overloads, calcBarycentric", I+"aabb.hpp, "+I+"sphere.hpp, "+I+"triangle.hpp")], ["predicates against double references with a boundary margin"])

prop("C20", "Ray casts against boxes report hits and distances correctly",
 "Casting a ray at a box reports a hit exactly when some point of the ray at a non-negative distance lies in the box, and the reported entry and exit distances are those at which the ray line enters and leaves the box. This holds for rays parallel to one or two axes, starting inside, on, beyond or far from the box, and for flat boxes; the forms taking a pre-inverted ray, the single-distance form and the yes/no forms all agree with the two-distance form.",
 ["inputs"], "all boxes and rays incl. axis-parallel directions with exact zeros of either sign, origins inside, behind and outside",
 "Rays are never included by a test.", [I+"ray.hpp", I+"aabb.hpp"], [("raycast, raycast1, raycast2 and their inverted-ray forms, Ray construction", I+"aabb.hpp")], ["distances and hit flags against a double slab reference with margins"])

prop("C21", "The triangle-box overlap test is exact",
 "The triangle against axis-aligned box test answers true exactly when the solid box and the triangle share a point, up to rounding of near-contact configurations, independent of the order of the triangle's corners, of a common translation and of a common permutation or mirroring of the axes. Triangles fully inside the box, enclosing it, piercing only its interior, missing it near an edge or corner, and degenerate segment or point triangles are all answered correctly.",
 ["inputs"], "all triangles and boxes, incl. separations visible on only one of the thirteen axes",
 "Not called by any test; each separating axis needs its own configuration.", ["source/aabb.cpp"], [("isAabbIntersected", "source/aabb.cpp")], ["answer against a double-precision polygon-clipping reference with a margin"])

prop("C22", "Bounding-box operations maintain the box algebra",
 "Extending a box by points or boxes gives the smallest box containing both, shrinking gives the intersection, and translating, scaling, sizing and positioning give boxes whose corners, size, extent, centre, area and volume are mutually consistent. The try-set operation rejects a box whose minimum exceeds its maximum on any axis, leaves the old box in place then, and accepts all others; the predefined boxes contain what their names promise (the full box contains every finite point).",
 ["inputs","histories"], "all sequences of box operations from any starting box, any fourth lane",
 "Boxes are never included by a test.", [I+"aabb.hpp"], [("Aabb members", I+"aabb.hpp")], ["corners against a double model after every step"])

prop("C23", "A built hierarchy is a well-formed tree over all primitives",
 "After building over any indexed triangle mesh or box list, every primitive appears in exactly one leaf, leaves' primitive ranges partition the primitive list, node links form one tree whose parents and children agree, and each node's bounds enclose its primitives' bounds and its children while the root's bounds are those given or computed. Rebuilding an existing hierarchy with new, larger or smaller data leaves no trace of the old, and building never fails, hangs or touches memory outside the inputs, whatever the vertex stride, index width, duplicate, collinear, flat or coincident geometry.",
 ["inputs","histories"], "all meshes and box lists from one primitive up, all sequences of rebuilds of one object, index widths, strides (also where the vertices span more than 4 GiB), leaf sizes, with and without supplied centroids",
 "No test builds a hierarchy.", ["source/bvh.cpp", I+"bvh.hpp"], [("Bvh::recreate, partition and split", "source/bvh.cpp")], ["nodes and primitives of the built hierarchy, sanitizer reports"])

prop("C24", "Hierarchy queries report every visible primitive exactly once",
 "A frustum query over a hierarchy writes out each primitive of every leaf whose bounds are not behind the frustum exactly once, returns how many it wrote, and writes nothing more, so every primitive whose bounds touch the frustum is reported. A general traversal hands each leaf range to the caller exactly once if the caller's test accepted the leaf and all its ancestors, and never otherwise. This holds with the internal or a caller's stack, which is left empty, and after any sequence of rebuilds, copies, moves and queries.",
 ["inputs","histories"], "all hierarchies, frusta, traversal predicates, interleaved rebuilds and queries",
 "No test queries a hierarchy.", ["source/bvh.cpp", I+"bvh.hpp"], [("Bvh::collectInFrustum, Bvh::traverse", "source/bvh.cpp and "+I+"bvh.hpp")], ["recorded visit log against per-leaf brute force"])

prop("C25", "Hierarchy splits follow the surface-area heuristic",
 "Every split the builder makes divides the node's primitives by their centroids along one axis, and its cost (primitive count times surface area, summed over both halves) is the lowest among the eight-bin candidate planes on the three axes, up to rounding, and lower than leaving the node whole; a node is left as a leaf only if it holds at most two primitives or no candidate plane improves the cost. This is independent of the unused fourth lanes of boxes and of z coordinates being positive or negative.",
 ["inputs"], "all meshes and box lists with well separated or clustered centroids",
 "No test builds a hierarchy, and a bad split still gives a valid tree.", ["source/bvh.cpp"], [("findBestSplitPlane, split decision", "source/bvh.cpp")], ["cost of the chosen split against a brute-force reference"])

prop("C26", "Colors quantise, pack and convert without drift",
 "Converting an 8-bit color to normalised floats, as a whole or per channel, and back, or to linear light and back, returns the same channels; converting floats to 8-bit channels picks the nearest level and saturates outside the unit range. The packed 32-bit form puts each channel in its own byte and round-trips from any address, and comparison operators, the number forms and the named colors work channel by channel. A stored color is its four channel bytes red, green, blue, alpha.",
 ["inputs"], "all 256 levels per channel, all packed values (sampled), all float channel values incl. out of range and half-way points",
 "No test includes the color header.", [I+"color.hpp", I+"color-space.hpp"], [("Color constructors, conversions, setNorm*/getNorm*, toLinear/fromLinear, operators", I+"color.hpp")], ["channels of the results"])

prop("C27", "Hexadecimal text is exact and round-trips for integers and colors",
 "Formatting an integer as hexadecimal gives exactly its low digits (of the two's complement of a negative one), most significant first, with an unsigned one zero-padded to the requested length (also when longer than the type), and parsing that text in either letter case gives the number back. The hexadecimal text of a color lists its channels in order, two digits each, and parsing it, with or without alpha, gives the same channels; the decimal texts list the channels in order. The result depends on the text or number alone, whatever errors other calls met before.",
 ["inputs"], "all integers of 8 to 64 bits, all lengths from 1 to 32, all color channels",
 "Neither header is included by a test.", [I+"hex.hpp", I+"color.hpp"], [("toHex, toInt32, toInt64, Color text conversions", I+"hex.hpp, "+I+"color.hpp")], ["strings and parsed values"])

prop("C28", "Color-space conversions follow their standards and invert each other",
 "Linear to sRGB and back follow the standard piecewise curve on both sides of the knee, invert each other and leave alpha alone. RGB to XYZ uses the standard D65 matrix, so luminance weighs red, green and blue by their standard weights and white maps to the D65 white point; XYZ/Yxy and the RGB/Yxy compositions undo one another, and the fast gamma correction raises each color channel to the inverse gamma and keeps alpha.",
 ["inputs"], "all non-negative colors, incl. black-adjacent, near the curve knee and above one, any alpha",
 "Neither header is included by a test.", [I+"color-space.hpp", I+"tone-mapping.hpp"], [("rgbToSrgb, srgbToRgb, rgbToXyz, xyzToRgb, xyzToYxy, yxyToXyz, rgbToYxy, yxyToRgb, fastGammaCorrection", I+"color-space.hpp, "+I+"tone-mapping.hpp")], ["lanes against double references"])

prop("C29", "Version numbers order and encode as their components",
 "A version built from major, minor, patch and build numbers reports exactly those parts by name and by index; its packed number and back is the identity with the major part most significant. All six comparison operators agree with lexicographic order of the components, and the dotted texts list the first one to four components.",
 ["inputs"], "all component quadruples and packed values", "Never included by a test.",
 [I+"version.hpp"], [("Version", I+"version.hpp")], ["components, texts, comparison results against tuples"])

prop("C30", "Packed vectors behave like vectors of small unsigned integers",
 "A bit-packed vector of 1-, 2- or 4-bit elements behaves, under any sequence of sets, gets, resizes, copies, moves and assignments, like an ordinary vector of such integers: reading returns the last value written to that index (reduced to the element width), writing one element changes no other element, and copies are independent of their source. Growing keeps existing elements and adds zeros, and storage is just large enough for the elements.",
 ["histories"], "all operation sequences, the three element widths, sizes around byte boundaries and up to beyond 32-bit counts",
 "Never instantiated by a test.", [I+"packed-vector.hpp"], [("PackedVector get/set/unsafeGet/unsafeSet/resize", I+"packed-vector.hpp")], ["model comparison after every step, sanitizer reports"])

prop("C31", "Cubemap directions and texel solid angles tile the sphere",
 "Each cubemap face and texel coordinate maps to a unit direction on the face it names, in the layout of the standard cube-map convention, adjacent faces meet continuously along their shared edges, and no two texels of a cubemap share a direction. The solid angles of all texels sum to the full sphere, each equals the angle subtended by its texel, for any cubemap size.",
 ["inputs"], "all faces, texels and sizes, continuous coordinates incl. edges and corners",
 "Never included by a test.", [I+"ibl.hpp", I+"sh.hpp"], [("coordsToST, stToDir, coordsToDir, calcSolidAngle", I+"ibl.hpp, "+I+"sh.hpp")], ["directions and angles against double references"])

prop("C32", "Spherical harmonics are an orthogonal basis and rotate with their function",
 "The nine basis functions, with the published normalisation factors, equal the standard real spherical harmonics up to documented scale, so they are orthogonal over the sphere and a function built from them is recovered by projection. Rotating the coefficients by a rotation matrix gives the coefficients of the rotated function in every band, the inverse rotation undoes it and rotations compose; the shader preprocessing scales each coefficient by its fixed factor.",
 ["inputs"], "all coefficient sets, directions and rotations", "Never included by a test.",
 [I+"sh.hpp"], [("computeShBasis, ki, rotateSh3Bands, shaderPreprocessSH", I+"sh.hpp")], ["basis values and reconstructions in double"])

prop("C33", "Microfacet distribution and its sampling are consistent",
 "The microfacet distribution times the cosine integrates to one over the hemisphere for every roughness and is never negative; half vectors drawn by its importance sampling are unit, lie in the upper hemisphere and are distributed exactly as it prescribes. The low-discrepancy sequence returns the exact index fraction and base-two radical inverse for every index, and the refraction-index remapping inverts the reflectance formula.",
 ["inputs"], "all roughness values from one millionth to one, cosines in [0,1], sample points in the unit square, 32-bit indices",
 "Never included by a test.", [I+"brdf.hpp"], [("ggx, hammersley, importanceSamplingNdfDggx, iorToReflectance", I+"brdf.hpp")], ["values, cumulative distributions and quadratures in double"])

prop("C39", "Harmonics de-ringing makes the function non-negative and nothing more",
 "De-ringing scales each band of every channel by one common window factor between zero and one that does not grow with the band, leaves the constant band alone, and uses a window no stronger than some channel needs, so that clearly positive functions get the mildest one. When the constant band is positive and the strongest window suffices, the de-ringed function of each color channel is nowhere negative beyond rounding. The minimum finder it relies on never reports more than the true minimum of the function, and exactly the minimum for functions symmetric about their linear axis.",
 ["inputs"], "all three-band coefficient sets with positive mean, per channel independent, incl. absent bands and any axis",
 "Never included by a test.", [I+"sh.hpp"], [("deringingSH, windowing, sincWindow, shmin", I+"sh.hpp")], ["band factors and minima over a dense sphere sampling in double"])

prop("C40", "Mip chains have exactly the right length and sizes",
 "The number of mip levels of a one-, two- or three-dimensional size is one plus the number of halvings until its largest dimension becomes one, and the size at a level is each dimension halved that many times, rounded down, but never below one. The scalar and SIMD forms agree, so the last level is all ones and no earlier level is.",
 ["inputs"], "all texture sizes from 1 upward in every dimension (thorough enumerates all sizes below 2^24)",
 "Never called by a test; errors appear only next to powers of two.", [I+"vector/uint.hpp", I+"simd/vector/uint.hpp"], [("calcMipCount, calcSizeAtMip, calcMipCount3, calcSizeAtMip3", I+"vector/uint.hpp")], ["results against integer arithmetic"])

prop("C41", "Shapes keep their parts coherent under construction, editing and arithmetic",
 "Lines, rays, triangles, planes and spheres report the points, directions, normals, distances and radii they were built from or last set to (normalised where asked), and setting one part leaves the others alone; a line's direction runs from start to end. Multiplying, dividing, adding or subtracting a vector acts component by component on every point of a line or triangle and on the origin and direction of a ray (the plain forms of a ray may normalise its direction). Copies compare equal, values that differ in any spatial part, distance or radius do not, and the predefined rays, planes and spheres are those named. A ray's parallel-axis flags always describe its current direction, whatever construction, direction change, normalisation or compound arithmetic produced it.",
 ["inputs","histories"], "all sequences of constructions, setters and arithmetic on the five shapes, with any content of unused lanes",
 "No test builds or edits these shapes.", [I+"line.hpp", I+"ray.hpp", I+"triangle.hpp", I+"plane.hpp", I+"sphere.hpp"], [("Line, Ray, Triangle, Plane, Sphere", I+"ray.hpp")], ["every part of a shape after each edit against a model"])

prop("C34", "The library has no undefined behaviour or stray memory access",
 "Every public function, called within its documented domain, executes without undefined behaviour: no out-of-bounds or misaligned access, no use of uninitialised or freed memory, no signed overflow or invalid shift or conversion, and no internal assertion failure, in every build configuration. Memory a call takes is given back with its objects, and no call changes the floating-point mode of its thread. Objects may live at any address their type allows, and any bit pattern in unused lanes is harmless.",
 ["inputs","histories","configurations"], "all calls in the documented domains at each SIMD level, with objects at minimally aligned addresses",
 "Tests run without sanitizers and with release flags.", [I+"*", "source/aabb.cpp", "source/bvh.cpp"], [("whole public interface", I)], ["AddressSanitizer and UndefinedBehaviorSanitizer reports, assertion failures"])

prop("C35", "Binary ordering is a strict weak order consistent with equality",
 "The binary-less comparisons of vectors, SIMD vectors, colors, boxes and other types are irreflexive, asymmetric and transitive, exactly one of less, greater or bitwise-equal holds for any two values, and every spatial component takes part, so the types can key ordered containers. Colors order by their packed number. They work for objects at any address the type allows.",
 ["inputs","histories"], "all pairs and triples of values differing in any one byte, incl. NaN payloads and signed zeros",
 "No test calls them.", [I+"vector/*.hpp", I+"simd/vector/*.hpp", I+"color.hpp", I+"aabb.hpp"], [("isBinaryLess overloads", I+"*")], ["order axioms over triples, ordered-set contents"])

prop("C36", "Read-only use from many threads is race-free and deterministic",
 "Concurrent threads may query one shared hierarchy with their own traversal stacks, and call any free function, without data races, and each thread gets the same result as a single-threaded run. First use of internal constants from several threads at once is safe.",
 ["schedules"], "all interleavings of queries and first uses by several threads",
 "Tests are single-threaded.", ["source/bvh.cpp", I+"bvh.hpp", I+"quaternion.hpp"], [("Bvh::collectInFrustum with a caller's stack, function-local constants", "source/bvh.cpp")], ["ThreadSanitizer reports, results compared with the sequential run"])

prop("C37", "Enum flag operators act as set operations",
 "The generated flag operators on a scoped enumeration act as bit-set union, intersection, symmetric difference and complement over its underlying type, and the compound forms equal the plain ones. The any-flag query answers whether the two sets meet, the one-flag query answers, for a non-empty value and a single flag, whether the value is exactly that flag, and negation is true only for the empty set.",
 ["inputs"], "all flag combinations for every 8- to 64-bit underlying type", "Never included by a test.", [I+"flags.hpp"], [("DECLARE_ENUM_CLASS_FLAG_OPERATORS", I+"flags.hpp")], ["results against integer sets"])

prop("C38", "Results do not depend on the SIMD instruction set",
 "The same program with the same inputs gives the same discrete answers and the same numeric results up to rounding whether the library is built for SSE2, SSE4.1, AVX2, NEON or without SIMD instructions, and repeating a call with the same inputs in one build gives bit-identical results.",
 ["configurations","inputs"], "the public SIMD-dependent interface on a shared stream of inputs",
 "The build runs tests at one level only.", [I+"simd/*", "source/*"], [("instruction-set conditional branches", I+"simd/")], ["event logs of the five builds compared offline"])


prop("C42", "Headers stand alone and constants are ready everywhere",
 "Every public header can be included alone, before or after any other, in any number of units of one program, and in every order of units and headers the program links. In each of these units and in every thread, from the initialisation of static objects, before or after the library's own sources in the link order, until their destruction at exit, the named constants have their documented values, free functions and shapes work, and all units see the same values.",
 ["configurations","histories"], "all public headers included first, last and between, in units linked in either order, with uses during static initialisation, normal run, threads and exit",
 "The tests include each header after others in one unit and run after static initialisation.", [I+"*", "source/aabb.cpp", "source/bvh.cpp"], [("inline and static constants, function-local tables, include lists", I)], ["values of constants and functions computed by static constructors, main, threads and static destructors of one unit per header"])

TECH = "runtime monitoring of the real code under seeded hostile workloads with an independent oracle, plus ASan/UBSan builds"
def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                             observe_at=p["observe"], hook_needed=None)))+"\n")
    checks, na = [], []
    for p in P:
        id = p["id"]
        if not os.path.exists(os.path.join(ROOT, "checks", id + ".cpp")):
            na.append(dict(property=id, reason="no check built yet")); continue
        checks.append(dict(property=id, quick_cmd="python3 check.py %s quick" % id,
            thorough_cmd="python3 check.py %s thorough" % id, evidence_file="evidence/%s.json" % id,
            technique=p["tech"] or TECH, level="exploration",
            level_note=p["note"] or "Held on every execution the seeded workload drove, in every build configuration run; trusts the oracle in checks/%s.cpp and its stated margins." % id))
    m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
        notes="No hooks in /repo are needed: every property is observable at the public interface.")
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
if __name__ == "__main__":
    main()

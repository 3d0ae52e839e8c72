#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of the properties lives here)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [], "mechanism": mech,
                  "observe_at": observe or ["return values of the public API"], "hook_needed": None}})
def m(name, where): return {"name": name, "where": where}

p("C01", "Vector arithmetic is the componentwise mathematical operation",
  "For row and column vectors of 2, 3 and 4 components in single and double precision, sum, difference, elementwise product, elementwise quotient and scaling give in every component the IEEE result of that operation on the corresponding components, including zero, infinite and NaN components. The dot product, and the cross product of 3-component vectors, equal their mathematical value up to rounding; the cross product of 2- and 4-component vectors is reported as absent. Component access, size, zero-initialisation and transposition keep every component in its place.",
  ["inputs", "configurations"], "every pair of vectors of every shape and element type, every scalar; dot/cross for finite components without overflow",
  "Tests use one constant vector pair per type (all components equal), so component mix-ups, sign errors and 2-component types are never observed; dot and cross are not tested at all.",
  ["lib/mat.rs"], [m("componentwise array expressions", "define_mat2x1 .. define_mat1x4 in lib/mat.rs")])
p("C02", "Vector length is Euclidean and normalisation is exact in direction",
  "The magnitude of a vector is the Euclidean norm of its components up to rounding, never negative, and zero only for the zero vector. Normalising any non-zero vector gives a vector of length one that is parallel to it and points the same way.",
  ["inputs", "configurations"], "every non-zero vector of every shape/type whose squared components neither overflow nor underflow",
  "Tests normalise one vector with equal components; any weighting, sign or scale error on unequal components is invisible to them.",
  ["lib/mat.rs"], [m("magnitude / normalize", "lib/mat.rs")])
p("C03", "Matrix storage layout is not observable in results",
  "A 3x3 or 4x4 matrix initialised from the same row-by-row listing has the same entry at every (row, column) whether stored row-major or column-major, and reading or writing an entry addresses that entry only. Every operation (product with a matrix or vector, elementwise arithmetic, scaling, transposition in place or by value, trace, homogeneous normalisation, 3x3 extraction, inversion) produces the same logical matrix, vector or number for both layouts, and a matrix result keeps the layout of its (left) operand. Elementwise arithmetic between operands of different layouts combines entries that have the same (row, column).",
  ["inputs", "histories", "configurations"], "all entries, both layouts, both sizes and element types, any sequence of operations",
  "Only a few 4x4 column-major cases are tested; column-major products, row-vector products, sub-matrix, inverse and every 3x3 column-major path run untested.",
  ["lib/mat.rs"], [m("_is_row_major branches", "index/index_mut/mul/mul_mat*/transpose/submat_mat3/inverse in lib/mat.rs")],
  state=[{"name": "_is_row_major", "meaning": "storage order of _val", "where": "Mat3, Mat4 in lib/mat.rs"}])
p("C04", "Square-matrix algebra equals the mathematical definitions",
  "For 3x3 and 4x4 matrices, matrix-matrix, matrix-column and row-matrix products, elementwise sum, difference, product and quotient, scaling, trace, transposition, homogeneous normalisation (every entry divided by the last diagonal entry) and upper-left 3x3 extraction equal their mathematical definitions up to rounding, after any sequence of such operations. The identity is neutral for products, the default matrix is zero, and dot and cross products of matrices are reported as absent.",
  ["inputs", "histories", "configurations"], "all finite matrices without overflow, both sizes/types/layouts, sequences of operations",
  "Each operation is tested on one or two matrices with consecutive integers or constant entries; an error in one index, on non-integers or on a later step of a chain is not seen.",
  ["lib/mat.rs"], [m("unrolled index arithmetic", "Mat3/Mat4 impls in lib/mat.rs")])
p("C05", "Matrix inversion really inverts, or reports singularity",
  "For every well-conditioned 3x3 or 4x4 matrix (determinant at least 1e-6 in magnitude), in either layout and precision, inversion succeeds and the result multiplied by the matrix on either side is the identity up to rounding. For a matrix with small integer entries whose determinant is exactly zero, inversion reports that no inverse exists. The inverse keeps the layout of its operand and inverting twice gives back the original.",
  ["inputs", "configurations"], "all well-conditioned matrices and all exactly singular small-integer matrices",
  "No test calls either inverse.",
  ["lib/mat.rs"], [m("cofactor expansion divided by determinant, singularity threshold", "Mat3::inverse, Mat4::inverse in lib/mat.rs")])
p("C06", "Tolerance comparison accepts exactly the componentwise-close values",
  "Comparing two vectors or matrices of the same shape and layout (components finite or NaN) with a tolerance answers true if and only if every component differs by at most the tolerance; it is symmetric, reflexive for any non-negative tolerance, and with tolerance zero means equality. A NaN in any component makes it false. Matrices stored in different layouts compare as unequal.",
  ["inputs", "configurations"], "all vector/matrix types, all component positions, finite and NaN components, differences below, at and above the tolerance",
  "Tests only compare values where all components deviate together; a component left out of the comparison or a one-sided check passes them. Every other test relies on this comparison as its oracle.",
  ["lib/mat.rs", "lib/i_comparable.rs"], [m("two-sided comparison per component", "IComparableError impls in lib/mat.rs")])
p("C07", "Quaternions obey Hamilton's algebra",
  "Quaternion product, sum, difference, scaling, negation, conjugation, length, squared length, normalisation and inverse equal their mathematical definitions up to rounding, in single and double precision; in particular i*j=k, the length of a product is the product of lengths, and a non-zero quaternion times its inverse (on either side) is one. The default and initial quaternion is the identity, and constructing from components keeps or normalises exactly those components.",
  ["inputs", "configurations"], "all finite quaternions without overflow or underflow",
  "No test multiplies two general quaternions or calls inverse, normalize, add, minus or length.",
  ["lib/quat.rs"], [m("component formulas", "define_quat in lib/quat.rs")])
p("C08", "Unit quaternions act as proper rotations, alone and as matrices",
  "Rotating vectors by a unit quaternion preserves lengths, dot products and handedness, is undone by the conjugate, and rotating by a product equals rotating by the right factor and then the left factor. The rotation matrix of a unit quaternion, requested in row-major or in column-major storage, is the same orthonormal homogeneous matrix of determinant one (no translation, last diagonal entry one) and transforms every vector exactly as direct rotation does. The matrix of a product is the product of the matrices.",
  ["inputs", "configurations"], "all unit quaternions, all vectors, both layouts and precisions",
  "One rotation (90 degrees about x) is tested, row-major, single precision only.",
  ["lib/quat.rs", "lib/mat.rs"], [m("q p q* and the 3x3 rotation formulas", "rotate_vector, to_rotation_matrix in lib/quat.rs")])
p("C09", "Axis-angle conversion is faithful in both directions",
  "A quaternion built from an axis of any non-zero length and an angle in degrees or radians is the unit quaternion with scalar part cos(angle/2) and vector part sin(angle/2) times the unit axis, so that it rotates right-handedly about that axis by that angle. Converting any unit quaternion to axis-angle gives a finite unit axis and an angle between zero and a full turn whose rotation is the same one; for angles strictly between zero and a full turn and not close to either, it returns the original axis direction and angle.",
  ["inputs", "configurations"], "all axes, angles of several turns either way, all unit quaternions including the identity and values rounded slightly beyond unit scalar part",
  "Two conversions at exactly 90 degrees are tested in single precision.",
  ["lib/quat.rs"], [m("half-angle formulas and small-angle cut-off", "init_from_axis_angle_*, to_axis_angle in lib/quat.rs")])
p("C10", "Interpolation hits its endpoints and slerp follows the shortest great arc",
  "Linear interpolation of quaternions returns the componentwise blend with the parameter clamped to [0,1]. Spherical interpolation of two unit quaternions, with the parameter clamped to [0,1], returns for parameter t a unit quaternion on the shortest arc from the start rotation to the end rotation, at t times the arc's angle from the start (to within 5e-5 absolute, and to rounding when the endpoints are not nearly parallel). It starts at the start quaternion, ends at the end rotation, and treats an end quaternion and its negation as the same rotation.",
  ["inputs", "configurations"], "all pairs of unit quaternions incl. equal, opposite, orthogonal, nearly parallel; all t incl. outside [0,1]",
  "Interpolation is not tested at all.",
  ["lib/quat.rs"], [m("sign flip, near-parallel fallback, sine weights", "interpolate_linear, interpolate_slerp in lib/quat.rs")])
p("C11", "Quaternion logarithm and powers are the polar-form functions",
  "For a quaternion with non-zero vector part, the logarithm has scalar part ln of its length and vector part the unit vector direction times the polar angle, so that exponentiating it gives the quaternion back. Raising to a real power scales the polar angle by the power and raises the length to it: power 0 is one, 1 is the quaternion, 2 is its square, -1 its inverse, and exponents add.",
  ["inputs", "configurations"], "all finite quaternions with lengths 1e-3..1e3 and non-zero vector part, exponents in [-4,4]",
  "Neither function is tested.",
  ["lib/quat.rs"], [m("polar decomposition", "ln, pow in lib/quat.rs")])
p("C12", "Pure unit quaternions reflect and decompose vectors about a plane",
  "With a pure unit quaternion as plane normal n, reflection maps a vector p to p - 2(n.p)n, the parallel component is p - (n.p)n and the orthogonal component is (n.p)n. Hence the two components add up to p, the orthogonal one is along n, the parallel one is perpendicular to n, and reflecting twice is the identity.",
  ["inputs", "configurations"], "all unit normals, all vectors, both precisions",
  "None of the three functions is tested.",
  ["lib/quat.rs"], [m("sandwich product q p q", "reflection_in_plane, parallel_/orthogonal_component_of_plane in lib/quat.rs")])
p("C13", "Translations survive their quaternion and matrix encodings",
  "Encoding a translation as a quaternion stores half the displacement in the vector part and a zero scalar part, as the dual part of a dual quaternion needs, and a dual quaternion keeps the rotation and translation parts it is given. The translation matrix of a quaternion, in either storage layout, is the same homogeneous matrix that moves every point by the quaternion's vector part and leaves directions unchanged. Completing a unit quaternion from a vector part of length at most one gives a unit quaternion with that vector part and a non-positive scalar part.",
  ["inputs", "configurations"], "all displacements, both layouts and precisions; all vector parts in the unit ball",
  "Not tested.",
  ["lib/quat.rs", "lib/dualquat.rs"], [m("init_from_translation / to_translation_matrix / init_from_vals_auto_w / DualQuat::init", "lib/quat.rs, lib/dualquat.rs")])
p("C14", "Axis-aligned boxes: overlap, union, centre and longest side are exact",
  "Two axis-aligned boxes overlap if and only if their closed intervals share a point on every axis (touching counts, infinite extents allowed), symmetrically. The union computed from a list of boxes is the smallest box containing all of them, whatever box it is written to held before and in whatever order they are listed. The centre is the midpoint on each axis, and the longest side is reported as an axis with the greatest extent together with that extent.",
  ["inputs", "histories"], "all boxes, lists of 1..12 boxes, repeated unions into the same box",
  "Six overlaps and one union of two boxes are tested; centre and longest side are not.",
  ["lib/bound.rs", "lib/i_bound.rs"], [m("interval tests, min/max folding", "AxisAlignedBBox in lib/bound.rs")],
  state=[{"name": "_bound_lower/_bound_upper", "meaning": "the box", "where": "lib/bound.rs"}])
p("C15", "Every shape is described faithfully and tightly bounded",
  "Each shape reports its own kind and the parameters it was built from, with ray directions and plane normals normalised to unit length. Its bounding box contains every point of the shape and is the smallest such axis-aligned box (infinite on the sides a ray extends to; a plane is bounded by all of space). The second base of a prism is its first base moved by its height along the right-handed normal of the base.",
  ["inputs"], "all finite shapes with positive size",
  "Bounds of constructed shapes and shape data are never inspected by tests.",
  ["lib/bound.rs", "lib/point.rs", "lib/ray.rs", "lib/sphere.rs", "lib/plane.rs", "lib/rbox.rs", "lib/triprism.rs", "lib/line.rs"],
  [m("AxisAlignedBBox::init per shape kind; shape constructors; get_shape_data", "lib/*.rs")])
p("C16", "Intersection does not depend on which shape asks",
  "For every supported pair of shapes, asking the first about the second and the second about the first gives the same verdict (away from rounding-level contact), and the same location when the location is geometrically unique or chosen by construction. The same holds for bounding-box overlap and for the iterative convex test.",
  ["inputs"], "all supported ordered pairs of shapes, all finite parameters with positive sizes",
  "The swapped call is tested for three pairs, on one or two scenes each.",
  ["lib/point.rs", "lib/ray.rs", "lib/sphere.rs", "lib/plane.rs", "lib/rbox.rs", "lib/triprism.rs", "lib/line.rs", "lib/intersect_gjk.rs"],
  [m("double dispatch on shape kind", "get_intersect in each shape file")])
p("C17", "A reported intersection point lies on both shapes",
  "For every supported pair, a positive verdict always comes with a finite location and a negative verdict with none. The location lies on both shapes to within the vicinity tolerance and rounding (balls, boxes and prisms are solid; rays, segments, points and planes are themselves).",
  ["inputs"], "all supported pairs; generic, touching, degenerate, axis-aligned, near and far scenes (ray pairs parallel or more than 1e-3 rad apart)",
  "Tests compare a handful of locations; a location off one of the shapes in any other scene passes.",
  ["lib/ray.rs", "lib/sphere.rs", "lib/plane.rs", "lib/point.rs", "lib/rbox.rs", "lib/triprism.rs"],
  [m("location computed per pair", "get_intersect in each shape file")])
p("C18", "Point containment: point, plane, sphere and box",
  "A point is in a sphere if and only if its distance to the centre is at most the radius, in a box if and only if every coordinate is within the half edge of the centre (both inclusive), and on a plane if and only if its distance to the plane is within the vicinity tolerance; two points meet if and only if they coincide to within the vicinity tolerance per coordinate. The reported location is the point.",
  ["inputs"], "all points, spheres, boxes and planes, inside, outside, on the surface, in the corners of the bounding box",
  "One or two scenes per pair; points inside the sphere's bounding box but outside the sphere are not tested.",
  ["lib/sphere.rs", "lib/point.rs", "lib/plane.rs", "lib/rbox.rs"], [m("distance tests", "get_intersect Point arms")])
p("C19", "A ray meets exactly the points in front of it on its line",
  "A ray meets a point if and only if the point lies on the ray's line to within the vicinity tolerance and not behind its origin, for every direction including those parallel to an axis or a coordinate plane. The origin itself is met, and the reported location is the point.",
  ["inputs"], "all rays and points: on the line ahead, behind, at the origin, off the line by more than the tolerance",
  "All tested rays have the direction (1,1,1).",
  ["lib/ray.rs", "lib/point.rs"], [m("ray parameter of the point", "Ray3::get_intersect, Point arm, lib/ray.rs")])
p("C20", "Ray against sphere: first point of the sphere ahead of the origin",
  "A ray meets a sphere if and only if some point at non-negative distance along it is on the sphere's surface. The location is the first such point: the nearer crossing when the origin is outside, the exit point when it is inside. Spheres behind the origin and lines missing the sphere are not met.",
  ["inputs"], "all rays and spheres with positive radius; outside, inside, behind, grazing, origin on the surface, far away",
  "Three hits from outside and two misses are tested; no origin inside, tangent or near-miss.",
  ["lib/ray.rs", "lib/sphere.rs"], [m("quadratic roots", "Ray3::get_intersect, Sphere arm")])
p("C21", "Ray against one-sided plane",
  "A ray that moves against the plane's normal meets the plane if and only if its origin is not behind the plane, at the single point where it crosses; a ray that moves along the normal never does. A ray parallel to the plane meets it, at its own origin, only when it lies in the plane.",
  ["inputs"], "all rays and planes, any normal length, origins in front of, on and behind the plane",
  "Four scenes with one axis-aligned plane are tested.",
  ["lib/ray.rs", "lib/plane.rs"], [m("ray parameter of the crossing", "Ray3::get_intersect, Plane arm")])
p("C22", "Two rays meet exactly when a common point lies ahead of both",
  "Two non-parallel rays meet if and only if their lines cross (to within the vicinity tolerance) at a point ahead of or at both origins, and that point is the location; skew rays and rays whose lines cross behind an origin do not meet. Parallel rays meet only when collinear and overlapping: the location is then the origin that lies on the other ray.",
  ["inputs"], "all pairs of rays whose directions are equal, opposite or more than 1e-3 rad apart; coplanar, skew, crossing ahead and behind",
  "One crossing and one skew pair (whose bounding boxes are disjoint) are tested; skew rays with overlapping bounds and crossings behind an origin are not.",
  ["lib/ray.rs"], [m("coplanarity test and line parameters", "Ray3::get_intersect, Ray arm")])
p("C23", "Sphere against sphere and sphere against plane use true distances",
  "Two spheres meet if and only if the distance of their centres is at most the sum of radii; the location divides the segment between the centres in the ratio of the radii. A sphere and a plane meet if and only if the centre is within one radius of the plane on either side; the location is the centre's projection onto the plane. Touching counts.",
  ["inputs"], "all spheres of positive radius and planes; overlapping, nested, touching, near misses, both sides of the plane",
  "Three spheres pairs with equal radii and four sphere-plane scenes, none with the sphere behind the plane, are tested.",
  ["lib/sphere.rs", "lib/plane.rs"], [m("distance comparisons", "Sphere::get_intersect, Sphere and Plane arms")])
p("C24", "A prism contains exactly the points between its faces",
  "A point meets a triangular prism (non-degenerate base, positive height) if and only if it is on the inner side of or on all five faces, for every position, orientation, winding start and proportion of the prism. The location is the point.",
  ["inputs"], "all prisms and points: inside, outside each face, near edges and vertices, exactly on faces of lattice prisms",
  "One axis-aligned unit prism is tested.",
  ["lib/triprism.rs", "lib/point.rs"], [m("five half-space tests", "TriPrism::get_intersect, Point arm")])
p("C25", "A segment meets a prism exactly when they share a point",
  "A segment meets a triangular prism (non-degenerate base, positive height) if and only if some point of the segment is in the prism: an endpoint inside, passing through from outside to outside through any faces, and never when it stops short, passes beside or points away. If the start is inside, the location is the start; otherwise it is the end if that is inside, else the point where the segment enters.",
  ["inputs"], "all prisms and segments, oblique and axis-aligned, through every pair of faces",
  "One unit prism is tested with segments in or parallel to coordinate planes.",
  ["lib/triprism.rs", "lib/line.rs"], [m("endpoint tests, then ray-facet tests", "TriPrism::get_intersect, Line arm")])
p("C26", "The iterative convex test agrees with true sphere distance and terminates",
  "For any two spheres of positive radius the iterative (support-function) intersection test ends after a bounded number of support queries and answers true if and only if the distance of the centres is less than the sum of the radii, up to a relative margin of 1e-9. It agrees with the direct sphere-sphere test and does not depend on operand order or direction of approach.",
  ["inputs"], "all pairs of spheres: any direction, radius ratio, nested, concentric, separated, near contact",
  "Six pairs are tested, all with centres in a coordinate plane and with the separated ones on the side where the first step decides.",
  ["lib/intersect_gjk.rs", "lib/sphere.rs"], [m("simplex refinement loop", "query_intersect, contains_minkowski_origin")],
  observe=["return values", "support queries counted through a wrapping shape"])
p("C27", "Support points are the farthest points of the shape",
  "For a non-zero direction of any length, the support point of a sphere, box, prism or point belongs to the shape and no point of the shape is farther along that direction. A zero direction has no support point on a sphere, box or prism, and unbounded shapes (rays, planes) never have one.",
  ["inputs"], "all shapes and directions, including axis-aligned and negative ones",
  "Only the sphere, with directions in the positive octant, is tested.",
  ["lib/sphere.rs", "lib/rbox.rs", "lib/triprism.rs", "lib/point.rs", "lib/ray.rs", "lib/plane.rs"], [m("get_support", "each shape file")])
p("C28", "The vicinity tolerance is what the user last set",
  "Every shape treats two numbers as equal if and only if they differ by at most its vicinity, which is 1e-6 initially and afterwards the absolute value of the last value set, also on clones. Point-point, ray-point and plane-point queries between shapes with the same vicinity accept deviations below it and reject deviations clearly above it.",
  ["inputs", "histories"], "all shape kinds, all tolerances, sequences of settings",
  "No test sets a vicinity or probes a deviation near it.",
  ["lib/i_vicinity.rs", "lib/point.rs", "lib/ray.rs", "lib/plane.rs", "lib/sphere.rs", "lib/rbox.rs", "lib/triprism.rs", "lib/line.rs"],
  [m("set_vicinity / within_vicinity", "each shape file")], state=[{"name": "_vicinity", "meaning": "tolerance", "where": "each shape"}])
p("C29", "Operations are pure: no hidden state, no dependence on history or threads",
  "Calling any query or arithmetic operation never changes its operands (other than those explicitly mutated), and the same call with equal operands gives the identical result whatever calls came before, in whatever order, on a clone, or concurrently from several threads sharing the operands. No execution has a data race or undefined behaviour.",
  ["histories", "schedules"], "any sequence and any concurrent schedule of operations on shared shapes, matrices, vectors and quaternions",
  "Tests run each call once, single-threaded per value, and never repeat a call after other calls.",
  ["lib/mat.rs", "lib/quat.rs", "lib/ray.rs", "lib/sphere.rs", "lib/plane.rs", "lib/point.rs", "lib/rbox.rs", "lib/triprism.rs", "lib/line.rs", "lib/bound.rs", "lib/intersect_gjk.rs"],
  [m("plain value types, no interior mutability, safe Rust", "whole crate")],
  observe=["recorded call logs replayed and compared bitwise", "ThreadSanitizer", "Miri"])
p("C30", "Supported queries always answer",
  "Every supported intersection, support, bound and convex-test query on well-formed finite shapes (coordinates and sizes between 1e-30 and 1e30 in magnitude or zero, non-zero directions, non-degenerate bases) returns an answer without panicking, after a bounded number of calls between the shapes. This includes degenerate configurations: coincident, concentric, collinear, coplanar, zero-length segments, zero radii, axis-aligned and extreme ratios.",
  ["inputs"], "all supported pairs, hostile but finite parameters",
  "Tests only exercise benign scenes; the convex test loops until its answer is decided and pairs delegate to each other.",
  ["lib/intersect_gjk.rs", "lib/ray.rs", "lib/sphere.rs", "lib/plane.rs", "lib/point.rs", "lib/rbox.rs", "lib/triprism.rs", "lib/line.rs"],
  [m("dispatch and loops", "get_intersect, query_intersect")], observe=["return values", "calls counted through wrapping shapes"])
p("C31", "Verdicts do not depend on the coordinate frame",
  "Moving, mirroring, permuting the axes of, or rotating a whole scene leaves the verdict of every supported intersection query and of the convex test unchanged (away from rounding-level contact; mirrored prisms keep their handedness by swapping two base vertices) and moves the location accordingly. Scaling the whole scene does the same where the vicinity tolerance plays no role.",
  ["inputs"], "all supported pairs under axis permutations, mirrorings, translations, rotations and scalings",
  "Tests use scenes near the origin, mostly axis-aligned, and never compare transformed scenes.",
  ["lib/ray.rs", "lib/sphere.rs", "lib/plane.rs", "lib/point.rs", "lib/rbox.rs", "lib/triprism.rs", "lib/line.rs", "lib/intersect_gjk.rs", "lib/bound.rs"],
  [m("coordinate-free formulas behind a bounding-box prefilter", "get_intersect in each shape file")])
p("C32", "Broken preconditions are refused, not answered",
  "Constructing a shape or a bounding box from a coordinate list of the wrong length, multiplying matrices of different layouts, normalising or inverting the zero quaternion, taking the logarithm or a power of a quaternion without vector part, and asking the convex test about anything but two spheres are all refused by a panic and never return a value. Reading a vector component beyond its size is refused too.",
  ["inputs", "configurations"], "all wrong lengths, all mixed layouts, zero and real quaternions, all unsupported kinds",
  "No test exercises a refused call.",
  ["lib/mat.rs", "lib/quat.rs", "lib/bound.rs", "lib/point.rs", "lib/ray.rs", "lib/sphere.rs", "lib/plane.rs", "lib/rbox.rs", "lib/triprism.rs", "lib/line.rs", "lib/intersect_gjk.rs"],
  [m("assertions on entry", "constructors, mul, normalize, inverse, ln, pow, query_intersect")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))

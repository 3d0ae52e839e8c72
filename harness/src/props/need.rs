//! generated by tools/gen_need.py
pub fn need(id: &str) -> &'static [&'static str] {
    match id {
        "C01" => &["Mat1x2<f32>", "Mat1x2<f64>", "Mat1x3<f32>", "Mat1x3<f64>", "Mat1x4<f32>", "Mat1x4<f64>", "Mat2x1<f32>", "Mat2x1<f64>", "Mat3x1<f32>", "Mat3x1<f64>", "Mat4x1<f32>", "Mat4x1<f64>", "a value with itself", "case repeated after its near twin", "component read", "component write", "cross", "cross absent", "default is zero", "difference", "dot", "elementwise product", "elementwise quotient", "near twin of a case", "scaling", "size", "sum", "transpose keeps components", "wide magnitude"],
        "C02" => &["Mat1x2<f32>", "Mat1x2<f64>", "Mat1x3<f32>", "Mat1x3<f64>", "Mat1x4<f32>", "Mat1x4<f64>", "Mat2x1<f32>", "Mat2x1<f64>", "Mat3x1<f32>", "Mat3x1<f64>", "Mat4x1<f32>", "Mat4x1<f64>", "case repeated after its near twin", "direction component", "length close to a round one", "magnitude", "magnitude positive", "near twin of a case", "unit length", "wide magnitude", "zero has length zero"],
        "C03" => &["Mat3<f32>", "Mat3<f64>", "Mat4<f32>", "Mat4<f64>", "a value with itself", "built as a transpose", "built entry by entry", "case repeated after its near twin", "div", "entry of listing, column-major", "entry of listing, row-major", "inverse, column-major", "inverse, row-major", "layout flag", "mat*col", "minus", "mixed layouts", "mul", "mul (other first)", "mul_elem", "near twin of a case", "normalize", "op inverse", "operation on column-major", "operation on row-major", "plus", "result keeps the operand's layout", "row*mat", "scale", "submat", "trace", "transpose", "transpose_self", "write, column-major", "write, row-major"],
        "C04" => &["Mat3<f32>", "Mat3<f64>", "Mat4<f32>", "Mat4<f64>", "a value with itself", "built as a transpose", "built entry by entry", "case repeated after its near twin", "column-major", "cross absent", "default is zero", "div", "dot absent", "identity entries", "identity neutral", "mat*col", "minus", "mul", "mul (other first)", "mul_elem", "near twin of a case", "normalize", "plus", "result keeps the operand's layout", "row*mat", "row-major", "scale", "size", "submat", "trace", "transpose", "transpose_self"],
        "C05" => &["Mat3<f32>", "Mat3<f64>", "Mat4<f32>", "Mat4<f64>", "built as a transpose", "built entry by entry", "case repeated after its near twin", "column-major", "graded", "inverse * matrix", "inverse entry", "inverse of inverse", "inverted twice", "invertible", "inverting twice is the original", "matrix * inverse", "near twin of a case", "result keeps the operand's layout", "row-major", "singular", "singular matrix has no inverse"],
        "C06" => &["Mat1x2<f32>", "Mat1x2<f64>", "Mat1x3<f32>", "Mat1x3<f64>", "Mat1x4<f32>", "Mat1x4<f64>", "Mat2x1<f32>", "Mat2x1<f64>", "Mat3<f32>", "Mat3<f64>", "Mat3x1<f32>", "Mat3x1<f64>", "Mat4<f32>", "Mat4<f64>", "Mat4x1<f32>", "Mat4x1<f64>", "NaN component", "case repeated after its near twin", "compared at another scale", "comparison", "comparison, swapped", "expected different", "expected equal", "extreme tolerance", "mixed layouts", "near twin of a case", "not a number differs from itself", "reflexive"],
        "C07" => &["Quat<f32>", "Quat<f64>", "basis elements", "case repeated after its near twin", "conjugate", "construction with normalisation", "default is the identity", "difference", "init is the identity", "inverse", "length", "length of product", "near twin of a case", "negation", "normalisation", "product", "q times inverse is one", "raw construction", "related operands", "scaling", "squared length", "sum", "triple product", "wide magnitude"],
        "C08" => &["Quat<f32>", "Quat<f64>", "case repeated after its near twin", "column-major matrix", "determinant one", "dot product preserved", "handedness preserved", "homogeneous border", "layout of the rotation matrix", "length preserved", "matrix acts as the rotation", "matrix of a product", "near twin of a case", "orthonormal", "related operands", "rotated vector", "rotation by a product", "rotation matrix entry, column-major", "rotation matrix entry, row-major", "row-major matrix", "undone by the conjugate", "wide magnitude"],
        "C09" => &["Quat<f32>", "Quat<f64>", "angle", "angle between zero and a full turn", "angle well inside (0, full turn)", "axis direction", "case repeated after its near twin", "finite axis and angle", "from degrees", "from radians", "near twin of a case", "right-handed rotation by the angle", "same rotation back", "scalar part at or slightly beyond one", "unit axis", "unit quaternion from axis-angle"],
        "C10" => &["Quat<f32>", "Quat<f64>", "acute", "case repeated after its near twin", "linear blend", "near twin of a case", "nearly parallel", "not nearly parallel", "obtuse: end negated", "parameter clamped", "parameter inside", "related operands", "slerp", "slerp ends at the end", "slerp result is unit", "slerp starts at the start", "slerp to the negated end", "slerp, nearly parallel", "wide magnitude"],
        "C11" => &["Quat<f32>", "Quat<f64>", "case repeated after its near twin", "exp of log", "exponents add", "log: scalar part is ln of the length", "log: vector part", "near twin of a case", "negative scalar part", "positive scalar part", "power", "power -1 is the inverse", "power 0 is one", "power 1 is the quaternion", "power 2 is the square", "wide magnitude", "zero scalar part"],
        "C12" => &["Quat<f32>", "Quat<f64>", "case repeated after its near twin", "components add up", "near twin of a case", "orthogonal component", "orthogonal component along the normal", "parallel component", "parallel component is in the plane", "reflecting twice", "reflection", "reflection preserves length", "wide magnitude"],
        "C13" => &["Quat<f32>", "Quat<f64>", "case repeated after its near twin", "column-major matrix", "completed quaternion is unit", "dual quaternion keeps the rotation", "dual quaternion keeps the translation", "half displacement", "keeps the vector part", "layout of the translation matrix", "leaves directions", "moves points", "near twin of a case", "row-major matrix", "scalar part completes to a unit", "scalar part not positive", "scalar part of a translation", "translation matrix entry, column-major", "translation matrix entry, row-major", "wide magnitude"],
        "C14" => &["box data", "case repeated after its near twin", "centre", "disjoint boxes", "disjoint on one axis only", "disjoint on three axes", "disjoint on two axes", "kind of the bound", "longest side: axis", "longest side: extent", "near twin of a case", "overlap", "overlap asked the other way", "overlap with itself", "overlapping boxes", "touching boxes", "union", "union in another order", "union into a used box", "union is the smallest enclosing box", "union of no boxes", "union overlaps its members"],
        "C15" => &["a box", "a plane", "a point", "a prism", "a ray", "a segment", "a sphere", "case repeated after its near twin", "first base", "infinite bound", "kind", "kind of the bound", "lower bound", "near twin of a case", "parameters", "scaled normal", "second base", "unit direction or normal", "upper bound"],
        "C16" => &["another vicinity set", "bounding boxes overlap both ways alike", "case repeated after its near twin", "convex test both ways", "exact lattice scene", "generic scene", "location presence both ways", "near twin of a case", "oracle: apart", "oracle: boundary", "oracle: intersect", "pair point-box", "pair point-plane", "pair point-point", "pair point-prism", "pair point-ray", "pair point-sphere", "pair ray-plane", "pair ray-ray", "pair ray-sphere", "pair segment-prism", "pair sphere-plane", "pair sphere-sphere", "same location both ways", "same verdict both ways", "shapes that were asked other things before"],
        "C17" => &["a location comes exactly with a positive verdict", "another vicinity set", "case repeated after its near twin", "finite location", "location lies on the asked shape", "location lies on the other shape", "near twin of a case", "pair point-box", "pair point-plane", "pair point-point", "pair point-prism", "pair point-ray", "pair point-sphere", "pair ray-plane", "pair ray-ray", "pair ray-sphere", "pair segment-prism", "pair sphere-plane", "pair sphere-sphere", "shapes that were asked other things before"],
        "C18" => &["a location comes exactly with a positive verdict", "a shape with itself", "another vicinity set", "case repeated after its near twin", "exact lattice scene", "finite location", "generic scene", "location", "near twin of a case", "oracle: apart", "oracle: boundary", "oracle: intersect", "pair point-box", "pair point-plane", "pair point-point", "pair point-sphere", "shapes that were asked other things before", "verdict: intersection", "verdict: no intersection"],
        "C19" => &["a location comes exactly with a positive verdict", "another vicinity set", "case repeated after its near twin", "direction parallel to a coordinate plane", "exact lattice scene", "finite location", "generic scene", "location", "near twin of a case", "oracle: apart", "oracle: boundary", "oracle: intersect", "pair point-ray", "shapes that were asked other things before", "verdict: intersection", "verdict: no intersection"],
        "C20" => &["a location comes exactly with a positive verdict", "another vicinity set", "case repeated after its near twin", "direction parallel to a coordinate plane", "exact lattice scene", "finite location", "generic scene", "location", "near twin of a case", "oracle: apart", "oracle: boundary", "oracle: intersect", "origin inside the sphere", "pair ray-sphere", "shapes that were asked other things before", "sphere ahead of the origin", "sphere behind the origin", "verdict: intersection", "verdict: no intersection"],
        "C21" => &["a location comes exactly with a positive verdict", "another vicinity set", "case repeated after its near twin", "direction parallel to a coordinate plane", "exact lattice scene", "finite location", "generic scene", "location", "near twin of a case", "oracle: apart", "oracle: boundary", "oracle: intersect", "pair ray-plane", "shapes that were asked other things before", "verdict: intersection", "verdict: no intersection"],
        "C22" => &["a location comes exactly with a positive verdict", "a shape with itself", "another vicinity set", "case repeated after its near twin", "direction parallel to a coordinate plane", "exact lattice scene", "finite location", "generic scene", "location", "near twin of a case", "oracle: apart", "oracle: boundary", "oracle: intersect", "pair ray-ray", "shapes that were asked other things before", "verdict: intersection", "verdict: no intersection"],
        "C23" => &["a location comes exactly with a positive verdict", "a shape with itself", "another vicinity set", "case repeated after its near twin", "exact lattice scene", "finite location", "generic scene", "location", "near twin of a case", "oracle: apart", "oracle: boundary", "oracle: intersect", "pair sphere-plane", "pair sphere-sphere", "shapes that were asked other things before", "verdict: intersection", "verdict: no intersection"],
        "C24" => &["a location comes exactly with a positive verdict", "another vicinity set", "case repeated after its near twin", "exact lattice scene", "finite location", "generic scene", "location", "near twin of a case", "oracle: apart", "oracle: boundary", "oracle: intersect", "pair point-prism", "shapes that were asked other things before", "verdict: intersection", "verdict: no intersection"],
        "C25" => &["a location comes exactly with a positive verdict", "another vicinity set", "case repeated after its near twin", "exact lattice scene", "finite location", "generic scene", "location", "location where the segment enters", "near twin of a case", "oracle: apart", "oracle: boundary", "oracle: intersect", "pair segment-prism", "shapes that were asked other things before", "verdict: intersection", "verdict: no intersection"],
        "C26" => &["a shape with itself", "a sphere meets itself", "an answer is given", "another vicinity set", "case repeated after its near twin", "convex test agrees with the distance", "convex test, operands swapped", "direct test agrees", "near twin of a case", "oracle: apart", "oracle: intersect", "shapes that were asked other things before"],
        "C27" => &["a box", "a plane", "a point", "a prism", "a ray", "a sphere", "case repeated after its near twin", "finite support", "near twin of a case", "no farther point", "no support in the zero direction", "object asked for another direction before", "support belongs to the shape", "support of a point is the point", "support of a sphere", "unbounded shape", "unbounded shapes have no support", "zero direction"],
        "C28" => &["a box", "a clone keeps its own vicinity", "a location comes exactly with a positive verdict", "a plane", "a point", "a prism", "a ray", "a segment", "a sphere", "case repeated after its near twin", "cloned", "difference equal to the vicinity is accepted", "finite location", "generic scene", "initial vicinity", "location", "near twin of a case", "negative setting", "not a number is never within", "numbers within the vicinity", "oracle: apart", "oracle: boundary", "oracle: intersect", "pair point-plane", "pair point-point", "pair point-ray", "positive setting", "verdict: intersection", "verdict: no intersection", "zero setting"],
        "C29" => &["algebra operations in logs", "bound queries in logs", "concurrent executions of the whole log", "convex tests in logs", "data and vicinity queries in logs", "intersection queries in logs", "operands unchanged", "operands unchanged after sharing", "other shapes where the operands were", "other values changed in place between the queries", "other values where the operands were", "same answer concurrently", "same answer in another order", "same answer on clones", "same answer on values built again", "same answer when repeated", "same answer where other values were before", "support queries in logs", "vicinities of other shapes set between the queries"],
        "C30" => &["a location comes exactly with a positive verdict", "a shape with itself", "another vicinity set", "bounds compared", "case repeated after its near twin", "convex test answered", "extreme magnitudes", "finite location", "longest side of a union is not negative", "near twin of a case", "pair point-box", "pair point-plane", "pair point-point", "pair point-prism", "pair point-ray", "pair point-sphere", "pair ray-plane", "pair ray-ray", "pair ray-sphere", "pair segment-prism", "pair sphere-plane", "pair sphere-sphere", "query answered", "shapes that were asked other things before", "support answered", "support point given"],
        "C31" => &["another vicinity set", "axis permutation", "case repeated after its near twin", "convex test in the moved scene", "exact lattice scene", "generic scene", "location moves along", "mirroring", "near twin of a case", "oracle: apart", "oracle: intersect", "pair point-box", "pair point-plane", "pair point-point", "pair point-prism", "pair point-ray", "pair point-sphere", "pair ray-plane", "pair ray-ray", "pair ray-sphere", "pair segment-prism", "pair sphere-plane", "pair sphere-sphere", "rotation", "same verdict in the moved scene", "scaling", "scaling by a power of two", "shapes that were asked other things before", "translation"],
        "C32" => &["bounding box from a list of the wrong length", "bounding box from a proper list", "building a unit quaternion from zero", "case repeated after its near twin", "components in range", "convex test of other kinds", "convex test of two spheres", "inverting zero", "logarithm of a real quaternion", "near twin of a case", "normalising zero", "power of a real quaternion", "product of different layouts", "product of equal layouts", "proper quaternions are accepted", "reading a component out of range", "shape from a list of the wrong length", "shape from proper lists", "writing a component out of range"],
        _ => &[],
    }
}

C = "crates/cglinalg_core/src/"
N = "crates/cglinalg_numeric/src/lib.rs"
G = "crates/cglinalg_trigonometry/src/lib.rs"
T = "crates/cglinalg_transform/src/"
TECH = {
    "solver": ("trait-solver queries: compile-time assertions and generic witnesses",
               "Every fact in the stated finite domain of dimensions is put to rustc's trait solver and compared with arithmetic; "
               "exhaustive for that domain. Trusts rustc's trait selection. Dimensions outside the domain are covered only by the generic witnesses."),
    "flow": ("interprocedural algebraic value numbering of MIR against laws",
             "Each law is decided for all inputs: the monomorphized MIR of every function reached is abstractly interpreted into gated algebraic "
             "terms and the two sides are compared by a normal form over the reals. Assumes exact arithmetic (no rounding, overflow, NaN) and "
             "trusts rustc's MIR and the analyser. An obligation whose normal form is inconclusive is classified by evaluating the extracted terms "
             "at points and reported separately in the evidence (none on the unchanged tree unless listed there)."),
    "fail": ("compile-fail and compile-pass witness programs",
             "Each witness program is type-checked against the current crates: rejected programs must be rejected by the type checker for the stated "
             "reason, their well-shaped twins accepted. Covers the listed operations at the listed shapes."),
    "lint": ("compiler-IR lint over every item and body of the workspace",
             "Sound for the listed constructs over every item of the five crates as type-checked; what other crates' functions do inside is trusted by their path."),
    "layout": ("constant assertions on types and representation-attribute lint",
               "Sizes, alignments and auto traits are decided by rustc over the current definitions for every listed type and scalar; target x86_64."),
    "guard": ("signature and visibility lint plus trait-solver witnesses",
              "Every exported safe signature and field of the workspace is inspected; traits that would grant write access are asked of the trait solver."),
    "sound": ("abstract interpretation of the MIR around every unsafe operation, plus trait-solver witnesses",
              "Every function holding an unsafe operation is analysed from each exported safe function that reaches it, at every admitted instantiation of a "
              "finite set of dimensions and probe types, with every index enumerated; each access must be in bounds, initialized, aligned, live and permitted. "
              "Dimensions above the stated ones are not covered. Trusts rustc's MIR, the analyser and the standard library's own unsafe code."),
    "total": ("abstract interpretation of the MIR of every exported function for reachable panics",
              "Every exported safe function is interpreted on unknown arguments at a finite set of scalar types and dimensions; each panic on a path is shown contradictory "
              "or reported. Assumes exact arithmetic with NaN as a separate case; infinities and integer overflow are not covered. Functions listed undecided in the evidence are not claimed."),
    "core": ("resolution lint: the defining crate of every item mentioned in MIR and types",
             "Sound for every body, signature and field of the five crates as type-checked for this target; what num-traits does inside is trusted."),
    "ends": ("abstract interpretation of the MIR of every exported function for loops and recursion without a shape-determined end",
             "Every exported safe function is unrolled completely on unknown component values at a finite set of scalar types and dimensions; a loop or recursion whose end depends on a value is reported. "
             "Functions listed undecided in the evidence (formatting) are not claimed."),
}
PROPS = []
NA = []


def prop(id, title, statement, text, why, files, mech, tech="flow", over=("inputs",)):
    PROPS.append(dict(id=id, title=title, statement=statement, text=text, why=why, files=files, mech=mech, tech=tech, over=list(over)))


prop("P01", "Dimension equality and order facts are exactly the true ones",
     "Two compile-time dimensions are provably equal exactly when they are the same number, and the equality fact names that number. "
     "A dimension is provably less than another only when it is smaller, and every pair of distinct dimensions up to four in increasing order is provable.",
     "every pair of compile-time dimensions (zero to nine and every number mentioned in the facts)",
     "The unit tests instantiate a handful of true facts; absence of false facts cannot be stated in a test that must compile.",
     [C + "constraint.rs"], [("DimEq / DimLt impls", C + "constraint.rs")], "solver", ["programs"])
prop("P02", "Dimension arithmetic facts give the right number or do not exist",
     "For dimensions one to four, the compile-time sum, difference and product exist and equal the arithmetic result (a difference only when it is not negative). "
     "For any other operands a fact either does not exist or has the arithmetically right result.",
     "every pair of compile-time dimensions (zero to nine and every number mentioned in the facts)",
     "The unit tests check some sums and products; they cannot state that a wrong fact is absent.",
     [C + "constraint.rs"], [("DimAdd / DimSub / DimMul impls", C + "constraint.rs")], "solver", ["programs"])
prop("P03", "Matrix product compatibility is decided by the inner dimensions only",
     "A product of two matrix shapes is permitted at compile time exactly when the columns of the first equal the rows of the second; a transposed product exactly when the two row counts are equal. "
     "Either permission lets generic code use the corresponding dimension equality in both directions.",
     "every combination of four compile-time dimensions, and generic code over all dimensions",
     "No test names these facts; a missing or a spurious permission only shows in programs that do not compile.",
     [C + "constraint.rs", C + "matrix.rs"], [("CanMultiply / CanTransposeMultiply", C + "constraint.rs")], "solver", ["programs"])
prop("P04", "Extending and contracting a shape changes it by exactly one",
     "A shape of dimension one to four can be extended exactly to the next larger dimension and contracted exactly to the next smaller one; no other pair of dimensions is permitted. "
     "Either permission lets generic code use the corresponding sum or difference.",
     "every pair of compile-time dimensions, and generic code over all dimensions",
     "No test names these facts; a missing or a spurious permission only shows in programs that do not compile.",
     [C + "constraint.rs", C + "vector.rs", C + "point.rs"], [("CanExtend / CanContract", C + "constraint.rs")], "solver", ["programs"])
prop("P05", "Ill-shaped, mixed-unit and mixed-kind programs do not compile",
     "Operations whose operands disagree in shape, kind, unit or scalar are rejected at compile time, and the well-shaped ones are accepted with the right result shape: products, sums, comparisons and dot products of matrices, vectors and points; "
     "coordinates beyond the dimension; square-only operations on non-square matrices; views and conversions as arrays or tuples of another length; adding points or taking a vector as a point; mixing degrees and radians or bare numbers; directions that are not unit vectors; transformations applied or composed across dimensions; mixed scalar types; negating unsigned values.",
     "every shape of dimension one to four for each listed operation, in the value and reference operator forms",
     "A test must compile, so it cannot show that a wrong program is rejected.",
     [C + "matrix.rs", C + "vector.rs", C + "point.rs", C + "constraint.rs", G, T + "transform.rs"],
     [("operator impls and their where clauses", C + "matrix.rs"), ("CanMultiply, DimEq bounds", C + "constraint.rs")], "fail", ["programs"])
prop("P06", "Angles convert, combine, normalize and evaluate consistently",
     "Degrees and radians convert into each other by the factor pi/180, angle arithmetic acts on the measured amount in every operator form, trigonometric and inverse functions agree with the primitive functions of the radian measure, "
     "normalization brings any angle into its period without changing the direction it denotes, and bisection gives the direction halfway.",
     "every angle in either unit and every scalar factor",
     "Tests sample a few hand-picked angles and property tests sample random ones; sign and period boundaries are easily missed.",
     [G], [("Angle trait, Radians, Degrees", G)])
prop("P07", "Scalar traits mean the primitive operations they name",
     "For every primitive scalar type, each operation offered by the scalar abstraction (rounding, roots, powers, logarithms, trigonometric and hyperbolic functions, sign, ordering, clamping, bounds, constants, classification, conversion) "
     "gives exactly what the primitive operation or constant of that name gives.",
     "all scalar values of every supported primitive type",
     "The tests sample a few values of f64; there are hundreds of forwarding functions across fourteen primitive types.",
     [N], [("SimdScalarFloat and sibling traits, macro-generated impls", N)])
prop("P08", "Vector arithmetic is componentwise in every operator form",
     "For vectors of every dimension and scalar type, addition, subtraction, negation, scaling, division, remainder, sums and products of components, dot product and mapping act on each component exactly as the scalar operation does; "
     "value, reference and assigning forms of an operator all give the same result, and the vector-space axioms follow.",
     "all vectors of dimensions one to four over every supported scalar type",
     "Operators are macro-generated in many value/reference combinations per type; tests exercise a few with fixed numbers.",
     [C + "vector.rs"], [("Vector operator impls", C + "vector.rs")])
prop("P09", "Norms, distances, interpolation, projection and reflection are right",
     "Each vector norm and distance is the one its name states and all spellings of it agree; interpolation runs from the first vector to the second; the projection onto a nonzero vector leaves an orthogonal remainder and is idempotent; "
     "reflection about a nonzero normal preserves length and undoes itself; the cross product is orthogonal to both operands.",
     "all vectors of dimensions one to four",
     "The identities quantify over all vectors; tests sample some and compare with tolerances.",
     [C + "vector.rs", C + "normed.rs"], [("Normed impls and norms of Vector", C + "vector.rs")])
prop("P10", "All views of a value show the same components in the same order",
     "Construction, indexing, slices, pointers, tuples, arrays, iteration, conversions, row and column access, and extension or contraction by one coordinate of vectors, points, matrices, quaternions and complex numbers "
     "all agree on which component is where; matrices are column-major, quaternions have the scalar first, and writing through any mutable view changes exactly that component.",
     "all values of every type and shape the library names",
     "There are hundreds of accessor and conversion forms across sixteen matrix shapes; tests cover a few with constants and most have none.",
     [C + "vector.rs", C + "matrix.rs", C + "point.rs", C + "quaternion.rs", C + "complex.rs"],
     [("coordinate views and conversion impls", C + "core_macros.rs"), ("Matrix storage", C + "matrix.rs")])
prop("P11", "Every swizzle returns exactly the coordinates its name spells",
     "For vectors and points of each dimension, a swizzle named by a sequence of coordinate letters returns those coordinates in that order and nothing else.",
     "all vectors and points, every swizzle name",
     "Over four hundred hand-listed functions; a transposed index in one of them is invisible to the tests of the others.",
     [C + "vector.rs", C + "point.rs"], [("swizzle impls", C + "vector.rs")])
prop("P12", "Normalization and unit values preserve direction and have the asked norm",
     "Normalizing or rescaling a nonzero value gives a positive multiple of it with norm one (or the requested norm); the fallible forms refuse exactly the values whose norm is not above the threshold; "
     "a unit value holds the normalized value it was made from, reports the original norm, and every norm spelling of a type agrees.",
     "all nonzero values of every normed type, and every threshold",
     "Thresholds and sign preservation quantify over all inputs; tests use a few convenient lengths.",
     [C + "normed.rs", C + "unit.rs", C + "vector.rs", C + "matrix.rs", C + "quaternion.rs", C + "complex.rs"],
     [("Normed trait", C + "normed.rs"), ("Unit", C + "unit.rs")])
prop("P13", "Matrix arithmetic satisfies the laws of linear algebra",
     "Matrix sums, differences, negations, scalings and products are the entrywise and row-by-column ones in every operator form; the product is associative, distributes over sums and acts on vectors consistently with products; "
     "the identity and zero are neutral, transposition reverses products and undoes itself; trace, diagonal, dot products, the named norms and distances, interpolation and the diagonal and symmetric classifications agree with the entries.",
     "all matrices of the named shapes over every supported scalar type",
     "Product impls exist for many shape and reference combinations; tests multiply a few fixed matrices.",
     [C + "matrix.rs", C + "constraint.rs"], [("Matrix operator impls and products", C + "matrix.rs")])
prop("P14", "Row, column and entry exchanges move exactly what they name",
     "Exchanging two rows, two columns or two entries of a matrix in place exchanges precisely those and leaves every other entry unchanged, for every pair of valid indices including equal ones; invalid row and column indices are rejected.",
     "all matrices of the named shapes and all pairs of indices",
     "Tests exchange a few fixed pairs in square matrices.",
     [C + "matrix.rs"], [("swap_rows / swap_columns / swap", C + "matrix.rs")])
prop("P15", "Determinants and inverses are the mathematical ones",
     "The determinant of a square matrix of dimension one to four is its cofactor expansion, so it is multiplicative, alternating, invariant under transposition and one at the identity. "
     "An inverse is returned exactly when the determinant is nonzero and multiplies with the matrix to the identity on both sides; the infallible form agrees with it; the invertibility test is the tolerance comparison of the determinant with zero.",
     "all square matrices of dimensions one to four",
     "A sign error in one cofactor changes the result only for matrices that exercise that minor; tests use a few sparse matrices.",
     [C + "matrix.rs"], [("determinant / try_inverse / inverse / is_invertible", C + "matrix.rs")])
prop("P16", "Rotation matrices rotate by the stated angle about the stated axis",
     "Rotation matrices built from an angle, a coordinate axis or an arbitrary unit axis turn every vector by that angle counterclockwise about that axis, in either angle unit and in linear and affine form; they are orthogonal with determinant one and compose by adding angles. "
     "The rotation between two directions takes the first to the second, is the identity for equal directions and absent for opposite ones in space. The cross-product matrix computes the cross product.",
     "all angles, unit axes, vectors and pairs of directions",
     "Tests check quarter turns of coordinate axes, where most sign and transposition errors of the general formula vanish.",
     [C + "matrix.rs"], [("from_angle*, from_axis_angle, rotation_between*", C + "matrix.rs")])
prop("P17", "Scale, translation, shear and reflection matrices act as named",
     "A scale matrix multiplies each coordinate by its factor; a translation matrix moves points by its displacement and leaves directions alone; a shear moves every point along the shear direction in proportion to its offset along the normal from the origin of the shear; "
     "a reflection mirrors through the line or plane with the given unit normal through the given point, fixes that point, undoes itself and has determinant minus one.",
     "all factors, displacements, unit directions and normals, points and vectors",
     "Each of some forty constructors is tested with one or two fixed arguments.",
     [C + "matrix.rs"], [("from_*scale, from_affine_translation, from_*shear*, from_*reflection", C + "matrix.rs")])
prop("P18", "View matrices carry the observer's frame onto the coordinate frame",
     "A view matrix maps the eye to the origin and the viewing direction to the positive (left-handed) or negative (right-handed) z-axis with the up direction in the upper yz half plane, and is rigid; the look-at forms use the direction from eye to target; the inverse forms are the inverses of the forward ones.",
     "all eyes, targets or directions, and up vectors not parallel to the view direction",
     "Tests check a few axis-aligned or planar views.",
     [C + "matrix.rs"], [("look_to_*, look_at_*", C + "matrix.rs")])
prop("P19", "Projection matrices map the view volume onto the clip cube",
     "The orthographic and perspective matrices send the two opposite corners of the view volume to opposite corners of the clip cube, are affine (or affine before division by depth) in between, and the field-of-view form equals the bounds form with the bounds it implies, in either angle unit.",
     "all bounds, near and far distances, aspect ratios and fields of view for which the volume is not degenerate",
     "Tests use one or two symmetric volumes, where the off-centre terms vanish.",
     [C + "matrix.rs"], [("from_orthographic, from_perspective, from_perspective_vfov", C + "matrix.rs")])
prop("P20", "Points form an affine space over vectors in every operator form",
     "Adding or subtracting a vector moves a point componentwise, the difference of two points is the vector from the second to the first, scaling and the remaining operators act componentwise, and norms, dot products and distances of points are those of their coordinates; value, reference and assigning forms agree.",
     "all points of dimensions one to four over every supported scalar type",
     "Operators are macro-generated in many value/reference combinations; tests exercise a few with fixed numbers.",
     [C + "point.rs"], [("Point operator impls", C + "point.rs")])
prop("P21", "Quaternions form a normed division algebra",
     "Quaternion sums, scalings and Hamilton products are right in every operator form; the product is associative, distributes, conjugation reverses it and the norm is multiplicative; inverses and left and right quotients exist exactly when the invertibility test says so and solve their equations; "
     "inner and outer products are the symmetric and antisymmetric halves; interpolation, projection and the classification predicates agree with the components.",
     "all quaternions over every supported scalar type",
     "The product is written out by hand in sixteen terms and repeated per operator form; tests multiply a few unit quaternions.",
     [C + "quaternion.rs"], [("Quaternion operator impls, inverse, division", C + "quaternion.rs")])
prop("P22", "Quaternions represent rotations faithfully",
     "The quaternion built from a unit axis and an angle, its matrix and the axis-angle rotation matrix describe the same rotation; matrix and quaternion convert into each other up to the sign of the quaternion on every branch; products compose rotations. "
     "The rotation between two directions takes the first to the second and is absent only for opposite ones; look-at and look-to forms agree with the matrix ones; spherical interpolation follows the shorter arc at constant speed and reaches both ends.",
     "all quaternions, unit axes, angles, pairs of directions and interpolation amounts (outside the documented nearly-parallel thresholds)",
     "Matrix-to-quaternion conversion has four branches selected by the largest diagonal term; tests reach few of them and use coordinate axes.",
     [C + "quaternion.rs"], [("from_axis_angle, to_matrix*, from_matrix, rotation_between*, look_*, slerp, nlerp", C + "quaternion.rs")])
prop("P23", "Quaternion exponential, logarithm, powers, roots and trigonometric functions",
     "Exponential, logarithm, argument, powers, square root, trigonometric and hyperbolic functions and the polar decomposition of a quaternion are the complex functions carried over to the plane spanned by one and the direction of its vector part, and agree with the real functions on real quaternions.",
     "all quaternions over floating-point scalars in exact arithmetic (away from branch cuts of the inverse functions)",
     "Tests evaluate each function at one or two quaternions, mostly along coordinate axes.",
     [C + "quaternion.rs"], [("exp, ln, powf, sqrt, cos..atanh, polar_decomposition", C + "quaternion.rs")])
prop("P24", "Complex numbers form a field in every operator form",
     "Complex sums, differences, products, quotients and scalings, with complex or scalar operands on either side, are the field operations in value, reference and assigning form; conjugation is an automorphism, the norm is multiplicative, "
     "an inverse exists exactly for nonzero numbers and multiplies to one, integer powers of either sign are repeated products, and classification predicates agree with the components.",
     "all complex numbers over every supported scalar type (integer powers from minus ten to twenty)",
     "Operators are repeated per value/reference combination and per scalar type; tests exercise a few with fixed numbers and small positive powers.",
     [C + "complex.rs"], [("Complex operator impls, inverse, powu, powi", C + "complex.rs")])
prop("P25", "Complex exponential, logarithm, roots and trigonometric functions",
     "The polar form, exponential, logarithms, roots, real and complex powers, circular and hyperbolic functions and their inverses of a complex number are the principal complex functions, including at zero and, for the tangents and the inverse functions, in the limit at infinite arguments.",
     "all complex numbers in exact arithmetic (away from poles), and infinite parts",
     "Tests evaluate each function at a few numbers, mostly real or imaginary.",
     [C + "complex.rs"], [("exp, ln, log*, sqrt, cbrt, powf, powc, cos..atanh, polar_decomposition", C + "complex.rs")])

prop("P26", "Euler angles agree with the rotation matrices they name",
     "The matrix of a triple of Euler angles is the product of the rotations about x, y and z in that order, in linear and homogeneous form and in either angle unit; the angles read from a quaternion rebuild its matrix, with the middle angle within a quarter turn of zero; within rounding of gimbal lock the last angle is zero and the first carries the rotation.",
     "all angle triples; all unit quaternions away from gimbal lock and at it, in exact arithmetic",
     "The matrix is written out entry by entry; tests use one angle at a time.",
     [C + "euler.rs"], [("Euler::to_matrix, to_affine_matrix, From impls", C + "euler.rs")])
prop("P27", "Translations and scales act, compose and invert as such",
     "A translation moves points by its vector and leaves vectors alone; a scale multiplies each coordinate of points and vectors by its factor; composition adds translations and multiplies factors; inverses undo them and exist unless a factor is zero; homogeneous matrices and general transforms made from them act the same way, in every operator form.",
     "all translation vectors, scale factors, points and vectors in dimensions two and three",
     "Operators and dimension-specific conversions are repeated by hand; tests sample fixed numbers.",
     [T + "translation.rs", T + "scale.rs"], [("Translation, Scale", T + "translation.rs")])
prop("P28", "Rotations in two and three dimensions act, compose and convert faithfully",
     "A rotation turns vectors and points by its angle about its axis, keeps lengths, composes by adding angles or multiplying quaternions, and its inverse turns back; its matrix, homogeneous matrix, general transform, quaternion and Euler angles all describe the same turn; "
     "the axis and angle read back are those it was built from; the rotation between two directions takes the first to the second; look-at and look-to rotations are those of the matrices.",
     "all angles, unit axes, unit quaternions, directions and vectors (axis read-back where the turn is not within the documented tolerance of a whole or half turn)",
     "Tests rotate coordinate axes by fixed angles.",
     [T + "rotation.rs"], [("Rotation2, Rotation3", T + "rotation.rs")])

prop("P29", "Shears act, invert and compose as such",
     "A shear moves a point along its direction by its factor times the height of the point over the shearing plane (a vector is taken as the position vector of a point); its inverse has the opposite factor and undoes it when direction and normal are perpendicular; the coordinate-plane constructors name the right direction and normal; "
     "the homogeneous matrix and general transform act on points the same way and compositions multiply matrices, in every operator form.",
     "all shear factors, origins, unit directions and normals, points and vectors in dimensions two and three",
     "Tests shear the corners of squares and cubes along coordinate planes.",
     [T + "shear.rs"], [("Shear, Shear2, Shear3", T + "shear.rs")])
prop("P30", "Reflections act and invert as such",
     "A reflection mirrors points in the plane through its bias point with its unit normal and vectors in the parallel plane through the origin; it is its own inverse, keeps lengths and distances, flips the normal and fixes the bias; the homogeneous matrix and general transform act the same way, in every operator form.",
     "all unit normals, bias points, points and vectors in dimensions two and three",
     "Tests reflect fixed points in a few planes.",
     [T + "reflection.rs"], [("Reflection, Reflection2, Reflection3", T + "reflection.rs")])
prop("P31", "Isometries act, compose and invert as such",
     "An isometry rotates and then translates points and rotates vectors, keeps distances, and its parts are those it was made from; products of isometries, rotations and translations in any order and operator form compose the maps; inverses undo them; the homogeneous matrix and general transform act the same way; "
     "named constructors, rotations between directions and look-at and look-to views and their inverses are the corresponding rotations with the corresponding translation.",
     "all rotations, translations, points and vectors in dimensions two and three; all eyes, targets, directions and up vectors that are not parallel",
     "Tests use fixed isometries and check few of the value/reference operator forms between the three types.",
     [T + "isometry.rs", T + "isometry_ops.rs"], [("Isometry, Isometry2, Isometry3", T + "isometry.rs"), ("mixed products", T + "isometry_ops.rs")])
prop("P32", "Similarities act, compose and invert as such",
     "A similarity scales, rotates and then translates points, scales and rotates vectors, multiplies distances by its scale, and its parts are those it was made from; products with similarities and isometries compose the maps; inverses undo them when the scale is not zero; the homogeneous matrix and general transform act the same way, in every operator form.",
     "all scales, rotations, translations, points and vectors in dimensions two and three",
     "Tests use fixed similarities; the interplay of scale and translation in products and inverses is sampled once.",
     [T + "similarity.rs"], [("Similarity, Similarity2, Similarity3", T + "similarity.rs")])
prop("P33", "Projections project, unproject and report their bounds",
     "Perspective and orthographic projections map points as their matrices do, unprojecting undoes projecting and the other way round, and the bounds, near and far distances, aspect ratio and vertical field of view read back are those the projection was made from.",
     "all bounds and points for which the projection is not degenerate and the reconstruction formulas are defined",
     "Tests use one symmetric volume, where the off-centre terms vanish and mixed-up bounds are equal.",
     [T + "projection.rs"], [("Perspective3, Orthographic3", T + "projection.rs")])
prop("P34", "Approximate comparison is comparison of every component",
     "Absolute-difference, relative and ulps comparison of two angles, vectors, points, matrices, quaternions, complex numbers, Euler angles, unit values or transformations holds exactly when the scalar comparison holds for every component with that component's tolerance (or the one shared tolerance), "
     "the negated forms are its negation, and the differences and tolerances reported for failed assertions are those of the components.",
     "all values, tolerances and ulps bounds of every comparable type",
     "Assertions in the tests compare values that are equal or differ in one early component; a skipped component or swapped tolerance goes unseen.",
     [C + "vector.rs", C + "point.rs", C + "matrix.rs", C + "quaternion.rs", C + "complex.rs", C + "euler.rs", C + "unit.rs", G] + [T + x for x in ("isometry.rs", "similarity.rs", "shear.rs", "reflection.rs", "rotation.rs", "scale.rs", "translation.rs", "transform.rs", "projection.rs")],
     [("approx_cmp impls", C + "vector.rs"), ("approx_cmp impls", T + "isometry.rs")])
prop("P35", "Scalar conversion converts every component or nothing",
     "Converting a vector, point, matrix, quaternion or complex number to another scalar type gives each component converted, in place, when every component is representable and nothing otherwise; converting a single scalar agrees with the numeric cast and panics exactly when that fails.",
     "all component values, integer and floating-point source and target types",
     "Tests convert small representable numbers and one out-of-range component.",
     [C + "vector.rs", C + "point.rs", C + "matrix.rs", C + "quaternion.rs", C + "complex.rs", N],
     [("try_cast", C + "vector.rs"), ("try_cast", C + "matrix.rs"), ("cast, try_cast", N)])
prop("P38", "General transforms apply, compose and invert their homogeneous matrix",
     "A general transform maps vectors by the linear part of its homogeneous matrix and points by the matrix followed by division by the last coordinate (and panics when that is zero); composition multiplies matrices; an inverse exists exactly when the matrix has one and its application is that of the inverse matrix.",
     "all homogeneous matrices, points and vectors in dimensions two and three",
     "Tests apply transforms made from affine maps, whose last row is trivial.",
     [T + "transform.rs"], [("Transform, Transform2, Transform3", T + "transform.rs")])
prop("P36", "Values are plain, tightly packed component data",
     "Every vector, point, matrix, quaternion, complex number, angle, Euler angle, unit value and affine transformation type occupies exactly its components, aligned as the scalar, without padding; the types read through raw views keep a fixed field order; all are copyable, comparable, free of destructors and safe to share between threads.",
     "every data type of the library at every supported scalar type and dimension",
     "Tests read views on one platform and cannot state the absence of padding, destructors or thread restrictions for every instantiation.",
     [C + "vector.rs", C + "matrix.rs", C + "point.rs", C + "quaternion.rs", C + "complex.rs", C + "euler.rs", C + "unit.rs", C + "coordinates.rs", G, T + "transform.rs"],
     [("struct definitions", C + "matrix.rs"), ("coordinate views", C + "coordinates.rs")], "layout", ["programs"])
prop("P37", "Every operation is a pure function of its arguments",
     "No operation of the library reads or writes global, thread-local or interior-mutable state, performs input or output, consults clocks, environment, randomness or addresses, or calls foreign code: calling it again with the same arguments, in any order and from any thread, gives the same result.",
     "every function and closure of the workspace, every history of calls and every interleaving of threads",
     "Hidden state shows only in particular histories or schedules.",
     [C + "lib.rs", N, G, T + "lib.rs"], [("all function bodies", C + "lib.rs")], "lint", ["histories", "schedules"])
prop("P39", "Safe code cannot bypass the invariants of guarded types",
     "Unit values, rotations, isometries, similarities, reflections, shears, translations, scales and projections can be changed or created by safe code only through their own operations: no public field, no mutable view of the contents, no conversion from, or arithmetic yielding, an arbitrary value.",
     "every program that uses only safe functions without the documented unchecked constructors",
     "A test that compiles cannot show that no program can break the invariant.",
     [C + "unit.rs"] + [T + x for x in ("rotation.rs", "isometry.rs", "similarity.rs", "reflection.rs", "shear.rs", "projection.rs", "translation.rs", "scale.rs")],
     [("Unit", C + "unit.rs"), ("Rotation", T + "rotation.rs")], "guard", ["programs"])
prop("P44", "Safe code cannot cause undefined behaviour through the library",
     "No safe function of the library, whatever scalar type, dimensions, indices and arguments it is called with, reads or writes memory outside its arguments, reads uninitialised memory, makes an invalid or misaligned value or reference, turns a shared reference into a mutable one, returns a reference that outlives what it points into, or lets a value cross threads when its components may not.",
     "every safe function containing unsafe code, every instantiation its bounds admit, every argument",
     "Undefined behaviour at an unusual instantiation usually goes unnoticed when it happens, and tests use scalar types without destructors or invalid bit patterns.",
     [C + x for x in ("vector.rs", "point.rs", "matrix.rs", "quaternion.rs", "complex.rs", "unit.rs", "coordinates.rs")],
     [("views and conversions by pointer cast", C + "matrix.rs"), ("coordinate views", C + "coordinates.rs"), ("Unit deref", C + "unit.rs")], "sound", ["programs", "inputs"])
prop("P45", "Library operations do not panic",
     "No safe function of the library panics, however degenerate the arguments: zero vectors and matrices, parallel or opposite directions, singular matrices, equal bounds, and components that are not numbers all give a result or None. "
     "The only panics are: an index or slice out of range, the inverse of a value without one through a method named inverse, a general transform sending a point to infinity through its apply or multiplication forms, "
     "a cast to a type that cannot hold the number, whole-number division by zero or overflow, and clamping whole numbers to reversed bounds.",
     "every exported safe function, every argument, over floating-point and whole-number scalars",
     "A panic hides on a degenerate input (a zero vector, a NaN, a singular matrix) that the tests for the ordinary meaning of an operation never pass.",
     [C + x for x in ("vector.rs", "point.rs", "matrix.rs", "quaternion.rs", "complex.rs", "euler.rs", "unit.rs", "normed.rs")] + [N, G] + [T + x for x in ("rotation.rs", "isometry.rs", "similarity.rs", "transform.rs", "projection.rs")],
     [("every exported function", C + "vector.rs")], "total")
prop("P46", "The library allocates nothing and needs only core",
     "No operation of the library allocates heap memory or uses any part of the standard library outside core (no vectors, strings, boxes, maps, input or output, threads, clocks, or hosted floating-point methods), so it works where there is no allocator and no operating system.",
     "every body, signature and field of the workspace crates",
     "Tests run on a hosted machine, where an allocation or a hosted function is invisible.",
     [C + x for x in ("vector.rs", "point.rs", "matrix.rs", "quaternion.rs", "complex.rs", "euler.rs")] + [N, G] + [T + x for x in ("rotation.rs", "isometry.rs", "transform.rs", "projection.rs")] + ["src/lib.rs"],
     [("no_std", "src/lib.rs")], "core", ["programs"])
prop("P47", "Every operation takes a number of steps fixed by the shapes of its arguments",
     "Every operation of the library ends, after a number of steps determined by the dimensions of its arguments and any whole-number exponent alone: no loop or recursion continues until component values satisfy a condition, so huge, tiny or not-a-number components cannot make it slow or endless.",
     "every exported safe function, every argument, over floating-point and whole-number scalars",
     "A loop that subtracts turns until an angle is in range, or operators that forward to each other, end for the values a test uses and hang or overflow the stack for others.",
     [C + x for x in ("vector.rs", "point.rs", "matrix.rs", "quaternion.rs", "complex.rs", "euler.rs", "unit.rs")] + [N, G] + [T + x for x in ("rotation.rs", "isometry.rs", "similarity.rs", "transform.rs", "projection.rs")],
     [("angle normalization", G), ("operator forwarding", C + "vector.rs")], "ends")
prop("P48", "A not-a-number component shows in what is computed from it and nowhere else",
     "When one component is not a number and every other input is an ordinary number: sums, differences, negations, multiples, quotients and remainders by a scalar, component products and linear interpolations of vectors, points, matrices, quaternions and complex numbers have exactly the corresponding component not a number, as have conjugates and transposes; a matrix product has exactly the rows (or columns) that meet the component, a cross product exactly the two components that use it; products of quaternions and of complex numbers, normalized values and projections have every component not a number; dot products, Euclidean and sum norms, distances and determinants are not a number, the trace is exactly when the component is on the diagonal, an inverse that exists contains one that is not a number; the exponential, logarithm, and trigonometric and hyperbolic functions of a complex number show it; translations and scalings show it in exactly its coordinate, and rotations, isometries and similarities in at least one coordinate of every image; is_finite denies it. A scale factor that is not a number makes every component of the result so.",
     "every position of the component, all values of the other inputs, over both floating-point scalars; dimensions 1 to 4",
     "Tests never put a component that is not a number into an operation, and a comparison or a max that drops it leaves every ordinary result right.",
     [C + x for x in ("vector.rs", "point.rs", "matrix.rs", "quaternion.rs", "complex.rs", "normed.rs")] + [T + x for x in ("translation.rs", "scale.rs", "rotation.rs", "isometry.rs", "similarity.rs")],
     [("arithmetic, norms, products", C + "matrix.rs"), ("apply_point", T + "similarity.rs")])
prop("P40", "Equality is equality of every component",
     "Two vectors, points, matrices, quaternions, complex numbers, angles, Euler angles, unit values, transformations or tolerances compare equal with == exactly when all their corresponding components are equal, and != is its negation; angles order as their numbers do; copies carry every component; equal values feed a hasher the same data.",
     "all component values of every type and shape, over floating-point and integer scalars",
     "A test compares a few values that differ in the component its author thought of.",
     [C + x for x in ("vector.rs", "point.rs", "matrix.rs", "quaternion.rs", "complex.rs", "euler.rs", "unit.rs")] + ["crates/cglinalg_trigonometry/src/lib.rs", T + "isometry.rs", T + "similarity.rs"],
     [("derive(PartialEq, Hash, Clone)", C + "vector.rs")])
prop("P41", "Displaying a value shows every component and never panics",
     "The text of a vector, point, matrix, quaternion, complex number, angle, Euler angle, unit value or transformation consists of the texts of its components, each exactly once and in order (matrices column by column, quaternions scalar part first), between punctuation fixed by the type; an error of the writer is returned, at whatever point it occurs, and never becomes a panic.",
     "all component values of every displayable type, every point at which the writer can fail",
     "Tests never write to a writer that fails, and component order shows only in values with distinct components.",
     [C + x for x in ("vector.rs", "point.rs", "matrix.rs", "quaternion.rs", "complex.rs", "euler.rs", "unit.rs")] + ["crates/cglinalg_trigonometry/src/lib.rs"] + [T + x for x in ("isometry.rs", "similarity.rs", "shear.rs", "reflection.rs", "rotation.rs", "scale.rs", "translation.rs", "transform.rs", "projection.rs")],
     [("Display for Vector", C + "vector.rs"), ("Display for Matrix", C + "matrix.rs")])
prop("P42", "Floating-point results stay within a few roundings of the exact ones",
     "Every operation over f32 or f64 returns a result within a small multiple of the rounding unit of the result exact arithmetic would give, for inputs of moderate size.",
     "all finite floating-point inputs", "Tests compare with tolerances at a few points.", [C + "matrix.rs", C + "vector.rs"], [("arithmetic", C + "matrix.rs")])
prop("P43", "Overflowing and infinite inputs give the conventional results",
     "Overflowing and infinite components propagate through every operation as the scalar operations applied in the documented order would propagate them.",
     "all floating-point inputs including infinities, integer inputs near the bounds", "Tests use small finite numbers.", [C + "matrix.rs", N], [("arithmetic", N)])
NA.append(dict(property="P42", reason="Rounding error depends on run-time magnitudes and evaluation order; the exact-arithmetic reading that makes the laws decidable erases it and no sound static bound over all inputs exists for cancelling expressions."))
NA.append(dict(property="P43", reason="Deciding it needs a case split over overflow and infinity at every operation on run-time values, which the algebraic analysis excludes by assumption; the library states no convention for most of them."))

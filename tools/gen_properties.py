#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[], mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))

p("C01", "Basis functions form the B-spline basis",
  "For every valid clamped knot vector, degree and in-range parameter (knots and both ends included), each basis function value is the Cox-de Boor value: non-negative, zero outside its support, and all of them sum to one. Derivatives of every order (also above the degree) are the exact right-sided derivatives of that piecewise polynomial (left-sided at the last knot), and the list of non-zero basis functions of a spline in one direction starts at the first function whose support contains the parameter.",
  ["inputs"], "all clamped knot vectors (any start value, spacing, interior multiplicity up to p+1), degrees, parameters incl. knots/ends/neighbouring doubles, derivative orders",
  "Existing tests evaluate a few fixed knot vectors at a few parameters; a bug confined to repeated interior knots, a degree, a derivative order or the last knot is not reached.",
  ["src/baf/b_spline_basis_function.cc", "src/baf/basis_function.cc", "src/baf/basis_function_factory.cc", "src/baf/zero_degree_b_spline_basis_function.cc", "src/spl/parameter_space.h"],
  [("recursive basis function objects with zero-denominator handling", "src/baf/b_spline_basis_function.cc"), ("half-open support, closed at last knot", "src/baf/basis_function.cc IsCoordinateInSupport")],
  ["basis function Evaluate / EvaluateDerivative", "EvaluateAllNonZeroBasisFunctions(Derivatives)"])

p("C02", "B-spline evaluation equals the tensor-product definition",
  "For every non-rational spline of parametric dimension 1 to 4, evaluating it at any in-range parameter gives, for each requested coordinate in the requested order, the sum of control points times products of basis functions. Consequently the point lies in the bounding box of the control points acting at that parameter, and corners of the parameter range give the corner control points.",
  ["inputs"], "all B-splines (dimension 1-4, degrees, knot vectors, control points of any space dimension), parameters, and lists of requested coordinates (any subset, order, repetition)",
  "Tests evaluate hand-made splines of one or two shapes at a handful of points, mostly with equal sizes per direction and [0,1] ranges.",
  ["src/spl/spline.h", "src/spl/b_spline.h", "src/spl/parameter_space.h", "src/spl/physical_space.h", "src/util/multi_index_handler.h"],
  [("sum over (p+1)^DIM active basis functions", "src/spl/spline.h Evaluate"), ("control point layout, first direction fastest", "src/spl/physical_space.h")],
  ["Spline::Evaluate"])

p("C03", "NURBS evaluation equals the homogeneous-coordinate definition",
  "For every rational spline with positive weights, evaluation gives the weighted sum of control points divided by the weighted sum of basis functions; requesting the coordinate index one past the last gives that weight sum itself. Scaling all weights by a positive factor leaves the geometry unchanged, and equal weights give the same points as the non-rational spline with the same control points.",
  ["inputs"], "all NURBS (dimension 1-4, any positive weights), parameters, requested coordinates",
  "Tests use a few fixed NURBS; weights varying per direction, non-square sizes or dimension 3/4 are barely sampled.",
  ["src/spl/nurbs.h", "src/spl/weighted_physical_space.h", "src/spl/spline.h"],
  [("homogeneous control points and division by the weight sum", "src/spl/nurbs.h GetEvaluatedControlPoint")],
  ["Spline::Evaluate on NURBS", "GetWeight", "GetHomogeneousControlPoint"])

p("C04", "Spline derivatives are the true partial derivatives of all orders",
  "For every spline, rational or not, and every combination of non-negative derivative orders per direction, derivative evaluation gives the exact mixed partial derivative of the evaluated mapping (right-sided at interior knots, left-sided at the last knot). Order zero in all directions equals plain evaluation, and for non-rational splines any order above the degree gives zero.",
  ["inputs"], "all splines of dimension 1-3 (sampled 4), all mixed orders, parameters incl. knots and ends",
  "Tests check first and second derivatives of a few splines; mixed and high orders of rational splines use a recursive quotient rule that is sampled at single points.",
  ["src/spl/spline.h", "src/spl/b_spline.h", "src/spl/nurbs.h", "src/baf/b_spline_basis_function.cc"],
  [("recursive generalised quotient rule with binomial coefficients", "src/spl/nurbs.h GetRationalBasisFunctionDerivative")],
  ["Spline::EvaluateDerivative"])

p("C05", "Domain checks: exactly the valid parameters and spline data are accepted",
  "Evaluating a spline or its derivative at a parameter outside the closed knot range in any direction is rejected with a range error, and every parameter inside it, both ends included, is accepted. Constructing a spline whose end knots lack multiplicity p+1, that has fewer than 2p+2 knots, whose knots decrease or are all equal, whose degree is negative, whose number of control points or weights does not fit the knots and degrees, or whose control points differ in dimension is rejected with a runtime error; valid data is accepted unchanged.",
  ["inputs"], "all parameter tuples in, on, just beside and outside the range in each direction; valid constructions and single-fault variations of them, for splines and generators",
  "Tests try single out-of-range values and one or two invalid constructions.",
  ["src/spl/parameter_space.h", "src/spl/physical_space.h", "src/spl/weighted_physical_space.h", "src/spl/spline.h", "src/baf/knot_vector.cc"],
  [("ThrowIfParametricCoordinateOutsideKnotVectorRange", "src/spl/parameter_space.h"), ("constructor checks", "src/spl/parameter_space.h, physical_space.h, weighted_physical_space.h")],
  ["Evaluate / EvaluateDerivative exceptions", "constructor exceptions", "getters after construction"])

p("C06", "Knot insertion and refinement never change the geometry",
  "Inserting an interior knot any number of times up to total multiplicity p, or a list of knots, in any direction of any spline leaves the mapping from parameters to points (and the weight function of a NURBS up to rounding) unchanged everywhere. The knot vector of that direction becomes the sorted old knots plus exactly the inserted ones, the number of control points grows accordingly, and degrees and the other directions are untouched.",
  ["inputs", "histories"], "all splines of dimension 1-3 (sampled 4), rational or not, any direction, any interior knots incl. existing ones, multiplicities and knot lists",
  "Tests insert specific knots in a few textbook splines.",
  ["src/spl/spline.h", "src/spl/b_spline.h", "src/spl/nurbs.h", "src/spl/parameter_space.h", "src/spl/physical_space.h", "src/baf/knot_vector.cc"],
  [("InsertKnot scaling coefficients + AdjustControlPoints", "src/spl/spline.h, b_spline.h, nurbs.h")],
  ["Evaluate before/after", "knot vectors", "points per direction"])

p("C07", "Knot removal removes what it reports and stays within tolerance",
  "Asking to remove an interior knot up to n times in a direction returns how many times it was removed; the knot vector loses exactly that many copies of that knot, the control points shrink accordingly and everything else in the structure is unchanged. The geometry stays within the given tolerance (times the number of removals and a small degree-dependent factor) of the original, a refused removal leaves the spline untouched, and knots that were inserted before can be removed again, restoring the original spline.",
  ["inputs", "histories"], "all splines of dimension 1-3 with an existing interior knot, tolerances from rounding level to huge, requested counts up to the multiplicity",
  "Tests remove knots from splines where removal is exactly possible or clearly not.",
  ["src/spl/spline.h", "src/spl/b_spline.h", "src/spl/nurbs.h", "src/spl/parameter_space.h", "src/baf/knot_vector.cc"],
  [("RemoveControlPoints / IsKnotRemovable", "src/spl/b_spline.h, nurbs.h")],
  ["RemoveKnot return value", "Evaluate before/after", "knots, control points"])

p("C08", "Subdivision yields two splines that together are the original",
  "Splitting a spline at an interior parameter in any direction returns two valid splines of the same degrees, one over the range up to the split parameter and one from it to the end, with the other directions unchanged. Each agrees with the original everywhere on its range (weights included), and the split spline itself still describes the same geometry on its whole range.",
  ["inputs"], "all splines of dimension 1-3, any direction, any interior split parameter incl. existing knots of any multiplicity up to p",
  "Tests split a few fixed splines at one parameter.",
  ["src/spl/b_spline.h", "src/spl/nurbs.h", "src/spl/parameter_space.h", "src/spl/physical_space.h", "src/spl/weighted_physical_space.h"],
  [("SudivideSpline: insert to multiplicity p+1, divide knots, points and weights", "src/spl/b_spline.h, nurbs.h, parameter_space.h GetDividedKnotVectors")],
  ["returned splines: knots, degrees, Evaluate"])

p("C09", "Degree elevation preserves the geometry",
  "For splines whose interior knots have multiplicity at most p, elevating the degree in any direction, also repeatedly and in several directions, raises the degree of exactly that direction by one and leaves the mapping from parameters to points unchanged everywhere on an unchanged parameter range. Every distinct knot keeps at least its former continuity-preserving multiplicity plus one, and all control points and weights stay finite with positive weights staying positive.",
  ["inputs", "histories"], "all splines of dimension 1-3 with degree >= 1 and interior multiplicity <= p, any direction, repeated elevation",
  "Tests compare only sampled points with a predicate that accepts not-a-number results; other degrees, multiplicities and parameter ranges are not covered.",
  ["src/spl/spline.h", "src/spl/parameter_space.h", "src/spl/b_spline.h", "src/spl/nurbs.h"],
  [("Bezier decomposition, elevation of each segment, removal of the extra knots", "src/spl/spline.h ElevateDegreeForDimension")],
  ["Evaluate before/after", "degrees, knots, control points"])

p("C10", "Degree reduction is faithful or refuses",
  "For splines whose interior knots have multiplicity at most p, reducing the degree in a direction reports success only if the resulting spline of degree one lower stays within a small multiple of the given tolerance of the original everywhere; otherwise it reports failure and the spline keeps its degree and its geometry. A spline obtained by degree elevation can be reduced again to its former degree and geometry, and the parameter range and other directions never change.",
  ["inputs", "histories"], "all splines of dimension 1-3 with degree >= 2 and interior multiplicity <= p: elevated ones, nearly reducible ones and arbitrary ones; tolerances",
  "Tests reduce only splines that were elevated just before (with broken elevation) and check with a predicate that accepts not-a-number.",
  ["src/spl/spline.h", "src/spl/parameter_space.h"],
  [("DegreeReduceBezierSegment error bound", "src/spl/spline.h")],
  ["ReduceDegreeForDimension result", "Evaluate before/after", "degrees, knots"])

p("C11", "Any history of geometry-preserving operations keeps a valid, equal spline",
  "After every step of any sequence of knot insertions, refinements, removals, degree elevations, successful or refused degree reductions, subdivisions and copies (degree changes only while interior knots have multiplicity at most p), the spline is structurally valid: knots sorted and clamped, number of control points per direction equals knots minus degree minus one, all values finite. Its geometry equals the original within the tolerances used along the history.",
  ["histories"], "random operation sequences up to ~12 steps on B-splines and NURBS of dimension 1-3",
  "Unit tests run single operations; interactions (e.g. insert, elevate, remove, split) are histories no test enumerates.",
  ["src/spl/spline.h", "src/spl/b_spline.h", "src/spl/nurbs.h", "src/spl/parameter_space.h"],
  [("operations update parameter space, physical space and cached basis functions together", "src/spl/spline.h, parameter_space.h RecreateBasisFunctions")],
  ["Evaluate against the recorded original after each step", "structural getters"])

p("C12", "Splines are values: copies and parts never influence each other",
  "Changing a copy of a spline by any operation never changes the original, and vice versa; the same holds between a split spline and its two parts and between the two parts. Read-only operations (evaluation, comparison, writing files, projection, sweeping) leave the spline observably unchanged.",
  ["histories", "inputs"], "all pairs (spline, derived spline) and mutation sequences applied to either; all read-only operations",
  "Tests check a copy's values, not independence after later mutation.",
  ["src/spl/spline.h", "src/spl/b_spline.h", "src/spl/nurbs.h", "src/spl/parameter_space.h", "src/spl/physical_space.h", "src/spl/weighted_physical_space.h"],
  [("deep-copying copy constructors", "src/spl/spline.h, b_spline.h, nurbs.h, parameter_space.h")],
  ["full snapshot of one spline while the other is mutated"])

p("C13", "Equality predicates answer exactly the question asked",
  "Exact comparison of two splines is true if and only if degrees, knots, control points and weights agree entry by entry within the tolerance, in both argument orders. Geometric comparison is true for two representations of the same geometry over the same parameter range (whatever that range is) and false when points at corresponding parameters differ by clearly more than the tolerance or are not numbers.",
  ["inputs"], "pairs of splines: identical, perturbed in one knot/coordinate/weight/degree by more or less than the tolerance, refined or elevated versions; all parameter ranges",
  "Tests compare a few pairs over [0,1]-like ranges.",
  ["src/spl/spline.h", "src/spl/b_spline.h", "src/spl/nurbs.h", "src/spl/parameter_space.h", "src/spl/physical_space.h", "src/spl/weighted_physical_space.h", "src/util/numeric_settings.h", "src/baf/knot_vector.cc"],
  [("AreEqual / AreGeometricallyEqual", "src/spl/*.h")],
  ["AreEqual, AreGeometricallyEqual, knot vector comparison results"])

p("C14", "IGES write then read returns the same splines",
  "Writing any list of curves and surfaces (rational or not) to an IGES file and reading it back gives the same list in the same order: same kind, degrees, knots, weights and control points (coordinates padded with zeros to three) to about 15 significant digits. Every line of the file has the fixed 80-column IGES layout with consistent section numbering and counts, splines of other dimensions are rejected, and entities of other types in a file are skipped when reading.",
  ["inputs"], "all lists (0-12 entries) of 1D/2D splines with space dimension 1-3, values of any sign and magnitude incl. exponent notation, long parameter records",
  "Tests round-trip two fixed splines with friendly values.",
  ["src/io/iges_writer.cc", "src/io/iges_reader.cc", "src/util/string_operations.h"],
  [("parameter data layout and directory pointers", "src/io/iges_writer.cc, iges_reader.cc")],
  ["written file", "splines read back"])

p("C15", "IRIT write then read returns the same splines",
  "Writing any list of splines of parametric dimension 1 to 3 to an IRIT file and reading it back gives the same list in the same order: same kind, degrees and number of control points, and knots, weights and control points equal to the six decimals the format stores. Splines of higher dimension are rejected.",
  ["inputs"], "all lists of 1D-3D splines, rational or not, space dimensions 1-4, values of any sign and magnitude that six decimals can carry",
  "Tests round-trip few fixed splines.",
  ["src/io/irit_writer.cc", "src/io/irit_writer_utils.h", "src/io/irit_reader.cc", "src/io/irit_reader_utils.h", "src/util/string_operations.h"],
  [("token-based reader; homogeneous coordinates for rational splines", "src/io/irit_reader.cc, irit_writer_utils.h")],
  ["written file", "splines read back"])

p("C16", "XML write then read returns the same splines",
  "Writing any list of splines of parametric dimension 1 to 4 to an XML file and reading it back gives the same list in the same order: same kind, degrees and number of control points, and knots, weights and control points equal to the six decimals the format stores. The number of splines and the per-spline attributes in the file match the list, and further control point variables stored before or after the coordinates do not change what is read.",
  ["inputs"], "all lists of 1D-4D splines, rational or not, space dimensions 1-4; also files with extra control point variables before or after the coordinates",
  "Tests round-trip few fixed splines.",
  ["src/io/xml_writer.cc", "src/io/xml_writer_utils.h", "src/io/xml_reader.cc", "src/io/xml_reader_utils.h", "src/util/string_operations.h"],
  [("attributes + whitespace-separated value lists", "src/io/xml_writer_utils.h, xml_reader.cc")],
  ["written file", "splines read back"])

p("C17", "VTK export samples the geometry on a complete, consistent grid",
  "For any list of splines of dimension 1 to 3 and any positive numbers of cells per direction, the VTK file contains for each spline the points of the regular grid over its whole parameter range (both ends included, first direction fastest, missing coordinates zero), equal to the spline's evaluation to the printed precision. Cells tile each grid exactly once with lines, quads or hexahedra in VTK corner order using only that spline's points, all counts and cell types match, and a wrong number of scattering entries or a 4D spline is rejected.",
  ["inputs"], "all spline lists, scattering numbers per direction (different per direction), parameter ranges with arbitrary start and length",
  "Tests compare a few files for small scattering and ranges that divide evenly.",
  ["src/io/vtk_writer.cc", "src/io/vtk_writer_utils.h"],
  [("grid sampling from first to last knot; index arithmetic for cells", "src/io/vtk_writer_utils.h, vtk_writer.cc")],
  ["parsed VTK file"])

p("C18", "File conversion writes exactly the requested convertible splines",
  "Converting a file to another format (chosen by the file name endings) writes precisely those splines at the requested positions (all if none are given) whose dimension the target format supports, in that order, unchanged up to the formats' precision, with each spline's own scattering for VTK, and returns exactly the positions written, also when the conversion is repeated. Unsupported or missing name endings are rejected for input and output.",
  ["inputs", "histories"], "all input/output format pairs, spline lists of mixed dimensions, position lists (subset, order, repetition, out of range), file names, repeated calls",
  "Tests convert one file per format pair.",
  ["src/io/io_converter.cc", "src/io/io_converter.h", "src/util/string_operations.h", "src/util/vector_utils.h", "src/io/iges_reader.cc", "src/io/irit_reader.cc", "src/io/xml_reader.cc"],
  [("format detection, position filtering by dimension", "src/io/io_converter.cc")],
  ["returned positions", "output file read back"])

p("C19", "Reading any file terminates safely: splines or an exception",
  "Whatever bytes an IGES, IRIT or XML file contains - truncated, with fields deleted, duplicated, swapped or replaced, or with wrong counts - reading it terminates and either returns splines or throws an exception. It never reads or writes memory outside the data, and every spline it returns is structurally valid and can safely be evaluated at its range ends (the values may be non-finite).",
  ["inputs"], "all byte strings reachable by mutating valid files of the three formats (line, token, byte and number level), plus missing/empty files",
  "Tests read well-formed files and one missing file.",
  ["src/io/iges_reader.cc", "src/io/irit_reader.cc", "src/io/irit_reader_utils.h", "src/io/xml_reader.cc", "src/io/xml_reader_utils.h", "src/util/string_operations.h"],
  [("format parsing", "src/io/*_reader*")],
  ["process behaviour under address sanitizer", "returned splines"])

p("C20", "Number and list texts are read as the numbers they denote",
  "Every decimal text of a number - integer, fixed or scientific notation with e or E, either exponent sign, leading sign and leading zeros - is read as that number to nearly full double precision. Lists whose entries are terminated by ',' or ';' (empty entries skipped) and blank-separated lists give their numbers in order with nothing lost or invented. Prefix and suffix tests are plain string functions, trimming strips whitespace and '[' on the left, whitespace and ']' on the right, and splitting at a delimiter or line break drops only empty parts.",
  ["inputs"], "all number texts produced by usual formatting at any precision, all lists of them with blanks, brackets and line breaks; all strings",
  "Tests parse a few literals.",
  ["src/util/string_operations.h"],
  [("hand-written number parser and splitters", "src/util/string_operations.h")],
  ["StringToDouble, DelimitedStringToVector, split, trim, StartsWith, EndsWith"])

p("C21", "Projection returns an in-range parameter and is exact where geometry is linear",
  "Projecting a point onto a curve, or a point in 3D onto a surface, always terminates and returns a parameter inside the knot range of each direction, whatever those ranges are. For straight, uniformly parametrised curves and flat rectangular patches the result is the true closest point (clamped at the ends), and a point that lies on a well-parametrised smooth curve or surface projects to a parameter whose point is that point within tolerance.",
  ["inputs"], "all regular curves and surfaces with different knot ranges per direction; linear/planar families with points inside and beyond the ends; points generated on near-linear geometries",
  "Tests project a few points on a few splines starting at 0.",
  ["src/spl/projection.h", "src/util/element_generator.h", "src/util/vector_utils.h"],
  [("Newton-like iteration with clamping", "src/spl/projection.h")],
  ["returned parameters", "Evaluate at them"])

p("C22", "Translational sweep surface is the sum of trajectory and profile",
  "The surface generated from a trajectory curve and a profile curve satisfies S(u,v) = T(u) + C(v) for all parameters in both curves' knot ranges, with weight function equal to the product of the curves' weight functions. Degrees and knot vectors are those of the two curves, and the two curves stay unchanged.",
  ["inputs"], "all pairs of NURBS curves in 3D (different degrees, knot ranges, weights)",
  "Tests use one pair of curves.",
  ["src/spl/surface_generator.cc", "src/spl/surface_generator.h"],
  [("joined parameter and physical spaces", "src/spl/surface_generator.cc JoinPhysicalSpaces")],
  ["Evaluate on the generated surface"])

p("C23", "Swept surface sections are rigid scaled copies of the profile",
  "For a trajectory with sections, every row of control points of the swept surface is the profile's control polygon, scaled by that section's factors and placed at the trajectory point of that section by a rotation whose first axis is the trajectory's unit tangent (an orthonormal right-handed frame, with the binormal as third axis where the trajectory is clearly curved), with weights equal to trajectory weight times profile weight. Sections are equally spaced over the whole trajectory range from first to last knot, and the result is a valid spline that keeps the profile's degree and knots, clamped over the trajectory's range in the other direction with interior knots that are averages of p consecutive section parameters. Only a trajectory whose neighbouring binormals are orthogonal may be rejected instead.",
  ["inputs"], "all smooth non-degenerate trajectories (curved, and straight ones), knot ranges not starting at zero, profiles, numbers of sections, scalings",
  "Tests use one or two trajectories starting at 0.",
  ["src/spl/surface_generator.cc", "src/baf/control_point.cc", "src/baf/knot_vector.cc"],
  [("GetTransformation / ComputeNormal / averaged knots", "src/spl/surface_generator.cc, knot_vector.cc")],
  ["control points, weights and knots of the generated surface"])

p("C24", "Spline generators produce valid splines with the promised shape",
  "The square generator gives, for every degree and sufficient number of knots, a valid surface of that degree covering exactly the square [-1,1]^2 with uniform clamped knots on [0,1] and an axis-aligned grid of equally spaced control points. Random spline generators always give valid splines whose degrees lie between 1 and the given maximum, whose knots span exactly the given limits, whose points have the given dimension with bounded coordinates and whose weights are positive.",
  ["inputs", "histories"], "all degrees and knot counts; all limits, maximal degrees and dimensions over long call sequences of the generators",
  "Tests check a few generated instances.",
  ["src/spl/square_generator.cc", "src/spl/random_spline_utils.h", "src/spl/random_b_spline_generator.h", "src/spl/random_nurbs_generator.h", "src/util/random.h"],
  [("knot and control point formulas", "src/spl/square_generator.cc, random_spline_utils.h")],
  ["generated splines"])

p("C25", "Multi-index iteration visits every index tuple once, in order",
  "For all extents, incrementing a multi-index from zero visits each tuple exactly once in the order of its one-dimensional index (first entry fastest) and wraps to zero; decrementing is the exact inverse. Conversions between tuples and one-dimensional indices are mutually inverse, the total length is the product of the extents, the complement tuple and the index with one direction removed are computed consistently.",
  ["inputs", "histories"], "all extents >= 1 in dimension 1-4 and all sequences of set, increment, decrement and advance operations",
  "Tests step through one or two small handlers.",
  ["src/util/multi_index_handler.h"],
  [("odometer increment/decrement", "src/util/multi_index_handler.h")],
  ["MultiIndexHandler public results against arithmetic model"])

p("C26", "Converter programs follow their log file exactly",
  "A converter program run with a log file naming input, output, positions (or all) and, for VTK, scattering writes exactly the requested splines that the target format supports, in the order given and each with its own scattering, and appends a log entry naming exactly the positions written. Section order and blank lines between sections do not change what is read from the log file, and a log file with earlier entries appended can be reused.",
  ["inputs"], "all log files of the documented format: section orders, position lists incl. unsupported or unknown positions, 'all', spacing; all nine format pairs",
  "Tests use one log file per case.",
  ["src/io/executables/converter_log.cc", "src/io/executables/iges_to_irit.cc", "src/io/executables/iges_to_vtk.cc", "src/io/executables/iges_to_xml.cc", "src/io/executables/irit_to_iges.cc", "src/io/executables/irit_to_vtk.cc", "src/io/executables/irit_to_xml.cc", "src/io/executables/xml_to_iges.cc", "src/io/executables/xml_to_irit.cc", "src/io/executables/xml_to_vtk.cc", "src/util/string_operations.h"],
  [("section parser and position/scattering filters", "src/io/executables/converter_log.cc")],
  ["output file, log file and exit status of the executables; ConverterLog getters"])

p("C27", "Knot vectors behave as sorted sequences of parameters",
  "Under any sequence of insertions and removals of in-range values, a knot vector is exactly the sorted multiset a plain list would be: size, entries, first/last knot, multiplicity, number of distinct knots, range membership and equality agree. The span of any in-range parameter is the index of the non-empty interval containing it (half-open, the last one closed).",
  ["histories", "inputs"], "all sorted knot vectors, parameters and insert/remove histories; copies, moves and differences",
  "Tests check single calls on one knot vector.",
  ["src/baf/knot_vector.cc", "src/baf/knot_vector.h", "src/util/named_type.h"],
  [("binary searches on the sorted vector", "src/baf/knot_vector.cc")],
  ["KnotVector public interface"])

p("C28", "Elements are exactly the non-empty knot spans",
  "For every spline and direction, the generated element list contains each non-empty knot interval exactly once, in increasing order, so that the elements tile the knot range from first to last knot without gaps or overlaps.",
  ["inputs"], "all splines of dimension 1-3 and knot vectors with any interior multiplicities",
  "Tests list the elements of two splines.",
  ["src/util/element_generator.h", "src/util/element.h"],
  [("scan over neighbouring knots", "src/util/element_generator.h")],
  ["GetElementList"])

p("C29", "Isogeometric analysis assembles consistent, exact discrete operators",
  "For every non-degenerate spline geometry, at every integration point of every element the rational shape functions, their parametric and physical derivatives, the quadrature weight and the Jacobian determinant equal their definitions, and connectivity maps each element's local functions to the global functions that are non-zero there. The assembled Laplace matrix is therefore symmetric, annihilates constants and gives linear fields their exact energy. Source, Neumann and time-step terms, boundary splines, boundary conditions and the solved systems are those of the same discretisation, and the exported solution is the spline with these coefficients.",
  ["inputs"], "NURBS patches (1D-3D locally, 2D for the whole problem) with different degrees, knot vectors and weights per direction, and integration rules with 1 to 5 points",
  "Tests compare one fixed patch with unit weights with stored numbers.",
  ["example/iga/src/basis_function_handler.h", "example/iga/src/mapping_handler.h", "example/iga/src/connectivity_handler.h", "example/iga/src/element_generator.h", "example/iga/src/element_integral_calculator.h", "example/iga/src/linear_equation_assembler.h", "example/iga/src/bdf_handler.h", "example/iga/src/poisson_problem.h", "example/iga/src/solution_spline.h", "example/iga/src/solution_vtk_writer.h"],
  [("element loop with Gauss rules", "example/iga/src")],
  ["integration points, connectivity, matrices, right sides, solutions, solution file"])

p("C30", "Vector, control point and type utilities obey their algebra",
  "Vector and control point operations give the textbook results for every length and sign: sums, differences, scalings, norms, distances, scalar and cross products, affine transformation with scaling, and filtering by positions (rejecting positions beyond the end). Type-erased splines report their true dimension and rationality and are returned unchanged, and anything else is rejected.",
  ["inputs"], "all vectors, points, matrices, position lists and type-erased values (all spline kinds, dimension 1-4, and foreign values)",
  "Tests check one example per function.",
  ["src/util/vector_utils.h", "src/baf/control_point.cc", "src/util/any_casts.h", "src/util/numeric_settings.h", "src/util/numeric_operations.h"],
  [("elementwise transforms", "src/util/vector_utils.h, src/baf/control_point.cc"), ("any_cast cascade", "src/util/any_casts.h")],
  ["function results against direct arithmetic"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
print(len(P))

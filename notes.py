"""Per property: (deciding method, what assurance the check gives and what it assumes)."""
EVAL = ("Random search only: absence of a violation is not proved. The oracle is a long double reference (harness/ref.h) "
        "written from the definition; differences below a rounding bound derived from the summed magnitudes are accepted.")
GEO = ("Random search only. Geometry is compared through the long double reference at sampled parameters (all span ends, "
       "midpoints, random ones) and structure exactly; trusts harness/ref.h.")
FILE = ("Random search only. Files are written to a scratch folder; the expected content comes from an independent parser/printer "
        "in the harness (harness/iofmt.h, vtkfile.h).")
NOTES = {
    "C01": ("generated knot vectors and parameters against a long double Cox-de Boor reference", EVAL),
    "C02": ("generated B-splines against the tensor-product definition in long double", EVAL),
    "C03": ("generated NURBS against the homogeneous definition, plus metamorphic weight scaling", EVAL),
    "C04": ("generated splines and mixed orders against a long double quotient-rule reference", EVAL),
    "C05": ("generated parameters and single-fault constructions against a validity predicate", "Random search only. Which data is valid is decided by a predicate in the harness; checks exception kinds and unchanged data."),
    "C06": ("geometry preserved (metamorphic), exact knot model", GEO),
    "C07": ("insert/remove round trips and tolerance bound, exact knot model", GEO + " The allowed error per removal is a degree-dependent multiple of the tolerance."),
    "C08": ("both parts against the reference of the original", GEO),
    "C09": ("geometry preserved under repeated elevation, knot multiplicity model", GEO + " Interior multiplicity p+1 is excluded (known finding)."),
    "C10": ("elevate/reduce round trips, tolerance bound or unchanged on refusal", GEO + " Interior multiplicity p+1 is excluded (see known finding of C09)."),
    "C11": ("stateful operation sequences with a validity and geometry invariant after each step", GEO),
    "C12": ("stateful mutation of copies/parts with full snapshots of all others", "Random search only. Snapshots compare degrees, knots, control points and weights bit by bit."),
    "C13": ("pairs with a known answer (perturbed, refined, elevated) in both orders", "Random search only. Differences near the tolerance (factor 0.5 to 3) are not decided."),
    "C14": ("write/read round trip, independent layout check and foreign files", FILE),
    "C15": ("write/read round trip and token-level file check", FILE),
    "C16": ("write/read round trip, attribute check and foreign files", FILE),
    "C17": ("independent VTK parser against evaluated grid and topology model", FILE),
    "C18": ("conversion against a model of positions and supported dimensions, repeated calls", FILE),
    "C19": ("grammar-aware mutation fuzzing of all three readers under address sanitizer", "Random search only. Memory errors are those AddressSanitizer and libstdc++ assertions detect; termination is a CPU limit per case."),
    "C20": ("generated number texts and lists against strtod and plain string models", "Random search only; oracle strtod within a few units in the last place."),
    "C21": ("families with a known closest point, range and termination invariants", "Random search only. Accuracy is claimed for straight/flat geometries and for points on near-linear ones only, since the iteration is local."),
    "C22": ("generated surface against T(u)+C(v) and the weight product", GEO),
    "C23": ("section rows against an independent frame and transformation model", GEO + " Frames where the trajectory is nearly straight but not straight are only checked for orthonormality."),
    "C24": ("validity predicate over generated splines", "Random search only; the generators' own randomness is seeded by the library, so the random generators are judged by invariants of each generated spline."),
    "C25": ("stateful sequences against an arithmetic odometer model", "Random search only; exhaustive over every small handler visited."),
    "C26": ("generated log files run through the nine converter programs, model of log format", FILE),
    "C27": ("stateful insert/remove sequences against a sorted multiset model", "Random search only."),
    "C28": ("generated knot vectors against the list of non-empty intervals", "Random search only."),
    "C29": ("generated patches against a long double reference of mapping, gradients and operators", EVAL),
    "C30": ("generated operands against direct arithmetic and type model", "Random search only."),
}
NA = {}

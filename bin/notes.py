# (technique, level note) of the checks, read by mkmanifest.py
SDF = "TLA+ denotational model of the shape algebra (SdfAlgebra: integer interval values) and of construction histories (SdfGen), run by TLC with its laws as invariants; every generated history is rebuilt with the real constructors and every probed value compared with the interval"
NOTES = {
 "C19": ("TLA+ specification of the body centred lattice and of the tetrahedra a set of inside nodes keeps (Bcc), its laws (equal volumes, conforming faces, whole stars) checked by TLC for all sets of two nodes (MCBcc); node sets and shapes with probes are generated by TLC (BccGen), meshed by the real code, and the recorded meshes validated by BccTrace: lattice meshes must be the specified set of tetrahedra exactly, meshes of shapes must conform, keep one orientation and contain the deep probes once", "Random node sets on lattices of 3 to 5 cells a side, and unions and differences of up to four balls and boxes with up to 10 cells a side (thorough: more), four units, two places. Orientation signs and barycentric tests are computed by the harness in floating point with margins."),
 "C15": ("TLA+ specification of every constructor's domain (Params: Verdict says ok, err or any for a call); TLC enumerates all calls over a grid of negative, zero, boundary and positive parameters (MCParams), checks on each that doubling the lengths, exchanging like parameters, reversing or repeating vertices keeps the verdict, and writes it out; every call is replayed on the real constructors and their panicking twins", "Full products over 8 values (12 in the thorough tier) for primitives, heads and screws, all pairs around valid parts for bolts, nuts, standoffs and panels. A good call must give finite, ordered bounds and finite values on 142 points; a bad one an error; none may panic; twins must agree on acceptance, bounds and values."),
  "C23": ("TLA+ specification of what parts are made of (Parts: Side of a point for standoffs, panels, eurorack panels, panel holes, hex heads, bolts and nuts, in exact integers on top of Screw), whose laws (changing a parameter changes no point outside the feature it names, symmetry, overall sizes) TLC checks over a grid (MCParts); random parts and probes near every feature are generated by TLC (PartsGen) and compared by side with the real parts", "Random parameters of every part in three units; probes within three units of surfaces of parts up to some hundred units. Bolts and nuts in ten-thousandths of half their flats, with two heads or three bodies and five or six threads; undecided: the ribs of knurls, a band of a few units along curved surfaces, outside a web's share of the turn. Thread profiles are C20's matter."),
 "C20": ("TLA+ specification of the helix map and of the standard outlines (Screw: Place takes height and turn to a place along the profile, Side decides inside and outside from the standard's outline, both in exact integers), its laws (a pitch up, once around, starts, hands, taper) checked by TLC over a grid (MCScrew); screws and probes generated by TLC (ScrewGen) and compared with the real screw's values, profile, bounds and stated parameters", "Random diameters, pitches, lengths, starts of both hands and tapers of both signs for every thread and for knurls, three units; probes on every fifteenth of a degree times k. The swept value is compared exactly with the thread's own profile; the profile by side only, within a thousandth of a pitch of the outline (fillets within a fiftieth)."),
 "C10": (SDF, "Seeded construction histories over all primitives and operations, probes around every shape; values compared within the model's interval (1e-4 or so of a unit). Trusts the mapping of model operations to constructors."),
 "C11": (SDF, "As C10, with counts 0 and 1, off-origin shapes and nested transforms."),
 "C12": (SDF, "As C10; scaled extrusions are judged by inside/outside, revolutions modulo whole turns."),
 "C13": (SDF, "As C10; bounds are judged by a lattice and random search for points which evaluate negative outside the bounds, by the model's inside probes, and by comparison with the box the model states (operators Box, BoxAround) wherever it is determined."),
 "C14": (SDF, "Primitives with parameters up to their limits, probes inside, on and outside, in every corner."),
 "C18": ("TLA+ specification of the solid a mesh bounds (MeshSdf: cells of a lattice under an integer matrix; the side of a point from the cells, its squared distance from the faces, both exact), its laws checked by TLC for all 2x2x2 solids (MCMeshSdf); solids, meshes and probes are generated by TLC (MeshSdfGen) and both importers' values compared", "Random manifold solids of up to 27 cells with very unequal sides, any dihedral angles from random matrices, three ways of dividing faces, scales, rotations and offsets; probes cluster at edges and corners."),
 "C21": ("TLA+ model of matrices as exact rational actions on points (Matrix) with TLC checking its laws; programs of moves, products and inverses are generated by TLC (MatrixGen) with the exact images, determinants and boxes and replayed; rotations recorded from oriented copies are validated by OrientTrace; every script of integer vector steps up to a depth (IntVec) replayed", "Random programs with Pythagorean rotations about rational axes, so every expected number is exact; compared to 1e-8 relative. All pairs of small directions, and directions narrowly missing the opposite, for oriented copies."),
 "C22": ("TLA+ model of the blending functions on integer intervals (Blend), its laws checked by TLC over a grid (MCBlend); histories of composites whose functions are set, replaced and queried are generated by TLC (BlendGen) and replayed into the real code", "Random histories of nested unions, differences, intersections and patterns of linear members in 2D and 3D, radii from a thousandth to three times the values, three scales; answers within a few thousandths of the radius unit. MinPow and degree 0 maxima are left out (undefined)."),
 "C24": ("TLA+ specification of materials as an operation of the shape algebra (SdfAlgebra, op mat): sessions which draw shapes for materials up to forty times over, with lengths inside the part, are generated by TLC (SdfGen) and every value and length is compared with the specification's", "Ideal and PLA, the two materials there are; the growth of forty applications is told apart from any other to a fortieth of a permille."),
 "C25": ("TLA+ specification of the pipeline shape, mesh, file, shape (PipeGen on top of the shape algebra SdfAlgebra; PipeTrace): design sessions with renderings, files and imports are generated by TLC and carried out, values of the part which comes back are recorded, and TLC judges them against the intervals of the shape algebra and the laws which follow from shapes being 1-Lipschitz", "Shapes of up to eight operations, all of them 1-Lipschitz; 6 to 27 cells; files through CreateSTL, WriteSTL, Create3MF or none; both importers; a sixth of the parts are rendered and imported twice. 24 points per part and all pairs of them. Features thinner than a cell may be lost, which the laws allow."),
 "C16": ("TLA+ model of shapes shared by evaluating threads (Purity), checked exhaustively by TLC for a pure implementation and for three impure ones which it must refute; construction sessions (SdfGen) and schedules of concurrent questions, re-use in composites and changes of the caller's values (PurityGen) are generated by TLC and replayed with the race detector on; the recorded answers, numbered by their exact bits, are validated as behaviours of the model by PurityTrace", "Every operation of the shape algebra plus imported models, screws, bolts, nuts, panels and blended composites; the interleavings of threads are the scheduler's, made independent of luck by the race detector's happens-before analysis."),
 "C17": ("TLA+ state machine of the polygon builder (PolyTrace: pending vertices with their requests, what each query does to them); call histories are generated by TLC (PolyGen), replayed into the real builder, and the recorded outlines are validated as behaviours of the state machine", "Random histories of up to 14 calls with requests from far too large to tiny, exact semicircles, spikes, straight corners and zero-length edges; distances judged to about a thousandth of the outline's size, with either outcome accepted where fitting is decided within that. Relative first vertices and dropping from an empty list are left out."),
}
NA = {}

#!/usr/bin/env python3
# Source of /verif/properties.jsonl (kept as code so that the long texts stay readable).
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=hook)))
p("C01","The octree renderer hands out every triangle of the model exactly once",
  "Reading an octree renderer to the end yields the same multiset of triangles whatever buffer lengths the caller uses, from 1 triangle up, in any order and mix: none lost, none duplicated, none invented. Each read returns between 0 and the buffer length triangles, reports end-of-file only once nothing is left to deliver, keeps reporting end-of-file afterwards with no more triangles, and end-of-file is reached after finitely many reads. The triangle buffer behind it is a queue: triangles come out in the order they were written, each once, reads and writes say how many there were, and it keeps copies of its own.",
  ["histories","inputs"],"every model and mesh resolution, every sequence of non-empty read buffer lengths",
  "The tests read one bolt or sphere with one fixed buffer size; the spill buffer, the end-of-file decision and the partial-batch path depend on the whole history of buffer sizes.",
  ["render/octree_renderer.go","render/io.go","render/render.go"],
  [("spill buffer for triangles which do not fit","render/octree_renderer.go octree.readTriangles"),("end-of-file decision","render/octree_renderer.go octree.ReadTriangles"),("FIFO copy","render/io.go TriangleBuffer")],
  [dict(name="todo",meaning="cubes still to process",where="render/octree_renderer.go"),dict(name="unwritten",meaning="triangles produced but not delivered",where="render/octree_renderer.go")],
  ["Renderer.ReadTriangles"])
p("C02","Rendering does not depend on the number of workers or their interleaving",
  "With any number of concurrent workers, under any interleaving of their evaluations and for any sequence of buffer lengths, the octree renderer delivers exactly the triangles of the single-threaded rendering, each once, and always finishes. No two workers access shared memory without synchronisation.",
  ["schedules","histories"],"every worker count, every interleaving of concurrent evaluations, every sequence of read buffer lengths",
  "The multithreading test runs one sphere with two workers and compares two counters kept by the renderer itself under whatever schedule happens.",
  ["render/octree_renderer.go"],
  [("work partition and consolidation after the join","render/octree_renderer.go readTrianglesThreaded"),("locks around the spill buffer, the counters and the distance cache","render/octree_renderer.go")],
  [dict(name="work/cubeWork",meaning="slices of the output buffer and of the pending cubes given to each worker",where="render/octree_renderer.go")],
  ["Renderer.ReadTriangles, SDF3.Evaluate called by the workers"],"worker count is set through a helper file added by a build overlay")
p("C03","Reading all of a renderer returns everything it delivered, in order",
  "RenderAll returns, in order and with nothing dropped, duplicated or reordered, every triangle that the renderer delivered, including those delivered together with end-of-file or with an error, for any sequence of partial, empty and full reads. It returns no error exactly when the renderer ended with end-of-file, and otherwise the renderer's own error.",
  ["inputs","fault_sequences"],"every renderer behaviour: any sequence of read results, with end-of-file or an error at any point, with or without triangles in the same read",
  "Tests call it on one octree rendering, whose last read happens to be empty, and never with an error.",
  ["render/io.go"],[("accumulation loop","render/io.go RenderAll")],None,["RenderAll"])
p("C04","The mesh is the complete iso-surface: no part of the surface is skipped",
  "For every distance field that never overestimates distance, every grid edge of the sampling lattice whose ends are on different sides of the surface is crossed by the mesh at the linearly interpolated point, and every mesh vertex is such a point. Skipping empty space therefore never loses a piece of the surface, and the mesh separates precisely the inside lattice points from the outside ones.",
  ["inputs"],"every 1-Lipschitz field, bounding box shape and mesh resolution",
  "Tests compare PNG hashes/sizes of a few shapes or only count triangles; a wrongly pruned cube, a wrong sub-cube or a bad interpolation shows for particular fields, positions and resolutions only.",
  ["render/octree_renderer.go","render/marchingcubes.go"],
  [("empty-cube elimination by centre distance against half diagonal","render/octree_renderer.go dc3.IsEmpty"),("distance cache keyed by lattice index","render/octree_renderer.go dc3"),("case tables and interpolation","render/marchingcubes.go")],None,["Renderer.ReadTriangles"])
p("C05","Rendered meshes are closed and outward oriented",
  "The triangles rendered from any model that fits in its bounds form a closed surface: every directed edge is matched by an opposite one, so there are no holes, cracks or dangling triangles. The orientation is consistent and outward: the winding number is one around every inside lattice point and zero around every outside one.",
  ["inputs"],"every combination of inside/outside corners (all 256 cell patterns, next to any neighbour), every crossing position, every model",
  "Only one pattern of corners per rendered cell of the few shapes in the tests is ever seen, and the tests look at neither adjacency nor orientation.",
  ["render/marchingcubes.go","render/octree_renderer.go"],[("case tables","render/marchingcubes.go mcEdgeTable, mcTriangleTable"),("vertex interpolation","render/marchingcubes.go mcInterpolate")],None,["Renderer.ReadTriangles"])
p("C06","STL output is byte-exact and independent of how it is produced",
  "Writing N triangles as STL gives exactly 84+50N bytes: an 80 byte header, the count N little-endian, then per triangle in order its unit normal by the right hand rule, its three vertices as 32 bit floats and a zero attribute. Streaming any renderer to an STL file gives byte for byte what writing its collected triangles gives, however the renderer splits its reads and also when the path already held another file.",
  ["inputs","histories"],"every list of triangles, every split of a renderer's output into reads around every internal batch boundary, every earlier content of the output path",
  "One box with one batch is compared to itself; no test decodes the bytes independently or crosses a batch boundary.",
  ["render/stl.go"],[("record layout","render/stl.go stlTriangle.put, stlHeader.put"),("streaming reader and back-patched header","render/stl.go stlReader.Read, createSTL")],None,["WriteSTL","CreateSTL"])
p("C07","Binary STL reads back to the triangles written",
  "Reading back a binary STL stream gives the triangles that were written, in order, at 32 bit precision, however the underlying reader splits the bytes, including empty reads and a last read that carries end-of-file. A stream shorter than its count says, or with a non-finite coordinate or a degenerate triangle, is reported as an error and never as a complete model. A facet normal which contradicts the vertices is reported along with the triangles; one which agrees with them, in either sense, is not.",
  ["inputs","fault_sequences"],"every triangle list, every chunking of the stream, every truncation point",
  "One in-memory stream read in one piece; no chunking, no truncation, no bad record.",
  ["render/stl.go"],[("record loop","render/stl.go readBinarySTL"),("validation","render/stl.go stlTriangle.validate")],None,["readBinarySTL through a helper file added by a build overlay"],"readBinarySTL is reached through a helper file added by a build overlay")
p("C08","A failure while exporting is always reported",
  "If the renderer fails at any point, or the destination cannot be created or refuses or shortens a write at any byte offset, then WriteSTL, CreateSTL and Create3MF return a non-nil error; if nothing fails they return nil and the output is complete. They never report success for an incomplete file.",
  ["fault_sequences","crash_points"],"every byte offset at which the destination fails, every read at which the renderer fails, with or without data in the failing read",
  "No test injects any failure.",
  ["render/stl.go","render/3mf.go","render/io.go"],[("error returns around every write and seek","render/stl.go WriteSTL, createSTL; render/3mf.go model.Create")],None,["WriteSTL","CreateSTL","Create3MF"])
p("C09","A 3MF file holds exactly the rendered triangles over shared vertices",
  "The package written for any renderer contains the content types, a root relationship to the model part, and one model in millimetres whose build list refers to the mesh object. Dereferencing the mesh's triangle indices gives exactly the rendered triangles, in order, with the same corner order and bit-identical coordinates, and each distinct vertex is listed once and used.",
  ["inputs"],"every triangle list, including shared, isolated and extreme coordinates, and every split into reads",
  "The test only checks that no error is returned for one box; the file is never opened.",
  ["render/3mf.go"],[("vertex de-duplication and index assignment","render/3mf.go model.AddObject"),("package parts","render/3mf.go model.Create")],None,["Create3MF"])
p("C10","Union, difference, intersection and cut mean what set algebra says",
  "At every point a union evaluates to the minimum of its members, an intersection to the maximum, a difference to max(a,-b) and a planar cut to the maximum with the signed distance to the plane, so that a point is inside exactly when set algebra says so, for 2D and 3D and any nesting. The order or number of members of a union and the internal bounding-box shortcuts never change the result (in 2D, where members are skipped by their bounding box, the value outside is required only of members which evaluate to exact distances there, the inside/outside answer always).",
  ["inputs","programs"],"every tree of constructive operations, every shape and every evaluation point",
  "Only a few example shapes are rendered to images; values of combined shapes are never compared to an oracle.",
  ["sdf3.go","sdf2.go","internal/d2/box.go","internal/d3/box.go"],
  [("min/max combination","sdf3.go union3, diff3, intersection3, cut3; sdf2.go"),("2D union bounding-box shortcut","sdf2.go union2.Evaluate, internal/d2/box.go MinMaxDist2")],None,["SDF2.Evaluate","SDF3.Evaluate"])
p("C11","Transforms, patterns, offsets and shells move shapes as documented",
  "Transforming a shape by a rotation, reflection, translation or uniform scale gives the value of the original at the inversely transformed point (times the scale), and arrays, rotated unions and copies, placed sets, lines and oriented sets are the union of the correspondingly moved copies, in exactly the stated number and places. Elongating inserts a straight section centred on the origin, offsetting subtracts the offset from the value, and shelling keeps the points within half the thickness of the surface.",
  ["inputs","programs"],"every shape, parameter value (including counts of 0 and 1) and evaluation point, and every nesting of these operations",
  "Examples render a few such shapes but their values are never checked, and counts of one or zero and off-origin shapes do not occur.",
  ["sdf3.go","sdf2.go","matrix.go","utils.go"],
  [("inverse transform on evaluation","sdf3.go transform3, scaleUniform3"),("copies","sdf3.go array3, rotateUnion, rotateCopy3, Multi3D, LineOf3D, Orient3D; sdf2.go"),("clamp and offset","sdf3.go elongate3, offset3, shell3; sdf2.go")],None,["SDF2.Evaluate","SDF3.Evaluate"])
p("C12","Extrusions, lofts, revolutions and slices have the stated cross-sections",
  "An extrusion occupies exactly the heights within half its height, and its section at height z is the 2D shape, rotated in proportion to z for a twist, scaled linearly in inverse from 1 at the bottom to the given scale at the top for a scaled extrusion, and both for both; a loft's section blends linearly from the bottom to the top shape and rounded versions round the rim by the given radius. A revolution by theta, taken modulo a whole turn with a whole turn meaning the full revolution, contains exactly the points whose radius and height lie in the profile and whose azimuth lies in [0,theta], and a slice of a solid evaluates to the solid on the slicing plane.",
  ["inputs","programs"],"every 2D profile, including off-centre ones, height, twist, scale, rounding, angle up to several turns and evaluation point",
  "A few examples are rendered to images; the section at a given height or azimuth is never compared to the profile.",
  ["sdf3.go","utils.go","sdf2.go"],
  [("extrusion functions","utils.go TwistExtrude, ScaleExtrude, ScaleTwistExtrude"),("revolution wedge","sdf3.go revolution3"),("slice frame","sdf2.go Slice2D")],None,["SDF3.Evaluate","SDF2.Evaluate"])
p("C13","Bounds contain the whole shape",
  "For every shape built from the library's primitives and operations without smooth blending, every point at which it evaluates negative lies inside its Bounds, so that rendering the bounds never cuts material off. The bounds are finite and ordered. Where the box is determined, they are that box: of primitives the smallest one, and of shapes moved, scaled, joined, repeated, grown, elongated or extruded the one those operations give of the bounds they start from (of a moved shape the box around its moved bounds). (Offsets, shells, roundings and lofts are meant of shapes whose values outside are exact distances, and scales are positive.)",
  ["inputs","programs"],"every tree of primitives and operations with valid parameters, in particular off-centre shapes",
  "Bounds are only used to frame the few rendered examples, which are centred; no test compares bounds with the shape.",
  ["sdf3.go","sdf2.go","matrix.go","form3/must3/cylinders.go","form2/must2/poly.go","internal/d2/box.go","internal/d3/box.go"],
  [("bounds computed at construction","sdf3.go, sdf2.go constructors"),("box transform","matrix.go MulBox")],None,["Bounds","Evaluate"])
p("C14","Primitives evaluate to the exact signed distance",
  "Spheres, boxes, cylinders, capsules, cones, circles, rectangles, line segments and simple polygons evaluate, at every point, to the Euclidean distance to their surface, negative inside and positive outside, with the stated rounding applied without changing the overall size. Regular polygons have n equally spaced vertices on the circle of the given radius.",
  ["inputs"],"every valid parameter combination, including the limits of rounding, and every evaluation point",
  "One image per primitive; values away from the surface, inside corners and at parameter limits are not looked at.",
  ["form3/must3/cylinders.go","form2/must2/basic.go","form2/must2/poly.go","utils.go","sdf2.go"],
  [("distance formulas","form3/must3/cylinders.go, form2/must2/basic.go, form2/must2/poly.go polygon.Evaluate")],None,["Evaluate"])
p("C15","Invalid parameters give an error, never a panic or a silent shape",
  "The constructors which return an error return a non-nil error and no panic for every parameter combination outside their documented domain, and a nil error with a usable shape for every combination inside it. Where a panicking twin of a constructor exists, it accepts the same combinations and yields the same shape.",
  ["inputs"],"every combination of negative, zero, boundary and positive parameters of primitives, bolts, nuts, screws, standoffs, panels and other parametric parts",
  "Tests only ever use valid parameters.",
  ["form2/basic.go","form2/poly.go","form3/basic.go","form3/must3/cylinders.go","form2/must2/basic.go","form3/obj3/thread/bolt.go","form3/obj3/thread/nut.go","form3/obj3/thread/thread.go","form3/obj3/standoff.go","form2/obj2/panel.go"],
  [("recover to error","form3/basic.go, form2/basic.go"),("validation switches","form3/must3/cylinders.go, form3/obj3/thread")],None,["constructors"])
p("C16","Evaluation is pure, repeatable and safe to share",
  "Evaluating a shape, asking its bounds or rendering it never changes it: the same point always gives the identical value whatever was evaluated before, in between or concurrently by other goroutines, without data races. Building a shape neither modifies the values passed to it nor is affected by later changes to them, and shapes can be shared between several composites.",
  ["histories","schedules"],"every sequence and every concurrent interleaving of evaluations on every kind of shape, every later mutation of the arguments",
  "Tests evaluate each shape once, from one goroutine or two, and never compare repeated evaluations.",
  ["sdf2.go","sdf3.go","form2/must2/poly.go","helpers/sdfexp/import.go","helpers/sdfexp/spatial3.go","form3/obj3/thread/thread.go"],
  [("immutable shape objects","sdf2.go, sdf3.go"),("no shared scratch state while evaluating","helpers/sdfexp/import.go")],None,["Evaluate","Bounds"])
p("C17","The polygon builder turns its call history into the described outline",
  "For every sequence of builder calls the resulting vertex list is the one described: absolute, relative and polar vertices resolve in order, drop removes the last, reverse reverses, close returns to the first; an arc replaces its edge by the given number of facets on the circle of the given radius through both ends, bulging to the side its sign says, and smoothing replaces a corner by points on the tangent circle and chamfering by the straight cut. A request that does not fit its edges leaves the corner as it is, and asking for the vertices twice gives the same answer.",
  ["histories"],"every sequence of builder operations and modifiers",
  "No test covers the builder beyond the shapes used by one or two examples.",
  ["form2/must2/poly.go","form2/poly.go"],[("fixups before output","form2/must2/poly.go relToAbs, createArcs, smoothVertices, close"),("per vertex modifiers","form2/must2/poly.go polygonVertex")],[dict(name="vlist",meaning="vertices with pending modifiers",where="form2/must2/poly.go PolygonBuilder")],["PolygonBuilder.Vertices"])
p("C18","An imported mesh evaluates to the signed distance of its solid",
  "Importing a closed, outward oriented triangle mesh gives a shape that is negative exactly inside the solid the mesh bounds and positive outside, also where the nearest point of the mesh lies on an edge or a corner, and whose magnitude is the distance to the mesh. Its bounds are those of the mesh, and meshes with NaN coordinates are rejected.",
  ["inputs"],"every closed mesh with well separated vertices and every evaluation point",
  "One mesh is imported and only the absence of a crash/a rendering is checked.",
  ["helpers/sdfexp/import.go","helpers/sdfexp/spatial2.go","helpers/sdfexp/spatial3.go","helpers/sdfexp/bih.go"],
  [("nearest triangle and closest feature","helpers/sdfexp/spatial3.go, spatial2.go"),("pseudo normals for the sign","helpers/sdfexp/import.go")],None,["ImportModel(...).Evaluate"])
p("C19","The generated tetrahedral mesh is a valid conforming mesh",
  "The uniform tetrahedral mesh of any shape has finite node coordinates, refers only to existing nodes, gives each tetrahedron four distinct nodes and positive volume of the same orientation, and lists each tetrahedron once. Neighbouring tetrahedra share whole faces, each face belongs to at most two tetrahedra, every tetrahedron lies near the shape, and every point deeper inside it than a cell and a half is in the mesh. Meshing consists of the tetrahedra of the body centred lattice with a node inside the shape; moving nodes to the surface and smoothing never breaks any of this.",
  ["inputs"],"every shape and resolution",
  "No test runs it.",
  ["helpers/sdfexp/bccmesh.go","helpers/sdfexp/basicmesh.go","helpers/sdfexp/omesh.go"],[("node numbering of the body centred lattice","helpers/sdfexp/bccmesh.go"),("node optimisation","helpers/sdfexp/omesh.go")],None,["UniformTetrahedronMesh"])
p("C20","Screws sweep their thread profile along the stated helix",
  "A screw of any thread is, within its length, the thread profile swept along a helix: going up by one pitch or once around returns the same section, the lead is starts times the pitch, positive starts are right handed and negative starts left handed, and the taper moves the profile linearly with height. Each standard thread's profile repeats with its pitch, touches its nominal radius for the crest, leaves no surface inside the material between turns and stays within the bounds the thread states.",
  ["inputs"],"every thread standard, diameter, pitch, number of starts, taper, length and evaluation point",
  "Tests render a bolt or compare a table of hexagon sizes; helix, lead and handedness are never evaluated.",
  ["form3/obj3/thread/thread.go","form3/obj3/thread/iso.go","form3/obj3/thread/acme.go","form3/obj3/thread/npt.go","form3/obj3/thread/ansibuttress.go","form3/obj3/thread/plasticbuttress.go","form3/obj3/thread/uts.go","form3/obj3/thread/parameters.go"],
  [("cylindrical to thread coordinates","form3/obj3/thread/thread.go screw.Evaluate"),("thread profiles","form3/obj3/thread")],None,["Screw(...).Evaluate"])
p("C21","Transformation matrices form the algebra users compose with",
  "Multiplying matrices composes their actions on points in the stated order, the inverse undoes the action, determinants multiply, and translations, scalings, rotations and mirrors act on points as named, rotations being right handed. The box transform returns the smallest axis-aligned box containing the image of the box. Integer vectors add and subtract component by component and become real vectors and integer ones again unchanged.",
  ["inputs","programs"],"every product of translations, scalings, rotations about any axis and mirrors, every point and every box",
  "Nothing tests the matrices directly.",
  ["matrix.go"],[("product, inverse, box transform","matrix.go m44, m33, m22")],None,["Mul","Inverse","MulPosition","MulBox"])
p("C22","Smooth blending stays within the stated envelope of min and max",
  "The blending functions are symmetric and never exceed the plain minimum (never fall below the plain maximum for the maximum versions). The polynomial ones equal it once the two values differ by at least the blending radius and otherwise differ from it by the stated polynomial amount; the round one equals it once either value is at least the radius and otherwise joins the two by a quarter circle; the exponential one stays within ln 2 widths of it. Setting a blending function on a union, difference or pattern applies exactly that function to the values of all its members, and other shapes are unaffected.",
  ["inputs","programs"],"every pair of values, radius and degree, every union, difference, intersection and pattern",
  "No test evaluates a blending function.",
  ["utils.go","sdf2.go","sdf3.go"],[("blending functions","utils.go MinPoly, MaxPoly, MinRound"),("SetMin, SetMax","sdf2.go, sdf3.go")],None,["MinFunc","MaxFunc","Evaluate"])
p("C23","Parametric parts have the geometry their parameters describe",
  "Bolts, nuts, standoffs, washers-like plates and panels are solid exactly where their parameters say: head, shank and thread stacked without gaps at the stated heights, holes of the stated diameters at the stated pattern positions and margins, webs of the stated number and size, and the stated overall dimensions. Changing one parameter changes only the feature it names.",
  ["inputs"],"every valid parameter combination and every evaluation point",
  "Only a hexagon size table and rendered pictures of a few parts are looked at.",
  ["form3/obj3/thread/bolt.go","form3/obj3/thread/nut.go","form3/obj3/thread/hexhead.go","form3/obj3/thread/knurl.go","form3/obj3/standoff.go","form2/obj2/panel.go","form3/obj3/panel.go"],
  [("composition of parts","form3/obj3/thread/bolt.go, nut.go; form3/obj3/standoff.go; form2/obj2/panel.go")],None,["Evaluate"])
p("C24","Parts drawn for a material come out with the intended dimensions",
  "A material leaves the form of a shape alone and makes it larger by exactly what the material shrinks: an ideal material changes nothing, a viscoelastic one (PLA) scales value, bounds and surface by 1 plus its contraction, however often it is applied and whatever it is applied to. An internal dimension is drawn as the scaled dimension plus the material's pull; a dimension which is not positive is refused for a viscoelastic material.",
  ["inputs"],"every shape, material, number of applications, point and dimension",
  "No test looks at materials at all.",
  ["helpers/matter/materials.go"],
  [("shrinkage compensation","helpers/matter/materials.go")],None,["Evaluate"])
p("C25","What comes out of the pipeline is the shape that went in",
  "Rendering a shape at some resolution, writing it to STL or 3MF, reading the file and importing its triangles gives a shape again: import succeeds and terminates for everything the library itself renders (parts which touch themselves, vertices rounded together by the file format), every value is finite, further than a cell's diagonal from the original surface both agree on the side, the imported surface lies within a cell's diagonal of the original one, and no two values differ by more than the distance of their points. The same holds with the sum of both diagonals when the imported shape is rendered and imported a second time.",
  ["inputs"],"every composition of distance-preserving operations, resolution, file format, importer and evaluation point",
  "Tests import one sphere and compare a few pictures; the stages are never composed over arbitrary shapes.",
  ["render/octree_renderer.go","render/marchingcubes.go","render/stl.go","render/3mf.go","helpers/sdfexp/import.go","helpers/sdfexp/bih.go"],
  [("composition of the stages","render/io.go RenderAll, render/stl.go, render/3mf.go, helpers/sdfexp/import.go, helpers/sdfexp/bih.go")],None,["Evaluate","RenderAll"])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,x["title"]
        f.write(json.dumps(x)+"\n")

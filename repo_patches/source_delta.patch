From 4b88b7a7a90b3e0f921da0d832e1ff2cb78c60ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:45 +0000
Subject: [PATCH 01/42] fix: RenderAll keeps triangles returned together with
 io.EOF or an error

---
 render/io.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/render/io.go b/render/io.go
index 57653ad..749a2b3 100644
--- a/render/io.go
+++ b/render/io.go
@@ -15,10 +15,11 @@ func RenderAll(r Renderer) ([]r3.Triangle, error) {
 	buf := make([]r3.Triangle, 1024)
 	for {
 		nt, err = r.ReadTriangles(buf)
+		// The renderer may return triangles together with io.EOF or an error.
+		result = append(result, buf[:nt]...)
 		if err != nil {
 			break
 		}
-		result = append(result, buf[:nt]...)
 	}
 	if err == io.EOF {
 		return result, nil
-- 
2.43.0


From da26c4dfe99b9804eb646e270cd5831e0cd5fe8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:35 +0000
Subject: [PATCH 02/42] fix: binary STL reader accepts a last read which
 carries io.EOF

---
 render/stl.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/render/stl.go b/render/stl.go
index f1c5230..c2bbda8 100644
--- a/render/stl.go
+++ b/render/stl.go
@@ -195,10 +195,11 @@ func readBinarySTL(r io.Reader) (output []r3.Triangle, readErr error) {
 		var n int
 		for n < 50 {
 			nr, err := r.Read(buf[n:])
-			if err != nil {
+			n += nr
+			// A reader may return its last bytes together with io.EOF.
+			if err != nil && n < 50 {
 				return nil, err
 			}
-			n += nr
 		}
 		d.get(buf[:])
 		if err := d.validate(); err != nil {
-- 
2.43.0


From 0d68be3c21752b54000e10bced77170654259683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:02 +0000
Subject: [PATCH 03/42] fix: octree does not discard cubes which the surface
 touches at their corners

---
 render/octree_renderer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/render/octree_renderer.go b/render/octree_renderer.go
index eea2b56..ec0f73f 100644
--- a/render/octree_renderer.go
+++ b/render/octree_renderer.go
@@ -260,8 +260,9 @@ func (dc *dc3) IsEmpty(c *cube) bool {
 	// evaluate the SDF3 at the center of the cube
 	s := 1 << (c.n - 1) // half side
 	_, d := dc.Evaluate(c.AddScalar(s))
-	// compare to the center/corner distance
-	return math.Abs(d) >= dc.hdiag[c.n]
+	// compare to the center/corner distance. A cube which the surface touches at its
+	// corners is not empty: its neighbors rely on it to close the mesh.
+	return math.Abs(d) > dc.hdiag[c.n]*(1+1e-9)
 }
 
 func newDc3(s sdf.SDF3, origin r3.Vec, resolution float64, n uint) *dc3 {
-- 
2.43.0


From b68e9348c12570dbfdc86cf079618e5cf35163fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:49 +0000
Subject: [PATCH 04/42] fix: Elongate2D elongates to both sides of the origin

---
 sdf2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdf2.go b/sdf2.go
index 900ae78..16b2762 100644
--- a/sdf2.go
+++ b/sdf2.go
@@ -504,7 +504,7 @@ func Elongate2D(sdf SDF2, h r2.Vec) SDF2 {
 	s := elongate2{
 		sdf: sdf,
 		hp:  r2.Scale(0.5, h),
-		hn:  r2.Scale(0.5, h),
+		hn:  r2.Scale(-0.5, h),
 	}
 	// bounding box
 	bb := d2.Box(sdf.Bounds())
-- 
2.43.0


From a6212edddfe63027c6fa4044d8c20b1003184e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:49 +0000
Subject: [PATCH 05/42] fix: ScaleTwistExtrude scales from 1 at the bottom to
 scale at the top

---
 utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index 7303faf..57d7fed 100644
--- a/utils.go
+++ b/utils.go
@@ -233,7 +233,7 @@ func ScaleExtrude(height float64, scale r2.Vec) ExtrudeFunc {
 func ScaleTwistExtrude(height, twist float64, scale r2.Vec) ExtrudeFunc {
 	k := twist / height
 	inv := r2.Vec{X: 1 / scale.X, Y: 1 / scale.Y}
-	m := r2.Sub(inv, d2.DivElem(r2.Vec{X: 1, Y: 1}, d2.Elem(height))) // slope
+	m := d2.DivElem(r2.Sub(inv, r2.Vec{X: 1, Y: 1}), d2.Elem(height)) // slope
 	// m := inv.Sub(r2.Vec{1, 1}).DivScalar(height) // slope
 	b := r2.Add(d2.DivElem(inv, d2.Elem(2)), d2.Elem(0.5))
 	// b := inv.DivScalar(2).AddScalar(0.5) // intercept
-- 
2.43.0


From 809b9c0cf3559798f66b42e944ce26db1fa70012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:49 +0000
Subject: [PATCH 06/42] fix: bounds of twisted extrusions contain off-centre
 profiles

---
 sdf3.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/sdf3.go b/sdf3.go
index ac49676..1ca2cd0 100644
--- a/sdf3.go
+++ b/sdf3.go
@@ -137,8 +137,7 @@ func TwistExtrude3D(sdf SDF2, height, twist float64) SDF3 {
 	s.height = height / 2
 	s.extrude = TwistExtrude(height, twist)
 	// work out the bounding box
-	bb := sdf.Bounds()
-	l := r2.Norm(bb.Max)
+	l := maxNorm2(d2.Box(sdf.Bounds()))
 	s.bb = r3.Box{Min: r3.Vec{X: -l, Y: -l, Z: -s.height}, Max: r3.Vec{X: l, Y: l, Z: s.height}}
 	return &s
 }
@@ -165,11 +164,20 @@ func ScaleTwistExtrude3D(sdf SDF2, height, twist float64, scale r2.Vec) SDF3 {
 	// work out the bounding box
 	bb := d2.Box(sdf.Bounds())
 	bb = bb.Extend(d2.Box{Min: d2.MulElem(bb.Min, scale), Max: d2.MulElem(bb.Max, scale)})
-	l := r2.Norm(bb.Max)
+	l := maxNorm2(bb)
 	s.bb = r3.Box{Min: r3.Vec{X: -l, Y: -l, Z: -s.height}, Max: r3.Vec{X: l, Y: l, Z: s.height}}
 	return &s
 }
 
+// maxNorm2 returns the distance from the origin to the farthest vertex of a box.
+func maxNorm2(bb d2.Box) float64 {
+	l := 0.0
+	for _, v := range bb.Vertices() {
+		l = math.Max(l, r2.Norm(v))
+	}
+	return l
+}
+
 // Evaluate returns the minimum distance to an extrusion.
 func (s *extrude3) Evaluate(p r3.Vec) float64 {
 	// sdf for the projected 2d surface
-- 
2.43.0


From b09aae117b505cc55ea4cbc2aee60a0b8b43acb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:49 +0000
Subject: [PATCH 07/42] fix: lines, placed sets and oriented sets of one or no
 copies do not panic

---
 sdf2.go |  8 +++++++-
 sdf3.go | 12 ++++++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/sdf2.go b/sdf2.go
index 16b2762..060ade7 100644
--- a/sdf2.go
+++ b/sdf2.go
@@ -564,7 +564,10 @@ func LineOf2D(s SDF2, p0, p1 r2.Vec, pattern string) SDF2 {
 			x = r2.Add(x, dx)
 		}
 	}
-	if len(objects) == 1 {
+	switch len(objects) {
+	case 0:
+		return empty2From(s)
+	case 1:
 		return objects[0]
 	}
 	return Union2D(objects...)
@@ -582,6 +585,9 @@ func Multi2D(s SDF2, positions d2.Set) SDF2 {
 	for i, p := range positions {
 		objects[i] = Transform2D(s, Translate2D(p))
 	}
+	if len(objects) == 1 {
+		return objects[0]
+	}
 	return Union2D(objects...)
 }
 
diff --git a/sdf3.go b/sdf3.go
index 1ca2cd0..af6bb05 100644
--- a/sdf3.go
+++ b/sdf3.go
@@ -879,6 +879,12 @@ func LineOf3D(s SDF3, p0, p1 r3.Vec, pattern string) SDF3 {
 			x = r3.Add(x, dx)
 		}
 	}
+	switch len(objects) {
+	case 0:
+		return empty3From(s)
+	case 1:
+		return objects[0]
+	}
 	return Union3D(objects...)
 }
 
@@ -894,6 +900,9 @@ func Multi3D(s SDF3, positions d3.Set) SDF3 {
 	for i, p := range positions {
 		objects[i] = Transform3D(s, Translate3D(p))
 	}
+	if len(objects) == 1 {
+		return objects[0]
+	}
 	return Union3D(objects...)
 }
 
@@ -909,6 +918,9 @@ func Orient3D(s SDF3, base r3.Vec, directions d3.Set) SDF3 {
 	for i, d := range directions {
 		objects[i] = Transform3D(s, rotateToVec(base, d))
 	}
+	if len(objects) == 1 {
+		return objects[0]
+	}
 	return Union3D(objects...)
 }
 
-- 
2.43.0


From 4f950e3589af943fcce6019a0fefae65ebd8d414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:49 +0000
Subject: [PATCH 08/42] fix: bounds of a revolution by several whole turns

---
 sdf3.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdf3.go b/sdf3.go
index af6bb05..7848830 100644
--- a/sdf3.go
+++ b/sdf3.go
@@ -65,7 +65,7 @@ func Revolve3D(sdf SDF2, theta float64) SDF3 {
 	s.norm = r2.Vec{X: -sin, Y: cos}
 	// work out the bounding box
 	var vset d2.Set
-	if theta == 0 {
+	if s.theta == 0 {
 		vset = []r2.Vec{{X: 1, Y: 1}, {X: -1, Y: -1}}
 	} else {
 		vset = []r2.Vec{{X: 0, Y: 0}, {X: 1, Y: 0}, {X: cos, Y: sin}}
-- 
2.43.0


From 6552b25d2ed406681f89ae929ddcceb1b803b34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:51 +0000
Subject: [PATCH 09/42] fix: bounds of scaled and twisted extrusions contain
 profiles scaled unevenly

---
 sdf3.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sdf3.go b/sdf3.go
index 7848830..dd26b74 100644
--- a/sdf3.go
+++ b/sdf3.go
@@ -162,9 +162,9 @@ func ScaleTwistExtrude3D(sdf SDF2, height, twist float64, scale r2.Vec) SDF3 {
 	s.height = height / 2
 	s.extrude = ScaleTwistExtrude(height, twist, scale)
 	// work out the bounding box
-	bb := d2.Box(sdf.Bounds())
-	bb = bb.Extend(d2.Box{Min: d2.MulElem(bb.Min, scale), Max: d2.MulElem(bb.Max, scale)})
-	l := maxNorm2(bb)
+	// The profile is twisted before it is scaled, so any of its points may
+	// end up on the axis with the largest scale.
+	l := maxNorm2(d2.Box(sdf.Bounds())) * math.Max(1, math.Max(scale.X, scale.Y))
 	s.bb = r3.Box{Min: r3.Vec{X: -l, Y: -l, Z: -s.height}, Max: r3.Vec{X: l, Y: l, Z: s.height}}
 	return &s
 }
-- 
2.43.0


From ac0f985816e8318e303429d29fd5683ed8c8d210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:44 +0000
Subject: [PATCH 10/42] fix: cells around a lattice edge interpolate the
 identical mesh vertex

---
 render/marchingcubes.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/render/marchingcubes.go b/render/marchingcubes.go
index c187565..f2136f6 100644
--- a/render/marchingcubes.go
+++ b/render/marchingcubes.go
@@ -83,16 +83,17 @@ func mcInterpolate(p1, p2 r3.Vec, v1, v2, x float64) r3.Vec {
 	}
 }
 
-// These are the vertex pairs for the edges
+// These are the vertex pairs for the edges. Pairs go from the lower to the higher corner
+// so that the cells around an edge interpolate the identical point.
 var mcPairTable = [12][2]int{
 	{0, 1}, // 0
 	{1, 2}, // 1
-	{2, 3}, // 2
-	{3, 0}, // 3
+	{3, 2}, // 2
+	{0, 3}, // 3
 	{4, 5}, // 4
 	{5, 6}, // 5
-	{6, 7}, // 6
-	{7, 4}, // 7
+	{7, 6}, // 6
+	{4, 7}, // 7
 	{0, 4}, // 8
 	{1, 5}, // 9
 	{2, 6}, // 10
-- 
2.43.0


From b975eca9a285ae29f99636e1bba041fc62c03db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:59 +0000
Subject: [PATCH 11/42] fix: blended unions in 2D consider all their members

---
 sdf2.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sdf2.go b/sdf2.go
index 060ade7..974a6a9 100644
--- a/sdf2.go
+++ b/sdf2.go
@@ -372,9 +372,10 @@ func (s *slice2) Bounds() r2.Box {
 
 // union2 is a union of multiple SDF2 objects.
 type union2 struct {
-	sdf []SDF2
-	min MinFunc
-	bb  r2.Box
+	sdf     []SDF2
+	min     MinFunc
+	blended bool // min may depend on more than the closest objects
+	bb      r2.Box
 }
 
 // Union2D returns the union of multiple SDF2 objects.
@@ -400,6 +401,10 @@ func Union2D(sdf ...SDF2) SDF2Union {
 
 // Evaluate returns the minimum distance to the SDF2 union.
 func (s *union2) Evaluate(p r2.Vec) float64 {
+	if s.blended {
+		// objects within the blending radius contribute although they are not the closest
+		return s.EvaluateSlow(p)
+	}
 	// work out the min/max distance for every bounding box
 	vs := make([]r2.Vec, len(s.sdf))
 	minDist2 := -1.0
@@ -448,6 +453,7 @@ func (s *union2) EvaluateSlow(p r2.Vec) float64 {
 // SetMin sets the minimum function to control SDF2 blending.
 func (s *union2) SetMin(min MinFunc) {
 	s.min = min
+	s.blended = true
 }
 
 // BoundingBox returns the bounding box of an SDF2 union.
-- 
2.43.0


From 400fd3606339ebd339b1b3c522434bd536068d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:14 +0000
Subject: [PATCH 12/42] fix: orienting to the opposite direction is a rotation,
 not a point reflection

---
 matrix.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/matrix.go b/matrix.go
index 3efb58a..4430754 100644
--- a/matrix.go
+++ b/matrix.go
@@ -513,14 +513,21 @@ func rotateToVec(a, b r3.Vec) m44 {
 		return identity3d()
 	}
 
-	// are the vectors opposite (180 degrees apart)?
-	if d3.EqualWithin(r3.Scale(-1, a), b, epsilon) {
-		return m44{
-			-1, 0, 0, 0,
-			0, -1, 0, 0,
-			0, 0, -1, 0,
-			0, 0, 0, 1,
+	// are the vectors (almost) opposite (180 degrees apart)? The general case
+	// would divide by zero, so turn half way around an axis perpendicular to a,
+	// which leaves little to rotate.
+	if 1+r3.Dot(a, b) < 1e-8 {
+		axis := r3.Cross(a, b)
+		if d3.EqualWithin(axis, r3.Vec{}, epsilon) {
+			// any axis will do
+			axis = r3.Cross(a, r3.Vec{X: 1})
+			if math.Abs(a.X) > 0.5 {
+				axis = r3.Cross(a, r3.Vec{Y: 1})
+			}
 		}
+		axis = r3.Unit(axis)
+		axis = r3.Sub(axis, r3.Scale(r3.Dot(axis, a), a))
+		return rotateToVec(r3.Scale(-1, a), b).Mul(Rotate3D(axis, pi))
 	}
 	// general case
 	// See:	https://math.stackexchange.com/questions/180418/calculate-rotation-matrix-to-align-vector-a-to-vector-b-in-3d
-- 
2.43.0


From 70a8b55eea76cfcc4507a618e5a78d9757123c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:40 +0000
Subject: [PATCH 13/42] fix: polygon arcs and smoothing leave an edge or corner
 they cannot replace as it is

---
 form2/must2/poly.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/form2/must2/poly.go b/form2/must2/poly.go
index 9d79db0..8fd8d30 100644
--- a/form2/must2/poly.go
+++ b/form2/must2/poly.go
@@ -236,14 +236,18 @@ func (p *PolygonBuilder) arcVertex(i int) bool {
 	mid := r2.Scale(0.5, r2.Add(a, b))
 	// distance from a to midpoint
 	dMid := r2.Norm(r2.Sub(mid, a))
+	if dMid == 0 || radius < dMid*(1-tolerance) {
+		// unable to replace - the ends coincide or are too far apart for the radius
+		return false
+	}
 	// distance from midpoint to center of arc
-	dCenter := math.Sqrt((radius * radius) - (dMid * dMid))
+	dCenter := math.Sqrt(math.Max(0, (radius*radius)-(dMid*dMid)))
 	// center of arc
 	c := r2.Add(mid, r2.Scale(dCenter, n))
 	// work out the angle
 	ac := r2.Unit(r2.Sub(a, c))
 	bc := r2.Unit(r2.Sub(b, c))
-	dtheta := -side * math.Acos(r2.Dot(ac, bc)) / float64(v.facets)
+	dtheta := -side * math.Acos(math.Max(-1, math.Min(1, r2.Dot(ac, bc)))) / float64(v.facets)
 	// rotation matrix
 	m := sdf.Rotate(dtheta)
 	// radius vector
@@ -292,7 +296,11 @@ func (p *PolygonBuilder) smoothVertex(i int) bool {
 	// work out the angle
 	v0 := r2.Unit(r2.Sub(vp.vertex, v.vertex))
 	v1 := r2.Unit(r2.Sub(vn.vertex, v.vertex))
-	theta := math.Acos(r2.Dot(v0, v1))
+	if turn := r2.Cross(v1, v0); turn == 0 || math.IsNaN(turn) {
+		// unable to smooth - the line is straight or an edge has no length
+		return false
+	}
+	theta := math.Acos(math.Max(-1, math.Min(1, r2.Dot(v0, v1))))
 	// distance from vertex to circle tangent
 	d1 := v.radius / math.Tan(theta/2.0)
 	if d1 > r2.Norm(r2.Sub(vp.vertex, v.vertex)) || d1 > r2.Norm(r2.Sub(vn.vertex, v.vertex)) {
-- 
2.43.0


From c028ffd5c14a76c4d0b144e8721de64ce7188cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:20 +0000
Subject: [PATCH 14/42] fix: unions and polygons do not share the caller's
 slice

---
 form2/must2/poly.go | 2 +-
 sdf2.go             | 2 +-
 sdf3.go             | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/form2/must2/poly.go b/form2/must2/poly.go
index 8fd8d30..5e43c7d 100644
--- a/form2/must2/poly.go
+++ b/form2/must2/poly.go
@@ -27,7 +27,7 @@ func Polygon(vertex []r2.Vec) sdf.SDF2 {
 	}
 
 	// Close the loop (if necessary)
-	s.vertex = vertex
+	s.vertex = append([]r2.Vec(nil), vertex...) // the caller keeps its slice
 	if !d2.EqualWithin(vertex[0], vertex[n-1], tolerance) {
 		s.vertex = append(s.vertex, vertex[0])
 	}
diff --git a/sdf2.go b/sdf2.go
index 974a6a9..41ee26c 100644
--- a/sdf2.go
+++ b/sdf2.go
@@ -383,7 +383,7 @@ func Union2D(sdf ...SDF2) SDF2Union {
 	if len(sdf) <= 1 {
 		panic("union requires at least 2 sdfs")
 	}
-	s := union2{sdf: sdf}
+	s := union2{sdf: append([]SDF2(nil), sdf...)} // the caller keeps its slice
 	for _, x := range s.sdf {
 		if x == nil {
 			panic("nil argument found")
diff --git a/sdf3.go b/sdf3.go
index dd26b74..d0eb62e 100644
--- a/sdf3.go
+++ b/sdf3.go
@@ -429,7 +429,7 @@ func Union3D(sdf ...SDF3) SDF3Union {
 		panic("union require at least 2 sdfs")
 	}
 	s := union3{
-		sdf: sdf,
+		sdf: append([]SDF3(nil), sdf...), // the caller keeps its slice
 	}
 	for i, x := range s.sdf {
 		if x == nil {
-- 
2.43.0


From 961bc74716abae8eb5eec5b04f42c608c51658bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:20 +0000
Subject: [PATCH 15/42] fix: evaluating an imported model does not write to the
 model

---
 helpers/sdfexp/spatial3.go | 47 ++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 22 deletions(-)

diff --git a/helpers/sdfexp/spatial3.go b/helpers/sdfexp/spatial3.go
index 7882f5f..f5d47eb 100644
--- a/helpers/sdfexp/spatial3.go
+++ b/helpers/sdfexp/spatial3.go
@@ -13,14 +13,12 @@ import (
 // with special focus on kdTriangle type.
 
 type meshTriangle struct {
-	C           r3.Vec          // Centroid
-	lastFeature triangleFeature // result from last distance calculation
-	lastClosest r3.Vec
-	Vertices    [3]int
-	m           *mesh        // to be able to construct triangle geometry.
-	N           r3.Vec       // Pseudo Face normal (scaled by 2*pi)
-	T           d3.Transform // Canalis transformation matrix.
-	InvT        d3.Transform // inverse of T
+	C        r3.Vec // Centroid
+	Vertices [3]int
+	m        *mesh        // to be able to construct triangle geometry.
+	N        r3.Vec       // Pseudo Face normal (scaled by 2*pi)
+	T        d3.Transform // Canalis transformation matrix.
+	InvT     d3.Transform // inverse of T
 }
 
 func (t *meshTriangle) Compare(c kdtree.Comparable, d kdtree.Dim) float64 {
@@ -46,7 +44,14 @@ func (t *meshTriangle) Distance(c kdtree.Comparable) float64 {
 		}
 		point, t = t, point // make sure `t` is the triangle.
 	}
-	pxy := t.T.Transform(point.C)
+	closest, _ := t.closest(point.C)
+	return r3.Norm2(r3.Sub(point.C, closest))
+}
+
+// closest returns the point of the triangle closest to p and the
+// feature of the triangle it lies on.
+func (t *meshTriangle) closest(p r3.Vec) (r3.Vec, triangleFeature) {
+	pxy := t.T.Transform(p)
 	txy := t.triangle()
 	for i := range txy {
 		txy[i] = t.T.Transform(txy[i])
@@ -54,30 +59,28 @@ func (t *meshTriangle) Distance(c kdtree.Comparable) float64 {
 	// We find the closest point to the transformed triangle
 	// in 2D space and then transform the results back to 3D space
 	onTriangle, feat := closestOnTriangle2(lowerVec(pxy), [3]r2.Vec{lowerVec(txy[0]), lowerVec(txy[1]), lowerVec(txy[2])})
-	t.lastFeature = feat
-	t.lastClosest = t.InvT.Transform(r3.Vec{X: onTriangle.X, Y: onTriangle.Y})
-	return r3.Norm2(r3.Sub(point.C, t.lastClosest))
+	return t.InvT.Transform(r3.Vec{X: onTriangle.X, Y: onTriangle.Y}), feat
 }
 
 // CopySign returns a value with the magnitude of dist
-// and the sign depending on whether the last call to Distance was
-// inside or outside the solid defined by the mesh (SDF).
-// Copysign expects p to be the same vector as last call to Distance.
+// and the sign depending on whether p is inside or outside the
+// solid defined by the mesh (SDF), t being the triangle closest to p.
 func (t *meshTriangle) CopySign(p r3.Vec, dist float64) (signed float64) {
-	if t.lastFeature <= featureV2 {
-		// Distance last called nearest to triangle vertex.
-		vertex := t.m.vertices[t.Vertices[t.lastFeature]]
+	closest, feature := t.closest(p)
+	if feature <= featureV2 {
+		// Nearest to triangle vertex.
+		vertex := t.m.vertices[t.Vertices[feature]]
 		signed = r3.Dot(vertex.N, r3.Sub(p, vertex.V))
-	} else if t.lastFeature <= featureE2 {
-		vertex1 := t.lastFeature - 3
+	} else if feature <= featureE2 {
+		vertex1 := feature - 3
 		edge := [2]int{t.Vertices[vertex1], t.Vertices[(vertex1+1)%3]}
 		if edge[0] > edge[1] {
 			edge[0], edge[1] = edge[1], edge[0]
 		}
 		norm := t.m.pseudoEdgeN[edge]
-		signed = r3.Dot(norm, r3.Sub(p, t.lastClosest))
+		signed = r3.Dot(norm, r3.Sub(p, closest))
 	} else {
-		signed = r3.Dot(t.N, r3.Sub(p, t.lastClosest))
+		signed = r3.Dot(t.N, r3.Sub(p, closest))
 	}
 	return math.Copysign(dist, signed)
 }
-- 
2.43.0


From 363ea04ea1b5eb370d05c8483e131a07fed483e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:42 +0000
Subject: [PATCH 16/42] fix: the closest vertex of a triangle's edge is the one
 on the query's side

---
 helpers/sdfexp/spatial2.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/helpers/sdfexp/spatial2.go b/helpers/sdfexp/spatial2.go
index f6c8459..01c2d19 100644
--- a/helpers/sdfexp/spatial2.go
+++ b/helpers/sdfexp/spatial2.go
@@ -66,12 +66,12 @@ func distToLine(p r2.Vec, ln [2]r2.Vec) (r2.Vec, int) {
 	perpend2 := r2.Add(ln[1], perpendicular)
 	e2 := edgeEquation(p, [2]r2.Vec{ln[1], perpend2})
 	if e2 > 0 {
-		return r2.Sub(p, ln[1]), 0
+		return r2.Sub(p, ln[1]), 1
 	}
 	perpend1 := r2.Add(ln[0], perpendicular)
 	e1 := edgeEquation(p, [2]r2.Vec{ln[0], perpend1})
 	if e1 < 0 {
-		return r2.Sub(p, ln[0]), 1
+		return r2.Sub(p, ln[0]), 0
 	}
 	e3 := distToLineInfinite(p, ln) //edgeEquation(p, line)
 	return r2.Scale(-e3, r2.Unit(perpendicular)), 2
-- 
2.43.0


From 7058395759b463219c228d8537354bdf7e5e266d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:42 +0000
Subject: [PATCH 17/42] fix: nearest triangle of an imported model accounts for
 the extent of triangles

---
 helpers/sdfexp/import.go | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/helpers/sdfexp/import.go b/helpers/sdfexp/import.go
index 10fcbc7..7817890 100644
--- a/helpers/sdfexp/import.go
+++ b/helpers/sdfexp/import.go
@@ -31,11 +31,33 @@ type ImportedSDF3 struct {
 }
 
 func (s ImportedSDF3) Evaluate(q r3.Vec) float64 {
-	tri, dist2 := s.tree.Nearest(&meshTriangle{C: q})
-	kd := tri.(*meshTriangle)
+	kd, dist2 := s.nearest(s.tree.Root, &meshTriangle{C: q}, nil, math.MaxFloat64)
 	return kd.CopySign(q, math.Sqrt(dist2))
 }
 
+// nearest returns the triangle below n closest to q and its squared distance if
+// it is closer than the best triangle found so far. The tree partitions the
+// centroids, triangles reach across the partition planes.
+func (s ImportedSDF3) nearest(n *kdtree.Node, q, best *meshTriangle, dist2 float64) (*meshTriangle, float64) {
+	if n == nil {
+		return best, dist2
+	}
+	tri := n.Point.(*meshTriangle)
+	if d := q.Distance(tri); best == nil || d < dist2 {
+		best, dist2 = tri, d
+	}
+	c := q.Compare(tri, n.Plane)
+	near, far := n.Left, n.Right
+	if c > 0 {
+		near, far = far, near
+	}
+	best, dist2 = s.nearest(near, q, best, dist2)
+	if math.Abs(c)-s.mesh.reach < math.Sqrt(dist2) {
+		best, dist2 = s.nearest(far, q, best, dist2)
+	}
+	return best, dist2
+}
+
 func (s ImportedSDF3) Bounds() r3.Box {
 	return r3.Box{
 		Min: s.mesh.bb.Min,
@@ -46,6 +68,8 @@ func (s ImportedSDF3) Bounds() r3.Box {
 type mesh struct {
 	// bb is the bounding box of the whole mesh.
 	bb        d3.Box
+	// reach is the largest distance of a vertex to the centroid of its triangle.
+	reach     float64
 	vertices  []pseudoVertex
 	triangles []meshTriangle
 	// access to edge pseudo normals using vertex index.
@@ -124,6 +148,7 @@ func newMesh(triangles []r3.Triangle, tol float64) (*mesh, error) {
 					V: vert,
 				})
 			}
+			m.reach = math.Max(m.reach, r3.Norm(r3.Sub(m.vertices[vertexIdx].V, sdfT.C)))
 			// Calculate vertex pseudo normal
 			s1, s2 := r3.Sub(vert, tri[(j+1)%3]), r3.Sub(vert, tri[(j+2)%3])
 			alpha := math.Acos(r3.Cos(s1, s2))
-- 
2.43.0


From b49ff96a22feee442b8bc80160d1dd96be92ea4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:43 +0000
Subject: [PATCH 18/42] fix: imported models use the normals of the closest
 edge or vertex for the sign

---
 helpers/sdfexp/bih.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/helpers/sdfexp/bih.go b/helpers/sdfexp/bih.go
index de24743..dcb1702 100644
--- a/helpers/sdfexp/bih.go
+++ b/helpers/sdfexp/bih.go
@@ -198,7 +198,30 @@ func (bi *BIH) minDistTri(target r3.Vec, idx int) (r3.Vec, int) {
 		r3.Add(
 			r3.Scale(p[0], edge0),
 			r3.Scale(p[1], edge1)))
-	return r3.Sub(target, closest), FACE | idx
+	return r3.Sub(target, closest), bi.feature(idx, p)
+}
+
+// feature returns the feature of triangle idx which contains the point
+// of barycentric coordinates (1-p[0]-p[1], p[0], p[1]).
+func (bi *BIH) feature(idx int, p [2]float64) int {
+	on0 := p[0] == 0      // edge from vertex 2 to 0
+	on1 := p[1] == 0      // edge from vertex 0 to 1
+	on2 := p[0] >= 1-p[1] // edge from vertex 1 to 2
+	switch {
+	case on0 && on1:
+		return VERTEX | bi.Indices[idx][0]
+	case on1 && on2:
+		return VERTEX | bi.Indices[idx][1]
+	case on0 && on2:
+		return VERTEX | bi.Indices[idx][2]
+	case on1:
+		return EDGE | (3 * idx)
+	case on2:
+		return EDGE | (3*idx + 1)
+	case on0:
+		return EDGE | (3*idx + 2)
+	}
+	return FACE | idx
 }
 
 func (bi *BIH) getMinEdge02(a11 float64, b1 float64) (p [2]float64) {
-- 
2.43.0


From 18b3e1f5c4daeb45b18dc230275c6fc7468fe47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:32 +0000
Subject: [PATCH 19/42] fix: triangles with a right angle do not hide from
 points level with their edge

---
 helpers/sdfexp/bih.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/helpers/sdfexp/bih.go b/helpers/sdfexp/bih.go
index dcb1702..b293fe0 100644
--- a/helpers/sdfexp/bih.go
+++ b/helpers/sdfexp/bih.go
@@ -117,7 +117,7 @@ func (bi *BIH) minDistTri(target r3.Vec, idx int) (r3.Vec, int) {
 	var dt1, h0, h1 float64
 
 	if f00 >= 0 {
-		if f01 > 0 {
+		if f01 >= 0 {
 			p = bi.getMinEdge02(a11, b1)
 		} else {
 			p0[0] = 0
-- 
2.43.0


From 209b4f8645f51118d93e9e46da6ba1b5cc9e8b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:30 +0000
Subject: [PATCH 20/42] fix: the taper of a screw is an angle, its radius
 changes with the tangent

---
 form3/obj3/thread/thread.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/form3/obj3/thread/thread.go b/form3/obj3/thread/thread.go
index 61a7ae9..0a7c933 100644
--- a/form3/obj3/thread/thread.go
+++ b/form3/obj3/thread/thread.go
@@ -83,7 +83,7 @@ func (s *screw) Evaluate(p r3.Vec) float64 {
 	// the distance from the 3d z-axis maps to the 2d y-axis
 	p0.Y = math.Sqrt(p.X*p.X + p.Y*p.Y)
 	if s.taper != 0 {
-		p0.Y += p.Z * math.Atan(s.taper)
+		p0.Y += p.Z * math.Tan(s.taper)
 	}
 	// the x/y angle and the z-height map to the 2d x-axis
 	// ie: the position along thread pitch
-- 
2.43.0


From e39b1e7aa414ce7e202fb9e2fd64377a2d55fe94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:30 +0000
Subject: [PATCH 21/42] fix: bounds of a screw with negative taper contain it

---
 form3/obj3/thread/thread.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/form3/obj3/thread/thread.go b/form3/obj3/thread/thread.go
index 0a7c933..60111c2 100644
--- a/form3/obj3/thread/thread.go
+++ b/form3/obj3/thread/thread.go
@@ -70,8 +70,8 @@ func Screw(length float64, thread Threader) (sdf.SDF3, error) {
 	// The max-y axis of the sdf2 bounding box is the radius of the thread.
 	bb := s.thread.Bounds()
 	r := bb.Max.Y
-	// add the taper increment
-	r += s.length * math.Tan(s.taper)
+	// add the taper increment. A negative taper widens the screw upwards.
+	r += s.length * math.Abs(math.Tan(s.taper))
 	s.bb = r3.Box{Min: r3.Vec{X: -r, Y: -r, Z: -s.length}, Max: r3.Vec{X: r, Y: r, Z: s.length}}
 	return &s, nil
 }
-- 
2.43.0


From bf451e5d2ec628307314bc937fc6fc8e4862c068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:14 +0000
Subject: [PATCH 22/42] fix: corner nodes of the tetrahedral lattice are at the
 corners they are named after

---
 helpers/sdfexp/bccmesh.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/helpers/sdfexp/bccmesh.go b/helpers/sdfexp/bccmesh.go
index 3c47b3f..de72216 100644
--- a/helpers/sdfexp/bccmesh.go
+++ b/helpers/sdfexp/bccmesh.go
@@ -22,7 +22,7 @@ type bccMatrix struct {
 
 type bccidx int
 
-// BCC node indices. follow same ordering as BoundingBox.Vertices.
+// BCC node indices. follow same ordering as r3.Box.Vertices.
 const (
 	i000 bccidx = iota
 	ix00
@@ -144,7 +144,7 @@ func (t *bccMesh) meshTetraBCC() (nodes []r3.Vec, tetras [][4]int) {
 	tetras = make([][4]int, 0, len(t.matrix.nodes))
 	t.matrix.foreach(func(_, _, _ int, node *bccNode) {
 		bb := d3.Box(node.box())
-		vert := bb.Vertices()
+		vert := r3.Box(bb).Vertices()
 		nctr := n
 		node.bccnod[ictr] = nctr
 		n++
-- 
2.43.0


From 654efbda672beb40ff738695e566bff045616ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:26 +0000
Subject: [PATCH 23/42] fix: smoothing of tetrahedral meshes leaves boundary
 nodes and unused nodes alone

---
 helpers/sdfexp/omesh.go | 41 +++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/helpers/sdfexp/omesh.go b/helpers/sdfexp/omesh.go
index 671ad40..e803e1b 100644
--- a/helpers/sdfexp/omesh.go
+++ b/helpers/sdfexp/omesh.go
@@ -26,6 +26,9 @@ type omesh struct {
 
 func newOmesh(nodes []r3.Vec, tetras [][4]int) *omesh {
 	onodes := make([]onode, len(nodes))
+	for i := range nodes {
+		onodes[i].pos = nodes[i]
+	}
 	for tetidx, tetra := range tetras {
 		for i := range tetra {
 			n := tetra[i]
@@ -36,15 +39,16 @@ func newOmesh(nodes []r3.Vec, tetras [][4]int) *omesh {
 			on.tetras = append(on.tetras, otetra{tetidx: tetidx, hint: i})
 			// Add tetrahedron's incident nodes to onode connectivity if not present.
 			for j := 0; j < 3; j++ {
-				var existing int
-				c := tetra[(i+j+1)%3]
+				c := tetra[(i+j+1)%4]
 				// Lot of work goes into making sure connectivity is unique list.
-				for _, existing = range on.connectivity {
+				found := false
+				for _, existing := range on.connectivity {
 					if c == existing {
+						found = true
 						break
 					}
 				}
-				if c != existing {
+				if !found {
 					on.connectivity = append(on.connectivity, c)
 				}
 			}
@@ -65,24 +69,29 @@ func (om *omesh) foreach(f func(i int, on *onode)) {
 	}
 }
 
+// innerTetras is the number of tetrahedrons around a node in the interior of a BCC mesh.
+const innerTetras = 4 * 6
+
 // Compresses mesh and applies laplacian smoothing
 func (om *omesh) compressAndSmooth(compress float64, s sdf.SDF3) {
 	if compress > 1 || compress < 0 {
 		panic("compress must be positive and less equal to 1")
 	}
-	boundary := make(map[int]struct{})
-	// first we compress boundary nodes towards sdf surface.
-	for i, nod := range om.nodes {
+	// first we compress outer nodes towards sdf surface.
+	om.foreach(func(i int, nod *onode) {
 		d := s.Evaluate(nod.pos)
-		if d > 0 {
-			boundary[i] = struct{}{}
-			n := r3.Scale(compress*d, r3.Unit(gradient(nod.pos, 1e-6, s.Evaluate)))
-			om.nodes[i].pos = r3.Sub(nod.pos, n)
+		if d <= 0 {
+			return
 		}
-	}
+		grad := gradient(nod.pos, 1e-6, s.Evaluate)
+		if grad == (r3.Vec{}) {
+			return // no direction leads to the surface.
+		}
+		nod.pos = r3.Sub(nod.pos, r3.Scale(compress*d, r3.Unit(grad)))
+	})
 	// Apply laplacian smoothing to all non-boundary nodes after compression.
-	for i, nod := range om.nodes {
-		if _, ok := boundary[i]; ok {
+	om.foreach(func(i int, nod *onode) {
+		if len(nod.tetras) < innerTetras {
 			return // don't smooth boundary nodes.
 		}
 		var sum r3.Vec
@@ -90,6 +99,6 @@ func (om *omesh) compressAndSmooth(compress float64, s sdf.SDF3) {
 			vi := om.nodes[conn].pos
 			sum = r3.Add(sum, vi)
 		}
-		om.nodes[i].pos = r3.Scale(1/float64(len(nod.connectivity)), sum)
-	}
+		nod.pos = r3.Scale(1/float64(len(nod.connectivity)), sum)
+	})
 }
-- 
2.43.0


From f81a19fa031f31a4ee4d62c42abb1d66e81dcde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:26 +0000
Subject: [PATCH 24/42] fix: optimising a tetrahedral mesh does not turn its
 tetrahedrons inside out

---
 helpers/sdfexp/omesh.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/helpers/sdfexp/omesh.go b/helpers/sdfexp/omesh.go
index e803e1b..ec5a1a2 100644
--- a/helpers/sdfexp/omesh.go
+++ b/helpers/sdfexp/omesh.go
@@ -87,7 +87,7 @@ func (om *omesh) compressAndSmooth(compress float64, s sdf.SDF3) {
 		if grad == (r3.Vec{}) {
 			return // no direction leads to the surface.
 		}
-		nod.pos = r3.Sub(nod.pos, r3.Scale(compress*d, r3.Unit(grad)))
+		om.move(nod, r3.Sub(nod.pos, r3.Scale(compress*d, r3.Unit(grad))))
 	})
 	// Apply laplacian smoothing to all non-boundary nodes after compression.
 	om.foreach(func(i int, nod *onode) {
@@ -99,6 +99,29 @@ func (om *omesh) compressAndSmooth(compress float64, s sdf.SDF3) {
 			vi := om.nodes[conn].pos
 			sum = r3.Add(sum, vi)
 		}
-		nod.pos = r3.Scale(1/float64(len(nod.connectivity)), sum)
+		om.move(nod, r3.Scale(1/float64(len(nod.connectivity)), sum))
 	})
 }
+
+// move sets the position of the node unless that turns one of its tetrahedrons
+// inside out or flat.
+func (om *omesh) move(nod *onode, pos r3.Vec) {
+	old := nod.pos
+	for _, t := range nod.tetras {
+		nod.pos = old
+		vol := om.volume6(t.tetidx)
+		nod.pos = pos
+		if !(om.volume6(t.tetidx)/vol >= 1e-3) {
+			nod.pos = old
+			return
+		}
+	}
+}
+
+// volume6 returns six times the signed volume of a tetrahedron.
+func (om *omesh) volume6(tetidx int) float64 {
+	t := om.tetras[tetidx]
+	p := om.nodes[t[0]].pos
+	a, b, c := r3.Sub(om.nodes[t[1]].pos, p), r3.Sub(om.nodes[t[2]].pos, p), r3.Sub(om.nodes[t[3]].pos, p)
+	return r3.Dot(a, r3.Cross(b, c))
+}
-- 
2.43.0


From 3651ba684252d6219bd4f5a7a99c191ea6c09e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:06 +0000
Subject: [PATCH 25/42] fix: must2.Polygon with a repeated vertex evaluated to
 NaN

---
 form2/must2/poly.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/form2/must2/poly.go b/form2/must2/poly.go
index 5e43c7d..9b2e603 100644
--- a/form2/must2/poly.go
+++ b/form2/must2/poly.go
@@ -26,8 +26,17 @@ func Polygon(vertex []r2.Vec) sdf.SDF2 {
 		panic("number of vertices < 3")
 	}
 
+	// Copy the vertices (the caller keeps its slice). A repeated vertex makes
+	// no line: it has no direction.
+	for i, v := range vertex {
+		if i == 0 || v != vertex[i-1] {
+			s.vertex = append(s.vertex, v)
+		}
+	}
+	if len(s.vertex) < 3 {
+		panic("number of vertices < 3")
+	}
 	// Close the loop (if necessary)
-	s.vertex = append([]r2.Vec(nil), vertex...) // the caller keeps its slice
 	if !d2.EqualWithin(vertex[0], vertex[n-1], tolerance) {
 		s.vertex = append(s.vertex, vertex[0])
 	}
-- 
2.43.0


From 0fa5352fed20b3726a7a834cac3c57e05c05991f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:07 +0000
Subject: [PATCH 26/42] fix: must2.Box and must2.Line accepted negative sizes

---
 form2/must2/basic.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/form2/must2/basic.go b/form2/must2/basic.go
index 92366e9..e695973 100644
--- a/form2/must2/basic.go
+++ b/form2/must2/basic.go
@@ -46,6 +46,12 @@ type box struct {
 
 // Box returns a 2d box.
 func Box(size r2.Vec, round float64) *box {
+	if d2.LTZero(size) {
+		panic("size < 0")
+	}
+	if round < 0 {
+		panic("round < 0")
+	}
 	size = r2.Scale(0.5, size)
 	s := box{}
 	s.size = r2.Sub(size, d2.Elem(round))
@@ -75,6 +81,12 @@ type line struct {
 
 // Line returns a line from (-l/2,0) to (l/2,0).
 func Line(l, round float64) *line {
+	if l < 0 {
+		panic("l < 0")
+	}
+	if round < 0 {
+		panic("round < 0")
+	}
 	s := line{}
 	s.l = l / 2
 	s.round = round
-- 
2.43.0


From 83e7957827e7394ca3b03a4dcd0d2c1521c1a751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:07 +0000
Subject: [PATCH 27/42] fix: must3.Cone accepted negative radii

---
 form3/must3/cylinders.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/form3/must3/cylinders.go b/form3/must3/cylinders.go
index 8ff27d7..18f2b30 100644
--- a/form3/must3/cylinders.go
+++ b/form3/must3/cylinders.go
@@ -139,6 +139,9 @@ func Cone(height, r0, r1, round float64) *cone {
 	if height <= 0 {
 		panic("height <= 0")
 	}
+	if r0 < 0 || r1 < 0 {
+		panic("radius < 0")
+	}
 	if round < 0 {
 		panic("round < 0")
 	}
-- 
2.43.0


From 1f6d0d858f4f20322f566fb9d44783485e2f0898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:07 +0000
Subject: [PATCH 28/42] fix: form3.ChamferedCylinder panicked instead of
 returning an error

---
 form3/basic.go | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/form3/basic.go b/form3/basic.go
index 6f7b901..329a7fa 100644
--- a/form3/basic.go
+++ b/form3/basic.go
@@ -2,11 +2,9 @@ package form3
 
 import (
 	"fmt"
-	"math"
 	"runtime/debug"
 
 	"github.com/soypat/sdf"
-	form2 "github.com/soypat/sdf/form2/must2"
 	"github.com/soypat/sdf/form3/must3"
 	"gonum.org/v1/gonum/spatial/r3"
 )
@@ -78,16 +76,14 @@ func Cone(height, r0, r1, round float64) (s sdf.SDF3, err error) {
 }
 
 // ChamferedCylinder intersects a chamfered cylinder with an SDF3.
-func ChamferedCylinder(s sdf.SDF3, kb, kt float64) (sdf.SDF3, error) {
-	// get the length and radius from the bounding box
-	l := s.Bounds().Max.Z
-	r := s.Bounds().Max.X
-	p := form2.NewPolygon()
-	p.Add(0, -l)
-	p.Add(r, -l).Chamfer(r * kb)
-	p.Add(r, l).Chamfer(r * kt)
-	p.Add(0, l)
-	s0 := form2.Polygon(p.Vertices())
-	cc := sdf.Revolve3D(s0, 2*math.Pi)
-	return sdf.Intersect3D(s, cc), nil
+func ChamferedCylinder(s sdf.SDF3, kb, kt float64) (s3 sdf.SDF3, err error) {
+	defer func() {
+		if a := recover(); a != nil {
+			err = &shapeErr{
+				panicObj: a,
+				stack:    string(debug.Stack()),
+			}
+		}
+	}()
+	return must3.ChamferedCylinder(s, kb, kt), err
 }
-- 
2.43.0


From 5f61798a245abea122c13a2e5588d9445fcf456c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:43 +0000
Subject: [PATCH 29/42] fix: thread.Screw accepted threads without a pitch or a
 radius

---
 form3/obj3/thread/thread.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/form3/obj3/thread/thread.go b/form3/obj3/thread/thread.go
index 60111c2..e7be405 100644
--- a/form3/obj3/thread/thread.go
+++ b/form3/obj3/thread/thread.go
@@ -60,6 +60,12 @@ func Screw(length float64, thread Threader) (sdf.SDF3, error) {
 		return nil, err
 	}
 	params := thread.ThreadParams()
+	if !(params.Pitch > 0) || math.IsInf(params.Pitch, 1) {
+		return nil, errors.New("need finite pitch greater than zero")
+	}
+	if !(tsdf.Bounds().Max.Y > 0) {
+		return nil, errors.New("need thread profile of positive radius")
+	}
 	s := screw{}
 	s.thread = tsdf
 	s.pitch = params.Pitch
-- 
2.43.0


From 95c94f8931e9e9df9a1cd8227fb6ffb0f93f4b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:44 +0000
Subject: [PATCH 30/42] fix: thread.Knurl panicked instead of returning an
 error

---
 form3/obj3/thread/knurl.go | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/form3/obj3/thread/knurl.go b/form3/obj3/thread/knurl.go
index 94365d6..8bbfaed 100644
--- a/form3/obj3/thread/knurl.go
+++ b/form3/obj3/thread/knurl.go
@@ -1,6 +1,7 @@
 package thread
 
 import (
+	"errors"
 	"math"
 
 	"github.com/soypat/sdf"
@@ -44,24 +45,22 @@ func (k KnurlParams) ThreadParams() Parameters {
 
 // Knurl returns a knurled cylinder.
 func Knurl(k KnurlParams) (s sdf.SDF3, err error) {
-	// TODO fix error handling.
-	if k.Length <= 0 {
-		panic("Length <= 0")
+	switch {
+	case k.Length <= 0:
+		err = errors.New("Length <= 0")
+	case k.Radius <= 0:
+		err = errors.New("Radius <= 0")
+	case k.Pitch <= 0:
+		err = errors.New("Pitch <= 0")
+	case k.Height <= 0:
+		err = errors.New("Height <= 0")
+	case k.Theta < 0:
+		err = errors.New("Theta < 0")
+	case k.Theta >= 90.*math.Pi/180.:
+		err = errors.New("Theta >= 90")
 	}
-	if k.Radius <= 0 {
-		panic("Radius <= 0")
-	}
-	if k.Pitch <= 0 {
-		panic("Pitch <= 0")
-	}
-	if k.Height <= 0 {
-		panic("Height <= 0")
-	}
-	if k.Theta < 0 {
-		panic("Theta < 0")
-	}
-	if k.Theta >= 90.*math.Pi/180. {
-		panic("Theta >= 90")
+	if err != nil {
+		return nil, err
 	}
 	// Work out the number of starts using the desired helix angle.
 	k.starts = int(2 * math.Pi * k.Radius * math.Tan(k.Theta) / k.Pitch)
-- 
2.43.0


From ed545daeb8aa16e160e27c9488ccda708a2edd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:44 +0000
Subject: [PATCH 31/42] fix: thread.HexHead accepted negative dimensions

---
 form3/obj3/thread/hexhead.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/form3/obj3/thread/hexhead.go b/form3/obj3/thread/hexhead.go
index 937ab59..cc974c0 100644
--- a/form3/obj3/thread/hexhead.go
+++ b/form3/obj3/thread/hexhead.go
@@ -1,6 +1,7 @@
 package thread
 
 import (
+	"errors"
 	"math"
 
 	"github.com/soypat/sdf"
@@ -14,6 +15,9 @@ import (
 // HexHead3D returns the rounded hex head for a nut or bolt.
 // - round rounding control (t)top, (b)bottom, (tb)top/bottom
 func HexHead(radius float64, height float64, round string) (s sdf.SDF3, err error) {
+	if radius <= 0 || height <= 0 {
+		return nil, errors.New("need hex head radius and height greater than zero")
+	}
 	// basic hex body
 	cornerRound := radius * 0.08
 	nagon, err := form2.Nagon(6, radius-cornerRound)
-- 
2.43.0


From ebe2b421115162b362a142b021c2f02e2e461924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:45 +0000
Subject: [PATCH 32/42] fix: thread.Bolt went on after finding invalid
 parameters

---
 form3/obj3/thread/bolt.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/form3/obj3/thread/bolt.go b/form3/obj3/thread/bolt.go
index 38058a0..953923a 100644
--- a/form3/obj3/thread/bolt.go
+++ b/form3/obj3/thread/bolt.go
@@ -31,6 +31,9 @@ func Bolt(k BoltParms) (s sdf.SDF3, err error) {
 	case k.Tolerance < 0:
 		err = errors.New("tolerance < 0")
 	}
+	if err != nil {
+		return nil, err
+	}
 	param := k.Thread.ThreadParams()
 	// head
 	var head sdf.SDF3
@@ -42,12 +45,15 @@ func Bolt(k BoltParms) (s sdf.SDF3, err error) {
 	}
 	switch k.Style {
 	case NutHex:
-		head, _ = HexHead(hr, hh, "b")
+		head, err = HexHead(hr, hh, "b")
 	case NutKnurl:
-		head, _ = KnurledHead(hr, hh, hr*0.25)
+		head, err = KnurledHead(hr, hh, hr*0.25)
 	default:
 		return nil, errors.New("unknown style for bolt: " + k.Style.String())
 	}
+	if err != nil {
+		return nil, err
+	}
 
 	// shank
 	shankLength := k.ShankLength + hh/2
-- 
2.43.0


From 2c1d98fa5e75bde7860861948cd4b45d35a3315a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:36 +0000
Subject: [PATCH 33/42] fix: obj3.Standoff panicked without a hole and on
 invalid dimensions

---
 form3/obj3/standoff.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/form3/obj3/standoff.go b/form3/obj3/standoff.go
index e0a2b36..e595672 100644
--- a/form3/obj3/standoff.go
+++ b/form3/obj3/standoff.go
@@ -1,6 +1,7 @@
 package obj3
 
 import (
+	"errors"
 	"math"
 
 	"github.com/soypat/sdf"
@@ -25,6 +26,17 @@ type StandoffParams struct {
 
 // Standoff returns a single board standoff.
 func Standoff(k StandoffParams) (s sdf.SDF3, err error) {
+	switch {
+	case k.PillarHeight <= 0 || k.PillarDiameter <= 0:
+		err = errors.New("pillar dimension <= 0")
+	case k.HoleDiameter < 0:
+		err = errors.New("hole diameter < 0")
+	case k.NumberWebs > 0 && (k.WebHeight <= 0 || k.WebDiameter <= 0 || k.WebWidth <= 0):
+		err = errors.New("web dimension <= 0")
+	}
+	if err != nil {
+		return nil, err
+	}
 	s = pillar(k)
 	if k.NumberWebs > 0 {
 		webs := sdf.RotateCopy3D(pillarWeb(k), k.NumberWebs)
@@ -35,6 +47,9 @@ func Standoff(k StandoffParams) (s sdf.SDF3, err error) {
 	}
 	// Add the pillar hole/stub
 	hole := pillarHole(k)
+	if hole == nil {
+		return s, nil
+	}
 	if k.HoleDepth >= 0.0 {
 		s = sdf.Difference3D(s, hole)
 	} else {
-- 
2.43.0


From 262b61d74c4314d1fbab72cb403fc97e3d7846a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:36 +0000
Subject: [PATCH 34/42] fix: obj2 panels panicked on invalid dimensions and on
 the default hole diameter

---
 form2/obj2/panel.go | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/form2/obj2/panel.go b/form2/obj2/panel.go
index b20e43b..fb68d6c 100644
--- a/form2/obj2/panel.go
+++ b/form2/obj2/panel.go
@@ -1,8 +1,11 @@
 package obj2
 
 import (
+	"errors"
+
 	"github.com/soypat/sdf"
 	form2 "github.com/soypat/sdf/form2/must2"
+	"github.com/soypat/sdf/internal/d2"
 	"gonum.org/v1/gonum/spatial/r2"
 )
 
@@ -42,6 +45,12 @@ type PanelParams struct {
 
 // Panel returns a 2d panel with holes on the edges.
 func Panel(k PanelParams) (s sdf.SDF2, err error) {
+	if d2.LTEZero(k.Size) {
+		return nil, errors.New("panel size <= 0")
+	}
+	if k.CornerRadius < 0 {
+		return nil, errors.New("corner radius < 0")
+	}
 	// panel
 	s0 := form2.Box(k.Size, k.CornerRadius)
 	if k.HoleDiameter <= 0.0 {
@@ -97,18 +106,20 @@ func (k EuroRackParams) USize() float64 {
 
 // EuroRackPanel returns a 2d eurorack synthesizer module panel (in mm).
 func EuroRackPanel(k EuroRackParams) (s sdf.SDF2, err error) {
-	// TODO use error handling.
-	if k.U < 1 {
-		panic("k.U < 1")
-	}
-	if k.HP <= 1 {
-		panic("k.HP <= 1")
+	switch {
+	case k.U < 1:
+		err = errors.New("k.U < 1")
+	case k.HP <= 1:
+		err = errors.New("k.HP <= 1")
+	case k.CornerRadius < 0:
+		err = errors.New("k.CornerRadius < 0")
+	case k.HoleDiameter < 0:
+		err = errors.New("k.HoleDiameter < 0")
 	}
-	if k.CornerRadius < 0 {
-		panic("k.CornerRadius < 0")
+	if err != nil {
+		return nil, err
 	}
-	if k.HoleDiameter <= 0 {
-		panic("got <=0 hole diameter. file issue at github.com/soypat/sdf if this panic is incorrect")
+	if k.HoleDiameter == 0 {
 		k.HoleDiameter = erHoleDiameter
 	}
 
-- 
2.43.0


From 944c2de6e5a71aa30326145e6fd8d15511f87dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:36 +0000
Subject: [PATCH 35/42] fix: obj3 panels panicked on invalid dimensions

---
 form3/obj3/panel.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/form3/obj3/panel.go b/form3/obj3/panel.go
index ea69aa0..7f99267 100644
--- a/form3/obj3/panel.go
+++ b/form3/obj3/panel.go
@@ -1,6 +1,8 @@
 package obj3
 
 import (
+	"errors"
+
 	"github.com/soypat/sdf"
 	"github.com/soypat/sdf/form2/obj2"
 	form3 "github.com/soypat/sdf/form3/must3"
@@ -11,7 +13,7 @@ import (
 // Panel3D returns a 3d panel with holes on the edges.
 func Panel(k obj2.PanelParams) (s3 sdf.SDF3, err error) {
 	if k.Thickness <= 0 {
-		panic("k.Thickness <= 0")
+		return nil, errors.New("k.Thickness <= 0")
 	}
 	s, err := obj2.Panel(k)
 	if err != nil {
@@ -23,7 +25,7 @@ func Panel(k obj2.PanelParams) (s3 sdf.SDF3, err error) {
 // EuroRackPanel returns a 3d eurorack synthesizer module panel (in mm).
 func EuroRackPanel(k obj2.EuroRackParams) (sdf.SDF3, error) {
 	if k.Thickness <= 0 {
-		panic("k.Thickness <= 0")
+		return nil, errors.New("k.Thickness <= 0")
 	}
 	panel2d, err := obj2.EuroRackPanel(k)
 	if err != nil {
@@ -59,18 +61,20 @@ type PanelHoleParams struct {
 
 // PanelHole returns a panel hole and an indent for a retention pin.
 func PanelHole(k *PanelHoleParams) (sdf.SDF3, error) {
-	// TODO add error handling.
+	if k == nil {
+		return nil, errors.New("nil PanelHoleParams")
+	}
 	if k.Diameter <= 0 {
-		panic("k.Diameter <= 0")
+		return nil, errors.New("k.Diameter <= 0")
 	}
 	if k.Thickness <= 0 {
-		panic("k.Thickness <= 0")
+		return nil, errors.New("k.Thickness <= 0")
 	}
 	if d3.LTZero(k.Indent) {
-		panic("k.Indent < 0")
+		return nil, errors.New("k.Indent < 0")
 	}
 	if k.Offset < 0 {
-		panic("k.Offset")
+		return nil, errors.New("k.Offset < 0")
 	}
 	var indent, s sdf.SDF3
 	// build the hole
-- 
2.43.0


From 9d068584d22335faf2879912bdcc0680325b8a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:59 +0000
Subject: [PATCH 36/42] fix: thread.Bolt panicked on threads of small or
 negative radius

---
 form3/obj3/thread/bolt.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/form3/obj3/thread/bolt.go b/form3/obj3/thread/bolt.go
index 953923a..c7d9d92 100644
--- a/form3/obj3/thread/bolt.go
+++ b/form3/obj3/thread/bolt.go
@@ -2,6 +2,7 @@ package thread
 
 import (
 	"errors"
+	"math"
 
 	"github.com/soypat/sdf"
 	"github.com/soypat/sdf/form3/must3"
@@ -35,6 +36,9 @@ func Bolt(k BoltParms) (s sdf.SDF3, err error) {
 		return nil, err
 	}
 	param := k.Thread.ThreadParams()
+	if !(param.Radius > 0) {
+		return nil, errors.New("thread radius <= 0")
+	}
 	// head
 	var head sdf.SDF3
 
@@ -58,7 +62,7 @@ func Bolt(k BoltParms) (s sdf.SDF3, err error) {
 	// shank
 	shankLength := k.ShankLength + hh/2
 	shankOffset := shankLength / 2
-	var shank sdf.SDF3 = must3.Cylinder(shankLength, param.Radius, hh*0.08)
+	var shank sdf.SDF3 = must3.Cylinder(shankLength, param.Radius, math.Min(hh*0.08, param.Radius))
 	shank = sdf.Transform3D(shank, sdf.Translate3D(r3.Vec{X: 0, Y: 0, Z: shankOffset}))
 
 	// external thread
-- 
2.43.0


From b6519330165649e2dcac1591d051f2b5b7f6e2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:53 +0000
Subject: [PATCH 37/42] fix: thread.Screw accepted threads of negative radius

---
 form3/obj3/thread/thread.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/form3/obj3/thread/thread.go b/form3/obj3/thread/thread.go
index e7be405..5027564 100644
--- a/form3/obj3/thread/thread.go
+++ b/form3/obj3/thread/thread.go
@@ -63,7 +63,7 @@ func Screw(length float64, thread Threader) (sdf.SDF3, error) {
 	if !(params.Pitch > 0) || math.IsInf(params.Pitch, 1) {
 		return nil, errors.New("need finite pitch greater than zero")
 	}
-	if !(tsdf.Bounds().Max.Y > 0) {
+	if params.Radius < 0 || !(tsdf.Bounds().Max.Y > 0) {
 		return nil, errors.New("need thread profile of positive radius")
 	}
 	s := screw{}
-- 
2.43.0


From ccbc10a2de7bfb0977516d9fcbd670234725eabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:04 +0000
Subject: [PATCH 38/42] fix: obj3.Standoff trimmed the pillar to the web
 diameter

---
 form3/obj3/standoff.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/form3/obj3/standoff.go b/form3/obj3/standoff.go
index e595672..4c90735 100644
--- a/form3/obj3/standoff.go
+++ b/form3/obj3/standoff.go
@@ -40,10 +40,9 @@ func Standoff(k StandoffParams) (s sdf.SDF3, err error) {
 	s = pillar(k)
 	if k.NumberWebs > 0 {
 		webs := sdf.RotateCopy3D(pillarWeb(k), k.NumberWebs)
-		s = sdf.Union3D(s, webs)
 		// Cut off any part of the webs that protrude from the top of the pillar
 		cut := form3.Cylinder(k.PillarHeight, k.WebDiameter, 0)
-		s = sdf.Intersect3D(s, cut)
+		s = sdf.Union3D(s, sdf.Intersect3D(webs, cut))
 	}
 	// Add the pillar hole/stub
 	hole := pillarHole(k)
-- 
2.43.0


From 08cfc239b0bb2113f0afad3eb20f5031e0395efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:02 +0000
Subject: [PATCH 39/42] fix: thread.Screw panicked on threads without pitch and
 radius

---
 form3/obj3/thread/thread.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/form3/obj3/thread/thread.go b/form3/obj3/thread/thread.go
index 5027564..b56a1d2 100644
--- a/form3/obj3/thread/thread.go
+++ b/form3/obj3/thread/thread.go
@@ -55,14 +55,14 @@ func Screw(length float64, thread Threader) (sdf.SDF3, error) {
 	if length <= 0 {
 		return nil, errors.New("need greater than zero length")
 	}
-	tsdf, err := thread.Thread()
-	if err != nil {
-		return nil, err
-	}
 	params := thread.ThreadParams()
 	if !(params.Pitch > 0) || math.IsInf(params.Pitch, 1) {
 		return nil, errors.New("need finite pitch greater than zero")
 	}
+	tsdf, err := thread.Thread()
+	if err != nil {
+		return nil, err
+	}
 	if params.Radius < 0 || !(tsdf.Bounds().Max.Y > 0) {
 		return nil, errors.New("need thread profile of positive radius")
 	}
-- 
2.43.0


From afdadd86ff8d99eb06d200f03c400d8e01931c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:58 +0000
Subject: [PATCH 40/42] fix: importing a model which touches itself at an edge
 terminates

---
 helpers/sdfexp/bih.go | 86 +++++++++++++------------------------------
 1 file changed, 25 insertions(+), 61 deletions(-)

diff --git a/helpers/sdfexp/bih.go b/helpers/sdfexp/bih.go
index b293fe0..dd7b909 100644
--- a/helpers/sdfexp/bih.go
+++ b/helpers/sdfexp/bih.go
@@ -451,6 +451,13 @@ func calc_alpha_wnormal(tri [3]int, vert_idx int, vertices []r3.Vec) (float64, r
 	return alpha, r3.Scale(alpha, r3.Unit(norm))
 }
 
+func sorted_edge(i, j int) [2]int {
+	if i > j {
+		i, j = j, i
+	}
+	return [2]int{i, j}
+}
+
 func ImportModelV2(model []r3.Triangle, tol float64) (*BIH, error) {
 	vertices := make([]r3.Vec, 0)
 	mesh := make([][3]int, len(model))
@@ -547,77 +554,34 @@ func ImportModelV2(model []r3.Triangle, tol float64) (*BIH, error) {
 	}
 
 	next_j := []int{1, 2, 0}
+	// An edge may be shared by more than two triangles where the model touches
+	// itself, so normals are summed over all the triangles sharing it.
+	edge_sums := make(map[[2]int]r3.Vec)
+	for i, tri := range mesh {
+		for j := range tri {
+			id := sorted_edge(tri[j], tri[next_j[j]])
+			edge_sums[id] = r3.Add(edge_sums[id], r3.Scale(0.5, face_normals[i]))
+		}
+	}
 	edge_pseudonormals := make([]r3.Vec, 3*len(mesh))
 	first_nonclosed := true
 	for i, tri := range mesh {
-		cur_normal := face_normals[i]
 		for j := range tri {
 			// flip order to find the other edge
-			other := [2]int{tri[next_j[j]], tri[j]}
-			if other_face, ok := edges[other]; !ok {
-				if first_nonclosed {
-					fmt.Println("w: non closed edge detected")
-					first_nonclosed = false
-				}
-				// this edge is only adjacent to this triangle,
-				// store this triangle's face normal as its normal
-				edge_pseudonormals[3*i+j] = cur_normal
-			} else {
-				other_normal := face_normals[other_face]
-				edge_normal := r3.Add(r3.Scale(0.5, cur_normal), r3.Scale(0.5, other_normal))
-				edge_pseudonormals[3*i+j] = edge_normal
+			if _, ok := edges[[2]int{tri[next_j[j]], tri[j]}]; !ok && first_nonclosed {
+				fmt.Println("w: non closed edge detected")
+				first_nonclosed = false
 			}
+			edge_pseudonormals[3*i+j] = edge_sums[sorted_edge(tri[j], tri[next_j[j]])]
 		}
 	}
 
+	// vertex pseudonormals are weighted by the angles of the triangles at the vertex
 	vertex_pseudonormals := make([]r3.Vec, len(vertices))
-	for i, tri := range mesh {
-		// for each vertex check to see if it hasn't already been calculated
-		// if it hasn't then calculate it
-		for j, idx := range tri {
-			// if it hasn't been calculated it should be zero
-			if dist_sq(vertex_pseudonormals[idx]) < 0.5 {
-				// calculate it by traversing along all the edges sharing that vertex
-				alpha, wnormal := calc_alpha_wnormal(tri, idx, vertices)
-				normal_tot := wnormal
-				weights := alpha
-
-				edge_vert := tri[next_j[j]]
-				next_tri, ok := edges[[2]int{edge_vert, idx}]
-				//fmt.Printf("next tri %v %v %v\n", mesh[next_tri], edge_vert, idx)
-				for ok && next_tri != i {
-					alpha, wnormal = calc_alpha_wnormal(mesh[next_tri], idx, vertices)
-					normal_tot = r3.Add(normal_tot, wnormal)
-					weights += alpha
-
-					vert_idx := -1
-					edge_idx := -1
-					for k, jdx := range mesh[next_tri] {
-						if jdx == idx {
-							vert_idx = k
-						}
-						if jdx == edge_vert {
-							edge_idx = k
-						}
-					}
-
-					if vert_idx == -1 || edge_idx == -1 {
-						fmt.Printf("triangle doesn't match vertex or edge %v %v %v\n", mesh[next_tri], edge_vert, idx)
-						panic("unreachable state; reached a triangle not containing the proper adjacent edge")
-					}
-					// the indexes all sum up to 3, so subtracting the other two indices
-					// returns the missing one
-					edge_vert = mesh[next_tri][3-vert_idx-edge_idx]
-					// and each matching triangle can be found using
-					// its edge some edge-vertex
-					next_tri, ok = edges[[2]int{edge_vert, idx}]
-					//fmt.Printf("next tri2 %v %v %v\n", mesh[next_tri], edge_vert, idx)
-				}
-				if !ok {
-					//fmt.Printf("w: incomplete vertex traversal, %v\n", vertices[idx])
-				}
-				vertex_pseudonormals[idx] = r3.Scale(1/alpha, normal_tot)
-			}
+	for _, tri := range mesh {
+		for _, idx := range tri {
+			_, wnormal := calc_alpha_wnormal(tri, idx, vertices)
+			vertex_pseudonormals[idx] = r3.Add(vertex_pseudonormals[idx], wnormal)
 		}
 	}
 
-- 
2.43.0


From 2348bec41b2f5fbfb97d7dd0b9703c210d7043be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:14 +0000
Subject: [PATCH 41/42] fix: triangles without an area do not keep a model from
 being imported

---
 helpers/sdfexp/bih.go    |  1 +
 helpers/sdfexp/import.go | 14 ++++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/helpers/sdfexp/bih.go b/helpers/sdfexp/bih.go
index dd7b909..786a50e 100644
--- a/helpers/sdfexp/bih.go
+++ b/helpers/sdfexp/bih.go
@@ -459,6 +459,7 @@ func sorted_edge(i, j int) [2]int {
 }
 
 func ImportModelV2(model []r3.Triangle, tol float64) (*BIH, error) {
+	model = withArea(model)
 	vertices := make([]r3.Vec, 0)
 	mesh := make([][3]int, len(model))
 	bb := r3.Box{
diff --git a/helpers/sdfexp/import.go b/helpers/sdfexp/import.go
index 7817890..472a589 100644
--- a/helpers/sdfexp/import.go
+++ b/helpers/sdfexp/import.go
@@ -84,7 +84,21 @@ type pseudoVertex struct {
 	N r3.Vec // Vertex Normal
 }
 
+// withArea returns the triangles of the model which have an area. Triangles
+// without one, such as those whose vertices were rounded to the same values when
+// the model was stored, have no normal and are not part of the surface.
+func withArea(model []r3.Triangle) []r3.Triangle {
+	triangles := make([]r3.Triangle, 0, len(model))
+	for _, tri := range model {
+		if tri.Normal() != (r3.Vec{}) {
+			triangles = append(triangles, tri)
+		}
+	}
+	return triangles
+}
+
 func newMesh(triangles []r3.Triangle, tol float64) (*mesh, error) {
+	triangles = withArea(triangles)
 	bb := d3.Box{d3.Elem(math.MaxFloat64), d3.Elem(-math.MaxFloat64)}
 	minDist2 := math.MaxFloat64
 	maxDist2 := -math.MaxFloat64
-- 
2.43.0


From babd3fd0dcfade4f27935d0f3fbd5a3a7c9a1e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:37:11 +0000
Subject: [PATCH 42/42] fix: vertices which rounding alone tells apart do not
 keep a rendered model from being imported

---
 helpers/sdfexp/bih.go    | 11 ++++++++++-
 helpers/sdfexp/import.go |  9 ++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/helpers/sdfexp/bih.go b/helpers/sdfexp/bih.go
index 786a50e..450e857 100644
--- a/helpers/sdfexp/bih.go
+++ b/helpers/sdfexp/bih.go
@@ -481,7 +481,7 @@ func ImportModelV2(model []r3.Triangle, tol float64) (*BIH, error) {
 			maxDist2 = math.Max(maxDist2, side2)
 		}
 	}
-	suggested := math.Sqrt(minDist2) / 256
+	suggested := suggestTolerance(math.Sqrt(minDist2), d3.Box(bb))
 	if tol > math.Sqrt(maxDist2)/2 {
 		return nil, fmt.Errorf("vertex tolerance is too large to generate appropiate mesh, suggested tolerance: %g", suggested)
 	}
@@ -518,6 +518,15 @@ func ImportModelV2(model []r3.Triangle, tol float64) (*BIH, error) {
 			}
 		}
 	}
+	// triangles whose vertices are within tolerance of each other have no normal
+	n := 0
+	for _, tri := range mesh {
+		if tri[0] != tri[1] && tri[1] != tri[2] && tri[2] != tri[0] {
+			mesh[n] = tri
+			n++
+		}
+	}
+	mesh = mesh[:n]
 	centroids := make(map[[3]int][3]float64)
 	for _, tri := range mesh {
 		v := [3]float64{0, 0, 0}
diff --git a/helpers/sdfexp/import.go b/helpers/sdfexp/import.go
index 472a589..9a30069 100644
--- a/helpers/sdfexp/import.go
+++ b/helpers/sdfexp/import.go
@@ -97,6 +97,13 @@ func withArea(model []r3.Triangle) []r3.Triangle {
 	return triangles
 }
 
+// suggestTolerance returns the vertex tolerance for a model given its smallest
+// side. Vertices closer than coordinates are able to tell apart are the same.
+func suggestTolerance(minSide float64, bb d3.Box) float64 {
+	abs := d3.MaxElem(d3.AbsElem(bb.Min), d3.AbsElem(bb.Max))
+	return math.Max(minSide/256, d3.Max(abs)/(1<<52))
+}
+
 func newMesh(triangles []r3.Triangle, tol float64) (*mesh, error) {
 	triangles = withArea(triangles)
 	bb := d3.Box{d3.Elem(math.MaxFloat64), d3.Elem(-math.MaxFloat64)}
@@ -119,7 +126,7 @@ func newMesh(triangles []r3.Triangle, tol float64) (*mesh, error) {
 		triangles:   make([]meshTriangle, len(triangles)),
 		pseudoEdgeN: make(map[[2]int]r3.Vec),
 	}
-	suggested := math.Sqrt(minDist2) / 256
+	suggested := suggestTolerance(math.Sqrt(minDist2), bb)
 	if tol > math.Sqrt(maxDist2)/2 {
 		return nil, fmt.Errorf("vertex tolerance is too large to generate appropiate mesh, suggested tolerance: %g", suggested)
 	}
-- 
2.43.0


From 01279e4c3bf6e823126797afac8a28da8a0de13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:58 +0000
Subject: [PATCH 01/56] fix: report a failed write of an STL file

SaveSTL ignored the error of the final flush, so a full device was
reported as success.
---
 primitives/stl.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/primitives/stl.go b/primitives/stl.go
index 8cbcddc..9ccaa77 100644
--- a/primitives/stl.go
+++ b/primitives/stl.go
@@ -142,6 +142,5 @@ func SaveSTL(path string, mesh *Mesh) error {
 			return err
 		}
 	}
-	w.Flush()
-	return nil
+	return w.Flush()
 }
-- 
2.43.0


From cdcde3c626e06e290488c6380fbfc0201aedb573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:51 +0000
Subject: [PATCH 02/56] fix: reject damaged binary STL files, accept short text
 ones

A binary STL cut short or extended was taken for a text file and loaded
as an empty mesh without error; a text file of less than 84 bytes was an
error. Text now has to start with the word solid.
---
 primitives/stl.go | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/primitives/stl.go b/primitives/stl.go
index 9ccaa77..0ed74af 100644
--- a/primitives/stl.go
+++ b/primitives/stl.go
@@ -3,6 +3,7 @@ package primitives
 import (
 	"bufio"
 	"encoding/binary"
+	"errors"
 	"io"
 	"math"
 	"os"
@@ -33,14 +34,13 @@ func LoadSTL(path string) (*Mesh, error) {
 		return nil, err
 	}
 
+	// parse ascii or binary stl; a text file may be shorter than the binary header
 	header := stlHeader{}
-	if err := binary.Read(file, binary.LittleEndian, &header); err != nil {
+	err = binary.Read(file, binary.LittleEndian, &header)
+	if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
 		return nil, err
 	}
-	expectedSize := int64(header.Count)*50 + 84
-
-	// parse ascii or binary stl
-	if info.Size() == expectedSize {
+	if err == nil && info.Size() == int64(header.Count)*50+84 {
 		return loadSTLBinary(file, int(header.Count))
 	}
 	// rewind to start of file
@@ -52,13 +52,22 @@ func LoadSTL(path string) (*Mesh, error) {
 
 }
 
+// loadSTLAscii reads a text STL, which starts with the word "solid"; anything else is no STL file
+// (for example a binary one which is cut short).
 func loadSTLAscii(file *os.File) (*Mesh, error) {
+	started := false
 	var triangles []Triangle
 	var p1, p2, p3, px Point
 	i := 0
 	scanner := bufio.NewScanner(file)
 	for scanner.Scan() {
 		line := strings.TrimSpace(scanner.Text())
+		if !started && line != "" {
+			if !strings.HasPrefix(strings.ToLower(line), "solid") {
+				return nil, errors.New("neither a binary nor a text stl file")
+			}
+			started = true
+		}
 		if len(line) < 12 || line[0] != 'v' {
 			continue
 		}
@@ -78,8 +87,14 @@ func loadSTLAscii(file *os.File) (*Mesh, error) {
 		}
 		i++
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, err
+	}
+	if !started {
+		return nil, io.ErrUnexpectedEOF
+	}
 	mesh := NewMesh(triangles)
-	return &mesh, scanner.Err()
+	return &mesh, nil
 }
 
 
-- 
2.43.0


From 48475cb11fb955defd25cca0f671766c1f8f604f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:51 +0000
Subject: [PATCH 03/56] fix: goosli_colorizer reports a failed write of its
 output

---
 cmd/goosli_colorizer/goosli_colorizer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/goosli_colorizer/goosli_colorizer.go b/cmd/goosli_colorizer/goosli_colorizer.go
index e3aca31..0cdcaf0 100644
--- a/cmd/goosli_colorizer/goosli_colorizer.go
+++ b/cmd/goosli_colorizer/goosli_colorizer.go
@@ -44,5 +44,7 @@ func main() {
 		log.Fatal("failed to write value of colorize triangles: ", err)
 	}
 
-	w.Flush()
+	if err = w.Flush(); err != nil {
+		log.Fatal("failed to write value of colorize triangles: ", err)
+	}
 }
-- 
2.43.0


From f2215977d8f3d2a254efe2f23881b5207419e71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:13 +0000
Subject: [PATCH 04/56] fix: angle of opposite vectors is 180 degrees also when
 rounding exceeds -1

---
 primitives/vector.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/primitives/vector.go b/primitives/vector.go
index 6b59534..4940e29 100644
--- a/primitives/vector.go
+++ b/primitives/vector.go
@@ -82,8 +82,10 @@ func (a Vector) Reverse() Vector {
 
 func (a Vector) Angle(b Vector) float64 {
 	v := a.Dot(b) / a.Length() / b.Length()
-	if v < -1 || v > 1 {
-		return 0
+	if v > 1 { // rounding
+		v = 1
+	} else if v < -1 {
+		v = -1
 	}
 	return math.Acos(v) * 180 / math.Pi
 }
-- 
2.43.0


From 914d49489a19b206b7b57d3a7c0cfc15f6c76634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:37 +0000
Subject: [PATCH 05/56] fix: cut triangles with vertices in the plane exactly
 once

A vertex in the plane was counted by both its edges, so planes through
vertices or edges gave doubled, missing or badly directed segments and
contours that do not close. Points in the plane are now in front of it,
and both triangles of an edge compute the same crossing.
---
 primitives/plane.go | 46 ++++++++++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/primitives/plane.go b/primitives/plane.go
index 23ccd91..3da9b44 100644
--- a/primitives/plane.go
+++ b/primitives/plane.go
@@ -42,35 +42,43 @@ func (p Plane) Intersect(t *Triangle) bool {
 	return min <= pp && pp <= max
 }
 
+// IntersectTriangle - section of the triangle, if the plane separates its vertices (points of the plane
+// are in front of it), directed against the triangle normal: body is on the right, looking against p.N
 func (p Plane) IntersectTriangle(t *Triangle) *Line {
 	if t == nil {
 		return nil
 	}
 
-	v1 := p.IntersectSegment(t.P1, t.P2)
-	v2 := p.IntersectSegment(t.P2, t.P3)
-	v3 := p.IntersectSegment(t.P3, t.P1)
-	var p1, p2 Point
-
-	if v1 != nil && v2 != nil && !v1.Equal(*v2) {
-		p1, p2 = *v1, *v2
-	} else if v1 != nil && v3 != nil && !v1.Equal(*v3) {
-		p1, p2 = *v1, *v3
-	} else if v2 != nil && v3 != nil && !v2.Equal(*v3) {
-		p1, p2 = *v2, *v3
-	} else {
+	pts := [3]Point{t.P1, t.P2, t.P3}
+	var in, out *Point // where the border of the triangle goes behind the plane and returns
+	for i := 0; i < 3; i++ {
+		cur, next := pts[i], pts[(i+1)%3]
+		if p.PointInFront(cur) == p.PointInFront(next) {
+			continue
+		}
+		if p.PointInFront(cur) {
+			in = p.crossing(cur, next)
+		} else {
+			out = p.crossing(next, cur)
+		}
+	}
+	if in == nil || out == nil {
 		return nil
 	}
-	p1 = p1.RoundPlaces(8)
-	p2 = p2.RoundPlaces(8)
+	p1 := out.RoundPlaces(8)
+	p2 := in.RoundPlaces(8)
 	if p1.Equal(p2) {
 		return nil
 	}
-	n := p1.VectorTo(p2).Cross(p.N)
-	if n.Dot(t.N) < 0 { // orientation according to triangle plane (against t normal)
-		return &Line{p1, p2}
-	}
-	return &Line{p2, p1}
+	return &Line{p1, p2}
+}
+
+// crossing of the segment with the plane; the same for both triangles of an edge, because it always goes from front to back
+func (p Plane) crossing(front, back Point) *Point {
+	d1 := p.P.VectorTo(front).Dot(p.N)
+	d2 := p.P.VectorTo(back).Dot(p.N)
+	res := front.Shift(front.VectorTo(back).MulScalar(d1 / (d1 - d2)))
+	return &res
 }
 
 func (p Plane) IntersectSegment(p1, p2 Point) *Point {
-- 
2.43.0


From 0c1c34787a9e3e3889727bd36284457ffe6c83d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:18 +0000
Subject: [PATCH 06/56] fix: join all contour segments that meet, whatever
 their order

The comparator mixed exact and tolerant comparison, so equal points could
be sorted apart, and only neighbours in that order were tried: contours
stayed open, depending on the order of the segments. Closed contours are
left alone where they touch others.
---
 primitives/path.go | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/primitives/path.go b/primitives/path.go
index e1b1cd0..94b8693 100644
--- a/primitives/path.go
+++ b/primitives/path.go
@@ -109,6 +109,8 @@ type sortp struct {
 	Ind int
 }
 
+var joinOrder = V(0.42, 0.57, 0.71)
+
 //Join pathes by first or last points if possible
 func JoinPaths3(p []Path) []Path {
 	n := len(p)
@@ -125,16 +127,21 @@ func JoinPaths3(p []Path) []Path {
 			Ind: i,
 		}
 	}
-	sort.Slice(a, func(i, j int) bool {
-		b := a[i].P
-		c := a[j].P
-		return b.X < c.X || (AlmostZero(b.X-c.X) && b.Y < c.Y) || (AlmostZero(b.X-c.X) && AlmostZero(b.Y-c.Y) && b.Z < c.Z)
+	// equal points are near each other in the order along any direction
+	sort.SliceStable(a, func(i, j int) bool {
+		return a[i].P.ToVector().Dot(joinOrder) < a[j].P.ToVector().Dot(joinOrder)
 	})
 
-	for i := 1; i < len(a); i++ {
-		b := a[i-1]
-		c := a[i]
-		if b.P.Equal(c.P) {
+	for i := 0; i < len(a); i++ {
+		b := a[i]
+		for j := i + 1; j < len(a); j++ {
+			c := a[j]
+			if c.P.ToVector().Dot(joinOrder)-b.P.ToVector().Dot(joinOrder) > 2*almostZeroNumber {
+				break
+			}
+			if !b.P.Equal(c.P) {
+				continue
+			}
 			j1 := b.Ind
 			for w[j1] != j1 {
 				j1 = w[j1]
@@ -144,7 +151,7 @@ func JoinPaths3(p []Path) []Path {
 			for w[j2] != j2 {
 				j2 = w[j2]
 			}
-			if j1 == j2 {
+			if j1 == j2 || p1.IsClosed() || p[j2].IsClosed() {
 				continue
 			}
 			p2 := p[j2]
-- 
2.43.0


From 352935a6ce8f123480be39637f2bb086ae2c9235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:18 +0000
Subject: [PATCH 07/56] fix: merging collinear lines keeps the part of a path
 that doubles back

---
 primitives/line.go | 5 +++++
 primitives/path.go | 4 ++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/primitives/line.go b/primitives/line.go
index c613134..751dbad 100644
--- a/primitives/line.go
+++ b/primitives/line.go
@@ -108,6 +108,11 @@ func (l1 Line) IsCollinear(l2 Line) bool {
 	return AlmostZero(res.Length())
 }
 
+// continuesBy - l2 goes further in the same direction and not back
+func (l1 Line) continuesBy(l2 Line) bool {
+	return l1.IsCollinear(l2) && l1.ToVector().CodirectedWith(l2.ToVector())
+}
+
 // find instersection of lines https://math.stackexchange.com/questions/270767/find-intersection-of-two-3d-lines
 func (l1 Line) IntersectLine2(l2 Line) *Point {
 	f := l2.ToVector()
diff --git a/primitives/path.go b/primitives/path.go
index 94b8693..50a81e6 100644
--- a/primitives/path.go
+++ b/primitives/path.go
@@ -189,7 +189,7 @@ func (p Path) MinimizeLines() Path {
 	for i := 2; i < len(p.Points); i++ {
 		pt := p.Points[i]
 		l2 := Line{l1.P2, pt}
-		if l1.IsCollinear(l2) {
+		if l1.continuesBy(l2) {
 			l1.P2 = pt
 			res.Points[len(res.Points)-1] = pt
 		} else {
@@ -199,7 +199,7 @@ func (p Path) MinimizeLines() Path {
 	}
 	if res.IsClosed() { //check first and last line in the closed path (rest are ok here)
 		l2 := Line{res.Points[0], res.Points[1]}
-		if l1.IsCollinear(l2) {
+		if l1.continuesBy(l2) {
 			if l1.Len() > l2.Len() {
 				res.Points[len(res.Points)-1] = res.Points[1] //not first because first is equal to last
 				res.Points = res.Points[1:]
-- 
2.43.0


From 118bd380a51219f7f659798362610fea467ddab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:49 +0000
Subject: [PATCH 08/56] fix: point in polygon counts vertices on the test line
 once, whatever the orientation

---
 primitives/path.go  | 12 +++++++++++-
 primitives/point.go | 17 +++++++++++++----
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/primitives/path.go b/primitives/path.go
index 50a81e6..fbca45d 100644
--- a/primitives/path.go
+++ b/primitives/path.go
@@ -45,6 +45,15 @@ func (p Path) IsWindingCW() bool {
 	}
 }
 
+// normal of the closed planar path, its length is the doubled area
+func (p Path) normal() Vector {
+	res := Vector{}
+	for i := 1; i < len(p.Points); i++ {
+		res = res.Add(p.Points[0].VectorTo(p.Points[i-1]).Cross(p.Points[0].VectorTo(p.Points[i])))
+	}
+	return res
+}
+
 func (p Path) IsClosed() bool {
 	if len(p.Points) <= 1 {
 		return true
@@ -87,7 +96,8 @@ func (p Path) IsInside(p1 Path) bool {
 	}
 
 	for i := 0; i < len(p.Points); i++ {
-		if p.Points[i].Inside(p1) {
+		pl := Plane{p.Points[i], p1.normal().Normalize()}
+		if p.Points[i].Inside(p1) && pl.PointBelongs(p1.Points[0]) {
 			return true
 		}
 	}
diff --git a/primitives/point.go b/primitives/point.go
index 681115b..823fa2b 100644
--- a/primitives/point.go
+++ b/primitives/point.go
@@ -87,13 +87,22 @@ func (a Point) Inside(path Path) bool {
 	if len(path.Points) < 4 {
 		return false
 	}
-	n := path.Points[0].VectorTo(path.Points[1])
+	n := Vector{} // along the first edge
+	for i := 1; i < len(path.Points) && n.Length() == 0; i++ {
+		n = path.Points[i-1].VectorTo(path.Points[i])
+	}
 	pl := Plane{a, n}
-	v := a.VectorTo(path.Points[0]).ProjectOnPlane(pl)
+	v := n.Cross(path.normal())
 	c := 0
 	for i := 1; i < len(path.Points); i++ {
-		inters := pl.IntersectSegment(path.Points[i-1], path.Points[i])
-		if inters != nil && a.VectorTo(*inters).CodirectedWith(v) {
+		p1, p2 := path.Points[i-1], path.Points[i]
+		if pl.PointInFront(p1) == pl.PointInFront(p2) { //a vertex on the plane belongs to one side, to count it once
+			continue
+		}
+		if pl.PointInFront(p2) {
+			p1, p2 = p2, p1
+		}
+		if a.VectorTo(*pl.crossing(p1, p2)).CodirectedWith(v) {
 			c += 1
 		}
 	}
-- 
2.43.0


From 360b5c34b4916d32fe412e891178b4c49996bca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:13 +0000
Subject: [PATCH 09/56] fix: slicing a mesh without sections gives no layers
 instead of a crash

---
 slicers/slice_by_vector.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slicers/slice_by_vector.go b/slicers/slice_by_vector.go
index 932b607..6285df6 100644
--- a/slicers/slice_by_vector.go
+++ b/slicers/slice_by_vector.go
@@ -128,10 +128,10 @@ func SliceByVector(mesh *Mesh, Z Vector, settings Settings) []Layer {
 	})
 
 	// filter out empty layers
-	if len(layers[0].Paths) == 0 {
+	if len(layers) > 0 && len(layers[0].Paths) == 0 {
 		layers = layers[1:]
 	}
-	if len(layers[len(layers)-1].Paths) == 0 {
+	if len(layers) > 0 && len(layers[len(layers)-1].Paths) == 0 {
 		layers = layers[:len(layers)-1]
 	}
 
-- 
2.43.0


From ba52118f23b6836c2cb373e7965103116c155e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:05 +0000
Subject: [PATCH 10/56] fix: a mesh cut by a plane gives contours in one
 direction

---
 primitives/plane.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/primitives/plane.go b/primitives/plane.go
index 3da9b44..1ee71a5 100644
--- a/primitives/plane.go
+++ b/primitives/plane.go
@@ -30,7 +30,7 @@ func (p Plane) IntersectMesh(mesh *Mesh) Layer {
 			paths = append(paths, Path{Points: []Point{line.P1, line.P2}})
 		}
 	}
-	return Layer{Order: 0, Norm: p.N, Paths: JoinPaths2(paths)}
+	return Layer{Order: 0, Norm: p.N, Paths: JoinPaths3(paths)}
 }
 
 func (p Plane) Intersect(t *Triangle) bool {
-- 
2.43.0


From a11e57407b5e185dc355fbaad54ee070f805ccd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:35 +0000
Subject: [PATCH 11/56] fix: a triangle that touches a layer within rounding is
 not left out of its contours

---
 slicers/slice_by_vector.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/slicers/slice_by_vector.go b/slicers/slice_by_vector.go
index 6285df6..d3b7542 100644
--- a/slicers/slice_by_vector.go
+++ b/slicers/slice_by_vector.go
@@ -9,6 +9,9 @@ import (
 	. "github.com/l1va/goosli/primitives"
 )
 
+// triangles this near to the plane are left to the intersection to judge
+const rounding = 1e-6
+
 // SliceByVectorToGcode - Slicing on layers by vector Z
 func SliceByVectorToGcode(mesh *Mesh, Z Vector, settings Settings) gcode.Gcode {
 	layers := SliceByVector(mesh, Z, settings)
@@ -97,13 +100,13 @@ func SliceByVector(mesh *Mesh, Z Vector, settings Settings) []Layer {
 		// remove triangles below plane
 		newActive := active[:0]
 		for _, t := range active {
-			if z <= t.MaxZ(Z) {
+			if z <= t.MaxZ(Z)+rounding {
 				newActive = append(newActive, t)
 			}
 		}
 		active = newActive
 		// add triangles above plane
-		for index < len(triangles) && triangles[index].MinZ(Z) <= z {
+		for index < len(triangles) && triangles[index].MinZ(Z) <= z+rounding {
 			t := triangles[index]
 			active = append(active, &t)
 			index++
-- 
2.43.0


From cd80ee7929b4441a792b5ff41514fa7a174338e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:35 +0000
Subject: [PATCH 12/56] fix: short segments in a row leave no gap in a contour

---
 primitives/path.go  | 36 ++++++++++++++++++++++++++++++++++++
 primitives/plane.go |  2 +-
 2 files changed, 37 insertions(+), 1 deletion(-)

diff --git a/primitives/path.go b/primitives/path.go
index fbca45d..e0a1de7 100644
--- a/primitives/path.go
+++ b/primitives/path.go
@@ -123,6 +123,7 @@ var joinOrder = V(0.42, 0.57, 0.71)
 
 //Join pathes by first or last points if possible
 func JoinPaths3(p []Path) []Path {
+	p = shrinkShort(p)
 	n := len(p)
 	w := make([]int, n)
 	a := make([]sortp, n*2)
@@ -181,6 +182,41 @@ func JoinPaths3(p []Path) []Path {
 	return res
 }
 
+// shrinkShort - segments too short to have a direction shrink to a point, so that any number of them in a row leaves no gap
+func shrinkShort(p []Path) []Path {
+	same := map[Point]Point{}
+	find := func(a Point) Point {
+		for {
+			b, ok := same[a]
+			if !ok {
+				return a
+			}
+			a = b
+		}
+	}
+	long := []Path{}
+	for _, pth := range p {
+		if len(pth.Points) == 2 && pth.IsClosed() {
+			a, b := find(pth.Points[0]), find(pth.Points[1])
+			if a != b {
+				same[a] = b
+			}
+		} else {
+			long = append(long, pth)
+		}
+	}
+	if len(long) == len(p) {
+		return p
+	}
+	for i, pth := range long {
+		pts := append([]Point{}, pth.Points...)
+		pts[0] = find(pts[0])
+		pts[len(pts)-1] = find(pts[len(pts)-1])
+		long[i] = Path{Points: pts}
+	}
+	return long
+}
+
 func JoinPaths3AndMinimize(p []Path) []Path {
 	joined := JoinPaths3(p)
 	for i := 0; i < len(joined); i++ {
diff --git a/primitives/plane.go b/primitives/plane.go
index 1ee71a5..2ded00c 100644
--- a/primitives/plane.go
+++ b/primitives/plane.go
@@ -67,7 +67,7 @@ func (p Plane) IntersectTriangle(t *Triangle) *Line {
 	}
 	p1 := out.RoundPlaces(8)
 	p2 := in.RoundPlaces(8)
-	if p1.Equal(p2) {
+	if p1 == p2 {
 		return nil
 	}
 	return &Line{p1, p2}
-- 
2.43.0


From 82794e93cfbef432b2dee846750a23dd31f7850e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:16 +0000
Subject: [PATCH 13/56] fix: the parts of a cut mesh are closed, also when the
 section is concave or has holes

---
 helpers/cut_mesh.go     | 132 +++++++-----------
 helpers/fill_section.go | 288 ++++++++++++++++++++++++++++++++++++++++
 2 files changed, 336 insertions(+), 84 deletions(-)
 create mode 100644 helpers/fill_section.go

diff --git a/helpers/cut_mesh.go b/helpers/cut_mesh.go
index c84ee5c..1269113 100644
--- a/helpers/cut_mesh.go
+++ b/helpers/cut_mesh.go
@@ -2,8 +2,6 @@ package helpers
 
 import (
 	. "github.com/l1va/goosli/primitives"
-	//	"fmt"
-	"log"
 )
 
 //CutMesh mesh in two meshes, first that inFront of plane, second - outFront
@@ -15,81 +13,52 @@ func CutMesh(mesh *Mesh, p Plane) (*Mesh, *Mesh, error) {
 	var up []Triangle
 	var down []Triangle
 
-	inters := []Path{}
+	inters := []Line{}
 
-	for _, t := range mesh.Triangles { //TODO: make it more beautiful
-		var inFront []Point
-		var outFront []Point
-		if p.PointInFront(t.P1) {
-			inFront = append(inFront, t.P1)
-		} else {
-			outFront = append(outFront, t.P1)
-		}
-		if p.PointInFront(t.P2) {
-			inFront = append(inFront, t.P2)
-		} else {
-			outFront = append(outFront, t.P2)
+	for _, t := range mesh.Triangles {
+		front := p.PointInFront(t.P1)
+		if p.PointInFront(t.P2) == front && p.PointInFront(t.P3) == front {
+			if front {
+				up = append(up, t)
+			} else {
+				down = append(down, t)
+			}
+			continue
 		}
-		if p.PointInFront(t.P3) {
-			inFront = append(inFront, t.P3)
-		} else {
-			outFront = append(outFront, t.P3)
+		a, b, c := t.P1, t.P2, t.P3 // a is alone on its side
+		for p.PointInFront(a) == p.PointInFront(b) || p.PointInFront(a) == p.PointInFront(c) {
+			a, b, c = b, c, a
 		}
-		if len(inFront) == 3 {
-			up = append(up, t)
-		} else if len(inFront) == 2 {
-			line := p.IntersectTriangle(&t)
-			if line == nil {
-				log.Printf("failed to intersect triangle by plane2, skip it: %v, %v\n", t, p)
-				continue
-			}
-			inters = append(inters, Path{Points: []Point{line.P1, line.P2}})
 
-			ts := splitOnThree(outFront[0], *line, t)
-
-			up = append(up, ts[1])
-			up = append(up, ts[2])
-			down = append(down, ts[0])
-
-		} else if len(inFront) == 1 {
-			line := p.IntersectTriangle(&t)
-			if line == nil {
-				log.Printf("failed to intersect triangle by plane1, skip it: %v, %v\n", t, p)
-				continue
+		// line goes from the edge that leads to the front to the edge that leads to the back
+		line := p.IntersectTriangle(&t)
+		if line != nil {
+			line.P1 = snap(line.P1, t)
+			line.P2 = snap(line.P2, t)
+			if line.P1 != line.P2 {
+				inters = append(inters, *line)
 			}
-			inters = append(inters, Path{Points: []Point{line.P1, line.P2}})
-
-			ts := splitOnThree(inFront[0], *line, t)
-
-			up = append(up, ts[0])
-			down = append(down, ts[1])
-			down = append(down, ts[2])
+		} else { // the triangle has no width here
+			da, db := p.P.VectorTo(a).Dot(p.N), p.P.VectorTo(b).Dot(p.N)
+			cut := snap(a.Shift(a.VectorTo(b).MulScalar(da/(da-db))).RoundPlaces(8), t)
+			line = &Line{P1: cut, P2: cut}
+		}
 
+		if p.PointInFront(a) {
+			up = appendTriangles(up, a, line.P2, line.P1)
+			down = appendTriangles(down, line.P2, b, c, line.P1)
 		} else {
-			down = append(down, t)
+			up = appendTriangles(up, line.P1, b, c, line.P2)
+			down = appendTriangles(down, a, line.P1, line.P2)
 		}
 	}
 
 	//if len(up) == 0 || len(down) == 0 {
 	//	return nil, nil, fmt.Errorf("one of meshes is empty")
 	//}
-	joined := JoinPaths3AndMinimize(inters)
-	println("cut mesh, init and joined", len(inters), len(joined))
-
-	//debug.RecreateFile()
-	for _, pth := range joined { //generate addition triangles to close the cut
-		//debug.AddPath(pth, debug.GreenColor)
-		for j := 1; j < len(pth.Points)-1; j++ {
-			t := NewTriangle(pth.Points[0], pth.Points[j], pth.Points[j+1])
-			t2 := NewTriangle(pth.Points[j+1], pth.Points[j], pth.Points[0]) //with reverse normal
-			if t.N.CodirectedWith(p.N) { //triangle normal should go inside the mesh
-				up = append(up, t2)
-				down = append(down, t)
-			} else {
-				up = append(up, t)
-				down = append(down, t2)
-			}
-		}
+	for _, t := range fillSection(inters, p.N) { //generate addition triangles to close the cut
+		up = append(up, NewTriangle(t.P3, t.P2, t.P1)) //with reverse normal
+		down = append(down, t)
 	}
 
 	resUp := NewMesh(up)
@@ -97,27 +66,22 @@ func CutMesh(mesh *Mesh, p Plane) (*Mesh, *Mesh, error) {
 	return &resUp, &resDown, nil
 }
 
-// p1 - point that from triangle 1
-// ans consist of 3 triangle: 1 leaves as triangle, 2 and 3 - triangles from quadrangle
-func splitOnThree(p1 Point, line Line, t Triangle) []Triangle {
-	var ans []Triangle
-	lp1 := line.P1
-	lp2 := line.P2
-	t1 := t.P1
-	t2 := t.P2
-	t3 := t.P3
-	if t2.Equal(p1) {
-		t1, t2, t3 = t2, t3, t1
-	} else if t3.Equal(p1) {
-		t1, t2, t3 = t3, t1, t2
+// snap - a plane through a vertex cuts the triangle in exactly this vertex
+func snap(pt Point, t Triangle) Point {
+	for _, v := range []Point{t.P1, t.P2, t.P3} {
+		if v.Equal(pt) {
+			return v
+		}
 	}
+	return pt
+}
 
-	if AlmostZero(t1.VectorTo(t2).Cross(t1.VectorTo(lp2)).Length()) {
-		// lp2 lies on t1->t2 vector, but should lp1 lie
-		lp1, lp2 = lp2, lp1
+// appendTriangles of the convex polygon, but for those that are only an edge
+func appendTriangles(ts []Triangle, pts ...Point) []Triangle {
+	for i := 2; i < len(pts); i++ {
+		if !pts[0].Equal(pts[i-1]) && !pts[i-1].Equal(pts[i]) && !pts[i].Equal(pts[0]) {
+			ts = append(ts, NewTriangle(pts[0], pts[i-1], pts[i]))
+		}
 	}
-	ans = append(ans, NewTriangle(t1, lp1, lp2))
-	ans = append(ans, NewTriangle(lp1, t2, t3))
-	ans = append(ans, NewTriangle(t3, lp2, lp1))
-	return ans
+	return ts
 }
diff --git a/helpers/fill_section.go b/helpers/fill_section.go
new file mode 100644
index 0000000..39e9059
--- /dev/null
+++ b/helpers/fill_section.go
@@ -0,0 +1,288 @@
+package helpers
+
+import (
+	"math"
+	"sort"
+
+	. "github.com/l1va/goosli/primitives"
+)
+
+// doubled area of a triangle that is taken for a line
+const flat = 1e-7
+
+// point of the section in the coordinates of its plane
+type point2 struct {
+	X, Y float64
+	P    Point
+}
+
+type edge2 struct {
+	a, b point2
+}
+
+func toPoint2(p Point, e1, e2 Vector) point2 {
+	v := p.ToVector()
+	return point2{X: v.Dot(e1), Y: v.Dot(e2), P: p}
+}
+
+func (a point2) same(b point2) bool {
+	return a.P == b.P
+}
+
+func (a point2) dist(b point2) float64 {
+	return math.Hypot(a.X-b.X, a.Y-b.Y)
+}
+
+// cross - doubled area of the triangle, positive if it is counter-clockwise
+func cross(a, b, c point2) float64 {
+	return (b.X-a.X)*(c.Y-a.Y) - (b.Y-a.Y)*(c.X-a.X)
+}
+
+func area(pts []point2) float64 {
+	res := 0.0
+	for i := 2; i < len(pts); i++ {
+		res += cross(pts[0], pts[i-1], pts[i])
+	}
+	return res
+}
+
+// fillSection - triangles with normals along n, that cover the section bounded by the lines,
+// directed as Plane.IntersectTriangle does it (body is on the right, looking against n)
+func fillSection(lines []Line, n Vector) []Triangle {
+	e1 := AxisX
+	if math.Abs(n.X) > math.Abs(n.Y) {
+		e1 = AxisY
+	}
+	e1 = e1.ProjectOnPlane(Plane{P: OriginPoint, N: n}).Normalize()
+	e2 := n.Normalize().Cross(e1)
+
+	var edges []edge2
+	for _, l := range lines {
+		edges = append(edges, edge2{toPoint2(l.P2, e1, e2), toPoint2(l.P1, e1, e2)}) // counter-clockwise from here on
+	}
+	var outers, holes [][]point2
+	for _, contour := range contours(edges) {
+		if area(contour) > 0 {
+			outers = append(outers, contour)
+		} else {
+			holes = append(holes, contour)
+		}
+	}
+	sort.SliceStable(outers, func(i, j int) bool { return area(outers[i]) < area(outers[j]) })
+
+	inner := make([][][]point2, len(outers))
+	var res []Triangle
+	for _, hole := range holes {
+		i := 0
+		for i < len(outers) && !mostlyInside(hole, outers[i]) {
+			i++
+		}
+		if i < len(outers) {
+			inner[i] = append(inner[i], hole)
+		} else {
+			res = clipEars(res, hole)
+		}
+	}
+	for i := range outers {
+		res = clipEars(res, connectHoles(outers[i], inner[i]))
+	}
+	return res
+}
+
+// contours of the edges, where more than two of them meet in a point, contours touch there and do not cross
+func contours(edges []edge2) [][]point2 {
+	// there and back is nothing
+	count := map[[2]Point]int{}
+	for _, e := range edges {
+		if count[[2]Point{e.b.P, e.a.P}] > 0 {
+			count[[2]Point{e.b.P, e.a.P}]--
+		} else {
+			count[[2]Point{e.a.P, e.b.P}]++
+		}
+	}
+	from := map[Point][]edge2{}
+	var left []edge2
+	for _, e := range edges {
+		if e.a.P != e.b.P && count[[2]Point{e.a.P, e.b.P}] > 0 {
+			count[[2]Point{e.a.P, e.b.P}]--
+			left = append(left, e)
+			from[e.a.P] = append(from[e.a.P], e)
+		}
+	}
+	take := func(e edge2) bool {
+		next := from[e.a.P]
+		for i := range next {
+			if next[i] == e {
+				from[e.a.P] = append(append([]edge2{}, next[:i]...), next[i+1:]...)
+				return true
+			}
+		}
+		return false
+	}
+	var res [][]point2
+	for _, start := range left {
+		if !take(start) {
+			continue
+		}
+		pts := []point2{start.a}
+		for cur := start; ; {
+			next := from[cur.b.P]
+			if cur.b.P == start.a.P {
+				next = append([]edge2{start}, next...)
+			}
+			if len(next) == 0 {
+				next = nearest(from, start, cur.b)
+			}
+			best := start
+			for i, e := range next {
+				if i == 0 || sector(cur, e) < sector(cur, best) {
+					best = e
+				}
+			}
+			if !take(best) { // back at the start
+				break
+			}
+			pts = append(pts, best.a)
+			cur = best
+		}
+		if len(pts) > 2 {
+			res = append(res, pts)
+		}
+	}
+	return res
+}
+
+// nearest - edges to go on with where the surface has a gap
+func nearest(from map[Point][]edge2, start edge2, pt point2) []edge2 {
+	best, min := []edge2{start}, start.a.dist(pt)
+	for _, next := range from {
+		if len(next) > 0 && next[0].a.dist(pt) < min {
+			best, min = next, next[0].a.dist(pt)
+		}
+	}
+	return best
+}
+
+// sector - angle on the left of the way from one edge to the next
+func sector(e, next edge2) float64 {
+	s := math.Atan2(e.a.Y-e.b.Y, e.a.X-e.b.X) - math.Atan2(next.b.Y-next.a.Y, next.b.X-next.a.X)
+	for s <= 0 {
+		s += 2 * math.Pi
+	}
+	return s
+}
+
+// mostlyInside - contours do not cross, but can touch
+func mostlyInside(a, b []point2) bool {
+	count := 0
+	for i := range a {
+		j := (i + 1) % len(a)
+		x, y := (a[i].X+a[j].X)/2, (a[i].Y+a[j].Y)/2
+		in := false
+		for k := range b {
+			q, r := b[k], b[(k+1)%len(b)]
+			if (q.Y <= y) != (r.Y <= y) && x < q.X+(y-q.Y)/(r.Y-q.Y)*(r.X-q.X) {
+				in = !in
+			}
+		}
+		if in {
+			count++
+		}
+	}
+	return 2*count > len(a)
+}
+
+// connectHoles - make one contour of the outer one and the holes with bridges between them
+func connectHoles(pts []point2, holes [][]point2) []point2 {
+	for len(holes) > 0 {
+		bk, bi, bj, bd := -1, 0, 0, math.MaxFloat64
+		for k, hole := range holes {
+			for i := range pts {
+				for j := range hole {
+					if d := pts[i].dist(hole[j]); d < bd && isBridge(pts, holes, i, hole[j], hole[(j+1)%len(hole)]) {
+						bk, bi, bj, bd = k, i, j, d
+					}
+				}
+			}
+		}
+		if bk < 0 { // does not happen with contours of a body
+			bk = 0
+		}
+		hole := holes[bk]
+		var joined []point2
+		joined = append(joined, pts[:bi+1]...)
+		joined = append(joined, hole[bj:]...)
+		joined = append(joined, hole[:bj+1]...)
+		joined = append(joined, pts[bi:]...)
+		pts = joined
+		holes = append(append([][]point2{}, holes[:bk]...), holes[bk+1:]...)
+	}
+	return pts
+}
+
+// isBridge - does the way from i-th point to b go inside of the section and cross nothing
+func isBridge(pts []point2, holes [][]point2, i int, b, next point2) bool {
+	a := pts[i]
+	prev, foll := pts[(i+len(pts)-1)%len(pts)], pts[(i+1)%len(pts)]
+	to := b
+	if a.same(b) {
+		to = next
+	}
+	if cross(prev, a, foll) >= 0 {
+		if cross(prev, a, to) <= 0 || cross(a, foll, to) <= 0 {
+			return false
+		}
+	} else if cross(prev, a, to) <= 0 && cross(a, foll, to) <= 0 {
+		return false
+	}
+	for _, contour := range append([][]point2{pts}, holes...) {
+		for k := range contour {
+			c, d := contour[k], contour[(k+1)%len(contour)]
+			if c.same(a) || c.same(b) || d.same(a) || d.same(b) {
+				continue
+			}
+			if cross(a, b, c)*cross(a, b, d) <= 0 && cross(c, d, a)*cross(c, d, b) <= 0 {
+				return false
+			}
+		}
+	}
+	return true
+}
+
+// clipEars - triangles of the contour, all its points are used, to leave no gaps to its neighbours
+func clipEars(res []Triangle, pts []point2) []Triangle {
+	pts = append([]point2{}, pts...)
+	for len(pts) > 2 {
+		n := len(pts)
+		best, bestArea := 0, -math.MaxFloat64
+		for i := range pts {
+			a, b, c := pts[(i+n-1)%n], pts[i], pts[(i+1)%n]
+			s := cross(a, b, c)
+			if s > flat && isEar(pts, a, b, c) {
+				best = i
+				break
+			}
+			if -math.Abs(s) > bestArea { // if there is no ear: the thinnest one
+				best, bestArea = i, -math.Abs(s)
+			}
+		}
+		a, b, c := pts[(best+n-1)%n], pts[best], pts[(best+1)%n]
+		if !a.P.Equal(b.P) && !b.P.Equal(c.P) && !c.P.Equal(a.P) {
+			res = append(res, NewTriangle(a.P, b.P, c.P))
+		}
+		pts = append(pts[:best], pts[best+1:]...)
+	}
+	return res
+}
+
+func isEar(pts []point2, a, b, c point2) bool {
+	for _, q := range pts {
+		if q.same(a) || q.same(b) || q.same(c) {
+			continue
+		}
+		if cross(a, b, q) > -flat && cross(b, c, q) > -flat && cross(c, a, q) > -flat {
+			return false
+		}
+	}
+	return true
+}
-- 
2.43.0


From e1e8780070bce63490a18503b56d622747142ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:19 +0000
Subject: [PATCH 14/56] fix: after a bed movement the nozzle is at the parked
 position and the speed is that of the bed

---
 gcode/cmds.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/gcode/cmds.go b/gcode/cmds.go
index 009be9c..ba4a394 100644
--- a/gcode/cmds.go
+++ b/gcode/cmds.go
@@ -37,6 +37,13 @@ type Command interface {
 	LayersCount() int
 }
 
+// bedMoved - state after the bed was moved with the nozzle parked
+func bedMoved(state State) State {
+	state.pos = Point{X: 0, Y: 0, Z: 200}
+	state.feedrate = 300
+	return state
+}
+
 type InclineXBack struct {
 }
 
@@ -49,7 +56,7 @@ func (r InclineXBack) ToGCode(b *bytes.Buffer, state State, sett GcodeSettings)
 	b.WriteString("T0 \n")
 	b.WriteString("G92 E" + StrF(state.eOff) + "\n")
 	state.t2 = 0
-	return state
+	return bedMoved(state)
 }
 func (r InclineXBack) LayersCount() int {
 	return 0
@@ -67,7 +74,7 @@ func (r InclineX) ToGCode(b *bytes.Buffer, state State, sett GcodeSettings) Stat
 	b.WriteString("T0 \n")
 	b.WriteString("G92 E" + StrF(state.eOff) + "\n")
 	state.t2 = 60
-	return state
+	return bedMoved(state)
 
 }
 func (r InclineX) LayersCount() int {
@@ -102,7 +109,7 @@ func (r RotateZ) ToGCode(b *bytes.Buffer, state State, sett GcodeSettings) State
 	b.WriteString("T0 \n")
 	b.WriteString("G92 E" + StrF(state.eOff) + "\n")
 	state.t1 = r.Angle
-	return state
+	return bedMoved(state)
 
 }
 func (r RotateZ) LayersCount() int {
-- 
2.43.0


From 29fc708aaaee7c75670a3cedf1d0ca3060ddfd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:19 +0000
Subject: [PATCH 15/56] fix: retraction pulls back from the current extrusion
 and keeps the printing speed

---
 gcode/cmds.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gcode/cmds.go b/gcode/cmds.go
index ba4a394..30daeee 100644
--- a/gcode/cmds.go
+++ b/gcode/cmds.go
@@ -183,12 +183,14 @@ func printSpeedToGCode(state State, sett GcodeSettings, b *bytes.Buffer) State {
 	return state
 }
 
-func retractionToGCode(b *bytes.Buffer, sett GcodeSettings) {
+func retractionToGCode(b *bytes.Buffer, state State, sett GcodeSettings) State {
 	if !sett.Retraction {
-		return
+		return state
 	}
 
-	b.WriteString("G1 F" + strconv.Itoa(sett.RetractionSpeed) + " E" + StrF(-sett.RetractionDistance) + "\n")
+	b.WriteString("G1 F" + strconv.Itoa(sett.RetractionSpeed) + " E" + StrF(state.eOff-sett.RetractionDistance) + "\n")
+	state.feedrate = sett.RetractionSpeed
+	return printSpeedToGCode(state, sett, b)
 }
 
 func pathesToGCode(pths []Path, comment string, sett GcodeSettings, state State, b *bytes.Buffer) State {
@@ -200,7 +202,7 @@ func pathesToGCode(pths []Path, comment string, sett GcodeSettings, state State,
 	for _, p := range pths {
 		// Retraction first
 		b.WriteString("G0 " + state.pos.StringDeltaZ(0.5) + "\n") //z up a little during retract
-		retractionToGCode(b, sett)
+		state = retractionToGCode(b, state, sett)
 		b.WriteString("G0 " + p.Points[0].StringDelta(0, 0, 0.5) + "\n")
 		b.WriteString("G0 " + p.Points[0].StringDeltaZ(0) + "\n")
 
-- 
2.43.0


From cbe09042ba6dd5f72cc90931be099a064623d188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:19 +0000
Subject: [PATCH 16/56] fix: the flow setting has no effect

---
 gcode/cmds.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcode/cmds.go b/gcode/cmds.go
index 30daeee..d353be9 100644
--- a/gcode/cmds.go
+++ b/gcode/cmds.go
@@ -210,7 +210,7 @@ func pathesToGCode(pths []Path, comment string, sett GcodeSettings, state State,
 			p1 := p.Points[i-1]
 			p2 := p.Points[i]
 			lDist := math.Sqrt(math.Pow(p2.X-p1.X, 2) + math.Pow(p2.Y-p1.Y, 2) + math.Pow(p2.Z-p1.Z, 2))
-			state.eOff += (4 * sett.LineWidth * sett.LayerHeight * lDist) / (math.Pow(sett.BarDiameter, 2) * math.Pi)
+			state.eOff += (4 * sett.LineWidth * sett.LayerHeight * lDist * sett.Flow) / (math.Pow(sett.BarDiameter, 2) * math.Pi)
 			b.WriteString("G1 " + p2.StringGcode(p1) + " E" + StrF(state.eOff) + "\n")
 		}
 		state.pos = p.Points[len(p.Points)-1]
-- 
2.43.0


From 34eb52154bc6c0aef5c3a5dbd6576683c14116b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:19 +0000
Subject: [PATCH 17/56] fix: the nozzle drifts away from paths with steps below
 0.001

---
 primitives/point.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/primitives/point.go b/primitives/point.go
index 823fa2b..e49e04d 100644
--- a/primitives/point.go
+++ b/primitives/point.go
@@ -28,15 +28,15 @@ func (a Point) MapKey() Point {
 
 func (a Point) StringGcode(b Point) string {
 	s_form := ""
-	if math.Abs(a.X-b.X) >= 0.001 {
+	if StrF(a.X) != StrF(b.X) {
 		s_form = fmt.Sprintf("%sX%s ", s_form, StrF(a.X))
 	}
 
-	if math.Abs(a.Y-b.Y) >= 0.001 {
+	if StrF(a.Y) != StrF(b.Y) {
 		s_form = fmt.Sprintf("%sY%s ", s_form, StrF(a.Y))
 	}
 
-	if math.Abs(a.Z-b.Z) >= 0.001 {
+	if StrF(a.Z) != StrF(b.Z) {
 		s_form = fmt.Sprintf("%sZ%s", s_form, StrF(a.Z))
 	}
 	return s_form
-- 
2.43.0


From dc468652764ee201c45efc3ac6ff416d9920476a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:49 +0000
Subject: [PATCH 18/56] fix: what is pulled back by retraction is pushed back
 before printing

---
 gcode/cmds.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gcode/cmds.go b/gcode/cmds.go
index d353be9..e867f4a 100644
--- a/gcode/cmds.go
+++ b/gcode/cmds.go
@@ -183,12 +183,12 @@ func printSpeedToGCode(state State, sett GcodeSettings, b *bytes.Buffer) State {
 	return state
 }
 
-func retractionToGCode(b *bytes.Buffer, state State, sett GcodeSettings) State {
+func retractionToGCode(b *bytes.Buffer, state State, sett GcodeSettings, distance float64) State {
 	if !sett.Retraction {
 		return state
 	}
 
-	b.WriteString("G1 F" + strconv.Itoa(sett.RetractionSpeed) + " E" + StrF(state.eOff-sett.RetractionDistance) + "\n")
+	b.WriteString("G1 F" + strconv.Itoa(sett.RetractionSpeed) + " E" + StrF(state.eOff-distance) + "\n")
 	state.feedrate = sett.RetractionSpeed
 	return printSpeedToGCode(state, sett, b)
 }
@@ -202,9 +202,10 @@ func pathesToGCode(pths []Path, comment string, sett GcodeSettings, state State,
 	for _, p := range pths {
 		// Retraction first
 		b.WriteString("G0 " + state.pos.StringDeltaZ(0.5) + "\n") //z up a little during retract
-		state = retractionToGCode(b, state, sett)
+		state = retractionToGCode(b, state, sett, sett.RetractionDistance)
 		b.WriteString("G0 " + p.Points[0].StringDelta(0, 0, 0.5) + "\n")
 		b.WriteString("G0 " + p.Points[0].StringDeltaZ(0) + "\n")
+		state = retractionToGCode(b, state, sett, 0) // push back
 
 		for i := 1; i < len(p.Points); i++ {
 			p1 := p.Points[i-1]
-- 
2.43.0


From c7a8944113826fb0e9e3a2028b6d33851cf338d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:30 +0000
Subject: [PATCH 19/56] fix: the first corner of an offset contour is not
 trimmed

---
 slicers/vip/offset_path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slicers/vip/offset_path.go b/slicers/vip/offset_path.go
index 689a430..abe823a 100644
--- a/slicers/vip/offset_path.go
+++ b/slicers/vip/offset_path.go
@@ -41,7 +41,7 @@ func MakeOffset(pth Path, nozzle float64, norm Vector) *Path {
 		}
 	}
 	if closedPath {
-		newPth[0] = newPth[len(newPth)-1]
+		newPth[0].P1 = newPth[len(newPth)-1].P1
 		newPth = newPth[:len(newPth)-1] //remove added line
 	}
 	var remove []bool
-- 
2.43.0


From 227f3ce765ff26359f24b20e483f1eafd89dc1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:43 +0000
Subject: [PATCH 20/56] fix: one wall is missing if the wall thickness is an
 exact multiple of the line width

---
 slicers/vip/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slicers/vip/utils.go b/slicers/vip/utils.go
index 51677c8..5b1c3fd 100644
--- a/slicers/vip/utils.go
+++ b/slicers/vip/utils.go
@@ -10,7 +10,7 @@ import (
 
 //PrepareLayers add Walls and fill layers
 func PrepareLayers(layers []Layer, settings Settings, planes []Plane, fullPanes []Plane) []Layer {
-	addWallsCount := int(settings.WallThickness/settings.GcodeSettings.LineWidth) - 1
+	addWallsCount := int(settings.WallThickness/settings.GcodeSettings.LineWidth+1e-6) - 1 //1.2/0.4 is a little less than 3
 	if addWallsCount > 0 {
 		for i, layer := range layers { //TODO: in parallel
 			for _, pt := range layer.Paths {
-- 
2.43.0


From 7f0657b06a45a1bb79e344030a05057e726c5661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:17 +0000
Subject: [PATCH 21/56] fix: an edge of a contour as long as its trimming gives
 a wrong offset

---
 primitives/line.go         | 2 +-
 slicers/vip/offset_path.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/primitives/line.go b/primitives/line.go
index 751dbad..c147437 100644
--- a/primitives/line.go
+++ b/primitives/line.go
@@ -121,7 +121,7 @@ func (l1 Line) IntersectLine2(l2 Line) *Point {
 	a := f.Cross(g)
 	b := f.Cross(e)
 	//println(a.Length(), b.Length())
-	if AlmostZero(a.Length()) || AlmostZero(b.Length()) {
+	if AlmostZero(b.Length()) {
 		println("A OR B ZERO", StrF(a.Length()), StrF(b.Length()), StrF(l1.Len()), StrF(l2.Len()), StrF(g.Length()))
 		return nil
 	}
diff --git a/slicers/vip/offset_path.go b/slicers/vip/offset_path.go
index abe823a..ae8a95d 100644
--- a/slicers/vip/offset_path.go
+++ b/slicers/vip/offset_path.go
@@ -30,7 +30,7 @@ func MakeOffset(pth Path, nozzle float64, norm Vector) *Path {
 		println("not closed ", StrF(pth.Points[0].DistanceTo(pth.Points[len(pth.Points)-1])))
 	}
 	for i := 0; i < len(newPth)-1; i++ {
-		inters := newPth[i].IntersectLine2(newPth[i+1])
+		inters := copyNewPth[i].IntersectLine2(copyNewPth[(i+1)%len(copyNewPth)]) // not trimmed yet
 		if inters != nil {
 			newPth[i].P2 = *inters
 			newPth[i+1].P1 = *inters
-- 
2.43.0


From 5c4c26c334831d3d19fec6bfc5fb5eac2fa21032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:02 +0000
Subject: [PATCH 22/56] fix: neighbours of an edge that vanishes in an offset
 contour are not trimmed

---
 slicers/vip/offset_path.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/slicers/vip/offset_path.go b/slicers/vip/offset_path.go
index ae8a95d..665b3f7 100644
--- a/slicers/vip/offset_path.go
+++ b/slicers/vip/offset_path.go
@@ -60,15 +60,15 @@ func MakeOffset(pth Path, nozzle float64, norm Vector) *Path {
 		num = len(afterRemove)
 	}
 	for i := 0; i < num; i++ {
-		a := afterRemove[i]
-		b := afterRemove[(i+1)%len(afterRemove)]
+		a := &afterRemove[i]
+		b := &afterRemove[(i+1)%len(afterRemove)]
 		if !AlmostZero(a.P2.DistanceTo(b.P1)) {
-			inters := a.IntersectLine2(b)
+			inters := a.IntersectLine2(*b)
 			if inters != nil {
 				a.P2 = *inters
 				b.P1 = *inters
 			} else {
-				debug.AddLine(a, debug.BlueColor)
+				debug.AddLine(*a, debug.BlueColor)
 				debug.AddLine(Line{b.P1, b.P2.Shift(AxisX.MulScalar(15))}, debug.BlackColor)
 				b.P1 = a.P2
 			}
-- 
2.43.0


From ea4de4220e08705c1ee64a397dad5588c43ffe22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:42 +0000
Subject: [PATCH 23/56] fix: fill lines through corners of the walls leave the
 model or are missing

---
 slicers/fill_layer.go | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/slicers/fill_layer.go b/slicers/fill_layer.go
index 14ed9eb..71e4444 100644
--- a/slicers/fill_layer.go
+++ b/slicers/fill_layer.go
@@ -212,10 +212,14 @@ func intersectByPlane(pathes []Path, plane Plane) []Path {
 	pts := []Point{}
 	for _, pth := range pathes {
 		for i := 1; i < len(pth.Points); i++ {
-
-			p := plane.IntersectSegment(pth.Points[i-1], pth.Points[i])
-			if p != nil {
-				pts = append(pts, *p)
+			p1, p2 := pth.Points[i-1], pth.Points[i]
+			if i == len(pth.Points)-1 && pth.IsClosed() {
+				p2 = pth.Points[0]
+			}
+			// a plane through a point of the path crosses one of two lines there or none or both
+			if plane.PointInFront(p1) != plane.PointInFront(p2) {
+				d1, d2 := plane.P.VectorTo(p1).Dot(plane.N), plane.P.VectorTo(p2).Dot(plane.N)
+				pts = append(pts, p1.Shift(p1.VectorTo(p2).MulScalar(d1/(d1-d2))))
 			}
 		}
 	}
@@ -233,20 +237,13 @@ func intersectByPlane(pathes []Path, plane Plane) []Path {
 		})
 	}
 
-	if len(pts) > 4 {
-		paths := []Path{}
-		for i := 1; i < len(pts); i += 2 {
+	paths := []Path{}
+	for i := 1; i < len(pts); i += 2 {
+		if !pts[i-1].Equal(pts[i]) {
 			paths = append(paths, Path{Points: []Point{pts[i-1], pts[i]}})
 		}
-		return paths
-	}
-	if len(pts) == 2 || len(pts) == 3 {
-		return []Path{{Points: []Point{pts[0], pts[len(pts)-1]}}}
-	}
-	if len(pts) == 4 {
-		return []Path{{Points: []Point{pts[0], pts[1]}}, {Points: []Point{pts[2], pts[3]}}}
 	}
-	return nil //can not happen
+	return paths
 }
 
 func nearAngle(val, near float64) bool {
-- 
2.43.0


From e71c33e591fc7dada735326435f1ed0fb95e70f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:42 +0000
Subject: [PATCH 24/56] fix: fill density is wrong if the pattern does not
 divide it

---
 slicers/fill_layer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slicers/fill_layer.go b/slicers/fill_layer.go
index 71e4444..341c3e0 100644
--- a/slicers/fill_layer.go
+++ b/slicers/fill_layer.go
@@ -37,7 +37,7 @@ func CalcFillPlanesLines(mesh *Mesh, settings Settings) []Plane {
 
 // filling with squares
 func CalcFillPlanesSquares(mesh *Mesh, settings Settings) []Plane {
-	step := (100 / float64(settings.FillDensity/2)) * settings.GcodeSettings.LineWidth
+	step := (100 / (float64(settings.FillDensity) / 2)) * settings.GcodeSettings.LineWidth
 
 	//planes := calcFillPlanesCommon(mesh, settings, V(1, 0, 0), step)
 	//planes = append(planes, CalcFillPlanes0(mesh, settings, V(0, 1, 0), step)...)
@@ -50,7 +50,7 @@ func CalcFillPlanesSquares(mesh *Mesh, settings Settings) []Plane {
 
 // filling with triangles
 func CalcFillPlanesTriangles(mesh *Mesh, settings Settings) []Plane {
-	step := (100 / float64(settings.FillDensity/3)) * settings.GcodeSettings.LineWidth
+	step := (100 / (float64(settings.FillDensity) / 3)) * settings.GcodeSettings.LineWidth
 
 	planes := calcFillPlanesCommon(mesh, settings, V(1, 0, 0), step)
 	planes = append(planes, calcFillPlanesCommon(mesh, settings, V(0.5, 0.8660254038, 0), step)...)
-- 
2.43.0


From 0b6fbc0516ce10be5fa35afe36ad4c09d8437e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:42 +0000
Subject: [PATCH 25/56] fix: fill planes do not reach all corners of the model

---
 slicers/fill_layer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slicers/fill_layer.go b/slicers/fill_layer.go
index 341c3e0..a32a62c 100644
--- a/slicers/fill_layer.go
+++ b/slicers/fill_layer.go
@@ -10,9 +10,9 @@ import (
 func calcFillPlanesCommon(mesh *Mesh, settings Settings, MyAxis Vector, step float64) []Plane {
 	mina, maxa := mesh.MinMaxZ(AxisX)
 	minb, maxb := mesh.MinMaxZ(AxisY)
-	a, b := math.Sqrt(mina*mina+minb*minb), math.Sqrt(maxa*maxa+maxb*maxb)
+	r := math.Hypot(math.Max(-mina, maxa), math.Max(-minb, maxb)) // no point of the model is farther from the origin
 
-	minx, maxx := - math.Max(a, b), math.Max(a, b) //TODO: hack, seems will work not always (rotations and inclinations)
+	minx, maxx := -r, r //TODO: hack, seems will work not always (rotations and inclinations)
 	//get minx which is  "k * step"
 	minx_step := float64(math.Floor((minx)/step)) * step
 	n := int(math.Ceil((maxx - minx_step) / step))
-- 
2.43.0


From 8fe57ff0559df55906366edb52155ea03b7bffc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 26/56] fix: simplification to an unreachable size crashes

---
 helpers/simplify_mesh.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/helpers/simplify_mesh.go b/helpers/simplify_mesh.go
index 46eb4b9..7b7fb81 100644
--- a/helpers/simplify_mesh.go
+++ b/helpers/simplify_mesh.go
@@ -18,11 +18,23 @@ func SimplifyMesh(mesh *Mesh, resSize int) (*Mesh, error) {
 
 	factor := float64(resSize) / float64(actualSize)
 
-	smesh := toFoglemanMesh(mesh) //TODO: implement by self
-	smesh = smesh.Simplify(factor)
+	smesh, err := simplifyFogleman(toFoglemanMesh(mesh), factor) //TODO: implement by self
+	if err != nil {
+		return nil, fmt.Errorf("cannot simplify %d triangles to %d: %v", actualSize, resSize, err)
+	}
 	return toGoosliMesh(smesh), nil
 }
 
+// simplifyFogleman - the library panics when nothing more can be collapsed before the size is reached
+func simplifyFogleman(mesh *simplify.Mesh, factor float64) (res *simplify.Mesh, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			res, err = nil, fmt.Errorf("size cannot be reached: %v", r)
+		}
+	}()
+	return mesh.Simplify(factor), nil
+}
+
 func toFoglemanMesh(mesh *Mesh) *simplify.Mesh {
 	var sts []*simplify.Triangle
 	for _, t := range (mesh.Triangles) {
-- 
2.43.0


From 6def4182313510523b7e69ffca667f8cfceda771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:07 +0000
Subject: [PATCH 27/56] fix: analysis takes the overhangs of the remaining part
 from the whole model

---
 slicers/vip/analyze.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/slicers/vip/analyze.go b/slicers/vip/analyze.go
index f6bedd7..a44abf2 100644
--- a/slicers/vip/analyze.go
+++ b/slicers/vip/analyze.go
@@ -60,10 +60,13 @@ func Analyze(mesh *Mesh, angle float64) []AnalyzedPlane {
 		var t *Triangle
 		for i, fail := range fails {
 			if fail {
-				t2 := mesh.Triangles[i]
+				t2 := curMesh.Triangles[i]
 				if t2.P1.Z < 0.01 && t2.P2.Z < 0.01 && t2.P3.Z < 0.01 { // it is first layer, skip
 					continue
 				}
+				if t2.MaxZ(curPlaneV)-curPlane.P.ToVector().Dot(curPlaneV) < 0.01 { // it lies on the last cut, skip
+					continue
+				}
 				if t == nil || t.MinZ(curPlaneV) > t2.MinZ(curPlaneV) {
 					t = &t2
 				}
-- 
2.43.0


From a287fd261a3b5c192bad5c0db2e4d78130718d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:20 +0000
Subject: [PATCH 28/56] fix: planes for overhangs toward the negative Y side
 lean the wrong way, for flat ones nowhere

---
 primitives/vector.go   |  5 +++++
 slicers/vip/analyze.go | 25 +++++++++++++------------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/primitives/vector.go b/primitives/vector.go
index 4940e29..10ee0f9 100644
--- a/primitives/vector.go
+++ b/primitives/vector.go
@@ -90,6 +90,11 @@ func (a Vector) Angle(b Vector) float64 {
 	return math.Acos(v) * 180 / math.Pi
 }
 
+// DirectionXY - direction in plane XY in degrees from axis X towards axis Y, 0 for vertical vectors
+func (a Vector) DirectionXY() float64 {
+	return math.Atan2(a.Y, a.X) * 180 / math.Pi
+}
+
 func (a Vector) ProjectOn(b Vector) Vector {
 	bl := b.LengthSquare() // because result = b.MulScalar(projectLen/|b|), where projectLen = b.Dot(a)/|b|
 	if bl == 0 {
diff --git a/slicers/vip/analyze.go b/slicers/vip/analyze.go
index a44abf2..f157518 100644
--- a/slicers/vip/analyze.go
+++ b/slicers/vip/analyze.go
@@ -28,21 +28,25 @@ func ParsePlane(line string) AnalyzedPlane {
 		fmt.Printf("ERROR parsing bool: %v\n", err)
 	}
 	p.rotz = ParseFloat(words[4][1:])
-	v := AxisZ
-	if p.tilted {
-		v = v.RotateAbout(AxisX, -angleX)
-	}
-	v = v.RotateAbout(AxisZ, p.rotz)
 	p.Plane = Plane{
 		P: Point{
 			X: ParseFloat(words[0][1:]),
 			Y: ParseFloat(words[1][1:]),
 			Z: ParseFloat(words[2][1:]),
-		}, N: v,
+		}, N: bedNormal(p.tilted, p.rotz),
 	}
 	return p
 }
 
+// bedNormal - normal of the planes that become horizontal when bed is rotated by rotz and tilted
+func bedNormal(tilted bool, rotz float64) Vector {
+	v := AxisZ
+	if tilted {
+		v = v.RotateAbout(AxisX, -angleX)
+	}
+	return v.RotateAbout(AxisZ, rotz)
+}
+
 // Analyze - Analyzing and suggesting plane rotations for future slicing
 func Analyze(mesh *Mesh, angle float64) []AnalyzedPlane {
 	ans := []AnalyzedPlane{}
@@ -92,12 +96,9 @@ func Analyze(mesh *Mesh, angle float64) []AnalyzedPlane {
 		if curPlane.tilted {
 			curPlane = AnalyzedPlane{Plane{P: p, N: AxisZ}, false, 0}
 		} else {
-			angle := t.N.ProjectOnPlane(PlaneXY).Angle(AxisX) - 90
-			a := t.N.ProjectOnPlane(PlaneXY)
-			b := a.Rotate(RotationAroundZ(90))
-			norm := a.RotateAbout(b, 90-angleX)
-			println("angle x:", angle, norm.Angle(AxisX), norm.ProjectOnPlane(PlaneXY).Angle(AxisX))
-			curPlane = AnalyzedPlane{Plane{P: p, N: norm}, true, angle}
+			rotz := t.N.DirectionXY() - 90
+			println("angle z:", rotz)
+			curPlane = AnalyzedPlane{Plane{P: p, N: bedNormal(true, rotz)}, true, rotz}
 		}
 		ans = append(ans, curPlane)
 		curPlaneV = curPlane.N
-- 
2.43.0


From 538f082647909186c9b8fa8e519031002ce1aa20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:25 +0000
Subject: [PATCH 29/56] fix: fill planes do not follow rotated parts

---
 slicers/vip/slice_by_planes.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slicers/vip/slice_by_planes.go b/slicers/vip/slice_by_planes.go
index 37e4360..9e35442 100644
--- a/slicers/vip/slice_by_planes.go
+++ b/slicers/vip/slice_by_planes.go
@@ -17,7 +17,6 @@ type BedPlane struct {
 func SliceByPlanes(mesh *Mesh, settings slicers.Settings, cutPlanes []AnalyzedPlane) gcode.Gcode {
 	gcd := gcode.NewGcode(*settings.GcodeSettings)
 	debug.RecreateFile()
-	fillPlanes, fullFillPlanes := slicers.CalcFillPlanes(mesh, settings)
 	var up *Mesh
 	var err error
 
@@ -51,7 +50,8 @@ func SliceByPlanes(mesh *Mesh, settings slicers.Settings, cutPlanes []AnalyzedPl
 			rotated = false
 		}
 		add := slicers.SliceByVector(curmesh, AxisZ, settings)
-		filled := PrepareLayers(add, settings, fillPlanes, fullFillPlanes) //TODO: fillPlanes fix
+		fillPlanes, fullFillPlanes := slicers.CalcFillPlanes(curmesh, settings) //part is moved, so planes of whole mesh do not reach it
+		filled := PrepareLayers(add, settings, fillPlanes, fullFillPlanes)
 		if i == 0 && len(filled) > 0 {
 			filled[0] = SkirtPathes(filled[0], settings.SkirtLineCount, settings.GcodeSettings.LineWidth)
 		}
-- 
2.43.0


From 35967fbfbf574e37f11c0cd082dfc2a150e9d0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:49 +0000
Subject: [PATCH 30/56] fix: cutting again by the plane of an earlier cut
 leaves open parts

---
 helpers/cut_mesh.go     | 53 +++++++++++++++++++----------------------
 helpers/fill_section.go |  2 +-
 2 files changed, 25 insertions(+), 30 deletions(-)

diff --git a/helpers/cut_mesh.go b/helpers/cut_mesh.go
index 1269113..43255fd 100644
--- a/helpers/cut_mesh.go
+++ b/helpers/cut_mesh.go
@@ -4,6 +4,9 @@ import (
 	. "github.com/l1va/goosli/primitives"
 )
 
+// inPlane - vertices this near to the plane are in it, faces left by an earlier cut are rounded
+const inPlane = 2e-6
+
 //CutMesh mesh in two meshes, first that inFront of plane, second - outFront
 func CutMesh(mesh *Mesh, p Plane) (*Mesh, *Mesh, error) {
 	if mesh == nil || len(mesh.Triangles) == 0 {
@@ -14,11 +17,20 @@ func CutMesh(mesh *Mesh, p Plane) (*Mesh, *Mesh, error) {
 	var down []Triangle
 
 	inters := []Line{}
+	n := p.N.Normalize()
+	depth := func(v Point) float64 { return p.P.VectorTo(v).Dot(n) }
+	front := func(v Point) bool { return depth(v) >= -inPlane }
+	cut := func(front, back Point) Point { // the same for both triangles of an edge
+		d1, d2 := depth(front), depth(back)
+		if d1 <= inPlane {
+			return front
+		}
+		return front.Shift(front.VectorTo(back).MulScalar(d1 / (d1 - d2))).RoundPlaces(8)
+	}
 
 	for _, t := range mesh.Triangles {
-		front := p.PointInFront(t.P1)
-		if p.PointInFront(t.P2) == front && p.PointInFront(t.P3) == front {
-			if front {
+		if front(t.P2) == front(t.P1) && front(t.P3) == front(t.P1) {
+			if front(t.P1) {
 				up = append(up, t)
 			} else {
 				down = append(down, t)
@@ -26,31 +38,24 @@ func CutMesh(mesh *Mesh, p Plane) (*Mesh, *Mesh, error) {
 			continue
 		}
 		a, b, c := t.P1, t.P2, t.P3 // a is alone on its side
-		for p.PointInFront(a) == p.PointInFront(b) || p.PointInFront(a) == p.PointInFront(c) {
+		for front(a) == front(b) || front(a) == front(c) {
 			a, b, c = b, c, a
 		}
 
 		// line goes from the edge that leads to the front to the edge that leads to the back
-		line := p.IntersectTriangle(&t)
-		if line != nil {
-			line.P1 = snap(line.P1, t)
-			line.P2 = snap(line.P2, t)
-			if line.P1 != line.P2 {
-				inters = append(inters, *line)
-			}
-		} else { // the triangle has no width here
-			da, db := p.P.VectorTo(a).Dot(p.N), p.P.VectorTo(b).Dot(p.N)
-			cut := snap(a.Shift(a.VectorTo(b).MulScalar(da/(da-db))).RoundPlaces(8), t)
-			line = &Line{P1: cut, P2: cut}
-		}
-
-		if p.PointInFront(a) {
+		var line Line
+		if front(a) {
+			line = Line{P1: cut(a, c), P2: cut(a, b)}
 			up = appendTriangles(up, a, line.P2, line.P1)
 			down = appendTriangles(down, line.P2, b, c, line.P1)
 		} else {
+			line = Line{P1: cut(b, a), P2: cut(c, a)}
 			up = appendTriangles(up, line.P1, b, c, line.P2)
 			down = appendTriangles(down, a, line.P1, line.P2)
 		}
+		if line.P1 != line.P2 {
+			inters = append(inters, line)
+		}
 	}
 
 	//if len(up) == 0 || len(down) == 0 {
@@ -66,20 +71,10 @@ func CutMesh(mesh *Mesh, p Plane) (*Mesh, *Mesh, error) {
 	return &resUp, &resDown, nil
 }
 
-// snap - a plane through a vertex cuts the triangle in exactly this vertex
-func snap(pt Point, t Triangle) Point {
-	for _, v := range []Point{t.P1, t.P2, t.P3} {
-		if v.Equal(pt) {
-			return v
-		}
-	}
-	return pt
-}
-
 // appendTriangles of the convex polygon, but for those that are only an edge
 func appendTriangles(ts []Triangle, pts ...Point) []Triangle {
 	for i := 2; i < len(pts); i++ {
-		if !pts[0].Equal(pts[i-1]) && !pts[i-1].Equal(pts[i]) && !pts[i].Equal(pts[0]) {
+		if pts[0] != pts[i-1] && pts[i-1] != pts[i] && pts[i] != pts[0] {
 			ts = append(ts, NewTriangle(pts[0], pts[i-1], pts[i]))
 		}
 	}
diff --git a/helpers/fill_section.go b/helpers/fill_section.go
index 39e9059..8ceadb8 100644
--- a/helpers/fill_section.go
+++ b/helpers/fill_section.go
@@ -267,7 +267,7 @@ func clipEars(res []Triangle, pts []point2) []Triangle {
 			}
 		}
 		a, b, c := pts[(best+n-1)%n], pts[best], pts[(best+1)%n]
-		if !a.P.Equal(b.P) && !b.P.Equal(c.P) && !c.P.Equal(a.P) {
+		if !a.same(b) && !b.same(c) && !c.same(a) {
 			res = append(res, NewTriangle(a.P, b.P, c.P))
 		}
 		pts = append(pts[:best], pts[best+1:]...)
-- 
2.43.0


From 6caed593a27fee99260bd4115ca47c9d6a6f1411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:42 +0000
Subject: [PATCH 31/56] fix: automatic bed turns used the unsigned angle of the
 direction

---
 slicers/slice_5axes.go       |  4 ++--
 slicers/slice_by_profile.go  |  2 +-
 slicers/vip/slice_bridge.go  | 10 +++++-----
 slicers/vip/slice_default.go |  2 +-
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/slicers/slice_5axes.go b/slicers/slice_5axes.go
index d2cc184..f77ef80 100644
--- a/slicers/slice_5axes.go
+++ b/slicers/slice_5axes.go
@@ -113,7 +113,7 @@ func Slice5Axes(mesh *Mesh, settings Settings) gcode.Gcode {
 				gcd.Add(gcode.RotateXZ{})
 				rotated = false
 			} else {
-				angleZ = newPlane.N.ProjectOnPlane(PlaneXY).Angle(AxisX) + 90
+				angleZ = newPlane.N.DirectionXY() + 90
 				print(angleZ)
 				simpMesh = simpMesh.Rotate(RotationAroundZ(angleZ), OriginPoint)
 				simpMesh = simpMesh.Rotate(RotationAroundX(angleX), OriginPoint)
@@ -158,7 +158,7 @@ func CalculateFails(prevLayer, curLayer Layer) *Plane {
 				pl := Plane{P: prevCp, N: v.Cross(AxisZ)}
 				pi := pl.IntersectPathCodirectedWith(prevPath, v)
 				if pi != nil {
-					angleZ := prevCp.VectorTo(*pi).Angle(AxisX) + 90
+					angleZ := 90 - prevCp.VectorTo(*pi).DirectionXY() //rotation matrix turns clockwise
 					norm := AxisZ.Rotate(RotationAroundX(angleX)).Rotate(RotationAroundZ(angleZ))
 					return &Plane{P: *pi, N: norm}
 				}
diff --git a/slicers/slice_by_profile.go b/slicers/slice_by_profile.go
index 6313364..9494c67 100644
--- a/slicers/slice_by_profile.go
+++ b/slicers/slice_by_profile.go
@@ -34,7 +34,7 @@ func SliceByProfile(mesh *Mesh, settings Settings) gcode.Gcode {
 		} else {
 			down = up
 		}
-		angleZ := v.ProjectOnPlane(PlaneXY).Angle(AxisX) + 90
+		angleZ := v.DirectionXY() + 90
 		angleX := v.Angle(AxisZ)
 
 		println("angles: ", angleX, " ", angleZ, "")
diff --git a/slicers/vip/slice_bridge.go b/slicers/vip/slice_bridge.go
index 29d302d..c50ebcb 100644
--- a/slicers/vip/slice_bridge.go
+++ b/slicers/vip/slice_bridge.go
@@ -48,7 +48,7 @@ func SliceBridge(mesh *Mesh, settings Settings, layers []Layer) gcode.Gcode {
 	gcd.AddLayers(PrepareLayers(oneLeg, settings, fillPlanes, fullFillPlanes))
 
 	// Rotate bed
-	angleZ := newPlane.N.ProjectOnPlane(PlaneXY).Angle(AxisX) + 90
+	angleZ := newPlane.N.DirectionXY() + 90
 	mesh = mesh.Rotate(RotationAroundZ(angleZ), OriginPoint)
 	mesh = mesh.Rotate(RotationAroundX(angleX), OriginPoint)
 	gcd.Add(gcode.RotateZ{Angle: angleZ})
@@ -93,8 +93,8 @@ func failExistBridge(prevLayer, curLayer Layer) *Plane {
 		log.Println("could not find path intersections with plane: ", ip1, prevIp1, plane, p1, prevP1)
 	} else if AxisZ.Angle(prevIp1.VectorTo(*ip1)) > failAngle {
 		println(AxisZ.Angle(prevIp1.VectorTo(*ip1)))
-		angle := AxisX.Angle(cp1.VectorTo(cp2))
-		norm := AxisZ.Rotate(RotationAroundX(angleX)).Rotate(RotationAroundZ(angle + 90))
+		angle := cp1.VectorTo(cp2).DirectionXY()
+		norm := AxisZ.Rotate(RotationAroundX(angleX)).Rotate(RotationAroundZ(90 - angle)) //rotation matrix turns clockwise
 		pl := Plane{*prevIp1, norm}
 		return &pl
 	}
@@ -106,8 +106,8 @@ func failExistBridge(prevLayer, curLayer Layer) *Plane {
 		log.Println("could not find path intersections with plane: ", ip2, prevIp2, plane, p2, prevP2)
 	} else if AxisZ.Angle(prevIp2.VectorTo(*ip2)) > failAngle {
 		println(AxisZ.Angle(prevIp2.VectorTo(*ip2)))
-		angle := AxisX.Angle(cp2.VectorTo(cp1))
-		norm := AxisZ.Rotate(RotationAroundX(angleX)).Rotate(RotationAroundZ(angle + 90))
+		angle := cp2.VectorTo(cp1).DirectionXY()
+		norm := AxisZ.Rotate(RotationAroundX(angleX)).Rotate(RotationAroundZ(90 - angle)) //rotation matrix turns clockwise
 		pl := Plane{*prevIp2, norm}
 		return &pl
 	}
diff --git a/slicers/vip/slice_default.go b/slicers/vip/slice_default.go
index 238cb40..eed7e48 100644
--- a/slicers/vip/slice_default.go
+++ b/slicers/vip/slice_default.go
@@ -69,7 +69,7 @@ func SliceDefault2(mesh *Mesh, settings Settings, layers []Layer) gcode.Gcode {
 					fullFillPlanes[j] = plane.Rotate(RotationAroundX(-angleX)).Rotate(RotationAroundZ(-angleZ))
 				}
 			} else {
-				angleZ = newPlane.N.ProjectOnPlane(PlaneXY).Angle(AxisX) + 90
+				angleZ = newPlane.N.DirectionXY() + 90
 				println(angleZ)
 				mesh = mesh.Rotate(RotationAroundZ(angleZ), OriginPoint)
 				mesh = mesh.Rotate(RotationAroundX(angleX), OriginPoint)
-- 
2.43.0


From e238fafe3b67108c86f364a4bc82ba3c17887b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:42 +0000
Subject: [PATCH 32/56] fix: inward slopes counted as overhangs and turned the
 cutting plane away from the overhang

---
 slicers/slice_5axes.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/slicers/slice_5axes.go b/slicers/slice_5axes.go
index f77ef80..30a89bb 100644
--- a/slicers/slice_5axes.go
+++ b/slicers/slice_5axes.go
@@ -166,12 +166,12 @@ func CalculateFails(prevLayer, curLayer Layer) *Plane {
 		} else {
 			curX := AxisX
 			for j := 0; j < angleCount; j++ {
-				pl := Plane{P: curCp, N: curX.Cross(AxisZ)}
-				curPi := pl.IntersectPathCodirectedWith(pth, curX)
+				curPi := intersectPathFrom(curCp, pth, curX)
 				if curPi != nil {
-					prevPi := pl.IntersectPathCodirectedWith(*prevPath, curX)
+					prevPi := intersectPathFrom(curCp, *prevPath, curX)
 					if prevPi != nil {
-						if AxisZ.Angle(prevPi.VectorTo(*curPi)) > failAngle {
+						step := prevPi.VectorTo(*curPi)
+						if step.CodirectedWith(curX) && AxisZ.Angle(step) > failAngle { //inside incline is not a fail
 							failsCur = append(failsCur, float64(j*angleDist))
 						}
 					}
@@ -181,9 +181,8 @@ func CalculateFails(prevLayer, curLayer Layer) *Plane {
 			if len(failsCur) > 0 {
 				angleZ := float64(MiddleOnTheRing(failsCur, angleFull))
 				v := AxisX.Rotate(RotationAroundZ(angleZ))
-				pl := Plane{P: curCp, N: v.Cross(AxisZ)}
 
-				pi := pl.IntersectPathCodirectedWith(*prevPath, v)
+				pi := intersectPathFrom(curCp, *prevPath, v)
 				if pi != nil {
 					/*for _,li := range pth.Lines {
 						pp := middlePoint(li.P1,li.P2)
@@ -200,6 +199,18 @@ func CalculateFails(prevLayer, curLayer Layer) *Plane {
 	return nil
 }
 
+// intersectPathFrom returns the point where the ray from p along v crosses the path.
+func intersectPathFrom(p Point, pth Path, v Vector) *Point {
+	pl := Plane{P: p, N: v.Cross(AxisZ)}
+	for i := 1; i < len(pth.Points); i++ {
+		pi := pl.IntersectSegment(pth.Points[i-1], pth.Points[i])
+		if pi != nil && p.VectorTo(*pi).CodirectedWith(v) {
+			return pi
+		}
+	}
+	return nil
+}
+
 func middlePoint(x1, x2 Point) Point {
 	return Point{X: (x1.X + x2.X) / 2, Y: (x1.Y + x2.Y) / 2, Z: (x1.Z + x2.Z) / 2}
 }
-- 
2.43.0


From b3a8953bb823ff06bd4b3a95da37eceef0d6c034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:42 +0000
Subject: [PATCH 33/56] fix: the middle of an overhang wider than half the ring
 was beside it

---
 slicers/slice_5axes.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/slicers/slice_5axes.go b/slicers/slice_5axes.go
index 30a89bb..ba9c4be 100644
--- a/slicers/slice_5axes.go
+++ b/slicers/slice_5axes.go
@@ -234,10 +234,17 @@ func findPrevPath(prevP Point, prevLayer Layer) *Path {
 
 func MiddleOnTheRing(arr []float64, biggest int) int {
 	// assume that arr is sorted
-	i := 0
-	for arr[len(arr)-1]-arr[i] > float64(biggest)/2 {
+	// the ring is unrolled at its biggest gap
+	gap := arr[0] + float64(biggest) - arr[len(arr)-1]
+	start := 0
+	for i := 1; i < len(arr); i++ {
+		if arr[i]-arr[i-1] > gap {
+			gap = arr[i] - arr[i-1]
+			start = i
+		}
+	}
+	for i := 0; i < start; i++ {
 		arr[i] += float64(biggest)
-		i++
 	}
 	sum := 0.0
 	for _, num := range arr {
-- 
2.43.0


From f349693a6bf81e21ddb06aa5305d62f4a88f3a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:51 +0000
Subject: [PATCH 34/56] fix: empty lines in the plane file crash vip slicing

---
 slicers/vip/utils.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/slicers/vip/utils.go b/slicers/vip/utils.go
index 5b1c3fd..9b7e086 100644
--- a/slicers/vip/utils.go
+++ b/slicers/vip/utils.go
@@ -3,6 +3,7 @@ package vip
 import (
 	"bufio"
 	"os"
+	"strings"
 
 	. "github.com/l1va/goosli/primitives"
 	. "github.com/l1va/goosli/slicers"
@@ -76,7 +77,11 @@ func readPlanes(f string) []AnalyzedPlane {
 	scanner := bufio.NewScanner(file)
 	ans := []AnalyzedPlane{}
 	for scanner.Scan() {
-		ans = append(ans, ParsePlane(scanner.Text()))
+		line := scanner.Text()
+		if strings.TrimSpace(line) == "" {
+			continue
+		}
+		ans = append(ans, ParsePlane(line))
 	}
 
 	if err := scanner.Err(); err != nil {
-- 
2.43.0


From 0cbbcbfd68a57ea822f91f4eea5e41a6f0a11e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:52 +0000
Subject: [PATCH 35/56] fix: bridge and rotation slicing crash when nothing
 overhangs or legs end

---
 slicers/vip/slice_bridge.go   | 24 ++++++++++++++++--------
 slicers/vip/slice_main.go     |  7 +++++--
 slicers/vip/slice_rotation.go |  7 +++++++
 3 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/slicers/vip/slice_bridge.go b/slicers/vip/slice_bridge.go
index c50ebcb..b86e014 100644
--- a/slicers/vip/slice_bridge.go
+++ b/slicers/vip/slice_bridge.go
@@ -33,6 +33,9 @@ func SliceBridge(mesh *Mesh, settings Settings, layers []Layer) gcode.Gcode {
 	}
 	// Add horizontal layers
 	gcd.AddLayers(PrepareLayers(layers[:i], settings, fillPlanes, fullFillPlanes))
+	if newPlane == nil {
+		return gcd
+	}
 
 	anyPoint := layers[i].Paths[0].Points[0]
 	mesh, down, err := helpers.CutMesh(mesh, Plane{anyPoint, AxisZ})
@@ -73,8 +76,11 @@ func SliceBridge(mesh *Mesh, settings Settings, layers []Layer) gcode.Gcode {
 
 func failExistBridge(prevLayer, curLayer Layer) *Plane {
 
-	prevP1, prevP2 := getTwoOutsidePathes(prevLayer)
-	p1, p2 := getTwoOutsidePathes(curLayer)
+	prevP1, prevP2, prevOk := getTwoOutsidePathes(prevLayer)
+	p1, p2, ok := getTwoOutsidePathes(curLayer)
+	if !prevOk || !ok { // legs are over
+		return nil
+	}
 	prevCp1 := FindCentroid(prevP1)
 	cp1 := FindCentroid(p1)
 	cp2 := FindCentroid(p2)
@@ -114,14 +120,16 @@ func failExistBridge(prevLayer, curLayer Layer) *Plane {
 
 	return nil
 }
-func getTwoOutsidePathes(layer Layer) (Path, Path) {
+func getTwoOutsidePathes(layer Layer) (Path, Path, bool) {
 	all := getAllOutsidePathes(layer)
-	if len(all) == 2 {
-		return all[0], all[1]
+	if len(all) != 2 {
+		//debug.AddLayer(layer) //TODO:
+		println("there are not two outside pathes: ", len(all))
+	}
+	if len(all) < 2 {
+		return Path{}, Path{}, false
 	}
-	//debug.AddLayer(layer) //TODO:
-	println("there are not two outside pathes: ", len(all))
-	return all[0], all[1]
+	return all[0], all[1], true
 }
 func getAllOutsidePathes(layer Layer) []Path { //for horizontal pathes
 	var res []Path
diff --git a/slicers/vip/slice_main.go b/slicers/vip/slice_main.go
index 4e3786e..184ec6c 100644
--- a/slicers/vip/slice_main.go
+++ b/slicers/vip/slice_main.go
@@ -27,14 +27,17 @@ func Slice(mesh *Mesh, settings Settings) gcode.Gcode {
 
 	layers := SliceByVector(mesh, AxisZ, settings)
 
+	if len(layers) == 0 {
+		return SliceDefault2(mesh, settings, layers)
+	}
 	op := getAllOutsidePathes(layers[0])
 	if len(op) == 2 {
 		return SliceBridge(mesh, settings, layers)
 	}
-	println("outside pathes: ", len(op), len(op[0].Points))
+	println("outside pathes: ", len(op))
 	if len(op) == 1 && isRotation(op[0]) {
 		op = getAllOutsidePathes(layers[len(layers)-1])
-		println("outside pathes: ", len(op), len(op[0].Points))
+		println("outside pathes: ", len(op))
 		if len(op) == 1 && isRotation(op[0]) {
 			return SliceRotation(mesh, settings, layers)
 		}
diff --git a/slicers/vip/slice_rotation.go b/slicers/vip/slice_rotation.go
index ec8bf0c..855c34e 100644
--- a/slicers/vip/slice_rotation.go
+++ b/slicers/vip/slice_rotation.go
@@ -31,6 +31,9 @@ func SliceRotation(mesh *Mesh, settings Settings, layers []Layer) gcode.Gcode {
 	}
 	// Add horizontal layers
 	gcd.AddLayers(PrepareLayers(layers[:i], settings, fillPlanes, fullFillPlanes))
+	if i == len(layers) {
+		return gcd
+	}
 
 	anyPoint := layers[i].Paths[0].Points[0]
 	mesh, _, err := helpers.CutMesh(mesh, Plane{anyPoint, AxisZ})
@@ -66,6 +69,10 @@ func failRotaion(prevLayer, curLayer Layer) bool {
 		println("curLayer has not one path: ", len(curLayer.Paths))
 	}
 
+	if len(prevLayer.Paths) == 0 || len(curLayer.Paths) == 0 {
+		return false
+	}
+
 	anyP := prevLayer.Paths[0].Points[0]
 	//nearestP := curLayer.Paths[0].Lines[0].P1
 	//d := anyP.DistanceTo(nearestP)
-- 
2.43.0


From 1e45588fef306a8eececb07f95cdb8f658fb43c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:53 +0000
Subject: [PATCH 36/56] fix: models of one layer were not printed by the modes
 that turn the bed

---
 slicers/slice_5axes.go       | 4 +---
 slicers/slice_by_profile.go  | 9 ++++++++-
 slicers/vip/slice_default.go | 4 +---
 3 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/slicers/slice_5axes.go b/slicers/slice_5axes.go
index ba9c4be..1af530b 100644
--- a/slicers/slice_5axes.go
+++ b/slicers/slice_5axes.go
@@ -51,9 +51,6 @@ func Slice5Axes(mesh *Mesh, settings Settings) gcode.Gcode {
 		newPlane := CalculateFails(layers[i-1], layers[i])
 		if newPlane == nil {
 			i++
-			if i == len(layers) {
-				gcd.AddLayers(toAdd)
-			}
 		} else {
 			gcd.AddLayers(toAdd[:i])
 
@@ -129,6 +126,7 @@ func Slice5Axes(mesh *Mesh, settings Settings) gcode.Gcode {
 			i = 0
 		}
 	}
+	gcd.AddLayers(toAdd)
 
 	return gcd
 }
diff --git a/slicers/slice_by_profile.go b/slicers/slice_by_profile.go
index 9494c67..4c75756 100644
--- a/slicers/slice_by_profile.go
+++ b/slicers/slice_by_profile.go
@@ -15,6 +15,11 @@ func SliceByProfile(mesh *Mesh, settings Settings) gcode.Gcode {
 	//LayersToGcode(layers, "/home/l1va/debug.gcode", settings)
 
 	centers := calculateCenters(layers)
+	if len(centers) < 2 { // there is no profile
+		gcd := gcode.NewGcode(*settings.GcodeSettings)
+		gcd.AddLayers(layers)
+		return gcd
+	}
 	debug.AddPointsToFile(centers, debug.GreenColor)
 	simplified := helpers.SimplifyLine(centers, settings.Epsilon)
 	debug.AddPointsToFile(simplified, debug.GreenColor)
@@ -50,7 +55,9 @@ func SliceByProfile(mesh *Mesh, settings Settings) gcode.Gcode {
 func calculateCenters(layers []Layer) []Point {
 	var centers []Point
 	for _, layer := range layers {
-		centers = append(centers, calculateCenter(layer))
+		if len(layer.Paths) > 0 {
+			centers = append(centers, calculateCenter(layer))
+		}
 	}
 	return centers
 }
diff --git a/slicers/vip/slice_default.go b/slicers/vip/slice_default.go
index eed7e48..23e5acb 100644
--- a/slicers/vip/slice_default.go
+++ b/slicers/vip/slice_default.go
@@ -40,9 +40,6 @@ func SliceDefault2(mesh *Mesh, settings Settings, layers []Layer) gcode.Gcode {
 
 		if newPlane == nil {
 			i++
-			if i == len(layers) {
-				gcd.AddLayers(PrepareLayers(layers, settings, fillPlanes, fullFillPlanes))
-			}
 		} else {
 			mesh, down, err = helpers.CutMesh(mesh, *newPlane)
 			if err != nil {
@@ -90,6 +87,7 @@ func SliceDefault2(mesh *Mesh, settings Settings, layers []Layer) gcode.Gcode {
 			i = 1
 		}
 	}
+	gcd.AddLayers(PrepareLayers(layers, settings, fillPlanes, fullFillPlanes))
 	return gcd
 
 }
-- 
2.43.0


From c80cb344514433352eaca1ec5539c0de8aa943b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:55 +0000
Subject: [PATCH 37/56] fix: half a layer was lost where the model is cut at an
 overhang

---
 slicers/slice_5axes.go        | 2 +-
 slicers/vip/slice_bridge.go   | 4 ++--
 slicers/vip/slice_rotation.go | 4 ++--
 slicers/vip/utils.go          | 4 ++++
 4 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/slicers/slice_5axes.go b/slicers/slice_5axes.go
index 1af530b..ebc4be1 100644
--- a/slicers/slice_5axes.go
+++ b/slicers/slice_5axes.go
@@ -60,7 +60,7 @@ func Slice5Axes(mesh *Mesh, settings Settings) gcode.Gcode {
 			//rotated = true
 			debug.AddLayer(layers[i-1], debug.GreenColor)
 			debug.AddLayer(layers[i], debug.GreenColor)
-			curP := calculateCenter(layers[i])
+			curP := middlePoint(calculateCenter(layers[i-1]), calculateCenter(layers[i])) // the end of printed layers
 			//fmt.Printf("\n %v \n", layers[i])
 			fmt.Printf("\n %v \n", i)
 
diff --git a/slicers/vip/slice_bridge.go b/slicers/vip/slice_bridge.go
index b86e014..2c7f7e0 100644
--- a/slicers/vip/slice_bridge.go
+++ b/slicers/vip/slice_bridge.go
@@ -37,8 +37,8 @@ func SliceBridge(mesh *Mesh, settings Settings, layers []Layer) gcode.Gcode {
 		return gcd
 	}
 
-	anyPoint := layers[i].Paths[0].Points[0]
-	mesh, down, err := helpers.CutMesh(mesh, Plane{anyPoint, AxisZ})
+	cutPoint := middlePoint(layers[i-1].Paths[0].Points[0], layers[i].Paths[0].Points[0]) // the end of printed layers
+	mesh, down, err := helpers.CutMesh(mesh, Plane{cutPoint, AxisZ})
 	if err != nil {
 		log.Fatal("failed to cut mesh, before rotation: ", err)
 	}
diff --git a/slicers/vip/slice_rotation.go b/slicers/vip/slice_rotation.go
index 855c34e..a948328 100644
--- a/slicers/vip/slice_rotation.go
+++ b/slicers/vip/slice_rotation.go
@@ -35,8 +35,8 @@ func SliceRotation(mesh *Mesh, settings Settings, layers []Layer) gcode.Gcode {
 		return gcd
 	}
 
-	anyPoint := layers[i].Paths[0].Points[0]
-	mesh, _, err := helpers.CutMesh(mesh, Plane{anyPoint, AxisZ})
+	cutPoint := middlePoint(layers[i-1].Paths[0].Points[0], layers[i].Paths[0].Points[0]) // the end of printed layers
+	mesh, _, err := helpers.CutMesh(mesh, Plane{cutPoint, AxisZ})
 	if err != nil {
 		log.Fatal("failed to cut mesh, before rotation: ", err)
 	}
diff --git a/slicers/vip/utils.go b/slicers/vip/utils.go
index 9b7e086..1ea959b 100644
--- a/slicers/vip/utils.go
+++ b/slicers/vip/utils.go
@@ -67,6 +67,10 @@ func offset(pth Path, addWallsCount int, nozzle float64, norm Vector) []Path {
 
 }
 
+func middlePoint(x1, x2 Point) Point {
+	return Point{X: (x1.X + x2.X) / 2, Y: (x1.Y + x2.Y) / 2, Z: (x1.Z + x2.Z) / 2}
+}
+
 func readPlanes(f string) []AnalyzedPlane {
 	file, err := os.Open(f)
 	if err != nil {
-- 
2.43.0


From a090eb8a37e8a4c8b58c54815c647e490f1a445b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:56 +0000
Subject: [PATCH 38/56] fix: five-axis slicing ended the process when the mesh
 could not be simplified

---
 slicers/slice_5axes.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/slicers/slice_5axes.go b/slicers/slice_5axes.go
index ebc4be1..64dbe43 100644
--- a/slicers/slice_5axes.go
+++ b/slicers/slice_5axes.go
@@ -24,7 +24,8 @@ func Slice5Axes(mesh *Mesh, settings Settings) gcode.Gcode {
 
 	simpMesh, err := helpers.SimplifyMesh(mesh, 2500) //TODO: hardcoded value
 	if err != nil {
-		log.Fatal("simplification during slicing failed:", err)
+		println("simplification during slicing failed, using the mesh itself: ", err.Error())
+		simpMesh = mesh
 	}
 
 	//t1 := simpMesh.Triangles[199]
@@ -52,7 +53,10 @@ func Slice5Axes(mesh *Mesh, settings Settings) gcode.Gcode {
 		if newPlane == nil {
 			i++
 		} else {
-			gcd.AddLayers(toAdd[:i])
+			if i < len(toAdd) { // simplified mesh could be higher
+				toAdd = toAdd[:i]
+			}
+			gcd.AddLayers(toAdd)
 
 			//if rotated {
 			//	break
-- 
2.43.0


From f83b89c2a0232b4951addc45081d6c483460e99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:57 +0000
Subject: [PATCH 39/56] fix: bent columns and contours starting at a notch were
 taken for overhangs or holes

---
 slicers/slice_5axes.go      | 50 +++++++++++++++++++++----------------
 slicers/vip/slice_bridge.go | 10 ++------
 2 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/slicers/slice_5axes.go b/slicers/slice_5axes.go
index 64dbe43..07a7f8d 100644
--- a/slicers/slice_5axes.go
+++ b/slicers/slice_5axes.go
@@ -7,6 +7,7 @@ import (
 	"github.com/l1va/goosli/helpers"
 	. "github.com/l1va/goosli/primitives"
 	"log"
+	"math"
 )
 
 var (
@@ -140,16 +141,12 @@ func CalculateFails(prevLayer, curLayer Layer) *Plane {
 
 	for _, pth := range curLayer.Paths {
 		curCp := FindCentroid(pth)
-		if len(pth.Points) > 1 { //skip pth if it is just a hole
-			p1 := pth.Points[0]
-			p2 := pth.Points[1]
-			if p1.VectorTo(p2).Cross(AxisZ).CodirectedWith(curCp.VectorTo(p1)) {
-				continue
-			}
+		if pth.IsHole() { //skip pth if it is just a hole
+			continue
 		}
 
 		//prevP := curCp.Shift(sh.Reverse())
-		prevPath := findPrevPath(curCp, prevLayer)
+		prevPath := findPrevPath(curCp, pth, prevLayer)
 		var failsCur []float64
 		if prevPath == nil {
 			println("prevPath not found")
@@ -201,37 +198,46 @@ func CalculateFails(prevLayer, curLayer Layer) *Plane {
 	return nil
 }
 
-// intersectPathFrom returns the point where the ray from p along v crosses the path.
+// intersectPathFrom returns the last point where the ray from p along v crosses the path.
 func intersectPathFrom(p Point, pth Path, v Vector) *Point {
 	pl := Plane{P: p, N: v.Cross(AxisZ)}
+	var res *Point
 	for i := 1; i < len(pth.Points); i++ {
 		pi := pl.IntersectSegment(pth.Points[i-1], pth.Points[i])
 		if pi != nil && p.VectorTo(*pi).CodirectedWith(v) {
-			return pi
+			if res == nil || p.VectorTo(*pi).Dot(v) > p.VectorTo(*res).Dot(v) {
+				res = pi
+			}
 		}
 	}
-	return nil
+	return res
 }
 
 func middlePoint(x1, x2 Point) Point {
 	return Point{X: (x1.X + x2.X) / 2, Y: (x1.Y + x2.Y) / 2, Z: (x1.Z + x2.Z) / 2}
 }
 
-func findPrevPath(prevP Point, prevLayer Layer) *Path {
-	for _, pth := range prevLayer.Paths {
-		curP := FindCentroid(pth)
-		if len(pth.Points) > 1 { //skip pth if it is just a hole
-			p1 := pth.Points[0]
-			p2 := pth.Points[1]
-			if p1.VectorTo(p2).Cross(AxisZ).CodirectedWith(curP.VectorTo(p1)) {
-				continue
-			}
+func findPrevPath(curCp Point, curPath Path, prevLayer Layer) *Path {
+	beside := !curCp.Inside(curPath) // center of a bent path could be outside of it
+	nearest := 0.0                   // how far the path could be in this case
+	for _, p := range curPath.Points {
+		nearest = math.Max(nearest, curCp.DistanceTo(p))
+	}
+	var res *Path
+	for i, pth := range prevLayer.Paths {
+		if pth.IsHole() { //skip pth if it is just a hole
+			continue
 		}
-		if prevP.Inside(pth) {
-			return &pth
+		if beside {
+			if d := curCp.DistanceTo(FindCentroid(pth)); d < nearest {
+				nearest = d
+				res = &prevLayer.Paths[i]
+			}
+		} else if curCp.Inside(pth) {
+			return &prevLayer.Paths[i]
 		}
 	}
-	return nil
+	return res
 }
 
 func MiddleOnTheRing(arr []float64, biggest int) int {
diff --git a/slicers/vip/slice_bridge.go b/slicers/vip/slice_bridge.go
index 2c7f7e0..ce5dfc2 100644
--- a/slicers/vip/slice_bridge.go
+++ b/slicers/vip/slice_bridge.go
@@ -134,14 +134,8 @@ func getTwoOutsidePathes(layer Layer) (Path, Path, bool) {
 func getAllOutsidePathes(layer Layer) []Path { //for horizontal pathes
 	var res []Path
 	for i, pth := range layer.Paths {
-		curP := FindCentroid(pth)
-
-		if len(pth.Points) > 1 { //skip path if it is just an inner hole
-			p1 := pth.Points[0]
-			p2 := pth.Points[1]
-			if p1.VectorTo(p2).Cross(AxisZ).CodirectedWith(curP.VectorTo(p1)) {
-				continue
-			}
+		if pth.IsHole() { //skip path if it is just an inner hole
+			continue
 		}
 		res = append(res, layer.Paths[i])
 	}
-- 
2.43.0


From 010b25230d4d0b2217ba09639817be5b9f33d9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:50 +0000
Subject: [PATCH 40/56] fix: bridge legs leaning away from each other were cut
 toward each other

---
 slicers/vip/slice_bridge.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slicers/vip/slice_bridge.go b/slicers/vip/slice_bridge.go
index ce5dfc2..4f718fc 100644
--- a/slicers/vip/slice_bridge.go
+++ b/slicers/vip/slice_bridge.go
@@ -97,7 +97,7 @@ func failExistBridge(prevLayer, curLayer Layer) *Plane {
 	prevIp1 := plane.IntersectPathCodirectedWith(prevP1, cp1.VectorTo(cp2))
 	if ip1 == nil || prevIp1 == nil {
 		log.Println("could not find path intersections with plane: ", ip1, prevIp1, plane, p1, prevP1)
-	} else if AxisZ.Angle(prevIp1.VectorTo(*ip1)) > failAngle {
+	} else if prevIp1.VectorTo(*ip1).CodirectedWith(cp1.VectorTo(cp2)) && AxisZ.Angle(prevIp1.VectorTo(*ip1)) > failAngle {
 		println(AxisZ.Angle(prevIp1.VectorTo(*ip1)))
 		angle := cp1.VectorTo(cp2).DirectionXY()
 		norm := AxisZ.Rotate(RotationAroundX(angleX)).Rotate(RotationAroundZ(90 - angle)) //rotation matrix turns clockwise
@@ -110,7 +110,7 @@ func failExistBridge(prevLayer, curLayer Layer) *Plane {
 	prevIp2 := plane.IntersectPathCodirectedWith(prevP2, cp2.VectorTo(cp1))
 	if ip2 == nil || prevIp2 == nil {
 		log.Println("could not find path intersections with plane: ", ip2, prevIp2, plane, p2, prevP2)
-	} else if AxisZ.Angle(prevIp2.VectorTo(*ip2)) > failAngle {
+	} else if prevIp2.VectorTo(*ip2).CodirectedWith(cp2.VectorTo(cp1)) && AxisZ.Angle(prevIp2.VectorTo(*ip2)) > failAngle {
 		println(AxisZ.Angle(prevIp2.VectorTo(*ip2)))
 		angle := cp2.VectorTo(cp1).DirectionXY()
 		norm := AxisZ.Rotate(RotationAroundX(angleX)).Rotate(RotationAroundZ(90 - angle)) //rotation matrix turns clockwise
-- 
2.43.0


From 1b2f996cd5bb3a72d158278051904fc7e6c92a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:15 +0000
Subject: [PATCH 41/56] fix: goosli crashed on layer heights and coordinates
 that give no layers

---
 cmd/goosli/goosli.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/cmd/goosli/goosli.go b/cmd/goosli/goosli.go
index 69db826..1822125 100644
--- a/cmd/goosli/goosli.go
+++ b/cmd/goosli/goosli.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"io/ioutil"
 	"log"
+	"math"
 	"time"
 
 	"github.com/l1va/goosli/gcode"
@@ -97,6 +98,24 @@ func settings() slicers.Settings {
 	}
 }
 
+// maxLayers - model of more layers is damaged, or the layer height is wrong
+const maxLayers = 1e6
+
+func checkSize(mesh *Mesh, layerHeight float64) {
+	if !(layerHeight > 0) {
+		log.Fatal("layer height should be positive: ", layerHeight)
+	}
+	for _, t := range mesh.Triangles {
+		for _, p := range []Point{t.P1, t.P2, t.P3} {
+			for _, c := range []float64{p.X, p.Y, p.Z} {
+				if !(math.Abs(c) <= maxLayers*layerHeight) {
+					log.Fatal("model is too big to be sliced with layer height ", layerHeight, ", it has the point ", p)
+				}
+			}
+		}
+	}
+}
+
 func main() {
 
 	kingpin.Parse()
@@ -108,6 +127,7 @@ func main() {
 	//most := V(-60.08446554467082, -35.0, 0.0)
 	mesh.Shift(V(*ox, *oy, *oz))
 	//mesh.Shift(most)
+	checkSize(mesh, *layerHeight)
 
 	var gcd gcode.Gcode
 	setts := settings()
-- 
2.43.0


From 06eec2a8db11e6864ba4ad3a32a3b75c056d0b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:15 +0000
Subject: [PATCH 42/56] fix: slicing crashed on planes files with incomplete
 lines

---
 slicers/vip/utils.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/slicers/vip/utils.go b/slicers/vip/utils.go
index 1ea959b..e3fb85e 100644
--- a/slicers/vip/utils.go
+++ b/slicers/vip/utils.go
@@ -2,6 +2,7 @@ package vip
 
 import (
 	"bufio"
+	"log"
 	"os"
 	"strings"
 
@@ -85,6 +86,9 @@ func readPlanes(f string) []AnalyzedPlane {
 		if strings.TrimSpace(line) == "" {
 			continue
 		}
+		if len(strings.Fields(line)) < 5 {
+			log.Fatal("wrong line in planes file: ", line)
+		}
 		ans = append(ans, ParsePlane(line))
 	}
 
-- 
2.43.0


From 65e0f50b6054f9dea4020b0a772708e3bb22a467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:28 +0000
Subject: [PATCH 43/56] fix: debug file was created or emptied with debugging
 off

---
 debug/debug.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/debug/debug.go b/debug/debug.go
index 7f67e43..64da17a 100644
--- a/debug/debug.go
+++ b/debug/debug.go
@@ -18,6 +18,9 @@ var (
 var cfg = Config()
 
 func RecreateFile() {
+	if !cfg.Debug {
+		return
+	}
 	// delete file
 	var _, err = os.Stat(cfg.DebugFile)
 
-- 
2.43.0


From 3bbc0280fca0aa315f5ef05d61504a2f90b0a776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:51 +0000
Subject: [PATCH 44/56] fix: drawing ended the process when the debug file did
 not exist yet

---
 primitives/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/primitives/utils.go b/primitives/utils.go
index 7df38ba..7593883 100644
--- a/primitives/utils.go
+++ b/primitives/utils.go
@@ -33,7 +33,7 @@ func ToFile(buffer bytes.Buffer, filename string) {
 }
 
 func AddToFile(buffer bytes.Buffer, filename string) {
-	f, err := os.OpenFile(filename, os.O_APPEND|os.O_WRONLY, 0600)
+	f, err := os.OpenFile(filename, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From a0637443328dbaad031e8d5630a69d194e6dbdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:51 +0000
Subject: [PATCH 45/56] fix: supports touching the model were joined into its
 contours

---
 slicers/slice_by_vector.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/slicers/slice_by_vector.go b/slicers/slice_by_vector.go
index d3b7542..298f582 100644
--- a/slicers/slice_by_vector.go
+++ b/slicers/slice_by_vector.go
@@ -48,11 +48,8 @@ func SliceByVector(mesh *Mesh, Z Vector, settings Settings) []Layer {
 
 	sh := Z.MulScalar(maxz - minz).MulScalar(1.0 / float64(n))
 
-	in := make(chan job, n)
-	out := make(chan Layer, n)
-	DoInParallel(slicingWorker(in, out))
-
 	//make support triangles
+	var sup_triangles []Triangle
 	if supports {
 		temp := mesh.CopyTriangles()
 		sort.Slice(temp, func(i, j int) bool {
@@ -73,7 +70,6 @@ func SliceByVector(mesh *Mesh, Z Vector, settings Settings) []Layer {
 
 		col_lines := helpers.MakeUndoubledLinesFromTriangles(col_triangles)
 		sup_lines := helpers.MakeSupportLines(col_lines, plane)
-		var sup_triangles []Triangle
 		for i := range col_lines {
 			Tr1 := NewTriangle(sup_lines[i].P1, col_lines[i].P1, col_lines[i].P2)
 			Tr2 := NewTriangle(sup_lines[i].P1, sup_lines[i].P2, col_lines[i].P2)
@@ -88,9 +84,12 @@ func SliceByVector(mesh *Mesh, Z Vector, settings Settings) []Layer {
 				sup_triangles = append(sup_triangles, Tr2)
 			}
 		}
-		triangles = append(sup_triangles, triangles...)
 	}
 
+	in := make(chan job, n)
+	out := make(chan Layer, n)
+	DoInParallel(slicingWorker(in, out, sup_triangles))
+
 	index := 0
 	var active []*Triangle
 	curP := Z.MulScalar(minz).ToPoint().Shift(sh.MulScalar(0.5))
@@ -147,7 +146,7 @@ type job struct {
 	triangles []*Triangle
 }
 
-func slicingWorker(in chan job, out chan Layer) func(wi, wn int) {
+func slicingWorker(in chan job, out chan Layer, supports []Triangle) func(wi, wn int) {
 	return func(_, _ int) {
 		var paths []Path
 		for job := range in {
@@ -157,7 +156,19 @@ func slicingWorker(in chan job, out chan Layer) func(wi, wn int) {
 					paths = append(paths, Path{Points: []Point{line.P1, line.P2}})
 				}
 			}
-			out <- Layer{Order: job.order, Norm: job.plane.N, Paths: JoinPaths3AndMinimize(paths)}
+			layerPaths := JoinPaths3AndMinimize(paths)
+
+			// supports may touch the model, they are joined separately
+			paths = paths[:0]
+			for i := range supports {
+				if line := job.plane.IntersectTriangle(&supports[i]); line != nil {
+					paths = append(paths, Path{Points: []Point{line.P1, line.P2}})
+				}
+			}
+			if len(paths) > 0 {
+				layerPaths = append(layerPaths, JoinPaths3AndMinimize(paths)...)
+			}
+			out <- Layer{Order: job.order, Norm: job.plane.N, Paths: layerPaths}
 		}
 	}
 }
-- 
2.43.0


From 0465dfe8ccf4ebbc85ea75c9820edfc5ebd5c649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:26 +0000
Subject: [PATCH 46/56] fix: intersection of triangles was wrong for vertical
 ones

---
 primitives/triangle.go | 81 +++++++++---------------------------------
 1 file changed, 17 insertions(+), 64 deletions(-)

diff --git a/primitives/triangle.go b/primitives/triangle.go
index f35b713..1a61028 100644
--- a/primitives/triangle.go
+++ b/primitives/triangle.go
@@ -63,74 +63,27 @@ func (t *Triangle)IntersectTriangle(t2 *Triangle) *Line {
 		return nil
 	}
 
-	b1 := t.PointBelongs(line.P1)
-	b2 := t.PointBelongs(line.P2)
-
-	//if line is inside of triangle
-	if b1 && b2 {
-		return line
-	}
-
-	p1 := Line{P1: t.P1, P2: t.P2}.IntersectLine(line)
-	p2 := Line{P1: t.P1, P2: t.P3}.IntersectLine(line)
-	p3 := Line{P1: t.P2, P2: t.P3}.IntersectLine(line)
-
-	//if line crosses the one side of triangle
-	if b1 || b2 {
-		if p1 != nil{
-			if b1{
-				return &Line{P1: line.P1, P2: *p1}
-			}
-			if b2{
-				return &Line{P1: *p1, P2: line.P2}
-			}
+	// keep the part of the line which is inside of triangle
+	from, to := 0.0, 1.0
+	pts := [3]Point{t.P1, t.P2, t.P3}
+	for i := range pts {
+		inner := t.N.Cross(pts[i].VectorTo(pts[(i+1)%3]))
+		d1 := pts[i].VectorTo(line.P1).Dot(inner)
+		d2 := pts[i].VectorTo(line.P2).Dot(inner)
+		if d1 < 0 && d2 < 0 {
+			return nil
 		}
-		if p2 != nil{
-			if b1{
-				return &Line{P1: line.P1, P2: *p2}
-			}
-			if b2{
-				return &Line{P1: *p2, P2: line.P2}
-			}
+		if d1 < 0 {
+			from = math.Max(from, d1/(d1-d2))
+		} else if d2 < 0 {
+			to = math.Min(to, d1/(d1-d2))
 		}
-		if p3 != nil{
-			if b1{
-				return &Line{P1: line.P1, P2: *p3}
-			}
-			if b2{
-				return &Line{P1: *p3, P2: line.P2}
-			}
-		}
-
-	}
-
-	// if line crosses 2 sides of triangle
-	if p1 == nil && p2 != nil && p3 != nil{
-		return &Line{P1: *p2, P2: *p3}
-	}
-
-	if p1 != nil && p2 == nil && p3 != nil{
-		return &Line{P1: *p1, P2: *p3}
 	}
-
-	if p1 != nil && p2 != nil && p3 == nil{
-		return &Line{P1: *p1, P2: *p2}
-	}
-
-	// if line cross all siides of triangle (one edge and one vertex)
-	if p1 != nil && p2 != nil && p3 != nil {
-		if p1 == p2 {
-			return &Line{P1: *p1, P2: *p3}
-		}
-		if p1  == p3 {
-			return &Line{P1: *p1, P2: *p2}
-		}
-		if p2  == p3 {
-			return &Line{P1: *p1, P2: *p2}
-		}
+	if from >= to {
+		return nil
 	}
-
-	return nil
+	v := line.ToVector()
+	return &Line{P1: line.P1.Shift(v.MulScalar(from)), P2: line.P1.Shift(v.MulScalar(to))}
 }
 
 func (t *Triangle) PointBelongs(p Point) bool {
-- 
2.43.0


From 81bdf4202c35efc952476b2991bff392f77dc489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:01 +0000
Subject: [PATCH 47/56] fix: supports went through triangles which contain
 their corners

---
 helpers/supports_by_vector.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/helpers/supports_by_vector.go b/helpers/supports_by_vector.go
index 23c3cde..75500f2 100644
--- a/helpers/supports_by_vector.go
+++ b/helpers/supports_by_vector.go
@@ -39,11 +39,16 @@ func IntersectTriangles(t Triangle, triangles []Triangle) []Line {
 
 	var lines []Line
 	for _, bt := range triangles {
-		 if !(bt.PointBelongs(t.P1) ||  bt.PointBelongs(t.P2) || bt.PointBelongs(t.P3)) {
-			line := bt.IntersectTriangle(&t)
-			if line != nil {
-				lines = append(lines, *line)
-			}
+		line := bt.IntersectTriangle(&t)
+		if line == nil {
+			continue
+		}
+		// triangles only touching the border of t do not intersect it
+		middle := line.P1.Shift(line.ToVector().MulScalar(0.5))
+		if !AlmostZero(middle.DistanceToLine(t.P1, t.P2)) &&
+			!AlmostZero(middle.DistanceToLine(t.P2, t.P3)) &&
+			!AlmostZero(middle.DistanceToLine(t.P3, t.P1)) {
+			lines = append(lines, *line)
 		}
 	}
 	if len(lines) != 0 {
-- 
2.43.0


From 795a60355f0f0e9c8dbef1e8973f93b944a7cf83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:39 +0000
Subject: [PATCH 48/56] fix: supports were put inside of the model

---
 helpers/supports_by_vector.go | 13 +++++++++++++
 slicers/slice_by_vector.go    | 10 ++++++----
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/helpers/supports_by_vector.go b/helpers/supports_by_vector.go
index 75500f2..9b35fc3 100644
--- a/helpers/supports_by_vector.go
+++ b/helpers/supports_by_vector.go
@@ -1,6 +1,8 @@
 package helpers
 
 import (
+	"math"
+
 	. "github.com/l1va/goosli/primitives"
 )
 
@@ -59,6 +61,17 @@ func IntersectTriangles(t Triangle, triangles []Triangle) []Line {
 }
 
 
+// IsInside - returns true if the point is inside of the body, false on its surface or outside
+func IsInside(p Point, triangles []Triangle) bool {
+	sum := 0.0 // half of the solid angle the body is seen at
+	for _, t := range triangles {
+		a, b, c := p.VectorTo(t.P1), p.VectorTo(t.P2), p.VectorTo(t.P3)
+		la, lb, lc := a.Length(), b.Length(), c.Length()
+		sum += math.Atan2(a.Dot(b.Cross(c)), la*lb*lc+a.Dot(b)*lc+b.Dot(c)*la+c.Dot(a)*lb)
+	}
+	return sum > 1.5*math.Pi // 2*Pi inside, Pi on the surface
+}
+
 func MakeSupportLines(lines []Line, a Plane) []Line{
 	
 	var pr_lines []Line
diff --git a/slicers/slice_by_vector.go b/slicers/slice_by_vector.go
index 298f582..14f9219 100644
--- a/slicers/slice_by_vector.go
+++ b/slicers/slice_by_vector.go
@@ -70,17 +70,19 @@ func SliceByVector(mesh *Mesh, Z Vector, settings Settings) []Layer {
 
 		col_lines := helpers.MakeUndoubledLinesFromTriangles(col_triangles)
 		sup_lines := helpers.MakeSupportLines(col_lines, plane)
+		isFree := func(t Triangle) bool {
+			center := t.P1.ToVector().Add(t.P2.ToVector()).Add(t.P3.ToVector()).MulScalar(1.0 / 3).ToPoint()
+			return helpers.IntersectTriangles(t, temp) == nil && !helpers.IsInside(center, temp)
+		}
 		for i := range col_lines {
 			Tr1 := NewTriangle(sup_lines[i].P1, col_lines[i].P1, col_lines[i].P2)
 			Tr2 := NewTriangle(sup_lines[i].P1, sup_lines[i].P2, col_lines[i].P2)
 
-			lines := helpers.IntersectTriangles(Tr1, temp)
-			if lines == nil {
+			if isFree(Tr1) {
 				sup_triangles = append(sup_triangles, Tr1)
 			}
 
-			lines = helpers.IntersectTriangles(Tr2, temp)
-			if lines == nil {
+			if isFree(Tr2) {
 				sup_triangles = append(sup_triangles, Tr2)
 			}
 		}
-- 
2.43.0


From 08ed2c44df92c452d7599dd46a97daf85c1eb38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:48 +0000
Subject: [PATCH 49/56] fix: infill of tilted parts was sparser than set, solid
 layers had gaps

---
 slicers/vip/slice_bridge.go  |  8 +-------
 slicers/vip/slice_default.go | 13 +------------
 2 files changed, 2 insertions(+), 19 deletions(-)

diff --git a/slicers/vip/slice_bridge.go b/slicers/vip/slice_bridge.go
index 4f718fc..8e6924f 100644
--- a/slicers/vip/slice_bridge.go
+++ b/slicers/vip/slice_bridge.go
@@ -57,13 +57,7 @@ func SliceBridge(mesh *Mesh, settings Settings, layers []Layer) gcode.Gcode {
 	gcd.Add(gcode.RotateZ{Angle: angleZ})
 	gcd.Add(gcode.InclineX{})
 
-	for i, plane := range fillPlanes {
-		fillPlanes[i] = plane.Rotate(RotationAroundZ(angleZ)).Rotate(RotationAroundX(angleX))
-	}
-
-	for i, plane := range fullFillPlanes {
-		fullFillPlanes[i] = plane.Rotate(RotationAroundZ(angleZ)).Rotate(RotationAroundX(angleX))
-	}
+	fillPlanes, fullFillPlanes = CalcFillPlanes(mesh, settings) //tilted planes would be too far from each other in the layers
 
 	rest := SliceByVector(mesh, AxisZ, settings)
 	gcd.AddLayers(PrepareLayers(rest, settings, fillPlanes, fullFillPlanes))
diff --git a/slicers/vip/slice_default.go b/slicers/vip/slice_default.go
index 23e5acb..23a8b07 100644
--- a/slicers/vip/slice_default.go
+++ b/slicers/vip/slice_default.go
@@ -59,12 +59,6 @@ func SliceDefault2(mesh *Mesh, settings Settings, layers []Layer) gcode.Gcode {
 				rotated = false
 				println("triangles: ", len(mesh.Triangles))
 				println("rotate back")
-				for j, plane := range fillPlanes {
-					fillPlanes[j] = plane.Rotate(RotationAroundX(-angleX)).Rotate(RotationAroundZ(-angleZ))
-				}
-				for j, plane := range fullFillPlanes {
-					fullFillPlanes[j] = plane.Rotate(RotationAroundX(-angleX)).Rotate(RotationAroundZ(-angleZ))
-				}
 			} else {
 				angleZ = newPlane.N.DirectionXY() + 90
 				println(angleZ)
@@ -74,13 +68,8 @@ func SliceDefault2(mesh *Mesh, settings Settings, layers []Layer) gcode.Gcode {
 				gcd.Add(gcode.RotateZ{Angle: angleZ})
 				gcd.Add(gcode.InclineX{})
 				rotated = true
-				for j, plane := range fillPlanes {
-					fillPlanes[j] = plane.Rotate(RotationAroundZ(angleZ)).Rotate(RotationAroundX(angleX))
-				}
-				for j, plane := range fullFillPlanes {
-					fullFillPlanes[j] = plane.Rotate(RotationAroundZ(angleZ)).Rotate(RotationAroundX(angleX))
-				}
 			}
+			fillPlanes, fullFillPlanes = CalcFillPlanes(mesh, settings) //tilted planes would be too far from each other in the layers
 			layers = SliceByVector(mesh, AxisZ, settings)
 			println("len layers: ", len(layers))
 
-- 
2.43.0


From d2a3f2ad473c4041f07e3d050b281ac0df6cde7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:54 +0000
Subject: [PATCH 50/56] fix: walls were put outside of parts too thin for them

---
 slicers/vip/offset_path.go | 45 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/slicers/vip/offset_path.go b/slicers/vip/offset_path.go
index 665b3f7..714197a 100644
--- a/slicers/vip/offset_path.go
+++ b/slicers/vip/offset_path.go
@@ -1,6 +1,8 @@
 package vip
 
 import (
+	"math"
+
 	"github.com/l1va/goosli/debug"
 	. "github.com/l1va/goosli/primitives"
 )
@@ -85,5 +87,48 @@ func MakeOffset(pth Path, nozzle float64, norm Vector) *Path {
 		res.Points = append(res.Points, afterRemove[i].P2)
 	}
 	res = res.MinimizeLines()
+	if closedPath && !fits(res, pth, norm) {
+		return nil
+	}
 	return &res
 }
+
+// fits - false if the contour has no room for the offset: it is turned inside out, grows or goes beyond the contour
+func fits(offset, contour Path, norm Vector) bool {
+	was, is := area(contour, norm), area(offset, norm)
+	if was*is <= 0 {
+		return false
+	}
+	if was < 0 { // it is a hole, offset goes around it
+		return true
+	}
+	if is >= was {
+		return false
+	}
+	for _, axis := range []Vector{AxisX, AxisY, AxisZ} {
+		min, max := extent(contour, axis)
+		offMin, offMax := extent(offset, axis)
+		if offMin < min-0.001 || offMax > max+0.001 {
+			return false
+		}
+	}
+	return true
+}
+
+// area of the closed path, positive if it goes counter-clockwise seen against the normal
+func area(pth Path, norm Vector) float64 {
+	sum := 0.0
+	for i := 1; i < len(pth.Points); i++ {
+		sum += pth.Points[0].VectorTo(pth.Points[i-1]).Cross(pth.Points[0].VectorTo(pth.Points[i])).Dot(norm)
+	}
+	return sum / 2
+}
+
+func extent(pth Path, axis Vector) (min, max float64) {
+	min, max = math.Inf(1), math.Inf(-1)
+	for _, p := range pth.Points {
+		z := p.ToVector().Dot(axis)
+		min, max = math.Min(min, z), math.Max(max, z)
+	}
+	return min, max
+}
-- 
2.43.0


From 6492986cb4e999bea891c65389896bdbc3a0f341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:54 +0000
Subject: [PATCH 51/56] fix: walls were not trimmed in sharp corners

---
 primitives/line.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/primitives/line.go b/primitives/line.go
index c147437..60874ca 100644
--- a/primitives/line.go
+++ b/primitives/line.go
@@ -113,6 +113,11 @@ func (l1 Line) continuesBy(l2 Line) bool {
 	return l1.IsCollinear(l2) && l1.ToVector().CodirectedWith(l2.ToVector())
 }
 
+// spans - point of the same line lies between its ends
+func (l1 Line) spans(p Point) bool {
+	return l1.P1.VectorTo(p).Dot(l1.P2.VectorTo(p)) <= 0
+}
+
 // find instersection of lines https://math.stackexchange.com/questions/270767/find-intersection-of-two-3d-lines
 func (l1 Line) IntersectLine2(l2 Line) *Point {
 	f := l2.ToVector()
@@ -130,7 +135,8 @@ func (l1 Line) IntersectLine2(l2 Line) *Point {
 		c = -1.0
 	}
 	inters := l1.P1.Shift(e.MulScalar(c * a.Length() / b.Length()))
-	if math.IsNaN(inters.X) || math.IsNaN(inters.Y) || math.IsNaN(inters.Z) || inters.DistanceTo(l1.P2) > 2 || inters.DistanceTo(l2.P1) > 2 { //TODO: distance?
+	far := (inters.DistanceTo(l1.P2) > 2 || inters.DistanceTo(l2.P1) > 2) && !(l1.spans(inters) && l2.spans(inters)) //TODO: distance?
+	if math.IsNaN(inters.X) || math.IsNaN(inters.Y) || math.IsNaN(inters.Z) || far {
 		println("MORE 5", StrF(inters.DistanceTo(l1.P2)), StrF(inters.DistanceTo(l2.P1)))
 		return nil
 	}
-- 
2.43.0


From 316e1b0cdbfb319a02a82e75cd8ca76c023b1d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:08 +0000
Subject: [PATCH 52/56] fix: sides longer than 2 mm which end in a sharp corner
 were not trimmed

---
 primitives/line.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/primitives/line.go b/primitives/line.go
index 60874ca..c20032e 100644
--- a/primitives/line.go
+++ b/primitives/line.go
@@ -113,9 +113,9 @@ func (l1 Line) continuesBy(l2 Line) bool {
 	return l1.IsCollinear(l2) && l1.ToVector().CodirectedWith(l2.ToVector())
 }
 
-// spans - point of the same line lies between its ends
-func (l1 Line) spans(p Point) bool {
-	return l1.P1.VectorTo(p).Dot(l1.P2.VectorTo(p)) <= 0
+// trims - point of the same line lies before its end
+func (l1 Line) trims(p Point) bool {
+	return p.VectorTo(l1.P2).CodirectedWith(l1.ToVector())
 }
 
 // find instersection of lines https://math.stackexchange.com/questions/270767/find-intersection-of-two-3d-lines
@@ -135,7 +135,7 @@ func (l1 Line) IntersectLine2(l2 Line) *Point {
 		c = -1.0
 	}
 	inters := l1.P1.Shift(e.MulScalar(c * a.Length() / b.Length()))
-	far := (inters.DistanceTo(l1.P2) > 2 || inters.DistanceTo(l2.P1) > 2) && !(l1.spans(inters) && l2.spans(inters)) //TODO: distance?
+	far := (inters.DistanceTo(l1.P2) > 2 || inters.DistanceTo(l2.P1) > 2) && !(l1.trims(inters) && l2.Reverse().trims(inters)) //TODO: distance?
 	if math.IsNaN(inters.X) || math.IsNaN(inters.Y) || math.IsNaN(inters.Z) || far {
 		println("MORE 5", StrF(inters.DistanceTo(l1.P2)), StrF(inters.DistanceTo(l2.P1)))
 		return nil
-- 
2.43.0


From ae1bbdc0255f7f3133def29255a93ec1a95f56a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:08 +0000
Subject: [PATCH 53/56] fix: walls had spikes and came too close where several
 sides of a contour vanish

---
 slicers/vip/offset_path.go | 65 +++++++++++++++++++++++---------------
 1 file changed, 39 insertions(+), 26 deletions(-)

diff --git a/slicers/vip/offset_path.go b/slicers/vip/offset_path.go
index 714197a..bf8744e 100644
--- a/slicers/vip/offset_path.go
+++ b/slicers/vip/offset_path.go
@@ -46,34 +46,41 @@ func MakeOffset(pth Path, nozzle float64, norm Vector) *Path {
 		newPth[0].P1 = newPth[len(newPth)-1].P1
 		newPth = newPth[:len(newPth)-1] //remove added line
 	}
-	var remove []bool
-	var afterRemove []Line
-	for i := 0; i < len(newPth); i++ {
-		if newPth[i].ToVector().CodirectedWith(copyNewPth[i].ToVector()) {
-			remove = append(remove, false)
-			afterRemove = append(afterRemove, newPth[i])
-		} else {
-			remove = append(remove, true) //remove if become reversed
+	afterRemove := newPth
+	for len(afterRemove) > 1 {
+		worst, beyond := -1, 0.0 //reversed line which has vanished first
+		for i := 0; i < len(afterRemove); i++ {
+			if afterRemove[i].ToVector().CodirectedWith(copyNewPth[i].ToVector()) {
+				continue
+			}
+			prev := copyNewPth[(i+len(copyNewPth)-1)%len(copyNewPth)]
+			next := copyNewPth[(i+1)%len(copyNewPth)]
+			b := afterRemove[i].Len() / (shrink(prev, copyNewPth[i], norm) + shrink(copyNewPth[i], next, norm))
+			if worst < 0 || b > beyond {
+				worst, beyond = i, b
+			}
+		}
+		if worst < 0 {
+			break
+		}
+		afterRemove = append(afterRemove[:worst], afterRemove[worst+1:]...)
+		copyNewPth = append(copyNewPth[:worst], copyNewPth[worst+1:]...)
+		if !closedPath && (worst == 0 || worst == len(afterRemove)) {
+			continue
 		}
-	}
 
-	num := len(afterRemove) - 1
-	if closedPath {
-		num = len(afterRemove)
-	}
-	for i := 0; i < num; i++ {
-		a := &afterRemove[i]
-		b := &afterRemove[(i+1)%len(afterRemove)]
-		if !AlmostZero(a.P2.DistanceTo(b.P1)) {
-			inters := a.IntersectLine2(*b)
-			if inters != nil {
-				a.P2 = *inters
-				b.P1 = *inters
-			} else {
-				debug.AddLine(*a, debug.BlueColor)
-				debug.AddLine(Line{b.P1, b.P2.Shift(AxisX.MulScalar(15))}, debug.BlackColor)
-				b.P1 = a.P2
-			}
+		ai, bi := (worst+len(afterRemove)-1)%len(afterRemove), worst%len(afterRemove)
+		inters := copyNewPth[ai].IntersectLine2(copyNewPth[bi])
+		if inters == nil {
+			inters = afterRemove[ai].IntersectLine2(afterRemove[bi])
+		}
+		if inters != nil {
+			afterRemove[ai].P2 = *inters
+			afterRemove[bi].P1 = *inters
+		} else {
+			debug.AddLine(afterRemove[ai], debug.BlueColor)
+			debug.AddLine(Line{afterRemove[bi].P1, afterRemove[bi].P2.Shift(AxisX.MulScalar(15))}, debug.BlackColor)
+			afterRemove[bi].P1 = afterRemove[ai].P2
 		}
 	}
 
@@ -93,6 +100,12 @@ func MakeOffset(pth Path, nozzle float64, norm Vector) *Path {
 	return &res
 }
 
+// shrink - by how much the corner of two lines shortens each of them per mm of offset
+func shrink(l1, l2 Line, norm Vector) float64 {
+	a, b := l1.ToVector().Normalize(), l2.ToVector().Normalize()
+	return a.Cross(b).Dot(norm) / (1 + a.Dot(b))
+}
+
 // fits - false if the contour has no room for the offset: it is turned inside out, grows or goes beyond the contour
 func fits(offset, contour Path, norm Vector) bool {
 	was, is := area(contour, norm), area(offset, norm)
-- 
2.43.0


From 20ccbf9b80461abea10098182ec4c52d4267397b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:05 +0000
Subject: [PATCH 54/56] fix: hollow solids of revolution were judged by their
 hole instead of their outside

---
 slicers/vip/slice_rotation.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/slicers/vip/slice_rotation.go b/slicers/vip/slice_rotation.go
index a948328..dc00910 100644
--- a/slicers/vip/slice_rotation.go
+++ b/slicers/vip/slice_rotation.go
@@ -69,11 +69,13 @@ func failRotaion(prevLayer, curLayer Layer) bool {
 		println("curLayer has not one path: ", len(curLayer.Paths))
 	}
 
-	if len(prevLayer.Paths) == 0 || len(curLayer.Paths) == 0 {
+	prevOutside := getAllOutsidePathes(prevLayer)
+	curOutside := getAllOutsidePathes(curLayer)
+	if len(prevOutside) == 0 || len(curOutside) == 0 {
 		return false
 	}
 
-	anyP := prevLayer.Paths[0].Points[0]
+	anyP := prevOutside[0].Points[0]
 	//nearestP := curLayer.Paths[0].Lines[0].P1
 	//d := anyP.DistanceTo(nearestP)
 	//for _, line := range curLayer.Paths[0].Lines {
@@ -83,9 +85,9 @@ func failRotaion(prevLayer, curLayer Layer) bool {
 	//		nearestP = line.P2
 	//	}
 	//}
-	cp := FindCentroid(prevLayer.Paths[0])
+	cp := FindCentroid(prevOutside[0])
 	plane := Plane{anyP, cp.VectorTo(anyP).Cross(AxisZ)}
-	nearestP := plane.IntersectPathCodirectedWith(curLayer.Paths[0], cp.VectorTo(anyP))
+	nearestP := plane.IntersectPathCodirectedWith(curOutside[0], cp.VectorTo(anyP))
 
 	if nearestP != nil && AxisZ.Angle(anyP.VectorTo(*nearestP)) > failAngle {
 		if cp.DistanceTo(anyP) > cp.DistanceTo(*nearestP) { // inside incline
-- 
2.43.0


From f767c1feb8dd052326369689ab90b59715388c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:40 +0000
Subject: [PATCH 55/56] fix: beside overhangs of hollow parts were cut at the
 hole instead of the outside

---
 slicers/slice_5axes.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/slicers/slice_5axes.go b/slicers/slice_5axes.go
index 07a7f8d..7c795b0 100644
--- a/slicers/slice_5axes.go
+++ b/slicers/slice_5axes.go
@@ -150,8 +150,10 @@ func CalculateFails(prevLayer, curLayer Layer) *Plane {
 		var failsCur []float64
 		if prevPath == nil {
 			println("prevPath not found")
-			if len(prevLayer.Paths) > 0 {
-				prevPath := prevLayer.Paths[0] //checking only first pth
+			for _, prevPath := range prevLayer.Paths {
+				if prevPath.IsHole() {
+					continue
+				}
 				prevCp := FindCentroid(prevPath)
 				v := prevCp.VectorTo(curCp).ProjectOnPlane(PlaneXY)
 				pl := Plane{P: prevCp, N: v.Cross(AxisZ)}
@@ -161,6 +163,7 @@ func CalculateFails(prevLayer, curLayer Layer) *Plane {
 					norm := AxisZ.Rotate(RotationAroundX(angleX)).Rotate(RotationAroundZ(angleZ))
 					return &Plane{P: *pi, N: norm}
 				}
+				break //checking only first pth
 			}
 		} else {
 			curX := AxisX
-- 
2.43.0


From 2d76275a9c3811071c1f76d1dee078907dfee21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:52 +0000
Subject: [PATCH 56/56] fix: parts that move more than their half width in a
 layer were cut at another part

---
 slicers/slice_5axes.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/slicers/slice_5axes.go b/slicers/slice_5axes.go
index 7c795b0..55a92c3 100644
--- a/slicers/slice_5axes.go
+++ b/slicers/slice_5axes.go
@@ -150,20 +150,23 @@ func CalculateFails(prevLayer, curLayer Layer) *Plane {
 		var failsCur []float64
 		if prevPath == nil {
 			println("prevPath not found")
-			for _, prevPath := range prevLayer.Paths {
-				if prevPath.IsHole() {
-					continue
+			nearest := math.Inf(1)
+			for i, p := range prevLayer.Paths {
+				if d := curCp.DistanceTo(FindCentroid(p)); !p.IsHole() && d < nearest {
+					nearest = d
+					prevPath = &prevLayer.Paths[i] //checking only nearest pth
 				}
-				prevCp := FindCentroid(prevPath)
+			}
+			if prevPath != nil {
+				prevCp := FindCentroid(*prevPath)
 				v := prevCp.VectorTo(curCp).ProjectOnPlane(PlaneXY)
 				pl := Plane{P: prevCp, N: v.Cross(AxisZ)}
-				pi := pl.IntersectPathCodirectedWith(prevPath, v)
+				pi := pl.IntersectPathCodirectedWith(*prevPath, v)
 				if pi != nil {
 					angleZ := 90 - prevCp.VectorTo(*pi).DirectionXY() //rotation matrix turns clockwise
 					norm := AxisZ.Rotate(RotationAroundX(angleX)).Rotate(RotationAroundZ(angleZ))
 					return &Plane{P: *pi, N: norm}
 				}
-				break //checking only first pth
 			}
 		} else {
 			curX := AxisX
-- 
2.43.0


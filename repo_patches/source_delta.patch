From ec7dfc654e32c2b5b2dfe2a400c923ce4dbd2e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:45 +0000
Subject: [PATCH 01/43] fix: take a vertex or an edge lying in the slicing
 plane into account once

A plane through a vertex or an edge got zero, one or two segments from the
triangles around it, so contours were left open or were doubled. A triangle
that only touches the plane from the front side does not give a segment now.
---
 primitives/plane.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/primitives/plane.go b/primitives/plane.go
index 23ccd91..f828255 100644
--- a/primitives/plane.go
+++ b/primitives/plane.go
@@ -47,6 +47,10 @@ func (p Plane) IntersectTriangle(t *Triangle) *Line {
 		return nil
 	}
 
+	if p.PointInFront(t.P1) && p.PointInFront(t.P2) && p.PointInFront(t.P3) {
+		return nil // the triangle only touches the plane from the front side
+	}
+
 	v1 := p.IntersectSegment(t.P1, t.P2)
 	v2 := p.IntersectSegment(t.P2, t.P3)
 	v3 := p.IntersectSegment(t.P3, t.P1)
-- 
2.43.0


From 92a47e5555c3bd5fbcf210ad68fff122d9166757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:48 +0000
Subject: [PATCH 02/43] fix: join paths whose ends are equal but not neighbours
 in the sort order

The comparator used a tolerance and was not a strict order, and equal ends
were looked for only among neighbours, so contours of walls with noise about
1e-9..1e-6 in coordinates were left open.
---
 primitives/path.go | 51 +++++++++++++++++++++++-----------------------
 1 file changed, 26 insertions(+), 25 deletions(-)

diff --git a/primitives/path.go b/primitives/path.go
index e1b1cd0..6aeb3a8 100644
--- a/primitives/path.go
+++ b/primitives/path.go
@@ -125,33 +125,34 @@ func JoinPaths3(p []Path) []Path {
 			Ind: i,
 		}
 	}
-	sort.Slice(a, func(i, j int) bool {
-		b := a[i].P
-		c := a[j].P
-		return b.X < c.X || (AlmostZero(b.X-c.X) && b.Y < c.Y) || (AlmostZero(b.X-c.X) && AlmostZero(b.Y-c.Y) && b.Z < c.Z)
-	})
+	// Equal points may differ by almostZeroNumber in each coordinate, so they are not always neighbours in
+	// lexicographic order. Order by one projection and compare with everything that is close enough along it.
+	proj := func(p Point) float64 { return p.X*0.8417 + p.Y*0.4793 + p.Z*0.2486 }
+	sort.Slice(a, func(i, j int) bool { return proj(a[i].P) < proj(a[j].P) })
 
 	for i := 1; i < len(a); i++ {
-		b := a[i-1]
-		c := a[i]
-		if b.P.Equal(c.P) {
-			j1 := b.Ind
-			for w[j1] != j1 {
-				j1 = w[j1]
-			}
-			p1 := p[j1]
-			j2 := c.Ind
-			for w[j2] != j2 {
-				j2 = w[j2]
-			}
-			if j1 == j2 {
-				continue
-			}
-			p2 := p[j2]
-			res := tryJoin(p1, p2)
-			if res != nil {
-				p[j1] = *res
-				w[j2] = j1
+		for k := i - 1; k >= 0 && proj(a[i].P)-proj(a[k].P) < 2*almostZeroNumber; k-- {
+			b := a[k]
+			c := a[i]
+			if b.P.Equal(c.P) {
+				j1 := b.Ind
+				for w[j1] != j1 {
+					j1 = w[j1]
+				}
+				p1 := p[j1]
+				j2 := c.Ind
+				for w[j2] != j2 {
+					j2 = w[j2]
+				}
+				if j1 == j2 {
+					continue
+				}
+				p2 := p[j2]
+				res := tryJoin(p1, p2)
+				if res != nil {
+					p[j1] = *res
+					w[j2] = j1
+				}
 			}
 		}
 	}
-- 
2.43.0


From 337cb3a9ccccd1e24913c9a33c47ec5aafb7b8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:04 +0000
Subject: [PATCH 03/43] fix: keep direction of the cut contour in triangles
 that close the cut

Direction was chosen for every triangle of the fan separately, so for concave
contours and for contours with holes the caps covered wrong area and volume of
the parts was not equal to volume of the whole.
---
 helpers/cut_mesh.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/helpers/cut_mesh.go b/helpers/cut_mesh.go
index c84ee5c..9dc1292 100644
--- a/helpers/cut_mesh.go
+++ b/helpers/cut_mesh.go
@@ -82,13 +82,10 @@ func CutMesh(mesh *Mesh, p Plane) (*Mesh, *Mesh, error) {
 		for j := 1; j < len(pth.Points)-1; j++ {
 			t := NewTriangle(pth.Points[0], pth.Points[j], pth.Points[j+1])
 			t2 := NewTriangle(pth.Points[j+1], pth.Points[j], pth.Points[0]) //with reverse normal
-			if t.N.CodirectedWith(p.N) { //triangle normal should go inside the mesh
-				up = append(up, t2)
-				down = append(down, t)
-			} else {
-				up = append(up, t)
-				down = append(down, t2)
-			}
+			//the body is always on the right of the contour, so the direction of the contour gives the direction
+			//of all triangles, even of those which are outside of a concave contour or which close a hole
+			up = append(up, t)
+			down = append(down, t2)
 		}
 	}
 
-- 
2.43.0


From 3606d7a1b7744c37ca96570cb583d264198e5820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:07 +0000
Subject: [PATCH 04/43] fix: do not lose triangles that only touch the plane
 during the cut

A triangle with one vertex in the plane was skipped, and both parts got a hole.
---
 helpers/cut_mesh.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/helpers/cut_mesh.go b/helpers/cut_mesh.go
index 9dc1292..c6f6f7b 100644
--- a/helpers/cut_mesh.go
+++ b/helpers/cut_mesh.go
@@ -3,7 +3,6 @@ package helpers
 import (
 	. "github.com/l1va/goosli/primitives"
 	//	"fmt"
-	"log"
 )
 
 //CutMesh mesh in two meshes, first that inFront of plane, second - outFront
@@ -40,7 +39,7 @@ func CutMesh(mesh *Mesh, p Plane) (*Mesh, *Mesh, error) {
 		} else if len(inFront) == 2 {
 			line := p.IntersectTriangle(&t)
 			if line == nil {
-				log.Printf("failed to intersect triangle by plane2, skip it: %v, %v\n", t, p)
+				up, down = addTouching(up, down, t, p)
 				continue
 			}
 			inters = append(inters, Path{Points: []Point{line.P1, line.P2}})
@@ -54,7 +53,7 @@ func CutMesh(mesh *Mesh, p Plane) (*Mesh, *Mesh, error) {
 		} else if len(inFront) == 1 {
 			line := p.IntersectTriangle(&t)
 			if line == nil {
-				log.Printf("failed to intersect triangle by plane1, skip it: %v, %v\n", t, p)
+				up, down = addTouching(up, down, t, p)
 				continue
 			}
 			inters = append(inters, Path{Points: []Point{line.P1, line.P2}})
@@ -94,6 +93,15 @@ func CutMesh(mesh *Mesh, p Plane) (*Mesh, *Mesh, error) {
 	return &resUp, &resDown, nil
 }
 
+// addTouching adds triangle, that only touches the plane, to the mesh where the biggest part of it lies
+func addTouching(up, down []Triangle, t Triangle, p Plane) ([]Triangle, []Triangle) {
+	sum := p.P.VectorTo(t.P1).Dot(p.N) + p.P.VectorTo(t.P2).Dot(p.N) + p.P.VectorTo(t.P3).Dot(p.N)
+	if sum >= 0 {
+		return append(up, t), down
+	}
+	return up, append(down, t)
+}
+
 // p1 - point that from triangle 1
 // ans consist of 3 triangle: 1 leaves as triangle, 2 and 3 - triangles from quadrangle
 func splitOnThree(p1 Point, line Line, t Triangle) []Triangle {
-- 
2.43.0


From 0fe276b6a3af683b7cac953cd121dd280354c7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:31 +0000
Subject: [PATCH 05/43] fix: angle between opposite vectors is 180, not 0

Because of rounding the cosine can be a little less than -1 and 0 was returned,
so e.g. triangles looking straight up were colorized as overhanging.
---
 primitives/vector.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/primitives/vector.go b/primitives/vector.go
index 6b59534..8557df8 100644
--- a/primitives/vector.go
+++ b/primitives/vector.go
@@ -82,9 +82,12 @@ func (a Vector) Reverse() Vector {
 
 func (a Vector) Angle(b Vector) float64 {
 	v := a.Dot(b) / a.Length() / b.Length()
-	if v < -1 || v > 1 {
+	if v > 1 { // can be because of rounding
 		return 0
 	}
+	if v < -1 {
+		return 180
+	}
 	return math.Acos(v) * 180 / math.Pi
 }
 
-- 
2.43.0


From 7074a832c41082f22ff2c0b579389086bcbd4dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:33 +0000
Subject: [PATCH 06/43] fix: fill planes should cover all corners of the model

Only two of four corners were taken into account, so squares and triangles did
not reach the farthest corner of a model that is not centered.
---
 slicers/fill_layer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/slicers/fill_layer.go b/slicers/fill_layer.go
index 14ed9eb..d6b663b 100644
--- a/slicers/fill_layer.go
+++ b/slicers/fill_layer.go
@@ -10,9 +10,10 @@ import (
 func calcFillPlanesCommon(mesh *Mesh, settings Settings, MyAxis Vector, step float64) []Plane {
 	mina, maxa := mesh.MinMaxZ(AxisX)
 	minb, maxb := mesh.MinMaxZ(AxisY)
-	a, b := math.Sqrt(mina*mina+minb*minb), math.Sqrt(maxa*maxa+maxb*maxb)
+	a, b := math.Max(math.Abs(mina), math.Abs(maxa)), math.Max(math.Abs(minb), math.Abs(maxb))
+	r := math.Sqrt(a*a + b*b) // distance to the farthest corner
 
-	minx, maxx := - math.Max(a, b), math.Max(a, b) //TODO: hack, seems will work not always (rotations and inclinations)
+	minx, maxx := -r, r //TODO: hack, seems will work not always (rotations and inclinations)
 	//get minx which is  "k * step"
 	minx_step := float64(math.Floor((minx)/step)) * step
 	n := int(math.Ceil((maxx - minx_step) / step))
-- 
2.43.0


From b4b1357f8527671411aeecfa7db729edf1323c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:36 +0000
Subject: [PATCH 07/43] fix: count a contour vertex lying in the fill plane
 once

A vertex in the plane gave two intersection points, and all next points were
paired wrong: lines were drawn outside of the contour instead of inside.
---
 slicers/fill_layer.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/slicers/fill_layer.go b/slicers/fill_layer.go
index d6b663b..13194e2 100644
--- a/slicers/fill_layer.go
+++ b/slicers/fill_layer.go
@@ -213,11 +213,14 @@ func intersectByPlane(pathes []Path, plane Plane) []Path {
 	pts := []Point{}
 	for _, pth := range pathes {
 		for i := 1; i < len(pth.Points); i++ {
-
+			if plane.PointInFront(pth.Points[i-1]) == plane.PointInFront(pth.Points[i]) {
+				continue // does not cross, only touches may be (a vertex should not be counted twice)
+			}
 			p := plane.IntersectSegment(pth.Points[i-1], pth.Points[i])
-			if p != nil {
-				pts = append(pts, *p)
+			if p == nil { // the end is in the plane, but because of rounding it is not found
+				p = &pth.Points[i]
 			}
+			pts = append(pts, *p)
 		}
 	}
 	if len(pts) < 2 {
-- 
2.43.0


From 5b8795e4ad75f71a1036f8235b6789ff03e03221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:00 +0000
Subject: [PATCH 08/43] fix: do not truncate fill density of squares and
 triangles

The density was divided by number of directions as integer: 20% of triangles
was 18% in fact, and with 2% there were no lines at all.
---
 slicers/fill_layer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slicers/fill_layer.go b/slicers/fill_layer.go
index 13194e2..37dc87b 100644
--- a/slicers/fill_layer.go
+++ b/slicers/fill_layer.go
@@ -38,7 +38,7 @@ func CalcFillPlanesLines(mesh *Mesh, settings Settings) []Plane {
 
 // filling with squares
 func CalcFillPlanesSquares(mesh *Mesh, settings Settings) []Plane {
-	step := (100 / float64(settings.FillDensity/2)) * settings.GcodeSettings.LineWidth
+	step := (100 / (float64(settings.FillDensity) / 2)) * settings.GcodeSettings.LineWidth
 
 	//planes := calcFillPlanesCommon(mesh, settings, V(1, 0, 0), step)
 	//planes = append(planes, CalcFillPlanes0(mesh, settings, V(0, 1, 0), step)...)
@@ -51,7 +51,7 @@ func CalcFillPlanesSquares(mesh *Mesh, settings Settings) []Plane {
 
 // filling with triangles
 func CalcFillPlanesTriangles(mesh *Mesh, settings Settings) []Plane {
-	step := (100 / float64(settings.FillDensity/3)) * settings.GcodeSettings.LineWidth
+	step := (100 / (float64(settings.FillDensity) / 3)) * settings.GcodeSettings.LineWidth
 
 	planes := calcFillPlanesCommon(mesh, settings, V(1, 0, 0), step)
 	planes = append(planes, calcFillPlanesCommon(mesh, settings, V(0.5, 0.8660254038, 0), step)...)
-- 
2.43.0


From 685b88bbb57d0f37e8813cbf682b64f85aab0853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:15 +0000
Subject: [PATCH 09/43] fix: retraction should be relative to the current
 extruder position

The extruder is in the absolute mode, but -distance itself was written as a
position, so all filament extruded so far was pulled out and pushed back. The
speed of the retraction was also left for printing of the whole path.
---
 gcode/cmds.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/gcode/cmds.go b/gcode/cmds.go
index 009be9c..295d4d4 100644
--- a/gcode/cmds.go
+++ b/gcode/cmds.go
@@ -176,12 +176,16 @@ func printSpeedToGCode(state State, sett GcodeSettings, b *bytes.Buffer) State {
 	return state
 }
 
-func retractionToGCode(b *bytes.Buffer, sett GcodeSettings) {
+// retractionToGCode moves the filament back (by distance) or, after the travel, returns it to the place (distance = 0)
+func retractionToGCode(b *bytes.Buffer, sett GcodeSettings, state State, distance float64) State {
 	if !sett.Retraction {
-		return
+		return state
 	}
 
-	b.WriteString("G1 F" + strconv.Itoa(sett.RetractionSpeed) + " E" + StrF(-sett.RetractionDistance) + "\n")
+	// extruder is in the absolute mode
+	b.WriteString("G1 F" + strconv.Itoa(sett.RetractionSpeed) + " E" + StrF(state.eOff-distance) + "\n")
+	state.feedrate = sett.RetractionSpeed
+	return state
 }
 
 func pathesToGCode(pths []Path, comment string, sett GcodeSettings, state State, b *bytes.Buffer) State {
@@ -193,9 +197,11 @@ func pathesToGCode(pths []Path, comment string, sett GcodeSettings, state State,
 	for _, p := range pths {
 		// Retraction first
 		b.WriteString("G0 " + state.pos.StringDeltaZ(0.5) + "\n") //z up a little during retract
-		retractionToGCode(b, sett)
+		state = retractionToGCode(b, sett, state, sett.RetractionDistance)
 		b.WriteString("G0 " + p.Points[0].StringDelta(0, 0, 0.5) + "\n")
 		b.WriteString("G0 " + p.Points[0].StringDeltaZ(0) + "\n")
+		state = retractionToGCode(b, sett, state, 0)
+		state = printSpeedToGCode(state, sett, b)
 
 		for i := 1; i < len(p.Points); i++ {
 			p1 := p.Points[i-1]
-- 
2.43.0


From 7ade4b9250e3155066f386f3a8d96489a6871eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:17 +0000
Subject: [PATCH 10/43] fix: remember position and feedrate after the bed was
 moved

Bed moving ends at X0 Y0 Z200 with F300, but the state was not updated: the
nozzle was moved down to the old Z over the rotated part before the next path,
and the next paths were printed with F300 instead of the printing speed.
---
 gcode/cmds.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/gcode/cmds.go b/gcode/cmds.go
index 295d4d4..8911400 100644
--- a/gcode/cmds.go
+++ b/gcode/cmds.go
@@ -49,6 +49,7 @@ func (r InclineXBack) ToGCode(b *bytes.Buffer, state State, sett GcodeSettings)
 	b.WriteString("T0 \n")
 	b.WriteString("G92 E" + StrF(state.eOff) + "\n")
 	state.t2 = 0
+	state = afterBedMoving(state)
 	return state
 }
 func (r InclineXBack) LayersCount() int {
@@ -67,6 +68,7 @@ func (r InclineX) ToGCode(b *bytes.Buffer, state State, sett GcodeSettings) Stat
 	b.WriteString("T0 \n")
 	b.WriteString("G92 E" + StrF(state.eOff) + "\n")
 	state.t2 = 60
+	state = afterBedMoving(state)
 	return state
 
 }
@@ -102,6 +104,7 @@ func (r RotateZ) ToGCode(b *bytes.Buffer, state State, sett GcodeSettings) State
 	b.WriteString("T0 \n")
 	b.WriteString("G92 E" + StrF(state.eOff) + "\n")
 	state.t1 = r.Angle
+	state = afterBedMoving(state)
 	return state
 
 }
@@ -109,6 +112,13 @@ func (r RotateZ) LayersCount() int {
 	return 0
 }
 
+// afterBedMoving - position and feedrate are changed by the commands that move the bed
+func afterBedMoving(state State) State {
+	state.pos = Point{X: 0, Y: 0, Z: 200}
+	state.feedrate = 300
+	return state
+}
+
 type LayersMoving struct {
 	Layers []Layer
 }
-- 
2.43.0


From dc7c09ac13a3fa49cde1e49589784fdb40084608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:31 +0000
Subject: [PATCH 11/43] fix: write a coordinate to gcode if its written value
 was changed

A change less than 0.001 was not written at all, but the next point was
compared with the real position, so small changes were accumulated and lost.
---
 primitives/point.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/primitives/point.go b/primitives/point.go
index 681115b..4307f7a 100644
--- a/primitives/point.go
+++ b/primitives/point.go
@@ -28,15 +28,15 @@ func (a Point) MapKey() Point {
 
 func (a Point) StringGcode(b Point) string {
 	s_form := ""
-	if math.Abs(a.X-b.X) >= 0.001 {
+	if StrF(a.X) != StrF(b.X) {
 		s_form = fmt.Sprintf("%sX%s ", s_form, StrF(a.X))
 	}
 
-	if math.Abs(a.Y-b.Y) >= 0.001 {
+	if StrF(a.Y) != StrF(b.Y) {
 		s_form = fmt.Sprintf("%sY%s ", s_form, StrF(a.Y))
 	}
 
-	if math.Abs(a.Z-b.Z) >= 0.001 {
+	if StrF(a.Z) != StrF(b.Z) {
 		s_form = fmt.Sprintf("%sZ%s", s_form, StrF(a.Z))
 	}
 	return s_form
-- 
2.43.0


From ca53227affc648cc2db3dadadb4161e97c318fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:33 +0000
Subject: [PATCH 12/43] fix: report an error if the last part of a file is not
 written

---
 cmd/goosli_colorizer/goosli_colorizer.go | 4 +++-
 primitives/stl.go                        | 3 +--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/cmd/goosli_colorizer/goosli_colorizer.go b/cmd/goosli_colorizer/goosli_colorizer.go
index e3aca31..0cdcaf0 100644
--- a/cmd/goosli_colorizer/goosli_colorizer.go
+++ b/cmd/goosli_colorizer/goosli_colorizer.go
@@ -44,5 +44,7 @@ func main() {
 		log.Fatal("failed to write value of colorize triangles: ", err)
 	}
 
-	w.Flush()
+	if err = w.Flush(); err != nil {
+		log.Fatal("failed to write value of colorize triangles: ", err)
+	}
 }
diff --git a/primitives/stl.go b/primitives/stl.go
index 8cbcddc..9ccaa77 100644
--- a/primitives/stl.go
+++ b/primitives/stl.go
@@ -142,6 +142,5 @@ func SaveSTL(path string, mesh *Mesh) error {
 			return err
 		}
 	}
-	w.Flush()
-	return nil
+	return w.Flush()
 }
-- 
2.43.0


From 54a34adca38c0417488cdcc1f1e54eb68f915c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:50 +0000
Subject: [PATCH 13/43] fix: do not fail on slicing of a mesh that has no not
 empty layers

---
 slicers/slice_by_vector.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/slicers/slice_by_vector.go b/slicers/slice_by_vector.go
index 932b607..63f1e2d 100644
--- a/slicers/slice_by_vector.go
+++ b/slicers/slice_by_vector.go
@@ -42,6 +42,9 @@ func SliceByVector(mesh *Mesh, Z Vector, settings Settings) []Layer {
 
 	minz, maxz := mesh.MinMaxZ(Z)
 	n := int(math.Ceil((maxz - minz) / thickness))
+	if n == 0 { // flat mesh
+		return nil
+	}
 
 	sh := Z.MulScalar(maxz - minz).MulScalar(1.0 / float64(n))
 
@@ -131,7 +134,7 @@ func SliceByVector(mesh *Mesh, Z Vector, settings Settings) []Layer {
 	if len(layers[0].Paths) == 0 {
 		layers = layers[1:]
 	}
-	if len(layers[len(layers)-1].Paths) == 0 {
+	if len(layers) > 0 && len(layers[len(layers)-1].Paths) == 0 {
 		layers = layers[:len(layers)-1]
 	}
 
-- 
2.43.0


From 8c5f0091b911cf5ab52c1544640531d6acb11114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:41 +0000
Subject: [PATCH 14/43] fix: take direction of the angle into account when the
 bed is rotated

Vector.Angle has no sign, so the bed was rotated to the wrong direction when
the direction had negative (in some cases - positive) Y. And vertical profile
has no projection, angle was NaN and all next coordinates too.
---
 primitives/vector.go         | 5 +++++
 slicers/slice_5axes.go       | 4 ++--
 slicers/slice_by_profile.go  | 2 +-
 slicers/vip/slice_bridge.go  | 6 +++---
 slicers/vip/slice_default.go | 2 +-
 5 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/primitives/vector.go b/primitives/vector.go
index 8557df8..7f45813 100644
--- a/primitives/vector.go
+++ b/primitives/vector.go
@@ -91,6 +91,11 @@ func (a Vector) Angle(b Vector) float64 {
 	return math.Acos(v) * 180 / math.Pi
 }
 
+// PolarAngle - angle in degrees (from -180 to 180) from AxisX to projection of the vector on PlaneXY
+func (a Vector) PolarAngle() float64 {
+	return math.Atan2(a.Y, a.X) * 180 / math.Pi
+}
+
 func (a Vector) ProjectOn(b Vector) Vector {
 	bl := b.LengthSquare() // because result = b.MulScalar(projectLen/|b|), where projectLen = b.Dot(a)/|b|
 	if bl == 0 {
diff --git a/slicers/slice_5axes.go b/slicers/slice_5axes.go
index d2cc184..8381bb7 100644
--- a/slicers/slice_5axes.go
+++ b/slicers/slice_5axes.go
@@ -113,7 +113,7 @@ func Slice5Axes(mesh *Mesh, settings Settings) gcode.Gcode {
 				gcd.Add(gcode.RotateXZ{})
 				rotated = false
 			} else {
-				angleZ = newPlane.N.ProjectOnPlane(PlaneXY).Angle(AxisX) + 90
+				angleZ = newPlane.N.PolarAngle() + 90
 				print(angleZ)
 				simpMesh = simpMesh.Rotate(RotationAroundZ(angleZ), OriginPoint)
 				simpMesh = simpMesh.Rotate(RotationAroundX(angleX), OriginPoint)
@@ -158,7 +158,7 @@ func CalculateFails(prevLayer, curLayer Layer) *Plane {
 				pl := Plane{P: prevCp, N: v.Cross(AxisZ)}
 				pi := pl.IntersectPathCodirectedWith(prevPath, v)
 				if pi != nil {
-					angleZ := prevCp.VectorTo(*pi).Angle(AxisX) + 90
+					angleZ := 90 - prevCp.VectorTo(*pi).PolarAngle()
 					norm := AxisZ.Rotate(RotationAroundX(angleX)).Rotate(RotationAroundZ(angleZ))
 					return &Plane{P: *pi, N: norm}
 				}
diff --git a/slicers/slice_by_profile.go b/slicers/slice_by_profile.go
index 6313364..5ea91b2 100644
--- a/slicers/slice_by_profile.go
+++ b/slicers/slice_by_profile.go
@@ -34,7 +34,7 @@ func SliceByProfile(mesh *Mesh, settings Settings) gcode.Gcode {
 		} else {
 			down = up
 		}
-		angleZ := v.ProjectOnPlane(PlaneXY).Angle(AxisX) + 90
+		angleZ := v.PolarAngle() + 90
 		angleX := v.Angle(AxisZ)
 
 		println("angles: ", angleX, " ", angleZ, "")
diff --git a/slicers/vip/slice_bridge.go b/slicers/vip/slice_bridge.go
index 29d302d..19d1ec9 100644
--- a/slicers/vip/slice_bridge.go
+++ b/slicers/vip/slice_bridge.go
@@ -48,7 +48,7 @@ func SliceBridge(mesh *Mesh, settings Settings, layers []Layer) gcode.Gcode {
 	gcd.AddLayers(PrepareLayers(oneLeg, settings, fillPlanes, fullFillPlanes))
 
 	// Rotate bed
-	angleZ := newPlane.N.ProjectOnPlane(PlaneXY).Angle(AxisX) + 90
+	angleZ := newPlane.N.PolarAngle() + 90
 	mesh = mesh.Rotate(RotationAroundZ(angleZ), OriginPoint)
 	mesh = mesh.Rotate(RotationAroundX(angleX), OriginPoint)
 	gcd.Add(gcode.RotateZ{Angle: angleZ})
@@ -93,7 +93,7 @@ func failExistBridge(prevLayer, curLayer Layer) *Plane {
 		log.Println("could not find path intersections with plane: ", ip1, prevIp1, plane, p1, prevP1)
 	} else if AxisZ.Angle(prevIp1.VectorTo(*ip1)) > failAngle {
 		println(AxisZ.Angle(prevIp1.VectorTo(*ip1)))
-		angle := AxisX.Angle(cp1.VectorTo(cp2))
+		angle := -cp1.VectorTo(cp2).PolarAngle()
 		norm := AxisZ.Rotate(RotationAroundX(angleX)).Rotate(RotationAroundZ(angle + 90))
 		pl := Plane{*prevIp1, norm}
 		return &pl
@@ -106,7 +106,7 @@ func failExistBridge(prevLayer, curLayer Layer) *Plane {
 		log.Println("could not find path intersections with plane: ", ip2, prevIp2, plane, p2, prevP2)
 	} else if AxisZ.Angle(prevIp2.VectorTo(*ip2)) > failAngle {
 		println(AxisZ.Angle(prevIp2.VectorTo(*ip2)))
-		angle := AxisX.Angle(cp2.VectorTo(cp1))
+		angle := -cp2.VectorTo(cp1).PolarAngle()
 		norm := AxisZ.Rotate(RotationAroundX(angleX)).Rotate(RotationAroundZ(angle + 90))
 		pl := Plane{*prevIp2, norm}
 		return &pl
diff --git a/slicers/vip/slice_default.go b/slicers/vip/slice_default.go
index 238cb40..ddd15a9 100644
--- a/slicers/vip/slice_default.go
+++ b/slicers/vip/slice_default.go
@@ -69,7 +69,7 @@ func SliceDefault2(mesh *Mesh, settings Settings, layers []Layer) gcode.Gcode {
 					fullFillPlanes[j] = plane.Rotate(RotationAroundX(-angleX)).Rotate(RotationAroundZ(-angleZ))
 				}
 			} else {
-				angleZ = newPlane.N.ProjectOnPlane(PlaneXY).Angle(AxisX) + 90
+				angleZ = newPlane.N.PolarAngle() + 90
 				println(angleZ)
 				mesh = mesh.Rotate(RotationAroundZ(angleZ), OriginPoint)
 				mesh = mesh.Rotate(RotationAroundX(angleX), OriginPoint)
-- 
2.43.0


From 869ad10c45a8e723a50258639bd142e451bacd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:43 +0000
Subject: [PATCH 15/43] fix: analyze triangles of the current part, not of the
 whole mesh

Indexes of failed triangles are indexes in the remaining part of the mesh.
---
 slicers/vip/analyze.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slicers/vip/analyze.go b/slicers/vip/analyze.go
index f6bedd7..7b9b297 100644
--- a/slicers/vip/analyze.go
+++ b/slicers/vip/analyze.go
@@ -60,7 +60,7 @@ func Analyze(mesh *Mesh, angle float64) []AnalyzedPlane {
 		var t *Triangle
 		for i, fail := range fails {
 			if fail {
-				t2 := mesh.Triangles[i]
+				t2 := curMesh.Triangles[i]
 				if t2.P1.Z < 0.01 && t2.P2.Z < 0.01 && t2.P3.Z < 0.01 { // it is first layer, skip
 					continue
 				}
-- 
2.43.0


From 6366f840ec43e2eae1c1fb88dcf34d82aa3facce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:30 +0000
Subject: [PATCH 16/43] fix: angle and normal of the analyzed plane should
 describe the same plane

Overhangs looking to -Y gave the angle of a mirrored plane, overhangs looking
straight down gave NaN. Triangles closing the cut are not overhangs.
---
 slicers/vip/analyze.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/slicers/vip/analyze.go b/slicers/vip/analyze.go
index 7b9b297..82dae27 100644
--- a/slicers/vip/analyze.go
+++ b/slicers/vip/analyze.go
@@ -61,7 +61,7 @@ func Analyze(mesh *Mesh, angle float64) []AnalyzedPlane {
 		for i, fail := range fails {
 			if fail {
 				t2 := curMesh.Triangles[i]
-				if t2.P1.Z < 0.01 && t2.P2.Z < 0.01 && t2.P3.Z < 0.01 { // it is first layer, skip
+				if t2.MaxZ(curPlaneV)-curPlane.P.ToVector().Dot(curPlaneV) < 0.01 { // it is first layer of the part, skip
 					continue
 				}
 				if t == nil || t.MinZ(curPlaneV) > t2.MinZ(curPlaneV) {
@@ -89,8 +89,12 @@ func Analyze(mesh *Mesh, angle float64) []AnalyzedPlane {
 		if curPlane.tilted {
 			curPlane = AnalyzedPlane{Plane{P: p, N: AxisZ}, false, 0}
 		} else {
-			angle := t.N.ProjectOnPlane(PlaneXY).Angle(AxisX) - 90
-			a := t.N.ProjectOnPlane(PlaneXY)
+			a := t.N.Normalize().ProjectOnPlane(PlaneXY)
+			if AlmostZero(a.Length()) { // looks straight down, all directions are equal
+				a = AxisY
+			}
+			a = a.Normalize()
+			angle := a.PolarAngle() - 90
 			b := a.Rotate(RotationAroundZ(90))
 			norm := a.RotateAbout(b, 90-angleX)
 			println("angle x:", angle, norm.Angle(AxisX), norm.ProjectOnPlane(PlaneXY).Angle(AxisX))
-- 
2.43.0


From a55d121879e3b2ed86a61c59d731a533687c05be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:32 +0000
Subject: [PATCH 17/43] fix: skip empty lines in the file with planes

---
 slicers/vip/utils.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/slicers/vip/utils.go b/slicers/vip/utils.go
index 51677c8..0720ee6 100644
--- a/slicers/vip/utils.go
+++ b/slicers/vip/utils.go
@@ -3,6 +3,7 @@ package vip
 import (
 	"bufio"
 	"os"
+	"strings"
 
 	. "github.com/l1va/goosli/primitives"
 	. "github.com/l1va/goosli/slicers"
@@ -76,6 +77,9 @@ func readPlanes(f string) []AnalyzedPlane {
 	scanner := bufio.NewScanner(file)
 	ans := []AnalyzedPlane{}
 	for scanner.Scan() {
+		if strings.TrimSpace(scanner.Text()) == "" {
+			continue
+		}
 		ans = append(ans, ParsePlane(scanner.Text()))
 	}
 
-- 
2.43.0


From 71e743670feb5144a39f423c8b6c76cc0efc8983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:34 +0000
Subject: [PATCH 18/43] fix: calculate fill planes for every part after its
 rotation

Planes of the whole not rotated mesh did not cover rotated and inclined parts.
---
 slicers/vip/slice_by_planes.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slicers/vip/slice_by_planes.go b/slicers/vip/slice_by_planes.go
index 37e4360..39fda07 100644
--- a/slicers/vip/slice_by_planes.go
+++ b/slicers/vip/slice_by_planes.go
@@ -17,7 +17,6 @@ type BedPlane struct {
 func SliceByPlanes(mesh *Mesh, settings slicers.Settings, cutPlanes []AnalyzedPlane) gcode.Gcode {
 	gcd := gcode.NewGcode(*settings.GcodeSettings)
 	debug.RecreateFile()
-	fillPlanes, fullFillPlanes := slicers.CalcFillPlanes(mesh, settings)
 	var up *Mesh
 	var err error
 
@@ -51,7 +50,8 @@ func SliceByPlanes(mesh *Mesh, settings slicers.Settings, cutPlanes []AnalyzedPl
 			rotated = false
 		}
 		add := slicers.SliceByVector(curmesh, AxisZ, settings)
-		filled := PrepareLayers(add, settings, fillPlanes, fullFillPlanes) //TODO: fillPlanes fix
+		fillPlanes, fullFillPlanes := slicers.CalcFillPlanes(curmesh, settings) // the part was rotated
+		filled := PrepareLayers(add, settings, fillPlanes, fullFillPlanes)
 		if i == 0 && len(filled) > 0 {
 			filled[0] = SkirtPathes(filled[0], settings.SkirtLineCount, settings.GcodeSettings.LineWidth)
 		}
-- 
2.43.0


From ac8d0c51a3f1c308f34d10be468b56b3c51fd21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:53 +0000
Subject: [PATCH 19/43] fix: do not fail in vip slicing if there are no
 overhangs or outside pathes

Rotation and bridge slicing took the layer next to the last one if no overhang
was found, and empty mesh or layer without outside pathes was not expected.
---
 slicers/vip/slice_bridge.go   | 7 +++++++
 slicers/vip/slice_main.go     | 7 +++++--
 slicers/vip/slice_rotation.go | 7 +++++++
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/slicers/vip/slice_bridge.go b/slicers/vip/slice_bridge.go
index 19d1ec9..9408196 100644
--- a/slicers/vip/slice_bridge.go
+++ b/slicers/vip/slice_bridge.go
@@ -34,6 +34,10 @@ func SliceBridge(mesh *Mesh, settings Settings, layers []Layer) gcode.Gcode {
 	// Add horizontal layers
 	gcd.AddLayers(PrepareLayers(layers[:i], settings, fillPlanes, fullFillPlanes))
 
+	if i == len(layers) { // no overhangs
+		return gcd
+	}
+
 	anyPoint := layers[i].Paths[0].Points[0]
 	mesh, down, err := helpers.CutMesh(mesh, Plane{anyPoint, AxisZ})
 	if err != nil {
@@ -73,6 +77,9 @@ func SliceBridge(mesh *Mesh, settings Settings, layers []Layer) gcode.Gcode {
 
 func failExistBridge(prevLayer, curLayer Layer) *Plane {
 
+	if len(getAllOutsidePathes(prevLayer)) < 2 || len(getAllOutsidePathes(curLayer)) < 2 {
+		return nil // there are no two legs
+	}
 	prevP1, prevP2 := getTwoOutsidePathes(prevLayer)
 	p1, p2 := getTwoOutsidePathes(curLayer)
 	prevCp1 := FindCentroid(prevP1)
diff --git a/slicers/vip/slice_main.go b/slicers/vip/slice_main.go
index 4e3786e..1be6f24 100644
--- a/slicers/vip/slice_main.go
+++ b/slicers/vip/slice_main.go
@@ -27,14 +27,17 @@ func Slice(mesh *Mesh, settings Settings) gcode.Gcode {
 
 	layers := SliceByVector(mesh, AxisZ, settings)
 
+	if len(layers) == 0 {
+		return gcode.NewGcode(*settings.GcodeSettings)
+	}
 	op := getAllOutsidePathes(layers[0])
 	if len(op) == 2 {
 		return SliceBridge(mesh, settings, layers)
 	}
-	println("outside pathes: ", len(op), len(op[0].Points))
+	println("outside pathes: ", len(op))
 	if len(op) == 1 && isRotation(op[0]) {
 		op = getAllOutsidePathes(layers[len(layers)-1])
-		println("outside pathes: ", len(op), len(op[0].Points))
+		println("outside pathes: ", len(op))
 		if len(op) == 1 && isRotation(op[0]) {
 			return SliceRotation(mesh, settings, layers)
 		}
diff --git a/slicers/vip/slice_rotation.go b/slicers/vip/slice_rotation.go
index ec8bf0c..43125c3 100644
--- a/slicers/vip/slice_rotation.go
+++ b/slicers/vip/slice_rotation.go
@@ -32,6 +32,10 @@ func SliceRotation(mesh *Mesh, settings Settings, layers []Layer) gcode.Gcode {
 	// Add horizontal layers
 	gcd.AddLayers(PrepareLayers(layers[:i], settings, fillPlanes, fullFillPlanes))
 
+	if i == len(layers) { // no overhangs
+		return gcd
+	}
+
 	anyPoint := layers[i].Paths[0].Points[0]
 	mesh, _, err := helpers.CutMesh(mesh, Plane{anyPoint, AxisZ})
 	if err != nil {
@@ -66,6 +70,9 @@ func failRotaion(prevLayer, curLayer Layer) bool {
 		println("curLayer has not one path: ", len(curLayer.Paths))
 	}
 
+	if len(prevLayer.Paths) == 0 || len(curLayer.Paths) == 0 {
+		return false
+	}
 	anyP := prevLayer.Paths[0].Points[0]
 	//nearestP := curLayer.Paths[0].Lines[0].P1
 	//d := anyP.DistanceTo(nearestP)
-- 
2.43.0


From 777c04c66ac744d36500775c2f243161a2be9664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:08 +0000
Subject: [PATCH 20/43] fix: print a part that consists of one layer

Layers were added only after comparison with the previous layer, so the only
layer of a model (or of the last part) was lost in 5axes and vip slicing. Less
layers in the mesh than in the simplified one led to a panic.
---
 slicers/slice_5axes.go       | 8 +++++++-
 slicers/vip/slice_default.go | 3 +++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/slicers/slice_5axes.go b/slicers/slice_5axes.go
index 8381bb7..a519df5 100644
--- a/slicers/slice_5axes.go
+++ b/slicers/slice_5axes.go
@@ -55,7 +55,10 @@ func Slice5Axes(mesh *Mesh, settings Settings) gcode.Gcode {
 				gcd.AddLayers(toAdd)
 			}
 		} else {
-			gcd.AddLayers(toAdd[:i])
+			if i < len(toAdd) { // simplified mesh can be a little bit higher
+				toAdd = toAdd[:i]
+			}
+			gcd.AddLayers(toAdd)
 
 			//if rotated {
 			//	break
@@ -129,6 +132,9 @@ func Slice5Axes(mesh *Mesh, settings Settings) gcode.Gcode {
 			i = 0
 		}
 	}
+	if len(layers) < 2 { // nothing to compare with, so it was not added in the loop
+		gcd.AddLayers(toAdd)
+	}
 
 	return gcd
 }
diff --git a/slicers/vip/slice_default.go b/slicers/vip/slice_default.go
index ddd15a9..07cc976 100644
--- a/slicers/vip/slice_default.go
+++ b/slicers/vip/slice_default.go
@@ -90,6 +90,9 @@ func SliceDefault2(mesh *Mesh, settings Settings, layers []Layer) gcode.Gcode {
 			i = 1
 		}
 	}
+	if len(layers) == 1 { // nothing to compare with, so it was not added in the loop
+		gcd.AddLayers(PrepareLayers(layers, settings, fillPlanes, fullFillPlanes))
+	}
 	return gcd
 
 }
-- 
2.43.0


From c7f17ff48d0ae62039a300a98137c26fb0ba6761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:11 +0000
Subject: [PATCH 21/43] fix: slice by profile meshes with one layer or without
 layers

---
 helpers/simplify_line.go    | 3 +++
 slicers/slice_by_profile.go | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/helpers/simplify_line.go b/helpers/simplify_line.go
index 408512b..7f64c9a 100644
--- a/helpers/simplify_line.go
+++ b/helpers/simplify_line.go
@@ -6,6 +6,9 @@ import (
 
 //SimplifyLine - DouglasPeucker algorithm of line simplification
 func SimplifyLine(ps []Point, epsilon float64) []Point {
+	if len(ps) == 0 {
+		return nil
+	}
 	// Find the point with the maximum distance
 	dmax := 0.0
 	index := 0
diff --git a/slicers/slice_by_profile.go b/slicers/slice_by_profile.go
index 5ea91b2..cace9a9 100644
--- a/slicers/slice_by_profile.go
+++ b/slicers/slice_by_profile.go
@@ -35,7 +35,10 @@ func SliceByProfile(mesh *Mesh, settings Settings) gcode.Gcode {
 			down = up
 		}
 		angleZ := v.PolarAngle() + 90
-		angleX := v.Angle(AxisZ)
+		angleX := 0.0
+		if v.Length() > 0 { // zero if there is only one layer
+			angleX = v.Angle(AxisZ)
+		}
 
 		println("angles: ", angleX, " ", angleZ, "")
 		down = down.Rotate(RotationAroundZ(angleZ), OriginPoint)
-- 
2.43.0


From 0ffd28d8766f62be17aa3832f22a981cf31f1309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:35 +0000
Subject: [PATCH 22/43] fix: report an error on loading of a truncated stl file

Size of a truncated binary file differs from the expected one, so it was parsed
as ascii and an empty mesh was returned without any error.
---
 primitives/stl.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/primitives/stl.go b/primitives/stl.go
index 9ccaa77..44a3d6e 100644
--- a/primitives/stl.go
+++ b/primitives/stl.go
@@ -3,6 +3,7 @@ package primitives
 import (
 	"bufio"
 	"encoding/binary"
+	"errors"
 	"io"
 	"math"
 	"os"
@@ -56,9 +57,13 @@ func loadSTLAscii(file *os.File) (*Mesh, error) {
 	var triangles []Triangle
 	var p1, p2, p3, px Point
 	i := 0
+	ended := false
 	scanner := bufio.NewScanner(file)
 	for scanner.Scan() {
 		line := strings.TrimSpace(scanner.Text())
+		if strings.HasPrefix(line, "endsolid") {
+			ended = true
+		}
 		if len(line) < 12 || line[0] != 'v' {
 			continue
 		}
@@ -78,8 +83,14 @@ func loadSTLAscii(file *os.File) (*Mesh, error) {
 		}
 		i++
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, err
+	}
+	if i%3 != 0 || (i == 0 && !ended) {
+		return nil, errors.New("file is not stl or it is damaged")
+	}
 	mesh := NewMesh(triangles)
-	return &mesh, scanner.Err()
+	return &mesh, nil
 }
 
 
-- 
2.43.0


From 061a52bf730a68161ec2f57e0795eb8eaabf135f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:37 +0000
Subject: [PATCH 23/43] fix: take the printing flow into account

The setting (--flow) was not used anywhere.
---
 gcode/cmds.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gcode/cmds.go b/gcode/cmds.go
index 8911400..d1b906f 100644
--- a/gcode/cmds.go
+++ b/gcode/cmds.go
@@ -204,6 +204,10 @@ func pathesToGCode(pths []Path, comment string, sett GcodeSettings, state State,
 	// Set the printing speed for this path
 	state = printSpeedToGCode(state, sett, b)
 
+	flow := sett.Flow
+	if flow == 0 { // is not set
+		flow = 1
+	}
 	for _, p := range pths {
 		// Retraction first
 		b.WriteString("G0 " + state.pos.StringDeltaZ(0.5) + "\n") //z up a little during retract
@@ -217,7 +221,7 @@ func pathesToGCode(pths []Path, comment string, sett GcodeSettings, state State,
 			p1 := p.Points[i-1]
 			p2 := p.Points[i]
 			lDist := math.Sqrt(math.Pow(p2.X-p1.X, 2) + math.Pow(p2.Y-p1.Y, 2) + math.Pow(p2.Z-p1.Z, 2))
-			state.eOff += (4 * sett.LineWidth * sett.LayerHeight * lDist) / (math.Pow(sett.BarDiameter, 2) * math.Pi)
+			state.eOff += flow * (4 * sett.LineWidth * sett.LayerHeight * lDist) / (math.Pow(sett.BarDiameter, 2) * math.Pi)
 			b.WriteString("G1 " + p2.StringGcode(p1) + " E" + StrF(state.eOff) + "\n")
 		}
 		state.pos = p.Points[len(p.Points)-1]
-- 
2.43.0


From 6fef3fcdfd676c23fea9a6c91f7b433690ad4fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:32 +0000
Subject: [PATCH 24/43] fix: report an error on loading of an ascii stl file
 without its end

---
 primitives/stl.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/primitives/stl.go b/primitives/stl.go
index 44a3d6e..07505a9 100644
--- a/primitives/stl.go
+++ b/primitives/stl.go
@@ -63,6 +63,8 @@ func loadSTLAscii(file *os.File) (*Mesh, error) {
 		line := strings.TrimSpace(scanner.Text())
 		if strings.HasPrefix(line, "endsolid") {
 			ended = true
+		} else if strings.HasPrefix(line, "solid") || strings.HasPrefix(line, "facet") {
+			ended = false
 		}
 		if len(line) < 12 || line[0] != 'v' {
 			continue
@@ -86,7 +88,7 @@ func loadSTLAscii(file *os.File) (*Mesh, error) {
 	if err := scanner.Err(); err != nil {
 		return nil, err
 	}
-	if i%3 != 0 || (i == 0 && !ended) {
+	if i%3 != 0 || !ended {
 		return nil, errors.New("file is not stl or it is damaged")
 	}
 	mesh := NewMesh(triangles)
-- 
2.43.0


From 8867d2b1b86c18a4d04fa3f6e63c7da2af704c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:34 +0000
Subject: [PATCH 25/43] fix: do not lose a wall because of rounding of walls
 count

---
 slicers/vip/utils.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/slicers/vip/utils.go b/slicers/vip/utils.go
index 0720ee6..ef47bdd 100644
--- a/slicers/vip/utils.go
+++ b/slicers/vip/utils.go
@@ -11,7 +11,8 @@ import (
 
 //PrepareLayers add Walls and fill layers
 func PrepareLayers(layers []Layer, settings Settings, planes []Plane, fullPanes []Plane) []Layer {
-	addWallsCount := int(settings.WallThickness/settings.GcodeSettings.LineWidth) - 1
+	// small addition because the ratio is inexact: 1.2/0.4 is a little less than 3
+	addWallsCount := int(settings.WallThickness/settings.GcodeSettings.LineWidth+1e-6) - 1
 	if addWallsCount > 0 {
 		for i, layer := range layers { //TODO: in parallel
 			for _, pt := range layer.Paths {
-- 
2.43.0


From fa0032a3358213cee64612692410ae5ca00ad39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:21 +0000
Subject: [PATCH 26/43] fix: start a fill stroke in the end that lies in the
 fill plane

---
 slicers/fill_layer.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/slicers/fill_layer.go b/slicers/fill_layer.go
index 37dc87b..bf55173 100644
--- a/slicers/fill_layer.go
+++ b/slicers/fill_layer.go
@@ -217,8 +217,13 @@ func intersectByPlane(pathes []Path, plane Plane) []Path {
 				continue // does not cross, only touches may be (a vertex should not be counted twice)
 			}
 			p := plane.IntersectSegment(pth.Points[i-1], pth.Points[i])
-			if p == nil { // the end is in the plane, but because of rounding it is not found
-				p = &pth.Points[i]
+			if p == nil { // one of the ends is in the plane, but because of rounding it is not found
+				d1 := plane.P.VectorTo(pth.Points[i-1]).Dot(plane.N)
+				d2 := plane.P.VectorTo(pth.Points[i]).Dot(plane.N)
+				p = &pth.Points[i-1]
+				if math.Abs(d2) < math.Abs(d1) {
+					p = &pth.Points[i]
+				}
 			}
 			pts = append(pts, *p)
 		}
-- 
2.43.0


From a6f9ef2878c50f4767f6d3181f5c40e04ebd322c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:04 +0000
Subject: [PATCH 27/43] fix: keep the second corner of an offset contour

---
 slicers/vip/offset_path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slicers/vip/offset_path.go b/slicers/vip/offset_path.go
index 689a430..25b7b4a 100644
--- a/slicers/vip/offset_path.go
+++ b/slicers/vip/offset_path.go
@@ -41,7 +41,7 @@ func MakeOffset(pth Path, nozzle float64, norm Vector) *Path {
 		}
 	}
 	if closedPath {
-		newPth[0] = newPth[len(newPth)-1]
+		newPth[0].P1 = newPth[len(newPth)-1].P1 // its P2 is found already
 		newPth = newPth[:len(newPth)-1] //remove added line
 	}
 	var remove []bool
-- 
2.43.0


From 6192fe57e7488e5c83c3379d32cd1c926b217214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:15 +0000
Subject: [PATCH 28/43] fix: point inside a path: vertices level with the
 point, points on the line of the first edge

---
 primitives/point.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/primitives/point.go b/primitives/point.go
index 4307f7a..f3cec70 100644
--- a/primitives/point.go
+++ b/primitives/point.go
@@ -89,11 +89,26 @@ func (a Point) Inside(path Path) bool {
 	}
 	n := path.Points[0].VectorTo(path.Points[1])
 	pl := Plane{a, n}
-	v := a.VectorTo(path.Points[0]).ProjectOnPlane(pl)
+	v := Vector{}
+	for _, p := range path.Points { // projections of all points are on the same line
+		if v = a.VectorTo(p).ProjectOnPlane(pl); !AlmostZero(v.Length()) {
+			break
+		}
+	}
 	c := 0
 	for i := 1; i < len(path.Points); i++ {
-		inters := pl.IntersectSegment(path.Points[i-1], path.Points[i])
-		if inters != nil && a.VectorTo(*inters).CodirectedWith(v) {
+		p1, p2 := path.Points[i-1], path.Points[i]
+		if pl.PointInFront(p1) == pl.PointInFront(p2) {
+			continue // does not cross, only touches may be (a vertex should not be counted twice)
+		}
+		inters := pl.IntersectSegment(p1, p2)
+		if inters == nil { // one of the ends is in the plane, but because of rounding it is not found
+			inters = &p1
+			if math.Abs(a.VectorTo(p2).Dot(n)) < math.Abs(a.VectorTo(p1).Dot(n)) {
+				inters = &p2
+			}
+		}
+		if a.VectorTo(*inters).CodirectedWith(v) {
 			c += 1
 		}
 	}
-- 
2.43.0


From d116601c34710a18bd463a48a9850ed12d8c6d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:24 +0000
Subject: [PATCH 29/43] fix: no degenerate triangles in cut surfaces

---
 helpers/cut_mesh.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/helpers/cut_mesh.go b/helpers/cut_mesh.go
index c6f6f7b..b5c54e9 100644
--- a/helpers/cut_mesh.go
+++ b/helpers/cut_mesh.go
@@ -79,6 +79,9 @@ func CutMesh(mesh *Mesh, p Plane) (*Mesh, *Mesh, error) {
 	for _, pth := range joined { //generate addition triangles to close the cut
 		//debug.AddPath(pth, debug.GreenColor)
 		for j := 1; j < len(pth.Points)-1; j++ {
+			if pth.Points[j+1].Equal(pth.Points[0]) { // the contour is closed, this triangle is a line
+				continue
+			}
 			t := NewTriangle(pth.Points[0], pth.Points[j], pth.Points[j+1])
 			t2 := NewTriangle(pth.Points[j+1], pth.Points[j], pth.Points[0]) //with reverse normal
 			//the body is always on the right of the contour, so the direction of the contour gives the direction
-- 
2.43.0


From 468d4ce0824511a94dd90d40c7424f14274e73f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:22 +0000
Subject: [PATCH 30/43] fix: points on a plane up to rounding have no side of
 their own

Sections and cuts by planes through vertices, edges or facets of a rotated
mesh had open contours: edges in the plane were cut at random places and
triangles did not agree about the side of their common points.
---
 primitives/plane.go        | 22 +++++++++++++++++-----
 slicers/slice_by_vector.go |  7 +++++--
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/primitives/plane.go b/primitives/plane.go
index f828255..ac28d3d 100644
--- a/primitives/plane.go
+++ b/primitives/plane.go
@@ -78,13 +78,12 @@ func (p Plane) IntersectTriangle(t *Triangle) *Line {
 }
 
 func (p Plane) IntersectSegment(p1, p2 Point) *Point {
-	pr1 := p1.ToVector().Dot(p.N)
-	pr2 := p2.ToVector().Dot(p.N)
+	pr1 := p.height(p1)
+	pr2 := p.height(p2)
 	if pr1 == pr2 {
 		return nil
 	}
-	z := p.P.ToVector().Dot(p.N)
-	t := (z - pr1) / (pr2 - pr1)
+	t := pr1 / (pr1 - pr2)
 	if t < 0 || t > 1 {
 		return nil
 	}
@@ -104,9 +103,22 @@ func (p Plane) IntersectPathCodirectedWith(path Path, v Vector) *Point {
 }
 
 func (p Plane) PointInFront(v Point) bool {
-	return p.P.VectorTo(v).Dot(p.N) >= 0
+	return p.height(v) >= 0
 }
 
+// height of the point above the plane, in lengths of N. Points on the plane up to rounding have the height 0,
+// so all triangles with this point agree about its side, and edges in the plane are not cut at a random place.
+func (p Plane) height(v Point) float64 {
+	h := p.P.VectorTo(v).Dot(p.N)
+	if h*h < onPlane*onPlane*p.N.Dot(p.N) {
+		return 0
+	}
+	return h
+}
+
+// onPlane is the distance from a plane of points that lie on it, up to rounding
+const onPlane = 1e-7
+
 func (p Plane) ProectionPointToPlane(M Point) Point {
 	var x,y,z float64
 
diff --git a/slicers/slice_by_vector.go b/slicers/slice_by_vector.go
index 63f1e2d..a2a8661 100644
--- a/slicers/slice_by_vector.go
+++ b/slicers/slice_by_vector.go
@@ -9,6 +9,9 @@ import (
 	. "github.com/l1va/goosli/primitives"
 )
 
+// onPlane is the distance to a plane of a layer, up to which a triangle can have a line in it
+const onPlane = 1e-6
+
 // SliceByVectorToGcode - Slicing on layers by vector Z
 func SliceByVectorToGcode(mesh *Mesh, Z Vector, settings Settings) gcode.Gcode {
 	layers := SliceByVector(mesh, Z, settings)
@@ -100,13 +103,13 @@ func SliceByVector(mesh *Mesh, Z Vector, settings Settings) []Layer {
 		// remove triangles below plane
 		newActive := active[:0]
 		for _, t := range active {
-			if z <= t.MaxZ(Z) {
+			if z <= t.MaxZ(Z)+onPlane {
 				newActive = append(newActive, t)
 			}
 		}
 		active = newActive
 		// add triangles above plane
-		for index < len(triangles) && triangles[index].MinZ(Z) <= z {
+		for index < len(triangles) && triangles[index].MinZ(Z) <= z+onPlane {
 			t := triangles[index]
 			active = append(active, &t)
 			index++
-- 
2.43.0


From ded6a31b770e8f9729bc3e169700e0bc5eeb0a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:24 +0000
Subject: [PATCH 31/43] fix: do not mix up the ends of the cut of a triangle if
 one is its vertex

---
 helpers/cut_mesh.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/helpers/cut_mesh.go b/helpers/cut_mesh.go
index b5c54e9..20ba35c 100644
--- a/helpers/cut_mesh.go
+++ b/helpers/cut_mesh.go
@@ -120,8 +120,11 @@ func splitOnThree(p1 Point, line Line, t Triangle) []Triangle {
 		t1, t2, t3 = t3, t1, t2
 	}
 
-	if AlmostZero(t1.VectorTo(t2).Cross(t1.VectorTo(lp2)).Length()) {
-		// lp2 lies on t1->t2 vector, but should lp1 lie
+	v2 := t1.VectorTo(t2)
+	v3 := t1.VectorTo(t3)
+	// lp1 should lie on t1->t2 and lp2 on t1->t3, both are compared because one of them can be equal to t1
+	if v2.Cross(t1.VectorTo(lp2)).Length()+v3.Cross(t1.VectorTo(lp1)).Length() <
+		v2.Cross(t1.VectorTo(lp1)).Length()+v3.Cross(t1.VectorTo(lp2)).Length() {
 		lp1, lp2 = lp2, lp1
 	}
 	ans = append(ans, NewTriangle(t1, lp1, lp2))
-- 
2.43.0


From 985ee8c1ea922f60e4e8729bb090977f72a42d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:51 +0000
Subject: [PATCH 32/43] fix: no triangles without area after a cut through a
 vertex

Their normals are noise, so the analyzer suggested planes for them.
---
 helpers/cut_mesh.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/helpers/cut_mesh.go b/helpers/cut_mesh.go
index 20ba35c..c261cba 100644
--- a/helpers/cut_mesh.go
+++ b/helpers/cut_mesh.go
@@ -46,9 +46,8 @@ func CutMesh(mesh *Mesh, p Plane) (*Mesh, *Mesh, error) {
 
 			ts := splitOnThree(outFront[0], *line, t)
 
-			up = append(up, ts[1])
-			up = append(up, ts[2])
-			down = append(down, ts[0])
+			up = addTriangles(up, ts[1], ts[2])
+			down = addTriangles(down, ts[0])
 
 		} else if len(inFront) == 1 {
 			line := p.IntersectTriangle(&t)
@@ -60,9 +59,8 @@ func CutMesh(mesh *Mesh, p Plane) (*Mesh, *Mesh, error) {
 
 			ts := splitOnThree(inFront[0], *line, t)
 
-			up = append(up, ts[0])
-			down = append(down, ts[1])
-			down = append(down, ts[2])
+			up = addTriangles(up, ts[0])
+			down = addTriangles(down, ts[1], ts[2])
 
 		} else {
 			down = append(down, t)
@@ -96,6 +94,16 @@ func CutMesh(mesh *Mesh, p Plane) (*Mesh, *Mesh, error) {
 	return &resUp, &resDown, nil
 }
 
+// addTriangles adds triangles, but not those without area, which are left if the plane goes through a vertex
+func addTriangles(to []Triangle, ts ...Triangle) []Triangle {
+	for _, t := range ts {
+		if !t.P1.Equal(t.P2) && !t.P2.Equal(t.P3) && !t.P3.Equal(t.P1) {
+			to = append(to, t)
+		}
+	}
+	return to
+}
+
 // addTouching adds triangle, that only touches the plane, to the mesh where the biggest part of it lies
 func addTouching(up, down []Triangle, t Triangle, p Plane) ([]Triangle, []Triangle) {
 	sum := p.P.VectorTo(t.P1).Dot(p.N) + p.P.VectorTo(t.P2).Dot(p.N) + p.P.VectorTo(t.P3).Dot(p.N)
-- 
2.43.0


From 6db8a196a3ffa388784862c05f81f690cbce612a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 33/43] fix: whether a support wall meets a triangle is decided
 in 3D

Point in triangle and triangle with triangle were computed by their
projections on XY, so a vertical triangle met every wall that crosses
its plane and the wall was left out.
---
 primitives/triangle.go | 88 ++++++++++--------------------------------
 1 file changed, 20 insertions(+), 68 deletions(-)

diff --git a/primitives/triangle.go b/primitives/triangle.go
index f35b713..cf0ed6a 100644
--- a/primitives/triangle.go
+++ b/primitives/triangle.go
@@ -63,74 +63,26 @@ func (t *Triangle)IntersectTriangle(t2 *Triangle) *Line {
 		return nil
 	}
 
-	b1 := t.PointBelongs(line.P1)
-	b2 := t.PointBelongs(line.P2)
-
-	//if line is inside of triangle
-	if b1 && b2 {
-		return line
-	}
-
-	p1 := Line{P1: t.P1, P2: t.P2}.IntersectLine(line)
-	p2 := Line{P1: t.P1, P2: t.P3}.IntersectLine(line)
-	p3 := Line{P1: t.P2, P2: t.P3}.IntersectLine(line)
-
-	//if line crosses the one side of triangle
-	if b1 || b2 {
-		if p1 != nil{
-			if b1{
-				return &Line{P1: line.P1, P2: *p1}
-			}
-			if b2{
-				return &Line{P1: *p1, P2: line.P2}
-			}
-		}
-		if p2 != nil{
-			if b1{
-				return &Line{P1: line.P1, P2: *p2}
-			}
-			if b2{
-				return &Line{P1: *p2, P2: line.P2}
-			}
-		}
-		if p3 != nil{
-			if b1{
-				return &Line{P1: line.P1, P2: *p3}
-			}
-			if b2{
-				return &Line{P1: *p3, P2: line.P2}
-			}
+	// part of the line that is inside of all sides
+	d := line.ToVector()
+	from, to := 0.0, 1.0
+	ps := []Point{t.P1, t.P2, t.P3, t.P1}
+	for i := 0; i < 3; i++ {
+		in := t.N.Cross(ps[i].VectorTo(ps[i+1])) // from the side into the triangle
+		h := in.Dot(ps[i].VectorTo(line.P1))
+		dh := in.Dot(d)
+		if dh > 0 {
+			from = math.Max(from, -h/dh)
+		} else if dh < 0 {
+			to = math.Min(to, -h/dh)
+		} else if h < 0 {
+			return nil
 		}
-
-	}
-
-	// if line crosses 2 sides of triangle
-	if p1 == nil && p2 != nil && p3 != nil{
-		return &Line{P1: *p2, P2: *p3}
-	}
-
-	if p1 != nil && p2 == nil && p3 != nil{
-		return &Line{P1: *p1, P2: *p3}
-	}
-
-	if p1 != nil && p2 != nil && p3 == nil{
-		return &Line{P1: *p1, P2: *p2}
 	}
-
-	// if line cross all siides of triangle (one edge and one vertex)
-	if p1 != nil && p2 != nil && p3 != nil {
-		if p1 == p2 {
-			return &Line{P1: *p1, P2: *p3}
-		}
-		if p1  == p3 {
-			return &Line{P1: *p1, P2: *p2}
-		}
-		if p2  == p3 {
-			return &Line{P1: *p1, P2: *p2}
-		}
+	if from >= to {
+		return nil
 	}
-
-	return nil
+	return &Line{P1: line.P1.Shift(d.MulScalar(from)), P2: line.P1.Shift(d.MulScalar(to))}
 }
 
 func (t *Triangle) PointBelongs(p Point) bool {
@@ -142,9 +94,9 @@ func (t *Triangle) PointBelongs(p Point) bool {
 		B := t.P2
 		C := t.P3
 
-		w1 := (A.X - p.X)*(B.Y - A.Y) - (B.X - A.X)*(A.Y - p.Y)
-		w2 := (B.X - p.X)*(C.Y - B.Y) - (C.X - B.X)*(B.Y - p.Y)
-		w3 := (C.X - p.X)*(A.Y - C.Y) - (A.X - C.X)*(C.Y - p.Y)
+		w1 := A.VectorTo(B).Cross(A.VectorTo(p)).Dot(t.N)
+		w2 := B.VectorTo(C).Cross(B.VectorTo(p)).Dot(t.N)
+		w3 := C.VectorTo(A).Cross(C.VectorTo(p)).Dot(t.N)
 
 		if w1>=0 && w2>=0 && w3 >=0 || w1<=0 && w2<=0 && w3 <=0 {
 			return true
-- 
2.43.0


From 61f0d22fa07ac617d13d07f7329f0b92721a0a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 34/43] fix: support lines are joined apart from contours

A support wall that starts in an end of a contour's line was joined into
the contour, and merging of collinear lines that turn back lost parts of
both.
---
 slicers/slice_by_vector.go | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/slicers/slice_by_vector.go b/slicers/slice_by_vector.go
index a2a8661..1682076 100644
--- a/slicers/slice_by_vector.go
+++ b/slicers/slice_by_vector.go
@@ -56,6 +56,7 @@ func SliceByVector(mesh *Mesh, Z Vector, settings Settings) []Layer {
 	DoInParallel(slicingWorker(in, out))
 
 	//make support triangles
+	var sup_triangles []*Triangle
 	if supports {
 		temp := mesh.CopyTriangles()
 		sort.Slice(temp, func(i, j int) bool {
@@ -76,22 +77,20 @@ func SliceByVector(mesh *Mesh, Z Vector, settings Settings) []Layer {
 
 		col_lines := helpers.MakeUndoubledLinesFromTriangles(col_triangles)
 		sup_lines := helpers.MakeSupportLines(col_lines, plane)
-		var sup_triangles []Triangle
 		for i := range col_lines {
 			Tr1 := NewTriangle(sup_lines[i].P1, col_lines[i].P1, col_lines[i].P2)
 			Tr2 := NewTriangle(sup_lines[i].P1, sup_lines[i].P2, col_lines[i].P2)
 
 			lines := helpers.IntersectTriangles(Tr1, temp)
 			if lines == nil {
-				sup_triangles = append(sup_triangles, Tr1)
+				sup_triangles = append(sup_triangles, &Tr1)
 			}
 
 			lines = helpers.IntersectTriangles(Tr2, temp)
 			if lines == nil {
-				sup_triangles = append(sup_triangles, Tr2)
+				sup_triangles = append(sup_triangles, &Tr2)
 			}
 		}
-		triangles = append(sup_triangles, triangles...)
 	}
 
 	index := 0
@@ -117,7 +116,7 @@ func SliceByVector(mesh *Mesh, Z Vector, settings Settings) []Layer {
 		// copy triangles for worker job
 		activeCopy := make([]*Triangle, len(active))
 		copy(activeCopy, active)
-		in <- job{order: i, plane: plane, triangles: activeCopy}
+		in <- job{order: i, plane: plane, triangles: activeCopy, supports: sup_triangles}
 		curP = curP.Shift(sh)
 	}
 	close(in)
@@ -148,19 +147,28 @@ type job struct {
 	order     int
 	plane     Plane
 	triangles []*Triangle
+	supports  []*Triangle
 }
 
 func slicingWorker(in chan job, out chan Layer) func(wi, wn int) {
 	return func(_, _ int) {
 		var paths []Path
 		for job := range in {
-			paths = paths[:0]
-			for _, t := range job.triangles {
-				if line := job.plane.IntersectTriangle(t); line != nil {
-					paths = append(paths, Path{Points: []Point{line.P1, line.P2}})
-				}
-			}
-			out <- Layer{Order: job.order, Norm: job.plane.N, Paths: JoinPaths3AndMinimize(paths)}
+			paths = appendSections(paths[:0], job.plane, job.triangles)
+			contours := JoinPaths3AndMinimize(paths)
+			// lines of supports are not joined with contours and can turn back, so they are not merged too
+			paths = appendSections(paths[:0], job.plane, job.supports)
+			contours = append(contours, JoinPaths3(paths)...)
+			out <- Layer{Order: job.order, Norm: job.plane.N, Paths: contours}
+		}
+	}
+}
+
+func appendSections(paths []Path, plane Plane, triangles []*Triangle) []Path {
+	for _, t := range triangles {
+		if line := plane.IntersectTriangle(t); line != nil {
+			paths = append(paths, Path{Points: []Point{line.P1, line.P2}})
 		}
 	}
+	return paths
 }
-- 
2.43.0


From 111e1667eb2e7baf99cdc834068c4ca41ccee3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 35/43] fix: no supports where the lowered edge is below the
 bed

The wall of an edge that crosses the bed was turned upside down there.
---
 helpers/supports_by_vector.go | 21 +++++++++++++++++++++
 slicers/slice_by_vector.go    |  1 +
 2 files changed, 22 insertions(+)

diff --git a/helpers/supports_by_vector.go b/helpers/supports_by_vector.go
index 23c3cde..3c8ce5a 100644
--- a/helpers/supports_by_vector.go
+++ b/helpers/supports_by_vector.go
@@ -66,6 +66,27 @@ func MakeSupportLines(lines []Line, a Plane) []Line{
 	return pr_lines
 }
 
+// LinesAbovePlane - parts of the lines that are above the plane
+func LinesAbovePlane(lines []Line, a Plane) []Line {
+	var res []Line
+	for _, l := range lines {
+		f1 := a.PointInFront(l.P1)
+		f2 := a.PointInFront(l.P2)
+		if f1 != f2 {
+			p := a.IntersectSegment(l.P1, l.P2)
+			if f1 {
+				l.P2 = *p
+			} else {
+				l.P1 = *p
+			}
+		}
+		if f1 || f2 {
+			res = append(res, l)
+		}
+	}
+	return res
+}
+
 func compareAndDeleteLineFromSlice(lines []Line, temp_l Line) []Line {
 	fl := true
 	for j, l := range lines{
diff --git a/slicers/slice_by_vector.go b/slicers/slice_by_vector.go
index 1682076..e8973fb 100644
--- a/slicers/slice_by_vector.go
+++ b/slicers/slice_by_vector.go
@@ -76,6 +76,7 @@ func SliceByVector(mesh *Mesh, Z Vector, settings Settings) []Layer {
 		}
 
 		col_lines := helpers.MakeUndoubledLinesFromTriangles(col_triangles)
+		col_lines = helpers.LinesAbovePlane(col_lines, plane)
 		sup_lines := helpers.MakeSupportLines(col_lines, plane)
 		for i := range col_lines {
 			Tr1 := NewTriangle(sup_lines[i].P1, col_lines[i].P1, col_lines[i].P2)
-- 
2.43.0


From ce3b3f9b68ad8392d6311940325fe1dd66e506c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:57 +0000
Subject: [PATCH 36/43] fix: SimplifyMesh panicked for sizes that cannot be
 reached

---
 helpers/simplify_mesh.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/helpers/simplify_mesh.go b/helpers/simplify_mesh.go
index 46eb4b9..87af46f 100644
--- a/helpers/simplify_mesh.go
+++ b/helpers/simplify_mesh.go
@@ -6,7 +6,7 @@ import (
 	. "github.com/l1va/goosli/primitives"
 )
 
-func SimplifyMesh(mesh *Mesh, resSize int) (*Mesh, error) {
+func SimplifyMesh(mesh *Mesh, resSize int) (res *Mesh, err error) {
 	if mesh == nil {
 		return nil, fmt.Errorf("cannot simplify, mesh is nil")
 	}
@@ -16,6 +16,13 @@ func SimplifyMesh(mesh *Mesh, resSize int) (*Mesh, error) {
 		return mesh, nil
 	}
 
+	// simplify panics if nothing can be collapsed anymore, but the size is not reached
+	defer func() {
+		if r := recover(); r != nil {
+			res, err = nil, fmt.Errorf("mesh cannot be simplified to %d triangles: %v", resSize, r)
+		}
+	}()
+
 	factor := float64(resSize) / float64(actualSize)
 
 	smesh := toFoglemanMesh(mesh) //TODO: implement by self
-- 
2.43.0


From 6d438a4e320bc0d0165dc3af03e6fb03594413b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:43 +0000
Subject: [PATCH 37/43] fix: the farthest point of a concave path in a
 direction, not any of them

---
 primitives/plane.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/primitives/plane.go b/primitives/plane.go
index ac28d3d..57255ed 100644
--- a/primitives/plane.go
+++ b/primitives/plane.go
@@ -91,15 +91,20 @@ func (p Plane) IntersectSegment(p1, p2 Point) *Point {
 	return &res
 }
 
+// IntersectPathCodirectedWith gives the point of the path on the plane that is the farthest from the centre
+// in the direction v (a concave path can have several, which of them is the first depends on its start)
 func (p Plane) IntersectPathCodirectedWith(path Path, v Vector) *Point {
 	cp := FindCentroid(path)
+	var res *Point
 	for i:=1;i<len(path.Points);i++ { //TODO: optimize me
 		pi := p.IntersectSegment(path.Points[i-1],path.Points[i])
 		if pi != nil && cp.VectorTo(*pi).CodirectedWith(v) {
-			return pi
+			if res == nil || cp.DistanceTo(*pi) > cp.DistanceTo(*res) {
+				res = pi
+			}
 		}
 	}
-	return nil
+	return res
 }
 
 func (p Plane) PointInFront(v Point) bool {
-- 
2.43.0


From d2792244a83648e4552c66a35caed407cf8750d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:45 +0000
Subject: [PATCH 38/43] fix: a hole in a body of rotation was compared with its
 outline

---
 slicers/vip/slice_rotation.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/slicers/vip/slice_rotation.go b/slicers/vip/slice_rotation.go
index 43125c3..cb64f39 100644
--- a/slicers/vip/slice_rotation.go
+++ b/slicers/vip/slice_rotation.go
@@ -70,10 +70,12 @@ func failRotaion(prevLayer, curLayer Layer) bool {
 		println("curLayer has not one path: ", len(curLayer.Paths))
 	}
 
-	if len(prevLayer.Paths) == 0 || len(curLayer.Paths) == 0 {
+	prevPaths := getAllOutsidePathes(prevLayer) // the first path can be a hole
+	curPaths := getAllOutsidePathes(curLayer)
+	if len(prevPaths) == 0 || len(curPaths) == 0 {
 		return false
 	}
-	anyP := prevLayer.Paths[0].Points[0]
+	anyP := prevPaths[0].Points[0]
 	//nearestP := curLayer.Paths[0].Lines[0].P1
 	//d := anyP.DistanceTo(nearestP)
 	//for _, line := range curLayer.Paths[0].Lines {
@@ -83,9 +85,9 @@ func failRotaion(prevLayer, curLayer Layer) bool {
 	//		nearestP = line.P2
 	//	}
 	//}
-	cp := FindCentroid(prevLayer.Paths[0])
+	cp := FindCentroid(prevPaths[0])
 	plane := Plane{anyP, cp.VectorTo(anyP).Cross(AxisZ)}
-	nearestP := plane.IntersectPathCodirectedWith(curLayer.Paths[0], cp.VectorTo(anyP))
+	nearestP := plane.IntersectPathCodirectedWith(curPaths[0], cp.VectorTo(anyP))
 
 	if nearestP != nil && AxisZ.Angle(anyP.VectorTo(*nearestP)) > failAngle {
 		if cp.DistanceTo(anyP) > cp.DistanceTo(*nearestP) { // inside incline
-- 
2.43.0


From 0cda48bf2068fec6361359b6d14321d1cddc29b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:48 +0000
Subject: [PATCH 39/43] fix: walls that lean inwards are not overhangs, the bed
 was turned to a wrong side

---
 slicers/slice_5axes.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/slicers/slice_5axes.go b/slicers/slice_5axes.go
index a519df5..1b86351 100644
--- a/slicers/slice_5axes.go
+++ b/slicers/slice_5axes.go
@@ -177,7 +177,9 @@ func CalculateFails(prevLayer, curLayer Layer) *Plane {
 				if curPi != nil {
 					prevPi := pl.IntersectPathCodirectedWith(*prevPath, curX)
 					if prevPi != nil {
-						if AxisZ.Angle(prevPi.VectorTo(*curPi)) > failAngle {
+						shift := prevPi.VectorTo(*curPi)
+						// shifted inwards it is not an overhang
+						if AxisZ.Angle(shift) > failAngle && shift.Dot(curX) > 0 {
 							failsCur = append(failsCur, float64(j*angleDist))
 						}
 					}
-- 
2.43.0


From dda673e6d976cecd84c8b06a03df497256c6f65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:50 +0000
Subject: [PATCH 40/43] fix: the path below a point was not found, because the
 point is above its plane

---
 slicers/slice_5axes.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/slicers/slice_5axes.go b/slicers/slice_5axes.go
index 1b86351..9b9f070 100644
--- a/slicers/slice_5axes.go
+++ b/slicers/slice_5axes.go
@@ -222,6 +222,7 @@ func findPrevPath(prevP Point, prevLayer Layer) *Path {
 				continue
 			}
 		}
+		prevP.Z = pth.Points[0].Z // it is a point of the next layer
 		if prevP.Inside(pth) {
 			return &pth
 		}
-- 
2.43.0


From 560d0ff430c057bca9cd29e8e0ab87f776403d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:52 +0000
Subject: [PATCH 41/43] fix: a path with its centre outside of it was taken for
 an overhang

---
 slicers/slice_5axes.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/slicers/slice_5axes.go b/slicers/slice_5axes.go
index 9b9f070..aef9a01 100644
--- a/slicers/slice_5axes.go
+++ b/slicers/slice_5axes.go
@@ -160,6 +160,9 @@ func CalculateFails(prevLayer, curLayer Layer) *Plane {
 			if len(prevLayer.Paths) > 0 {
 				prevPath := prevLayer.Paths[0] //checking only first pth
 				prevCp := FindCentroid(prevPath)
+				if AxisZ.Angle(prevCp.VectorTo(curCp)) <= failAngle {
+					continue // not an overhang, centre of a concave path is outside of it
+				}
 				v := prevCp.VectorTo(curCp).ProjectOnPlane(PlaneXY)
 				pl := Plane{P: prevCp, N: v.Cross(AxisZ)}
 				pi := pl.IntersectPathCodirectedWith(prevPath, v)
-- 
2.43.0


From 64cc543bf6547c65852812c50fa40f003da47487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:00 +0000
Subject: [PATCH 42/43] fix: infill of parts in a changed pose used rotated
 planes, so the density was off

---
 slicers/vip/slice_bridge.go  |  9 +--------
 slicers/vip/slice_default.go | 13 +------------
 2 files changed, 2 insertions(+), 20 deletions(-)

diff --git a/slicers/vip/slice_bridge.go b/slicers/vip/slice_bridge.go
index 9408196..2b5d152 100644
--- a/slicers/vip/slice_bridge.go
+++ b/slicers/vip/slice_bridge.go
@@ -58,14 +58,7 @@ func SliceBridge(mesh *Mesh, settings Settings, layers []Layer) gcode.Gcode {
 	gcd.Add(gcode.RotateZ{Angle: angleZ})
 	gcd.Add(gcode.InclineX{})
 
-	for i, plane := range fillPlanes {
-		fillPlanes[i] = plane.Rotate(RotationAroundZ(angleZ)).Rotate(RotationAroundX(angleX))
-	}
-
-	for i, plane := range fullFillPlanes {
-		fullFillPlanes[i] = plane.Rotate(RotationAroundZ(angleZ)).Rotate(RotationAroundX(angleX))
-	}
-
+	fillPlanes, fullFillPlanes = CalcFillPlanes(mesh, settings) // the part was rotated
 	rest := SliceByVector(mesh, AxisZ, settings)
 	gcd.AddLayers(PrepareLayers(rest, settings, fillPlanes, fullFillPlanes))
 
diff --git a/slicers/vip/slice_default.go b/slicers/vip/slice_default.go
index 07cc976..0499b85 100644
--- a/slicers/vip/slice_default.go
+++ b/slicers/vip/slice_default.go
@@ -62,12 +62,6 @@ func SliceDefault2(mesh *Mesh, settings Settings, layers []Layer) gcode.Gcode {
 				rotated = false
 				println("triangles: ", len(mesh.Triangles))
 				println("rotate back")
-				for j, plane := range fillPlanes {
-					fillPlanes[j] = plane.Rotate(RotationAroundX(-angleX)).Rotate(RotationAroundZ(-angleZ))
-				}
-				for j, plane := range fullFillPlanes {
-					fullFillPlanes[j] = plane.Rotate(RotationAroundX(-angleX)).Rotate(RotationAroundZ(-angleZ))
-				}
 			} else {
 				angleZ = newPlane.N.PolarAngle() + 90
 				println(angleZ)
@@ -77,13 +71,8 @@ func SliceDefault2(mesh *Mesh, settings Settings, layers []Layer) gcode.Gcode {
 				gcd.Add(gcode.RotateZ{Angle: angleZ})
 				gcd.Add(gcode.InclineX{})
 				rotated = true
-				for j, plane := range fillPlanes {
-					fillPlanes[j] = plane.Rotate(RotationAroundZ(angleZ)).Rotate(RotationAroundX(angleX))
-				}
-				for j, plane := range fullFillPlanes {
-					fullFillPlanes[j] = plane.Rotate(RotationAroundZ(angleZ)).Rotate(RotationAroundX(angleX))
-				}
 			}
+			fillPlanes, fullFillPlanes = CalcFillPlanes(mesh, settings) // the part was rotated
 			layers = SliceByVector(mesh, AxisZ, settings)
 			println("len layers: ", len(layers))
 
-- 
2.43.0


From a2aae9b6e8952fccc6adebb5a05d96e6a5ed6cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:10 +0000
Subject: [PATCH 43/43] fix: contours and cut surfaces had gaps where a plane
 passes close to a vertex, as all short lines were dropped

---
 primitives/path.go  | 78 +++++++++++++++++++++++++++++----------------
 primitives/plane.go | 24 +++++++++-----
 2 files changed, 66 insertions(+), 36 deletions(-)

diff --git a/primitives/path.go b/primitives/path.go
index 6aeb3a8..65f9189 100644
--- a/primitives/path.go
+++ b/primitives/path.go
@@ -130,32 +130,37 @@ func JoinPaths3(p []Path) []Path {
 	proj := func(p Point) float64 { return p.X*0.8417 + p.Y*0.4793 + p.Z*0.2486 }
 	sort.Slice(a, func(i, j int) bool { return proj(a[i].P) < proj(a[j].P) })
 
-	for i := 1; i < len(a); i++ {
-		for k := i - 1; k >= 0 && proj(a[i].P)-proj(a[k].P) < 2*almostZeroNumber; k-- {
-			b := a[k]
-			c := a[i]
-			if b.P.Equal(c.P) {
-				j1 := b.Ind
-				for w[j1] != j1 {
-					j1 = w[j1]
-				}
-				p1 := p[j1]
-				j2 := c.Ind
-				for w[j2] != j2 {
-					j2 = w[j2]
-				}
-				if j1 == j2 {
-					continue
-				}
-				p2 := p[j2]
-				res := tryJoin(p1, p2)
-				if res != nil {
-					p[j1] = *res
-					w[j2] = j1
+	join := func(equal func(p1, p2 Point) bool) {
+		for i := 1; i < len(a); i++ {
+			for k := i - 1; k >= 0 && proj(a[i].P)-proj(a[k].P) < 2*almostZeroNumber; k-- {
+				b := a[k]
+				c := a[i]
+				if equal(b.P, c.P) {
+					j1 := b.Ind
+					for w[j1] != j1 {
+						j1 = w[j1]
+					}
+					p1 := p[j1]
+					j2 := c.Ind
+					for w[j2] != j2 {
+						j2 = w[j2]
+					}
+					if j1 == j2 {
+						continue
+					}
+					p2 := p[j2]
+					res := tryJoin(p1, p2, equal)
+					if res != nil {
+						p[j1] = *res
+						w[j2] = j1
+					}
 				}
 			}
 		}
 	}
+	// exact joints first, because both ends of a short path are Equal to the ends of its neighbours
+	join(func(p1, p2 Point) bool { return p1 == p2 })
+	join(Point.Equal)
 	res := []Path{}
 	for i := 0; i < n; i++ {
 		if w[i] == i {
@@ -166,13 +171,30 @@ func JoinPaths3(p []Path) []Path {
 }
 
 func JoinPaths3AndMinimize(p []Path) []Path {
-	joined := JoinPaths3(p)
-	for i := 0; i < len(joined); i++ {
-		joined[i] = joined[i].MinimizeLines()
+	joined := []Path{}
+	for _, pth := range JoinPaths3(p) {
+		pth = pth.withoutShortLines()
+		if len(pth.Points) > 1 {
+			joined = append(joined, pth.MinimizeLines())
+		}
 	}
 	return joined
 }
 
+// withoutShortLines skips points that are Equal to the point before, the ends are kept (if they are not Equal all)
+func (p Path) withoutShortLines() Path {
+	var res []Point
+	for _, pt := range p.Points {
+		if len(res) == 0 || !pt.Equal(res[len(res)-1]) {
+			res = append(res, pt)
+		}
+	}
+	if len(res) > 1 {
+		res[len(res)-1] = p.Points[len(p.Points)-1]
+	}
+	return Path{Points: res}
+}
+
 //Merge collinear lines in the path
 func (p Path) MinimizeLines() Path {
 	if len(p.Points) < 3 {
@@ -206,12 +228,12 @@ func (p Path) MinimizeLines() Path {
 	return res
 }
 
-func tryJoin(p1 Path, p2 Path) *Path {
-	if p1.Points[len(p1.Points)-1].Equal(p2.Points[0]) {
+func tryJoin(p1 Path, p2 Path, equal func(p1, p2 Point) bool) *Path {
+	if equal(p1.Points[len(p1.Points)-1], p2.Points[0]) {
 		p1.Points = append(p1.Points, p2.Points[1:]...)
 		return &p1
 	}
-	if p2.Points[len(p2.Points)-1].Equal(p1.Points[0]) {
+	if equal(p2.Points[len(p2.Points)-1], p1.Points[0]) {
 		p2.Points = append(p2.Points, p1.Points[1:]...)
 		return &p2
 	}
diff --git a/primitives/plane.go b/primitives/plane.go
index 57255ed..0049373 100644
--- a/primitives/plane.go
+++ b/primitives/plane.go
@@ -56,38 +56,46 @@ func (p Plane) IntersectTriangle(t *Triangle) *Line {
 	v3 := p.IntersectSegment(t.P3, t.P1)
 	var p1, p2 Point
 
-	if v1 != nil && v2 != nil && !v1.Equal(*v2) {
+	// short lines are needed too: many of them can be neighbours, and contours without them have gaps
+	if v1 != nil && v2 != nil && *v1 != *v2 {
 		p1, p2 = *v1, *v2
-	} else if v1 != nil && v3 != nil && !v1.Equal(*v3) {
+	} else if v1 != nil && v3 != nil && *v1 != *v3 {
 		p1, p2 = *v1, *v3
-	} else if v2 != nil && v3 != nil && !v2.Equal(*v3) {
+	} else if v2 != nil && v3 != nil && *v2 != *v3 {
 		p1, p2 = *v2, *v3
 	} else {
 		return nil
 	}
+	n := p1.VectorTo(p2).Cross(p.N)
 	p1 = p1.RoundPlaces(8)
 	p2 = p2.RoundPlaces(8)
-	if p1.Equal(p2) {
+	if p1 == p2 {
 		return nil
 	}
-	n := p1.VectorTo(p2).Cross(p.N)
 	if n.Dot(t.N) < 0 { // orientation according to triangle plane (against t normal)
 		return &Line{p1, p2}
 	}
 	return &Line{p2, p1}
 }
 
+// IntersectSegment gives the same point for the segment and for the reversed one
 func (p Plane) IntersectSegment(p1, p2 Point) *Point {
 	pr1 := p.height(p1)
 	pr2 := p.height(p2)
 	if pr1 == pr2 {
 		return nil
 	}
-	t := pr1 / (pr1 - pr2)
-	if t < 0 || t > 1 {
+	if pr1 > pr2 {
+		p1, p2 = p2, p1
+		pr1, pr2 = pr2, pr1
+	}
+	if pr1 > 0 || pr2 < 0 {
 		return nil
 	}
-	res := p1.Shift(p1.VectorTo(p2).MulScalar(t))
+	if pr2 == 0 {
+		return &p2
+	}
+	res := p1.Shift(p1.VectorTo(p2).MulScalar(pr1 / (pr1 - pr2)))
 	return &res
 }
 
-- 
2.43.0


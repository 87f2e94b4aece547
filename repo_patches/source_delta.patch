From 6f7fe2f6504b34f0aaf78689827887b306dfcf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 01/73] fix: binvox read window is half-open: count voxels, not
 count+1

Read documents that nx, ny, nz are the number of voxels to read in each
direction, but the window test included index start+count, so adjacent
windows overlapped by one layer.
---
 binvox/read.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binvox/read.go b/binvox/read.go
index ae9d2f5..930b8ee 100644
--- a/binvox/read.go
+++ b/binvox/read.go
@@ -152,7 +152,7 @@ func read(r io.Reader, sx, sy, sz, cx, cy, cz int) (*BinVOX, error) {
 			if xi >= nx {
 				return nil, fmt.Errorf("run-length encoding overrun: x index=%v, x dim=%v", xi, nx)
 			}
-			if value == 1 && xi >= sx && xi <= sx+cx && yi >= sy && yi <= sy+cy && zi >= sz && zi <= sz+cz {
+			if value == 1 && xi >= sx && xi < sx+cx && yi >= sy && yi < sy+cy && zi >= sz && zi < sz+cz {
 				voxels[Key{X: xi, Y: yi, Z: zi}] = struct{}{}
 			}
 			yi++
-- 
2.43.0


From 411468bd07454880a254b981ead0ff5c8f76d746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 02/73] fix: vshell read window is half-open: count voxels, not
 count+1

---
 vshell/read.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vshell/read.go b/vshell/read.go
index 4a27bb4..1be6883 100644
--- a/vshell/read.go
+++ b/vshell/read.go
@@ -159,7 +159,7 @@ func read(r io.Reader, sx, sy, sz, cx, cy, cz int) (*VShell, error) {
 			if xi >= nx {
 				return nil, fmt.Errorf("run-length encoding overrun: x index=%v, x dim=%v", xi, nx)
 			}
-			if value != 0 && value != 0xffffffff && xi >= sx && xi <= sx+cx && yi >= sy && yi <= sy+cy && zi >= sz && zi <= sz+cz {
+			if value != 0 && value != 0xffffffff && xi >= sx && xi < sx+cx && yi >= sy && yi < sy+cy && zi >= sz && zi < sz+cz {
 				voxels = append(voxels, VShVoxel{X: xi, Y: yi, Z: zi, N: NeighborBitMap(value)})
 			}
 			yi++
-- 
2.43.0


From bd82d00b92e0cadaae4a86997c38c4c7564ea1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 03/73] fix: binvox read rejects runs in a grid with a zero
 dimension

---
 binvox/read.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binvox/read.go b/binvox/read.go
index 930b8ee..c6aee11 100644
--- a/binvox/read.go
+++ b/binvox/read.go
@@ -149,7 +149,7 @@ func read(r io.Reader, sx, sy, sz, cx, cy, cz int) (*BinVOX, error) {
 		// The y-coordinate runs fastest, then the z-coordinate, then the x-coordinate.
 		// Note that we are only saving the white pixels.
 		for i := 0; i < int(count); i++ {
-			if xi >= nx {
+			if xi >= nx || yi >= ny || zi >= nz {
 				return nil, fmt.Errorf("run-length encoding overrun: x index=%v, x dim=%v", xi, nx)
 			}
 			if value == 1 && xi >= sx && xi < sx+cx && yi >= sy && yi < sy+cy && zi >= sz && zi < sz+cz {
-- 
2.43.0


From fcc565904e9f4bf1aa5aa5f6d672c53df38f5622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 04/73] fix: vshell read rejects runs in a grid with a zero
 dimension

---
 vshell/read.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vshell/read.go b/vshell/read.go
index 1be6883..f3694e6 100644
--- a/vshell/read.go
+++ b/vshell/read.go
@@ -156,7 +156,7 @@ func read(r io.Reader, sx, sy, sz, cx, cy, cz int) (*VShell, error) {
 		// The y-coordinate runs fastest, then the z-coordinate, then the x-coordinate.
 		// Note that we are only saving the white pixels.
 		for i := 0; i < int(count); i++ {
-			if xi >= nx {
+			if xi >= nx || yi >= ny || zi >= nz {
 				return nil, fmt.Errorf("run-length encoding overrun: x index=%v, x dim=%v", xi, nx)
 			}
 			if value != 0 && value != 0xffffffff && xi >= sx && xi < sx+cx && yi >= sy && yi < sy+cy && zi >= sz && zi < sz+cz {
-- 
2.43.0


From 420d4622638ed56196758e1299692fa20cef0924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 05/73] fix: binvox write reports header write errors

---
 binvox/write.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/binvox/write.go b/binvox/write.go
index a172bb6..6f6f594 100644
--- a/binvox/write.go
+++ b/binvox/write.go
@@ -39,7 +39,9 @@ data
 
 func (b *BinVOX) write(w io.Writer, sx, sy, sz, nx, ny, nz int) (int64, error) {
 	if len(b.WhiteVoxels) == 0 {
-		fmt.Fprintf(w, headerFMT, 0, 0, 0, b.TX, b.TY, b.TZ, b.Scale)
+		if _, err := fmt.Fprintf(w, headerFMT, 0, 0, 0, b.TX, b.TY, b.TZ, b.Scale); err != nil {
+			return 0, fmt.Errorf("unable to write header: %v", err)
+		}
 		return 0, nil
 	}
 
@@ -55,7 +57,9 @@ func (b *BinVOX) write(w io.Writer, sx, sy, sz, nx, ny, nz int) (int64, error) {
 
 	header := fmt.Sprintf(headerFMT, nx, ny, nz, b.TX, b.TY, b.TZ, b.Scale)
 	log.Printf("New header: %v", header)
-	fmt.Fprint(w, header)
+	if _, err := fmt.Fprint(w, header); err != nil {
+		return 0, fmt.Errorf("unable to write header: %v", err)
+	}
 
 	ch := make(chan rle, 100)
 	go b.encode(ch, b.WhiteVoxels, sx, sy, sz, nx, ny, nz)
-- 
2.43.0


From 40bb054cd8c4938ed8ebf9e2cfa42b73ae00a348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 06/73] fix: vshell write reports header write errors

---
 vshell/write.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vshell/write.go b/vshell/write.go
index bcd6556..f6c2eaf 100644
--- a/vshell/write.go
+++ b/vshell/write.go
@@ -38,7 +38,9 @@ data
 
 func (vs *VShell) write(w io.Writer, sx, sy, sz, nx, ny, nz int) (int64, error) {
 	if len(vs.Voxels) == 0 {
-		fmt.Fprintf(w, headerFMT, 0, 0, 0, vs.TX, vs.TY, vs.TZ, vs.Scale)
+		if _, err := fmt.Fprintf(w, headerFMT, 0, 0, 0, vs.TX, vs.TY, vs.TZ, vs.Scale); err != nil {
+			return 0, fmt.Errorf("unable to write header: %v", err)
+		}
 		return 0, nil
 	}
 
@@ -60,7 +62,9 @@ func (vs *VShell) write(w io.Writer, sx, sy, sz, nx, ny, nz int) (int64, error)
 
 	header := fmt.Sprintf(headerFMT, nx, ny, nz, vs.TX, vs.TY, vs.TZ, vs.Scale)
 	log.Printf("New header: %v", header)
-	fmt.Fprint(w, header)
+	if _, err := fmt.Fprint(w, header); err != nil {
+		return 0, fmt.Errorf("unable to write header: %v", err)
+	}
 
 	ch := make(chan rle, 100)
 	go vs.encode(ch, lookup, sx, sy, sz, nx, ny, nz)
-- 
2.43.0


From 7030e6f9b83427f63d27f6777a3bda245495da99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 07/73] fix: binvox windowed write keeps world position and
 voxel size

The header of a windowed write repeated the whole model's translation and
scale although indices restart at the window's origin and the largest
dimension changes, so the part was misplaced and its voxels resized.
---
 binvox/write.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/binvox/write.go b/binvox/write.go
index 6f6f594..7fc4764 100644
--- a/binvox/write.go
+++ b/binvox/write.go
@@ -55,7 +55,19 @@ func (b *BinVOX) write(w io.Writer, sx, sy, sz, nx, ny, nz int) (int64, error) {
 		nz = b.NZ
 	}
 
-	header := fmt.Sprintf(headerFMT, nx, ny, nz, b.TX, b.TY, b.TZ, b.Scale)
+	// A window keeps its place in world space and its voxel size.
+	tx, ty, tz, scale := b.TX, b.TY, b.TZ, b.Scale
+	if sx != 0 || sy != 0 || sz != 0 || nx != b.NX || ny != b.NY || nz != b.NZ {
+		mmpv := 1.0 / b.VoxelsPerMM()
+		tx += float64(sx) * mmpv
+		ty += float64(sy) * mmpv
+		tz += float64(sz) * mmpv
+		if dim := max(nx, ny, nz); dim != b.Dim() {
+			scale = float64(dim) * mmpv
+		}
+	}
+
+	header := fmt.Sprintf(headerFMT, nx, ny, nz, tx, ty, tz, scale)
 	log.Printf("New header: %v", header)
 	if _, err := fmt.Fprint(w, header); err != nil {
 		return 0, fmt.Errorf("unable to write header: %v", err)
-- 
2.43.0


From 53ee687e77fe5445f747283a176177ec55d20054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 08/73] fix: vshell windowed write keeps world position and
 voxel size

---
 vshell/write.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/vshell/write.go b/vshell/write.go
index f6c2eaf..498e8c7 100644
--- a/vshell/write.go
+++ b/vshell/write.go
@@ -60,7 +60,19 @@ func (vs *VShell) write(w io.Writer, sx, sy, sz, nx, ny, nz int) (int64, error)
 		lookup[key{v.X, v.Y, v.Z}] = i
 	}
 
-	header := fmt.Sprintf(headerFMT, nx, ny, nz, vs.TX, vs.TY, vs.TZ, vs.Scale)
+	// A window keeps its place in world space and its voxel size.
+	tx, ty, tz, scale := vs.TX, vs.TY, vs.TZ, vs.Scale
+	if sx != 0 || sy != 0 || sz != 0 || nx != vs.NX || ny != vs.NY || nz != vs.NZ {
+		mmpv := 1.0 / vs.VoxelsPerMM()
+		tx += float64(sx) * mmpv
+		ty += float64(sy) * mmpv
+		tz += float64(sz) * mmpv
+		if dim := max(nx, ny, nz); dim != vs.Dim() {
+			scale = float64(dim) * mmpv
+		}
+	}
+
+	header := fmt.Sprintf(headerFMT, nx, ny, nz, tx, ty, tz, scale)
 	log.Printf("New header: %v", header)
 	if _, err := fmt.Fprint(w, header); err != nil {
 		return 0, fmt.Errorf("unable to write header: %v", err)
-- 
2.43.0


From fb969a01b1354ea015716d2fb3f0a37508027519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 09/73] fix: manifold mesh closes corner arrangements without a
 template

86 of the 256 corner arrangements had no template and left holes.
---
 binvox/manifold.go | 57 ++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 55 insertions(+), 2 deletions(-)

diff --git a/binvox/manifold.go b/binvox/manifold.go
index 7213aa7..db439eb 100644
--- a/binvox/manifold.go
+++ b/binvox/manifold.go
@@ -531,12 +531,65 @@ func grid2tris(k Key, n neighborBitMap, v2v voxelToVectorFunc) (tris []*gl.Trian
 	case g0 | g2 | g4 | g5 | g7:
 		return apply(k, rotateTrisCounterClockwiseZ(v2v), g13456)
 
-	default:
-		log.Printf("grid2tris: k=%v: unhandled:\n%v", k, n)
+	default: // no template for this arrangement of corners
+		return closeCorners(k, n, v2v)
 	}
 	return nil
 }
 
+// cubeFaces lists the four corners of each cube face in counterclockwise
+// order as seen from outside of the cube.
+var cubeFaces = [6][4]int{
+	{0, 1, 2, 3}, // bottom
+	{4, 7, 6, 5}, // top
+	{0, 4, 5, 1}, // back
+	{1, 5, 6, 2}, // right
+	{2, 6, 7, 3}, // front
+	{3, 7, 4, 0}, // left
+}
+
+// cubeCorners lists the cube corner locations, in units of dd.
+var cubeCorners = [8]gl.Vector{
+	gl.V(-1, 1, -1), gl.V(1, 1, -1), gl.V(1, -1, -1), gl.V(-1, -1, -1),
+	gl.V(-1, 1, 1), gl.V(1, 1, 1), gl.V(1, -1, 1), gl.V(-1, -1, 1),
+}
+
+// closeCorners generates triangles for any arrangement of corners by
+// connecting the surface's outline on the faces of the cube to its center.
+// The outline on each face is the same one that the templates use (a right
+// angle through the middle of the face around a single corner, with diagonally
+// opposite corners joined) so that neighboring grid cells fit together.
+func closeCorners(k Key, n neighborBitMap, v2v voxelToVectorFunc) (tris []*gl.Triangle) {
+	for _, face := range cubeFaces {
+		var set [4]bool
+		var edge [4]gl.Vector // middle of the edge following each corner
+		var mid gl.Vector     // middle of the face
+		for i, c := range face {
+			set[i] = n&(1<<c) != 0
+			edge[i] = cubeCorners[c].Add(cubeCorners[face[(i+1)%4]]).MulScalar(0.5 * dd)
+			mid = mid.Add(cubeCorners[c].MulScalar(0.25 * dd))
+		}
+		outline := func(p, q gl.Vector) { // solid is on the left of p-q
+			tris = append(tris, gl.NewTriangleForPoints(v2v(k, 0, 0, 0), v2v(k, q.X, q.Y, q.Z), v2v(k, p.X, p.Y, p.Z)))
+		}
+		for i := range face {
+			next, prev := (i+1)%4, (i+3)%4
+			switch {
+			case set[i] && !set[next] && !set[prev] && set[(i+2)%4]: // diagonally opposite corners
+				outline(edge[i], edge[next])
+			case set[i]:
+				if !set[next] {
+					outline(edge[i], mid)
+				}
+				if !set[prev] {
+					outline(mid, edge[prev])
+				}
+			}
+		}
+	}
+	return tris
+}
+
 // TriangleLess provides a Less function for sort.Slice.
 func TriangleLess(t []*gl.Triangle) func(a, b int) bool {
 	return func(a, b int) bool {
-- 
2.43.0


From 873313e1aac9e0efba48554fbf90ba483a363779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:34 +0000
Subject: [PATCH 10/73] fix: manifold mesh drops templates that do not match
 their neighbors

Flipping the normals of the inverse arrangement separates diagonally
opposite corners that the neighboring grid cell joins (and a few of them
used the wrong rotation), which left cracks. closeCorners handles them.
---
 binvox/face-templates.go |  9 ---------
 binvox/manifold.go       | 23 -----------------------
 2 files changed, 32 deletions(-)

diff --git a/binvox/face-templates.go b/binvox/face-templates.go
index f127edb..d4865ae 100644
--- a/binvox/face-templates.go
+++ b/binvox/face-templates.go
@@ -164,15 +164,6 @@ var (
 		{V1: x0y0z0, V2: x1y_1z0, V3: x0y_1z0},
 	}
 
-	g2457 = []*gl.Triangle{ // g2457_001.blend
-		{V1: x1y_1z0, V2: x1y0z1, V3: x0y_1z1},
-		{V1: x0y_1z1, V2: x1y0z1, V3: x0y0z1},
-		{V1: x0y0z_1, V2: x0y_1z_1, V3: x_1y_1z0},
-		{V1: x0y0z_1, V2: x_1y_1z0, V3: x_1y1z0},
-		{V1: x0y0z_1, V2: x_1y1z0, V3: x1y1z0},
-		{V1: x0y0z_1, V2: x1y1z0, V3: x1y0z_1},
-	}
-
 	g12467 = []*gl.Triangle{ // g12467_001.blend
 		{V1: x1y0z0, V2: x1y1z0, V3: x0y1z1},
 		{V1: x1y0z0, V2: x0y1z1, V3: x0y0z1},
diff --git a/binvox/manifold.go b/binvox/manifold.go
index db439eb..9d33d56 100644
--- a/binvox/manifold.go
+++ b/binvox/manifold.go
@@ -427,42 +427,22 @@ func grid2tris(k Key, n neighborBitMap, v2v voxelToVectorFunc) (tris []*gl.Trian
 		return apply(k, v2v, g0357)
 	case g0 | g1 | g2 | g6 | g7: // (inverse = g345 = case g3 | g4 | g5:)
 		return apply(k, mirrorZ(rotateTrisCounterClockwiseZ(v2v)), flipNormals(g0357))
-	case g3 | g4 | g5: // (inverse = g01267 = case g0 | g1 | g2 | g6 | g7:)
-		return apply(k, mirrorZ(rotateTrisCounterClockwiseZ(v2v)), g0357)
 
 	case g2 | g3 | g4:
 		return apply(k, v2v, g234)
-	case g0 | g1 | g5 | g6 | g7: // (inverse = g234 = case g2 | g3 | g4:)
-		return apply(k, v2v, flipNormals(g234))
 	case g0 | g6 | g7: // (inverse = g12345 = case g1 | g2 | g3 | g4 | g5:)
 		return apply(k, mirrorZ(v2v), flipNormals(g234))
-	case g1 | g2 | g3 | g4 | g5: // (inverse = g067 = case g0 | g6 | g7:)
-		return apply(k, mirrorZ(v2v), g234)
-	case g1 | g6 | g7: // (inverse = g02345 = case g0 | g2 | g3 | g4 | g5:)
-		return apply(k, mirrorX(v2v), flipNormals(g234))
-	case g0 | g2 | g3 | g4 | g5: // (inverse = g167 = case g1 | g6 | g7:)
-		return apply(k, mirrorX(v2v), g234)
 	case g0 | g1 | g6: // (inverse = g23457 = case g2 | g3 | g4 | g5 | g7:)
 		return apply(k, rotateTris180Z(v2v), g234)
-	case g2 | g3 | g4 | g5 | g7: // (inverse = g016 = case g0 | g1 | g6:)
-		return apply(k, rotateTris180Z(v2v), flipNormals(g234))
 	case g0 | g1 | g7: // (inverse = g23456 = case g2 | g3 | g4 | g5 | g6:)
 		return apply(k, rotateTris180Z(mirrorX(v2v)), flipNormals(g234))
-	case g2 | g3 | g4 | g5 | g6: // (inverse = g017 = case g0 | g1 | g7:)
-		return apply(k, rotateTris180Z(mirrorX(v2v)), g234)
 	case g2 | g4 | g5: // (inverse = g01367 = case g0 | g1 | g3 | g6 | g7:)
 		return apply(k, mirrorZ(rotateTris180Z(v2v)), flipNormals(g234))
-	case g0 | g1 | g3 | g6 | g7: // (inverse = g245 = case g2 | g4 | g5:)
-		return apply(k, mirrorZ(rotateTris180Z(v2v)), g234)
 	case g2 | g3 | g5: // (inverse = g01467 = case g0 | g1 | g4 | g6 | g7:)
 		return apply(k, rotateTris180Z(mirrorX(rotateTris180Z(v2v))), flipNormals(g234))
-	case g0 | g1 | g4 | g6 | g7: // (inverse = g235 = case g2 | g3 | g5:)
-		return apply(k, rotateTris180Z(mirrorX(rotateTris180Z(v2v))), g234)
 
 	case g0 | g1 | g6 | g7:
 		return apply(k, v2v, g0167)
-	case g2 | g3 | g4 | g5: // (inverse = g0167 = case g0 | g1 | g6 | g7:)
-		return apply(k, v2v, flipNormals(g0167))
 
 	case g0 | g1 | g5 | g6:
 		return apply(k, v2v, g0156)
@@ -503,9 +483,6 @@ func grid2tris(k Key, n neighborBitMap, v2v voxelToVectorFunc) (tris []*gl.Trian
 	case g1 | g5 | g6 | g7: // (inverse = g0234 = case g0 | g2 | g3 | g4:)
 		return apply(k, rotateTrisCounterClockwiseY(mirrorX(rotateTrisCounterClockwiseZ(rotateTris180Z(v2v)))), flipNormals(g0156))
 
-	case g2 | g4 | g5 | g7:
-		return apply(k, v2v, g2457)
-
 	case g1 | g2 | g4 | g6 | g7:
 		return apply(k, v2v, g12467)
 
-- 
2.43.0


From 04b803d0a216d32fcb5fff9773471d7240b5fcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:05 +0000
Subject: [PATCH 11/73] fix: voxelize emits no shell voxels left of the
 subregion

---
 binvox/voxelize.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/binvox/voxelize.go b/binvox/voxelize.go
index 2b282c2..b4c1b53 100644
--- a/binvox/voxelize.go
+++ b/binvox/voxelize.go
@@ -270,7 +270,9 @@ func (b *BinVOX) floodFill(zi int, set setMap, setVoxelFunc func(k Key), xMinMax
 				}
 				k := Key{xi, yi, zi}
 				if len(set[k]) > 0 { // triangles intersect this voxel.
-					setVoxelFunc(k)
+					if xi >= 0 { // Don't care before the subregion of interest.
+						setVoxelFunc(k)
+					}
 					var inCount, outCount int
 					for _, tri := range set[k] {
 						if _, ok := seenTris[tri]; ok {
-- 
2.43.0


From 92bcab8f339692c81344a17b01726cbc305b0ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:33 +0000
Subject: [PATCH 12/73] fix: voxelize slices meshes with vertices on the
 slicing plane

A vertex exactly on the plane gave a pair of identical points (losing the
crossing of that triangle) or two pairs for one edge of the outline. Slice
just above and just below the plane instead, where the outline of a closed
mesh is closed.
---
 binvox/voxelize.go | 53 +++++++++++++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 19 deletions(-)

diff --git a/binvox/voxelize.go b/binvox/voxelize.go
index b4c1b53..8c511a1 100644
--- a/binvox/voxelize.go
+++ b/binvox/voxelize.go
@@ -106,11 +106,18 @@ func (b *BinVOX) VoxelizeZ(mesh *gl.Mesh, zi int) error {
 
 func (b *BinVOX) voxelizeZ(mesh *gl.Mesh, zi int, dz, vpmm float64, setVoxelFunc func(k Key)) {
 	// log.Printf("voxelizeZ(%v): %v triangles, dz=%v, vpmm=%v", zi, len(mesh.Triangles), dz, vpmm)
-	set := make(setMap)
 	z := b.TZ + (0.5+float64(zi))*dz
 	// log.Printf("voxelizeZ(%v): horizontal slice @ z=%v", zi, z)
-	pairs := intersectZPlane(mesh, z)
+	b.voxelizeOutline(intersectZPlane(mesh, z, true), zi, z, dz, vpmm, setVoxelFunc)
+	if touchesZPlane(mesh, z) { // the outlines just above and just below the plane may differ
+		b.voxelizeOutline(intersectZPlane(mesh, z, false), zi, z, dz, vpmm, setVoxelFunc)
+	}
+}
+
+// voxelizeOutline fills the voxels of one outline of the mesh.
+func (b *BinVOX) voxelizeOutline(pairs []*intersectionPair, zi int, z, dz, vpmm float64, setVoxelFunc func(k Key)) {
 	// log.Printf("voxelizeZ(%v): got %v intersection pairs", zi, len(pairs))
+	set := make(setMap)
 	xMinMax := make(xMinMaxMap)
 	for _, pair := range pairs {
 		// log.Printf("voxelizeZ(%v): pair=%#v", zi, pair)
@@ -127,10 +134,23 @@ type intersectionPair struct {
 	tri *gl.Triangle
 }
 
+// touchesZPlane reports whether any vertex of the mesh lies exactly on the Z-plane at z.
+func touchesZPlane(mesh *gl.Mesh, z float64) bool {
+	for _, t := range mesh.Triangles {
+		if t.V1.Position.Z == z || t.V2.Position.Z == z || t.V3.Position.Z == z {
+			return true
+		}
+	}
+	return false
+}
+
 // intersectZPlane returns intersections between the mesh and the Z-plane at z.
-func intersectZPlane(mesh *gl.Mesh, z float64) (result []*intersectionPair) {
+// Vertices exactly on the plane count as above it if onIsAbove is true (and as
+// below it otherwise), so that the intersections of a closed mesh always form
+// closed outlines.
+func intersectZPlane(mesh *gl.Mesh, z float64, onIsAbove bool) (result []*intersectionPair) {
 	for _, t := range mesh.Triangles {
-		if v, ok := intersectTriZPlane(t, z); ok {
+		if v, ok := intersectTriZPlane(t, z, onIsAbove); ok {
 			result = append(result, v)
 		}
 	}
@@ -138,13 +158,13 @@ func intersectZPlane(mesh *gl.Mesh, z float64) (result []*intersectionPair) {
 }
 
 // intersectTriZPlane returns an intersection between a triangle and the z-plane.
-func intersectTriZPlane(t *gl.Triangle, z float64) (*intersectionPair, bool) {
-	v1, ok1 := intersectSegment(t.V1.Position, t.V2.Position, z)
-	v2, ok2 := intersectSegment(t.V2.Position, t.V3.Position, z)
+func intersectTriZPlane(t *gl.Triangle, z float64, onIsAbove bool) (*intersectionPair, bool) {
+	v1, ok1 := intersectSegment(t.V1.Position, t.V2.Position, z, onIsAbove)
+	v2, ok2 := intersectSegment(t.V2.Position, t.V3.Position, z, onIsAbove)
 	if ok1 && ok2 {
 		return &intersectionPair{v1: v1, v2: v2, tri: t}, true
 	}
-	v3, ok3 := intersectSegment(t.V3.Position, t.V1.Position, z)
+	v3, ok3 := intersectSegment(t.V3.Position, t.V1.Position, z, onIsAbove)
 	if ok1 && ok3 {
 		return &intersectionPair{v1: v1, v2: v3, tri: t}, true
 	}
@@ -155,20 +175,15 @@ func intersectTriZPlane(t *gl.Triangle, z float64) (*intersectionPair, bool) {
 }
 
 // intersectSegment returns an intersection between two points and the z-plane.
-func intersectSegment(v0, v1 gl.Vector, z float64) (gl.Vector, bool) {
-	u := v1.Sub(v0)
-	w := v0.Sub(gl.V(0, 0, z))
-	d := gl.V(0, 0, 1).Dot(u)
-	n := gl.V(0, 0, -1).Dot(w)
-	if d > -epsilon && d < epsilon {
+func intersectSegment(v0, v1 gl.Vector, z float64, onIsAbove bool) (gl.Vector, bool) {
+	above := func(v gl.Vector) bool { return v.Z > z || (onIsAbove && v.Z == z) }
+	if above(v0) == above(v1) {
 		return gl.Vector{}, false
 	}
-	t := n / d
-	if t < 0 || t > 1 {
-		return gl.Vector{}, false
+	if v0.Z > v1.Z { // give the same point for both triangles that share this edge
+		v0, v1 = v1, v0
 	}
-	v := v0.Add(u.MulScalar(t))
-	return v, true
+	return v0.Add(v1.Sub(v0).MulScalar((z - v0.Z) / (v1.Z - v0.Z))), true
 }
 
 // firstOctantBressenham implements the Bressenham line drawing algorithm in the first octant.
-- 
2.43.0


From cb9b73f17b2a3152fbdef6832a624c70c109c224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:55 +0000
Subject: [PATCH 13/73] fix: voxelize fills between the crossings of each row's
 center line

Counting the entering and leaving triangles per voxel leaves the fill state
wrong where several triangles meet within a voxel (thin parts, edges,
corners), which filled or emptied the rest of the row.
---
 binvox/voxelize.go | 154 +++++++++++++++++----------------------------
 1 file changed, 56 insertions(+), 98 deletions(-)

diff --git a/binvox/voxelize.go b/binvox/voxelize.go
index 8c511a1..a680c32 100644
--- a/binvox/voxelize.go
+++ b/binvox/voxelize.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"log"
 	"math"
+	"sort"
 	"sync"
 
 	gl "github.com/fogleman/fauxgl"
@@ -11,19 +12,6 @@ import (
 
 const epsilon = 1e-9
 
-// setMap respresents the voxel shell of mesh intersections.
-type setMap map[Key][]*gl.Triangle
-
-// addTri adds a triangle to the set if it has not already been added.
-func (s setMap) addTri(k Key, tri *gl.Triangle) {
-	for _, t := range s[k] {
-		if t == tri {
-			return
-		}
-	}
-	s[k] = append(s[k], tri)
-}
-
 // Voxelize voxelizes a subregion of the mesh using (b.TX,b.TY,b.TZ) as the origin.
 // The voxelized subregion will be: (0,0,0)-(b.NX-1,b.NY-1,b.NZ-1) (inclusive).
 // b.Scale determines the scale of the voxelization. See Dim and VoxelsPerMM.
@@ -117,21 +105,17 @@ func (b *BinVOX) voxelizeZ(mesh *gl.Mesh, zi int, dz, vpmm float64, setVoxelFunc
 // voxelizeOutline fills the voxels of one outline of the mesh.
 func (b *BinVOX) voxelizeOutline(pairs []*intersectionPair, zi int, z, dz, vpmm float64, setVoxelFunc func(k Key)) {
 	// log.Printf("voxelizeZ(%v): got %v intersection pairs", zi, len(pairs))
-	set := make(setMap)
-	xMinMax := make(xMinMaxMap)
 	for _, pair := range pairs {
 		// log.Printf("voxelizeZ(%v): pair=%#v", zi, pair)
-		b.rasterizeShellPair(pair, zi, z, dz, vpmm, set, xMinMax)
+		b.rasterizeShellPair(pair, zi, z, dz, vpmm, setVoxelFunc)
 	}
-	// log.Printf("voxelizeZ(%v): flood filling %v raster lines", zi, len(xMinMax))
-	b.floodFill(zi, set, setVoxelFunc, xMinMax)
+	b.floodFill(pairs, zi, vpmm, setVoxelFunc)
 }
 
 // intersectionPair represents an intersection between a triangle and the z-plane.
 type intersectionPair struct {
-	v1  gl.Vector // first intersection with z-plane
-	v2  gl.Vector // second intersection point with z-plane
-	tri *gl.Triangle
+	v1 gl.Vector // first intersection with z-plane
+	v2 gl.Vector // second intersection point with z-plane
 }
 
 // touchesZPlane reports whether any vertex of the mesh lies exactly on the Z-plane at z.
@@ -158,20 +142,25 @@ func intersectZPlane(mesh *gl.Mesh, z float64, onIsAbove bool) (result []*inters
 }
 
 // intersectTriZPlane returns an intersection between a triangle and the z-plane.
+// The inside of the mesh is to the left of the line from v1 to v2.
 func intersectTriZPlane(t *gl.Triangle, z float64, onIsAbove bool) (*intersectionPair, bool) {
-	v1, ok1 := intersectSegment(t.V1.Position, t.V2.Position, z, onIsAbove)
-	v2, ok2 := intersectSegment(t.V2.Position, t.V3.Position, z, onIsAbove)
-	if ok1 && ok2 {
-		return &intersectionPair{v1: v1, v2: v2, tri: t}, true
-	}
-	v3, ok3 := intersectSegment(t.V3.Position, t.V1.Position, z, onIsAbove)
-	if ok1 && ok3 {
-		return &intersectionPair{v1: v1, v2: v3, tri: t}, true
-	}
-	if ok2 && ok3 {
-		return &intersectionPair{v1: v2, v2: v3, tri: t}, true
+	pair := &intersectionPair{}
+	var count int
+	p := [3]gl.Vector{t.V1.Position, t.V2.Position, t.V3.Position}
+	for i := range p {
+		from, to := p[i], p[(i+1)%3]
+		v, ok := intersectSegment(from, to, z, onIsAbove)
+		if !ok {
+			continue
+		}
+		count++
+		if from.Z > to.Z {
+			pair.v1 = v
+		} else {
+			pair.v2 = v
+		}
 	}
-	return nil, false
+	return pair, count == 2
 }
 
 // intersectSegment returns an intersection between two points and the z-plane.
@@ -204,7 +193,7 @@ func firstOctantBressenham(x1i, y1i, x2i, y2i int, plotFunc func(x, y int)) {
 }
 
 // rasterizeShellPair rasterizes the shell voxels that intersect the mesh.
-func (b *BinVOX) rasterizeShellPair(pair *intersectionPair, zi int, z, dz, vpmm float64, set setMap, xMinMax xMinMaxMap) {
+func (b *BinVOX) rasterizeShellPair(pair *intersectionPair, zi int, z, dz, vpmm float64, setVoxelFunc func(k Key)) {
 	x1i := int(math.Floor(vpmm * (pair.v1.X - b.TX)))
 	x2i := int(math.Floor(vpmm * (pair.v2.X - b.TX)))
 	y1i := int(math.Floor(vpmm * (pair.v1.Y - b.TY)))
@@ -212,10 +201,8 @@ func (b *BinVOX) rasterizeShellPair(pair *intersectionPair, zi int, z, dz, vpmm
 
 	plotFunc := func(x, y int) {
 		// log.Printf("plotFunc(%v,%v)", x, y)
-		if y >= 0 && y < b.NY {
-			k := Key{x, y, zi}
-			xMinMax.update(x, y)
-			set.addTri(k, pair.tri)
+		if x >= 0 && x < b.NX && y >= 0 && y < b.NY { // Don't care outside the subregion of interest.
+			setVoxelFunc(Key{x, y, zi})
 		}
 	}
 
@@ -250,73 +237,44 @@ func (b *BinVOX) rasterizeShellPair(pair *intersectionPair, zi int, z, dz, vpmm
 	}
 }
 
-// minMax holds the min and max x values.
-type minMax struct {
-	min, max int
+// crossing represents the outline of the mesh crossing the center line of a row of voxels.
+type crossing struct {
+	x   float64 // in voxel units
+	dir int     // +1 or -1: direction of the outline in Y
 }
 
-// xMinMaxMap maps the y coordinate to min and max x values for that y scanline.
-type xMinMaxMap map[int]*minMax
-
-func (x xMinMaxMap) update(xi, yi int) {
-	if v, ok := x[yi]; ok {
-		if xi < v.min {
-			v.min = xi
+// floodFill fills the voxels that have their centers inside of the outline.
+func (b *BinVOX) floodFill(pairs []*intersectionPair, zi int, vpmm float64, setVoxelFunc func(k Key)) {
+	rows := make([][]crossing, b.NY)
+	for _, pair := range pairs {
+		x1, y1 := vpmm*(pair.v1.X-b.TX), vpmm*(pair.v1.Y-b.TY)
+		x2, y2 := vpmm*(pair.v2.X-b.TX), vpmm*(pair.v2.Y-b.TY)
+		dir := 1
+		if y1 > y2 {
+			x1, y1, x2, y2 = x2, y2, x1, y1
+			dir = -1
 		}
-		if xi > v.max {
-			v.max = xi
+		for yi := int(math.Max(0, math.Floor(y1-0.5))); yi < b.NY; yi++ {
+			y := float64(yi) + 0.5
+			if y >= y2 {
+				break
+			}
+			if y >= y1 {
+				rows[yi] = append(rows[yi], crossing{x: x1 + (y-y1)/(y2-y1)*(x2-x1), dir: dir})
+			}
 		}
-	} else {
-		x[yi] = &minMax{xi, xi}
 	}
-}
 
-// floodFill flood-fills the internal voxels within the voxel shell.
-func (b *BinVOX) floodFill(zi int, set setMap, setVoxelFunc func(k Key), xMinMax xMinMaxMap) {
-	var wg sync.WaitGroup
-	for yi, mm := range xMinMax { // yi >= 0 && yi < b.NY
-		wg.Add(1)
-		go func(yi, min, max int) {
-			var inside bool
-			seenTris := make(map[*gl.Triangle]struct{}) // Only process each triangle once.
-			for xi := min; xi <= max; xi++ {
-				if xi >= b.NX { // Don't care past the subregion of interest.
-					break
-				}
-				k := Key{xi, yi, zi}
-				if len(set[k]) > 0 { // triangles intersect this voxel.
-					if xi >= 0 { // Don't care before the subregion of interest.
-						setVoxelFunc(k)
-					}
-					var inCount, outCount int
-					for _, tri := range set[k] {
-						if _, ok := seenTris[tri]; ok {
-							continue
-						}
-						seenTris[tri] = struct{}{}
-						switch d := tri.V1.Normal.Dot(gl.V(-1, 0, 0)); {
-						case d > epsilon:
-							inCount++
-						case d < -epsilon:
-							outCount++
-						default:
-						}
-					}
-					switch {
-					case inCount > outCount:
-						inside = true
-					case inCount < outCount:
-						inside = false
-						// otherwise, keep previous value
-					}
-					continue
-				}
-				if inside && xi >= 0 {
-					setVoxelFunc(k)
+	for yi, row := range rows {
+		sort.Slice(row, func(i, j int) bool { return row[i].x < row[j].x })
+		winding := 0
+		for i, c := range row {
+			if winding != 0 {
+				for xi := int(math.Max(0, math.Ceil(row[i-1].x-0.5))); xi < b.NX && float64(xi)+0.5 < c.x; xi++ {
+					setVoxelFunc(Key{xi, yi, zi})
 				}
 			}
-			wg.Done()
-		}(yi, mm.min, mm.max)
+			winding += c.dir
+		}
 	}
-	wg.Wait()
 }
-- 
2.43.0


From e5611df8b9f12a392cdd9938a31665f1d7be47bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:41 +0000
Subject: [PATCH 14/73] fix: vshell New keeps full-color models

---
 vshell/vshell.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vshell/vshell.go b/vshell/vshell.go
index 3996f63..9793a56 100644
--- a/vshell/vshell.go
+++ b/vshell/vshell.go
@@ -58,7 +58,7 @@ func New(bv *binvox.BinVOX) (*VShell, error) {
 		TX: bv.TX, TY: bv.TY, TZ: bv.TZ,
 		Scale: bv.Scale,
 	}
-	if len(bv.WhiteVoxels) > 0 {
+	if len(bv.WhiteVoxels) > 0 || len(bv.ColorVoxels) > 0 {
 		if err := vs.Add(bv); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 0b78c848e862400f61ec35452b2d77e89678d49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:17 +0000
Subject: [PATCH 15/73] fix: vshell Add rounds offsets and shifts each axis on
 its own

---
 vshell/merge.go | 41 +++++++++++++++++++----------------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/vshell/merge.go b/vshell/merge.go
index ad161c7..2eda66f 100644
--- a/vshell/merge.go
+++ b/vshell/merge.go
@@ -3,6 +3,7 @@ package vshell
 import (
 	"fmt"
 	"log"
+	"math"
 
 	"github.com/gmlewis/stldice/v4/binvox"
 )
@@ -132,33 +133,29 @@ func (vs *VShell) update(bv *binvox.BinVOX) (dx, dy, dz int, err error) {
 		return 0, 0, 0, fmt.Errorf("vshell.VoxelsPerMM (%v) != binvox.VoxelsPerMM (%v)", vpmm, bv.VoxelsPerMM())
 	}
 
-	dx = int((bv.TX - vs.TX) * vpmm)
-	dy = int((bv.TY - vs.TY) * vpmm)
-	dz = int((bv.TZ - vs.TZ) * vpmm)
-	if bv.TX < vs.TX {
-		vs.TX = bv.TX
-	} else {
+	dx = int(math.Round((bv.TX - vs.TX) * vpmm))
+	dy = int(math.Round((bv.TY - vs.TY) * vpmm))
+	dz = int(math.Round((bv.TZ - vs.TZ) * vpmm))
+	vs.TX = min(vs.TX, bv.TX)
+	vs.TY = min(vs.TY, bv.TY)
+	vs.TZ = min(vs.TZ, bv.TZ)
 
-	}
-	if bv.TY < vs.TY {
-		vs.TY = bv.TY
-	}
-	if bv.TZ < vs.TZ {
-		vs.TZ = bv.TZ
-	}
-
-	if dx >= 0 && dy >= 0 && dz >= 0 {
-		log.Printf("shifting %v new voxels by (%v,%v,%v) to merge with shell", len(bv.WhiteVoxels), dx, dy, dz)
+	// On each axis, shift the new voxels if they start after the shell's
+	// origin, or the old voxels if the new ones start before it.
+	ox, oy, oz := max(0, -dx), max(0, -dy), max(0, -dz)
+	dx, dy, dz = max(0, dx), max(0, dy), max(0, dz)
+	log.Printf("shifting %v new voxels by (%v,%v,%v) to merge with shell", len(bv.WhiteVoxels), dx, dy, dz)
+	if ox == 0 && oy == 0 && oz == 0 {
 		return dx, dy, dz, nil
 	}
 
-	log.Printf("moving %v voxels by (%v,%v,%v)", len(vs.Voxels), -dx, -dy, -dz)
+	log.Printf("moving %v voxels by (%v,%v,%v)", len(vs.Voxels), ox, oy, oz)
 	beforeVPMM := vs.VoxelsPerMM()
 	// log.Printf("GML: beforeVPMM=%v, before scale=%v", beforeVPMM, vs.Scale)
 	for i := range vs.Voxels {
-		vs.Voxels[i].X -= dx
-		vs.Voxels[i].Y -= dy
-		vs.Voxels[i].Z -= dz
+		vs.Voxels[i].X += ox
+		vs.Voxels[i].Y += oy
+		vs.Voxels[i].Z += oz
 		if vs.Voxels[i].X >= vs.NX {
 			vs.NX = vs.Voxels[i].X + 1
 		}
@@ -175,10 +172,10 @@ func (vs *VShell) update(bv *binvox.BinVOX) (dx, dy, dz int, err error) {
 		vs.Scale *= afterVPMM / beforeVPMM
 		// log.Printf("GML: after scale=%v", vs.Scale)
 	}
-	log.Printf("done moving %v voxels by (%v,%v,%v)", len(vs.Voxels), -dx, -dy, -dz)
+	log.Printf("done moving %v voxels by (%v,%v,%v)", len(vs.Voxels), ox, oy, oz)
 	log.Printf("New shell dimensions are: (%v,%v,%v)", vs.NX, vs.NY, vs.NZ)
 
-	return 0, 0, 0, nil
+	return dx, dy, dz, nil
 }
 
 func (m lookupMap) findNeighbors(k key, old shellMap) (result NeighborBitMap, toCheck []key) {
-- 
2.43.0


From a975a5d625808cf8cb67279ef53b8a2726dd3661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 16/73] fix: vshell compares resolutions with a tolerance, not
 by whole voxels per mm

---
 vshell/merge.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vshell/merge.go b/vshell/merge.go
index 2eda66f..4fbacce 100644
--- a/vshell/merge.go
+++ b/vshell/merge.go
@@ -125,11 +125,16 @@ func (vs *VShell) Add(bv *binvox.BinVOX) (err error) {
 	return nil
 }
 
+// sameVPMM reports whether two resolutions agree to the precision of a file header.
+func sameVPMM(a, b float64) bool {
+	return math.Abs(a-b) <= 1e-4*math.Max(a, b)
+}
+
 // update adjusts the locations of the current VShVoxels to accomodate
 // the addition of the BinVOX model.
 func (vs *VShell) update(bv *binvox.BinVOX) (dx, dy, dz int, err error) {
 	vpmm := vs.VoxelsPerMM()
-	if int(vpmm) != int(bv.VoxelsPerMM()) { // Course test for large discrepancies
+	if !sameVPMM(vpmm, bv.VoxelsPerMM()) {
 		return 0, 0, 0, fmt.Errorf("vshell.VoxelsPerMM (%v) != binvox.VoxelsPerMM (%v)", vpmm, bv.VoxelsPerMM())
 	}
 
-- 
2.43.0


From 2724b4ebe2d46ceef1f7a7cb29f34eb1364cc36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 17/73] fix: vshell Add handles empty regions and empty shells

---
 vshell/merge.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/vshell/merge.go b/vshell/merge.go
index 4fbacce..7ecfc84 100644
--- a/vshell/merge.go
+++ b/vshell/merge.go
@@ -42,10 +42,20 @@ func (vs *VShell) Add(bv *binvox.BinVOX) (err error) {
 		return fmt.Errorf("empty vs or bv")
 	}
 	var dx, dy, dz int
-	if len(vs.Voxels) > 0 {
+	if bv.Dim() == 0 { // an empty region has no voxel size
+		return nil
+	}
+	switch {
+	case len(vs.Voxels) > 0:
 		if dx, dy, dz, err = vs.update(bv); err != nil {
 			return err
 		}
+	case vs.Dim() > 0 && !sameVPMM(vs.VoxelsPerMM(), bv.VoxelsPerMM()):
+		return fmt.Errorf("vshell.VoxelsPerMM (%v) != binvox.VoxelsPerMM (%v)", vs.VoxelsPerMM(), bv.VoxelsPerMM())
+	default: // an empty shell takes the place of the first region
+		vs.NX, vs.NY, vs.NZ = bv.NX, bv.NY, bv.NZ
+		vs.TX, vs.TY, vs.TZ = bv.TX, bv.TY, bv.TZ
+		vs.Scale = bv.Scale
 	}
 
 	log.Printf("creating lookup table for %v new voxels...", len(bv.WhiteVoxels))
-- 
2.43.0


From f79b321fede39bcbeced3a3daab401c786cb07d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:29 +0000
Subject: [PATCH 18/73] fix: vshell Merge refuses an empty list of files

---
 vshell/merge.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vshell/merge.go b/vshell/merge.go
index 7ecfc84..df48a16 100644
--- a/vshell/merge.go
+++ b/vshell/merge.go
@@ -1,6 +1,7 @@
 package vshell
 
 import (
+	"errors"
 	"fmt"
 	"log"
 	"math"
@@ -10,6 +11,9 @@ import (
 
 // Merge merges one or more binvox files into a single VShell.
 func Merge(binfiles []string) (*VShell, error) {
+	if len(binfiles) == 0 {
+		return nil, errors.New("no files to merge")
+	}
 	var vs *VShell
 	for _, filename := range binfiles {
 		bv, err := binvox.Read(filename, 0, 0, 0, 0, 0, 0)
-- 
2.43.0


From 0cf9fe9a1ec3420311f4dad6ba7767132d01ca7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:43 +0000
Subject: [PATCH 19/73] fix: vshell write splits runs longer than its 16-bit
 count

---
 vshell/write.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vshell/write.go b/vshell/write.go
index 498e8c7..b71b5a1 100644
--- a/vshell/write.go
+++ b/vshell/write.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"math"
 	"os"
 )
 
@@ -137,7 +138,7 @@ func (vs *VShell) encode(ch chan<- rle, lookup map[key]int, sx, sy, sz, nx, ny,
 				if v, ok := lookup[k]; ok {
 					newValue = uint32(vs.Voxels[v].N)
 				}
-				if newValue != value {
+				if newValue != value || count == math.MaxUint16 {
 					if count > 0 { // To account for first value being sent.
 						ch <- rle{value, count}
 					}
-- 
2.43.0


From 32171c0b2bccb6e6f6d06f9990325def763129b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:43 +0000
Subject: [PATCH 20/73] fix: vshell files keep voxels without neighbors

---
 vshell/read.go   | 2 +-
 vshell/vshell.go | 2 +-
 vshell/write.go  | 3 +++
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/vshell/read.go b/vshell/read.go
index f3694e6..9ee2c24 100644
--- a/vshell/read.go
+++ b/vshell/read.go
@@ -160,7 +160,7 @@ func read(r io.Reader, sx, sy, sz, cx, cy, cz int) (*VShell, error) {
 				return nil, fmt.Errorf("run-length encoding overrun: x index=%v, x dim=%v", xi, nx)
 			}
 			if value != 0 && value != 0xffffffff && xi >= sx && xi < sx+cx && yi >= sy && yi < sy+cy && zi >= sz && zi < sz+cz {
-				voxels = append(voxels, VShVoxel{X: xi, Y: yi, Z: zi, N: NeighborBitMap(value)})
+				voxels = append(voxels, VShVoxel{X: xi, Y: yi, Z: zi, N: NeighborBitMap(value) &^ x0y0z0})
 			}
 			yi++
 			if yi >= ny {
diff --git a/vshell/vshell.go b/vshell/vshell.go
index 9793a56..936ca1f 100644
--- a/vshell/vshell.go
+++ b/vshell/vshell.go
@@ -120,7 +120,7 @@ const ( // NeighborBitMap values
 	X0Y_1Z0
 	X0Y_1Z1
 	X0Y0Z_1
-	x0y0z0 // Unused - the center voxel - but needed as a place-holder for the bit pattern.
+	x0y0z0 // The center voxel - a place-holder in the bit pattern that only marks voxels without neighbors in files.
 	X0Y0Z1
 	X0Y1Z_1
 	X0Y1Z0
diff --git a/vshell/write.go b/vshell/write.go
index b71b5a1..8e09fd6 100644
--- a/vshell/write.go
+++ b/vshell/write.go
@@ -137,6 +137,9 @@ func (vs *VShell) encode(ch chan<- rle, lookup map[key]int, sx, sy, sz, nx, ny,
 				var newValue uint32
 				if v, ok := lookup[k]; ok {
 					newValue = uint32(vs.Voxels[v].N)
+					if newValue == 0 { // 0 means empty, so mark an isolated voxel by its center bit
+						newValue = uint32(x0y0z0)
+					}
 				}
 				if newValue != value || count == math.MaxUint16 {
 					if count > 0 { // To account for first value being sent.
-- 
2.43.0


From 7c5cb40c68e9060144a1ecce1fccab1017388d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:50 +0000
Subject: [PATCH 21/73] fix: vshell Add updates old neighbor maps in place

---
 vshell/merge.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vshell/merge.go b/vshell/merge.go
index df48a16..f67d8d5 100644
--- a/vshell/merge.go
+++ b/vshell/merge.go
@@ -103,7 +103,7 @@ func (vs *VShell) Add(bv *binvox.BinVOX) (err error) {
 	}
 
 	log.Printf("processing %v voxels...", len(lookup))
-	var shellCount int
+	var newShell []VShVoxel // appended last, as old points into vs.Voxels
 	toRemove := make(lookupMap)
 	for k := range lookup {
 		neighbors, toCheck := lookup.findNeighbors(k, old)
@@ -121,10 +121,10 @@ func (vs *VShell) Add(bv *binvox.BinVOX) (err error) {
 			continue
 		}
 
-		shellCount++
-		vs.Voxels = append(vs.Voxels, VShVoxel{X: k.X, Y: k.Y, Z: k.Z, N: neighbors})
+		newShell = append(newShell, VShVoxel{X: k.X, Y: k.Y, Z: k.Z, N: neighbors})
 	}
-	log.Printf("added %v voxels to shell", shellCount)
+	vs.Voxels = append(vs.Voxels, newShell...)
+	log.Printf("added %v voxels to shell", len(newShell))
 	if len(toRemove) > 0 {
 		log.Printf("removing %v voxels from old shell...", len(toRemove))
 		newVoxels := make([]VShVoxel, 0, len(vs.Voxels)-len(toRemove))
-- 
2.43.0


From f741c77c8acab693a67db4f3eb80ec6064e78c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:30 +0000
Subject: [PATCH 22/73] fix: stl Merge records errors without a data race

---
 stl/stl.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stl/stl.go b/stl/stl.go
index d004dfb..2cc1f7c 100644
--- a/stl/stl.go
+++ b/stl/stl.go
@@ -13,7 +13,7 @@ func Merge(files []string, numWorkers int) (mesh *gl.Mesh, err error) {
 	var wg sync.WaitGroup
 	ch := make(chan struct{}, numWorkers)
 
-	var mu sync.Mutex // protects mesh
+	var mu sync.Mutex // protects mesh and mergeErr
 	addFunc := func(meshToAdd *gl.Mesh) {
 		mu.Lock()
 		if mesh == nil {
@@ -30,7 +30,9 @@ func Merge(files []string, numWorkers int) (mesh *gl.Mesh, err error) {
 		wg.Add(1)
 		go func(filename string) {
 			if err := merge(filename, addFunc); err != nil {
+				mu.Lock()
 				mergeErr = err
+				mu.Unlock()
 			}
 			<-ch // release a worker
 			wg.Done()
-- 
2.43.0


From e72f714bf17698b55f1f7dbb4bae0849a3dd02a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:30 +0000
Subject: [PATCH 23/73] fix: stl Merge refuses an empty list of files

---
 stl/stl.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stl/stl.go b/stl/stl.go
index 2cc1f7c..25886c6 100644
--- a/stl/stl.go
+++ b/stl/stl.go
@@ -2,6 +2,7 @@
 package stl
 
 import (
+	"errors"
 	"log"
 	"sync"
 
@@ -10,6 +11,10 @@ import (
 
 // Merge merges the STL files using a worker pool of numWorkers.
 func Merge(files []string, numWorkers int) (mesh *gl.Mesh, err error) {
+	if len(files) == 0 {
+		return nil, errors.New("no files to merge")
+	}
+
 	var wg sync.WaitGroup
 	ch := make(chan struct{}, numWorkers)
 
-- 
2.43.0


From 0f5a06afe89ad09380f0ce39ec7e045d00835ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:31 +0000
Subject: [PATCH 24/73] fix: merge-stl recognizes its output under any spelling

---
 cmd/merge-stl/merge-stl.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/cmd/merge-stl/merge-stl.go b/cmd/merge-stl/merge-stl.go
index 2b86a6d..72c0f0e 100644
--- a/cmd/merge-stl/merge-stl.go
+++ b/cmd/merge-stl/merge-stl.go
@@ -31,18 +31,21 @@ func main() {
 		log.Fatalf("No files found matching %v*.stl", *prefix)
 	}
 	outFile := *prefix + ".stl"
-	var newFiles []string
-	for _, f := range files { // Quick sanity check
-		if f != outFile {
-			newFiles = append(newFiles, f)
-			continue
-		}
+	outInfo, err := os.Stat(outFile)
+	if err == nil { // Quick sanity check
 		if *force {
 			log.Printf("%v already exists. Overwriting due to -f flag.", outFile)
 		} else {
 			log.Fatalf("%v already exists. To overwrite, use -f flag.", outFile)
 		}
 	}
+	var newFiles []string
+	for _, f := range files { // However it is spelled, the output is not an input.
+		if fi, err := os.Stat(f); err == nil && outInfo != nil && os.SameFile(fi, outInfo) {
+			continue
+		}
+		newFiles = append(newFiles, f)
+	}
 
 	log.Printf("Merging %v STL files into %v using %v workers...", len(newFiles), outFile, *numWorkers)
 	mesh, err := stl.Merge(newFiles, *numWorkers)
-- 
2.43.0


From 0f9127566bbd4b8109f210664c57d59badd5d756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:31 +0000
Subject: [PATCH 25/73] fix: merge-binvox refuses to overwrite without -f

---
 cmd/merge-binvox/merge-binvox.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/cmd/merge-binvox/merge-binvox.go b/cmd/merge-binvox/merge-binvox.go
index f70491b..dd86a25 100644
--- a/cmd/merge-binvox/merge-binvox.go
+++ b/cmd/merge-binvox/merge-binvox.go
@@ -31,12 +31,7 @@ func main() {
 		log.Fatalf("No files found matching %v*.binvox", *prefix)
 	}
 	outFile := *prefix + ".vsh"
-	var newFiles []string
-	for _, f := range files { // Quick sanity check
-		if f != outFile {
-			newFiles = append(newFiles, f)
-			continue
-		}
+	if _, err := os.Stat(outFile); err == nil { // Quick sanity check
 		if *force {
 			log.Printf("%v already exists. Overwriting due to -f flag.", outFile)
 		} else {
@@ -44,8 +39,8 @@ func main() {
 		}
 	}
 
-	log.Printf("Merging %v binvox files into %v...", len(newFiles), outFile)
-	vsh, err := vshell.Merge(newFiles)
+	log.Printf("Merging %v binvox files into %v...", len(files), outFile)
+	vsh, err := vshell.Merge(files)
 	if err != nil {
 		log.Fatalf("Merge: %v", err)
 	}
-- 
2.43.0


From 8473a45ba815eac38dbf13df8d6ad0098070bfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:13 +0000
Subject: [PATCH 26/73] fix: stl Merge reports truncated and malformed files

---
 stl/stl.go | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/stl/stl.go b/stl/stl.go
index 25886c6..bfda031 100644
--- a/stl/stl.go
+++ b/stl/stl.go
@@ -2,8 +2,12 @@
 package stl
 
 import (
+	"bytes"
+	"encoding/binary"
 	"errors"
+	"fmt"
 	"log"
+	"os"
 	"sync"
 
 	gl "github.com/fogleman/fauxgl"
@@ -54,7 +58,7 @@ func Merge(files []string, numWorkers int) (mesh *gl.Mesh, err error) {
 
 // merge merges STL files using the provided addFunc.
 func merge(filename string, addFunc func(mesh *gl.Mesh)) error {
-	mesh, err := gl.LoadSTL(filename)
+	mesh, err := load(filename)
 	if err != nil {
 		return err
 	}
@@ -62,3 +66,30 @@ func merge(filename string, addFunc func(mesh *gl.Mesh)) error {
 	addFunc(mesh)
 	return nil
 }
+
+// load loads an STL file. A file that is neither a complete binary nor a
+// complete ASCII STL file, which LoadSTL takes for an ASCII file without
+// triangles or panics on, is an error.
+func load(filename string) (mesh *gl.Mesh, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			mesh, err = nil, fmt.Errorf("malformed STL file %q: %v", filename, r)
+		}
+	}()
+	if mesh, err = gl.LoadSTL(filename); err != nil || len(mesh.Triangles) > 0 {
+		return mesh, err
+	}
+	buf, err := os.ReadFile(filename)
+	if err != nil {
+		return nil, err
+	}
+	if !isEmptyBinary(buf) && !bytes.Contains(buf, []byte("endsolid")) {
+		return nil, fmt.Errorf("malformed STL file %q: no triangles", filename)
+	}
+	return mesh, nil
+}
+
+// isEmptyBinary reports whether buf is a binary STL file without triangles.
+func isEmptyBinary(buf []byte) bool {
+	return len(buf) == 84 && binary.LittleEndian.Uint32(buf[80:]) == 0
+}
-- 
2.43.0


From 075f6c884a7c5a3ff300935fdc7682134f18561c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:39 +0000
Subject: [PATCH 27/73] fix: voxcut cuts at world positions

---
 cmd/voxcut/voxcut.go | 50 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 42 insertions(+), 8 deletions(-)

diff --git a/cmd/voxcut/voxcut.go b/cmd/voxcut/voxcut.go
index e499602..92fd912 100644
--- a/cmd/voxcut/voxcut.go
+++ b/cmd/voxcut/voxcut.go
@@ -20,6 +20,7 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"math"
 	"os"
 
 	gl "github.com/fogleman/fauxgl"
@@ -61,7 +62,7 @@ func main() {
 	}
 
 	for i := 1; i < flag.NArg(); i++ {
-		cut, err := binvox.Read(flag.Arg(i), *startX, *startY, *startZ, *countX, *countY, *countZ)
+		cut, err := readCut(flag.Arg(i), base)
 		if err != nil {
 			log.Printf("skipping: %v", err)
 			continue
@@ -123,6 +124,44 @@ func main() {
 	log.Println("Done.")
 }
 
+// readCut reads the part of a cut model that overlaps the window of the base.
+func readCut(filename string, base *binvox.BinVOX) (*binvox.BinVOX, error) {
+	cut, err := binvox.Read(filename, 0, 0, 0, 1, 1, 1) // Read only one voxel to get the header info.
+	if err != nil {
+		return nil, err
+	}
+	dx, dy, dz := offset(base, cut)
+	sx, cx := overlap(*startX+dx, *countX, base.NX, cut.NX)
+	sy, cy := overlap(*startY+dy, *countY, base.NY, cut.NY)
+	sz, cz := overlap(*startZ+dz, *countZ, base.NZ, cut.NZ)
+	if cx == 0 || cy == 0 || cz == 0 {
+		cut.WhiteVoxels = nil
+		return cut, nil
+	}
+	return binvox.Read(filename, sx, sy, sz, cx, cy, cz)
+}
+
+// overlap clips a window of a base with n voxels (count 0=all), which starts
+// at the given index of a cut with cutN voxels, to the cut.
+func overlap(start, count, n, cutN int) (newStart, newCount int) {
+	if count == 0 || count > n {
+		count = n
+	}
+	end := min(start+count, cutN)
+	start = max(start, 0)
+	return start, max(end-start, 0)
+}
+
+// offset returns what to add to base indices to get cut indices by taking
+// into account the translations.
+func offset(base, cut *binvox.BinVOX) (dx, dy, dz int) {
+	vpmm := base.VoxelsPerMM()
+	dx = int(math.Round((base.TX - cut.TX) * vpmm))
+	dy = int(math.Round((base.TY - cut.TY) * vpmm))
+	dz = int(math.Round((base.TZ - cut.TZ) * vpmm))
+	return dx, dy, dz
+}
+
 // voxcut cuts the base voxels by the cut voxels and returns the newVoxels.
 // It accounts for different translation settings in the base and cutting voxels.
 func voxcut(base, cut *binvox.BinVOX) (newVoxels binvox.WhiteVoxelMap, err error) {
@@ -134,16 +173,11 @@ func voxcut(base, cut *binvox.BinVOX) (newVoxels binvox.WhiteVoxelMap, err error
 	}
 
 	newVoxels = binvox.WhiteVoxelMap{}
-	vpmm := base.VoxelsPerMM()
-
-	// Map base indices to cut indices by taking into account the translations.
-	dx := int((base.TX - cut.TX) * vpmm)
-	dy := int((base.TY - cut.TY) * vpmm)
-	dz := int((base.TZ - cut.TZ) * vpmm)
+	dx, dy, dz := offset(base, cut)
 	log.Printf("Translating cut voxels by [%v,%v,%v]", dx, dy, dz)
 
 	keyFunc := func(v binvox.Key, vc binvox.Color) {
-		c, ok := cut.Get(v.X, v.Y, v.Z)
+		c, ok := cut.Get(v.X+dx, v.Y+dy, v.Z+dz)
 		if !ok { // Nothing to cut - keep voxel.
 			newVoxels[v] = struct{}{}
 			return
-- 
2.43.0


From 978fb9aa0452189f7efdbddc1d9b238928dccb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:39 +0000
Subject: [PATCH 28/73] fix: voxcut writes nothing and succeeds when nothing is
 left

---
 cmd/voxcut/voxcut.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/cmd/voxcut/voxcut.go b/cmd/voxcut/voxcut.go
index 92fd912..1696f6b 100644
--- a/cmd/voxcut/voxcut.go
+++ b/cmd/voxcut/voxcut.go
@@ -15,7 +15,6 @@ package main
 
 import (
 	"encoding/binary"
-	"errors"
 	"flag"
 	"fmt"
 	"io"
@@ -73,11 +72,12 @@ func main() {
 		if err != nil {
 			log.Fatalf("arg #%v: cut with %q: %v", i, flag.Arg(i), err)
 		}
-		if len(base.WhiteVoxels) == 0 {
-			log.Fatal("result of cut leaves no non-zero voxels... no need to write file")
-		}
 		log.Printf("Done cutting voxel model with %q.", flag.Arg(i))
 	}
+	if len(base.WhiteVoxels) == 0 {
+		log.Print("result of cut leaves no non-zero voxels... no need to write file")
+		return
+	}
 
 	if *binVOXFile != "" {
 		log.Printf("Writing file %q...", *binVOXFile)
@@ -168,10 +168,6 @@ func voxcut(base, cut *binvox.BinVOX) (newVoxels binvox.WhiteVoxelMap, err error
 	if len(cut.WhiteVoxels) == 0 {
 		return base.WhiteVoxels, nil // Nothing to cut.
 	}
-	if len(base.WhiteVoxels) == 0 {
-		return nil, errors.New("base must not be empty")
-	}
-
 	newVoxels = binvox.WhiteVoxelMap{}
 	dx, dy, dz := offset(base, cut)
 	log.Printf("Translating cut voxels by [%v,%v,%v]", dx, dy, dz)
-- 
2.43.0


From 33ce254fa77350dfb3e3eebef023df15bd751999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:09 +0000
Subject: [PATCH 29/73] fix: voxcut writes valid VOX files

---
 cmd/voxcut/voxcut.go | 50 ++++++++++++++++++--------------------------
 1 file changed, 20 insertions(+), 30 deletions(-)

diff --git a/cmd/voxcut/voxcut.go b/cmd/voxcut/voxcut.go
index 1696f6b..27e86ec 100644
--- a/cmd/voxcut/voxcut.go
+++ b/cmd/voxcut/voxcut.go
@@ -93,7 +93,7 @@ func main() {
 		if err != nil {
 			log.Fatalf("Unable to create file %v: %v", *voxFile, err)
 		}
-		if err := writeVOX(f, base.WhiteVoxels); err != nil {
+		if err := writeVOX(f, base.WhiteVoxels, *startX, *startY, *startZ); err != nil {
 			log.Fatalf("writeVOX: %v", err)
 		}
 		if err := f.Close(); err != nil {
@@ -200,13 +200,24 @@ func voxcut(base, cut *binvox.BinVOX) (newVoxels binvox.WhiteVoxelMap, err error
 }
 
 // writeVOX writes a vox file from the base voxels.
-func writeVOX(f io.Writer, base binvox.WhiteVoxelMap) error {
+// The voxels are indexed from (sx,sy,sz), which must put them in 0..255.
+func writeVOX(f io.Writer, base binvox.WhiteVoxelMap, sx, sy, sz int) error {
+	var maxX, maxY, maxZ int
+	for v := range base {
+		maxX = max(maxX, v.X-sx)
+		maxY = max(maxY, v.Y-sy)
+		maxZ = max(maxZ, v.Z-sz)
+	}
+	if maxX > 255 || maxY > 255 || maxZ > 255 {
+		return fmt.Errorf("model size (%v,%v,%v) exceeds 256 voxels", maxX+1, maxY+1, maxZ+1)
+	}
+
 	header := gl.VOXHeader{Magic: [4]byte{'V', 'O', 'X', ' '}, Version: 150}
 	if err := binary.Write(f, binary.LittleEndian, &header); err != nil {
 		return fmt.Errorf("header: %v", err)
 	}
 
-	chunk := gl.VOXChunk{ID: [4]byte{'M', 'A', 'I', 'N'}, ChildrenBytes: int32(12 + len(base)*4 + 4)}
+	chunk := gl.VOXChunk{ID: [4]byte{'M', 'A', 'I', 'N'}, ChildrenBytes: int32(12 + 12 + 12 + len(base)*4 + 4)} // SIZE and XYZI with their headers
 	if err := binary.Write(f, binary.LittleEndian, &chunk); err != nil {
 		return fmt.Errorf("MAIN: %v", err)
 	}
@@ -215,25 +226,13 @@ func writeVOX(f io.Writer, base binvox.WhiteVoxelMap) error {
 		return fmt.Errorf("SIZE: %v", err)
 	}
 
-	var maxX, maxY, maxZ int
-	for v := range base {
-		if v.X > maxX {
-			maxX = v.X
-		}
-		if v.Y > maxY {
-			maxY = v.Y
-		}
-		if v.Z > maxZ {
-			maxZ = v.Z
-		}
-	}
-	if err := binary.Write(f, binary.LittleEndian, int32(maxX)); err != nil {
+	if err := binary.Write(f, binary.LittleEndian, int32(maxX+1)); err != nil {
 		return fmt.Errorf("maxX: %v", err)
 	}
-	if err := binary.Write(f, binary.LittleEndian, int32(maxY)); err != nil {
+	if err := binary.Write(f, binary.LittleEndian, int32(maxY+1)); err != nil {
 		return fmt.Errorf("maxY: %v", err)
 	}
-	if err := binary.Write(f, binary.LittleEndian, int32(maxZ)); err != nil {
+	if err := binary.Write(f, binary.LittleEndian, int32(maxZ+1)); err != nil {
 		return fmt.Errorf("maxZ: %v", err)
 	}
 
@@ -252,18 +251,9 @@ func writeVOX(f io.Writer, base binvox.WhiteVoxelMap) error {
 		// if vc.A >= 0.5 && vc.R+vc.G+vc.B > 1.5 {  // WHAT?!?
 		// 	i = 1
 		// }
-		if err := binary.Write(f, binary.LittleEndian, int32(v.X)); err != nil {
-			return fmt.Errorf("X: %v", err)
-		}
-		if err := binary.Write(f, binary.LittleEndian, int32(v.Y)); err != nil {
-			return fmt.Errorf("Y: %v", err)
-		}
-		if err := binary.Write(f, binary.LittleEndian, int32(v.Z)); err != nil {
-			return fmt.Errorf("Z: %v", err)
-		}
-		i := int32(1)
-		if err := binary.Write(f, binary.LittleEndian, i); err != nil {
-			return fmt.Errorf("I: %v", err)
+		i := uint8(1)
+		if err := binary.Write(f, binary.LittleEndian, []uint8{uint8(v.X - sx), uint8(v.Y - sy), uint8(v.Z - sz), i}); err != nil {
+			return fmt.Errorf("XYZI: %v", err)
 		}
 	}
 	return nil
-- 
2.43.0


From 6295c7e355004e09a9e0501743df293da0e3d29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:39 +0000
Subject: [PATCH 30/73] fix: svx2stl scales the whole model by the voxel size,
 not its largest dimension

---
 cmd/svx2stl/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/svx2stl/main.go b/cmd/svx2stl/main.go
index 833b2af..04f8826 100644
--- a/cmd/svx2stl/main.go
+++ b/cmd/svx2stl/main.go
@@ -71,6 +71,7 @@ func read(filename string) (*binvox.BinVOX, error) {
 			if err != nil {
 				return nil, fmt.Errorf("parseManifest: %v", err)
 			}
+			model.Scale *= float64(model.Dim()) // one voxel -> largest dimension
 			rc.Close()
 			continue
 		}
-- 
2.43.0


From e0a8d75ff320c99e473cacf7bfbe450a4acfd0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:39 +0000
Subject: [PATCH 31/73] fix: svx2stl needs a manifest, anywhere in the archive

---
 cmd/svx2stl/main.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/cmd/svx2stl/main.go b/cmd/svx2stl/main.go
index 04f8826..ed57f4f 100644
--- a/cmd/svx2stl/main.go
+++ b/cmd/svx2stl/main.go
@@ -61,20 +61,32 @@ func read(filename string) (*binvox.BinVOX, error) {
 
 	var sliceNameFmt string
 	for _, f := range r.File {
+		if f.Name != "manifest.xml" {
+			continue
+		}
 		rc, err := f.Open()
 		if err != nil {
-			log.Fatal(err)
+			return nil, fmt.Errorf("open %q: %v", f.Name, err)
 		}
+		model, sliceNameFmt, err = parseManifest(rc)
+		if err != nil {
+			return nil, fmt.Errorf("parseManifest: %v", err)
+		}
+		model.Scale *= float64(model.Dim()) // one voxel -> largest dimension
+		rc.Close()
+	}
+	if model == nil {
+		return nil, fmt.Errorf("missing manifest.xml")
+	}
 
+	for _, f := range r.File {
 		if f.Name == "manifest.xml" {
-			model, sliceNameFmt, err = parseManifest(rc)
-			if err != nil {
-				return nil, fmt.Errorf("parseManifest: %v", err)
-			}
-			model.Scale *= float64(model.Dim()) // one voxel -> largest dimension
-			rc.Close()
 			continue
 		}
+		rc, err := f.Open()
+		if err != nil {
+			log.Fatal(err)
+		}
 
 		var sliceNum int
 		if n, err := fmt.Sscanf(f.Name, sliceNameFmt, &sliceNum); err != nil || n != 1 {
-- 
2.43.0


From 933efdc8f2613c03a1327712c212d80c81d419f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:33 +0000
Subject: [PATCH 32/73] fix: svx2stl refuses slice names that only start like
 the pattern

---
 cmd/svx2stl/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/svx2stl/main.go b/cmd/svx2stl/main.go
index ed57f4f..3c2cd9c 100644
--- a/cmd/svx2stl/main.go
+++ b/cmd/svx2stl/main.go
@@ -89,7 +89,7 @@ func read(filename string) (*binvox.BinVOX, error) {
 		}
 
 		var sliceNum int
-		if n, err := fmt.Sscanf(f.Name, sliceNameFmt, &sliceNum); err != nil || n != 1 {
+		if n, err := fmt.Sscanf(f.Name, sliceNameFmt, &sliceNum); err != nil || n != 1 || fmt.Sprintf(sliceNameFmt, sliceNum) != f.Name {
 			return nil, fmt.Errorf("unable to parse %q using %q", f.Name, sliceNameFmt)
 		}
 
-- 
2.43.0


From ada268f6af641bc83ef3741f068534ee20e2fc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:07 +0000
Subject: [PATCH 33/73] fix: stldice regions cover the whole model

---
 cmd/stldice/stldice.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/stldice/stldice.go b/cmd/stldice/stldice.go
index 030334e..f6eba80 100644
--- a/cmd/stldice/stldice.go
+++ b/cmd/stldice/stldice.go
@@ -133,10 +133,10 @@ func diceMesh(mesh *gl.Mesh, mbb *gl.Box, scale float64, dim, nx, ny, nz int, ou
 	newModelDimZ := int(math.Ceil(modelDimInMM.Z * vpmm))
 	log.Printf("number of voxels needed along each axis to cover entire model: [%v,%v,%v]", newModelDimX, newModelDimY, newModelDimZ)
 
-	// subregion dimensions
-	dimX := newModelDimX / nx
-	dimY := newModelDimY / ny
-	dimZ := newModelDimZ / nz
+	// subregion dimensions, rounded up to cover the entire model
+	dimX := (newModelDimX + nx - 1) / nx
+	dimY := (newModelDimY + ny - 1) / ny
+	dimZ := (newModelDimZ + nz - 1) / nz
 	if dimX == 0 || dimY == 0 || dimZ == 0 {
 		return nil, fmt.Errorf("too many divisions: region dimensions = (%v,%v,%v)", dimX, dimY, dimZ)
 	}
-- 
2.43.0


From db8312767cb862f2d50ac5b9d0e4181ea644e9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:07 +0000
Subject: [PATCH 34/73] fix: stldice's script includes regions of a previous
 run

---
 cmd/stldice/stldice.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/stldice/stldice.go b/cmd/stldice/stldice.go
index f6eba80..8667736 100644
--- a/cmd/stldice/stldice.go
+++ b/cmd/stldice/stldice.go
@@ -161,6 +161,7 @@ func diceMesh(mesh *gl.Mesh, mbb *gl.Box, scale float64, dim, nx, ny, nz int, ou
 				outFile := newPrefix + ".binvox"
 				if _, err := os.Stat(outFile); err == nil || os.IsExist(err) {
 					log.Printf("Skipping writing existing file %v", outFile)
+					prefixes = append(prefixes, strings.TrimPrefix(newPrefix, outPrefix))
 					continue
 				}
 
-- 
2.43.0


From 5bd3423f790fb80fba76519c2c3b08c285148bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:07 +0000
Subject: [PATCH 35/73] fix: stldice computes the bounding box of small meshes
 correctly

---
 cmd/stldice/stldice.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/stldice/stldice.go b/cmd/stldice/stldice.go
index 8667736..2b9b4fb 100644
--- a/cmd/stldice/stldice.go
+++ b/cmd/stldice/stldice.go
@@ -71,7 +71,7 @@ func main() {
 			log.Println("Done smoothing mesh normals.")
 		}
 		if mbb == nil {
-			box := mesh.BoundingBox()
+			box := gl.NewTriangleMesh(mesh.Triangles).BoundingBox() // LoadSTL's own box can wrongly include the origin.
 			mbb = &box
 			log.Printf(`Mesh MBB: "(%v,%v,%v)-(%v,%v,%v)"`, mbb.Min.X, mbb.Min.Y, mbb.Min.Z, mbb.Max.X, mbb.Max.Y, mbb.Max.Z)
 		}
-- 
2.43.0


From 77acdd4a7007246da37fdaefded4b9ab2171763f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:33 +0000
Subject: [PATCH 36/73] fix: svx2stl takes slice numbers wider than the pattern

---
 cmd/svx2stl/main.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/svx2stl/main.go b/cmd/svx2stl/main.go
index 3c2cd9c..00937c0 100644
--- a/cmd/svx2stl/main.go
+++ b/cmd/svx2stl/main.go
@@ -19,11 +19,16 @@ import (
 	"log"
 	"os"
 	"path/filepath"
+	"regexp"
 	"strings"
 
 	"github.com/gmlewis/stldice/v4/binvox"
 )
 
+// widthRE matches the verb of the slice number. Its width is a minimum when
+// printing but a maximum when scanning.
+var widthRE = regexp.MustCompile(`%0?\d*d`)
+
 func main() {
 	flag.Usage = func() {
 		fmt.Fprintf(os.Stderr, "Usage of %s:\n", filepath.Base(os.Args[0]))
@@ -89,7 +94,7 @@ func read(filename string) (*binvox.BinVOX, error) {
 		}
 
 		var sliceNum int
-		if n, err := fmt.Sscanf(f.Name, sliceNameFmt, &sliceNum); err != nil || n != 1 || fmt.Sprintf(sliceNameFmt, sliceNum) != f.Name {
+		if n, err := fmt.Sscanf(f.Name, widthRE.ReplaceAllString(sliceNameFmt, "%d"), &sliceNum); err != nil || n != 1 || fmt.Sprintf(sliceNameFmt, sliceNum) != f.Name {
 			return nil, fmt.Errorf("unable to parse %q using %q", f.Name, sliceNameFmt)
 		}
 
-- 
2.43.0


From d1e509e87111bcbf14e744cbaebbfee16b4d993e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:12 +0000
Subject: [PATCH 37/73] fix: stldice-mr sends its voxels to the imager in a
 form gleam can encode

---
 cmd/stldice-mr/stldice-mr.go | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/cmd/stldice-mr/stldice-mr.go b/cmd/stldice-mr/stldice-mr.go
index 979da4a..3f9e5de 100644
--- a/cmd/stldice-mr/stldice-mr.go
+++ b/cmd/stldice-mr/stldice-mr.go
@@ -168,11 +168,6 @@ func generateMR(args []string) (chan interface{}, error) {
 	return ch, nil
 }
 
-type voxelInfo struct {
-	X, Y int
-	Base bool
-}
-
 // voxelize takes an STL file and dices it into voxels
 // then sends them to the imager.
 func voxelize(row []interface{}) error {
@@ -206,12 +201,15 @@ func voxelize(row []interface{}) error {
 	}
 	log.Printf("voxelize: sending %v %v voxels to imager...", len(bv.WhiteVoxels), vType)
 
+	var err error
 	keyFunc := func(k binvox.Key) {
 		if k.X < 0 || k.Y < 0 || k.Z < 0 {
 			// log.Printf("key %v out-of-bounds (%v,%v,%v)", k, *nX, *nY, *nZ)
 			return // common for a cut to extend beyond the bounds of the base.
 		}
-		gio.Emit(k.Z, voxelInfo{k.X, k.Y, m.Base})
+		if err == nil {
+			err = gio.Emit(k.Z, k.X, k.Y, m.Base)
+		}
 	}
 	for k := range bv.WhiteVoxels {
 		keyFunc(k)
@@ -219,7 +217,7 @@ func voxelize(row []interface{}) error {
 	for k := range bv.ColorVoxels {
 		keyFunc(k)
 	}
-	return nil
+	return err
 }
 
 type pixelKey struct {
@@ -230,15 +228,17 @@ type pixelKey struct {
 // a 2D image at the provided z height.
 // It outputs an image to disk.
 func imager(row []interface{}) error {
-	z := row[0].(uint64)
+	if len(row) == 0 { // GroupBy sends an empty row if there are no voxels.
+		return nil
+	}
+	z := gio.ToInt64(row[0])
 	log.Printf("imager: z=%v", z)
 	pixels := make(map[pixelKey]bool)
-	for _, r := range row[1].([]interface{}) {
-		vim := r.(map[interface{}]interface{})
-		// log.Printf("vim=%#v, vim[X]=%#v, vim[Y]=%#v, vim[Base]=%#v", vim, vim["X"], vim["Y"], vim["Base"])
-		x := int(vim["X"].(uint64))
-		y := int(vim["Y"].(uint64))
-		base := vim["Base"].(bool)
+	for _, r := range row[1:] {
+		voxel := r.([]interface{})
+		x := int(gio.ToInt64(voxel[0]))
+		y := int(gio.ToInt64(voxel[1]))
+		base := voxel[2].(bool)
 		k := pixelKey{x, y}
 		if v, ok := pixels[k]; ok {
 			if v {
-- 
2.43.0


From eea62d037fcee502f292d58ec926aedc849aa123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:25 +0000
Subject: [PATCH 38/73] fix: stldice-mr puts the voxels of all regions in their
 place

---
 cmd/stldice-mr/stldice-mr.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/cmd/stldice-mr/stldice-mr.go b/cmd/stldice-mr/stldice-mr.go
index 3f9e5de..73d3e0c 100644
--- a/cmd/stldice-mr/stldice-mr.go
+++ b/cmd/stldice-mr/stldice-mr.go
@@ -112,9 +112,9 @@ func generateMR(args []string) (chan interface{}, error) {
 				newModelDimX := int(math.Ceil(modelDimInMM.X * vpmm))
 				newModelDimY := int(math.Ceil(modelDimInMM.Y * vpmm))
 				newModelDimZ := int(math.Ceil(modelDimInMM.Z * vpmm))
-				dimX = newModelDimX / *nX
-				dimY = newModelDimY / *nY
-				dimZ = newModelDimZ / *nZ
+				dimX = (newModelDimX + *nX - 1) / *nX // rounded up to cover the entire model
+				dimY = (newModelDimY + *nY - 1) / *nY
+				dimZ = (newModelDimZ + *nZ - 1) / *nZ
 				if dimX == 0 || dimY == 0 || dimZ == 0 {
 					log.Fatalf("too many divisions: region dimensions = (%v,%v,%v)", dimX, dimY, dimZ)
 				}
@@ -158,7 +158,7 @@ func generateMR(args []string) (chan interface{}, error) {
 						}
 
 						log.Printf("generateMR: sending %v to mapper", arg)
-						ch <- data
+						ch <- []interface{}{data, xi * dimX, yi * dimY, zi * dimZ}
 					}
 				}
 			}
@@ -173,9 +173,11 @@ func generateMR(args []string) (chan interface{}, error) {
 func voxelize(row []interface{}) error {
 	// log.Printf("voxelize: len(row)=%v", len(row))
 	m := &mr.MapIn{}
-	if err := proto.Unmarshal(row[0].([]byte), m); err != nil {
+	in := row[0].([]interface{}) // the region to voxelize, and its offset in the model
+	if err := proto.Unmarshal(in[0].([]byte), m); err != nil {
 		return err
 	}
+	offset := binvox.Key{X: int(gio.ToInt64(in[1])), Y: int(gio.ToInt64(in[2])), Z: int(gio.ToInt64(in[3]))}
 
 	var tris []*gl.Triangle
 	for _, t := range m.Triangles {
@@ -208,7 +210,7 @@ func voxelize(row []interface{}) error {
 			return // common for a cut to extend beyond the bounds of the base.
 		}
 		if err == nil {
-			err = gio.Emit(k.Z, k.X, k.Y, m.Base)
+			err = gio.Emit(k.Z+offset.Z, k.X+offset.X, k.Y+offset.Y, m.Base)
 		}
 	}
 	for k := range bv.WhiteVoxels {
-- 
2.43.0


From 6a580b459a3dda2211a4ab272aa329bfa5e264e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:25 +0000
Subject: [PATCH 39/73] fix: stldice-mr computes the bounding box of small
 meshes correctly

---
 cmd/stldice-mr/stldice-mr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/stldice-mr/stldice-mr.go b/cmd/stldice-mr/stldice-mr.go
index 73d3e0c..d4e20ad 100644
--- a/cmd/stldice-mr/stldice-mr.go
+++ b/cmd/stldice-mr/stldice-mr.go
@@ -96,7 +96,7 @@ func generateMR(args []string) (chan interface{}, error) {
 			}
 
 			if i == 0 {
-				box := mesh.BoundingBox()
+				box := gl.NewTriangleMesh(mesh.Triangles).BoundingBox() // LoadSTL's own box can wrongly include the origin.
 				mbb = &box
 				scale := mbb.Max.X - mbb.Min.X
 				if dy := mbb.Max.Y - mbb.Min.Y; dy > scale {
-- 
2.43.0


From 8ea2921453ba56f40c5835cd1d0ddf03cdefc9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:54 +0000
Subject: [PATCH 40/73] fix: stl2svx refuses models and parameters it cannot
 voxelize

---
 stl2svx/stl/stl.go | 49 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 36 insertions(+), 13 deletions(-)

diff --git a/stl2svx/stl/stl.go b/stl2svx/stl/stl.go
index f243bce..a4e8596 100644
--- a/stl2svx/stl/stl.go
+++ b/stl2svx/stl/stl.go
@@ -25,18 +25,38 @@ type STL struct {
 	SubregionScale float64
 }
 
+// maxDim is the largest supported number of voxels in one dimension.
+const maxDim = 1 << 15
+
+// NewMesh converts a pb.STLFile to a mesh.
+func NewMesh(p *pb.STLFile) (*gl.Mesh, error) {
+	var tris []*gl.Triangle
+	for i, t := range p.GetTriangles() {
+		var vs [3]gl.Vector
+		for j, v := range []*pb.Vertex{t.GetV1(), t.GetV2(), t.GetV3()} {
+			vs[j] = gl.V(v.GetX(), v.GetY(), v.GetZ())
+			for _, c := range []float64{v.GetX(), v.GetY(), v.GetZ()} {
+				if math.IsNaN(c) || math.IsInf(c, 0) {
+					return nil, fmt.Errorf("triangle #%v: invalid vertex %v", i, vs[j])
+				}
+			}
+		}
+		tris = append(tris, gl.NewTriangleForPoints(vs[0], vs[1], vs[2]))
+	}
+	return gl.NewTriangleMesh(tris), nil
+}
+
 // New parses a pb.STLFile and returns an STL.
 // dim represents the number of voxels in the widest dimension.
 // nX, nY, nZ represent the number of subdivisions in each dimension.
 func New(p *pb.STLFile, dim, nX, nY, nZ int64) (*STL, error) {
-	var tris []*gl.Triangle
-	for _, t := range p.GetTriangles() {
-		tris = append(tris, gl.NewTriangleForPoints(
-			gl.V(t.V1.X, t.V1.Y, t.V1.Z),
-			gl.V(t.V2.X, t.V2.Y, t.V2.Z),
-			gl.V(t.V3.X, t.V3.Y, t.V3.Z)))
+	if dim < 1 || dim > maxDim || nX < 1 || nY < 1 || nZ < 1 {
+		return nil, fmt.Errorf("invalid dimension %v or divisions (%v,%v,%v)", dim, nX, nY, nZ)
+	}
+	mesh, err := NewMesh(p)
+	if err != nil {
+		return nil, err
 	}
-	mesh := gl.NewTriangleMesh(tris)
 	mbb := mesh.BoundingBox()
 
 	scale := mbb.Max.X - mbb.Min.X
@@ -46,6 +66,9 @@ func New(p *pb.STLFile, dim, nX, nY, nZ int64) (*STL, error) {
 	if dz := mbb.Max.Z - mbb.Min.Z; dz > scale {
 		scale = dz
 	}
+	if scale <= 0 || math.IsInf(scale, 0) {
+		return nil, fmt.Errorf("unable to voxelize a model of size %v", scale)
+	}
 	vpmm := float64(dim) / scale // voxels per millimeter
 	mmpv := 1.0 / vpmm           // millimeters per voxel
 	modelDimInMM := mbb.Size()
@@ -58,14 +81,14 @@ func New(p *pb.STLFile, dim, nX, nY, nZ int64) (*STL, error) {
 	if dimX == 0 || dimY == 0 || dimZ == 0 {
 		return nil, fmt.Errorf("too many divisions: region dimensions = (%v,%v,%v)", dimX, dimY, dimZ)
 	}
-	maxDim := dimX
-	if dimY > maxDim {
-		maxDim = dimY
+	regionDim := dimX
+	if dimY > regionDim {
+		regionDim = dimY
 	}
-	if dimZ > maxDim {
-		maxDim = dimZ
+	if dimZ > regionDim {
+		regionDim = dimZ
 	}
-	subregionScale := float64(maxDim) * mmpv
+	subregionScale := float64(regionDim) * mmpv
 
 	return &STL{
 		MBB:       mbb,
-- 
2.43.0


From e182300af51986bc295c0f3b8d2e29c74bf861e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:29 +0000
Subject: [PATCH 41/73] fix: stl2svx subregions cover the whole model

---
 stl2svx/stl/stl.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/stl2svx/stl/stl.go b/stl2svx/stl/stl.go
index a4e8596..c9614a5 100644
--- a/stl2svx/stl/stl.go
+++ b/stl2svx/stl/stl.go
@@ -75,12 +75,13 @@ func New(p *pb.STLFile, dim, nX, nY, nZ int64) (*STL, error) {
 	newModelDimX := int(math.Ceil(modelDimInMM.X * vpmm))
 	newModelDimY := int(math.Ceil(modelDimInMM.Y * vpmm))
 	newModelDimZ := int(math.Ceil(modelDimInMM.Z * vpmm))
-	dimX := newModelDimX / int(nX)
-	dimY := newModelDimY / int(nY)
-	dimZ := newModelDimZ / int(nZ)
-	if dimX == 0 || dimY == 0 || dimZ == 0 {
-		return nil, fmt.Errorf("too many divisions: region dimensions = (%v,%v,%v)", dimX, dimY, dimZ)
+	if int64(newModelDimX) < nX || int64(newModelDimY) < nY || int64(newModelDimZ) < nZ {
+		return nil, fmt.Errorf("too many divisions: model dimensions = (%v,%v,%v)", newModelDimX, newModelDimY, newModelDimZ)
 	}
+	// Round up so that the subregions cover the whole model.
+	dimX := (newModelDimX + int(nX) - 1) / int(nX)
+	dimY := (newModelDimY + int(nY) - 1) / int(nY)
+	dimZ := (newModelDimZ + int(nZ) - 1) / int(nZ)
 	regionDim := dimX
 	if dimY > regionDim {
 		regionDim = dimY
-- 
2.43.0


From 3aa183bb9e717022ab6cd5c8bd4012a3f5ccdce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:29 +0000
Subject: [PATCH 42/73] fix: stl2svx agent replies with an error to a job it
 cannot process

It used to exit, also for a cut with fewer voxels than divisions.
---
 stl2svx/agent/agent.go | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/stl2svx/agent/agent.go b/stl2svx/agent/agent.go
index 6b237ba..208a1af 100644
--- a/stl2svx/agent/agent.go
+++ b/stl2svx/agent/agent.go
@@ -96,19 +96,31 @@ type bvInfo struct {
 // through the provided channel.
 // dimZ is the number of agents needed to output the images.
 func generateMR(in *pb.SliceJobRequest) (ch chan *bvInfo, err error) {
+	job := in.GetNewJobRequest()
+	var base *stl.STL
+	var meshes []*gl.Mesh
+	for i, stlFile := range job.GetStlFiles() {
+		if i == 0 {
+			if base, err = stl.New(stlFile, job.GetDim(), job.GetNX(), job.GetNY(), job.GetNZ()); err != nil {
+				return nil, fmt.Errorf("stl.New: %v", err)
+			}
+			meshes = append(meshes, base.Mesh)
+			continue
+		}
+		mesh, err := stl.NewMesh(stlFile)
+		if err != nil {
+			return nil, fmt.Errorf("stl.NewMesh: %v", err)
+		}
+		meshes = append(meshes, mesh)
+	}
+	if base == nil {
+		return nil, fmt.Errorf("must pass at least one STL file to SliceJob")
+	}
+
 	ch = make(chan *bvInfo)
 	go func() {
-		job := in.GetNewJobRequest()
-		var base *stl.STL
-		for i, stlFile := range job.GetStlFiles() {
-			stlMesh, err := stl.New(stlFile, job.GetDim(), job.GetNX(), job.GetNY(), job.GetNZ())
-			if err != nil {
-				log.Fatalf("stl.New: %v", err)
-			}
-			if i == 0 {
-				base = stlMesh
-			}
-			log.Printf("generateMR: i=%v, %v triangles", i, len(stlMesh.Mesh.Triangles))
+		for i, mesh := range meshes {
+			log.Printf("generateMR: i=%v, %v triangles", i, len(mesh.Triangles))
 
 			// Now dice it up.
 			for zi := 0; zi < int(job.GetNZ()); zi++ {
@@ -128,7 +140,7 @@ func generateMR(in *pb.SliceJobRequest) (ch chan *bvInfo, err error) {
 								Scale: base.SubregionScale,
 							},
 							base: i == 0,
-							mesh: stlMesh.Mesh,
+							mesh: mesh,
 						}
 
 						log.Printf("generateMR: sending STL #%v to mapper", i)
-- 
2.43.0


From fd4b7a66baceda0c12b0b528c0ac9b74a47aefff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:29 +0000
Subject: [PATCH 43/73] fix: stl2svx agent slices models divided in Z

---
 stl2svx/agent/agent.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stl2svx/agent/agent.go b/stl2svx/agent/agent.go
index 208a1af..f4f802f 100644
--- a/stl2svx/agent/agent.go
+++ b/stl2svx/agent/agent.go
@@ -124,6 +124,9 @@ func generateMR(in *pb.SliceJobRequest) (ch chan *bvInfo, err error) {
 
 			// Now dice it up.
 			for zi := 0; zi < int(job.GetNZ()); zi++ {
+				if z := int(in.GetZ()); z < zi*base.DimZ || z >= (zi+1)*base.DimZ {
+					continue // The slice is not in this subregion.
+				}
 				z1 := base.MBB.Min.Z + float64(zi*base.DimZ)*base.MMPV
 				for yi := 0; yi < int(job.GetNY()); yi++ {
 					y1 := base.MBB.Min.Y + float64(yi*base.DimY)*base.MMPV
@@ -163,7 +166,7 @@ type voxelInfo struct {
 // then sends them to the imager.
 func voxelize(bvi *bvInfo, zi int, ch chan<- voxelInfo) {
 	bv := bvi.bv
-	if err := bv.VoxelizeZ(bvi.mesh, zi); err != nil {
+	if err := bv.VoxelizeZ(bvi.mesh, zi-bvi.dz); err != nil {
 		log.Printf("voxelize(%v): %v", zi, err)
 		return
 	}
-- 
2.43.0


From 48682dbd8759cd791a1a44cb66872fa7d7078693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:52 +0000
Subject: [PATCH 44/73] fix: stl2svx agent keeps the boundary of its images
 black

---
 stl2svx/agent/agent.go | 6 ++++++
 stl2svx/stl/stl.go     | 6 +++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/stl2svx/agent/agent.go b/stl2svx/agent/agent.go
index f4f802f..8aa13a6 100644
--- a/stl2svx/agent/agent.go
+++ b/stl2svx/agent/agent.go
@@ -86,6 +86,7 @@ func (m *agent) SliceJob(ctx context.Context, in *pb.SliceJobRequest) (resp *pb.
 
 type bvInfo struct {
 	dx, dy, dz int
+	nx, ny     int // dimensions of the whole model
 	bv         *binvox.BinVOX
 	base       bool
 	mesh       *gl.Mesh
@@ -137,6 +138,8 @@ func generateMR(in *pb.SliceJobRequest) (ch chan *bvInfo, err error) {
 							dx: xi * base.DimX,
 							dy: yi * base.DimY,
 							dz: zi * base.DimZ,
+							nx: base.ModelDimX,
+							ny: base.ModelDimY,
 							bv: &binvox.BinVOX{
 								NX: base.DimX, NY: base.DimY, NZ: base.DimZ,
 								TX: x1, TY: y1, TZ: z1,
@@ -187,6 +190,9 @@ func voxelize(bvi *bvInfo, zi int, ch chan<- voxelInfo) {
 		if k.X < 0 || k.Y < 0 || k.Z < 0 {
 			return // common for a cut to extend beyond the bounds of the base.
 		}
+		if k.X >= bvi.nx || k.Y >= bvi.ny {
+			return // The last subregion may extend beyond the model: keep the boundary black.
+		}
 		ch <- voxelInfo{X: k.X, Y: k.Y, Base: bvi.base}
 	}
 	for k := range bv.WhiteVoxels {
diff --git a/stl2svx/stl/stl.go b/stl2svx/stl/stl.go
index c9614a5..b5d8d7e 100644
--- a/stl2svx/stl/stl.go
+++ b/stl2svx/stl/stl.go
@@ -72,9 +72,9 @@ func New(p *pb.STLFile, dim, nX, nY, nZ int64) (*STL, error) {
 	vpmm := float64(dim) / scale // voxels per millimeter
 	mmpv := 1.0 / vpmm           // millimeters per voxel
 	modelDimInMM := mbb.Size()
-	newModelDimX := int(math.Ceil(modelDimInMM.X * vpmm))
-	newModelDimY := int(math.Ceil(modelDimInMM.Y * vpmm))
-	newModelDimZ := int(math.Ceil(modelDimInMM.Z * vpmm))
+	newModelDimX := min(int(math.Ceil(modelDimInMM.X*vpmm)), int(dim))
+	newModelDimY := min(int(math.Ceil(modelDimInMM.Y*vpmm)), int(dim))
+	newModelDimZ := min(int(math.Ceil(modelDimInMM.Z*vpmm)), int(dim))
 	if int64(newModelDimX) < nX || int64(newModelDimY) < nY || int64(newModelDimZ) < nZ {
 		return nil, fmt.Errorf("too many divisions: model dimensions = (%v,%v,%v)", newModelDimX, newModelDimY, newModelDimZ)
 	}
-- 
2.43.0


From afe8e1759c2b32b8cd80264849588992e64405da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:15 +0000
Subject: [PATCH 45/73] fix: stl2svx master keeps the archives of concurrent
 jobs apart

---
 stl2svx/master/master.go | 41 +++++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/stl2svx/master/master.go b/stl2svx/master/master.go
index adf15dc..e29c902 100644
--- a/stl2svx/master/master.go
+++ b/stl2svx/master/master.go
@@ -28,9 +28,12 @@ const (
 type master struct {
 	amu        sync.Mutex          // protects agents and idleAgents
 	idleAgents map[string]struct{} // just a map of idle agents
+}
 
-	zmu     sync.Mutex  // protects zipFile
-	zipFile *zip.Writer // resulting SVX file
+// svxFile is the resulting SVX file of a single job.
+type svxFile struct {
+	mu      sync.Mutex // protects zipFile
+	zipFile *zip.Writer
 }
 
 func New() *master {
@@ -47,22 +50,22 @@ func (m *master) NewJob(ctx context.Context, in *pb.NewJobRequest) (*pb.NewJobRe
 	}
 
 	var zbuf bytes.Buffer
-	m.zipFile = zip.NewWriter(&zbuf)
+	f := &svxFile{zipFile: zip.NewWriter(&zbuf)}
 
-	m.writeManifest(in, base)
-	m.writeBlankImages(in, base)
+	f.writeManifest(in, base)
+	f.writeBlankImages(in, base)
 
 	var wg sync.WaitGroup
 	for z := 0; z < base.DimZ; z++ {
 		wg.Add(1)
 		go func(z int) {
-			m.runAgent(ctx, in, z)
+			m.runAgent(ctx, in, z, f)
 			wg.Done()
 		}(z)
 	}
 	wg.Wait()
 
-	if err := m.zipFile.Close(); err != nil {
+	if err := f.zipFile.Close(); err != nil {
 		return nil, err
 	}
 
@@ -80,7 +83,7 @@ func (m *master) RegisterAgent(ctx context.Context, in *pb.RegisterAgentRequest)
 }
 
 // runAgent runs the agent on the given z slice.
-func (m *master) runAgent(ctx context.Context, in *pb.NewJobRequest, z int) {
+func (m *master) runAgent(ctx context.Context, in *pb.NewJobRequest, z int, svx *svxFile) {
 	req := &pb.SliceJobRequest{NewJobRequest: in, Z: int64(z)}
 	var conn *grpc.ClientConn
 	var address string
@@ -110,9 +113,9 @@ func (m *master) runAgent(ctx context.Context, in *pb.NewJobRequest, z int) {
 	outFile := fmt.Sprintf("%v/out-%v-%v-%v-%v-%04d.png", in.GetDim(), in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ(), z+1)
 
 	log.Printf("runAgent(%v): writing %v to zip file...", z, outFile)
-	m.zmu.Lock()
-	defer m.zmu.Unlock()
-	f, err := m.zipFile.Create(outFile)
+	svx.mu.Lock()
+	defer svx.mu.Unlock()
+	f, err := svx.zipFile.Create(outFile)
 	if err != nil {
 		log.Printf("runAgent(%v) error: %v", z, err)
 		return
@@ -140,12 +143,12 @@ func (m *master) getIdleAgent() string {
 	}
 }
 
-func (m *master) writeManifest(in *pb.NewJobRequest, base *stl.STL) error {
+func (s *svxFile) writeManifest(in *pb.NewJobRequest, base *stl.STL) error {
 	const outFile = "manifest.xml"
 	log.Printf("Writing file %v ... need %v agents for job...", outFile, base.DimZ)
-	m.zmu.Lock()
-	defer m.zmu.Unlock()
-	mf, err := m.zipFile.Create(outFile)
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	mf, err := s.zipFile.Create(outFile)
 	if err != nil {
 		return err
 	}
@@ -159,15 +162,15 @@ func (m *master) writeManifest(in *pb.NewJobRequest, base *stl.STL) error {
 	return nil
 }
 
-func (m *master) writeBlankImages(in *pb.NewJobRequest, base *stl.STL) {
+func (s *svxFile) writeBlankImages(in *pb.NewJobRequest, base *stl.STL) {
 	// For Shapeways, create a black base and a black top.
 	rect := image.Rect(0, 0, int(in.GetDim()+2), int(in.GetDim()+2))
 	img := image.NewGray(rect)
 	draw.Draw(img, rect, image.Black, image.ZP, draw.Over)
-	m.zmu.Lock()
-	defer m.zmu.Unlock()
+	s.mu.Lock()
+	defer s.mu.Unlock()
 	outf := func(fn string) {
-		f, err := m.zipFile.Create(fn)
+		f, err := s.zipFile.Create(fn)
 		if err != nil {
 			log.Printf("error: %v", err)
 			return
-- 
2.43.0


From 11bc64a7b9907beee03b9b8f1ccac581690926b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:44 +0000
Subject: [PATCH 46/73] fix: stl2svx master fails a job that misses a slice

It used to report success without the slice, never used the agent
again, and kept waiting for agents after the client had gone.
---
 stl2svx/master/master.go | 73 ++++++++++++++++++++++++++--------------
 1 file changed, 48 insertions(+), 25 deletions(-)

diff --git a/stl2svx/master/master.go b/stl2svx/master/master.go
index e29c902..d64f88d 100644
--- a/stl2svx/master/master.go
+++ b/stl2svx/master/master.go
@@ -4,6 +4,7 @@ package master
 import (
 	"archive/zip"
 	"bytes"
+	"errors"
 	"fmt"
 	"image"
 	"image/draw"
@@ -13,6 +14,8 @@ import (
 	"time"
 
 	"google.golang.org/grpc"
+	"google.golang.org/grpc/codes"
+	"google.golang.org/grpc/status"
 
 	pb "github.com/gmlewis/stldice/v4/stl2svx/proto"
 	"github.com/gmlewis/stldice/v4/stl2svx/stl"
@@ -55,15 +58,24 @@ func (m *master) NewJob(ctx context.Context, in *pb.NewJobRequest) (*pb.NewJobRe
 	f.writeManifest(in, base)
 	f.writeBlankImages(in, base)
 
+	ctx, cancel := context.WithCancel(ctx)
+	defer cancel()
 	var wg sync.WaitGroup
+	errs := make(chan error, base.DimZ)
 	for z := 0; z < base.DimZ; z++ {
 		wg.Add(1)
 		go func(z int) {
-			m.runAgent(ctx, in, z, f)
-			wg.Done()
+			defer wg.Done()
+			if err := m.runAgent(ctx, in, z, f); err != nil {
+				errs <- fmt.Errorf("slice %v: %v", z, err)
+				cancel() // No need to finish the other slices.
+			}
 		}(z)
 	}
 	wg.Wait()
+	if len(errs) > 0 {
+		return nil, <-errs
+	}
 
 	if err := f.zipFile.Close(); err != nil {
 		return nil, err
@@ -83,31 +95,31 @@ func (m *master) RegisterAgent(ctx context.Context, in *pb.RegisterAgentRequest)
 }
 
 // runAgent runs the agent on the given z slice.
-func (m *master) runAgent(ctx context.Context, in *pb.NewJobRequest, z int, svx *svxFile) {
+func (m *master) runAgent(ctx context.Context, in *pb.NewJobRequest, z int, svx *svxFile) error {
 	req := &pb.SliceJobRequest{NewJobRequest: in, Z: int64(z)}
-	var conn *grpc.ClientConn
-	var address string
+	var resp *pb.SliceJobResponse
 	for {
-		address = m.getIdleAgent()
-		log.Printf("Assigning agent %v to slice z=%v", address, z)
-		var err error
-		conn, err = grpc.Dial(address, grpc.WithInsecure(), grpc.WithDefaultCallOptions(grpc.MaxCallRecvMsgSize(maxSize)), grpc.WithDefaultCallOptions(grpc.MaxCallSendMsgSize(maxSize)))
+		address, err := m.getIdleAgent(ctx)
 		if err != nil {
+			return err
+		}
+		log.Printf("Assigning agent %v to slice z=%v", address, z)
+		resp, err = sliceJob(ctx, address, req)
+		if status.Code(err) == codes.Unavailable {
 			log.Printf("Unable to communicate with agent %v, finding another...", address)
 			continue
 		}
+		m.amu.Lock()
+		m.idleAgents[address] = struct{}{} // Mark agent as idle
+		m.amu.Unlock()
+		if err == nil && resp.GetError() != "" {
+			err = errors.New(resp.GetError())
+		}
+		if err != nil {
+			return fmt.Errorf("error running SliceJob with agent %v: %v", address, err)
+		}
 		break
 	}
-	defer conn.Close()
-	c := pb.NewAgentClient(conn)
-	resp, err := c.SliceJob(ctx, req)
-	if err != nil {
-		log.Printf("Error running SliceJob with agent %v: %v", address, err)
-		return
-	}
-	m.amu.Lock()
-	m.idleAgents[address] = struct{}{} // Mark agent as idle
-	m.amu.Unlock()
 
 	// Write the PNG to the zip file.
 	outFile := fmt.Sprintf("%v/out-%v-%v-%v-%v-%04d.png", in.GetDim(), in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ(), z+1)
@@ -117,17 +129,28 @@ func (m *master) runAgent(ctx context.Context, in *pb.NewJobRequest, z int, svx
 	defer svx.mu.Unlock()
 	f, err := svx.zipFile.Create(outFile)
 	if err != nil {
-		log.Printf("runAgent(%v) error: %v", z, err)
-		return
+		return err
 	}
-	if _, err := f.Write(resp.GetPngFile()); err != nil {
-		log.Printf("runAgent(%v) error: %v", z, err)
+	_, err = f.Write(resp.GetPngFile())
+	return err
+}
+
+// sliceJob requests a slice from the agent at the given address.
+func sliceJob(ctx context.Context, address string, req *pb.SliceJobRequest) (*pb.SliceJobResponse, error) {
+	conn, err := grpc.Dial(address, grpc.WithInsecure(), grpc.WithDefaultCallOptions(grpc.MaxCallRecvMsgSize(maxSize)), grpc.WithDefaultCallOptions(grpc.MaxCallSendMsgSize(maxSize)))
+	if err != nil {
+		return nil, status.Errorf(codes.Unavailable, "%v", err)
 	}
+	defer conn.Close()
+	return pb.NewAgentClient(conn).SliceJob(ctx, req)
 }
 
 // getIdleAgent sits in a loop waiting for an agent to become idle, then marks it busy and returns its address.
-func (m *master) getIdleAgent() string {
+func (m *master) getIdleAgent(ctx context.Context) (string, error) {
 	for {
+		if err := ctx.Err(); err != nil {
+			return "", err
+		}
 		m.amu.Lock()
 		var address string
 		if len(m.idleAgents) > 0 {
@@ -136,7 +159,7 @@ func (m *master) getIdleAgent() string {
 			}
 			delete(m.idleAgents, address)
 			m.amu.Unlock()
-			return address
+			return address, nil
 		}
 		m.amu.Unlock()
 		time.Sleep(idleWaitTime)
-- 
2.43.0


From 48daa38dd21e8ddbc2fd376175a066cf7f35c859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:44 +0000
Subject: [PATCH 47/73] fix: stl2svx master makes all slices of models divided
 in Z

---
 stl2svx/master/master.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/stl2svx/master/master.go b/stl2svx/master/master.go
index d64f88d..4091a8b 100644
--- a/stl2svx/master/master.go
+++ b/stl2svx/master/master.go
@@ -61,8 +61,8 @@ func (m *master) NewJob(ctx context.Context, in *pb.NewJobRequest) (*pb.NewJobRe
 	ctx, cancel := context.WithCancel(ctx)
 	defer cancel()
 	var wg sync.WaitGroup
-	errs := make(chan error, base.DimZ)
-	for z := 0; z < base.DimZ; z++ {
+	errs := make(chan error, base.ModelDimZ)
+	for z := 0; z < base.ModelDimZ; z++ {
 		wg.Add(1)
 		go func(z int) {
 			defer wg.Done()
@@ -168,7 +168,7 @@ func (m *master) getIdleAgent(ctx context.Context) (string, error) {
 
 func (s *svxFile) writeManifest(in *pb.NewJobRequest, base *stl.STL) error {
 	const outFile = "manifest.xml"
-	log.Printf("Writing file %v ... need %v agents for job...", outFile, base.DimZ)
+	log.Printf("Writing file %v ... need %v agents for job...", outFile, base.ModelDimZ)
 	s.mu.Lock()
 	defer s.mu.Unlock()
 	mf, err := s.zipFile.Create(outFile)
@@ -203,5 +203,5 @@ func (s *svxFile) writeBlankImages(in *pb.NewJobRequest, base *stl.STL) {
 		}
 	}
 	outf(fmt.Sprintf("%v/out-%v-%v-%v-%v-%04d.png", in.GetDim(), in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ(), 0))
-	outf(fmt.Sprintf("%v/out-%v-%v-%v-%v-%04d.png", in.GetDim(), in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ(), base.DimZ+1))
+	outf(fmt.Sprintf("%v/out-%v-%v-%v-%v-%04d.png", in.GetDim(), in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ(), base.ModelDimZ+1))
 }
-- 
2.43.0


From 2cb38a1568e9aa21279a59e3e3ccf7e0206a7e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:03 +0000
Subject: [PATCH 48/73] fix: stl2svx manifest names the slices as they are in
 the archive

---
 stl2svx/master/master.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/stl2svx/master/master.go b/stl2svx/master/master.go
index 4091a8b..b503a63 100644
--- a/stl2svx/master/master.go
+++ b/stl2svx/master/master.go
@@ -4,12 +4,14 @@ package master
 import (
 	"archive/zip"
 	"bytes"
+	"encoding/xml"
 	"errors"
 	"fmt"
 	"image"
 	"image/draw"
 	"image/png"
 	"log"
+	"strings"
 	"sync"
 	"time"
 
@@ -122,7 +124,7 @@ func (m *master) runAgent(ctx context.Context, in *pb.NewJobRequest, z int, svx
 	}
 
 	// Write the PNG to the zip file.
-	outFile := fmt.Sprintf("%v/out-%v-%v-%v-%v-%04d.png", in.GetDim(), in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ(), z+1)
+	outFile := fmt.Sprintf(slicePattern(in), z+1)
 
 	log.Printf("runAgent(%v): writing %v to zip file...", z, outFile)
 	svx.mu.Lock()
@@ -166,6 +168,14 @@ func (m *master) getIdleAgent(ctx context.Context) (string, error) {
 	}
 }
 
+// slicePattern returns the format of the names of all slices in the zip file.
+func slicePattern(in *pb.NewJobRequest) string {
+	prefix := in.GetOutPrefix()
+	prefix = prefix[strings.LastIndex(prefix, "/")+1:] // without the client's directory
+	prefix = strings.Replace(prefix, "%", "%%", -1)
+	return fmt.Sprintf("%v/%v-%v-%v-%v-%v-%%04d.png", in.GetDim(), prefix, in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ())
+}
+
 func (s *svxFile) writeManifest(in *pb.NewJobRequest, base *stl.STL) error {
 	const outFile = "manifest.xml"
 	log.Printf("Writing file %v ... need %v agents for job...", outFile, base.ModelDimZ)
@@ -175,13 +185,17 @@ func (s *svxFile) writeManifest(in *pb.NewJobRequest, base *stl.STL) error {
 	if err != nil {
 		return err
 	}
+	var pattern bytes.Buffer
+	if err := xml.EscapeText(&pattern, []byte(slicePattern(in))); err != nil {
+		return err
+	}
 	fmt.Fprintf(mf, `<?xml version="1.0"?>
 <grid version="1.0" gridSizeX="%v" gridSizeY="%v" gridSizeZ="%v" voxelSize="%v" subvoxelBits="8" originX="%v" originY="%v" originZ="%v" slicesOrientation="Y" >
   <channels>
-    <channel type="DENSITY" bits="8" slices="%v/%v-%v-%v-%v-%v-%%04d.png" />
+    <channel type="DENSITY" bits="8" slices="%s" />
   </channels>
 </grid>
-`, base.ModelDimX+2, base.ModelDimZ+2, base.ModelDimY+2, base.MMPV*1e-3, base.MBB.Min.X, base.MBB.Min.Z, base.MBB.Min.Y, in.GetDim(), in.GetOutPrefix(), in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ())
+`, base.ModelDimX+2, base.ModelDimZ+2, base.ModelDimY+2, base.MMPV*1e-3, base.MBB.Min.X, base.MBB.Min.Z, base.MBB.Min.Y, pattern.Bytes())
 	return nil
 }
 
@@ -202,6 +216,6 @@ func (s *svxFile) writeBlankImages(in *pb.NewJobRequest, base *stl.STL) {
 			log.Printf("error: %v", err)
 		}
 	}
-	outf(fmt.Sprintf("%v/out-%v-%v-%v-%v-%04d.png", in.GetDim(), in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ(), 0))
-	outf(fmt.Sprintf("%v/out-%v-%v-%v-%v-%04d.png", in.GetDim(), in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ(), base.ModelDimZ+1))
+	outf(fmt.Sprintf(slicePattern(in), 0))
+	outf(fmt.Sprintf(slicePattern(in), base.ModelDimZ+1))
 }
-- 
2.43.0


From 3c4bcd6fdb20c098480d9f7e69d31bcc4fe1e4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:04 +0000
Subject: [PATCH 49/73] fix: stl2svx manifest gives the size that the slices
 have

---
 stl2svx/master/master.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stl2svx/master/master.go b/stl2svx/master/master.go
index b503a63..095936a 100644
--- a/stl2svx/master/master.go
+++ b/stl2svx/master/master.go
@@ -195,7 +195,7 @@ func (s *svxFile) writeManifest(in *pb.NewJobRequest, base *stl.STL) error {
     <channel type="DENSITY" bits="8" slices="%s" />
   </channels>
 </grid>
-`, base.ModelDimX+2, base.ModelDimZ+2, base.ModelDimY+2, base.MMPV*1e-3, base.MBB.Min.X, base.MBB.Min.Z, base.MBB.Min.Y, pattern.Bytes())
+`, in.GetDim()+2, base.ModelDimZ+2, in.GetDim()+2, base.MMPV*1e-3, base.MBB.Min.X, base.MBB.Min.Z, base.MBB.Min.Y, pattern.Bytes())
 	return nil
 }
 
-- 
2.43.0


From 1f7b875c73c948086446198f3a4b1aa4f898c212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:14 +0000
Subject: [PATCH 50/73] fix: stl2svx agent registers the address it listens on

---
 stl2svx/stl2svx-server/stl2svx-server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stl2svx/stl2svx-server/stl2svx-server.go b/stl2svx/stl2svx-server/stl2svx-server.go
index c916a7d..2037124 100644
--- a/stl2svx/stl2svx-server/stl2svx-server.go
+++ b/stl2svx/stl2svx-server/stl2svx-server.go
@@ -52,6 +52,9 @@ func main() {
 
 func getAddress(tcpAddr *net.TCPAddr) string {
 	localPort := tcpAddr.String()
+	if !tcpAddr.IP.IsUnspecified() {
+		return localPort // Listening on this address only.
+	}
 	port := strings.Split(localPort, ":")
 
 	var result string
-- 
2.43.0


From 86b490d905590e122f2d388ba4b92b02d97ffe73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:28 +0000
Subject: [PATCH 51/73] fix: stl2svx agent registers a valid IPv6 address

---
 stl2svx/stl2svx-server/stl2svx-server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stl2svx/stl2svx-server/stl2svx-server.go b/stl2svx/stl2svx-server/stl2svx-server.go
index 2037124..1ea2626 100644
--- a/stl2svx/stl2svx-server/stl2svx-server.go
+++ b/stl2svx/stl2svx-server/stl2svx-server.go
@@ -84,5 +84,5 @@ func getAddress(tcpAddr *net.TCPAddr) string {
 			log.Printf("got address: %v", result)
 		}
 	}
-	return fmt.Sprintf("%v:%v", result, port[len(port)-1])
+	return net.JoinHostPort(result, port[len(port)-1])
 }
-- 
2.43.0


From a7844f06c575ca3b33dd726b29911cdeecdce922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:01 +0000
Subject: [PATCH 52/73] fix: stldice-slave replies with the mesh it was asked
 for

---
 server/stldice-slave/stldice-slave.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/stldice-slave/stldice-slave.go b/server/stldice-slave/stldice-slave.go
index 0efa300..d3418d4 100644
--- a/server/stldice-slave/stldice-slave.go
+++ b/server/stldice-slave/stldice-slave.go
@@ -125,7 +125,7 @@ func (s *server) GetSTLMesh(ctx context.Context, in *pb.GetSTLMeshRequest) (*pb.
 			return nil, err
 		}
 	}
-	return &pb.GetSTLMeshReply{}, nil
+	return &pb.GetSTLMeshReply{StlFile: buf.Bytes()}, nil
 }
 
 func main() {
-- 
2.43.0


From a932dcce5c6dca3dc28a5f06ee2ceca8e50e4db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:02 +0000
Subject: [PATCH 53/73] fix: stldice-slave survives ASCII STL with an
 incomplete triangle

---
 server/stldice-slave/stldice-slave.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/stldice-slave/stldice-slave.go b/server/stldice-slave/stldice-slave.go
index d3418d4..a392317 100644
--- a/server/stldice-slave/stldice-slave.go
+++ b/server/stldice-slave/stldice-slave.go
@@ -182,6 +182,9 @@ func loadSTLA(r io.Reader) (*gl.Mesh, error) {
 			vertexes = append(vertexes, gl.Vector{f[0], f[1], f[2]})
 		}
 	}
+	if len(vertexes)%3 != 0 {
+		return nil, fmt.Errorf("malformed STL file: %v vertices", len(vertexes))
+	}
 	var triangles []*gl.Triangle
 	for i := 0; i < len(vertexes); i += 3 {
 		t := gl.Triangle{}
-- 
2.43.0


From af3ac3666aad4357704a8f2407fdebc73d727ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:49 +0000
Subject: [PATCH 54/73] fix: voxelize refuses negative dimensions

---
 binvox/voxelize.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/binvox/voxelize.go b/binvox/voxelize.go
index a680c32..864efd3 100644
--- a/binvox/voxelize.go
+++ b/binvox/voxelize.go
@@ -18,8 +18,8 @@ const epsilon = 1e-9
 //
 // Voxelize overwrites the WhiteVoxels slice in b.
 func (b *BinVOX) Voxelize(mesh *gl.Mesh) error {
-	if b.NX == 0 || b.NY == 0 || b.NZ == 0 {
-		return fmt.Errorf("mesh dimensions must be non-zero (%v,%v,%v)", b.NX, b.NY, b.NZ)
+	if b.NX <= 0 || b.NY <= 0 || b.NZ <= 0 {
+		return fmt.Errorf("mesh dimensions must be positive (%v,%v,%v)", b.NX, b.NY, b.NZ)
 	}
 
 	b.WhiteVoxels = nil
@@ -65,8 +65,8 @@ func (b *BinVOX) Voxelize(mesh *gl.Mesh) error {
 }
 
 func (b *BinVOX) VoxelizeZ(mesh *gl.Mesh, zi int) error {
-	if b.NX == 0 || b.NY == 0 || b.NZ == 0 {
-		return fmt.Errorf("mesh dimensions must be non-zero (%v,%v,%v)", b.NX, b.NY, b.NZ)
+	if b.NX <= 0 || b.NY <= 0 || b.NZ <= 0 {
+		return fmt.Errorf("mesh dimensions must be positive (%v,%v,%v)", b.NX, b.NY, b.NZ)
 	}
 
 	b.WhiteVoxels = nil
-- 
2.43.0


From f431ccd358cbfe94137e6a0e81d6ee016fda3ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:27 +0000
Subject: [PATCH 55/73] fix: voxelize terminates for meshes that reach far
 beyond the subregion

---
 binvox/voxelize.go | 50 +++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 47 insertions(+), 3 deletions(-)

diff --git a/binvox/voxelize.go b/binvox/voxelize.go
index 864efd3..11497a8 100644
--- a/binvox/voxelize.go
+++ b/binvox/voxelize.go
@@ -107,7 +107,9 @@ func (b *BinVOX) voxelizeOutline(pairs []*intersectionPair, zi int, z, dz, vpmm
 	// log.Printf("voxelizeZ(%v): got %v intersection pairs", zi, len(pairs))
 	for _, pair := range pairs {
 		// log.Printf("voxelizeZ(%v): pair=%#v", zi, pair)
-		b.rasterizeShellPair(pair, zi, z, dz, vpmm, setVoxelFunc)
+		if pair, ok := b.nearby(pair, vpmm); ok {
+			b.rasterizeShellPair(pair, zi, z, dz, vpmm, setVoxelFunc)
+		}
 	}
 	b.floodFill(pairs, zi, vpmm, setVoxelFunc)
 }
@@ -192,6 +194,44 @@ func firstOctantBressenham(x1i, y1i, x2i, y2i int, plotFunc func(x, y int)) {
 	}
 }
 
+// farAway is a distance from the subregion, in voxels, that no reasonable model has.
+const farAway = 1 << 20
+
+// nearby returns the part of the pair that is not far away from the subregion,
+// as it would take forever to rasterize all of it.
+func (b *BinVOX) nearby(pair *intersectionPair, vpmm float64) (*intersectionPair, bool) {
+	v1, v2 := pair.v1, pair.v2
+	from, to := 0.0, 1.0
+	clip := func(p1, p2 float64) {
+		for _, p := range [][2]float64{{p1, p2}, {-p1, -p2}} {
+			switch {
+			case p[0] <= farAway && p[1] <= farAway: // nothing to clip
+			case p[0] <= farAway:
+				to = math.Min(to, (farAway-p[0])/(p[1]-p[0]))
+			case p[1] <= farAway:
+				from = math.Max(from, (farAway-p[0])/(p[1]-p[0]))
+			default: // also not a number
+				to = -1
+			}
+		}
+	}
+	clip(vpmm*(v1.X-b.TX), vpmm*(v2.X-b.TX))
+	clip(vpmm*(v1.Y-b.TY), vpmm*(v2.Y-b.TY))
+	switch {
+	case !(from <= to):
+		return nil, false
+	case from == 0 && to == 1:
+		return pair, true
+	}
+	v1, v2 = v1.Lerp(v2, from), v1.Lerp(v2, to)
+	for _, v := range []gl.Vector{v1, v2} { // not with the rounding errors of astronomic distances
+		if math.Abs(vpmm*(v.X-b.TX)) > 2*farAway || math.Abs(vpmm*(v.Y-b.TY)) > 2*farAway {
+			return nil, false
+		}
+	}
+	return &intersectionPair{v1: v1, v2: v2}, true
+}
+
 // rasterizeShellPair rasterizes the shell voxels that intersect the mesh.
 func (b *BinVOX) rasterizeShellPair(pair *intersectionPair, zi int, z, dz, vpmm float64, setVoxelFunc func(k Key)) {
 	x1i := int(math.Floor(vpmm * (pair.v1.X - b.TX)))
@@ -254,7 +294,11 @@ func (b *BinVOX) floodFill(pairs []*intersectionPair, zi int, vpmm float64, setV
 			x1, y1, x2, y2 = x2, y2, x1, y1
 			dir = -1
 		}
-		for yi := int(math.Max(0, math.Floor(y1-0.5))); yi < b.NY; yi++ {
+		from := math.Max(0, math.Floor(y1-0.5))
+		if !(from < float64(b.NY)) {
+			continue
+		}
+		for yi := int(from); yi < b.NY; yi++ {
 			y := float64(yi) + 0.5
 			if y >= y2 {
 				break
@@ -269,7 +313,7 @@ func (b *BinVOX) floodFill(pairs []*intersectionPair, zi int, vpmm float64, setV
 		sort.Slice(row, func(i, j int) bool { return row[i].x < row[j].x })
 		winding := 0
 		for i, c := range row {
-			if winding != 0 {
+			if winding != 0 && row[i-1].x < float64(b.NX) {
 				for xi := int(math.Max(0, math.Ceil(row[i-1].x-0.5))); xi < b.NX && float64(xi)+0.5 < c.x; xi++ {
 					setVoxelFunc(Key{xi, yi, zi})
 				}
-- 
2.43.0


From 301041d5c1e1f8d660b8ff0403976541386e87db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:49 +0000
Subject: [PATCH 56/73] fix: stldice-slave voxelizes the meshes it adds and
 subtracts

It used to store the STL file in place of the voxels, and to crash with
the next mesh for the same region.
---
 server/stldice-slave/stldice-slave.go | 37 +++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/server/stldice-slave/stldice-slave.go b/server/stldice-slave/stldice-slave.go
index a392317..94e08ad 100644
--- a/server/stldice-slave/stldice-slave.go
+++ b/server/stldice-slave/stldice-slave.go
@@ -10,6 +10,7 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"math"
 	"net"
 	"strings"
 
@@ -20,7 +21,12 @@ import (
 	"google.golang.org/grpc"
 )
 
-const modelFilePrefix = "model"
+const (
+	modelFilePrefix = "model"
+
+	maxDim    = 1 << 15 // largest supported number of voxels in one dimension
+	maxVoxels = 1 << 30 // and in a region
+)
 
 var (
 	port = flag.String("port", ":5333", "Port to listen on")
@@ -45,7 +51,7 @@ func (s *server) AddSTLMesh(ctx context.Context, in *pb.AddSTLMeshRequest) (*pb.
 	modelFilename := filename(in.GetVoxelRegion())
 	base, err := binvox.Read(modelFilename, 0, 0, 0, 0, 0, 0)
 	if err != nil { // No existing model of the same name. Write the new one.
-		if err := mesh.SaveSTL(modelFilename); err != nil {
+		if err := addBV.Write(modelFilename, 0, 0, 0, 0, 0, 0); err != nil {
 			return nil, err
 		}
 		return &pb.AddSTLMeshReply{}, nil // Success.
@@ -222,11 +228,32 @@ func loadSTLB(r io.Reader) (*gl.Mesh, error) {
 
 // voxelize voxelizes a mesh using the provided VoxelRegion.
 func voxelize(voxelRegion *pb.VoxelRegion, mesh *gl.Mesh) (*binvox.BinVOX, error) {
-	// TODO(gmlewis); write this.
-	return nil, nil
+	nx, ny, nz := voxelRegion.GetNx(), voxelRegion.GetNy(), voxelRegion.GetNz()
+	if nx < 1 || ny < 1 || nz < 1 || nx > maxDim || ny > maxDim || nz > maxDim || nx*ny*nz > maxVoxels {
+		return nil, fmt.Errorf("invalid voxel region dimensions: (%v,%v,%v)", nx, ny, nz)
+	}
+	scale := math.Max(voxelRegion.GetUrx()-voxelRegion.GetLlx(),
+		math.Max(voxelRegion.GetUry()-voxelRegion.GetLly(), voxelRegion.GetUrz()-voxelRegion.GetLlz()))
+	if !(scale > 0) || math.IsInf(scale, 0) {
+		return nil, fmt.Errorf("invalid voxel region size: %v", scale)
+	}
+	bv := binvox.New(int(nx), int(ny), int(nz), voxelRegion.GetLlx(), voxelRegion.GetLly(), voxelRegion.GetLlz(), scale, false)
+	if err := bv.Voxelize(mesh); err != nil {
+		return nil, err
+	}
+	return bv, nil
 }
 
 // voxelOp performs a boolean union or a boolean difference on the two meshes and returns the result.
 func voxelOp(base, opVoxels *binvox.BinVOX, union bool) *binvox.BinVOX {
-	return nil
+	result := *opVoxels // An empty base model has no dimensions.
+	result.WhiteVoxels = base.WhiteVoxels
+	for k := range opVoxels.WhiteVoxels {
+		if union {
+			result.WhiteVoxels[k] = struct{}{}
+		} else {
+			delete(result.WhiteVoxels, k)
+		}
+	}
+	return &result
 }
-- 
2.43.0


From 6938ab1bb45d29556db18ef33a5ada1c8f25bfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:50 +0000
Subject: [PATCH 57/73] fix: stldice-slave keeps all meshes of concurrent
 requests

---
 server/stldice-slave/stldice-slave.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/server/stldice-slave/stldice-slave.go b/server/stldice-slave/stldice-slave.go
index 94e08ad..04fabf3 100644
--- a/server/stldice-slave/stldice-slave.go
+++ b/server/stldice-slave/stldice-slave.go
@@ -13,6 +13,7 @@ import (
 	"math"
 	"net"
 	"strings"
+	"sync"
 
 	gl "github.com/fogleman/fauxgl"
 	"github.com/gmlewis/stldice/v4/binvox"
@@ -33,7 +34,9 @@ var (
 )
 
 // server is used to implement stldice.STLDiceServer
-type server struct{}
+type server struct {
+	mu sync.Mutex // protects the models on disk
+}
 
 // Add an STL mesh to the voxels (possibly a subregion on the slave).
 func (s *server) AddSTLMesh(ctx context.Context, in *pb.AddSTLMeshRequest) (*pb.AddSTLMeshReply, error) {
@@ -47,6 +50,9 @@ func (s *server) AddSTLMesh(ctx context.Context, in *pb.AddSTLMeshRequest) (*pb.
 		return nil, err
 	}
 
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
 	// If there is no model on disk with the same coordinates, write the new binvox file.
 	modelFilename := filename(in.GetVoxelRegion())
 	base, err := binvox.Read(modelFilename, 0, 0, 0, 0, 0, 0)
@@ -68,6 +74,9 @@ func (s *server) AddSTLMesh(ctx context.Context, in *pb.AddSTLMeshRequest) (*pb.
 
 // Subtract an STL mesh from the voxels (possibly a subregion on the slave).
 func (s *server) SubSTLMesh(ctx context.Context, in *pb.SubSTLMeshRequest) (*pb.SubSTLMeshReply, error) {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
 	// If there is no model on disk with the same coordinates, return an error.
 	modelFilename := filename(in.GetVoxelRegion())
 	// Load the model binvox file from disk.
@@ -99,7 +108,9 @@ func (s *server) SubSTLMesh(ctx context.Context, in *pb.SubSTLMeshRequest) (*pb.
 func (s *server) GetSTLMesh(ctx context.Context, in *pb.GetSTLMeshRequest) (*pb.GetSTLMeshReply, error) {
 	// Load the model binvox file from disk.
 	modelFilename := filename(in.GetVoxelRegion())
+	s.mu.Lock()
 	base, err := binvox.Read(modelFilename, 0, 0, 0, 0, 0, 0)
+	s.mu.Unlock()
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 595f787f5da97303926b48547d0c4ee9155e5b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:13 +0000
Subject: [PATCH 58/73] fix: stldice servers listen on the port given by -port

---
 server/stldice-master/stldice-master.go | 2 ++
 server/stldice-slave/stldice-slave.go   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/server/stldice-master/stldice-master.go b/server/stldice-master/stldice-master.go
index cf892de..63fd08a 100644
--- a/server/stldice-master/stldice-master.go
+++ b/server/stldice-master/stldice-master.go
@@ -37,6 +37,8 @@ func (s *server) GetSTLMesh(ctx context.Context, in *pb.GetSTLMeshRequest) (*pb.
 }
 
 func main() {
+	flag.Parse()
+
 	lis, err := net.Listen("tcp", *port)
 	if err != nil {
 		log.Fatalf("failed to listen: %v", err)
diff --git a/server/stldice-slave/stldice-slave.go b/server/stldice-slave/stldice-slave.go
index 04fabf3..15ff554 100644
--- a/server/stldice-slave/stldice-slave.go
+++ b/server/stldice-slave/stldice-slave.go
@@ -146,6 +146,8 @@ func (s *server) GetSTLMesh(ctx context.Context, in *pb.GetSTLMeshRequest) (*pb.
 }
 
 func main() {
+	flag.Parse()
+
 	lis, err := net.Listen("tcp", *port)
 	if err != nil {
 		log.Fatalf("failed to listen: %v", err)
-- 
2.43.0


From 5cc83092123e6fa07647e75e9b82c59f0fac0083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:03 +0000
Subject: [PATCH 59/73] fix: voxcut-dice refuses a size that never ends

---
 cmd/voxcut-dice/voxcut-dice.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/voxcut-dice/voxcut-dice.go b/cmd/voxcut-dice/voxcut-dice.go
index 41afde7..39d78a7 100644
--- a/cmd/voxcut-dice/voxcut-dice.go
+++ b/cmd/voxcut-dice/voxcut-dice.go
@@ -35,6 +35,9 @@ func main() {
 	if *binVOXPrefix == "" && *stlPrefix == "" && *voxPrefix == "" {
 		log.Fatal("Must specify at least one of -obinvox, -ostl, or -ovox")
 	}
+	if *size <= 0 {
+		log.Fatalf("size (%v) must be positive", *size)
+	}
 
 	base, err := binvox.Read(flag.Arg(0), 0, 0, 0, 1, 1, 1) // Read only one voxel to get the header info.
 	if err != nil {
-- 
2.43.0


From ee063f85897daa26ce7d43e58b5d76ffff0d517a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:03 +0000
Subject: [PATCH 60/73] fix: binvox-dice refuses a factor or box that gives no
 regions

---
 cmd/binvox-dice/binvox-dice.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cmd/binvox-dice/binvox-dice.go b/cmd/binvox-dice/binvox-dice.go
index b59255a..725cdba 100644
--- a/cmd/binvox-dice/binvox-dice.go
+++ b/cmd/binvox-dice/binvox-dice.go
@@ -47,6 +47,9 @@ func main() {
 	if flag.NArg() < 1 {
 		log.Fatal("Must supply at least one filename")
 	}
+	if *factor < 1 {
+		log.Fatalf("factor (%v) must be positive", *factor)
+	}
 
 	parts := mbbRE.FindStringSubmatch(*mbbString)
 	if len(parts) != 7 {
@@ -77,6 +80,10 @@ func main() {
 		log.Fatalf("unable to parse mbb %v: %v", parts[6], err)
 	}
 
+	if !(llx < urx && lly < ury && llz < urz) {
+		log.Fatalf("mbb %q holds nothing", *mbbString)
+	}
+
 	fmt.Println("#!/bin/bash -x")
 	fmt.Println("# Generated with command line:")
 	fmt.Printf("# binvox-dice \\\n#\t-factor %v \\\n#\t-mbb %q \\\n#\t-subx %v \\\n#\t-suby %v \\\n#\t-subz %v \\\n#\t%v\n", *factor, *mbbString, *subX, *subY, *subZ, strings.Join(flag.Args(), " "))
-- 
2.43.0


From d534600353207bb688bb72bbb2d3192907961f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:05 +0000
Subject: [PATCH 61/73] fix: stldice and stldice-mr refuse parameters that
 describe no grid

---
 cmd/stldice-mr/stldice-mr.go | 7 +++++++
 cmd/stldice/stldice.go       | 6 ++++++
 2 files changed, 13 insertions(+)

diff --git a/cmd/stldice-mr/stldice-mr.go b/cmd/stldice-mr/stldice-mr.go
index d4e20ad..475d2fb 100644
--- a/cmd/stldice-mr/stldice-mr.go
+++ b/cmd/stldice-mr/stldice-mr.go
@@ -51,6 +51,9 @@ func main() {
 	if *stl == "" {
 		log.Fatalf("empty -stl flag")
 	}
+	if *dim < 1 || *nX < 1 || *nY < 1 || *nZ < 1 {
+		log.Fatal("dim, nx, ny, and nz must be positive")
+	}
 
 	ch, err := generateMR(strings.Split(*stl, ","))
 	if err != nil {
@@ -106,6 +109,10 @@ func generateMR(args []string) (chan interface{}, error) {
 					scale = dz
 				}
 
+				if !(scale > 0) || math.IsInf(scale, 0) {
+					log.Fatalf("unable to voxelize a model of size %v", scale)
+				}
+
 				vpmm := float64(*dim) / scale // voxels per millimeter
 				mmpv = 1.0 / vpmm             // millimeters per voxel
 				modelDimInMM := mbb.Size()
diff --git a/cmd/stldice/stldice.go b/cmd/stldice/stldice.go
index 2b9b4fb..7985aea 100644
--- a/cmd/stldice/stldice.go
+++ b/cmd/stldice/stldice.go
@@ -44,6 +44,9 @@ func main() {
 	if flag.NArg() < 1 {
 		log.Fatal("Must supply at least one filename")
 	}
+	if *dim < 1 || *nX < 1 || *nY < 1 || *nZ < 1 {
+		log.Fatal("dim, nx, ny, and nz must be positive")
+	}
 	if *dim%*nX != 0 || *dim%*nY != 0 || *dim%*nZ != 0 {
 		log.Fatal("dim must be an integral multiple of nx, ny, and nz")
 	}
@@ -215,5 +218,8 @@ func parseMBB(s string) (mbb *gl.Box, err error) {
 	if mbb.Max.Z, err = strconv.ParseFloat(parts[6], 64); err != nil {
 		return nil, fmt.Errorf("invalid number %v: %v", parts[6], err)
 	}
+	if !(mbb.Min.X < mbb.Max.X && mbb.Min.Y < mbb.Max.Y && mbb.Min.Z < mbb.Max.Z) {
+		return nil, fmt.Errorf("box %q holds nothing", s)
+	}
 	return mbb, nil
 }
-- 
2.43.0


From 9066c2e60421d5b4cd5dcdd8b3eb6e851674a319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:53 +0000
Subject: [PATCH 62/73] fix: tools that dice STL files refuse truncated and
 malformed ones

---
 cmd/stldice-mr/stldice-mr.go             | 3 ++-
 cmd/stldice/stldice.go                   | 3 ++-
 stl/stl.go                               | 6 +++---
 stl2svx/stl2svx-client/stl2svx-client.go | 4 ++--
 4 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/cmd/stldice-mr/stldice-mr.go b/cmd/stldice-mr/stldice-mr.go
index 475d2fb..40e600b 100644
--- a/cmd/stldice-mr/stldice-mr.go
+++ b/cmd/stldice-mr/stldice-mr.go
@@ -21,6 +21,7 @@ import (
 	gl "github.com/fogleman/fauxgl"
 	"github.com/gmlewis/stldice/v4/binvox"
 	"github.com/gmlewis/stldice/v4/mr"
+	stlutil "github.com/gmlewis/stldice/v4/stl"
 	"github.com/golang/protobuf/proto"
 )
 
@@ -93,7 +94,7 @@ func generateMR(args []string) (chan interface{}, error) {
 
 		for i, arg := range args {
 			log.Printf("voxelize: loading file %q...", arg)
-			mesh, err := gl.LoadSTL(arg)
+			mesh, err := stlutil.Load(arg)
 			if err != nil {
 				log.Fatalf("Unable to load file %q: %v", arg, err)
 			}
diff --git a/cmd/stldice/stldice.go b/cmd/stldice/stldice.go
index 7985aea..3571805 100644
--- a/cmd/stldice/stldice.go
+++ b/cmd/stldice/stldice.go
@@ -20,6 +20,7 @@ import (
 
 	gl "github.com/fogleman/fauxgl"
 	"github.com/gmlewis/stldice/v4/binvox"
+	"github.com/gmlewis/stldice/v4/stl"
 )
 
 var (
@@ -64,7 +65,7 @@ func main() {
 	prefixes := map[string]bool{}
 	for _, arg := range flag.Args() {
 		log.Printf("Loading file %q...", arg)
-		mesh, err := gl.LoadSTL(arg)
+		mesh, err := stl.Load(arg)
 		if err != nil {
 			log.Fatalf("Unable to load file %q: %v", arg, err)
 		}
diff --git a/stl/stl.go b/stl/stl.go
index bfda031..c7ed0e0 100644
--- a/stl/stl.go
+++ b/stl/stl.go
@@ -58,7 +58,7 @@ func Merge(files []string, numWorkers int) (mesh *gl.Mesh, err error) {
 
 // merge merges STL files using the provided addFunc.
 func merge(filename string, addFunc func(mesh *gl.Mesh)) error {
-	mesh, err := load(filename)
+	mesh, err := Load(filename)
 	if err != nil {
 		return err
 	}
@@ -67,10 +67,10 @@ func merge(filename string, addFunc func(mesh *gl.Mesh)) error {
 	return nil
 }
 
-// load loads an STL file. A file that is neither a complete binary nor a
+// Load loads an STL file. A file that is neither a complete binary nor a
 // complete ASCII STL file, which LoadSTL takes for an ASCII file without
 // triangles or panics on, is an error.
-func load(filename string) (mesh *gl.Mesh, err error) {
+func Load(filename string) (mesh *gl.Mesh, err error) {
 	defer func() {
 		if r := recover(); r != nil {
 			mesh, err = nil, fmt.Errorf("malformed STL file %q: %v", filename, r)
diff --git a/stl2svx/stl2svx-client/stl2svx-client.go b/stl2svx/stl2svx-client/stl2svx-client.go
index ee60034..1d506c5 100644
--- a/stl2svx/stl2svx-client/stl2svx-client.go
+++ b/stl2svx/stl2svx-client/stl2svx-client.go
@@ -11,7 +11,7 @@ import (
 	"path/filepath"
 	"strings"
 
-	gl "github.com/fogleman/fauxgl"
+	stlutil "github.com/gmlewis/stldice/v4/stl"
 	pb "github.com/gmlewis/stldice/v4/stl2svx/proto"
 	"golang.org/x/net/context"
 	"google.golang.org/grpc"
@@ -79,7 +79,7 @@ func main() {
 func loadSTL(args []string) (out []*pb.STLFile, err error) {
 	for i, arg := range args {
 		log.Printf("loadSTL: loading file #%v: %v ...", i, arg)
-		mesh, err := gl.LoadSTL(arg)
+		mesh, err := stlutil.Load(arg)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 7027f4223f304a3860bdeaf79aa0e6d82c70345d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:30 +0000
Subject: [PATCH 63/73] fix: stldice-mr fails if an image cannot be written

---
 cmd/stldice-mr/stldice-mr.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/cmd/stldice-mr/stldice-mr.go b/cmd/stldice-mr/stldice-mr.go
index 40e600b..4815882 100644
--- a/cmd/stldice-mr/stldice-mr.go
+++ b/cmd/stldice-mr/stldice-mr.go
@@ -14,10 +14,12 @@ import (
 	"os"
 	"path/filepath"
 	"strings"
+	"sync"
 
 	"github.com/chrislusf/gleam/distributed"
 	"github.com/chrislusf/gleam/flow"
 	"github.com/chrislusf/gleam/gio"
+	"github.com/chrislusf/gleam/util"
 	gl "github.com/fogleman/fauxgl"
 	"github.com/gmlewis/stldice/v4/binvox"
 	"github.com/gmlewis/stldice/v4/mr"
@@ -61,12 +63,19 @@ func main() {
 		log.Fatal(err)
 	}
 
+	var mu sync.Mutex // protects failures
+	var failures []string
 	f := flow.New("stldice-mr").
 		Channel(ch).                       // input source files.
 		Map("voxelizer", MapperVoxelizer). // invoke the registered "voxelizer" mapper function.
 		GroupBy("", flow.Field(1)).        // send all Z values to the same reducer.
 		Map("imager", MapperImager).
-		Fprintf(os.Stderr, "Done.\n") // Needed to force pipeline to run.
+		OutputRow(func(row *util.Row) error { // Needed to force pipeline to run.
+			mu.Lock()
+			defer mu.Unlock()
+			failures = append(failures, gio.ToString(row.V[0]))
+			return nil
+		})
 
 	if *isDistributed {
 		log.Println("Running in distributed mode.")
@@ -78,6 +87,11 @@ func main() {
 		log.Printf("Running in standalone mode.")
 		f.Run()
 	}
+
+	if len(failures) > 0 {
+		log.Fatalf("%v layers failed: %v", len(failures), failures[0])
+	}
+	log.Println("Done.")
 }
 
 // generateMR controls how the MapReduce will run by defining the jobs to
@@ -236,8 +250,15 @@ type pixelKey struct {
 
 // imager takes the voxels from voxelize and creates
 // a 2D image at the provided z height.
-// It outputs an image to disk.
+// It outputs an image to disk, and tells the driver if that fails.
 func imager(row []interface{}) error {
+	if err := writeImage(row); err != nil {
+		return gio.Emit(row[0], err.Error())
+	}
+	return nil
+}
+
+func writeImage(row []interface{}) error {
 	if len(row) == 0 { // GroupBy sends an empty row if there are no voxels.
 		return nil
 	}
-- 
2.43.0


From cb66b9a971099709cf2ef33b338a607bd40057f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:30 +0000
Subject: [PATCH 64/73] fix: stldice leaves no partial region files behind

---
 cmd/stldice/stldice.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/stldice/stldice.go b/cmd/stldice/stldice.go
index 3571805..2757570 100644
--- a/cmd/stldice/stldice.go
+++ b/cmd/stldice/stldice.go
@@ -184,7 +184,12 @@ func diceMesh(mesh *gl.Mesh, mbb *gl.Box, scale float64, dim, nx, ny, nz int, ou
 					continue
 				}
 				log.Printf("Writing %v voxels to %v", len(bv.WhiteVoxels), outFile)
-				if err := bv.Write(outFile, 0, 0, 0, 0, 0, 0); err != nil {
+				tmpFile := outFile + ".tmp" // An interrupted write must not leave a file that the next run skips.
+				if err := bv.Write(tmpFile, 0, 0, 0, 0, 0, 0); err != nil {
+					os.Remove(tmpFile)
+					return nil, err
+				}
+				if err := os.Rename(tmpFile, outFile); err != nil {
 					return nil, err
 				}
 				prefixes = append(prefixes, strings.TrimPrefix(newPrefix, outPrefix))
-- 
2.43.0


From d5faf628af9d9143accc58637c877dd34e91a32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:30 +0000
Subject: [PATCH 65/73] fix: stldice-slave keeps its stored model if it cannot
 store the next one

---
 server/stldice-slave/stldice-slave.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/server/stldice-slave/stldice-slave.go b/server/stldice-slave/stldice-slave.go
index 15ff554..ab0f1ae 100644
--- a/server/stldice-slave/stldice-slave.go
+++ b/server/stldice-slave/stldice-slave.go
@@ -12,6 +12,7 @@ import (
 	"log"
 	"math"
 	"net"
+	"os"
 	"strings"
 	"sync"
 
@@ -57,7 +58,7 @@ func (s *server) AddSTLMesh(ctx context.Context, in *pb.AddSTLMeshRequest) (*pb.
 	modelFilename := filename(in.GetVoxelRegion())
 	base, err := binvox.Read(modelFilename, 0, 0, 0, 0, 0, 0)
 	if err != nil { // No existing model of the same name. Write the new one.
-		if err := addBV.Write(modelFilename, 0, 0, 0, 0, 0, 0); err != nil {
+		if err := save(addBV, modelFilename); err != nil {
 			return nil, err
 		}
 		return &pb.AddSTLMeshReply{}, nil // Success.
@@ -66,7 +67,7 @@ func (s *server) AddSTLMesh(ctx context.Context, in *pb.AddSTLMeshRequest) (*pb.
 	// If there already is a model on disk, load it, add the newly-generated voxels to it, then save it back out,
 	// overwriting the old version.
 	newBase := voxelOp(base, addBV, true)
-	if err := newBase.Write(modelFilename, 0, 0, 0, 0, 0, 0); err != nil {
+	if err := save(newBase, modelFilename); err != nil {
 		return nil, err
 	}
 	return &pb.AddSTLMeshReply{}, nil // Success.
@@ -97,7 +98,7 @@ func (s *server) SubSTLMesh(ctx context.Context, in *pb.SubSTLMeshRequest) (*pb.
 
 	// Cut the base model with this mesh, then save it back out, overwriting the old version.
 	newBase := voxelOp(base, subBV, false)
-	if err := newBase.Write(modelFilename, 0, 0, 0, 0, 0, 0); err != nil {
+	if err := save(newBase, modelFilename); err != nil {
 		return nil, err
 	}
 	return &pb.SubSTLMeshReply{}, nil
@@ -157,6 +158,16 @@ func main() {
 	s.Serve(lis)
 }
 
+// save stores a model, keeping the model stored so far if that fails.
+func save(model *binvox.BinVOX, filename string) error {
+	tmp := filename + ".tmp"
+	if err := model.Write(tmp, 0, 0, 0, 0, 0, 0); err != nil {
+		os.Remove(tmp)
+		return err
+	}
+	return os.Rename(tmp, filename)
+}
+
 // filename returns the model filename for the given VoxelRegion.
 func filename(voxelRegion *pb.VoxelRegion) string {
 	return fmt.Sprintf("%v-%v-%v-%v-%v-%v-%v-%v-%v-%v.binvox", modelFilePrefix,
-- 
2.43.0


From 2c09de43f4a2a682ea6299ac02d9613593bb6a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:31 +0000
Subject: [PATCH 66/73] fix: stldice-slave refuses truncated binary STL

---
 server/stldice-slave/stldice-slave.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/server/stldice-slave/stldice-slave.go b/server/stldice-slave/stldice-slave.go
index ab0f1ae..a7ec05b 100644
--- a/server/stldice-slave/stldice-slave.go
+++ b/server/stldice-slave/stldice-slave.go
@@ -197,7 +197,11 @@ func stlToMesh(buf []byte) (*gl.Mesh, error) {
 	if size == expectedSize {
 		return loadSTLB(f)
 	}
-	return loadSTLA(f)
+	mesh, err := loadSTLA(f)
+	if err == nil && len(mesh.Triangles) == 0 && !bytes.Contains(buf, []byte("endsolid")) {
+		return nil, fmt.Errorf("malformed STL file: no triangles")
+	}
+	return mesh, err
 }
 
 // parse ASCII STL data.
-- 
2.43.0


From 0f3a9f372fc9a33bdf7090af65987d47383ce299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:10 +0000
Subject: [PATCH 67/73] fix: stl2svx-client reports the error in the master's
 reply

---
 stl2svx/stl2svx-client/stl2svx-client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stl2svx/stl2svx-client/stl2svx-client.go b/stl2svx/stl2svx-client/stl2svx-client.go
index 1d506c5..0ed6082 100644
--- a/stl2svx/stl2svx-client/stl2svx-client.go
+++ b/stl2svx/stl2svx-client/stl2svx-client.go
@@ -66,6 +66,9 @@ func main() {
 	if err != nil {
 		log.Fatalf("master: %v", err)
 	}
+	if resp.GetError() != "" {
+		log.Fatalf("master: %v", resp.GetError())
+	}
 
 	outFile := fmt.Sprintf("%v-%v-%v-%v-%v.svx", *prefix, *dim, *nX, *nY, *nZ)
 	log.Printf("Writing SVX file %v ...", outFile)
-- 
2.43.0


From d6a80edea1bc8c58a77b009561906beea7dd0fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:08 +0000
Subject: [PATCH 68/73] fix: incomplete ASCII STL files are refused

---
 server/stldice-slave/stldice-slave.go | 11 ++--
 stl/stl.go                            | 83 +++++++++++++++++++++------
 2 files changed, 68 insertions(+), 26 deletions(-)

diff --git a/server/stldice-slave/stldice-slave.go b/server/stldice-slave/stldice-slave.go
index a7ec05b..0ae421e 100644
--- a/server/stldice-slave/stldice-slave.go
+++ b/server/stldice-slave/stldice-slave.go
@@ -18,6 +18,7 @@ import (
 
 	gl "github.com/fogleman/fauxgl"
 	"github.com/gmlewis/stldice/v4/binvox"
+	"github.com/gmlewis/stldice/v4/stl"
 	pb "github.com/gmlewis/stldice/v4/stldice"
 	"golang.org/x/net/context"
 	"google.golang.org/grpc"
@@ -197,11 +198,10 @@ func stlToMesh(buf []byte) (*gl.Mesh, error) {
 	if size == expectedSize {
 		return loadSTLB(f)
 	}
-	mesh, err := loadSTLA(f)
-	if err == nil && len(mesh.Triangles) == 0 && !bytes.Contains(buf, []byte("endsolid")) {
-		return nil, fmt.Errorf("malformed STL file: no triangles")
+	if err := stl.CheckASCII(bytes.NewReader(buf)); err != nil {
+		return nil, fmt.Errorf("malformed STL file: %v", err)
 	}
-	return mesh, err
+	return loadSTLA(f)
 }
 
 // parse ASCII STL data.
@@ -216,9 +216,6 @@ func loadSTLA(r io.Reader) (*gl.Mesh, error) {
 			vertexes = append(vertexes, gl.Vector{f[0], f[1], f[2]})
 		}
 	}
-	if len(vertexes)%3 != 0 {
-		return nil, fmt.Errorf("malformed STL file: %v vertices", len(vertexes))
-	}
 	var triangles []*gl.Triangle
 	for i := 0; i < len(vertexes); i += 3 {
 		t := gl.Triangle{}
diff --git a/stl/stl.go b/stl/stl.go
index c7ed0e0..420a757 100644
--- a/stl/stl.go
+++ b/stl/stl.go
@@ -2,12 +2,15 @@
 package stl
 
 import (
-	"bytes"
+	"bufio"
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"io"
 	"log"
 	"os"
+	"strconv"
+	"strings"
 	"sync"
 
 	gl "github.com/fogleman/fauxgl"
@@ -68,28 +71,70 @@ func merge(filename string, addFunc func(mesh *gl.Mesh)) error {
 }
 
 // Load loads an STL file. A file that is neither a complete binary nor a
-// complete ASCII STL file, which LoadSTL takes for an ASCII file without
-// triangles or panics on, is an error.
-func Load(filename string) (mesh *gl.Mesh, err error) {
-	defer func() {
-		if r := recover(); r != nil {
-			mesh, err = nil, fmt.Errorf("malformed STL file %q: %v", filename, r)
-		}
-	}()
-	if mesh, err = gl.LoadSTL(filename); err != nil || len(mesh.Triangles) > 0 {
-		return mesh, err
+// complete ASCII STL file, of which LoadSTL takes what it finds, is an error.
+func Load(filename string) (*gl.Mesh, error) {
+	if err := check(filename); err != nil {
+		return nil, fmt.Errorf("unable to load STL file %q: %v", filename, err)
 	}
-	buf, err := os.ReadFile(filename)
+	return gl.LoadSTL(filename)
+}
+
+// check reports whether a file is a complete STL file.
+func check(filename string) error {
+	f, err := os.Open(filename)
 	if err != nil {
-		return nil, err
+		return err
 	}
-	if !isEmptyBinary(buf) && !bytes.Contains(buf, []byte("endsolid")) {
-		return nil, fmt.Errorf("malformed STL file %q: no triangles", filename)
+	defer f.Close()
+	info, err := f.Stat()
+	if err != nil {
+		return err
 	}
-	return mesh, nil
+	var header gl.STLHeader
+	if err := binary.Read(f, binary.LittleEndian, &header); err != nil {
+		return err
+	}
+	if info.Size() == int64(header.Count)*50+84 {
+		return nil // a binary file
+	}
+	if _, err := f.Seek(0, io.SeekStart); err != nil {
+		return err
+	}
+	return CheckASCII(f)
 }
 
-// isEmptyBinary reports whether buf is a binary STL file without triangles.
-func isEmptyBinary(buf []byte) bool {
-	return len(buf) == 84 && binary.LittleEndian.Uint32(buf[80:]) == 0
+// CheckASCII reports whether r is a complete ASCII STL file.
+func CheckASCII(r io.Reader) error {
+	var vertices int
+	var ended bool
+	scanner := bufio.NewScanner(r)
+	for scanner.Scan() {
+		fields := strings.Fields(scanner.Text())
+		if len(fields) == 0 {
+			continue
+		}
+		switch fields[0] {
+		case "vertex":
+			if len(fields) != 4 {
+				return fmt.Errorf("vertex with %v coordinates", len(fields)-1)
+			}
+			for _, v := range fields[1:] {
+				if _, err := strconv.ParseFloat(v, 64); err != nil {
+					return err
+				}
+			}
+			vertices++
+		case "solid":
+			ended = false
+		case "endsolid":
+			ended = true
+		}
+	}
+	if err := scanner.Err(); err != nil {
+		return err
+	}
+	if !ended || vertices%3 != 0 {
+		return fmt.Errorf("incomplete after %v vertices", vertices)
+	}
+	return nil
 }
-- 
2.43.0


From c6e0e2ec48147401557dcf7f38fab40bc60a28f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:17 +0000
Subject: [PATCH 69/73] fix: printed commands quote file names for the shell

---
 cmd/binvox-dice/binvox-dice.go | 22 ++++++++++++++--------
 cmd/stldice/stldice.go         | 16 ++++++++++++----
 cmd/voxcut-dice/voxcut-dice.go | 14 +++++++++++++-
 3 files changed, 39 insertions(+), 13 deletions(-)

diff --git a/cmd/binvox-dice/binvox-dice.go b/cmd/binvox-dice/binvox-dice.go
index 725cdba..02b2eb0 100644
--- a/cmd/binvox-dice/binvox-dice.go
+++ b/cmd/binvox-dice/binvox-dice.go
@@ -101,12 +101,6 @@ func main() {
 		zf = 1
 	}
 
-	sFmt := "voxcut -ostl out%[1]v.stl"
-	for _, arg := range flag.Args() {
-		a := strings.TrimSuffix(arg, ".stl")
-		sFmt += " " + a + "%[1]v.binvox"
-	}
-
 	var numCuts int
 	for zi := 0; zi < zf; zi++ {
 		z1 := gl.V(0, 0, llz).Lerp(gl.V(0, 0, urz), float64(zi)/float64(zf)).Z
@@ -119,7 +113,7 @@ func main() {
 				x2 := gl.V(0, 0, llx).Lerp(gl.V(0, 0, urx), float64(xi+1)/float64(xf)).Z
 				fmt.Println()
 				for _, arg := range flag.Args() {
-					fmt.Printf("binvox -pb -d %v -bb %g %g %g %g %g %g %v\n", maxD, x1, y1, z1, x2, y2, z2, arg)
+					fmt.Printf("binvox -pb -d %v -bb %g %g %g %g %g %g %v\n", maxD, x1, y1, z1, x2, y2, z2, quote(arg))
 				}
 
 				// Now output the voxcut commands to process all the .binvox files...
@@ -127,10 +121,22 @@ func main() {
 				if numCuts > 0 {
 					c = fmt.Sprintf("_%v", numCuts)
 				}
-				fmt.Printf(sFmt+"\n", c)
+				fmt.Printf("voxcut -ostl out%v.stl", c)
+				for _, arg := range flag.Args() {
+					fmt.Printf(" %v", quote(strings.TrimSuffix(arg, ".stl")+c+".binvox"))
+				}
+				fmt.Println()
 
 				numCuts++
 			}
 		}
 	}
 }
+
+// quote returns s such that a shell takes it as one word.
+func quote(s string) string {
+	if s != "" && !strings.ContainsAny(s, " \t\n!\"#$&'()*;<>?[\\]^`{|}~") {
+		return s
+	}
+	return "'" + strings.ReplaceAll(s, "'", `'\''`) + "'"
+}
diff --git a/cmd/stldice/stldice.go b/cmd/stldice/stldice.go
index 2757570..8b4a1be 100644
--- a/cmd/stldice/stldice.go
+++ b/cmd/stldice/stldice.go
@@ -110,19 +110,27 @@ func main() {
 	}
 	common := fmt.Sprintf("%v-%v-%v-%v", *dim, *nX, *nY, *nZ)
 	for _, v := range pfxs {
-		fmt.Printf("voxcut -ostl %[1]v-%[4]v%[3]v.stl %[2]v-%[4]v%[3]v.binvox", stlOutPrefix, strings.TrimSuffix(flag.Arg(0), ".stl"), v, common)
-		for _, arg := range flag.Args()[1:] {
-			fmt.Printf(" %v-%v%v.binvox", strings.TrimSuffix(arg, ".stl"), common, v)
+		fmt.Printf("voxcut -ostl %v", quote(fmt.Sprintf("%v-%v%v.stl", stlOutPrefix, common, v)))
+		for _, arg := range flag.Args() {
+			fmt.Printf(" %v", quote(fmt.Sprintf("%v-%v%v.binvox", strings.TrimSuffix(arg, ".stl"), common, v)))
 		}
 		fmt.Println()
 	}
 	if len(pfxs) > 1 { // Merge all the STL files back together
-		fmt.Printf("merge-stl -f -prefix %v-%v\n", stlOutPrefix, common)
+		fmt.Printf("merge-stl -f -prefix %v\n", quote(fmt.Sprintf("%v-%v", stlOutPrefix, common)))
 	}
 
 	log.Println("Done.")
 }
 
+// quote returns s such that a shell takes it as one word.
+func quote(s string) string {
+	if s != "" && !strings.ContainsAny(s, " \t\n!\"#$&'()*;<>?[\\]^`{|}~") {
+		return s
+	}
+	return "'" + strings.ReplaceAll(s, "'", `'\''`) + "'"
+}
+
 // diceMesh dices a mesh into voxelized regions and writes the regions into .binvox files.
 // nx, ny, nz are the number of divisions for each dimension.
 // prefixes are the file prefixes that were generated.
diff --git a/cmd/voxcut-dice/voxcut-dice.go b/cmd/voxcut-dice/voxcut-dice.go
index 39d78a7..24dd255 100644
--- a/cmd/voxcut-dice/voxcut-dice.go
+++ b/cmd/voxcut-dice/voxcut-dice.go
@@ -73,7 +73,11 @@ func main() {
 				args = append(args, flag.Args()...)
 
 				if *dryRun {
-					fmt.Println(strings.Join(args, " "))
+					words := make([]string, len(args))
+					for i, arg := range args {
+						words[i] = quote(arg)
+					}
+					fmt.Println(strings.Join(words, " "))
 					continue
 				}
 				log.Printf("\n\nRunning: %v", strings.Join(args, " "))
@@ -87,3 +91,11 @@ func main() {
 		}
 	}
 }
+
+// quote returns s such that a shell takes it as one word.
+func quote(s string) string {
+	if s != "" && !strings.ContainsAny(s, " \t\n!\"#$&'()*;<>?[\\]^`{|}~") {
+		return s
+	}
+	return "'" + strings.ReplaceAll(s, "'", `'\''`) + "'"
+}
-- 
2.43.0


From 8cdb1e3c939e5c5007b58b1d52516c1b31d78c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:25 +0000
Subject: [PATCH 70/73] fix: merging STL files without workers is refused

---
 stl/stl.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stl/stl.go b/stl/stl.go
index 420a757..53f123a 100644
--- a/stl/stl.go
+++ b/stl/stl.go
@@ -21,6 +21,9 @@ func Merge(files []string, numWorkers int) (mesh *gl.Mesh, err error) {
 	if len(files) == 0 {
 		return nil, errors.New("no files to merge")
 	}
+	if numWorkers < 1 {
+		return nil, fmt.Errorf("invalid number of workers: %v", numWorkers)
+	}
 
 	var wg sync.WaitGroup
 	ch := make(chan struct{}, numWorkers)
-- 
2.43.0


From 290f0c5f49b591d594281d7bd3282ea90df356cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:25 +0000
Subject: [PATCH 71/73] fix: svx2stl without files is refused

---
 cmd/svx2stl/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/svx2stl/main.go b/cmd/svx2stl/main.go
index 00937c0..2680f33 100644
--- a/cmd/svx2stl/main.go
+++ b/cmd/svx2stl/main.go
@@ -36,6 +36,10 @@ func main() {
 	}
 	flag.Parse()
 
+	if flag.NArg() < 1 {
+		log.Fatal("Must supply at least one filename")
+	}
+
 	for _, svxFile := range flag.Args() {
 		stlFile := strings.TrimSuffix(svxFile, ".svx") + ".stl"
 
-- 
2.43.0


From 446a1a97688cbd604268a9520c6f8606f4bfb5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:06 +0000
Subject: [PATCH 72/73] fix: merge-stl takes its prefix literally

A prefix with characters that a file name pattern treats specially, such as
that of a model called part[2].stl in the script that stldice prints, matched
none of the files to merge.
---
 cmd/merge-stl/merge-stl.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/merge-stl/merge-stl.go b/cmd/merge-stl/merge-stl.go
index 72c0f0e..9014a85 100644
--- a/cmd/merge-stl/merge-stl.go
+++ b/cmd/merge-stl/merge-stl.go
@@ -8,6 +8,7 @@ import (
 	"log"
 	"os"
 	"path/filepath"
+	"strings"
 
 	"github.com/gmlewis/stldice/v4/stl"
 )
@@ -16,6 +17,9 @@ var (
 	force      = flag.Bool("f", false, "Force overwrite of output file")
 	numWorkers = flag.Int("num", 10, "Number of workers to use for work pool (default=10)")
 	prefix     = flag.String("prefix", "out", "Prefix of files to merge and name of .stl file to write (default='out')")
+
+	// globEscaper makes filepath.Glob take a prefix literally.
+	globEscaper = strings.NewReplacer(`*`, `\*`, `?`, `\?`, `[`, `\[`, `\`, `\\`)
 )
 
 func main() {
@@ -26,7 +30,7 @@ func main() {
 	}
 	flag.Parse()
 
-	files, err := filepath.Glob(*prefix + "*.stl")
+	files, err := filepath.Glob(globEscaper.Replace(*prefix) + "*.stl")
 	if err != nil {
 		log.Fatalf("No files found matching %v*.stl", *prefix)
 	}
-- 
2.43.0


From befa92c6137d22ff989759ceefee855090668c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:06 +0000
Subject: [PATCH 73/73] fix: merge-binvox takes its prefix literally

A prefix with characters that a file name pattern treats specially matched
none of the files to merge.
---
 cmd/merge-binvox/merge-binvox.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/merge-binvox/merge-binvox.go b/cmd/merge-binvox/merge-binvox.go
index dd86a25..39d5a6e 100644
--- a/cmd/merge-binvox/merge-binvox.go
+++ b/cmd/merge-binvox/merge-binvox.go
@@ -9,6 +9,7 @@ import (
 	"log"
 	"os"
 	"path/filepath"
+	"strings"
 
 	"github.com/gmlewis/stldice/v4/vshell"
 )
@@ -16,6 +17,9 @@ import (
 var (
 	force  = flag.Bool("f", false, "Force overwrite of output file")
 	prefix = flag.String("prefix", "out", "Prefix of files to merge and name of .vsh file to write (default='out')")
+
+	// globEscaper makes filepath.Glob take a prefix literally.
+	globEscaper = strings.NewReplacer(`*`, `\*`, `?`, `\?`, `[`, `\[`, `\`, `\\`)
 )
 
 func main() {
@@ -26,7 +30,7 @@ func main() {
 	}
 	flag.Parse()
 
-	files, err := filepath.Glob(*prefix + "*.binvox")
+	files, err := filepath.Glob(globEscaper.Replace(*prefix) + "*.binvox")
 	if err != nil {
 		log.Fatalf("No files found matching %v*.binvox", *prefix)
 	}
-- 
2.43.0


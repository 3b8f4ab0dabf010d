From 9640d7f74e93c5b1e50bbeac3afe7f75fc0f028d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:48 +0000
Subject: [PATCH 01/31] fix: anti-aliasing samples were never initialised per
 pixel and pass

Every anti-aliased sample used the same sub-pixel position, because the
context initialised all its sequences except the anti-aliasing one. Initialise
it as well, with bases of its own so that the position inside the pixel is not
correlated with the samples used for lighting.
---
 tracer/ctx.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tracer/ctx.go b/tracer/ctx.go
index f932c68..5be3f68 100644
--- a/tracer/ctx.go
+++ b/tracer/ctx.go
@@ -50,7 +50,7 @@ func NewCtx(numPix int) *Ctx {
 		sequence2: sequence.NewHalton(5, 7, 1, sh),
 		sequence3: sequence.PseudoRandom(),
 		sequenceL: sequence.NewHalton(5, 7, 11, sh),
-		AA:        sequence.NewHalton(2, 3, 1, sh),
+		AA:        sequence.NewHalton(11, 13, 1, sh), // bases not shared with sequence1,2: pixel position must not correlate with scattering
 		rays:      pool{new: func() interface{} { return new(Ray) }},
 	}
 
@@ -69,6 +69,7 @@ func (c *Ctx) Init(pixel, pass int) {
 	c.sequence2.Init(pixel, pass)
 	c.sequence3.Init(pixel, pass)
 	c.sequenceL.Init(pixel, pass)
+	c.AA.Init(pixel, pass)
 }
 
 func (c *Ctx) Generate2() (u, v float64) {
-- 
2.43.0


From 9cd08be56575875643bc70e137db7b157b20432f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:20 +0000
Subject: [PATCH 02/31] fix: small trees reported a hit at infinity, without
 material, when all members are missed

---
 tracer/objects/tree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tracer/objects/tree.go b/tracer/objects/tree.go
index f4aef4f..9c7c87f 100644
--- a/tracer/objects/tree.go
+++ b/tracer/objects/tree.go
@@ -94,6 +94,9 @@ func (n *node) Intersect(r *Ray) HitRecord {
 				front = frag
 			}
 		}
+		if front.T == 9e99 {
+			front.T = 0
+		}
 		return front
 	}
 
-- 
2.43.0


From 47f369fcf32669fddb223971cea0a6287833c54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:51 +0000
Subject: [PATCH 03/31] fix: bounding boxes were missed by rays starting
 exactly on one of their faces

---
 tracer/objects/boundingbox.go | 3 ++-
 tracer/objects/tree.go        | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/tracer/objects/boundingbox.go b/tracer/objects/boundingbox.go
index 521a14b..8b4f51c 100644
--- a/tracer/objects/boundingbox.go
+++ b/tracer/objects/boundingbox.go
@@ -138,7 +138,8 @@ func (s *BoundingBox) intersect(r *Ray) float64 {
 }
 
 func (s *BoundingBox) intersects(r *Ray) bool {
-	return s.intersect(r) > 0
+	_, exit := intersectAABB2(s, r) // not s.intersect: it is 0 if r starts on a face, going in
+	return exit > 0
 }
 
 func max3(x, y, z float64) float64 {
diff --git a/tracer/objects/tree.go b/tracer/objects/tree.go
index 9c7c87f..bcd7e9c 100644
--- a/tracer/objects/tree.go
+++ b/tracer/objects/tree.go
@@ -249,7 +249,7 @@ func intersectAABBf(s *boundingBoxf, r *Ray) float64 {
 	if ten > tex {
 		return 0
 	}
-	if ten < 0 {
+	if ten <= 0 { // starts inside, or on a face going in
 		return tex
 	}
 	return ten
-- 
2.43.0


From 0ba0353cc5b6bd5ea5d25b05d1d0626431da1f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:28 +0000
Subject: [PATCH 04/31] fix: meshes had gaps where axis-parallel rays met a
 face between two tree nodes

---
 tracer/objects/tree.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/tracer/objects/tree.go b/tracer/objects/tree.go
index bcd7e9c..25fe087 100644
--- a/tracer/objects/tree.go
+++ b/tracer/objects/tree.go
@@ -1,6 +1,7 @@
 package objects
 
 import (
+	"math"
 	"sort"
 
 	"github.com/barnex/bruteray/geom"
@@ -13,9 +14,9 @@ const maxFacePerLeaf = 7
 // Tree returns a Bounding Volume Hierarchy containing the given objects,
 // which as an efficient Intersect method.
 func Tree(objects ...Interface) Interface {
-	return &tree{
-		root: buildTree(objects),
-	}
+	root := buildTree(objects)
+	root.addMargin()
+	return &tree{root: root}
 }
 
 type tree struct {
@@ -56,6 +57,22 @@ func buildTree(ch []Interface) node {
 	}
 }
 
+// addMargin enlarges the bounding boxes below n just enough that no surface lies exactly in
+// a face of the box: rays that run inside such a face are not reported to intersect the box.
+func (n *node) addMargin() {
+	if n.children == nil {
+		return
+	}
+	for i := range n.children {
+		c := &n.children[i]
+		for j := range c.boundingBox.Min {
+			c.boundingBox.Min[j] = math.Nextafter32(c.boundingBox.Min[j], float32(-inf))
+			c.boundingBox.Max[j] = math.Nextafter32(c.boundingBox.Max[j], float32(inf))
+		}
+		c.addMargin()
+	}
+}
+
 func (t *tree) Intersect(r *Ray) HitRecord {
 	if intersectAABBf(&t.root.boundingBox, r) <= 0 { // TODO: and ray Len
 		return HitRecord{}
-- 
2.43.0


From db5eff59ba8904729b0a15da9b13e793ab7f0af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:49 +0000
Subject: [PATCH 05/31] fix: transforming an object of infinite extent panicked

---
 tracer/objects/transformed.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/tracer/objects/transformed.go b/tracer/objects/transformed.go
index 0392af8..c042e24 100644
--- a/tracer/objects/transformed.go
+++ b/tracer/objects/transformed.go
@@ -3,6 +3,7 @@ package objects
 import (
 	"github.com/barnex/bruteray/geom"
 	. "github.com/barnex/bruteray/tracer/types"
+	"github.com/barnex/bruteray/util"
 )
 
 // Transformed returns a transformed instance of the original object.
@@ -63,6 +64,9 @@ func (o *transformed) Inside(p Vec) bool {
 }
 
 func transformBounds(orig BoundingBox, t *geom.AffineTransform) BoundingBox {
+	if !orig.isFinite() {
+		return transformInfBounds(orig, t)
+	}
 	h := orig.hull()
 	for i := range h {
 		h[i] = t.TransformPoint(h[i])
@@ -70,6 +74,26 @@ func transformBounds(orig BoundingBox, t *geom.AffineTransform) BoundingBox {
 	return boundingBoxFromHull(h)
 }
 
+// transformInfBounds is like transformBounds, for boxes extending to infinity.
+func transformInfBounds(orig BoundingBox, t *geom.AffineTransform) BoundingBox {
+	bb := BoundingBox{Min: t.B, Max: t.B}
+	for i := range bb.Min {
+		for j := range orig.Min {
+			a := t.A[j][i]
+			if a == 0 {
+				continue // not 0*inf
+			}
+			bb.Min[i] += util.Min(a*orig.Min[j], a*orig.Max[j])
+			bb.Max[i] += util.Max(a*orig.Min[j], a*orig.Max[j])
+		}
+	}
+	return bb
+}
+
+func (B BoundingBox) isFinite() bool {
+	return !util.IsBadVec(B.Min) && !util.IsBadVec(B.Max)
+}
+
 func (B BoundingBox) hull() []Vec {
 	a := B.Min
 	b := B.Max
-- 
2.43.0


From 19f8a555c3ab75684fb2dcacdc675db71985e448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:34 +0000
Subject: [PATCH 06/31] fix: height field normals were wrong unless the field
 was one unit wide and deep

---
 tracer/objects/isosurface.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracer/objects/isosurface.go b/tracer/objects/isosurface.go
index cddcc05..73c88fc 100644
--- a/tracer/objects/isosurface.go
+++ b/tracer/objects/isosurface.go
@@ -103,7 +103,7 @@ func (f *isoSurface) partialAtUV(uv Vec2) Vec2 {
 // TODO: precompute and store
 func (f *isoSurface) normalAtUV(uv Vec2) Vec {
 	diff := f.partialAtUV(uv)
-	return Vec{-diff[0], 1, -diff[1]}
+	return Vec{-diff[0] / f.bounds.Max[X], 1, -diff[1] / f.bounds.Max[Z]} // slope along X and Z, not u and v
 }
 
 func (o *isoSurface) localUV(p Vec) Vec2 {
-- 
2.43.0


From 3cd72c64bcdd5bc07b9474f7a6aa72af568c193f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:20 +0000
Subject: [PATCH 07/31] fix: capped cylinders had gaps along the four lines
 where they touch their box

---
 tracer/objects/quadric.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tracer/objects/quadric.go b/tracer/objects/quadric.go
index c56c399..10ebc2e 100644
--- a/tracer/objects/quadric.go
+++ b/tracer/objects/quadric.go
@@ -57,7 +57,9 @@ func CylinderDir(m Material, dir int, diam, height float64, center Vec) Interfac
 }
 
 func CylinderWithCaps(m Material, diam, height float64, center Vec) Interface {
-	return And(Cylinder(m, diam, height, center), Box(m, diam, height, diam, center))
+	// box slightly wider, so that the cylinder is strictly inside also where it would touch the sides
+	const w = 2 * Tiny
+	return And(Cylinder(m, diam, height, center), Box(m, diam+w, height, diam+w, center))
 }
 
 //var tinyVec = Vec{Tiny, Tiny, Tiny}
-- 
2.43.0


From 494c1d22e1c794c5e80af0193f90050e07ebcea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:30 +0000
Subject: [PATCH 08/31] fix: light leaked through opaque surfaces behind a
 transparent surface of the same object

Scene.Occlude only looked at the first surface of each object. When that one
was transparent, surfaces behind it (e.g. other members of a Tree or of a
CSG combination) neither blocked nor filtered the light.
---
 tracer/scene.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/tracer/scene.go b/tracer/scene.go
index 674eb8a..3bed8be 100644
--- a/tracer/scene.go
+++ b/tracer/scene.go
@@ -119,13 +119,22 @@ func (s *Scene) ObjectsAndLights() []Object {
 
 func (s *Scene) Occlude(r *Ray, len float64, orig Color) Color {
 	for _, o := range s.objects { // range over objects only, lights are considered transparent
-		f := o.Intersect(r)
-		if f.T > 0 && f.T < len {
-			if trans, ok := f.Material.(TransparentMaterial); ok {
-				orig = trans.Filter(r, f, orig)
-			} else {
+		ray, tOff := r, 0.0
+		for {
+			f := o.Intersect(ray)
+			if !(f.T > 0 && tOff+f.T < len) {
+				break
+			}
+			trans, ok := f.Material.(TransparentMaterial)
+			if !ok {
 				return Color{}
 			}
+			orig = trans.Filter(ray, f, orig)
+
+			// The object may have more surfaces behind the transparent one.
+			deltaT := f.T + Tiny
+			tOff += deltaT
+			ray = &Ray{Start: ray.At(deltaT), Dir: r.Dir}
 		}
 	}
 	return orig
-- 
2.43.0


From f050bad6fe7c500ffb56fa02c3d5c5817701f886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:47 +0000
Subject: [PATCH 09/31] fix: cameras with an aperture focused at focusDist
 times the focal length instead of at focusDist

---
 tracer/cameras/projective.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracer/cameras/projective.go b/tracer/cameras/projective.go
index 453ec86..440c27a 100644
--- a/tracer/cameras/projective.go
+++ b/tracer/cameras/projective.go
@@ -78,7 +78,7 @@ func (c *projective) RayFrom(ctx *Ctx, u, v float64) *Ray {
 		c.focalLen,
 	}
 	if c.focusDist != 0 {
-		end = end.Mul(c.focusDist)
+		end = end.Mul(c.focusDist / c.focalLen) // point in the focal plane, at distance focusDist
 	}
 	r.Dir = end.Sub(r.Start).Normalized()
 	return r
-- 
2.43.0


From e2d77ff254aaafd120804565ffa89eb4a662c3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:03 +0000
Subject: [PATCH 10/31] fix: exactly horizontal rays passed through fog
 undimmed

---
 tracer/media/expfog.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tracer/media/expfog.go b/tracer/media/expfog.go
index 6b84033..45cc979 100644
--- a/tracer/media/expfog.go
+++ b/tracer/media/expfog.go
@@ -49,6 +49,12 @@ func intersectIntervals(start1, end1, start2, end2 float64) (start, end float64)
 func intersectHalfSpace(height float64, r *Ray) (ten, tex float64) {
 	rs := r.Start[1] - height
 	rd := r.Dir[1]
+	if rd == 0 { // horizontal: entirely inside or outside
+		if rs < 0 {
+			return math.Inf(-1), math.Inf(1)
+		}
+		return 0, 0
+	}
 	ten = -rs / rd
 	tex = -r.Dir[1] / 0 // inf with same same as
 	if ten > tex {
-- 
2.43.0


From faf56d6fe5239a5cd35219cae37d3d25df9f2fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:25 +0000
Subject: [PATCH 11/31] fix: fog of zero density made rays black (undefined
 brightness)

---
 tracer/media/expfog.go | 2 +-
 tracer/media/fog.go    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tracer/media/expfog.go b/tracer/media/expfog.go
index 45cc979..5e021b8 100644
--- a/tracer/media/expfog.go
+++ b/tracer/media/expfog.go
@@ -26,7 +26,7 @@ func (m *expFog) Filter(ctx *Ctx, s *Scene, r *Ray, tMax float64, orig Color) Co
 	// We only apply fog to the primary ray (coming directly from the camera).
 	// This avoid extremely costly multiple scatterings that don't contribute much.
 	// This causes, a.o., fog to cast no shadow, a reasonable approximation for low-density fog.
-	if !ctx.IsInitial() {
+	if !ctx.IsInitial() || m.density == 0 {
 		return orig
 	}
 	ten, tex := intersectHalfSpace(m.height, r)
diff --git a/tracer/media/fog.go b/tracer/media/fog.go
index 825d2c5..132cdba 100644
--- a/tracer/media/fog.go
+++ b/tracer/media/fog.go
@@ -22,7 +22,7 @@ type fog struct {
 
 // TODO: not correct when camera is in fog?
 func (m *fog) Filter(ctx *Ctx, s *Scene, r *Ray, tMax float64, orig Color) Color {
-	if !ctx.IsInitial() {
+	if !ctx.IsInitial() || m.density == 0 {
 		return orig
 	}
 	ten, tex := intersectHalfSpace(m.height, r)
-- 
2.43.0


From eafe65e887208edd7f7b4eb20e130d8e1c5f68ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:20 +0000
Subject: [PATCH 12/31] fix: cancelling a bake let another one run on the same
 sampler, and a failing bake blocked the server for good

---
 api/server.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/api/server.go b/api/server.go
index 8a48748..4825189 100644
--- a/api/server.go
+++ b/api/server.go
@@ -27,7 +27,8 @@ type server struct {
 	httpServer http.Server
 
 	mu        sync.Mutex
-	cancel    chan struct{}
+	baking    bool          // also after cancel, until the bake has ended
+	cancel    chan struct{} // non-nil while baking and not cancelled
 	smplr     *tracer.Sampler
 	smplrView View // View currently being rendred by smplr
 	smplrNum  int
@@ -95,19 +96,20 @@ func (s *server) renderPreview(v View) imagef.Image {
 }
 
 func (s *server) renderView(v View) (imagef.Image, error) {
-	cancel, err := s.prepareBakery(v)
+	smplr, nPass, cancel, err := s.prepareBakery(v)
 	if err != nil {
 		return nil, err
 	}
-	defer func() { // wrong
+	defer func() {
 		s.mu.Lock()
 		defer s.mu.Unlock()
+		s.baking = false
 		s.cancel = nil
 		s.smplrNum++
 	}()
 
-	s.smplr.SampleWithCancel(s.smplrNum, cancel)
-	img := s.smplr.Image()
+	smplr.SampleWithCancel(nPass, cancel)
+	img := smplr.Image()
 
 	if img == nil {
 		return nil, errors.New("baking cancelled")
@@ -115,14 +117,13 @@ func (s *server) renderView(v View) (imagef.Image, error) {
 	return img, nil
 }
 
-func (s *server) prepareBakery(v View) (chan struct{}, error) {
+func (s *server) prepareBakery(v View) (smplr *tracer.Sampler, nPass int, cancel chan struct{}, err error) {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-	if s.cancel != nil {
-		return nil, errors.New("already baking")
+	if s.baking {
+		return nil, 0, nil, errors.New("already baking")
 	}
-	s.cancel = make(chan struct{})
 
 	if s.smplr == nil || s.smplrView != v {
 		spec := v.ApplyTo(s.spec)
@@ -131,7 +132,10 @@ func (s *server) prepareBakery(v View) (chan struct{}, error) {
 		s.smplrNum = 1
 	}
 
-	return s.cancel, nil
+	// Only now: the above panics if the view cannot be rendered.
+	s.baking = true
+	s.cancel = make(chan struct{})
+	return s.smplr, s.smplrNum, s.cancel, nil
 }
 
 func (s *server) handleCancel(w http.ResponseWriter, r *http.Request) error {
-- 
2.43.0


From 49739c42d154bfd4ed4b82ba345c182d4a2991a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:38 +0000
Subject: [PATCH 13/31] fix: applying a view to a scene without a camera
 crashed instead of using the default camera

---
 api/spec.go | 6 +++++-
 api/view.go | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/api/spec.go b/api/spec.go
index 99f616d..35b5614 100644
--- a/api/spec.go
+++ b/api/spec.go
@@ -55,7 +55,7 @@ func (s *Spec) InitDefaults() {
 		s.NumPass = 1
 	}
 	if s.Camera == nil {
-		s.Camera = Projective(90 * Deg).Translate(V(0, 1, 0))
+		s.Camera = defaultCamera()
 	}
 	if s.Width == 0 && s.Height == 0 {
 		s.Width = defaultImageWidth
@@ -85,6 +85,10 @@ func (s *Spec) InitDefaults() {
 	}
 }
 
+func defaultCamera() tracer.Camera {
+	return Projective(90 * Deg).Translate(V(0, 1, 0))
+}
+
 func (s *Spec) applyMaterial(m tracer.Material) {
 	orig := s.Objects
 	s.Objects = make([]Object, 0, len(orig))
diff --git a/api/view.go b/api/view.go
index 0586130..9ad7e00 100644
--- a/api/view.go
+++ b/api/view.go
@@ -23,6 +23,9 @@ type View struct {
 func (v *View) ApplyTo(s Spec) Spec {
 	s.Width = v.Width
 	s.Height = v.Height
+	if s.Camera == nil {
+		s.Camera = defaultCamera()
+	}
 	s.Camera = cameras.Transform(s.Camera, geom.YawPitchRoll(v.CamYaw, v.CamPitch, 0).A, v.CamPos)
 
 	s.DebugNormals = v.DebugNormals
-- 
2.43.0


From 7785759a781076546b616a826701c8bb7107a952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:28 +0000
Subject: [PATCH 14/31] fix: a star bloom of less than four pixels made all
 bright images undefined

---
 imagef/post/convolution.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/imagef/post/convolution.go b/imagef/post/convolution.go
index 2d617cb..3d84e95 100644
--- a/imagef/post/convolution.go
+++ b/imagef/post/convolution.go
@@ -23,6 +23,9 @@ func AddConvolution(dst, src, kern imagef.Image, amplitude, offset float64) imag
 			sum += (c.R + c.G + c.B) / 3
 		}
 	}
+	if sum == 0 {
+		return dst // e.g. a kernel smaller than one pixel
+	}
 	k := kern.Copy()
 	factor := amplitude / sum
 	for iy := range k {
-- 
2.43.0


From ea88da4e9fb23e3ba4561594d38db30ae215d628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:25 +0000
Subject: [PATCH 15/31] fix: binary PPM encoding ignored write errors

---
 imagef/ppm/ppm.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/imagef/ppm/ppm.go b/imagef/ppm/ppm.go
index 34b3304..9e4959a 100644
--- a/imagef/ppm/ppm.go
+++ b/imagef/ppm/ppm.go
@@ -40,12 +40,12 @@ func Encode48BE(w io.Writer, img imagef.Image) error {
 	for i := range img {
 		for j := range img[i] {
 			c := img[i][j]
-			encodeUint16BE(buf, uint16(trunc(c.R)))
-			w.Write(buf)
-			encodeUint16BE(buf, uint16(trunc(c.G)))
-			w.Write(buf)
-			encodeUint16BE(buf, uint16(trunc(c.B)))
-			w.Write(buf)
+			for _, v := range [3]float64{c.R, c.G, c.B} {
+				encodeUint16BE(buf, uint16(trunc(v)))
+				if _, err := w.Write(buf); err != nil {
+					return err
+				}
+			}
 		}
 	}
 	return nil
-- 
2.43.0


From 7c67b115d5568e16a2bc3dab294922a00d14e18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:46 +0000
Subject: [PATCH 16/31] fix: failing to write the PPM file went unreported

---
 api/render.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/api/render.go b/api/render.go
index f24ccb9..63d5321 100644
--- a/api/render.go
+++ b/api/render.go
@@ -131,6 +131,8 @@ func savePPM(fname string, img imagef.Image) error {
 	}
 	defer f.Close()
 	w := bufio.NewWriter(f)
-	defer w.Flush()
-	return ppm.EncodeAscii16(w, img)
+	if err := ppm.EncodeAscii16(w, img); err != nil {
+		return err
+	}
+	return w.Flush()
 }
-- 
2.43.0


From 9e4781aadab30004a466329279748579af9b640a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:17 +0000
Subject: [PATCH 17/31] fix: a PLY file without newline at its end was rejected

---
 tracer/objects/ply/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tracer/objects/ply/parser.go b/tracer/objects/ply/parser.go
index f3a9d0f..755edeb 100644
--- a/tracer/objects/ply/parser.go
+++ b/tracer/objects/ply/parser.go
@@ -97,6 +97,9 @@ type parser struct {
 
 func (p *parser) readLine() string {
 	line, err := p.b.ReadString('\n')
+	if err == io.EOF && line != "" {
+		err = nil // no newline at end of file
+	}
 	p.check(err)
 	p.lastLine = line
 	return strings.TrimSpace(line)
-- 
2.43.0


From 77d8357531a067aaa9ff42c6bd2a9de62bd5b3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:18 +0000
Subject: [PATCH 18/31] fix: PLY headers that declare another layout were read
 as a wrong mesh

---
 tracer/objects/ply/parser.go | 72 ++++++++++++++++++++++++++++++------
 1 file changed, 61 insertions(+), 11 deletions(-)

diff --git a/tracer/objects/ply/parser.go b/tracer/objects/ply/parser.go
index 755edeb..a03df88 100644
--- a/tracer/objects/ply/parser.go
+++ b/tracer/objects/ply/parser.go
@@ -42,17 +42,7 @@ func (p *parser) parse() ([]geom.Vec, [][3]int) {
 		p.panicf("bad header: %q", format)
 	}
 
-	var numVertex, numFace int
-	for l := p.readLine(); l != "end_header"; l = p.readLine() {
-		switch {
-		case strings.HasPrefix(l, "element vertex "):
-			numVertex = p.atoi(l[len("element vertex "):])
-		case strings.HasPrefix(l, "element face "):
-			numFace = p.atoi(l[len("element face "):])
-		case l == "end_header":
-			break
-		}
-	}
+	numVertex, numFace := p.parseHeader()
 
 	vertex := make([]geom.Vec, numVertex)
 	for i := 0; i < numVertex; i++ {
@@ -90,6 +80,66 @@ func (p *parser) parse() ([]geom.Vec, [][3]int) {
 	return vertex, faces
 }
 
+// parseHeader reads up to and including end_header.
+// Vertices must come first and start with x, y, z;
+// faces must come second and start with their list of vertices.
+// Other elements may follow, they are ignored.
+func (p *parser) parseHeader() (numVertex, numFace int) {
+	var elements, vertexProps, faceProps int
+	for l := p.readLine(); l != "end_header"; l = p.readLine() {
+		words := strings.Fields(l)
+		if len(words) == 0 {
+			continue
+		}
+		isList := len(words) == 5 && words[1] == "list"
+		switch words[0] {
+		default:
+			p.panicf("bad header: %q", l)
+		case "comment", "obj_info":
+		case "element":
+			if len(words) != 3 {
+				p.panicf("bad header: %q", l)
+			}
+			n := p.atoi(words[2])
+			if n < 0 {
+				p.panicf("bad header: %q", l)
+			}
+			switch {
+			case elements == 0 && words[1] == "vertex":
+				numVertex = n
+			case elements == 1 && words[1] == "face":
+				numFace = n
+			case elements < 2 || words[1] == "vertex" || words[1] == "face":
+				p.panicf("need vertex and face elements, in that order, have: %q", l)
+			}
+			elements++
+		case "property":
+			if !(isList || len(words) == 3 && words[1] != "list") {
+				p.panicf("bad header: %q", l)
+			}
+			name := words[len(words)-1]
+			switch elements {
+			case 0:
+				p.panicf("bad header: %q", l)
+			case 1:
+				if vertexProps < 3 && (isList || name != [3]string{"x", "y", "z"}[vertexProps]) {
+					p.panicf("need vertex properties x, y, z, have: %q", l)
+				}
+				vertexProps++
+			case 2:
+				if faceProps == 0 && !isList {
+					p.panicf("need list of vertices, have: %q", l)
+				}
+				faceProps++
+			}
+		}
+	}
+	if numVertex > 0 && vertexProps < 3 || numFace > 0 && faceProps == 0 {
+		p.panicf("incomplete header")
+	}
+	return numVertex, numFace
+}
+
 type parser struct {
 	b        *bufio.Reader
 	lastLine string
-- 
2.43.0


From 42b44a724f6fdfd6adc2568ad835fd52bb6b0445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:19 +0000
Subject: [PATCH 19/31] fix: PLY and OBJ faces could refer to vertices that do
 not exist

---
 tracer/objects/obj/parser.go | 15 +++++++++++++++
 tracer/objects/ply/parser.go | 18 +++++++++++++-----
 2 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/tracer/objects/obj/parser.go b/tracer/objects/obj/parser.go
index a86093d..c27c96c 100644
--- a/tracer/objects/obj/parser.go
+++ b/tracer/objects/obj/parser.go
@@ -46,6 +46,21 @@ func (p *parser) parseFile(fname string) {
 		p.parseLine(scanner.Text())
 	}
 	p.check(scanner.Err())
+	p.checkFaces()
+}
+
+// checkFaces checks that all face indices refer to a vertex.
+// This can only be done at the end: faces may precede their vertices.
+func (p *parser) checkFaces() {
+	for _, faces := range p.obj.Faces {
+		for _, f := range faces {
+			for _, idx := range f {
+				if int(idx) >= len(p.obj.Vertices) {
+					p.errorf("invalid face index: %v", idx+1)
+				}
+			}
+		}
+	}
 }
 
 func (p *parser) parseLine(l string) {
diff --git a/tracer/objects/ply/parser.go b/tracer/objects/ply/parser.go
index a03df88..722de50 100644
--- a/tracer/objects/ply/parser.go
+++ b/tracer/objects/ply/parser.go
@@ -63,16 +63,15 @@ func (p *parser) parse() ([]geom.Vec, [][3]int) {
 
 		var f [3]int
 		for c := 0; c < 3; c++ {
-			idx := p.atoi(fields[c+1])
-			f[c] = idx
+			f[c] = p.index(fields[c+1], numVertex)
 		}
 		faces = append(faces, f)
 
 		if numV == 4 {
 			faces = append(faces, [3]int{
-				p.atoi(fields[3]),
-				p.atoi(fields[4]),
-				p.atoi(fields[1]),
+				p.index(fields[3], numVertex),
+				p.index(fields[4], numVertex),
+				p.index(fields[1], numVertex),
 			})
 		}
 
@@ -167,6 +166,15 @@ func (p *parser) atoi(s string) int {
 	return i
 }
 
+// index parses the index of one of n vertices.
+func (p *parser) index(s string, n int) int {
+	i := p.atoi(s)
+	if i < 0 || i >= n {
+		p.panicf("invalid vertex index: %v", i)
+	}
+	return i
+}
+
 func (p *parser) atof(s string) float64 {
 	i, err := strconv.ParseFloat(s, 64)
 	p.check(err)
-- 
2.43.0


From 4e95bd385e851daee21e7ea45db646d0b9efe717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:19 +0000
Subject: [PATCH 20/31] fix: a PLY header with a huge count ran out of memory
 instead of giving an error

---
 tracer/objects/ply/parser.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tracer/objects/ply/parser.go b/tracer/objects/ply/parser.go
index 722de50..d13b3f0 100644
--- a/tracer/objects/ply/parser.go
+++ b/tracer/objects/ply/parser.go
@@ -44,15 +44,18 @@ func (p *parser) parse() ([]geom.Vec, [][3]int) {
 
 	numVertex, numFace := p.parseHeader()
 
-	vertex := make([]geom.Vec, numVertex)
+	// not allocated beforehand: the file may have less than the header says
+	var vertex []geom.Vec
 	for i := 0; i < numVertex; i++ {
 		fields := strings.Fields(p.readLine())
+		var v geom.Vec
 		for c := 0; c < 3; c++ {
-			vertex[i][c] = p.atof(fields[c])
+			v[c] = p.atof(fields[c])
 		}
+		vertex = append(vertex, v)
 	}
 
-	faces := make([][3]int, 0, numFace)
+	var faces [][3]int
 	for i := 0; i < numFace; i++ {
 		fields := strings.Fields(p.readLine())
 
-- 
2.43.0


From d04d6ab12f8ed49067024ed49269771d8fb4a55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:20 +0000
Subject: [PATCH 21/31] fix: PLY and OBJ coordinates could be undefined or
 infinite

---
 tracer/objects/obj/parser.go | 4 ++++
 tracer/objects/ply/parser.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/tracer/objects/obj/parser.go b/tracer/objects/obj/parser.go
index c27c96c..4db0a9d 100644
--- a/tracer/objects/obj/parser.go
+++ b/tracer/objects/obj/parser.go
@@ -3,6 +3,7 @@ package obj
 import (
 	"bufio"
 	"fmt"
+	"math"
 	"os"
 	"strconv"
 	"strings"
@@ -138,6 +139,9 @@ func (p *parser) parseFloat32(x string) float32 {
 func (p *parser) parseFloat64(x string) float64 {
 	v, err := strconv.ParseFloat(x, 32)
 	p.check(err)
+	if math.IsNaN(v) || math.IsInf(v, 0) {
+		p.errorf("not a finite number: %q", x)
+	}
 	return v
 }
 
diff --git a/tracer/objects/ply/parser.go b/tracer/objects/ply/parser.go
index d13b3f0..eaa7118 100644
--- a/tracer/objects/ply/parser.go
+++ b/tracer/objects/ply/parser.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"strconv"
 	"strings"
@@ -181,6 +182,9 @@ func (p *parser) index(s string, n int) int {
 func (p *parser) atof(s string) float64 {
 	i, err := strconv.ParseFloat(s, 64)
 	p.check(err)
+	if math.IsNaN(i) || math.IsInf(i, 0) {
+		p.panicf("not a finite number: %q", s)
+	}
 	return i
 }
 
-- 
2.43.0


From e6ccd5055f446ed19d39cc5b2f0fc4661548ccdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:21 +0000
Subject: [PATCH 22/31] fix: OBJ comments without space after # were rejected

---
 tracer/objects/obj/parser.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tracer/objects/obj/parser.go b/tracer/objects/obj/parser.go
index 4db0a9d..d6fcab0 100644
--- a/tracer/objects/obj/parser.go
+++ b/tracer/objects/obj/parser.go
@@ -66,7 +66,7 @@ func (p *parser) checkFaces() {
 
 func (p *parser) parseLine(l string) {
 	fields := strings.Fields(l)
-	if len(fields) == 0 {
+	if len(fields) == 0 || strings.HasPrefix(fields[0], "#") {
 		return
 	}
 
@@ -80,7 +80,6 @@ func (p *parser) parseLine(l string) {
 		p.parseF(args)
 	case "usemtl":
 		p.parseUsemtl(args)
-	case "#":
 	case "o":
 	case "vn":
 	case "vt":
-- 
2.43.0


From 3f73e600c9edf9bcec2ea229250fd000bea54485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:57 +0000
Subject: [PATCH 23/31] fix: transforming a point light crashed

---
 tracer/lights/pointlight.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tracer/lights/pointlight.go b/tracer/lights/pointlight.go
index ad28b1d..5413abe 100644
--- a/tracer/lights/pointlight.go
+++ b/tracer/lights/pointlight.go
@@ -1,6 +1,7 @@
 package lights
 
 import (
+	"github.com/barnex/bruteray/tracer/objects"
 	. "github.com/barnex/bruteray/tracer/types"
 )
 
@@ -24,3 +25,12 @@ func (l *point) Object() Object {
 func (*point) Intersect(*Ray) HitRecord {
 	return HitRecord{}
 }
+
+// Inside and Bounds allow a point light to be transformed.
+func (*point) Inside(Vec) bool {
+	return false
+}
+
+func (l *point) Bounds() objects.BoundingBox {
+	return objects.BoundingBox{Min: l.pos, Max: l.pos}
+}
-- 
2.43.0


From 1522561cab6312a1ff052d2d638a2e393da34aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:58 +0000
Subject: [PATCH 24/31] fix: the watcher crashed when the program could not be
 started

---
 cmd/bruteray-watch/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/bruteray-watch/main.go b/cmd/bruteray-watch/main.go
index 9c15d27..64029f0 100644
--- a/cmd/bruteray-watch/main.go
+++ b/cmd/bruteray-watch/main.go
@@ -62,6 +62,7 @@ func rerun(fname string, args []string) {
 
 	if err := cmd.Start(); err != nil {
 		fmt.Fprintln(os.Stderr, err)
+		return
 	}
 	out, err := exec.Command("renice", "20", fmt.Sprint(cmd.Process.Pid)).CombinedOutput()
 	if err != nil {
-- 
2.43.0


From deba4d066317c463de7963b076f4f64f8821a54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:01 +0000
Subject: [PATCH 25/31] fix: the viewer skipped the 1/8 size bake of a new view
 after a cancelled bake

---
 cmd/bruteray-view/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/bruteray-view/main.go b/cmd/bruteray-view/main.go
index 8382b35..8f9b426 100644
--- a/cmd/bruteray-view/main.go
+++ b/cmd/bruteray-view/main.go
@@ -172,7 +172,9 @@ func (s *state) handleBakery(img imagef.Image) {
 		s.windowDirty = true
 	}
 	s.isBaking = false
-	s.bakeResolution++ // next one will be higher-res
+	if s.wantBake {
+		s.bakeResolution++ // next one will be higher-res
+	}
 }
 
 func (s *state) cancelBaking() {
-- 
2.43.0


From 802c68449cc9dfb27807d9500d91a3e550569eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:47 +0000
Subject: [PATCH 26/31] fix: fisheye map was undefined for horizontal
 directions, by rounding

---
 texture/uvmapper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/texture/uvmapper.go b/texture/uvmapper.go
index f3ad224..78ecabe 100644
--- a/texture/uvmapper.go
+++ b/texture/uvmapper.go
@@ -25,7 +25,7 @@ func MapFisheye(t Texture) Texture {
 	return &mapped{t, func(dir Vec) (u, v float64) {
 		dir = dir.Normalized()
 		r := math.Sqrt(dir[Z]*dir[Z] + dir[X]*dir[X])
-		r = math.Asin(r) / (math.Pi / 2)
+		r = math.Asin(math.Min(r, 1)) / (math.Pi / 2)
 		//dir = dir.Mul(r)
 		th := math.Atan2(dir[Z], dir[X])
 		x := r * math.Cos(th)
-- 
2.43.0


From 9c9b84a339bd76d4355bbba18d80d09fc0c878cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:47 +0000
Subject: [PATCH 27/31] fix: deviation image was undefined where all samples
 are equal, by rounding

---
 tracer/sampler.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tracer/sampler.go b/tracer/sampler.go
index da0c020..37dd115 100644
--- a/tracer/sampler.go
+++ b/tracer/sampler.go
@@ -202,9 +202,9 @@ func (s *Sampler) imagef(ix, iy int) Color {
 
 func (s *Sampler) stddevf(ix, iy int) Color {
 	v := s.variancef(ix, iy)
-	v.R = math.Sqrt(v.R)
-	v.G = math.Sqrt(v.G)
-	v.B = math.Sqrt(v.B)
+	v.R = math.Sqrt(math.Max(v.R, 0)) // may be negative by rounding
+	v.G = math.Sqrt(math.Max(v.G, 0))
+	v.B = math.Sqrt(math.Max(v.B, 0))
 	return v
 }
 
-- 
2.43.0


From 75c6b9f5457e02cd50a3302ca3090e58dc4cab71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:03 +0000
Subject: [PATCH 28/31] fix: reflection off a thinner medium was undefined
 beyond the critical angle

---
 tracer/materials/reflective.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tracer/materials/reflective.go b/tracer/materials/reflective.go
index 26bb026..7ce4196 100644
--- a/tracer/materials/reflective.go
+++ b/tracer/materials/reflective.go
@@ -63,6 +63,9 @@ func (s *reflectFresnel) Shade(ctx *Ctx, e *Scene, r *Ray, h HitCoords) Color {
 func fresnelReflection(n1, n2, cosθi float64) float64 {
 	n12 := n1 / n2
 	sin2θt := n12 * n12 * (1 - cosθi*cosθi) // sin² of transsion angle, using Snell's law.
+	if sin2θt > 1 {
+		return 1 // total reflection
+	}
 	cosθt := math.Sqrt(1 - sin2θt)
 	Rp := Sqr((n1*cosθi - n2*cosθt) / (n1*cosθi + n2*cosθt))
 	Rs := Sqr((n1*cosθt - n2*cosθi) / (n1*cosθt + n2*cosθi))
-- 
2.43.0


From 7968b2b3614cee08cd46f67af9f5af45bb9cfa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:40 +0000
Subject: [PATCH 29/31] fix: boxes that are large or far away crashed the
 render

The normal was looked up with an absolute tolerance of 1e-8, which is less
than rounding for boxes of 1e8 units, or 1e7 units from the origin.
---
 tracer/objects/box.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/tracer/objects/box.go b/tracer/objects/box.go
index cb908c3..bcc94ca 100644
--- a/tracer/objects/box.go
+++ b/tracer/objects/box.go
@@ -62,7 +62,22 @@ func (b *box) normal(p Vec) Vec {
 			return unit[i]
 		}
 	}
-	panic(fmt.Sprint("box.normal", p, s.Min, s.Max))
+
+	// Rounding is not small for large or remote boxes: use the face nearest to p.
+	var n Vec
+	dist := inf
+	for i := range p {
+		if d := math.Abs(p[i] - s.Min[i]); d < dist {
+			n, dist = unit[i].Mul(-1), d
+		}
+		if d := math.Abs(p[i] - s.Max[i]); d < dist {
+			n, dist = unit[i], d
+		}
+	}
+	if dist == inf {
+		panic(fmt.Sprint("box.normal", p, s.Min, s.Max))
+	}
+	return n
 }
 
 func approx(a, b float64) bool {
-- 
2.43.0


From 4416e4777fdf7497d4c3c230a44424db224ef1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:59 +0000
Subject: [PATCH 30/31] fix: trees far from the origin lost parts of their
 objects

The outer box was rounded to single precision, inward for some coordinates.
---
 tracer/objects/tree.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/tracer/objects/tree.go b/tracer/objects/tree.go
index 25fe087..b4d1a54 100644
--- a/tracer/objects/tree.go
+++ b/tracer/objects/tree.go
@@ -201,11 +201,21 @@ type boundingBoxf struct {
 	Min, Max [3]float32
 }
 
+// boundingBoxToF rounds outward: the result encloses b.
 func boundingBoxToF(b BoundingBox) boundingBoxf {
-	return boundingBoxf{
+	f := boundingBoxf{
 		Min: vecf(&b.Min),
 		Max: vecf(&b.Max),
 	}
+	for i := range f.Min {
+		if float64(f.Min[i]) > b.Min[i] {
+			f.Min[i] = math.Nextafter32(f.Min[i], float32(-inf))
+		}
+		if float64(f.Max[i]) < b.Max[i] {
+			f.Max[i] = math.Nextafter32(f.Max[i], float32(inf))
+		}
+	}
+	return f
 }
 
 func (b *boundingBoxf) to64() BoundingBox {
-- 
2.43.0


From b404b37ce12f3bd71f3b6852d28b46d4ef23d349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:16 +0000
Subject: [PATCH 31/31] fix: two-sided sheets in meshes had undefined normals

Where the normals of the faces sharing a corner cancel, the shading normal
was NaN (or zero), and so was the color. Use the normal of the face.
---
 tracer/objects/mesh.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tracer/objects/mesh.go b/tracer/objects/mesh.go
index c6d0456..1e23d66 100644
--- a/tracer/objects/mesh.go
+++ b/tracer/objects/mesh.go
@@ -353,7 +353,9 @@ func (f *face) Intersect(r *Ray) HitRecord {
 	v2 := f.Vertex(1)
 	v3 := f.Vertex(2)
 	shadingNormal := (v1.Normal.Mul(l1)).Add(v2.Normal.Mul(l2)).Add(v3.Normal.Mul(l3))
-	//geomNormal := Vec{nx, ny, nz}
+	if !(shadingNormal.Len2() > 0) { // NaN or zero: no average normal, e.g. where the faces of a two-sided sheet cancel
+		shadingNormal = Vec{nx, ny, nz}
+	}
 	// TODO: clamp shadingNormal
 
 	u := v1.U*l1 + v2.U*l2 + v3.U*l3
-- 
2.43.0


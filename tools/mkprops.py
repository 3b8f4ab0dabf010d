#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as code so that the text stays readable).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))

p("C01","Each requested pass samples every pixel exactly once; the image is the mean",
 "For every image size and every sequence of sampling requests, a request for n passes evaluates every pixel exactly n more times before it returns, never two evaluations of one pixel at the same time, and leaves no pixel out. The accumulated image is, per pixel and channel, the arithmetic mean of all samples drawn so far (a sample with an undefined channel counts as a black sample), and the deviation image is their sample standard deviation.",
 ["inputs","histories","schedules"],"all image sizes (including those not divisible by any work-unit size), all sequences of pass counts, all worker schedules, all sample values including NaN",
 "Tests render a handful of fixed sizes (mostly 300x200) in a single request and compare with loose tolerances; a dropped or doubled row in an odd-sized image, a miscount in the third request or a lost NaN guard is invisible to them.",
 ["tracer/sampler.go"],[("tiles handed to workers over a channel, per-pixel sum and count","tracer/sampler.go: SampleWithCancel, sampleTile, samplePixel, tessellate"),("mean and deviation","tracer/sampler.go: imagef, variancef")],
 ["image function calls (pixel position, order, overlap)","Sampler.Image","Sampler.StdDev"],
 [("sum, sumSq, n","accumulated samples per pixel","tracer/sampler.go: Sampler")])

p("C02","Rendering is reproducible, whatever the scheduling and batching of passes",
 "The random choices available to the k-th sample of a pixel at the first two bounces depend only on the image size, the pixel and k: not on which worker draws it, on timing, on other pixels, or on how the passes were split into requests. Hence two renderings of a scene with at most two bounces and a pinhole camera, with the same total number of passes, are identical however the passes were batched.",
 ["schedules","histories","inputs"],"all worker schedules, all ways to split N passes into requests, all pixels, all k",
 "Golden images are compared within a noise tolerance and always rendered with one request; scheduling or batching dependence hides in the noise.",
 ["tracer/ctx.go","tracer/sampler.go","tracer/sequence/sequence.go"],[("per-sample re-initialisation of the quasi-random sequences from pixel number and pass","tracer/ctx.go: Init; tracer/sampler.go: samplePixel"),("per-pixel shift table with fixed seed","tracer/ctx.go: randomShifts")],
 ["values drawn inside materials at depth 1 and 2","anti-aliasing position","Sampler.Image"])

p("C03","Pixels map to the camera plane; anti-aliasing covers each pixel evenly",
 "Without anti-aliasing every sample of pixel (x,y) is taken at the pixel centre: horizontally (x+1/2)/width, vertically the image is centred on 1/2 with the same pitch and row 0 on top. With anti-aliasing every sample stays within half of 1/min(width,height) of that centre in both directions, and over the passes the positions spread evenly over that square (equal parts of the width and of the height get equal numbers of samples, up to a few) instead of repeating.",
 ["inputs","configurations"],"all image sizes, pixels and pass numbers, anti-aliasing on and off",
 "Only three corners of two image sizes are printed by a doc example; sub-pixel positions are only seen through golden images whose tolerance absorbs a constant offset (the sub-pixel position was in fact constant).",
 ["tracer/sampler.go","tracer/ctx.go","sampler/util.go"],[("pixel to camera mapping","tracer/sampler.go: IndexToCam, samplePixel"),("anti-aliasing sequence","tracer/ctx.go: AA")],
 ["(u,v) arguments of the image function"])

p("C04","Brightness is the depth-limited sum of emission, reflection and transmission",
 "The brightness seen along a ray is what the nearest surface's material prescribes from the brightness of the secondary rays it casts, recursively, and is black once the configured number of bounces is used up: flat emits its colour, matte reflects direct light plus one indirect ray, mirrors and glass follow the laws of reflection, Snell and Fresnel, transparent sheets filter what lies behind, blends are weighted sums and two-sided surfaces pick the side that is seen. Nothing is visible as black, and light sources seen along a mirror are bright but are never counted a second time along diffuse or transparent paths.",
 ["inputs","programs","configurations"],"all stacks of surfaces with any materials and nesting of materials, all ray directions, all recursion limits",
 "Golden images sample a few scenes with one recursion depth each within tolerances; off-by-one in the bounce budget for some material nesting, a swapped weight or a light counted twice in a particular combination is not covered.",
 ["tracer/scene.go","tracer/materials/blend.go","tracer/materials/flat.go","tracer/materials/matte.go","tracer/materials/reflective.go","tracer/materials/refractive.go","tracer/materials/transparent.go","tracer/materials/twosided.go"],
 [("recursion with depth limit","tracer/scene.go: lightField"),("light sources replaced by black for indirect rays","tracer/scene.go: NewScene, LightFieldIndirect"),("material shading","tracer/materials/*.go: Shade")],
 ["brightness returned for a ray","directions of secondary rays"],[("CurrentRecursionDepth","bounces used by the ray being evaluated","tracer/ctx.go: Ctx")])

p("C05","Nested evaluation never disturbs the rays and state of the evaluation around it",
 "While a ray's brightness is being evaluated, with any nesting of materials, lights and media, no other evaluation changes that ray or hands out its storage again, and intersecting a ray with any object or testing it for shadow leaves the ray as it was. When an evaluation ends, the bounce count and the ray are as at its start, so that a context can be reused for any number of samples with unchanged results.",
 ["histories","programs"],"all nestings of materials, objects, lights and media, all sequences of evaluations on one context",
 "Rays are recycled through a free list and mutated in place by transforms and CSG; tests only see final images of a few nestings, where stale storage is usually still intact.",
 ["tracer/ctx.go","tracer/scene.go","tracer/materials/reflective.go","tracer/materials/refractive.go","tracer/materials/transparent.go","tracer/materials/matte.go","tracer/media/fog.go","tracer/objects/transformed.go","tracer/objects/csg.go"],
 [("ray free list","tracer/ctx.go: Ray, PutRay, pool"),("ray saved and restored","tracer/objects/transformed.go: Intersect; tracer/objects/csg.go: andMarch, orMarch")],
 ["rays seen by objects, materials and lights","bounce count before and after"])

p("C06","Direct light reaches a matte point once, attenuated exactly by what lies between",
 "Each light source contributes to a matte surface exactly once: its intensity at the point times the cosine of the incident angle, and nothing if it is on the other side of the surface. It contributes nothing if any opaque surface lies strictly between the point and the source, is multiplied by the colours of all see-through surfaces in between, each once and in whatever order the objects are listed, and is unaffected by surfaces behind the point, beyond the source or by other light sources.",
 ["inputs","configurations"],"all numbers and positions of lights, all arrangements and orders of opaque and see-through blockers in between, behind and beyond",
 "Tests contain a single transparent blocker and a few opaque ones in one listing order.",
 ["tracer/scene.go","tracer/materials/matte.go","tracer/materials/transparent.go"],[("shadow test","tracer/scene.go: Occlude"),("sum over lights","tracer/materials/matte.go: Shade")],
 ["brightness of a matte surface","Scene.Occlude"])

p("C07","The nearest surface in front is seen, however objects are grouped or ordered",
 "A ray sees the object whose surface it meets first in front of its start, with that object's own position, normal and material, whatever the order in which objects are listed. Collecting objects into a hierarchy, of any size and nested to any depth, changes nothing: the hierarchy is hit exactly where the nearest of its members is hit, missed exactly when all are missed, and contains exactly the points its members contain.",
 ["inputs","programs"],"all sets of objects (any number, overlapping, nested groups), all listing orders, all ray origins and directions, including rays that start inside objects",
 "Tests use hierarchies only through a few meshes and one benchmark; splits, duplicates, empty regions and rays that miss everything are not compared with a linear scan.",
 ["tracer/scene.go","tracer/objects/tree.go"],[("frontmost search","tracer/scene.go: intersectFrontmost"),("bounding volume hierarchy","tracer/objects/tree.go: buildTree, Intersect, Inside")],
 ["Intersect result","Inside result","rendered colour"])

p("C08","Boolean combinations of solids behave as set operations along every ray",
 "A point is inside a combination exactly when set algebra over the operands' insides says so (and, or, not, difference; restricting and removing cut a surface; hollowed objects have no inside). A ray hits a combination at the first surface point that the operation keeps: of an intersection the parts of each surface inside the other, of a union the parts outside the other, of a restriction the parts of the first inside the second, with the normal of the surface hit (reversed when complemented); if there is none it misses.",
 ["programs","inputs"],"all nestings of boolean operations over solids and surfaces, all rays including those that start inside and those that cross many surfaces before the first visible one",
 "Golden images show a few two-operand combinations from outside; deep nesting, rays starting inside and rays that must march over several hidden surfaces are not enumerated.",
 ["tracer/objects/csg.go"],[("marching along the ray until the other operand agrees","tracer/objects/csg.go: andMarch, orMarch"),("early exit at the other operand's hit","tracer/objects/csg.go: and.Intersect, or.Intersect")],
 ["Intersect result","Inside result"])

p("C09","Bounding boxes enclose their objects and never change what is seen",
 "Every object's reported bounding box contains, up to single-precision rounding, every point of its surface and every point inside it, also for transformed, combined and grouped objects, with infinite extent where needed. Using the box to skip work (wrapping an object, transforming it, or putting it in a hierarchy) never removes or adds a hit or an inside point (except for rays that run exactly in an outer face of the box).",
 ["programs","inputs"],"all object constructions and nestings, all rays and points, large and small coordinates",
 "One table test checks the ray-box routine; no test relates a box to the object's actual surface.",
 ["tracer/objects/boundingbox.go","tracer/objects/bounded.go","tracer/objects/tree.go","tracer/objects/csg.go","tracer/objects/transformed.go","tracer/objects/quadric.go","tracer/objects/mesh.go"],
 [("box computation","Bounds methods of all objects"),("early rejection","tracer/objects/bounded.go; transformed.go: Intersect; tree.go")],["Bounds result","Intersect result with and without the box"])

p("C10","Transforming an object moves it rigidly; chains of transforms compose in order",
 "A transformed object is hit by a ray exactly when the original is hit by the ray mapped back, at the same ray parameter, with the normal direction rotated along and local coordinates and material unchanged; its inside is the mapped inside. Chains of moves, rotations and uniform scalings (and of affine maps given by base vectors, as maps of points and directions) act left to right like a single transform, undoing a transform restores the original, transforming an object leaves the objects it was made from as they were, and positioning helpers put the named point of the object's box where asked.",
 ["programs","inputs"],"all chains of transforms (any length, order and fixed points) over all objects, all rays",
 "Unit tests check single rotations and one inverse; golden images show a few single transforms.",
 ["geom/affinetransform.go","geom/matrix.go","tracer/objects/transformed.go","api/object.go","tracer/objects/mesh.go"],[("composition and inverse","geom/affinetransform.go, geom/matrix.go"),("ray mapped back and restored, chain collapsed","tracer/objects/transformed.go"),("positioning helpers","api/object.go")],
 ["TransformPoint, TransformDir","Intersect, Inside, Bounds of transformed objects"])

p("C11","Materials are looked up at the coordinates documented for each shape",
 "A hit on a primitive shape (box, sphere, cylinder, capped cylinder, rectangle, triangle, quadrilateral, height field, parametric surface) reports the exact surface point along the ray, an outward (or winding-determined) normal, and the documented local coordinates: texture coordinates interpolated between the given corners for flat shapes and meshes, offsets from the reference point for solids. Meshes and parametric surfaces are smooth: the normal at a corner is the average over the faces sharing it, and varies evenly within each face; every hit has a defined normal, that of the face where the average is none. Adjacent faces of a surface leave no gaps, and remapping or re-materialling an object changes only the local coordinates or the material.",
 ["inputs"],"all shapes, sizes and positions, all rays hitting faces, edges' neighbourhoods and missing",
 "Golden images view each shape from at most four directions with a tolerance; coordinates and normals are not compared numerically.",
 ["tracer/objects/mesh.go","tracer/objects/box.go","tracer/objects/quadric.go","tracer/objects/remap.go","tracer/objects/backdrop.go"],[("intersection routines","tracer/objects/mesh.go: face.Intersect; box.go; quadric.go"),("vertex normals and uv","tracer/objects/mesh.go: calcNormals, Parametric, MeshWithUV")],
 ["T, Normal, Local, Material of the hit"])

p("C12","Cameras map the image plane to rays as documented and move independently",
 "For every camera and every image-plane position the ray direction has unit length and is the documented one: projective cameras span their field of view horizontally and look along -z with x to the right and y up, isometric cameras shoot parallel rays along a chosen axis, environment cameras cover the full sphere, and with a finite aperture all rays of one image point start within the lens, cover it evenly over the samples, and cross in the plane at the focus distance. Moving and turning a camera, in any number and order of steps, composes the rotations and adds the displacements without either affecting the other and without changing the camera it was derived from.",
 ["inputs","programs"],"all image positions, fields of view, chains of rotations and translations, apertures, lens samples",
 "Golden images show single rotations of each camera; chains, focus-plane convergence and unit length are not checked.",
 ["tracer/cameras/projective.go","tracer/cameras/isometric.go","tracer/cameras/environmentmap.go","tracer/cameras/withtransform.go"],[("ray construction","RayFrom methods"),("rotation and position kept apart","tracer/cameras/withtransform.go: Transform")],["rays returned by the camera"])

p("C13","Fog dims exactly by the distance travelled below its ceiling",
 "For a ray coming straight from the camera, uniform fog keeps the fraction exp(-density x length) of the light from the first surface, where length is the part of the ray up to that surface that lies below the fog ceiling, and replaces the rest by the ambient colour (or, for lit fog, adds the light of its lamps at points on that part, chosen in proportion to what reaches the camera from them). Rays after the first bounce, rays outside the fog and fog of zero density are unaffected, and several media apply in order.",
 ["inputs","configurations"],"all camera heights and ray directions (up, down, level), ceilings, densities, surface distances, media lists",
 "Two golden images from one camera position above the fog.",
 ["tracer/media/expfog.go","tracer/media/fog.go","tracer/scene.go"],[("ray-layer overlap","tracer/media/expfog.go: intersectHalfSpace, intersectIntervals"),("primary rays only","Filter methods")],["brightness of a ray through fog"])

p("C14","The render server answers a bake with the requested view, refined step by step",
 "Whatever requests arrive, in any order and overlapping in any way, at most one bake runs at a time and any bake asked for meanwhile is refused with an error; a successful bake returns an image of the requested view and size, which accumulates all passes of the consecutive successful bakes of that view (one more pass per bake than the bake before) and starts afresh when the view changes. Cancelling, failing or malformed requests never damage later answers: once no bake is running, the next valid bake succeeds.",
 ["schedules","histories","fault_sequences"],"all interleavings of bake, preview and cancel requests (also during a running bake), all sequences of views, malformed and failing requests",
 "The server has no tests.",
 ["api/server.go","api/view.go"],[("bakery lock","api/server.go: prepareBakery, renderView, handleCancel"),("sampler kept between bakes of the same view","api/server.go: server.smplr, smplrView, smplrNum")],["HTTP responses","rendering activity seen by the scene"],
 [("cancel","non-nil while a bake runs","api/server.go: server"),("smplr, smplrView, smplrNum","accumulating sampler, its view and next pass count","api/server.go: server")])

p("C15","A view or preview is rendered from the scene as specified and never alters it",
 "Applying a view yields the specification with the view's size, the specified camera additionally turned and moved by the view's angles and position, and the requested debug display, while the original specification stays usable and unchanged; previews are always one fresh pass of exactly the view asked for, independent of earlier requests and of a running bake. Missing settings get the documented defaults (size 960x540 or the matching aspect ratio, one pass, recursion 1, a camera one unit above the origin), and settings that were given are kept.",
 ["inputs","histories","schedules"],"all specifications and views, all sequences and overlaps of view applications and previews",
 "Neither views nor defaults nor previews are tested.",
 ["api/spec.go","api/view.go","api/server.go"],[("defaults","api/spec.go: InitDefaults"),("view application on a copy","api/view.go: ApplyTo"),("material override builds a new object list","api/spec.go: applyMaterial")],["resulting specification","preview responses"])

p("C16","The viewer shows the current view, one bake at a time, sharpening while idle",
 "Whatever the user does and however slowly the server answers, the viewer never shows the result of a bake for an outdated view, asks for a preview (at 1/8 of the window size) of every new view and shows it, or a placeholder if that fails, has at most one bake outstanding and cancels it when the view changes. While nothing changes and it is neither paused (P) nor dragging, it keeps asking for better images of the current view: at 1/8, 1/4, 1/2 and then full window size, anti-aliased only at full size, and shows them; it starts no bake while paused or dragging. Keys and mouse change the view as the code lays down: arrows and E, S, D, F step by 0.05 along the camera's own axes (with shift up and down), space up; dragging turns by 0.005 radian per pixel with the pitch limited to straight up and down; the wheel steps, or zooms by the square root of 2 in isometric views (X, Y, Z); N cycles the display of normals. Closing the window cancels the bake and ends the viewer.",
 ["schedules","histories"],"all interleavings of user events, server answers and errors",
 "The viewer has no tests.",
 ["cmd/bruteray-view/main.go"],[("event loop","cmd/bruteray-view/main.go: run, handleEventBacklog, repaintIfNeeded"),("stale results dropped","cmd/bruteray-view/main.go: handleBakery, cancelBaking")],["requests sent to the server","images published to the window"],
 [("renderDirty, windowDirty, isBaking, wantBake, bakeResolution, preview, paused","control state","cmd/bruteray-view/main.go: state")])

p("C17","The watcher ends up running the newest version that compiles, and only one",
 "Whenever the watched source file changes, also while it is being rebuilt, the previous program is stopped before the next is started, the file is rebuilt and, if that succeeds, started with the documented output argument followed by the user's arguments; at most one started program is alive at any time. A version that does not compile or cannot be started leaves nothing running and is retried on the next change without the watcher ending.",
 ["histories","schedules","fault_sequences"],"all sequences of edits, failed builds, programs that exit by themselves, and edits during a rebuild",
 "The watcher has no tests.",
 ["cmd/bruteray-watch/main.go"],[("modification time remembered from before the rebuild","cmd/bruteray-watch/main.go: watch"),("kill and wait before rebuild","cmd/bruteray-watch/main.go: rerun")],["processes started and stopped, their arguments"])

p("C18","Mesh files yield exactly the mesh they describe, or an error",
 "A well-formed PLY (text form, vertices starting with x, y, z, then faces) or OBJ file yields exactly its vertices in order (OBJ in single precision) and its faces with the right vertices (quadrilaterals as two triangles covering them, OBJ faces under the material in force), regardless of comments, blank lines in OBJ files, extra properties and line endings. Any malformed or unsupported file (bad header, too few lines or fields, non-numeric or out-of-range values or vertex indices, unsupported face sizes or layouts, a failing medium) yields an error, never a crash and never a wrong mesh.",
 ["inputs","fault_sequences"],"all sequences of header, vertex, face, comment and garbage lines, truncation at any point",
 "One small valid file per format is parsed in tests.",
 ["tracer/objects/ply/parser.go","tracer/objects/obj/parser.go","tracer/objects/mesh.go"],[("line parsers with error recovery","tracer/objects/ply/parser.go: Parse; tracer/objects/obj/parser.go: ParseFile")],["parse result or error"])

p("C19","Image files hold the rendered image: every pixel, in order, correctly encoded",
 "Encoding an image writes its size and exactly one correctly ordered, clamped sample per channel and pixel, row by row from the top, in both text and binary form; the value depends only on the channel value, is its sRGB encoding (to about 1%), grows with it, is 0 for anything at or below black and the maximum for anything at or above white. Rendering to a file leaves, at the name asked for plus a lossless copy beside it, the image with at least the requested number of passes; an animation leaves one numbered file per frame, with the last one also under its own name, and a failure to write is reported.",
 ["inputs","fault_sequences"],"all image sizes and colour values (negative, above one, undefined), frame counts, failing writers",
 "Two golden files of one small image.",
 ["imagef/ppm/ppm.go","imagef/colorf/color.go","imagef/image.go","api/render.go","api/animate.go"],[("encoders","imagef/ppm/ppm.go"),("colour conversion","imagef/colorf/color.go"),("file output","api/render.go, api/animate.go")],["bytes written","files created"])

p("C20","Bloom adds a fraction of the light above the threshold, spread by the kernel",
 "Post-processing adds to every pixel, for each source pixel brighter than the threshold, the excess over the threshold times the kernel weight at their offset, where the kernel is scaled to a total of the requested amplitude (a kernel that is zero everywhere adds nothing); pixels outside the image contribute and receive nothing and the source image is not modified. With no effect enabled the image is returned as it is, and enabled effects apply one after the other at any resolution without producing undefined values.",
 ["inputs","configurations"],"all image sizes and contents, kernel sizes (also larger than the image), amplitudes, thresholds, combinations of effects and resolutions",
 "One golden image per effect at a single resolution.",
 ["imagef/post/convolution.go","imagef/post/params.go"],[("convolution","imagef/post/convolution.go: AddConvolution"),("effects","imagef/post/params.go: ApplyTo")],["resulting image"])

p("C21","Sample sequences fill the unit square, disk and hemisphere evenly",
 "Any b^k consecutive aligned values of the base-b sequence fall one into each of the b^k equal intervals of [0,1), and shifting them per pixel keeps them in [0,1) and equally even; what the successive samples of a pixel draw at the first two bounces is as even. The disk mapping covers the disk and the hemisphere mapping the cosine-weighted hemisphere around any unit normal: every result lies on the disk or is a unit vector on the normal's side, and equal areas of the unit square go to equal areas of the disk.",
 ["inputs"],"all bases, indices, pixels, positions of the unit square and normals",
 "Tests print the first few values of one base and compare two golden plots.",
 ["tracer/sequence/halton.go","tracer/sequence/sequence.go","tracer/sequence/mappings.go"],[("radical inverse","tracer/sequence/halton.go"),("mappings","tracer/sequence/mappings.go")],["values returned"])

p("C22","Textures return the image's colours at its grid points and wrap around",
 "An image texture returns exactly the image's pixel at each grid point of the unit square, with v pointing up in the picture as loaded from a file, the weighted average of the four surrounding pixels in between, and repeats with period one in both directions for any finite coordinates. Panning and scaling shift and stretch it by the given amounts, checker and grid patterns alternate with the documented pitch on both sides of zero, the fisheye map puts directions at a distance from the centre that grows with their angle from the vertical, and function and constant textures are evaluated at the given point.",
 ["inputs"],"all image sizes, coordinates (negative, beyond one, exactly on grid points and borders), nesting of pans and scales",
 "Only the wrap helper and one example are tested.",
 ["texture/interpolation.go","texture/texture2d.go","texture/assets.go","texture/func2d.go","imagef/load.go","api/texture.go"],[("bilinear lookup","texture/interpolation.go"),("pan and scale","texture/texture2d.go"),("patterns","texture/assets.go")],["colour returned"])

p("C23","A light's samples match the bright object it shows",
 "Every position a light source offers for sampling lies on the shape it shows when looked at directly and the positions spread evenly over it, the intensity it reports falls off with the squared distance (and for flat sources with the cosine at the source, being zero on the side that looks dark), and the total matches the shown brightness times the shown area. The same holds for moved, turned and uniformly scaled lights, and point lights radiate equally in all directions and show nothing.",
 ["inputs","programs"],"all light kinds, sizes, positions, chains of transforms, target points on both sides, sample values",
 "Golden images of single lights with noise tolerance; the relation between sampling and appearance is only eyeballed.",
 ["tracer/lights/planar.go","tracer/lights/pointlight.go","tracer/lights/transformed.go"],[("sampling","Sample methods"),("visible object","Object methods")],["sampled positions and intensities","hits on the light's object"])

with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))

"""What each check runs. Every function gets the engine (check.py) and a context."""

ASSUMPTIONS, ABOUT, CHECKS, NOT_YET = {}, {}, {}, {}


def check(pid, technique, note, assumptions=()):
    def deco(f):
        CHECKS[pid], ABOUT[pid], ASSUMPTIONS[pid] = f, (technique, note), list(assumptions)
        return f
    return deco


def thorough(e):
    return e.TIER == "thorough"


@check("C01", "Sampler.tla, refinement by SamplerImpl (tiles and workers), trace validation of the real sampler",
       "Exhaustive over schedules and histories of the bounded design; every recorded execution of the real sampler is replayed in the specification event by event.",
       ["image functions are deterministic in (pixel, evaluation number); integer sample values so that sums are exact"])
def c01(e, c):
    e.design(c, "SamplerImpl", "SamplerImplL.cfg" if thorough(e) else "SamplerImpl.cfg", workers=4)
    scn = e.generate(c, "SamplerGen", "Trace.cfg")
    b = e.go_build(c, "./cmd/c01", c.path("c01"))
    obs = e.drive(c, b, ["-scn", scn])
    e.judge(c, "SamplerTrace", "Trace.cfg", obs, keep_groups=True)


@check("C02", "Draws.tla explored exhaustively; draws and images of the real sampler under all batchings replayed",
       "The specification memorises what each (pixel, sample) drew; every run under another batching or schedule must agree with it bit by bit.",
       ["bounces beyond the second, depth of field and lit fog use an unseeded generator and are outside the property"])
def c02(e, c):
    e.design(c, "Draws", "DrawsL.cfg" if thorough(e) else "Draws.cfg", workers=4)
    scn = e.generate(c, "DrawsGen", "Trace.cfg")
    b = e.go_build(c, "./cmd/c02", c.path("c02"))
    obs = e.drive(c, b, ["-scn", scn])
    e.judge(c, "DrawsTrace", "Trace.cfg", obs, keep_groups=True)


@check("C03", "PixelMap.tla checked for all sizes up to a bound; sample positions of the real sampler judged by it",
       "Exact pixel centres for every pixel of many sizes; anti-aliasing offsets bounded, distinct and evenly spread per pixel.",
       ["evenness is judged by counts per half, quarter, eighth and quadrant with a slack of a few samples"])
def c03(e, c):
    e.design(c, "PixelMap", "PixelMap.cfg")
    b = e.go_build(c, "./cmd/c03", c.path("c03"))
    e.judge(c, "PixelMapTrace", "Trace.cfg", e.drive(c, b, []))


@check("C21", "Halton.tla (exact radical inverse, stratification checked exhaustively); elements, blocks and mapped grids of the real code judged by it",
       "Elements are compared exactly with the radical inverse computed in TLA+; mappings by counts over equal-area cells.",
       ["mappings are sampled on grids, for many normals"])
def c21(e, c):
    e.design(c, "Halton", "HaltonL.cfg" if thorough(e) else "Halton.cfg")
    b = e.go_build(c, "./cmd/c21", c.path("c21"))
    e.judge(c, "HaltonTrace", "Trace.cfg", e.drive(c, b, []))


GEO_ASSUME = ["coordinates on a lattice of 1/8, so that the specification's arithmetic is exact enough to decide every ray in general position; rays that graze an edge, touch a surface or start on one are not judged",
              "combinations are claimed up to 100 crossings per operand; infinite boxes are not supported by the code and not claimed"]


def geo(e, c, mode, scn=None, laws=True):
    if laws:
        e.design(c, "GeoLaws", "GeoLawsL.cfg" if thorough(e) else "GeoLaws.cfg", workers=e.NCPU)
    b = e.go_build(c, "./cmd/geo", c.path("geo"))
    e.judge(c, "GeoTrace", "Trace.cfg", e.drive(c, b, ["-mode", mode] + (["-scn", scn] if scn else [])))


@check("C07", "Nearest.tla (hierarchy search, exhaustive) and Geo.tla; hits of real lists, trees, groups and scenes judged by Geo.tla",
       "Every arrangement of a bounded number of objects is explored in the specification; real trees and scenes of up to 160 objects in random order and grouping answer random rays, each answer is compared with the nearest crossing computed by the specification.", GEO_ASSUME)
def c07(e, c):
    e.design(c, "Nearest", "NearestL.cfg" if thorough(e) else "Nearest.cfg", workers=4)
    geo(e, c, "C07")


@check("C08", "Csg.tla (march against set algebra, exhaustive) and Geo.tla; hits and insides of all small and many random real combinations judged by Geo.tla",
       "All pairs of one-dimensional solids in the specification; every combination of up to three palette solids, generated by TLC, and random deeper ones on the real code.", GEO_ASSUME)
def c08(e, c):
    e.design(c, "Csg", "CsgL.cfg" if thorough(e) else "Csg.cfg", workers=4)
    scn = e.generate(c, "GeoGen", "Trace.cfg")
    geo(e, c, "C08", scn)


@check("C09", "Geo.tla extents; boxes, hits and insides of real objects judged by it, bounded and unbounded answers compared",
       "Reported boxes must cover the extent computed by the specification and everything observed; wrapping in a box or tree must not change any answer.", GEO_ASSUME)
def c09(e, c):
    geo(e, c, "C09")


@check("C10", "Geo.tla (frames of quarter turns, moves and scalings composed in TLA+); hits and insides of real transformed objects judged by it",
       "Chains of up to four motions built in seven ways (composition, nesting, inverse, API helpers) must all answer like the specification's composed frame.", GEO_ASSUME)
def c10(e, c):
    geo(e, c, "C10")


@check("C11", "Geo.tla (crossings, normals and local coordinates in integer arithmetic); hits of real primitives judged by it",
       "Parameter, normal direction, material and local coordinates of every hit in general position; rays exactly through corners and edges of height fields for gaps; distance of hits from the exact surface.", GEO_ASSUME)
def c11(e, c):
    geo(e, c, "C11")


def lightdesign(e, c):
    e.design(c, "LightLaws", "LightLawsL.cfg" if thorough(e) else "LightLaws.cfg", workers=4)


@check("C04", "Light.tla (recursive light transport in layered scenes, laws checked exhaustively); brightnesses and secondary rays of the real tracer judged by it",
       "All two-layer stacks over nested materials, generated by TLC, and random stacks of up to six layers with lights and any recursion limit; single reflections and refractions at arbitrary angles against Snell's and Fresnel's laws; diffuse directions.",
       ["layers are unbounded and horizontal; brightnesses behind an angle-dependent material reached by a diffuse ray are not judged"])
def c04(e, c):
    lightdesign(e, c)
    scn = e.generate(c, "LightGen", "Trace.cfg")
    b = e.go_build(c, "./cmd/light", c.path("light"))
    e.judge(c, "LightTrace", "Trace.cfg", e.drive(c, b, ["-mode", "C04", "-scn", scn]))


@check("C05", "RayPool.tla explored exhaustively; shading, storage and restoration events of the real tracer replayed in it",
       "Every material, object, light and medium of random scenes is wrapped so that entering and leaving it, the rays it holds and the storage handed out are recorded; free storage is overwritten at every step.",
       ["results are compared between evaluations where they do not depend on the random directions"])
def c05(e, c):
    e.design(c, "RayPool", "RayPoolL.cfg" if thorough(e) else "RayPool.cfg", workers=e.NCPU)
    b = e.go_build(c, "./cmd/light", c.path("light"))
    e.judge(c, "RayPoolTrace", "Trace.cfg", e.drive(c, b, ["-mode", "C05"]), keep_groups=True)


@check("C06", "Light.tla and Geo.tla; direct light in layered scenes, shadow tests among real objects and point-lit floors judged by them",
       "Layered scenes with up to seven blockers and four lights in random order and grouping; shadow rays among random objects, groups and combinations are compared with all crossings computed by the specification.", GEO_ASSUME[:1])
def c06(e, c):
    lightdesign(e, c)
    b = e.go_build(c, "./cmd/light", c.path("light"))
    obs = e.drive(c, b, ["-mode", "C06"])
    e.judge(c, "LightTrace", "Trace.cfg", [o for o in obs if o["ev"] not in ("occ", "point")])
    e.judge(c, "OccTrace", "Trace.cfg", [o for o in obs if o["ev"] in ("occ", "point")])


@check("C12", "Camera.tla (families of cameras derived from one another, explored exhaustively); rays of real cameras derived by the same programs replayed in it",
       "All kinds of camera with all chains of two derivations, generated by TLC, and random longer programs; every ray of every camera made so far is compared with the rotation and position composed by the specification; lens samples must lie evenly on the lens and meet in the plane of focus.",
       ["angles are multiples of 15 degrees and positions multiples of 1/8; directions are compared to 0.4 percent"])
def c12(e, c):
    e.design(c, "CameraPal", "CameraL.cfg" if thorough(e) else "Camera.cfg", workers=e.NCPU)
    scn = e.generate(c, "CameraGen", "CameraGen.cfg")
    b = e.go_build(c, "./cmd/cam", c.path("cam"))
    e.judge(c, "CameraTrace", "Trace.cfg", e.drive(c, b, ["-scn", scn]), keep_groups=True)


@check("C13", "Fog.tla (ray-layer overlap and attenuation; the formula checked against step counting for all rays of a palette); brightnesses of rays through real media judged by it",
       "All rays and fogs of a palette alone and in pairs, generated by TLC, and random lists of up to four media of both kinds, with mirrors, blocked lights and rays that hit nothing; points at which lit fog asks for light must lie on the foggy part, spread like the light that reaches the camera.",
       ["densities are multiples of ln2/4; level rays exactly in the ceiling are not judged"])
def c13(e, c):
    e.design(c, "FogPal", "FogLawsL.cfg" if thorough(e) else "FogLaws.cfg", workers=e.NCPU)
    scn = e.generate(c, "FogGen", "FogGen.cfg")
    b = e.go_build(c, "./cmd/fog", c.path("fog"))
    e.judge(c, "FogTrace", "Trace.cfg", e.drive(c, b, ["-scn", scn]))


@check("C14", "Bakery.tla and BakeryImpl.tla (handlers as concurrent processes), explored exhaustively; client histories against real servers replayed in Bakery.tla",
       "All histories of four (thorough: five) client operations, generated by TLC, and random longer ones, run against servers on the loopback interface with bakes held at a chosen evaluation; every answer is decoded into the set of evaluations it accumulates. Stress runs with several clients at once are linearised by their evaluations.",
       ["a bake is held by blocking one evaluation of the scene; histories share servers but never views"])
def c14(e, c):
    e.design(c, "Bakery", "Bakery.cfg", workers=4)
    e.design(c, "BakeryImpl", "BakeryImplL.cfg" if thorough(e) else "BakeryImpl.cfg", workers=e.NCPU)
    scn = e.generate(c, "BakeryGen", "Trace.cfg")
    b = e.go_build(c, "./cmd/srv", c.path("srv"))
    e.judge(c, "BakeryTrace", "Trace.cfg", [o for o in e.drive(c, b, ["-scn", scn])], keep_groups=True)


def previews(e, c):
    """client histories of C14; only what concerns previews counts"""
    scn = e.generate(c, "BakeryGen", "Trace.cfg", name="hist.ndjson")
    b = e.go_build(c, "./cmd/srv", c.path("srv"))
    before = len(c.bad)
    e.judge(c, "BakeryTrace", "Trace.cfg", e.drive(c, b, ["-scn", scn], out="srv.ndjson"), keep_groups=True)
    c.bad[before:] = [o for o in c.bad[before:] if o["ev"] in ("preview", "badpreview", "crash")]


@check("C15", "View.tla over Camera.tla (specifications derived through views, explored exhaustively); settings, rays and colours of real specifications replayed in it; previews of client histories replayed in Bakery.tla",
       "All specifications and views of a palette, generated by TLC, and random programs of views and defaults; every specification made so far is observed again after every step. Previews are taken in all client histories of the server check.",
       ["angles are multiples of 15 degrees; debug displays are applied once to a specification"])
def c15(e, c):
    e.design(c, "ViewPal", "ViewL.cfg" if thorough(e) else "View.cfg", workers=e.NCPU)
    scn = e.generate(c, "ViewGen", "ViewGen.cfg")
    b = e.go_build(c, "./cmd/view", c.path("view"))
    e.judge(c, "ViewTrace", "Trace.cfg", e.drive(c, b, ["-scn", scn]), keep_groups=True)
    previews(e, c)


@check("C20", "Bloom.tla (kernel spreading, all small images explored in every order of source pixels); real convolutions compared exactly and real effects to a few 1/10000 with the images computed by it",
       "All images of up to 2x2 pixels over a palette with six kernels, generated by TLC, and random integer images and kernels of any shape, compared exactly; random images under every combination of effects with kernel weights from tabulated functions.",
       ["kernel widths are multiples of a quarter pixel; the extents of the kernels are those documented by the code"])
def c20(e, c):
    e.design(c, "BloomPal", "BloomL.cfg" if thorough(e) else "Bloom.cfg", workers=e.NCPU)
    scn = e.generate(c, "BloomGen", "BloomGen.cfg")
    b = e.go_build(c, "./cmd/post", c.path("post"))
    e.judge(c, "BloomTrace", "Trace.cfg", e.drive(c, b, ["-scn", scn]))


@check("C22", "Texture.tla (texture trees evaluated in integer arithmetic, laws checked on a palette); values of real textures loaded from files judged by it",
       "All trees of two operations over a palette, generated by TLC, and random deeper ones, evaluated at random points on both sides of zero, far away and next to grid points.",
       ["coordinates are multiples of 1/32, points exactly on the border of a checker or line are not judged; the nearest-pixel texture is judged inside the unit square"])
def c22(e, c):
    e.design(c, "TexPal", "TextureL.cfg" if thorough(e) else "Texture.cfg", workers=e.NCPU)
    scn = e.generate(c, "TexGen", "TexGen.cfg")
    b = e.go_build(c, "./cmd/tex", c.path("tex"))
    e.judge(c, "TexTrace", "Trace.cfg", e.drive(c, b, ["-scn", scn]))


@check("C19", "Ppm.tla (writer on a medium that may fail and reader, explored for all small images) and Bloom.tla; encoded images and the files left by real renderings and animations judged by them",
       "Every sample of encoded images in order, one value per channel value and growing; encodings to media with room for every smaller number of bytes; real renderings and animations run as separate programs in scratch directories, with every kind of write failure that can be arranged there; files decoded pixel by pixel.",
       ["lossy files are compared to a few percent, with smooth content"])
def c19(e, c):
    e.design(c, "PpmPal", "PpmL.cfg" if thorough(e) else "Ppm.cfg", workers=e.NCPU)
    b = e.go_build(c, "./cmd/out", c.path("out"))
    r = e.go_build(c, "./cmd/rend", c.path("rend"))
    e.judge(c, "PpmTrace", "Trace.cfg", e.drive(c, b, ["-rend", r]))


@check("C18", "MeshFile.tla (PLY and OBJ readers as state machines over lines, explored for all files over a palette); results of the real parsers on rendered files judged by it",
       "All single-line mutations, swaps and truncations of three well-formed files, generated by TLC, and random files and mutations, with every line ending, number format, chunking and failing media; meshes built from files probed by rays over every half of every cell.",
       ["files outside the subset read (binary, other property orders, larger faces) must give errors; extra or missing values of further properties are not judged"])
def c18(e, c):
    e.design(c, "MeshPal", "MeshL.cfg" if thorough(e) else "Mesh.cfg", workers=e.NCPU)
    scn = e.generate(c, "MeshGen", "MeshGen.cfg")
    b = e.go_build(c, "./cmd/mesh", c.path("mesh"))
    e.judge(c, "MeshTrace", "Trace.cfg", e.drive(c, b, ["-scn", scn]))


@check("C23", "Lamp.tla (lamps, targets and sight lines moved together, explored for all sequences of motions); samples and sights of real lights judged by it",
       "Every lamp of a palette with every sequence of up to two motions and suns at every combination of angles, generated by TLC, and random lamps with up to four motions; positions, intensities and colours in all directions, and counts over equal parts of the lamp.",
       ["intensities to about 1.5%, turns with rational sines; the power of a scaled point light is left open"])
def c23(e, c):
    e.design(c, "LampPal", "LampL.cfg" if thorough(e) else "Lamp.cfg", workers=e.NCPU)
    scn = e.generate(c, "LampGen", "LampGen.cfg")
    b = e.go_build(c, "./cmd/lamp", c.path("lamp"))
    e.judge(c, "LampTrace", "Trace.cfg", e.drive(c, b, ["-scn", scn]))


@check("C17", "Watch.tla (file, watcher, builds and programs; observer proved sound on it by TLC); logs of the real watcher judged by the observer",
       "All interleavings of the bounded design; histories of edits (also during the build, files that get older, bad and unstartable versions) enumerated by TLC and longer random ones, run with the real watcher and stand-ins for go and the program.",
       ["edits are atomic renames with a modification time that differs from the previous one; the go command is a stand-in"])
def c17(e, c):
    e.design(c, "Watch", "WatchL.cfg" if thorough(e) else "Watch.cfg", workers=e.NCPU)
    scn = e.generate(c, "WatchGen", "WatchGen.cfg")
    b = e.go_build(c, "./cmd/watch", c.path("watch"))
    s = e.go_build(c, "./cmd/watchstub", c.path("watchstub"))
    w = e.go_build(c, "github.com/barnex/bruteray/cmd/bruteray-watch", c.path("bruteray-watch"))
    import os
    os.makedirs(c.path("files"), exist_ok=True)
    obs = e.drive(c, b, ["-scn", scn, "-bin", w, "-stub", s, "-dir", c.path("files")], timeout=800)
    e.judge(c, "WatchTrace", "Trace.cfg", obs, keep_groups=True)


def build_viewer(e, c):
    """bruteray-view from /repo, with a stand-in for the shiny driver."""
    import os, shutil, glob
    exp = c.path("exp")
    mod = os.path.join("/root/go/pkg/mod/golang.org/x", "exp@v0.0.0-20190912063710-ac5d2bfcbfe0", "shiny", "screen", "screen.go")
    os.makedirs(exp + "/shiny/screen")
    os.makedirs(exp + "/shiny/driver")
    shutil.copyfile(mod, exp + "/shiny/screen/screen.go")
    shutil.copyfile(os.path.join(e.VERIF, "harness", "fakeshiny", "driver.go.txt"), exp + "/shiny/driver/driver.go")
    with open(exp + "/go.mod", "w") as f:
        f.write("module golang.org/x/exp\n\ngo 1.12\n")
    d = c.path("viewmod")
    os.makedirs(d)
    with open(os.path.join(e.REPO, "go.mod")) as f, open(d + "/go.mod", "w") as g:
        g.write(f.read() + "\nreplace golang.org/x/exp => %s\n" % exp)
    shutil.copyfile(os.path.join(e.REPO, "go.sum"), d + "/go.sum")
    return e.go_build(c, "./cmd/bruteray-view", c.path("bruteray-view"), cwd=e.REPO, modfile=d + "/go.mod")


@check("C16", "Viewer.tla (loop, bakes in the background, user and server, with the observer of ViewerObs.tla proved sound on it by TLC) and ViewerUI.tla (input); logs of the real viewer judged by the observer",
       "All interleavings of the bounded design; all histories of three steps over an alphabet of user and server actions (sampled in the quick tier) and longer random ones, run with the real viewer, a stand-in for the window and a server that answers when told.",
       ["the window is a stand-in for shiny's driver; windows of at least 32 pixels; only one mouse button at a time"])
def c16(e, c):
    e.design(c, "Viewer", "ViewerL.cfg" if thorough(e) else "Viewer.cfg", workers=e.NCPU)
    e.design(c, "ViewerLaws", "ViewerLawsL.cfg" if thorough(e) else "ViewerLaws.cfg", workers=e.NCPU)
    scn = e.generate(c, "ViewerGen", "Trace.cfg")
    b = e.go_build(c, "./cmd/viewer", c.path("viewer"))
    w = build_viewer(e, c)
    obs = e.drive(c, b, ["-scn", scn, "-bin", w], timeout=800)
    e.judge(c, "ViewerTrace", "Trace.cfg", obs, keep_groups=True)

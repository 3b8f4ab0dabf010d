// Package geo builds the objects described in Geo.tla from their JSON form and
// records how the real code intersects them. Lengths are in 1/8 of a unit.
package geo

import (
	"encoding/json"
	"fmt"
	"math"

	"github.com/barnex/bruteray/api"
	"github.com/barnex/bruteray/geom"
	"github.com/barnex/bruteray/imagef/colorf"
	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/objects"
	"verifharness/vh"
)

type M = vh.M
type V = [3]int

// Zoom multiplies all lengths of objects and starts of rays (but not directions of
// rays): the description of what is seen does not depend on it.
var Zoom = 1.0

// Away moves everything, objects and rays, which does not change what is seen either.
var Away geom.Vec

// aside is Away while the vertices of a mesh are built.
var aside geom.Vec

// Inner multiplies local coordinates (of objects that are scaled down again).
var Inner = 1.0

// INF marks infinite extent, in lattice units.
const INF = 99999

// Mat is a material that only has an identity.
type Mat struct{ ID int }

// Shade shows the identity as a colour.
func (m *Mat) Shade(*tracer.Ctx, *tracer.Scene, *tracer.Ray, tracer.HitCoords) colorf.Color {
	return colorf.Color{R: float64(m.ID), G: 1, B: 1}
}

var mats = map[int]*Mat{}

// MatOf returns the material with the given identity.
func MatOf(id int) *Mat {
	if mats[id] == nil {
		mats[id] = &Mat{id}
	}
	return mats[id]
}

// Op is an elementary motion.
type Op struct {
	K       string
	V, O    V
	A, Q    int
	N, D    int
	L       int
	Y, P, R int
	Pp, Ss  V
}

// Obj is an object description.
type Obj struct {
	K       string
	M       int
	Lo, Hi  V
	C       V
	R, H    int
	Dir     int
	W, D    int
	V       []V
	F       [][3]int
	Uv      [][2]int
	Nu, Nv  int
	X, Y    *Obj
	Xs      []*Obj
	Ops     []Op
	Pre     int  // the object is built 2^Pre times as large, and scaled down first
	Then    []Op // motions applied afterwards, with results that are not used
	Mode    string
	Dv      V
	Lx, Lz  int
	Hy, Fn  int
	Variant int
}

// Materials, if set, gives the materials objects are built with.
var Materials func(id int) tracer.Material

// Parse decodes a description.
func Parse(m interface{}) *Obj {
	b, err := json.Marshal(m)
	if err != nil {
		panic(err)
	}
	var o Obj
	if err := json.Unmarshal(b, &o); err != nil {
		panic(fmt.Sprint(err, string(b)))
	}
	return &o
}

func co(x int) float64 {
	if x >= INF {
		return math.Inf(1)
	}
	if x <= -INF {
		return math.Inf(-1)
	}
	return float64(x) / 8 * Zoom
}

// P converts a lattice point.
func P(v V) geom.Vec { return geom.Vec{co(v[0]), co(v[1]), co(v[2])}.Add(aside) }

// At is the position of a lattice point.
func At(v V) geom.Vec { return P(v).Add(Away) }

var axes = []geom.Vec{{}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}}

// Transform builds the elementary transform of op.
func Transform(op Op) *geom.AffineTransform {
	q := math.Pi / 2
	switch op.K {
	case "t":
		return geom.Translate(P(op.V))
	case "r":
		return geom.Rotate(P(op.O), axes[op.A], float64(op.Q)*q)
	case "s":
		return geom.Scale(P(op.O), float64(op.N)/float64(op.D))
	case "ypr":
		return geom.YawPitchRoll(float64(op.Y)*q, float64(op.P)*q, float64(op.R)*q)
	case "y":
		return geom.Yaw(float64(op.Q) * q)
	case "p":
		return geom.Pitch(float64(op.Q) * q)
	case "ro":
		return geom.Roll(float64(op.Q) * q)
	}
	if op.K == "mb" { // base vector Pp[i] goes to axis i with sign Ss[i]
		var b [3]geom.Vec
		for i := range op.Pp {
			v := P(op.O)
			v[i] += float64(op.Ss[i])
			b[op.Pp[i]-1] = v
		}
		return geom.MapBaseTo(P(op.O), b[0], b[1], b[2])
	}
	panic("op " + op.K)
}

func vecs(v []V) []geom.Vec {
	r := make([]geom.Vec, len(v))
	for i := range v {
		r[i] = P(v[i])
	}
	return r
}

var turn uint32

// coin says, in turn, which of two equal ways to build an object is taken.
func coin() bool {
	turn = turn*1664525 + 1013904223
	return turn>>20&1 == 1
}

// viaAPI builds the object with the functions meant for users, if there is one.
func (o *Obj) viaAPI(m tracer.Material) (a api.Object, ok bool) {
	sub := func(x *Obj) api.Object { return api.Object{x.Build()} }
	switch o.K {
	case "box":
		lo, hi := P(o.Lo), P(o.Hi)
		s := hi.Sub(lo)
		if o.Variant == 1 && !math.IsInf(s[0]+s[1]+s[2], 0) {
			return api.Box(m, s[0], s[1], s[2], lo.Add(hi).Mul(0.5)), true
		}
		return api.BoxWithBounds(m, lo, hi), true
	case "sph":
		return api.Sphere(m, 2*co(o.R), P(o.C)), true
	case "cyl":
		f := []func(api.Material, float64, float64, api.Vec) api.Object{api.CylinderX, api.Cylinder, api.CylinderZ}
		return f[o.Dir-1](m, 2*co(o.R), 2*co(o.H), P(o.C)), true
	case "cap":
		return api.CylinderWithCaps(m, 2*co(o.R), 2*co(o.H), P(o.C)), true
	case "rect":
		return api.Rectangle(m, 2*co(o.W), 2*co(o.D), P(o.C)), true
	case "quad":
		if o.Variant == 1 {
			return api.RectangleWithVertices(m, P(o.V[0]), P(o.V[1]), P(o.V[3])), true
		}
	case "par":
		return api.Parametric(m, o.Nu, o.Nv, o.at), true
	case "iso":
		return api.IsoSurface(m, co(o.Lx), co(o.Hy), co(o.Lz), o.height), true
	case "bak":
		return api.Backdrop(m), true
	case "and":
		if o.Variant == 1 {
			return api.Object{api.And(o.X.Build(), o.Y.Build())}, true
		}
		return sub(o.X).And(sub(o.Y)), true
	case "or":
		return sub(o.X).Or(sub(o.Y)), true
	case "res":
		return sub(o.X).Restrict(sub(o.Y)), true
	case "dif":
		return api.Difference(sub(o.X), sub(o.Y)), true
	case "not":
		return api.Object{api.Not(o.X.Build())}, true
	case "bnd":
		return api.Bounded(sub(o.X)), true
	case "mat":
		return sub(o.X).WithMaterial(m), true
	case "remap":
		d := P(o.Dv)
		return sub(o.X).Remap(func(p geom.Vec) geom.Vec { return p.Add(d) }), true
	case "tree":
		xs := make([]api.Object, len(o.Xs))
		for i := range xs {
			xs[i] = sub(o.Xs[i])
		}
		return api.Tree(xs...), true
	}
	return
}

// at is the surface of a parametric object, height that of an isosurface.
func (o *Obj) at(u, v float64) geom.Vec {
	i := int(math.Round(u * float64(o.Nu-1)))
	j := int(math.Round(v * float64(o.Nv-1)))
	return P(o.V[i*o.Nv+j])
}

func (o *Obj) height(u, v float64) float64 {
	switch o.Fn {
	case 0:
		return u
	case 1:
		return 1 - u
	case 2:
		return v
	case 3:
		return 1 - v
	case 4:
		return (u + v) / 2
	}
	return 0.5
}

// Build builds the object.
func (o *Obj) Build() objects.Interface {
	if leaf := o.X == nil && o.Xs == nil; Away != (geom.Vec{}) && o.K != "bak" && (leaf || o.K == "tr" || o.K == "remap") {
		a := Away
		Away = geom.Vec{}
		defer func() { Away, aside = a, geom.Vec{} }()
		if (o.K == "mesh" || o.K == "par" || o.K == "tri" || o.K == "quad") && coin() {
			aside = a
			return o.Build()
		}
		return objects.Transformed(o.Build(), geom.Translate(a))
	}
	var m tracer.Material = MatOf(o.M)
	if Materials != nil {
		m = Materials(o.M)
	}
	if coin() {
		if a, ok := o.viaAPI(m); ok {
			return a.Interface
		}
	}
	switch o.K {
	case "box":
		lo, hi := P(o.Lo), P(o.Hi)
		fin := true
		for i := range lo {
			fin = fin && !math.IsInf(lo[i], 0) && !math.IsInf(hi[i], 0)
		}
		if fin && o.Variant == 1 {
			s := hi.Sub(lo)
			return objects.Box(m, s[0], s[1], s[2], lo.Add(hi).Mul(0.5))
		}
		return objects.BoxWithBounds(m, lo, hi)
	case "sph":
		return objects.Sphere(m, 2*co(o.R), P(o.C))
	case "cyl":
		if o.Dir == 2 && o.Variant == 1 {
			return objects.Cylinder(m, 2*co(o.R), 2*co(o.H), P(o.C))
		}
		return objects.CylinderDir(m, o.Dir-1, 2*co(o.R), 2*co(o.H), P(o.C))
	case "cap":
		return objects.CylinderWithCaps(m, 2*co(o.R), 2*co(o.H), P(o.C))
	case "disk":
		return objects.Disk(m, 2*co(o.R), P(o.C))
	case "tri":
		return objects.Triangle(m, P(o.V[0]), P(o.V[1]), P(o.V[2]))
	case "rect":
		return objects.Rectangle(m, 2*co(o.W), 2*co(o.D), P(o.C))
	case "quad":
		if o.Variant == 1 { // parallelogram
			return objects.RectangleWithVertices(m, P(o.V[0]), P(o.V[1]), P(o.V[3]))
		}
		return objects.Quadrilateral(m, P(o.V[0]), P(o.V[1]), P(o.V[2]), P(o.V[3]))
	case "mesh":
		f := make([][3]int, len(o.F))
		for i := range f {
			for j := range f[i] {
				f[i][j] = o.F[i][j] - 1
			}
		}
		if o.Variant == 1 { // without texture coordinates
			return objects.Mesh(m, vecs(o.V), f)
		}
		uv := make([]geom.Vec2, len(o.Uv))
		for i := range uv {
			uv[i] = geom.Vec2{float64(o.Uv[i][0]) / 1000, float64(o.Uv[i][1]) / 1000}
		}
		return objects.MeshWithUV(m, vecs(o.V), f, uv)
	case "par":
		return objects.Parametric(m, o.Nu, o.Nv, o.at)
	case "iso":
		return objects.IsoSurface(m, co(o.Lx), co(o.Hy), co(o.Lz), o.height)
	case "bak":
		return objects.Backdrop(m)
	case "and":
		return objects.And(o.X.Build(), o.Y.Build())
	case "or":
		return objects.Or(o.X.Build(), o.Y.Build())
	case "res":
		return objects.Restrict(o.X.Build(), o.Y.Build())
	case "dif":
		if o.Variant == 1 {
			return api.Object{o.X.Build()}.AndNot(api.Object{o.Y.Build()}).Interface
		}
		return objects.Difference(o.X.Build(), o.Y.Build())
	case "rem":
		return api.Object{o.X.Build()}.Remove(api.Object{o.Y.Build()}).Interface
	case "not":
		return objects.Not(o.X.Build())
	case "hol":
		return objects.Hollow(o.X.Build())
	case "bnd":
		return objects.Bounded(o.X.Build())
	case "mat":
		return objects.WithMaterial(m, o.X.Build())
	case "remap":
		d := P(o.Dv)
		return objects.Remap(o.X.Build(), func(p geom.Vec) geom.Vec { return p.Add(d) })
	case "tree":
		xs := make([]objects.Interface, len(o.Xs))
		for i := range xs {
			xs[i] = o.Xs[i].Build()
		}
		return objects.Tree(xs...)
	case "tr":
		r := o.transformed()
		x := r
		for _, op := range o.Then {
			x = objects.Transformed(x, Transform(op))
		}
		return r
	}
	panic("object " + o.K)
}

func (o *Obj) transformed() objects.Interface {
	if o.Pre != 0 {
		z := Zoom
		Zoom = math.Ldexp(z, o.Pre)
		x := o.X.Build()
		Zoom = z
		n, d := 1, 1
		if o.Pre > 0 {
			d <<= uint(o.Pre)
		} else {
			n <<= uint(-o.Pre)
		}
		c := *o
		c.Ops = append([]Op{{K: "s", N: n, D: d}}, o.Ops...)
		return c.moved(x)
	}
	return o.moved(o.X.Build())
}

func (o *Obj) moved(x objects.Interface) objects.Interface {
	switch o.Mode {
	case "lr":
		ts := make([]*geom.AffineTransform, len(o.Ops))
		for i := range ts {
			ts[i] = Transform(o.Ops[i])
		}
		return objects.Transformed(x, geom.ComposeLR(ts...))
	case "chain":
		t := geom.UnitTransform()
		for _, op := range o.Ops {
			t = t.Before(Transform(op))
		}
		return objects.Transformed(x, t)
	case "after":
		t := geom.UnitTransform()
		for i := len(o.Ops) - 1; i >= 0; i-- {
			t = t.After(Transform(o.Ops[i]))
		}
		return objects.Transformed(x, t)
	case "undo": // there and back, and there again
		t := geom.UnitTransform()
		for _, op := range o.Ops {
			t = t.Before(Transform(op))
		}
		return objects.Transformed(objects.Transformed(objects.Transformed(x, t), t.Inverse()), t)
	case "api":
		a := api.Object{x}
		for _, op := range o.Ops {
			switch op.K {
			case "t":
				a = a.Translate(P(op.V))
			case "r":
				a = a.RotateAt(P(op.O), axes[op.A], float64(op.Q)*math.Pi/2)
			case "s":
				a = a.ScaleAt(P(op.O), float64(op.N)/float64(op.D))
			case "wc":
				a = a.WithCenter(P(op.V))
			case "wcb":
				a = a.WithCenterBottom(P(op.V))
			case "rc":
				a = a.Rotate(axes[op.A], float64(op.Q)*math.Pi/2)
			case "sts":
				a = a.ScaleToSize(co(op.L))
			case "sc":
				a = a.Scale(float64(op.N) / float64(op.D))
			default:
				a = a.Transform(Transform(op))
			}
		}
		return a.Interface
	}
	for _, op := range o.Ops { // one wrapper per motion
		if op.K == "t" && o.Mode == "translated" {
			x = objects.Translated(x, P(op.V))
			continue
		}
		x = objects.Transformed(x, Transform(op))
	}
	return x
}

// RayOf makes the ray with start s and direction d in lattice units.
func RayOf(s, d V) *tracer.Ray {
	return &tracer.Ray{Start: At(s), Dir: geom.Vec{float64(d[0]) / 8, float64(d[1]) / 8, float64(d[2]) / 8}}
}

// Far is the ray parameter reported for hits near infinity.
const Far = 2000000000

func t1024(t float64) int {
	if !(t > 0) {
		return 0
	}
	if t > 1e6 {
		return Far
	}
	return vh.R(t, 1024)
}

// Hit records one intersection.
func Hit(o tracer.Object, r *tracer.Ray) M {
	h := o.Intersect(r)
	return HitRec(r, h)
}

// HitRec converts a hit record.
func HitRec(r *tracer.Ray, h tracer.HitRecord) M {
	m := M{"t": t1024(h.T / Zoom), "m": 0, "n": V{}, "lp": V{}, "lu": V{}, "p": V{}}
	if !(h.T > 0) {
		return m
	}
	id := -1
	if x, ok := h.Material.(*Mat); ok {
		id = x.ID
	}
	m["m"] = id
	n := h.Normal.Mul(1 / h.Normal.Len())
	m["n"] = V{vh.R(n[0], 1000), vh.R(n[1], 1000), vh.R(n[2], 1000)}
	m["lp"] = V{vh.R(h.Local[0]/Zoom/Inner, 128), vh.R(h.Local[1]/Zoom/Inner, 128), vh.R(h.Local[2]/Zoom/Inner, 128)}
	m["lu"] = V{vh.R(h.Local[0], 1000), vh.R(h.Local[1], 1000), vh.R(h.Local[2], 1000)}
	p := r.At(h.T).Sub(Away).Mul(1 / Zoom)
	m["p"] = V{vh.R(p[0], 1024), vh.R(p[1], 1024), vh.R(p[2], 1024)}
	return m
}

// Bounds records the reported bounding box in 1/1024, rounded outward by no more than 1.
func Bounds(o objects.Interface) M {
	b := o.Bounds()
	b.Min, b.Max = b.Min.Sub(Away), b.Max.Sub(Away)
	c := func(x float64) int {
		if math.IsNaN(x) {
			return vh.Bad
		}
		x = math.Max(math.Min(x/Zoom, 1e5), -1e5) * 1024
		if x <= -INF*128 {
			return -INF * 128
		}
		if x >= INF*128 {
			return INF * 128
		}
		return int(math.Round(x))
	}
	return M{"lo": V{c(b.Min[0]), c(b.Min[1]), c(b.Min[2])}, "hi": V{c(b.Max[0]), c(b.Max[1]), c(b.Max[2])}}
}

// Package light builds the layered scenes of Light.tla.
package light

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"

	"verifharness/vh"

	"github.com/barnex/bruteray/api"
	"github.com/barnex/bruteray/geom"
	"github.com/barnex/bruteray/imagef/colorf"
	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/materials"
	"github.com/barnex/bruteray/tracer/objects"
)

type M = vh.M

// Mat is a material description.
type Mat struct {
	K   string `json:"k"`
	C   [3]int `json:"c"`
	Wa  int    `json:"a"`
	Wb  int    `json:"b"`
	A   *Mat   `json:"A"`
	B   *Mat   `json:"B"`
	Key int    `json:"key"`
	N   int    `json:"n"`
	N1  int    `json:"n1"`
	N2  int    `json:"n2"`
}

// Layer is a surface at height Y.
type Layer struct {
	Y int `json:"y"`
	M Mat `json:"m"`
}

// Source is a light at height Y.
type Source struct {
	Y   int    `json:"y"`
	Sl  string `json:"sl"`
	I   [3]int `json:"i"`
	Vis bool   `json:"vis"`
	C   [3]int `json:"c"`
}

// Scene is a description of a scene.
type Scene struct {
	Rec    int      `json:"rec"`
	Layers []Layer  `json:"layers"`
	Lights []Source `json:"lights"`
}

// Decode converts a JSON object.
func Decode(m interface{}) Scene {
	b, _ := json.Marshal(m)
	var s Scene
	if err := json.Unmarshal(b, &s); err != nil {
		panic(fmt.Sprint(err, string(b)))
	}
	return s
}

// Bright multiplies everything that shines, Zoom all heights: what is seen, relative
// to Bright, does not depend on them.
var Bright, Zoom = 1.0, 1.0

// Vary picks Bright and Zoom.
func Vary(rng *rand.Rand) {
	Bright, Zoom = 1, 1
	if rng.Intn(2) == 0 {
		Bright = math.Ldexp(1, rng.Intn(61)-40)
	}
	if rng.Intn(2) == 0 {
		Zoom = math.Ldexp(1, rng.Intn(20)-14)
	}
}

func shine(c [3]int) colorf.Color { return quarter(c).Mul(Bright) }

func quarter(c [3]int) colorf.Color {
	return colorf.Color{R: float64(c[0]) / 4, G: float64(c[1]) / 4, B: float64(c[2]) / 4}
}

// Wrap may wrap materials while they are built (identity by default).
type Wrap func(m tracer.Material) tracer.Material

// Build builds a material. rng varies what must not matter.
func (m *Mat) Build(rng *rand.Rand, w Wrap) tracer.Material {
	r := m.build(rng, w)
	if w != nil {
		return w(r)
	}
	return r
}

func (m *Mat) build(rng *rand.Rand, w Wrap) tracer.Material {
	switch m.K {
	case "flat":
		return api.Flat(shine(m.C))
	case "matte":
		return api.Matte(quarter(m.C))
	case "refl":
		return api.Reflective(quarter(m.C))
	case "trans":
		return api.Transparent(quarter(m.C), rng.Intn(2) == 0)
	case "blend":
		if m.Wa+m.Wb == 4 && m.A.K == "matte" && m.B.K == "refl" && m.B.C == [3]int{4, 4, 4} && w == nil && rng.Intn(2) == 0 {
			return api.Shiny(quarter(m.A.C), float64(m.Wb)/4)
		}
		return api.Blend(float64(m.Wa)/4, m.A.Build(rng, w), float64(m.Wb)/4, m.B.Build(rng, w))
	case "bmap":
		return api.BlendMap(colorf.Color{R: float64(m.Key) / 4, G: rng.Float64(), B: rng.Float64()}, m.A.Build(rng, w), m.B.Build(rng, w))
	case "two":
		return materials.TwoSided(m.A.Build(rng, w), m.B.Build(rng, w))
	case "fres":
		return api.ReflectFresnel(float64(m.N)/3, m.A.Build(rng, w))
	case "refr":
		if m.N1 == 3 && rng.Intn(2) == 0 {
			return api.Refractive(float64(m.N2) / 3)
		}
		k := 1.0 / 3 // only the ratio matters
		if rng.Intn(2) == 0 {
			k = 1
		}
		return materials.Refractive2(k*float64(m.N1), k*float64(m.N2))
	}
	panic("material " + m.K)
}

// Plane is an unbounded horizontal surface facing up.
type Plane struct {
	Y, Len float64
	M      tracer.Material
}

func (p *Plane) Intersect(r *tracer.Ray) tracer.HitRecord {
	t := (p.Y - r.Start[1]) / r.Dir[1]
	if !(t > 0) || math.IsInf(t, 0) {
		return tracer.HitRecord{}
	}
	return tracer.HitRecord{T: t, Normal: geom.Vec{0, p.Len, 0}, Local: r.At(t), Material: p.M}
}
func (p *Plane) Inside(geom.Vec) bool { return false }
func (p *Plane) Bounds() objects.BoundingBox {
	return objects.BoundingBox{Min: geom.Vec{-1e9, p.Y, -1e9}, Max: geom.Vec{1e9, p.Y, 1e9}}
}

var cosOf = map[string]float64{"V": 1, "A": 0.6, "B": 0.8}

// Dir is a direction with the given slope.
func Dir(rng *rand.Rand, sl string, up bool) geom.Vec {
	c := cosOf[sl]
	s := math.Sqrt(1 - c*c)
	if sl == "A" {
		s = 0.8
	}
	if sl == "B" {
		s = 0.6
	}
	phi := rng.Float64() * 2 * math.Pi
	d := geom.Vec{s * math.Cos(phi), -c, s * math.Sin(phi)}
	switch rng.Intn(3) {
	case 0:
		d = geom.Vec{s, -c, 0}
	case 1:
		d = geom.Vec{0, -c, -s}
	}
	if up {
		d[1] = c
	}
	return d
}

type source struct {
	s   Source
	dir geom.Vec // towards the light, going up
	obj tracer.Object
	on  func(ctx *tracer.Ctx)
}

func (l *source) Object() tracer.Object { return l.obj }
func (l *source) Sample(ctx *tracer.Ctx, target geom.Vec) (geom.Vec, colorf.Color) {
	if l.on != nil {
		l.on(ctx)
	}
	k := (float64(l.s.Y)*Zoom - target[1]) / l.dir[1]
	return target.Add(l.dir.Mul(k)), shine(l.s.I)
}

type nothing struct{}

func (nothing) Intersect(*tracer.Ray) tracer.HitRecord { return tracer.HitRecord{} }

// Opts vary the construction.
type Opts struct {
	Wrap    Wrap
	WrapObj func(tracer.Object) tracer.Object
	OnLight func(ctx *tracer.Ctx)
	Media   []tracer.Medium
}

// Build builds the scene: objects in random order, some of them grouped.
func (s Scene) Build(rng *rand.Rand, o Opts) *tracer.Scene {
	var objs []objects.Interface
	for i := range s.Layers {
		L := &s.Layers[i]
		m := L.M.Build(rng, o.Wrap)
		if rng.Intn(3) == 0 {
			objs = append(objs, objects.Rectangle(m, 2e6, 2e6, geom.Vec{0, float64(L.Y) * Zoom, 0}))
		} else {
			objs = append(objs, &Plane{float64(L.Y) * Zoom, 0.5 + rng.Float64(), m})
		}
	}
	rng.Shuffle(len(objs), func(i, j int) { objs[i], objs[j] = objs[j], objs[i] })
	var all []tracer.Object
	add := func(x tracer.Object) {
		if o.WrapObj != nil {
			x = o.WrapObj(x)
		}
		all = append(all, x)
	}
	for len(objs) > 0 {
		k := 1 + rng.Intn(len(objs))
		if k > 1 && rng.Intn(2) == 0 {
			x := objects.Tree(objs[:k]...)
			if rng.Intn(3) == 0 {
				x = objects.Bounded(x)
			}
			add(x)
		} else {
			for _, x := range objs[:k] {
				add(x)
			}
		}
		objs = objs[k:]
	}
	var ls []tracer.Light
	for _, l := range s.Lights {
		src := &source{s: l, dir: Dir(rng, l.Sl, true), on: o.OnLight}
		src.obj = nothing{}
		if l.Vis {
			src.obj = &Plane{float64(l.Y) * Zoom, 1, api.Flat(shine(l.C))}
		}
		ls = append(ls, src)
	}
	rng.Shuffle(len(ls), func(i, j int) { ls[i], ls[j] = ls[j], ls[i] })
	return tracer.NewSceneWithMedia(s.Rec, o.Media, ls, all...)
}

// Ray makes a ray.
func Ray(rng *rand.Rand, y int, sl string, up bool) *tracer.Ray {
	return &tracer.Ray{Start: geom.Vec{2 * rng.NormFloat64(), float64(y) * Zoom, 2 * rng.NormFloat64()}, Dir: Dir(rng, sl, up)}
}

// Gen makes random materials.
func Gen(rng *rand.Rand, depth int, kinds []string) M {
	c := func() [3]int { return [3]int{rng.Intn(5), rng.Intn(5), rng.Intn(5)} }
	base := []string{}
	nest := []string{}
	for _, k := range kinds {
		switch k {
		case "flat", "matte", "refl", "trans", "refr":
			base = append(base, k)
		default:
			nest = append(nest, k)
		}
	}
	if depth > 0 && len(nest) > 0 && rng.Intn(2) == 0 {
		a, b := Gen(rng, depth-1, kinds), Gen(rng, depth-1, kinds)
		switch k := nest[rng.Intn(len(nest))]; k {
		case "blend":
			return M{"k": k, "a": rng.Intn(5), "A": a, "b": rng.Intn(5), "B": b}
		case "bmap":
			return M{"k": k, "key": rng.Intn(5), "A": a, "B": b}
		case "two":
			return M{"k": k, "A": a, "B": b}
		case "fres":
			return M{"k": k, "n": []int{4, 9, 3}[rng.Intn(3)], "A": a}
		}
	}
	switch k := base[rng.Intn(len(base))]; k {
	case "refr":
		n := [][2]int{{3, 4}, {4, 3}, {9, 3}, {3, 9}, {3, 3}, {9, 4}}[rng.Intn(6)]
		return M{"k": k, "n1": n[0], "n2": n[1]}
	default:
		return M{"k": k, "c": c()}
	}
}

// All kinds of materials.
var All = []string{"flat", "flat", "matte", "refl", "trans", "refr", "blend", "bmap", "two", "fres"}

// GenScene makes a random scene description.
func GenScene(rng *rand.Rand, maxLayers, maxLights, maxRec int, kinds []string) M {
	ys := rng.Perm(41)
	y := func() int { v := ys[0]*2 - 41; ys = ys[1:]; return v } // odd heights
	layers, lights := []M{}, []M{}
	for n := 1 + rng.Intn(maxLayers); n > 0; n-- {
		layers = append(layers, M{"y": y(), "m": Gen(rng, 2, kinds)})
	}
	for n := rng.Intn(maxLights + 1); n > 0; n-- {
		lights = append(lights, M{"y": y(), "sl": []string{"V", "A", "B"}[rng.Intn(3)], "i": [3]int{rng.Intn(5), rng.Intn(5), rng.Intn(5)},
			"vis": rng.Intn(2) == 0, "c": [3]int{rng.Intn(9), rng.Intn(9), rng.Intn(9)}})
	}
	return M{"rec": rng.Intn(maxRec + 1), "layers": layers, "lights": lights}
}

// GenDeep makes a scene with long ways through many layers.
func GenDeep(rng *rand.Rand) M {
	ys := rng.Perm(41)
	layers := []M{}
	for n := 6 + rng.Intn(30); n > 0; n-- {
		m := M{"k": "trans", "c": [3]int{4, 3 + rng.Intn(2), 4}}
		switch rng.Intn(12) {
		case 0:
			m = M{"k": "refl", "c": [3]int{4, 4, 3}}
		case 1:
			m = M{"k": "two", "A": m, "B": M{"k": "refl", "c": [3]int{4, 3, 4}}}
		}
		layers = append(layers, M{"y": 2*ys[n] - 41, "m": m})
	}
	for _, y := range []int{-101, 101} {
		layers = append(layers, M{"y": y, "m": M{"k": []string{"flat", "flat", "refl"}[rng.Intn(3)], "c": [3]int{1 + rng.Intn(4), 4, 2}}})
	}
	rec := 4 + rng.Intn(60)
	if rng.Intn(6) == 0 { // through all layers, and back
		rec += 60
		layers = layers[len(layers)-2:]
		k := rng.Intn(2)
		layers[k]["m"] = M{"k": "refl", "c": [3]int{4, 4, 4}}
		layers[1-k]["m"] = M{"k": "flat", "c": [3]int{3, 4, 2}}
		for n := 0; n < 41; n++ {
			layers = append(layers, M{"y": 2*n - 41, "m": M{"k": "trans", "c": [3]int{4, 4, 4 - rng.Intn(40)/39}}})
		}
	}
	return M{"rec": rec, "layers": layers, "lights": []M{}}
}

// See records what n random rays see.
func See(rng *rand.Rand, desc interface{}, n int) {
	vh.Begin(desc)
	rays := []M{}
	msg := vh.Try(func() {
		d := Decode(desc)
		s := d.Build(rng, Opts{})
		ctx := tracer.NewCtx(4)
		for i := 0; i < n; i++ {
			if i == n/2 {
				s = d.Build(rng, Opts{})
			}
			y := 2 * (rng.Intn(45) - 22) // even heights
			if rng.Intn(2) == 0 {
				y = []int{0, 4, -4, 10}[rng.Intn(4)]
			}
			sl := []string{"V", "A", "B"}[rng.Intn(3)]
			up, ind := rng.Intn(2) == 0, rng.Intn(5) == 0
			ctx.Init(rng.Intn(4), rng.Intn(100))
			r := Ray(rng, y, sl, up)
			var c colorf.Color
			if ind {
				c = s.LightFieldIndirect(ctx, r)
			} else {
				c = s.LightField(ctx, r)
			}
			rays = append(rays, M{"y": y, "sl": sl, "up": up, "ind": ind, "c": Col(c.Mul(1 / Bright))})
		}
	})
	vh.Emit(M{"ev": "see", "sc": desc, "rays": rays, "msg": msg})
}

// Col is a colour in 1/1000000.
func Col(c colorf.Color) [3]int { return [3]int{vh.R(c.R, 1e6), vh.R(c.G, 1e6), vh.R(c.B, 1e6)} }

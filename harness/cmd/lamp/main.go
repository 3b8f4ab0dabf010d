// Driver for C23: builds lights, samples them and looks at them.
package main

import (
	"math"

	"github.com/barnex/bruteray/api"
	"github.com/barnex/bruteray/geom"
	"github.com/barnex/bruteray/imagef/colorf"
	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/lights"

	. "verifharness/vh"
)

type V [3]int

// Op and Lamp as in Lamp.tla
type Op struct {
	K  string `json:"k"`
	V  V      `json:"v"`
	A  int    `json:"a"`
	Co int    `json:"co"`
	Si int    `json:"si"`
	O  V      `json:"o"`
	N  int    `json:"n"`
	D  int    `json:"d"`
}
type Lamp struct {
	K     string `json:"k"`
	C     V      `json:"c"`
	W     int    `json:"w"`
	H     int    `json:"h"`
	B     V      `json:"b"`
	Tr    []Op   `json:"tr"`
	Yaw   [2]int `json:"yaw"`
	Pitch [2]int `json:"pitch"`
}
type scenario struct {
	Sun   int    `json:"sun"`
	Lamp  Lamp   `json:"lamp"`
	A     int    `json:"a"`
	E     V      `json:"e"`
	Yaw   [2]int `json:"yaw"`
	Pitch [2]int `json:"pitch"`
}

const far = 1e6 // distance of the sun

func vec(v V) geom.Vec {
	return geom.Vec{float64(v[0]) / 1e4, float64(v[1]) / 1e4, float64(v[2]) / 1e4}
}
func angle(co, si int) float64 { return math.Atan2(float64(si), float64(co)) }

func (o Op) transform() *geom.AffineTransform {
	switch o.K {
	case "t":
		return geom.Translate(vec(o.V))
	case "r":
		return geom.Rotate(vec(o.O), [3]geom.Vec{geom.Ex, geom.Ey, geom.Ez}[o.A-1], angle(o.Co, o.Si))
	case "s":
		return geom.Scale(vec(o.O), float64(o.N)/float64(o.D))
	}
	panic(o.K)
}

func color(b V) colorf.Color {
	return colorf.Color{R: float64(b[0]) / 4, G: float64(b[1]) / 4, B: float64(b[2]) / 4}
}

func (l Lamp) build() tracer.Light {
	w, h := float64(l.W)/100, float64(l.H)/100
	var o tracer.Light
	switch l.K {
	case "rect":
		o = api.RectangleLight(color(l.B), w, h, vec(l.C))
	case "disk":
		o = api.DiskLight(color(l.B), w, vec(l.C))
	case "point":
		o = api.PointLight(color(l.B), vec(l.C))
	case "sun":
		return api.SunLight(color(l.B), w, angle(l.Yaw[0], l.Yaw[1]), angle(l.Pitch[0], l.Pitch[1]))
	}
	// one by one, or several at once
	for i := 0; i < len(l.Tr); {
		n := 1 + Rng.Intn(len(l.Tr)-i)
		if n == 1 {
			o = lights.Transformed(o, l.Tr[i].transform())
		} else {
			var t []*geom.AffineTransform
			for _, op := range l.Tr[i : i+n] {
				t = append(t, op.transform())
			}
			o = lights.Transformed(o, geom.ComposeLR(t...))
		}
		i += n
	}
	return o
}

// forward is where a point at offset x (in half sizes) from the centre ends up:
// only used to aim
func (l Lamp) forward(x, y, z float64) geom.Vec {
	if l.K == "sun" {
		a := float64(l.W) / 200
		t := geom.ComposeLR(geom.Rotate(geom.O, geom.Ex, -math.Pi/2), geom.Translate(geom.Vec{0, 0, -1}),
			geom.Rotate(geom.O, geom.Ex, angle(l.Pitch[0], l.Pitch[1])), geom.Rotate(geom.O, geom.Ey, angle(l.Yaw[0], l.Yaw[1])))
		return t.TransformPoint(geom.Vec{x * a, y, z * a}).Mul(far)
	}
	w, h := float64(l.W)/200, float64(l.H)/200
	if l.K == "disk" {
		h = w
	}
	p := vec(l.C).Add(geom.Vec{x * w, y, z * h})
	for _, op := range l.Tr {
		p = op.transform().TransformPoint(p)
	}
	return p
}

func q4(v geom.Vec, unit float64) V {
	return V{R(v[0]/unit, 1e4), R(v[1]/unit, 1e4), R(v[2]/unit, 1e4)}
}
func rgb(c colorf.Color, s float64) V { return V{R(c.R, s), R(c.G, s), R(c.B, s)} }
func rnd(a float64) float64           { return (2*Rng.Float64() - 1) * a }

func observe(l Lamp) {
	if l.Tr == nil {
		l.Tr = []Op{}
	}
	Begin(M{"lamp": l})
	var o tracer.Light
	if msg := Try(func() { o = l.build() }); msg != "" {
		Emit(M{"ev": "failed", "lamp": l, "msg": msg})
		return
	}
	unit := 1.0
	if l.K == "sun" {
		unit = far
	}
	ctx := tracer.NewCtx(64)
	at := func(depth int) *tracer.Ctx {
		ctx.Init(Rng.Intn(64), Rng.Intn(1000))
		ctx.CurrentRecursionDepth = depth
		return ctx
	}
	target := func() geom.Vec {
		if l.K == "sun" {
			return geom.Vec{rnd(10), rnd(10), rnd(10)}
		}
		for {
			d := geom.Vec{rnd(1), rnd(1), rnd(1)}
			if n := d.Len(); n > 0.1 && n <= 1 {
				r := 0.7 * math.Pow(20, Rng.Float64())
				// rounded, so that the specification has the same target
				t := vec(q4(l.forward(rnd(0.8), 0, rnd(0.8)).Add(d.Mul(r/n)), 1))
				return t
			}
		}
	}
	s := []M{}
	msg := Try(func() {
		for i := 0; i < 12; i++ {
			t := target()
			p, c := o.Sample(at(1+Rng.Intn(3)), t)
			if t.Sub(p).Len() < 0.3 { // too near for the arithmetic of the specification
				continue
			}
			s = append(s, M{"t": q4(t, unit), "p": q4(p, unit), "i": rgb(c, 1e6)})
		}
	})
	Emit(M{"ev": "sample", "lamp": l, "s": s, "msg": msg, "_w": 4})
	if msg != "" {
		Emit(M{"ev": "failed", "lamp": l, "msg": msg})
	}

	// rays from a target to a point of the lamp or next to it, with or
	// without the lamp's own idea of it
	r := []M{}
	msg = Try(func() {
		sc := tracer.NewScene(4, []tracer.Light{o})
		for i := 0; i < 12; i++ {
			t := target()
			a := l.forward(rnd(1.5), 0, rnd(1.5))
			switch Rng.Intn(4) {
			case 0:
				a, _ = o.Sample(at(1), t)
			case 1:
				a = target()
			}
			d := a.Sub(t)
			if d.Len() < 0.05 {
				continue
			}
			d = d.Mul(1 / d.Len())
			ray := ctx.Ray()
			ray.Start, ray.Dir = t, d
			h := o.Object().Intersect(ray)
			e := M{"s": q4(t, unit), "d": q4(d, 1), "seen": 0, "c": V{}}
			if h.T > 0 {
				e["seen"] = 1
				ray2 := ctx.Ray()
				ray2.Start, ray2.Dir = t, d
				ctx.CurrentRecursionDepth = 0
				e["c"] = rgb(sc.LightField(ctx, ray2), 1000)
				ctx.PutRay(ray2)
			}
			ctx.PutRay(ray)
			r = append(r, e)
		}
	})
	Emit(M{"ev": "rays", "lamp": l, "r": r, "msg": msg, "_w": 3})
	if msg != "" {
		Emit(M{"ev": "failed", "lamp": l, "msg": msg})
	}
}

func even(l Lamp, n int) {
	if l.Tr == nil {
		l.Tr = []Op{}
	}
	Begin(M{"lamp": l})
	o := l.build()
	unit := 1.0
	if l.K == "sun" {
		unit = far
	}
	ctx := tracer.NewCtx(64)
	pix, first := Rng.Intn(64), Rng.Intn(100)
	t := geom.Vec{1, -3, 2}
	ps := []V{}
	for i := 0; i < n; i++ {
		ctx.Init(pix, first+i)
		ctx.CurrentRecursionDepth = 1
		p, _ := o.Sample(ctx, t)
		ps = append(ps, q4(p, unit))
	}
	Emit(M{"ev": "even", "lamp": l, "ps": ps, "_w": n / 8})
}

func lattice(a int) int { return 500 * (Rng.Intn(2*a/500+1) - a/500) }

func randomLamp() Lamp {
	l := Lamp{K: []string{"rect", "disk", "point", "sun"}[Rng.Intn(4)]}
	l.B = V{Rng.Intn(20), Rng.Intn(20), Rng.Intn(20)}
	turn := func() (int, int) {
		t := [][2]int{{5, 0}, {0, 5}, {-5, 0}, {0, -5}, {3, 4}, {4, 3}, {3, -4}, {-4, 3}, {-3, -4}}[Rng.Intn(9)]
		return t[0], t[1]
	}
	switch l.K {
	case "sun":
		l.W = []int{10, 20, 50, 100}[Rng.Intn(4)]
		l.B = V{1 + Rng.Intn(8), Rng.Intn(8), Rng.Intn(8)}
		l.Yaw[0], l.Yaw[1] = turn()
		l.Pitch[0], l.Pitch[1] = turn()
		return l
	case "point":
		l.B = V{8 * Rng.Intn(20), 8 * Rng.Intn(20), 8 * Rng.Intn(20)}
	}
	l.W, l.H = 20*(1+Rng.Intn(15)), 20*(1+Rng.Intn(15))
	l.C = V{lattice(30000), lattice(30000), lattice(30000)}
	scale := 0
	for i := Rng.Intn(5); i > 0; i-- {
		o := V{lattice(20000), lattice(20000), lattice(20000)}
		if Rng.Intn(3) == 0 {
			o = V{}
		}
		switch Rng.Intn(4) {
		case 0:
			l.Tr = append(l.Tr, Op{K: "t", V: V{lattice(30000), lattice(30000), lattice(30000)}, D: 1})
		case 1:
			if scale < 1 {
				scale++
				l.Tr = append(l.Tr, Op{K: "s", O: o, N: 2, D: 1})
			} else {
				scale--
				l.Tr = append(l.Tr, Op{K: "s", O: o, N: 1, D: 2})
			}
		default:
			co, si := turn()
			l.Tr = append(l.Tr, Op{K: "r", A: 1 + Rng.Intn(3), Co: co, Si: si, O: o, D: 1})
		}
	}
	return l
}

func main() {
	Init()
	defer Flush()
	Scenarios(func(dec func(v interface{})) {
		var s scenario
		dec(&s)
		l := s.Lamp
		if s.Sun == 1 {
			l = Lamp{K: "sun", W: s.A, B: s.E, Yaw: s.Yaw, Pitch: s.Pitch}
		}
		observe(l)
	})
	for i := 0; i < Pick(150, 2000); i++ {
		observe(randomLamp())
	}
	for i := 0; i < Pick(24, 200); i++ {
		l := randomLamp()
		if l.K != "point" {
			even(l, 1024)
		}
	}
}

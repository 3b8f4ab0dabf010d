// Driver for C13: rays through media.
package main

import (
	"math"

	"github.com/barnex/bruteray/api"
	"github.com/barnex/bruteray/geom"
	"github.com/barnex/bruteray/imagef/colorf"
	"github.com/barnex/bruteray/tracer"

	. "verifharness/vh"
)

const INF = 99999999

type ray struct {
	Y   int `json:"y"`
	Dy  int `json:"dy"`
	L   int `json:"L"`
	End int `json:"end"`
}
type medium struct {
	Kind string `json:"kind"`
	K    int    `json:"k"`
	H    int    `json:"h"`
	Amb  [3]int `json:"amb"`
	Nl   int    `json:"nl"`
}
type source struct {
	I   [3]int `json:"i"`
	Vis bool   `json:"vis"`
}
type scn struct {
	R      ray      `json:"r"`
	Ms     []medium `json:"ms"`
	Lights []source `json:"lights"`
	Base   [3]int   `json:"base"`
}

func col(c [3]int) colorf.Color {
	return colorf.Color{R: float64(c[0]) / 1e4, G: float64(c[1]) / 1e4, B: float64(c[2]) / 1e4}
}
func h(x int) float64 {
	if x == INF {
		return math.Inf(1)
	}
	return float64(x) / 8
}

// surface is hit by the primary ray only, at distance t; a mirror sends the
// light of the wall, which is hit by all other rays.
type surface struct {
	dir  geom.Vec
	t    float64
	m    tracer.Material
	norm geom.Vec
}

func (s *surface) Intersect(r *tracer.Ray) tracer.HitRecord {
	if r.Dir.Sub(s.dir).Len() > 1e-6 || math.IsInf(s.t, 1) {
		return tracer.HitRecord{T: -1}
	}
	return tracer.HitRecord{T: s.t, Normal: s.norm, Material: s.m}
}

// wall is hit by all rays but the primary one and those towards lights.
type wall struct {
	dir geom.Vec
	m   tracer.Material
}

func (w *wall) Intersect(r *tracer.Ray) tracer.HitRecord {
	if r.Dir.Sub(w.dir).Len() <= 1e-6 || math.Abs(r.Dir[0]) > 0.9999 {
		return tracer.HitRecord{T: -1}
	}
	return tracer.HitRecord{T: 5, Normal: geom.Vec{0, 1, 0}, Material: w.m}
}

// blocker blocks the rays towards the lights on its side.
type blocker struct{ x float64 }

func (b *blocker) Intersect(r *tracer.Ray) tracer.HitRecord {
	if r.Dir[0]*b.x > 0.9999 {
		return tracer.HitRecord{T: 3, Normal: geom.Vec{1, 0, 0}, Material: api.Flat(colorf.White)}
	}
	return tracer.HitRecord{T: -1}
}

// lamp is far away on the x axis and equally bright everywhere; it records
// where it was asked for.
type lamp struct {
	x    float64
	i    colorf.Color
	asks *[]geom.Vec
}

func (l *lamp) Object() tracer.Object { return none{} }
func (l *lamp) Sample(ctx *tracer.Ctx, p geom.Vec) (geom.Vec, colorf.Color) {
	*l.asks = append(*l.asks, p)
	return geom.Vec{p[0] + 1e6*l.x, p[1], p[2]}, l.i
}

type none struct{}

func (none) Intersect(*tracer.Ray) tracer.HitRecord { return tracer.HitRecord{T: -1} }

// spy tells which medium is at work.
type spy struct {
	tracer.Medium
	i   int
	cur *int
}

func (s *spy) Filter(ctx *tracer.Ctx, sc *tracer.Scene, r *tracer.Ray, t float64, c colorf.Color) colorf.Color {
	*s.cur = s.i
	return s.Medium.Filter(ctx, sc, r, t, c)
}

type cam struct{ start, dir geom.Vec }

func (c cam) RayFrom(ctx *tracer.Ctx, u, v float64) *tracer.Ray {
	r := ctx.Ray()
	r.Start, r.Dir = c.start, c.dir
	return r
}

type world struct {
	s     *tracer.Scene
	c     cam
	asks  []geom.Vec
	which []int
	cur   int
}

func medOf(m medium) tracer.Medium {
	d := float64(m.K) * math.Ln2 / 4
	if m.Kind == "exp" {
		return api.ExpFog(d, col(m.Amb), h(m.H))
	}
	return api.Fog(d, h(m.H), m.Nl)
}

func build(s scn, rec int, mirror bool) *world {
	w := &world{}
	dy := float64(s.R.Dy) / float64(s.R.L)
	hor := math.Sqrt(math.Max(0, 1-dy*dy))
	phi := (0.3 + 0.4*Rng.Float64()) * math.Pi
	if Rng.Intn(2) == 0 {
		phi = -phi
	}
	if s.R.Dy == s.R.L || s.R.Dy == -s.R.L {
		hor = 0
	}
	w.c = cam{geom.Vec{Rng.Float64()*10 - 5, float64(s.R.Y) / 8, Rng.Float64()*10 - 5}, geom.Vec{hor * math.Cos(phi), dy, hor * math.Sin(phi)}}
	sf := &surface{dir: w.c.dir, t: h(s.R.End), m: api.Flat(col(s.Base)), norm: geom.Vec{0, 0.3, 0.2}.Sub(w.c.dir)}
	wl := &wall{dir: w.c.dir, m: api.Flat(colorf.Color{R: 7, G: 8, B: 9})}
	if mirror {
		sf.m = api.Reflective(colorf.White)
		wl.m = api.Flat(col(s.Base))
	}
	var ls []tracer.Light
	for _, l := range s.Lights {
		x := 1.0
		if !l.Vis {
			x = -1
		}
		ls = append(ls, &lamp{x, col(l.I), &w.asks})
	}
	var ms []tracer.Medium
	for i, m := range s.Ms {
		ms = append(ms, &spy{medOf(m), i + 1, &w.cur})
	}
	w.s = tracer.NewSceneWithMedia(rec, ms, ls, sf, wl, &blocker{-1})
	return w
}

var ctx = tracer.NewCtx(1)

func (w *world) see(k int) colorf.Color {
	ctx.Init(0, k)
	ctx.CurrentRecursionDepth = 0
	if k%2 == 0 {
		return w.s.ImageFunc(w.c)(ctx, 0.5, 0.5)
	}
	r := w.c.RayFrom(ctx, 0, 0)
	c := w.s.LightField(ctx, r)
	ctx.PutRay(r)
	return c
}

func run(s scn, mirror bool) {
	rec := 1 + Rng.Intn(3)
	if mirror {
		rec = 2 + Rng.Intn(2)
	}
	if s.R.End == INF {
		mirror = false
	}
	Begin(s)
	w := build(s, rec, mirror)
	var c colorf.Color
	var pts [][]int
	msg := Try(func() {
		// one evaluation at a time, to attribute the points asked for
		w.asks = nil
		c = w.see(Rng.Intn(1000))
	})
	if len(w.asks) > 0 {
		pts = w.points(s)
	}
	base := s.Base
	if s.R.End == INF {
		base = [3]int{}
	}
	if pts == nil {
		pts = [][]int{}
	}
	Emit(M{"ev": "see", "r": s.R, "ms": s.Ms, "lights": s.Lights, "base": base, "mirror": mirror, "rec": rec, "msg": msg,
		"c": []int{R(c.R, 1e4), R(c.G, 1e4), R(c.B, 1e4)}, "pts": pts})
}

// points evaluates the media one by one to attribute the points asked for.
func (w *world) points(s scn) [][]int {
	var out [][]int
	for i := range s.Ms {
		t := s
		t.Ms = s.Ms[i : i+1]
		v := build(t, 1, false)
		msg := Try(func() { v.see(Rng.Intn(1000)) })
		if msg != "" {
			continue
		}
		if s.Ms[i].K == 0 {
			continue
		}
		for _, p := range v.asks {
			out = append(out, []int{i + 1, R(p.Sub(v.c.start).Dot(v.c.dir), 8000)})
		}
	}
	return out
}

func dist(r ray, k, hh int) {
	s := scn{R: r, Ms: []medium{{Kind: "lit", K: k, H: hh, Nl: 1}}, Lights: []source{{I: [3]int{1, 1, 1}, Vis: true}}}
	Begin(s)
	w := build(s, 1, false)
	var ts []int
	for i := 0; i < 256; i++ {
		w.asks = nil
		w.see(i)
		for _, p := range w.asks {
			ts = append(ts, R(p.Sub(w.c.start).Dot(w.c.dir), 8000))
		}
	}
	if ts == nil {
		ts = []int{}
	}
	Emit(M{"ev": "dist", "r": r, "k": k, "h": hh, "t": ts, "_w": 50})
}

var slopes = [][2]int{{0, 1}, {0, 1}, {1, 1}, {-1, 1}, {4, 5}, {-3, 5}, {1, 3}, {-2, 7}, {3, 7}, {6, 7}, {-6, 7}, {12, 13}, {-5, 13}, {1, 50}, {-1, 50}}

func randRay() ray {
	sl := slopes[Rng.Intn(len(slopes))]
	r := ray{Y: Rng.Intn(65) - 32, Dy: sl[0], L: sl[1], End: 1 + Rng.Intn(160)}
	if Rng.Intn(8) == 0 {
		r.End = INF
	}
	return r
}
func randH(r ray) int {
	for {
		x := Rng.Intn(65) - 32
		if Rng.Intn(6) == 0 {
			return INF
		}
		if Rng.Intn(6) == 0 {
			x = r.Y
		}
		if x != r.Y || r.Dy != 0 {
			return x
		}
	}
}

func main() {
	Init()
	Scenarios(func(dec func(interface{})) {
		var s scn
		dec(&s)
		run(s, Rng.Intn(3) == 0)
	})
	for i := 0; i < Pick(3000, 40000); i++ {
		s := scn{R: randRay(), Base: [3]int{Rng.Intn(40000), Rng.Intn(40000), Rng.Intn(40000)}}
		for k := Rng.Intn(4); k >= 0; k-- {
			m := medium{Kind: "exp", K: []int{Rng.Intn(12), Rng.Intn(12), Rng.Intn(60)}[Rng.Intn(3)], H: randH(s.R), Amb: [3]int{Rng.Intn(30000), Rng.Intn(30000), Rng.Intn(30000)}, Nl: Rng.Intn(4)}
			if Rng.Intn(2) == 0 {
				m.Kind = "lit"
			}
			s.Ms = append(s.Ms, m)
		}
		s.Lights = []source{}
		for k := Rng.Intn(4); k > 0; k-- {
			l := source{[3]int{Rng.Intn(30000), Rng.Intn(30000), Rng.Intn(30000)}, Rng.Intn(3) > 0}
			if Rng.Intn(4) == 0 {
				l.I = [3]int{}
			}
			s.Lights = append(s.Lights, l)
		}
		run(s, Rng.Intn(3) == 0)
	}
	for i := 0; i < Pick(60, 600); i++ {
		r := randRay()
		hh := INF
		if r.Dy != 0 {
			hh = r.Y + 1 + Rng.Intn(30)
			if r.Dy < 0 {
				hh = r.Y + Rng.Intn(40) - 20
			}
		}
		if r.End == INF && r.Dy > 0 || r.End < 16 {
			r.End = 40
		}
		if hh != INF && r.Dy < 0 && r.End != INF && (r.Y-hh)*r.L >= -r.Dy*r.End-8*r.L {
			continue
		}
		k := 1 + Rng.Intn(6)
		if i%3 == 0 {
			k = 8 + Rng.Intn(17)
		}
		dist(r, k, hh)
	}
	Flush()
}

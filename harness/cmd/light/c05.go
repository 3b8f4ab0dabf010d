package main

import (
	"fmt"
	"math"
	"math/rand"

	"github.com/barnex/bruteray/geom"
	"github.com/barnex/bruteray/imagef/colorf"
	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/cameras"
	"github.com/barnex/bruteray/tracer/lights"
	"github.com/barnex/bruteray/tracer/materials"
	"github.com/barnex/bruteray/tracer/media"
	"verifharness/geo"
	"verifharness/light"
	"verifharness/vh"
)

// recorder of what happens on one context
type rec struct {
	rng   *rand.Rand
	ids   map[*tracer.Ray]int
	was   map[*tracer.Ray]string // value when objects were last asked about it
	n     int                    // events
	limit int
	on    bool
	odd   bool
}

func bits(r *tracer.Ray) string {
	s := ""
	for _, v := range []geom.Vec{r.Start, r.Dir} {
		for _, x := range v {
			s += fmt.Sprintf("%x.", math.Float64bits(x))
		}
	}
	return s
}

func (e *rec) id(r *tracer.Ray) int {
	if e.ids[r] == 0 {
		e.ids[r] = len(e.ids) + 1
	}
	return e.ids[r]
}

func (e *rec) emit(m M) {
	if e.on {
		e.n++
		vh.Emit(m)
	}
}

// probe takes some rays for a moment and leaves garbage in them
func (e *rec) probe(ctx *tracer.Ctx) {
	n := 1 + e.rng.Intn(3)
	var rs []*tracer.Ray
	var ids []int
	for i := 0; i < n; i++ {
		r := ctx.Ray()
		rs = append(rs, r)
		ids = append(ids, e.id(r))
	}
	for _, r := range rs {
		*r = tracer.Ray{Start: geom.Vec{math.NaN(), 1e9, -1e9}, Dir: geom.Vec{math.NaN(), math.NaN(), 7}}
	}
	for _, r := range rs {
		ctx.PutRay(r)
	}
	e.emit(M{"ev": "probe", "rays": ids})
}

type wrapped struct {
	m   tracer.Material
	e   *rec
	add *colorf.Color // unusual brightness: undefined, negative, infinite
}

func (w wrapped) Shade(ctx *tracer.Ctx, s *tracer.Scene, r *tracer.Ray, h tracer.HitCoords) colorf.Color {
	w.e.emit(M{"ev": "enter", "ray": w.e.id(r), "val": bits(r), "level": ctx.CurrentRecursionDepth})
	w.e.probe(ctx)
	c := w.m.Shade(ctx, s, r, h)
	if w.add != nil {
		c = *w.add
	}
	w.e.probe(ctx)
	w.e.emit(M{"ev": "exit", "ray": w.e.id(r), "val": bits(r), "level": ctx.CurrentRecursionDepth})
	return c
}

// a transparent one must stay recognisable
type wrappedT struct {
	wrapped
	t tracer.TransparentMaterial
}

func (w wrappedT) Filter(r *tracer.Ray, h tracer.HitRecord, c colorf.Color) colorf.Color {
	return w.t.Filter(r, h, c)
}

func (e *rec) wrap(m tracer.Material) tracer.Material {
	var add *colorf.Color
	if e.odd && e.rng.Intn(3) == 0 {
		x := []float64{math.NaN(), -1, math.Inf(1), math.Inf(-1), 0, 1e300}[e.rng.Intn(6)]
		add = &colorf.Color{R: x, G: x, B: x}
		switch e.rng.Intn(4) {
		case 0:
			add.R = 1
		case 1:
			add.B = 1
		}
	}
	if t, ok := m.(tracer.TransparentMaterial); ok {
		return wrappedT{wrapped{m, e, add}, t}
	}
	return wrapped{m, e, add}
}

type watched struct {
	o tracer.Object
	e *rec
}

func (w watched) Intersect(r *tracer.Ray) tracer.HitRecord {
	a := bits(r)
	w.e.was[r] = a
	h := w.o.Intersect(r)
	if b := bits(r); a != b || w.e.rng.Intn(10) == 0 {
		w.e.emit(M{"ev": "isect", "a": a, "b": b})
	}
	return h
}

type probing struct{ e *rec }

func (p probing) Filter(ctx *tracer.Ctx, s *tracer.Scene, r *tracer.Ray, t float64, c colorf.Color) colorf.Color {
	p.e.emit(M{"ev": "medium", "ray": p.e.id(r), "val": bits(r), "was": p.e.was[r], "level": ctx.CurrentRecursionDepth})
	p.e.probe(ctx)
	return c
}

// nested evaluates layered scenes again and again on one context
func nested(rng *rand.Rand, i int) {
	kinds := []string{"flat", "refl", "trans", "refr", "blend", "bmap", "two", "fres"}
	if i%2 == 0 {
		kinds = []string{"flat", "matte", "matte", "refl", "trans", "blend", "bmap", "two"}
	}
	desc := light.GenScene(rng, 4, 2, 4, kinds)
	vh.Emit(M{"ev": "reset", "scn": desc})
	vh.Begin(desc)
	e := &rec{rng: rng, ids: map[*tracer.Ray]int{}, was: map[*tracer.Ray]string{}, on: true, odd: i%4 == 3}
	d := light.Decode(desc)
	var md []tracer.Medium
	switch rng.Intn(3) {
	case 0:
		md = []tracer.Medium{probing{e}}
	case 1:
		md = []tracer.Medium{probing{e}, media.ExpFog(0.1, colorf.Color{R: 1, G: 0.5, B: 0.25}, float64(rng.Intn(20)-10)), probing{e}}
	}
	s := d.Build(rng, light.Opts{
		Wrap:    e.wrap,
		WrapObj: func(o tracer.Object) tracer.Object { return watched{o, e} },
		OnLight: e.probe,
		Media:   md,
	})
	ctx := tracer.NewCtx(4)
	type shot struct {
		y      int
		sl     string
		up     bool
		ind    bool
		az     int64
		viaCam bool
	}
	var shots []shot
	for k := 0; k < 3; k++ {
		shots = append(shots, shot{2 * (rng.Intn(21) - 10), []string{"V", "A", "B"}[rng.Intn(3)], rng.Intn(2) == 0, rng.Intn(5) == 0, rng.Int63(), rng.Intn(2) == 0})
	}
	for pass := 0; pass < 4; pass++ {
		if pass == 3 {
			ctx = tracer.NewCtx(4) // a fresh one must give the same
		}
		for k, sh := range shots {
			if e.n > 400 {
				e.on = false // enough of the details; results are still recorded
			}
			ctx.Init(rng.Intn(4), pass)
			var c colorf.Color
			msg := vh.Try(func() {
				r0 := light.Ray(rand.New(rand.NewSource(sh.az)), sh.y, sh.sl, sh.up)
				if sh.viaCam { // as an image function does
					f := s.ImageFunc(camFunc(func(ctx *tracer.Ctx, u, v float64) *tracer.Ray {
						r := ctx.Ray()
						*r = *r0
						return r
					}))
					c = f(ctx, 0, 0)
					return
				}
				r := ctx.Ray()
				*r = *r0
				was := bits(r)
				if sh.ind {
					c = s.LightFieldIndirect(ctx, r)
				} else {
					c = s.LightField(ctx, r)
				}
				e.emit(M{"ev": "isect", "a": was, "b": bits(r)})
				ctx.PutRay(r)
			})
			vh.Emit(M{"ev": "idle", "level": ctx.CurrentRecursionDepth, "msg": msg})
			if msg != "" {
				return
			}
			e.probe(ctx)
			vh.Emit(M{"ev": "result", "key": k + 1, "c": light.Col(c)})
		}
	}
}

type camFunc func(ctx *tracer.Ctx, u, v float64) *tracer.Ray

func (f camFunc) RayFrom(ctx *tracer.Ctx, u, v float64) *tracer.Ray { return f(ctx, u, v) }

// realistic scenes: every camera, light and medium, with sampled randomness
func real(rng *rand.Rand, g *geo.Gen) {
	vh.Emit(M{"ev": "reset"})
	e := &rec{rng: rng, ids: map[*tracer.Ray]int{}, was: map[*tracer.Ray]string{}, on: true, odd: rng.Intn(4) == 0}
	mats := map[int]tracer.Material{}
	geo.Materials = func(id int) tracer.Material {
		if mats[id] == nil {
			m := light.Decode(M{"layers": []M{{"y": 0, "m": light.Gen(rng, 2, light.All)}}}).Layers[0].M
			mats[id] = m.Build(rng, e.wrap)
		}
		return mats[id]
	}
	defer func() { geo.Materials = nil }()
	var desc []M
	for n := 1 + rng.Intn(4); n > 0; n-- {
		switch rng.Intn(4) {
		case 0:
			desc = append(desc, g.Csg(2))
		case 1:
			desc = append(desc, M{"k": "tr", "mode": "", "ops": g.Ops(2, false), "x": g.Prim()})
		case 2:
			desc = append(desc, M{"k": "tree", "xs": []M{g.Prim(), g.Prim(), M{"k": "tr", "mode": "", "ops": g.Ops(1, false), "x": g.Csg(1)}}})
		case 3:
			desc = append(desc, g.Prim())
		}
	}
	cam := rng.Intn(5)
	vh.Begin(M{"objs": desc, "cam": cam})
	var objs []tracer.Object
	var ctx *tracer.Ctx
	msg := vh.Try(func() {
		for _, x := range desc {
			objs = append(objs, watched{geo.Parse(x).Build(), e})
		}
		objs = append(objs, sky{func(r *tracer.Ray) colorf.Color { return colorf.White }})
		ls := []tracer.Light{lights.PointLight(colorf.White, geom.Vec{5, 5, 5}), lights.RectangleLight(colorf.White, 1, 1, geom.Vec{0, 6, 0}),
			lights.DiskLight(colorf.White, 1, geom.Vec{0, 5, 1}), lights.SunLight(colorf.White, 0.1, 0.3, 0.4)}
		ls = append(ls, lights.Transformed(ls[1], geom.Rotate(geom.Vec{}, geom.Vec{1, 0, 0}, 1)))
		rng.Shuffle(len(ls), func(i, j int) { ls[i], ls[j] = ls[j], ls[i] })
		ls = ls[:rng.Intn(4)]
		md := []tracer.Medium{probing{e}, media.Fog(0.2, 3, 3), probing{e}, media.ExpFog(0.1, colorf.White, 2)}[:rng.Intn(5)]
		s := tracer.NewSceneWithMedia(1+rng.Intn(3), md, ls, objs...)
		var c tracer.Camera
		switch cam {
		case 0:
			c = cameras.Projective(1.5).Translate(geom.Vec{0, 1, 8})
		case 1:
			c = cameras.ProjectiveAperture(1.5, 0.1, 5).Translate(geom.Vec{0, 1, 8})
		case 2:
			c = cameras.Isometric(rng.Intn(3), 8)
		case 3:
			c = cameras.EnvironmentMap()
		case 4:
			c = cameras.Projective(1).YawPitchRoll(0.1, 0.2, 0).Translate(geom.Vec{0, 0, 8}).YawPitchRoll(0, 0.1, 1)
		}
		f := s.ImageFunc(c)
		ctx = tracer.NewCtx(4)
		for k := 0; k < 6 && e.n < 500; k++ {
			ctx.Init(rng.Intn(4), k)
			f(ctx, rng.Float64(), rng.Float64())
			vh.Emit(M{"ev": "idle", "level": ctx.CurrentRecursionDepth, "msg": ""})
		}
	})
	if msg != "" {
		vh.Emit(M{"ev": "idle", "level": 0, "msg": msg})
	}
}

// untouched: no object or shadow test changes the ray it is asked about
func untouched(g *geo.Gen) {
	vh.Emit(M{"ev": "reset"})
	var o M
	var rays [][2]geo.V
	switch g.Intn(7) {
	case 0:
		o = g.Csg(3)
	case 1:
		o = M{"k": "tr", "mode": []string{"", "lr", "undo", "api"}[g.Intn(4)], "ops": g.Ops(1+g.Intn(3), false), "x": g.Csg(2)}
	case 2:
		o = M{"k": "tree", "xs": []M{g.Prim(), M{"k": "tr", "mode": "", "ops": g.Ops(2, false), "x": g.Prim()}, g.Csg(2)}}
	case 3:
		x := M{"k": "tr", "mode": "", "ops": g.Ops(2, false), "x": g.Csg(1)}
		o = M{"k": []string{"and", "or", "dif", "res"}[g.Intn(4)], "x": x, "y": g.Csg(2)}
	case 4:
		o = M{"k": "tr", "mode": "", "ops": g.Ops(2, false), "x": M{"k": "bnd", "x": M{"k": "tr", "mode": "", "ops": g.Ops(1, false), "x": g.Csg(1)}}}
	case 5:
		o = M{"k": "remap", "dv": g.Pt(), "x": M{"k": "hol", "x": g.Csg(2)}}
	case 6: // more surfaces in a row than a combination looks for
		var xs []M
		ax := g.Intn(3)
		for i := 20 + g.Intn(50); i > 0; i-- {
			lo, hi := geo.V{-20, -20, -20}, geo.V{20, 20, 20}
			lo[ax], hi[ax] = 2*i, 2*i+1
			xs = append(xs, M{"k": "box", "lo": lo, "hi": hi, "m": g.NextID()})
		}
		x := M{"k": "tree", "xs": xs}
		y := []M{g.Solid(), {"k": "box", "lo": geo.V{-30, -30, -30}, "hi": geo.V{200, 200, 200}, "m": g.NextID()}}[g.Intn(2)]
		if g.Intn(2) == 0 {
			x, y = y, x
		}
		o = M{"k": []string{"and", "or", "dif", "res"}[g.Intn(4)], "x": x, "y": y}
		for i := 0; i < 10; i++ {
			s, d := geo.V{g.Intn(17) - 8, g.Intn(17) - 8, g.Intn(17) - 8}, geo.V{}
			s[ax], d[ax] = -10, 9
			d[(ax+1)%3] = g.Intn(3) - 1
			if g.Intn(2) == 0 {
				s[ax], d[ax] = 150, -9
			}
			rays = append(rays, [2]geo.V{s, d})
		}
	}
	vh.Begin(o)
	msg := vh.Try(func() {
		x := geo.Parse(o).Build()
		var obj tracer.Object = x
		m := materials.Transparent(colorf.White, true)
		geo.Materials = func(int) tracer.Material { return m }
		glass := geo.Parse(o).Build()
		geo.Materials = nil
		s := tracer.NewScene(1, nil, glass, x)
		if rays == nil {
			rays = g.Rays(20)
		}
		for i, sd := range rays {
			r := geo.RayOf(sd[0], sd[1])
			if i%2 == 0 && len(rays) != 10 {
				for k := range r.Dir {
					r.Start[k] += 0.1 * g.NormFloat64()
					r.Dir[k] += 0.1 * g.NormFloat64()
				}
			}
			a := bits(r)
			obj.Intersect(r)
			vh.Emit(M{"ev": "isect", "a": a, "b": bits(r)})
			s.Occlude(r, 100*g.Float64(), colorf.White)
			vh.Emit(M{"ev": "isect", "a": a, "b": bits(r)})
		}
	})
	geo.Materials = nil
	vh.Emit(M{"ev": "idle", "level": 0, "msg": msg})
}

func c05(rng *rand.Rand) {
	for i := 0; i < vh.Pick(400, 4000); i++ {
		nested(rng, i)
	}
	g := &geo.Gen{Rand: rng, Lat: 4, Ext: 16}
	for i := 0; i < vh.Pick(300, 3000); i++ {
		real(rng, g)
	}
	for i := 0; i < vh.Pick(300, 3000); i++ {
		untouched(g)
	}
}

// geo records how the real code intersects, contains and bounds objects (C07 - C11).
package main

import (
	"flag"
	"fmt"
	"math"

	"github.com/barnex/bruteray/api"
	"github.com/barnex/bruteray/geom"
	"github.com/barnex/bruteray/imagef/colorf"
	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/objects"
	"verifharness/geo"
	"verifharness/vh"
)

type M = vh.M
type V = geo.V

var mode = flag.String("mode", "", "property")

func main() {
	vh.Init()
	defer vh.Flush()
	g := &geo.Gen{Rand: vh.Rng, Lat: 1, Ext: 24}
	switch *mode {
	case "C07":
		c07(g)
	case "C08":
		c08(g)
	case "C09":
		c09(g)
	case "C10":
		c10(g)
	case "C11":
		c11(g)
	}
}

// ---- C07: nearest of many, in any order and grouping

func group(g *geo.Gen, xs []M) M {
	var ys []M
	for len(xs) > 0 {
		k := 1 + g.Intn(len(xs))
		if k > 1 && k < len(xs) && g.Intn(2) == 0 {
			ys = append(ys, group(g, xs[:k]))
		} else {
			ys = append(ys, xs[:k]...)
		}
		xs = xs[k:]
	}
	return M{"k": "tree", "xs": ys}
}

// recorder is a material that remembers where it was shaded.
type recorder struct {
	id  int
	hit *tracer.HitRecord
}

func (m recorder) Shade(_ *tracer.Ctx, _ *tracer.Scene, _ *tracer.Ray, h tracer.HitCoords) colorf.Color {
	*m.hit = tracer.HitRecord{T: h.T, Normal: h.Normal, Local: h.Local, Material: geo.MatOf(m.id)}
	return colorf.Color{R: float64(m.id)}
}

// scene shows a list of objects through the scene's light field
func scene(g *geo.Gen, xs []M, n int) {
	desc := M{"k": "tree", "xs": xs}
	vh.Begin(desc)
	rays := []M{}
	msg := vh.Try(func() {
		var hit tracer.HitRecord
		var objs []tracer.Object
		for _, x := range xs {
			objs = append(objs, objects.WithMaterial(recorder{x["m"].(int), &hit}, geo.Parse(x).Build()))
		}
		s := tracer.NewScene(1, nil, objs...)
		ctx := tracer.NewCtx(1)
		for _, sd := range g.Rays(n) {
			hit = tracer.HitRecord{}
			r := geo.RayOf(sd[0], sd[1])
			c := s.LightField(ctx, r)
			m := geo.HitRec(r, hit)
			m["s"], m["d"], m["msg"] = sd[0], sd[1], ""
			if int(c.R) != m["m"].(int) {
				m["m"] = -2
			}
			rays = append(rays, m)
		}
	})
	vh.Emit(M{"ev": "rays", "o": desc, "rays": rays, "msg": msg, "zoom": geo.Zoom})
}

func list(g *geo.Gen, n int) []M {
	var xs []M
	for i := 0; i < n; i++ {
		if n <= 5 && g.Intn(2) == 0 {
			xs = append(xs, g.Prim())
		} else {
			xs = append(xs, g.Small())
		}
	}
	return xs
}

func c07(g *geo.Gen) {
	g.Ext = 40
	for i := 0; i < vh.Pick(150, 1200); i++ {
		g.Zoomed()
		g.Moved()
		n := 1 + g.Intn(9)
		switch i % 6 {
		case 4:
			n = 8 + g.Intn(30)
		case 5:
			n = 30 + g.Intn(vh.Pick(30, 100))
		}
		xs := list(g, n)
		rays := 16
		for k := 0; k < 2; k++ {
			g.Shuffle(len(xs), func(i, j int) { xs[i], xs[j] = xs[j], xs[i] })
			g.Observe(M{"k": "tree", "xs": xs}, rays)
			g.Observe(group(g, xs), rays)
			scene(g, xs, rays)
		}
		g.Points(M{"k": "tree", "xs": xs}, rays)
		g.Points(group(g, xs), rays)
		// with a backdrop somewhere
		b := M{"k": "bak", "m": g.NextID()}
		at := g.Intn(len(xs) + 1)
		ys := append(append(append([]M{}, xs[:at]...), b), xs[at:]...)
		scene(g, ys, rays)
		g.Observe(group(g, ys), rays)
	}
	geo.Zoom, geo.Away = 1, geom.Vec{}
	for i := 0; i < vh.Pick(16, 80); i++ {
		many(g)
	}
	// grids of equal objects, so that the hierarchy splits along every axis
	for i := 0; i < vh.Pick(12, 60); i++ {
		g.Zoomed()
		var xs []M
		a := g.Intn(3)
		for x := -2; x <= 2; x++ {
			for y := -2; y <= 2; y++ {
				for z := -2; z <= 2; z++ {
					p := V{8 * x, 8 * y, 8 * z}
					if p[a] > 8 || p[a] < -8 {
						continue
					}
					xs = append(xs, M{"k": "box", "lo": p, "hi": V{p[0] + 3, p[1] + 3, p[2] + 3}, "m": g.NextID()})
				}
			}
		}
		g.Shuffle(len(xs), func(i, j int) { xs[i], xs[j] = xs[j], xs[i] })
		g.Observe(M{"k": "tree", "xs": xs}, 40)
	}
}

// many observes large collections: cells (i, j, k) of a lattice which grows along each
// axis as 4i + q*i*i hold a box or ball of size 2, except where (7i + 11j + 13k) % mod = 0.
func many(g *geo.Gen) {
	n := []int{60, 200, 1000, 4000, vh.Pick(12000, 60000)}[g.Intn(5)]
	var dim, q V
	switch g.Intn(3) {
	case 0:
		a := 2 + int(math.Cbrt(float64(n)))
		dim = V{a, a, a}
	case 1:
		dim = V{1 + n/4, 2, 2}
	case 2:
		a := 1 + int(math.Sqrt(float64(n)))
		dim = V{a, 1, a}
	}
	r := g.Intn(3)
	dim = V{dim[r], dim[(r+1)%3], dim[(r+2)%3]}
	for a := range q {
		if dim[a] <= 300 {
			q[a] = []int{0, 0, 1, 5}[g.Intn(4)]
		}
	}
	mod := 2 + g.Intn(9)
	kind := g.Intn(2)
	how := g.Intn(4) // one tree, nested trees, a scene
	desc := M{"dim": dim, "q": q, "mod": mod, "how": how}
	vh.Begin(desc)
	pos := func(a, i int) int { return 4*i + q[a]*i*i }
	rays, pts, slabs := []M{}, []M{}, [][2]int{}
	msg := vh.Try(func() {
		var objs []objects.Interface
		var rec tracer.HitRecord
		for i := 0; i < dim[0]; i++ {
			for j := 0; j < dim[1]; j++ {
				for k := 0; k < dim[2]; k++ {
					if (7*i+11*j+13*k)%mod == 0 {
						continue
					}
					id := (i*dim[1]+j)*dim[2] + k
					var m tracer.Material = geo.MatOf(id)
					if how == 3 {
						m = recorder{id, &rec}
					}
					c := geom.Vec{float64(pos(0, i) + 1), float64(pos(1, j) + 1), float64(pos(2, k) + 1)}
					if kind == 0 {
						objs = append(objs, objects.Box(m, 2, 2, 2, c))
					} else {
						objs = append(objs, objects.Sphere(m, 2, c))
					}
				}
			}
		}
		if g.Intn(3) != 0 {
			g.Shuffle(len(objs), func(i, j int) { objs[i], objs[j] = objs[j], objs[i] })
		}
		var all objects.Interface
		switch how {
		case 0, 1:
			all = objects.Tree(append([]objects.Interface{}, objs...)...)
		case 2:
			var groups []objects.Interface
			for len(objs) > 0 {
				m := 1 + g.Intn(len(objs))
				groups = append(groups, objects.Tree(append([]objects.Interface{}, objs[:m]...)...))
				objs = objs[m:]
				if g.Intn(3) == 0 { // nest what there is
					groups = []objects.Interface{objects.Tree(groups...)}
				}
			}
			all = objects.Tree(groups...)
		}
		see := func(r *tracer.Ray) tracer.HitRecord { return all.Intersect(r) }
		if how == 3 {
			var os []tracer.Object
			for _, o := range objs {
				os = append(os, o)
			}
			s := tracer.NewScene(1, nil, os...)
			ctx := tracer.NewCtx(1)
			see = func(r *tracer.Ray) tracer.HitRecord {
				rec = tracer.HitRecord{}
				s.LightField(ctx, r)
				return rec
			}
		}
		// every cell once: which contain their centre, and which are seen from just before them
		for i := 0; i < dim[0] && (how != 3 || len(objs) < 500); i++ {
			c := [2]int{}
			for j := 0; j < dim[1]; j++ {
				for k := 0; k < dim[2]; k++ {
					p := geom.Vec{float64(pos(0, i) + 1), float64(pos(1, j) + 1), float64(pos(2, k) + 1)}
					if all != nil && all.Inside(p) {
						c[0]++
					}
					p[2] -= 2
					h := see(&tracer.Ray{Start: p, Dir: geom.Vec{0, 0, 1}})
					if m, ok := h.Material.(*geo.Mat); ok && m.ID == (i*dim[1]+j)*dim[2]+k && h.T == 1 {
						c[1]++
					}
				}
			}
			slabs = append(slabs, c)
		}
		for n := 0; n < vh.Pick(60, 200); n++ {
			ax, sg := g.Intn(3), 1-2*g.Intn(2)
			var cell V
			var st, d geom.Vec
			for a := range cell {
				cell[a] = g.Intn(dim[a])
				st[a] = float64(pos(a, cell[a]) + 1)
			}
			in := g.Intn(2) // start in the cell or beyond it
			cell[ax] = g.Intn(dim[ax]+1) - 1 + in
			if g.Intn(3) == 0 { // all the way through
				cell[ax], in = -1, 0
				if sg < 0 {
					cell[ax] = dim[ax] - 1
				}
			}
			if cell[ax] == dim[ax] {
				cell[ax]--
			}
			s := pos(ax, cell[ax]) + 3 - 2*in
			if cell[ax] < 0 {
				s = -1
			}
			st[ax], d[ax] = float64(s), float64(sg)
			off := 0
			if g.Intn(4) == 0 { // between the lines of cells
				off = 1
				st[(ax+1+g.Intn(2))%3] += 2
			}
			h := see(&tracer.Ray{Start: st, Dir: d})
			id := -1
			if m, ok := h.Material.(*geo.Mat); ok && h.T > 0 {
				id = m.ID
			}
			rays = append(rays, M{"ax": ax + 1, "sg": sg, "cell": cell, "s": s, "off": off, "t": vh.R(h.T, 64), "m": id})
			if all != nil && cell[ax] >= 0 {
				pts = append(pts, M{"cell": cell, "off": off + 1 - in, "in": all.Inside(st)})
			}
		}
	})
	desc["ev"], desc["rays"], desc["pts"], desc["slabs"], desc["msg"], desc["_w"] = "many", rays, pts, slabs, msg, 4+(dim[0]*dim[1]*dim[2])/100
	vh.Emit(desc)
}

// ---- C08: boolean combinations

func c08(g *geo.Gen) {
	i, off := 0, g.Intn(4)
	vh.Scenarios(func(dec func(interface{})) {
		var o M
		dec(&o)
		i++
		if !vh.Thorough() && i%4 != off {
			return
		}
		g.Zoomed()
		g.Observe(o, 14)
		g.Points(o, 6)
	})
	for i := 0; i < vh.Pick(800, 12000); i++ {
		g.Zoomed()
		g.Moved()
		o := g.Csg(1 + g.Intn(3))
		g.Observe(o, 14)
		g.Points(o, 14)
	}
	for i := 0; i < vh.Pick(80, 800); i++ {
		g.Zoomed()
		g.Moved()
		rows(g)
	}
	for i := 0; i < vh.Pick(160, 2000); i++ { // groups, infinite and transformed operands
		g.Zoomed()
		g.Moved()
		h := *g
		h.Lat, h.Ext = 4, 16
		var o M
		switch i % 4 {
		case 0:
			o = M{"k": "dif", "x": g.Solid(), "y": g.Inf()}
		case 1:
			o = M{"k": "and", "x": M{"k": "tree", "xs": []M{g.Solid(), g.Solid(), g.Surface()}}, "y": g.Csg(1)}
		case 2:
			o = M{"k": "dif", "x": g.Solid(), "y": M{"k": "tree", "xs": []M{g.Solid(), g.Solid()}}}
		case 3:
			o = M{"k": []string{"and", "or", "dif", "res", "rem"}[g.Intn(5)], "variant": 1,
				"x": M{"k": "tr", "ops": h.Ops(2, false), "x": h.Solid(), "mode": "lr"},
				"y": M{"k": "tr", "ops": h.Ops(2, false), "x": h.Csg(1), "mode": ""}}
			if !small(o) {
				continue
			}
		}
		g.Observe(o, 14)
		g.Points(o, 14)
	}
}

// rows combines rows of many thin slabs, which rays cross one after the other
func rows(g *geo.Gen) {
	ax := g.Intn(3)
	row := func() M {
		var xs []M
		for x := -24 + g.Intn(6); x < 24 && len(xs) < 16; {
			lo, hi := V{-20, -20, -20}, V{20, 20, 20}
			lo[ax] = x
			x += 1 + g.Intn(2)
			hi[ax] = x
			x += 1 + g.Intn(2)
			xs = append(xs, M{"k": "box", "lo": lo, "hi": hi, "m": g.NextID()})
		}
		g.Shuffle(len(xs), func(i, j int) { xs[i], xs[j] = xs[j], xs[i] })
		return M{"k": "tree", "xs": xs}
	}
	o := M{"k": []string{"and", "or", "dif", "res", "rem"}[g.Intn(5)], "variant": 1, "x": row(), "y": row()}
	switch g.Intn(3) {
	case 0:
		o["x"] = g.Solid()
	case 1:
		o["y"] = g.Solid()
	}
	if g.Intn(3) == 0 {
		o = M{"k": []string{"and", "dif"}[g.Intn(2)], "variant": 1, "x": o, "y": g.Solid()}
	}
	var rays [][2]V
	for i := 0; i < 14; i++ {
		s, d := V{g.Intn(17) - 8, g.Intn(17) - 8, g.Intn(17) - 8}, V{}
		d[ax] = 1 - 2*g.Intn(2)
		s[ax] = g.Intn(40) - 20
		if g.Intn(3) != 0 {
			s[ax] = -40 * d[ax]
		}
		if g.Intn(3) == 0 {
			d[ax] *= 3
			d[(ax+1)%3] = g.Intn(3) - 1
		}
		rays = append(rays, [2]V{s, d})
	}
	g.ObserveRays(o, rays)
	g.Points(o, 14)
}

// small tells whether an object stays in the range where Geo.tla is exact.
func small(o M) bool {
	ok := false
	vh.Try(func() { ok = inRange(geo.Parse(o)) })
	return ok
}

func inRange(o *geo.Obj) bool {
	switch {
	case len(o.Xs) > 0:
		for _, x := range o.Xs {
			if !inRange(x) {
				return false
			}
		}
		return true
	case o.K == "tr" || (o.X == nil && o.Y == nil):
		if o.K == "tr" && !inRange(o.X) {
			return false
		}
		x := o.X
		for x != nil && x.X != nil {
			x = x.X
		}
		b := o.Build().Bounds()
		for i := range b.Min {
			if !(math.IsInf(b.Min[i], -1) || b.Min[i] >= -8*geo.Zoom) || !(math.IsInf(b.Max[i], 1) || b.Max[i] <= 8*geo.Zoom) {
				return false
			}
		}
		return true
	}
	return (o.X == nil || inRange(o.X)) && (o.Y == nil || inRange(o.Y))
}

// ---- C09: bounding boxes

func c09(g *geo.Gen) {
	g.Ext = 24
	for i := 0; i < vh.Pick(600, 8000); i++ {
		g.Zoomed()
		g.Moved()
		var o M
		switch i % 8 {
		case 0:
			o = g.Solid()
		case 1:
			o = g.Surface()
		case 2:
			o = g.Csg(2)
		case 3:
			o = group(g, list(g, 1+g.Intn(12)))
		case 4:
			o = g.Inf()
		case 5:
			o = M{"k": []string{"or", "dif", "and", "res", "rem"}[g.Intn(5)], "x": g.Solid(), "y": g.Inf()}
		case 6:
			o = M{"k": "tree", "xs": append(list(g, 1+g.Intn(9)), g.Inf())}
		case 7:
			o = M{"k": "cap", "c": g.Pt(), "r": 4 + g.Intn(8), "h": 4 + g.Intn(8), "m": g.NextID()}
		}
		g.Boxes(o, 20)
		if i%4 == 0 {
			z := geo.Zoom
			geo.Zoom = 1
			g.Boxes(M{"k": "iso", "lx": 8 + g.Intn(24), "lz": 8 + g.Intn(24), "hy": 2 * (2 + g.Intn(8)), "fn": g.Intn(6), "m": g.NextID()}, 20)
			geo.Zoom = z
		}
		for _, w := range []M{{"k": "bnd", "x": o}, {"k": "tree", "xs": []M{o}}} {
			same(g, w, o)
		}
		h := *g
		h.Lat, h.Ext = 4, 16
		t := M{"k": "tr", "mode": []string{"", "lr", "undo", "api"}[g.Intn(4)], "ops": h.Ops(1+g.Intn(3), false), "x": h.Prim()}
		switch i % 5 {
		case 3:
			t["x"] = h.Inf()
		case 4:
			t["x"] = h.Csg(2)
		}
		if small(t) {
			g.Observe(t, 10)
			g.Boxes(t, 10)
			t = M{"k": "bnd", "x": M{"k": "tree", "xs": []M{t, g.Solid()}}}
			g.Observe(t, 10)
			g.Boxes(t, 10)
		}
		turned(g, o)
	}
}

func same(g *geo.Gen, w, o M) {
	scn := M{"zoom": geo.Zoom, "away": fmt.Sprint(geo.Away), "with": w, "without": o}
	vh.Begin(scn)
	var a, b []M
	msg := vh.Try(func() {
		x, y := geo.Parse(w).Build(), geo.Parse(o).Build()
		for i := 0; i < 24; i++ { // in no particular position, along an axis, or from a lattice plane
			r := tracer.Ray{Start: geom.Vec{4 * g.NormFloat64(), 4 * g.NormFloat64(), 4 * g.NormFloat64()}}
			for i := range r.Start {
				r.Dir[i] = 2*g.NormFloat64() - r.Start[i]
			}
			switch g.Intn(4) {
			case 0:
				k := g.Intn(3)
				r.Dir[(k+1)%3], r.Dir[(k+2)%3] = 0, 0
			case 1:
				k := g.Intn(3)
				r.Start[k] = math.Round(8*r.Start[k]) / 8
			}
			r.Dir.Normalize()
			r.Start = r.Start.Mul(geo.Zoom).Add(geo.Away)
			r1, r2 := r, r
			a = append(a, geo.HitRec(&r1, x.Intersect(&r1)))
			b = append(b, geo.HitRec(&r2, y.Intersect(&r2)))
			p := geom.Vec{3 * g.NormFloat64(), 3 * g.NormFloat64(), 3 * g.NormFloat64()}.Mul(geo.Zoom).Add(geo.Away)
			a = append(a, M{"in": x.Inside(p)})
			b = append(b, M{"in": y.Inside(p)})
		}
	})
	if a == nil {
		a, b = []M{}, []M{}
	}
	vh.Emit(M{"ev": "same", "scn": scn, "a": a, "b": b, "msg": msg})
}

// turned observes an object turned by arbitrary angles: hits lie in the box
// and are those of the original with the ray turned back.
func turned(g *geo.Gen, desc M) {
	geo.Away = geom.Vec{}
	ax := geom.Vec{g.NormFloat64(), g.NormFloat64(), g.NormFloat64()}
	t := geom.ComposeLR(geom.Rotate(geom.Vec{}, ax, 6*g.Float64()), geom.Scale(geom.Vec{geo.Zoom, 0, 0}, 0.5+g.Float64()),
		geom.Translate(geom.Vec{g.NormFloat64(), g.NormFloat64(), g.NormFloat64()}.Mul(geo.Zoom)))
	scn := M{"zoom": geo.Zoom, "turned": desc, "axis": ax, "t": t}
	vh.Begin(scn)
	hits, ts := []V{}, [][2]int{}
	var b M
	msg := vh.Try(func() {
		orig := geo.Parse(desc).Build()
		o := objects.Transformed(orig, t)
		b = geo.Bounds(o)
		inv := t.Inverse()
		for i := 0; i < 16; i++ {
			r := &tracer.Ray{Start: geom.Vec{4 * g.NormFloat64(), 4 * g.NormFloat64(), 4 * g.NormFloat64()}}
			for i := range r.Start {
				r.Dir[i] = 2*g.NormFloat64() - r.Start[i]
			}
			r.Dir.Normalize()
			r.Start = r.Start.Mul(geo.Zoom)
			r0 := &tracer.Ray{Start: inv.TransformPoint(r.Start), Dir: inv.TransformDir(r.Dir)}
			h, h0 := geo.Hit(o, r), geo.Hit(orig, r0)
			ts = append(ts, [2]int{h["t"].(int), h0["t"].(int)})
			if k := h["t"].(int); k > 0 && k < 1000000 {
				hits = append(hits, h["p"].(V))
			}
		}
	})
	if msg != "" {
		b = M{"lo": V{}, "hi": V{}}
	}
	vh.Emit(M{"ev": "box", "scn": scn, "b": b, "hits": hits, "ts": ts, "msg": msg})
}

// ---- C10: transforms

func c10(g *geo.Gen) {
	modes := []string{"", "lr", "chain", "after", "undo", "api", "translated"}
	for i := 0; i < vh.Pick(1400, 15000); i++ {
		g.Zoomed()
		h := *g
		h.Lat, h.Ext = 4, 16
		mode := modes[i%len(modes)]
		helpers := mode == "api"
		if helpers {
			h.Lat = 8
		}
		var x M
		switch g.Intn(6) {
		case 0, 1:
			x = h.Solid()
		case 2, 3:
			x = h.Surface()
		case 4:
			x = h.Csg(1 + g.Intn(2))
			helpers = false
		case 5:
			x = M{"k": "tree", "xs": []M{h.Solid(), h.Surface(), h.Solid()}}
		}
		nops := 1 + g.Intn(4)
		if g.Intn(4) == 0 {
			nops = 5 + g.Intn(4)
		}
		o := M{"k": "tr", "mode": mode, "ops": h.Ops(nops, helpers), "x": x}
		if w := width(x); helpers && w > 0 && g.Intn(2) == 0 { // to half its size
			ops := []M{{"k": "sts", "l": w / 2}}
			for _, op := range o["ops"].([]M) {
				if op["k"] != "s" && op["k"] != "sc" {
					ops = append(ops, op)
				}
			}
			o["ops"] = ops
		}
		geo.Inner = 1
		if i%5 == 0 { // the scalings of its chain are strong ones
			pre := g.Intn(18) - 9 - int(math.Log2(geo.Zoom))
			o["pre"], geo.Inner = pre, math.Ldexp(1, pre)
		}
		if g.Intn(4) == 0 {
			o["then"] = h.Ops(1+g.Intn(3), false)
			if g.Intn(3) == 0 {
				o["mode"], o["ops"] = "", []M{}
			}
		}
		if g.Intn(4) == 0 && !helpers { // transformed again, directly or through a wrapper
			mv := []M{{"k": "t", "v": V{8, -8, 4}}, {"k": "r", "a": 1 + g.Intn(3), "q": 1, "o": V{8, 0, -8}}}
			switch g.Intn(3) {
			case 0:
				o = M{"k": "bnd", "x": o}
			case 1:
				o = M{"k": "mat", "m": g.NextID(), "x": o}
			}
			o = M{"k": "tr", "mode": "", "ops": mv, "x": o}
		}
		if !small(o) {
			continue
		}
		g.Observe(o, 14)
		g.Points(o, 8)
		named(o)
	}
	geo.Inner = 1
	for i := 0; i < vh.Pick(600, 6000); i++ {
		affine(g)
	}
}

// width is the size of a solid if it is largest in x, otherwise 0
func width(x M) int {
	switch x["k"] {
	case "sph":
		return 2 * x["r"].(int)
	case "cyl":
		r, h := x["r"].(int), x["h"].(int)
		if x["dir"].(int) == 1 && h >= r {
			return 2 * h
		}
		if x["dir"].(int) != 1 && r >= h {
			return 2 * r
		}
	case "box":
		lo, hi := x["lo"].(V), x["hi"].(V)
		w := hi[0] - lo[0]
		if w >= hi[1]-lo[1] && w >= hi[2]-lo[2] {
			return w
		}
	}
	return 0
}

// affine records what chains of affine maps with whole coefficients do to points
func affine(g *geo.Gen) {
	vec := func(n int) V { return V{g.Intn(2*n+1) - n, g.Intn(2*n+1) - n, g.Intn(2*n+1) - n} }
	fv := func(v V) geom.Vec { return geom.Vec{float64(v[0]), float64(v[1]), float64(v[2])} }
	n, mode := 1+g.Intn(5), []string{"lr", "chain", "after", "nest"}[g.Intn(4)]
	ops := []M{}
	var ts []*geom.AffineTransform
	var p, q, d, e, back V
	msg := vh.Try(func() {
		for len(ops) < n {
			switch o := vec(9); g.Intn(5) {
			case 0:
				ops = append(ops, M{"k": "t", "v": o})
				ts = append(ts, geom.Translate(fv(o)))
			case 1:
				a, k := g.Intn(3), g.Intn(8)-2
				ops = append(ops, M{"k": "r", "a": a + 1, "q": (k + 4) % 4, "o": o})
				var ax geom.Vec
				ax[a] = float64(1 + g.Intn(3))
				ts = append(ts, geom.Rotate(fv(o), ax, float64(k)*math.Pi/2))
			case 2:
				k := 1 + g.Intn(3)
				ops = append(ops, M{"k": "s", "o": o, "n": k, "d": 1})
				ts = append(ts, geom.Scale(fv(o), float64(k)))
			case 3, 4:
				x, y, z := vec(3), vec(3), vec(3)
				if det := x[0]*(y[1]*z[2]-y[2]*z[1]) + x[1]*(y[2]*z[0]-y[0]*z[2]) + x[2]*(y[0]*z[1]-y[1]*z[0]); det == 0 {
					continue
				}
				t := geom.MapBaseTo(fv(o), fv(o).Add(fv(x)), fv(o).Add(fv(y)), fv(o).Add(fv(z)))
				op := M{"k": "mb", "o": o, "x": x, "y": y, "z": z}
				if g.Intn(2) == 0 { // about another point
					c := vec(9)
					op["k"], op["c"] = "mbo", c
					t = t.WithOrigin(fv(c))
				}
				ops = append(ops, op)
				ts = append(ts, t)
			}
		}
		var t *geom.AffineTransform
		switch mode {
		case "lr":
			t = geom.ComposeLR(ts...)
		case "chain":
			t = geom.UnitTransform()
			for _, u := range ts {
				t = t.Before(u)
			}
		case "after":
			t = ts[n-1]
			for i := n - 2; i >= 0; i-- {
				t = t.After(ts[i])
			}
		case "nest":
			k := g.Intn(n + 1)
			t = geom.ComposeLR(geom.ComposeLR(ts[:k]...), geom.ComposeLR(ts[k:]...))
		}
		p, d = vec(20), vec(20)
		x := t.TransformPoint(fv(p))
		y := t.TransformDir(fv(d))
		z := t.Inverse().TransformPoint(x)
		for i := range x {
			q[i], e[i], back[i] = vh.R(x[i], 1), vh.R(y[i], 1), vh.R(z[i], 1000)
		}
	})
	vh.Emit(M{"ev": "aff", "ops": ops, "mode": mode, "p": p, "q": q, "d": d, "e": e, "back": back, "msg": msg})
}

// named records the points of an object's box that have names
func named(o M) {
	vh.Begin(o)
	var ps []V
	msg := vh.Try(func() {
		x := api.Object{geo.Parse(o).Build()}
		for _, p := range []geom.Vec{x.Center(), x.CenterBottom(), x.CenterTop(), x.CenterBack(), x.CenterFront()} {
			p = p.Mul(1 / geo.Zoom)
			ps = append(ps, V{vh.R(p[0], 1024), vh.R(p[1], 1024), vh.R(p[2], 1024)})
		}
	})
	if ps == nil {
		ps = []V{}
	}
	vh.Emit(M{"ev": "named", "o": o, "ps": ps, "zoom": geo.Zoom, "msg": msg})
}

// ---- C11: primitives

func c11(g *geo.Gen) {
	n := vh.Pick(16, 40)
	for i := 0; i < vh.Pick(400, 4000); i++ {
		g.Zoomed()
		g.Observe(g.Solid(), n)
		g.Observe(g.Surface(), n)
		g.Observe(M{"k": "cap", "c": g.Pt(), "r": 4 + g.Intn(12), "h": 4 + g.Intn(12), "m": g.NextID()}, n)
		x := g.Prim()
		switch g.Intn(4) {
		case 0:
			x = M{"k": "mat", "m": g.NextID(), "x": x}
		case 1:
			x = M{"k": "tree", "xs": []M{x, g.Prim()}}
		case 2:
			x = g.Csg(1)
		}
		if g.Intn(2) == 0 {
			x = M{"k": "remap", "dv": g.Pt(), "x": x}
		} else {
			x = M{"k": "mat", "m": g.NextID(), "x": x}
		}
		g.Observe(x, n)
		gap(g)
		smooth(g)
		geo.Zoom = math.Ldexp(1, 24+g.Intn(10))                                    // huge
		if p := g.Prim(); p["k"] != "sph" && p["k"] != "cyl" && p["k"] != "disk" { // (which touch their own box)
			g.Observe(p, n)
		}
		geo.Zoom = 1
		iso(g, n)
		residual(g)
	}
}

// iso shoots rays from above at a height field
func iso(g *geo.Gen, n int) {
	o := M{"k": "iso", "lx": 8 + g.Intn(24), "lz": 8 + g.Intn(24), "hy": 2 * (2 + g.Intn(8)), "fn": g.Intn(6), "m": g.NextID()}
	vh.Begin(o)
	var rays [][2]V
	for len(rays) < n {
		d := V{g.Intn(5) - 2, -1 - g.Intn(3), g.Intn(5) - 2}
		k := 1 + g.Intn(8)
		p := V{g.Intn(o["lx"].(int) + 4), o["hy"].(int) + 1, g.Intn(o["lz"].(int) + 4)}
		s := V{p[0] - k*d[0], p[1] - k*d[1], p[2] - k*d[2]}
		rays = append(rays, [2]V{s, d})
	}
	var hits []M
	msg := vh.Try(func() {
		// keep the rays that enter through the top
		obj := geo.Parse(o).Build()
		for _, r := range rays {
			t := float64(o["hy"].(int)-r[0][1]) / float64(r[1][1])
			x := float64(r[0][0]) + t*float64(r[1][0])
			z := float64(r[0][2]) + t*float64(r[1][2])
			if x > 0.1 && x < float64(o["lx"].(int))-0.1 && z > 0.1 && z < float64(o["lz"].(int))-0.1 {
				hits = append(hits, geo.Hits(obj, [][2]V{r})...)
			}
		}
	})
	if hits == nil {
		hits = []M{}
	}
	vh.Emit(M{"ev": "rays", "o": o, "rays": hits, "msg": msg})
	h := *g
	h.Ext = 32
	h.Points(o, n)
	h.Points(M{"k": "and", "x": o, "y": h.Solid()}, n/2)
}

// smooth observes normals and positions within the faces of a smooth height field
func smooth(g *geo.Gen) {
	nu, nv := 2+g.Intn(4), 2+g.Intn(4)
	ax, par := g.Intn(3), g.Intn(2) == 0
	var v []V
	for i := 0; i < nu; i++ {
		for j := 0; j < nv; j++ {
			p := V{}
			p[ax], p[(ax+1)%3], p[(ax+2)%3] = 2*g.Intn(9), 8*i, 8*j
			v = append(v, p)
		}
	}
	var f []V // counting from 1
	for i := 0; i < nu-1; i++ {
		for j := 0; j < nv-1; j++ {
			a := i*nv + j + 1
			f = append(f, V{a, a + nv, a + nv + 1}, V{a, a + nv + 1, a + 1})
		}
	}
	o := M{"k": "par", "nu": nu, "nv": nv, "v": v, "m": g.NextID()}
	if !par { // as a mesh with faces in any order, some turned over
		to := g.Perm(len(v))
		w := make([]V, len(v))
		for i, t := range to {
			w[t] = v[i]
		}
		v = w
		turn := g.Intn(3)
		for i := range f {
			k := g.Intn(3)
			f[i] = V{to[f[i][k]-1] + 1, to[f[i][(k+1)%3]-1] + 1, to[f[i][(k+2)%3]-1] + 1}
			if turn == 1 || turn == 2 && g.Intn(4) == 0 {
				f[i][0], f[i][1] = f[i][1], f[i][0]
			}
		}
		if g.Intn(4) == 0 { // some or all faces with two sides, whose normals cancel
			for i := len(f) - 1; i >= 0; i-- {
				if turn != 2 || g.Intn(2) == 0 {
					f = append(f, V{f[i][0], f[i][2], f[i][1]})
				}
			}
		}
		g.Shuffle(len(f), func(i, j int) { f[i], f[j] = f[j], f[i] })
		all := append([]V{}, f...) // with some faces that have no area
		for n := g.Intn(4); n > 0; n-- {
			c, b := 1+g.Intn(len(v)), 1+g.Intn(len(v))
			at := g.Intn(len(all) + 1)
			all = append(all[:at], append([]V{{c, c, b}}, all[at:]...)...)
		}
		o = M{"k": "mesh", "v": v, "f": all, "m": g.NextID(), "variant": 1}
	}
	vh.Begin(o)
	rays := []M{}
	msg := vh.Try(func() {
		obj := geo.Parse(o).Build()
		for n := 0; n < 24; n++ {
			k := g.Intn(len(f))
			w := V{1 + g.Intn(6), 1, 0}
			w[1] += g.Intn(7 - w[0])
			w[2] = 8 - w[0] - w[1]
			dir := 1 - 2*g.Intn(2)
			var s, d V // s in 1/8 lattice units
			for c := range w {
				for a := range s {
					s[a] += w[c] * v[f[k][c]-1][a]
				}
			}
			s[ax], d[ax] = -8*32*dir, dir
			r := geo.RayOf(s, d)
			r.Start = r.Start.Mul(1. / 8)
			m := geo.Hit(obj, r)
			m["f"], m["w"], m["dir"] = k+1, w, dir
			rays = append(rays, m)
		}
	})
	vh.Emit(M{"ev": "smooth", "zoom": geo.Zoom, "o": o, "par": par, "v": v, "f": f, "ax": ax + 1, "rays": rays, "msg": msg})
}

// gap shoots rays exactly at corners and edges between the faces of a height field
func gap(g *geo.Gen) {
	nu, nv := 3+g.Intn(6), 3+g.Intn(6)
	if g.Intn(20) == 0 {
		nu, nv = 3+g.Intn(90), 3+g.Intn(90)
	}
	step := 4 << uint(g.Intn(2))
	ax := g.Intn(3)
	bumpy := g.Intn(2)
	var v []V
	var h []int
	for i := 0; i < nu; i++ {
		for j := 0; j < nv; j++ {
			y := 4 * g.Intn(3) * bumpy
			h = append(h, y)
			p := V{}
			p[ax], p[(ax+1)%3], p[(ax+2)%3] = y, i*step, j*step
			v = append(v, p)
		}
	}
	o := M{"k": "par", "nu": nu, "nv": nv, "v": v, "m": g.NextID(), "pl": bumpy == 0}
	vh.Begin(o)
	var rays []M
	msg := vh.Try(func() {
		obj := geo.Parse(o).Build()
		if g.Intn(3) == 0 {
			obj = objects.Tree(obj, geo.Parse(M{"k": "box", "lo": V{80, 80, 80}, "hi": V{90, 90, 90}, "m": 0}).Build())
		}
		for n := 0; n < 24; n++ {
			i, j := 1+g.Intn(2*nu-3), 1+g.Intn(2*nv-3)
			dir := 1 - 2*g.Intn(2)
			s, d := V{}, V{}
			s[ax], s[(ax+1)%3], s[(ax+2)%3] = -dir*32, i*step/2, j*step/2
			d[ax] = dir
			hit := geo.Hits(obj, [][2]V{{s, d}})[0]
			hit["i"], hit["j"], hit["dir"] = i, j, dir
			rays = append(rays, hit)
		}
	})
	if rays == nil {
		rays = []M{}
	}
	vh.Emit(M{"ev": "gap", "zoom": geo.Zoom, "nv": nv, "m": o["m"], "h": h, "rays": rays, "msg": msg})
}

// residual measures how far reported hits are from the exact surface (1e-9)
func residual(g *geo.Gen) {
	o := g.Solid()
	if g.Intn(3) == 0 {
		for o = g.Surface(); o["k"] != "tri" && o["k"] != "quad" && o["k"] != "rect"; {
			o = g.Surface()
		}
	}
	vh.Begin(o)
	max := 0.0
	msg := vh.Try(func() {
		d := geo.Parse(o)
		obj := d.Build()
		for n := 0; n < 20; n++ {
			r := &tracer.Ray{Start: geom.Vec{4 * g.NormFloat64(), 4 * g.NormFloat64(), 4 * g.NormFloat64()}}
			for i := range r.Start {
				r.Dir[i] = 2*g.NormFloat64() - r.Start[i]
			}
			r.Dir.Normalize()
			h := obj.Intersect(r)
			if !(h.T > 0) {
				continue
			}
			max = math.Max(max, dist(d, r.At(h.T)))
		}
	})
	vh.Emit(M{"ev": "residual", "o": o, "r": vh.R(math.Min(max, 1), 1e9), "msg": msg})
}

func dist(d *geo.Obj, p geom.Vec) float64 {
	switch d.K {
	case "sph":
		return math.Abs(p.Sub(geo.P(d.C)).Len() - float64(d.R)/8)
	case "cyl":
		q := p.Sub(geo.P(d.C))
		q[d.Dir-1] = 0
		return math.Abs(q.Len() - float64(d.R)/8)
	case "box":
		m := 1.0
		for i := range p {
			m = math.Min(m, math.Min(math.Abs(p[i]-geo.P(d.Lo)[i]), math.Abs(p[i]-geo.P(d.Hi)[i])))
		}
		return m
	case "rect":
		return math.Abs(p[1] - geo.P(d.C)[1])
	}
	a, b, c := geo.P(d.V[0]), geo.P(d.V[1]), geo.P(d.V[len(d.V)-1])
	n := b.Sub(a).Cross(c.Sub(a)).Normalized()
	return math.Abs(n.Dot(p.Sub(a)))
}

package geo

import (
	"fmt"
	"math"
	"math/rand"

	"github.com/barnex/bruteray/geom"
	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/objects"
	"verifharness/vh"
)

type tracerObject = tracer.Object
type tracerInterface = objects.Interface

// Gen makes random descriptions. Coordinates are multiples of Lat within Ext.
type Gen struct {
	*rand.Rand
	Lat, Ext int
	id       int
}

func (g *Gen) NextID() int { g.id++; return g.id }

// C is a coordinate.
func (g *Gen) C() int {
	n := g.Ext / g.Lat
	return g.Lat * (g.Intn(2*n+1) - n)
}

// L is a positive length of 2 to max lattice steps.
func (g *Gen) L(max int) int {
	if max < 3 {
		return g.Lat * (1 + g.Intn(max))
	}
	return g.Lat * (2 + g.Intn(max-1))
}

// Pt is a point.
func (g *Gen) Pt() V { return V{g.C(), g.C(), g.C()} }

func (g *Gen) size() int { return g.Ext / g.Lat / 2 }

// Within keeps a centre such that radius r stays inside the extent.
func (g *Gen) ctr(r int) V {
	var v V
	for i := range v {
		for {
			v[i] = g.C()
			if v[i]-r >= -g.Ext && v[i]+r <= g.Ext {
				break
			}
		}
	}
	return v
}

// Solid makes a solid primitive.
func (g *Gen) Solid() M {
	switch g.Intn(3) {
	case 0:
		a := g.ctr(0)
		var b V
		for i := range b {
			for b[i] == a[i] {
				b[i] = g.C()
			}
			if a[i] > b[i] {
				a[i], b[i] = b[i], a[i]
			}
		}
		return M{"k": "box", "lo": a, "hi": b, "m": g.NextID(), "variant": g.Intn(2)}
	case 1:
		r := g.L(g.size())
		return M{"k": "sph", "c": g.ctr(r), "r": r, "m": g.NextID()}
	}
	r, h := g.L(g.size()), g.L(g.size())
	mx := r
	if h > r {
		mx = h
	}
	return M{"k": "cyl", "dir": 1 + g.Intn(3), "c": g.ctr(mx), "r": r, "h": h, "m": g.NextID(), "variant": g.Intn(2)}
}

// Inf makes a solid of infinite extent.
func (g *Gen) Inf() M {
	r := g.L(g.size())
	c := M{"k": "cyl", "dir": 1 + g.Intn(3), "c": g.ctr(r), "r": r, "h": INF, "m": g.NextID(), "variant": g.Intn(2)}
	switch g.Intn(4) {
	case 0:
		return M{"k": "not", "x": g.Solid()}
	case 1:
		return M{"k": "not", "x": c}
	}
	return c
}

func (g *Gen) uv(n int) [][2]int {
	r := make([][2]int, n)
	for i := range r {
		r[i] = [2]int{g.Intn(1001), g.Intn(1001)}
	}
	return r
}

func sub(a, b V) V { return V{a[0] - b[0], a[1] - b[1], a[2] - b[2]} }
func add(a, b V) V { return V{a[0] + b[0], a[1] + b[1], a[2] + b[2]} }
func cross(a, b V) V {
	return V{a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2], a[0]*b[1] - a[1]*b[0]}
}

func (g *Gen) in(v V) bool {
	for _, x := range v {
		if x < -g.Ext || x > g.Ext {
			return false
		}
	}
	return true
}

// frame of lattice vectors spanning a plane, axis aligned or tilted
func (g *Gen) par() (o, a, b V) {
	for {
		o, a, b = g.Pt(), g.Pt(), g.Pt()
		if g.Intn(2) == 0 { // in an axis plane
			i := g.Intn(3)
			a[i], b[i] = o[i], o[i]
		}
		if cross(sub(a, o), sub(b, o)) != (V{}) && g.in(add(a, sub(b, o))) {
			return
		}
	}
}

// Surface makes a flat shape or a mesh.
func (g *Gen) Surface() M {
	switch g.Intn(7) {
	case 0:
		o, a, b := g.par()
		return M{"k": "tri", "v": []V{o, a, b}, "m": g.NextID()}
	case 1:
		w, d := g.L(g.size()), g.L(g.size())
		mx := w
		if d > w {
			mx = d
		}
		return M{"k": "rect", "c": g.ctr(mx), "w": w, "d": d, "m": g.NextID()}
	case 2:
		o, a, b := g.par()
		return M{"k": "quad", "v": []V{o, a, add(a, sub(b, o)), b}, "m": g.NextID(), "variant": g.Intn(2)}
	case 3: // trapezium: o, a, c, b with c on the ray from b parallel to a
		for {
			o, a, b := g.par()
			d := sub(a, o)
			if d[0]%(2*g.Lat) != 0 || d[1]%(2*g.Lat) != 0 || d[2]%(2*g.Lat) != 0 {
				continue
			}
			c := add(b, V{d[0] / 2, d[1] / 2, d[2] / 2})
			return M{"k": "quad", "v": []V{o, a, c, b}, "m": g.NextID(), "variant": 0}
		}
	case 4:
		r := g.L(g.size())
		return M{"k": "disk", "c": g.ctr(r), "r": r, "m": g.NextID()}
	case 5:
		return g.Mesh(4 + g.Intn(8))
	}
	return g.Par()
}

// Mesh is a soup of n triangles over shared corners.
func (g *Gen) Mesh(n int) M {
	nv := 4 + g.Intn(n)
	v := make([]V, nv)
	for i := range v {
		v[i] = g.Pt()
	}
	var f [][3]int
	for len(f) < n {
		a, b, c := g.Intn(nv), g.Intn(nv), g.Intn(nv)
		if cross(sub(v[b], v[a]), sub(v[c], v[a])) != (V{}) {
			f = append(f, [3]int{a + 1, b + 1, c + 1})
		}
	}
	variant := g.Intn(2)
	uv := g.uv(nv)
	if variant == 1 {
		uv = make([][2]int, nv)
	}
	return M{"k": "mesh", "v": v, "f": f, "uv": uv, "m": g.NextID(), "variant": variant, "pl": false}
}

// Par is a parametric height field over a lattice, flat or bumpy.
func (g *Gen) Par() M {
	nu, nv := 2+g.Intn(4), 2+g.Intn(4)
	step := g.Lat * (1 + g.Intn(2))
	o := V{-step * (nu / 2), g.Lat * (g.Intn(3) - 1), -step * (nv / 2)}
	ax := g.Intn(3)
	flat := g.Intn(2) == 0
	var v []V
	for i := 0; i < nu; i++ {
		for j := 0; j < nv; j++ {
			h := 0
			if !flat {
				h = g.Lat * g.Intn(2)
			}
			p := add(o, V{i * step, h, j * step})
			v = append(v, V{p[ax], p[(ax+1)%3], p[(ax+2)%3]})
		}
	}
	return M{"k": "par", "nu": nu, "nv": nv, "v": v, "m": g.NextID(), "pl": flat}
}

// Prim is any primitive.
func (g *Gen) Prim() M {
	if g.Intn(2) == 0 {
		return g.Surface()
	}
	return g.Solid()
}

// Csg is a random combination.
func (g *Gen) Csg(depth int) M {
	if depth == 0 || g.Intn(6) == 0 {
		if g.Intn(6) == 0 {
			return g.Surface()
		}
		return g.Solid()
	}
	switch k := []string{"and", "and", "or", "or", "dif", "dif", "res", "rem", "not", "hol"}[g.Intn(10)]; k {
	case "not", "hol":
		return M{"k": k, "x": g.Csg(depth - 1)}
	default:
		return M{"k": k, "x": g.Csg(depth - 1), "y": g.Csg(depth - 1), "variant": g.Intn(2)}
	}
}

// Shrink copies a description with all lengths divided by n (for many small objects).
func (g *Gen) Small() M {
	h := *g
	h.Ext = g.Ext / 4
	if h.Ext < 4*h.Lat {
		h.Ext = 4 * h.Lat
	}
	m := h.Prim()
	g.id = h.id
	d := V{}
	for i := range d {
		d[i] = g.Lat * (g.Intn(2*(g.Ext-h.Ext)/g.Lat+1) - (g.Ext-h.Ext)/g.Lat)
	}
	return Shift(m, d)
}

// Shift moves a primitive.
func Shift(m M, d V) M {
	for _, k := range []string{"lo", "hi", "c"} {
		if v, ok := m[k].(V); ok {
			m[k] = add(v, d)
		}
	}
	if v, ok := m["v"].([]V); ok {
		for i := range v {
			v[i] = add(v[i], d)
		}
	}
	return m
}

// Ops makes a chain of n motions which keeps coordinates that are multiples
// of 4 within 16 exact and within 64. helpers allows motions relative to the
// object's box.
func (g *Gen) Ops(n int, helpers bool) []M {
	var ops []M
	half, dbl := 0, 0
	for len(ops) < n {
		p := V{8 * (g.Intn(3) - 1), 8 * (g.Intn(3) - 1), 8 * (g.Intn(3) - 1)}
		k := g.Intn(6)
		if g.Intn(12) == 0 {
			k = 10
		}
		if helpers {
			k = g.Intn(10)
		}
		switch k {
		case 0:
			ops = append(ops, M{"k": "t", "v": p})
		case 1, 2:
			ops = append(ops, M{"k": "r", "a": 1 + g.Intn(3), "q": 1 + g.Intn(3), "o": p})
		case 3:
			if dbl == 0 && g.Intn(2) == 0 {
				dbl++
				ops = append(ops, M{"k": "s", "o": p, "n": 2, "d": 1})
			} else if half == 0 {
				half++
				ops = append(ops, M{"k": "s", "o": p, "n": 1, "d": 2})
			}
		case 4:
			ops = append(ops, M{"k": "ypr", "y": g.Intn(4), "p": g.Intn(4), "r": g.Intn(4)})
		case 5:
			ops = append(ops, M{"k": []string{"y", "p", "ro"}[g.Intn(3)], "q": g.Intn(4)})
		case 6:
			ops = append(ops, M{"k": "wc", "v": p})
		case 7:
			ops = append(ops, M{"k": "wcb", "v": p})
		case 8:
			ops = append(ops, M{"k": "rc", "a": 1 + g.Intn(3), "q": 1 + g.Intn(3)})
		case 10: // to given base vectors
			pp, ss := g.turn()
			ops = append(ops, M{"k": "mb", "o": p, "pp": pp, "ss": ss})
		case 9:
			if half == 0 {
				half++
				ops = append(ops, M{"k": "sc", "n": 1, "d": 2})
			}
		}
	}
	return ops
}

// turn makes a signed permutation with determinant 1
func (g *Gen) turn() (p, s V) {
	q := g.Perm(3)
	det := 1
	for i := range p {
		p[i], s[i] = q[i]+1, 1-2*g.Intn(2)
		det *= s[i]
		for j := 0; j < i; j++ {
			if p[j] > p[i] {
				det = -det
			}
		}
	}
	if det < 0 {
		s[g.Intn(3)] *= -1
	}
	return p, s
}

// Ray makes a random ray that aims at the scene.
func (g *Gen) Ray() (s, d V) {
	for {
		for i := range s {
			s[i] = g.Intn(121) - 60
			d[i] = g.Intn(7) - 3
		}
		switch g.Intn(4) {
		case 0: // axis aligned
			i := g.Intn(3)
			d[(i+1)%3], d[(i+2)%3] = 0, 0
		case 1: // from inside
			for i := range s {
				s[i] = g.Intn(33) - 16
			}
		}
		if d == (V{}) {
			continue
		}
		// most rays pass near the centre
		if g.Intn(8) != 0 {
			best := V{}
			k := 1 + g.Intn(20)
			for i := range s {
				best[i] = g.Intn(25) - 12 - k*d[i]
				if best[i] < -60 || best[i] > 60 {
					k = 0
				}
			}
			if k == 0 {
				continue
			}
			if g.Intn(4) != 0 {
				s = best
			}
		}
		return s, d
	}
}

// Hits intersects o with rays; msg is a panic message.
func Hits(o tracerObject, rays [][2]V) (out []M) {
	for _, r := range rays {
		m := M{}
		ray := RayOf(r[0], r[1])
		msg := vh.Try(func() { m = Hit(o, ray) })
		if msg != "" {
			m = M{"t": -1, "m": -1, "n": V{}, "lp": V{}, "lu": V{}, "p": V{}}
		}
		m["s"], m["d"], m["msg"] = r[0], r[1], msg
		out = append(out, m)
	}
	return out
}

// Rays makes n random rays.
func (g *Gen) Rays(n int) (r [][2]V) {
	for i := 0; i < n; i++ {
		s, d := g.Ray()
		r = append(r, [2]V{s, d})
	}
	return r
}

// Zoomed chooses how large everything is.
func (g *Gen) Zoomed() {
	Zoom = math.Ldexp(1, []int{0, 0, 0, -3, -6, -9, 4, 8}[g.Intn(8)])
}

// Moved chooses where everything is, once in a while far from the origin.
func (g *Gen) Moved() {
	Away = geom.Vec{}
	if g.Intn(4) == 0 {
		for i := range Away {
			Away[i] = math.Ldexp(g.Float64()-0.5, 8+g.Intn(20))
		}
	}
}

// Observe builds the object and records hits of n rays.
func (g *Gen) Observe(desc M, n int) { g.ObserveRays(desc, g.Rays(n)) }

// ObserveRays builds the object and records hits of the given rays.
func (g *Gen) ObserveRays(desc M, rays [][2]V) {
	vh.Begin(desc)
	var o tracerInterface
	msg := vh.Try(func() { o = Parse(desc).Build() })
	if msg != "" {
		vh.Emit(M{"ev": "rays", "o": desc, "rays": []M{}, "msg": msg, "zoom": Zoom, "away": fmt.Sprint(Away)})
		return
	}
	vh.Emit(M{"ev": "rays", "o": desc, "rays": Hits(o, rays), "msg": "", "zoom": Zoom, "away": fmt.Sprint(Away)})
}

// Points records n inside queries.
func (g *Gen) Points(desc M, n int) {
	vh.Begin(desc)
	pts := []M{}
	msg := vh.Try(func() {
		o := Parse(desc).Build()
		for i := 0; i < n; i++ {
			var p V
			for i := range p {
				p[i] = g.Intn(2*g.Ext+9) - g.Ext - 4
			}
			pts = append(pts, M{"p": p, "in": o.Inside(At(p))})
		}
	})
	vh.Emit(M{"ev": "pts", "o": desc, "pts": pts, "msg": msg, "zoom": Zoom, "away": fmt.Sprint(Away)})
}

// Boxes records the bounding box together with hits and inside points.
func (g *Gen) Boxes(desc M, n int) {
	vh.Begin(desc)
	hits, ins := []V{}, []V{}
	var b M
	msg := vh.Try(func() {
		o := Parse(desc).Build()
		b = Bounds(o)
		for _, h := range Hits(o, g.Rays(n)) {
			if t := h["t"].(int); t > 0 && t < 1000000 {
				hits = append(hits, h["p"].(V))
			}
		}
		for i := 0; i < n; i++ {
			var p V
			for i := range p {
				p[i] = g.Intn(2*g.Ext+9) - g.Ext - 4
			}
			if o.Inside(At(p)) {
				ins = append(ins, p)
			}
		}
	})
	if msg != "" {
		b = M{"lo": V{}, "hi": V{}}
	}
	vh.Emit(M{"ev": "bnd", "o": desc, "b": b, "hits": hits, "ins": ins, "msg": msg, "zoom": Zoom, "away": fmt.Sprint(Away)})
}

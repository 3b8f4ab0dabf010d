// light records brightnesses in real scenes (C04, C05, C06).
package main

import (
	"flag"
	"math"
	"math/rand"

	"verifharness/geo"
	"verifharness/light"
	"verifharness/vh"

	"github.com/barnex/bruteray/api"
	"github.com/barnex/bruteray/geom"
	"github.com/barnex/bruteray/imagef/colorf"
	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/materials"
	"github.com/barnex/bruteray/tracer/objects"
)

type M = vh.M

var mode = flag.String("mode", "", "property")

func main() {
	vh.Init()
	defer vh.Flush()
	switch *mode {
	case "C04":
		c04(vh.Rng)
	case "C05":
		c05(vh.Rng)
	case "C06":
		c06(vh.Rng)
	}
}

// ---- C04

func c04(rng *rand.Rand) {
	i, off := 0, rng.Intn(2)
	vh.Scenarios(func(dec func(interface{})) {
		var o M
		dec(&o)
		i++
		if vh.Thorough() || i%2 == off {
			light.See(rng, o, 6)
		}
	})
	for i := 0; i < vh.Pick(2500, 20000); i++ {
		kinds := light.All
		switch i % 5 {
		case 0: // known slopes only
			kinds = []string{"flat", "refl", "trans", "refr", "blend", "bmap", "two", "fres"}
		case 1: // diffuse
			kinds = []string{"flat", "matte", "matte", "refl", "trans", "blend", "bmap", "two"}
		case 2:
			kinds = []string{"flat", "refr", "fres"}
		}
		light.Vary(rng)
		light.See(rng, light.GenScene(rng, 6, 3, 6, kinds), 8)
	}
	for i := 0; i < vh.Pick(150, 1500); i++ {
		light.Vary(rng)
		light.See(rng, light.GenDeep(rng), 8)
	}
	light.Bright, light.Zoom = 1, 1
	for i := 0; i < vh.Pick(1500, 10000); i++ {
		opt(rng)
	}
	for i := 0; i < vh.Pick(60, 300); i++ {
		diffuse(rng)
	}
}

func unit(rng *rand.Rand) geom.Vec {
	for {
		v := geom.Vec{rng.NormFloat64(), rng.NormFloat64(), rng.NormFloat64()}
		if rng.Intn(4) == 0 {
			v = geom.Vec{float64(rng.Intn(3) - 1), float64(rng.Intn(3) - 1), float64(rng.Intn(3) - 1)}
		}
		if l := v.Len(); l > 0.1 {
			return v.Mul(1 / l)
		}
	}
}

func v4(v geom.Vec) [3]int { return [3]int{vh.R(v[0], 1e4), vh.R(v[1], 1e4), vh.R(v[2], 1e4)} }

type plane struct {
	n, p geom.Vec
	k    float64
	m    tracer.Material
}

func (p *plane) Intersect(r *tracer.Ray) tracer.HitRecord {
	t := p.p.Sub(r.Start).Dot(p.n) / r.Dir.Dot(p.n)
	if !(t > 0) || math.IsInf(t, 0) {
		return tracer.HitRecord{}
	}
	return tracer.HitRecord{T: t, Normal: p.n.Mul(p.k), Local: r.At(t), Material: p.m}
}

// disc is the part of a plane within r of its point
type disc struct {
	plane
	r float64
}

func (d *disc) Intersect(r *tracer.Ray) tracer.HitRecord {
	h := d.plane.Intersect(r)
	if h.T > 0 && r.At(h.T).Sub(d.p).Len() > d.r {
		return tracer.HitRecord{}
	}
	return h
}

// segDist is the distance between a point and a line piece
func segDist(p, a, b geom.Vec) float64 {
	ab := b.Sub(a)
	t := math.Max(0, math.Min(1, p.Sub(a).Dot(ab)/ab.Dot(ab)))
	return p.Sub(a.MAdd(t, ab)).Len()
}

// sky sees every ray that hits nothing else
type sky struct {
	f func(r *tracer.Ray) colorf.Color
}

func (s sky) Intersect(r *tracer.Ray) tracer.HitRecord {
	return tracer.HitRecord{T: 1e15, Normal: r.Dir, Material: s}
}
func (s sky) Shade(_ *tracer.Ctx, _ *tracer.Scene, r *tracer.Ray, _ tracer.HitCoords) colorf.Color {
	return s.f(r)
}

// opt records a single reflection or refraction at any angle
func opt(rng *rand.Rand) {
	n, d := unit(rng), unit(rng)
	for math.Abs(n.Dot(d)) < 0.08 {
		d = unit(rng)
	}
	k := []string{"refl", "fres", "refr"}[rng.Intn(3)]
	n1, n2 := 100+rng.Intn(150), 100+rng.Intn(150)
	if k == "fres" || rng.Intn(3) == 0 {
		n1 = 100
	}
	if k == "fres" && rng.Intn(3) == 0 { // thinner than what is around it
		n2 = 30 + rng.Intn(70)
	}
	obs := M{"ev": "opt", "k": k, "d": v4(d), "n": v4(n), "n1": n1, "n2": n2}
	vh.Begin(obs)
	a, b := float64(n1)/100, float64(n2)/100
	var nr, nt int
	var rd, td geom.Vec
	var c colorf.Color
	msg := vh.Try(func() {
		var m tracer.Material
		switch k {
		case "refl":
			m = api.Reflective(colorf.Color{R: 1, G: 1, B: 1})
		case "fres":
			m = api.ReflectFresnel(b, api.Flat(colorf.Color{G: 1}))
		case "refr":
			m = materials.Refractive2(a, b)
		}
		p := geom.Vec{rng.NormFloat64(), rng.NormFloat64(), rng.NormFloat64()}
		s := tracer.NewScene(2, nil, &plane{n, p, 0.5 + rng.Float64(), m}, sky{func(r *tracer.Ray) colorf.Color {
			if (r.Dir.Dot(n) > 0) != (d.Dot(n) > 0) {
				nr++
				rd = r.Dir
				return colorf.Color{R: 1}
			}
			nt++
			td = r.Dir
			return colorf.Color{G: 1}
		}})
		ctx := tracer.NewCtx(1)
		ctx.Init(0, 0)
		c = s.LightField(ctx, &tracer.Ray{Start: p.Sub(d.Mul(1 + rng.Float64())), Dir: d})
	})
	// witness for the cosine behind the surface
	ci := math.Abs(d.Dot(n))
	if k != "fres" && d.Dot(n) > 0 {
		a, b = b, a
	}
	obs["ct"] = vh.R(math.Sqrt(math.Max(0, 1-a*a/b/b*(1-ci*ci))), 1e4)
	obs["nr"], obs["nt"], obs["rd"], obs["td"] = nr, nt, v4(rd), v4(td)
	obs["R"], obs["T"], obs["msg"] = vh.R(c.R, 1e4), vh.R(c.G, 1e4), msg
	vh.Emit(obs)
}

// diffuse records the directions of many diffuse bounces
func diffuse(rng *rand.Rand) {
	n, d := unit(rng), unit(rng)
	for math.Abs(n.Dot(d)) < 0.01 {
		d = unit(rng)
	}
	seen := n
	if n.Dot(d) > 0 {
		seen = n.Mul(-1)
	}
	second := rng.Intn(2)
	obs := M{"ev": "diffuse", "nrm": v4(seen), "second": second}
	vh.Begin(obs)
	q, wrong, cnt := make([]int, 4), 0, 0
	var mean geom.Vec
	const N = 1024
	msg := vh.Try(func() {
		var p geom.Vec
		objs := []tracer.Object{&plane{n, p, 0.5 + rng.Float64(), api.Matte(colorf.White)}, sky{func(r *tracer.Ray) colorf.Color {
			cnt++
			c := r.Dir.Dot(seen)
			if math.Abs(r.Dir.Len()-1) > 1e-9 || c < 0 {
				wrong++
			}
			k := int(4 * c * c)
			if k > 3 || k < 0 {
				k = 3
			}
			q[k]++
			mean = mean.Add(r.Dir)
			return colorf.Color{}
		}}}
		start, dir := p.Sub(d), d
		if second == 1 { // through a mirror first
			objs = append(objs, &plane{d, p.Sub(d.Mul(2)), 1, api.Reflective(colorf.White)})
			dir = d.Mul(-1)
			for i := range dir { // slightly inclined so that the way back differs
				dir[i] += 1e-4 * rng.NormFloat64()
			}
			dir.Normalize()
			// the mirror only reflects towards the surface
		}
		s := tracer.NewScene(2+second, nil, objs...)
		ctx := tracer.NewCtx(1)
		for k := 0; k < N; k++ {
			ctx.Init(0, k)
			if second == 1 {
				// the mirror plane also catches bounces; look only at those that reach the sky
				s.LightField(ctx, &tracer.Ray{Start: start, Dir: dir})
			} else {
				s.LightField(ctx, &tracer.Ray{Start: start, Dir: dir})
			}
		}
	})
	if second == 1 { // bounces towards the mirror are missing: only the sides and lengths are judged
		q = []int{}
		mean = seen.Mul(2. / 3)
		if cnt == 0 {
			cnt = 1
		}
	} else {
		mean = mean.Mul(1. / N)
	}
	obs["q"], obs["wrong"], obs["mean"], obs["n"], obs["msg"] = q, wrong, v4(mean), cnt, msg
	vh.Emit(obs)
}

// ---- C06

func c06(rng *rand.Rand) {
	kinds := []string{"flat", "matte", "trans", "trans", "two"}
	for i := 0; i < vh.Pick(2500, 20000); i++ {
		d := light.GenScene(rng, 7, 4, 2, kinds)
		light.Vary(rng)
		light.See(rng, d, 8)
	}
	light.Bright, light.Zoom = 1, 1
	g := &geo.Gen{Rand: rng, Lat: 1, Ext: 24}
	for i := 0; i < vh.Pick(600, 5000); i++ {
		occ(g)
	}
	for i := 0; i < vh.Pick(500, 4000); i++ {
		point(rng)
	}
}

type opaque struct{ n int }

func (opaque) Shade(*tracer.Ctx, *tracer.Scene, *tracer.Ray, tracer.HitCoords) colorf.Color {
	return colorf.White
}

func ids(o *geo.Obj, f func(int)) {
	if o == nil {
		return
	}
	switch o.K {
	case "and", "or", "res", "dif", "rem", "not", "hol", "bnd", "remap", "tree", "tr":
	default:
		f(o.M)
	}
	ids(o.X, f)
	ids(o.Y, f)
	for _, x := range o.Xs {
		ids(x, f)
	}
}

// occ records shadow tests among real objects
func occ(g *geo.Gen) {
	n := 1 + g.Intn(6)
	var xs []M
	for i := 0; i < n; i++ {
		switch g.Intn(5) {
		case 0:
			xs = append(xs, g.Csg(1))
		case 1:
			xs = append(xs, M{"k": "tree", "xs": []M{g.Prim(), g.Prim(), g.Solid()}})
		default:
			xs = append(xs, g.Prim())
		}
	}
	see := g.Intn(4) != 0 // mostly see-through
	kinds := M{}
	mats := map[int]tracer.Material{}
	scn := M{"objs": xs, "mats": kinds}
	vh.Begin(scn)
	rays := []M{}
	msg := vh.Try(func() {
		var objs []tracer.Object
		geo.Materials = func(id int) tracer.Material { return mats[id] }
		defer func() { geo.Materials = nil }()
		var list []M
		for _, x := range xs {
			p := geo.Parse(x)
			ids(p, func(id int) {
				if mats[id] != nil {
					return
				}
				if see && g.Intn(8) != 0 || !see && g.Intn(2) == 0 {
					e := [3]int{g.Intn(3), g.Intn(3), g.Intn(3)}
					mats[id] = api.Transparent(colorf.Color{R: math.Pow(2, -float64(e[0])), G: math.Pow(2, -float64(e[1])), B: math.Pow(2, -float64(e[2]))}, g.Intn(2) == 0)
					list = append(list, M{"id": id, "e": e, "op": 0})
				} else {
					mats[id] = opaque{id}
					list = append(list, M{"id": id, "e": [3]int{}, "op": 1})
				}
			})
			objs = append(objs, p.Build())
		}
		scn["mats"] = list
		// the light itself and its looks are no obstacle
		l := api.DiskLight(colorf.White, 1, geom.Vec{g.NormFloat64(), 0, 0})
		s := tracer.NewScene(1, []tracer.Light{l}, objs...)
		for _, sd := range g.Rays(16) {
			n := 1 + g.Intn(30)
			r := geo.RayOf(sd[0], sd[1])
			l := r.Dir.Len()
			r.Dir = r.Dir.Mul(1 / l)
			orig := colorf.Color{R: 1, G: 4, B: 0.5}
			start := *r
			c := s.Occlude(r, l*float64(n), orig)
			e := [3]int{lg(orig.R, c.R), lg(orig.G, c.G), lg(orig.B, c.B)}
			rays = append(rays, M{"s": sd[0], "d": sd[1], "n": n, "e": e, "same": start == *r})
		}
	})
	vh.Emit(M{"ev": "occ", "objs": xs, "mats": scn["mats"], "rays": rays, "msg": msg})
}

func lg(a, b float64) int {
	if b == 0 {
		return -1
	}
	x := math.Log2(a / b)
	if math.IsNaN(x) || math.Abs(x-math.Round(x)) > 1e-9 {
		return -2
	}
	return int(math.Round(x))
}

// point records a matte floor lit by point lights, all at distances that are whole numbers
func point(rng *rand.Rand) {
	vecs := [][4]int{{2, 3, 6, 7}, {1, 2, 2, 3}, {4, 4, 7, 9}, {2, 6, 9, 11}, {0, 3, 4, 5}, {0, 5, 12, 13}, {0, 0, 2, 2}, {6, 6, 7, 11}, {2, 10, 11, 15}, {1, 4, 8, 9}}
	var ls []tracer.Light
	var desc []M
	var pos []geom.Vec
	at := geom.Vec{float64(rng.Intn(9) - 4), float64(rng.Intn(9) - 4), float64(rng.Intn(9) - 4)}
	up := rng.Intn(2) == 0 // seen side
	bright := math.Ldexp(1, rng.Intn(2)*(rng.Intn(61)-40))
	for n := 1 + rng.Intn(4); n > 0; n-- {
		v := vecs[rng.Intn(len(vecs))]
		p := rng.Perm(3)
		o := [3]int{v[p[0]], v[p[1]], v[p[2]]}
		for i := range o {
			o[i] *= 1 - 2*rng.Intn(2)
		}
		w := [3]int{rng.Intn(40), rng.Intn(40), rng.Intn(40)}
		f := 4 * math.Pi * bright
		ps := at.Add(geom.Vec{float64(o[0]), float64(o[1]), float64(o[2])})
		pos = append(pos, ps)
		ls = append(ls, api.PointLight(colorf.Color{R: f * float64(w[0]), G: f * float64(w[1]), B: f * float64(w[2])}, ps))
		desc = append(desc, M{"o": o, "len": v[3], "w": w, "blk": 0})
	}
	d := geom.Vec{rng.Float64() - 0.5, -1, rng.Float64() - 0.5}
	if !up {
		d[1] = 1
	}
	d.Normalize()
	eye := at.Sub(d.Mul(0.5))
	// small obstacles on the way to a light, often very near one of its ends, or just beyond the light
	var things []tracer.Object
	for i := range pos {
		if rng.Intn(3) != 0 {
			continue
		}
		l := pos[i].Sub(at).Len()
		n := pos[i].Sub(at).Mul(1 / l)
		e := math.Pow(10, -1-3*rng.Float64())
		t, blk := l-e, 1
		switch rng.Intn(4) {
		case 0:
			t, blk = l+e, 0
		case 1:
			t = e
		case 2:
			t = l * (0.1 + 0.8*rng.Float64())
		}
		c := at.MAdd(t, n)
		rad := 0.1 * math.Min(t, 1)
		clear := segDist(c, eye, at) > 2*rad
		for j := range pos {
			clear = clear && (j == i || segDist(c, at, pos[j]) > 2*rad)
		}
		for j := 0; j < i; j++ { // lights in the same direction
			clear = clear && pos[j].Sub(at).Normalized().Dot(n) < 0.99
		}
		if clear {
			things = append(things, &disc{plane{n, c, 1, opaque{1}}, rad})
			desc[i]["blk"] = blk
		}
	}
	refl := [3]int{rng.Intn(5), rng.Intn(5), rng.Intn(5)}
	obs := M{"ev": "point", "ls": desc, "up": up, "refl": refl}
	vh.Begin(obs)
	var c colorf.Color
	msg := vh.Try(func() {
		m := api.Matte(colorf.Color{R: float64(refl[0]) / 4, G: float64(refl[1]) / 4, B: float64(refl[2]) / 4})
		objs := append(things, &plane{geom.Vec{0, 1, 0}, at, 1, m})
		if rng.Intn(2) == 0 {
			objs = append(objs, objects.Sphere(api.Flat(colorf.White), 2, at.Add(geom.Vec{300, 0, 300})))
		}
		rng.Shuffle(len(objs), func(i, j int) { objs[i], objs[j] = objs[j], objs[i] })
		s := tracer.NewScene(1, ls, objs...)
		ctx := tracer.NewCtx(1)
		ctx.Init(0, rng.Intn(100))
		c = s.LightField(ctx, &tracer.Ray{Start: eye, Dir: d})
	})
	obs["c"], obs["msg"] = light.Col(c.Mul(1/bright)), msg
	vh.Emit(obs)
}

// Driver for C12: makes cameras, derives cameras from cameras, and records the
// rays of all cameras made so far.
package main

import (
	"math"

	"github.com/barnex/bruteray/api"
	"github.com/barnex/bruteray/geom"
	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/cameras"

	. "verifharness/vh"
)

type proj struct {
	K    string `json:"k"`
	N    int    `json:"n"`
	D    int    `json:"d"`
	Ap   int    `json:"ap"`
	Foc  int    `json:"foc"`
	Size int    `json:"size"`
	Axis int    `json:"axis"`
}
type op struct {
	I int    `json:"i"`
	R [3]int `json:"r"`
	T [3]int `json:"t"`
}
type scn struct {
	P   proj `json:"p"`
	Ops []op `json:"ops"`
}

func build(p proj) *cameras.WithTransform {
	switch p.K {
	case "proj":
		fov := 2 * math.Atan2(float64(p.N), float64(p.D))
		if p.Ap == 0 && p.Foc == 0 {
			switch Rng.Intn(3) {
			case 0:
				return api.Projective(fov)
			case 1: // without aperture the distance does not matter
				return api.ProjectiveAperture(fov, 0, []float64{0, 0, 1, 1e-3, 50, 1e6}[Rng.Intn(6)])
			}
			return cameras.Projective(fov)
		}
		return api.ProjectiveAperture(fov, float64(p.Ap)/1000, float64(p.Foc)/1000)
	case "iso":
		return cameras.Isometric(p.Axis, float64(p.Size)/8)
	case "env":
		return api.EnvironmentMap()
	}
	panic(p.K)
}

const d15 = 15 * math.Pi / 180

func derive(c *cameras.WithTransform, o op, how int) *cameras.WithTransform {
	t := geom.Vec{float64(o.T[0]) / 8, float64(o.T[1]) / 8, float64(o.T[2]) / 8}
	y, p, r := float64(o.R[0])*d15, float64(o.R[1])*d15, float64(o.R[2])*d15
	switch how {
	case 0:
		return c.YawPitchRoll(y, p, r).Translate(t)
	case 1:
		return c.Translate(t).YawPitchRoll(y, p, r)
	case 2:
		return cameras.Transform(c, geom.YawPitchRoll(y, p, r).A, t)
	default: // in small steps
		return c.Translate(t.Mul(0.25)).YawPitchRoll(0, 0, r).YawPitchRoll(0, p, 0).Translate(t.Mul(0.5)).YawPitchRoll(y, 0, 0).Translate(t.Mul(0.25))
	}
}

var ctx = tracer.NewCtx(1)

func v3(v geom.Vec, s float64) []int { return []int{R(v[0], s), R(v[1], s), R(v[2], s)} }

func ray(c tracer.Camera, a, b int) (start, dir geom.Vec) {
	ctx.CurrentRecursionDepth = 1
	r := c.RayFrom(ctx, float64(a)/48, float64(b)/48)
	start, dir = r.Start, r.Dir
	ctx.PutRay(r)
	return
}

func unit(d geom.Vec) int {
	if math.Abs(d.Len()-1) < 1e-9 {
		return 1
	}
	return 0
}

func observe(i int, c tracer.Camera, p proj, n int) {
	for k := 0; k < n; k++ {
		a, b := Rng.Intn(49), Rng.Intn(49)
		if p.K == "env" {
			a, b = 2*Rng.Intn(25), 4*Rng.Intn(13)
		}
		if Rng.Intn(6) == 0 {
			a, b = 24, 24
		}
		if p.K == "proj" && p.Ap > 0 {
			u := 1
			var ss, ds [][]int
			for j := 0; j < 1024; j++ {
				s, d := ray(c, a, b)
				if unit(d) == 0 {
					u = 0
				}
				ss, ds = append(ss, v3(s, 1000)), append(ds, v3(d, 10000))
			}
			Emit(M{"ev": "lens", "i": i, "a": a, "b": b, "unit": u, "start": ss, "dir": ds, "_w": 200})
			return
		}
		s, d := ray(c, a, b)
		al := s.Dot(d)
		Emit(M{"ev": "ray", "i": i, "a": a, "b": b, "unit": unit(d), "dir": v3(d, 10000), "start": v3(s, 1000),
			"perp": v3(s.Sub(d.Mul(al)), 1000), "along": R(al, 1000)})
	}
}

func run(s scn) {
	Begin(s)
	Emit(M{"ev": "reset", "p": s.P})
	msg := Try(func() {
		cs := []*cameras.WithTransform{build(s.P)}
		observe(1, cs[0], s.P, 2)
		for _, o := range s.Ops {
			cs = append(cs, derive(cs[o.I-1], o, Rng.Intn(4)))
			Emit(M{"ev": "derive", "i": o.I, "r": o.R, "t": o.T})
			observe(len(cs), cs[len(cs)-1], s.P, 3)
			k := Rng.Intn(len(cs)) // an older one, again
			observe(k+1, cs[k], s.P, 1)
		}
	})
	if msg != "" {
		Emit(M{"ev": "panic", "what": msg})
	}
}

func main() {
	Init()
	Scenarios(func(dec func(interface{})) {
		var s scn
		dec(&s)
		if s.P.Ap > 0 && Rng.Intn(Pick(10, 2)) != 0 {
			return
		}
		run(s)
	})
	for i := 0; i < Pick(150, 1500); i++ {
		p := proj{K: "proj", N: 1 + Rng.Intn(8), D: 1 + Rng.Intn(8), Axis: 2}
		switch Rng.Intn(6) {
		case 5: // from very wide to very long
			if p.N, p.D = 1, 1+Rng.Intn(40); Rng.Intn(2) == 0 {
				p.N, p.D = p.D, p.N
			}
		case 0:
			p.K, p.Axis, p.Size = "iso", Rng.Intn(3), 1+Rng.Intn(60)
		case 1:
			p.K = "env"
		case 2:
			p.Ap, p.Foc = 20+Rng.Intn(400), 500+Rng.Intn(6000)
			if Rng.Intn(3) == 0 {
				p.Ap = 400 + Rng.Intn(3000)
			}
			if Rng.Intn(3) == 0 {
				p.Foc = 50 + Rng.Intn(500)
			}
		}
		s := scn{P: p}
		n := Rng.Intn(6)
		if p.Ap > 0 {
			n = Rng.Intn(3)
		}
		for k := 0; k < n; k++ {
			o := op{I: 1 + Rng.Intn(k+1)}
			if Rng.Intn(2) == 0 {
				o.I = k + 1
			}
			if Rng.Intn(4) > 0 {
				o.R = [3]int{Rng.Intn(25) - 12, Rng.Intn(25) - 12, Rng.Intn(25) - 12}
			}
			if Rng.Intn(4) > 0 {
				o.T = [3]int{Rng.Intn(81) - 40, Rng.Intn(81) - 40, Rng.Intn(81) - 40}
			}
			s.Ops = append(s.Ops, o)
		}
		run(s)
	}
	Flush()
}

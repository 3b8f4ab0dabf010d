// Driver for C15: applies views to scene specifications and observes all
// specifications made so far: settings, camera rays, and what is seen.
package main

import (
	"math"
	"reflect"

	"github.com/barnex/bruteray/api"
	"github.com/barnex/bruteray/geom"
	"github.com/barnex/bruteray/imagef/colorf"
	"github.com/barnex/bruteray/imagef/post"
	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/cameras"

	. "verifharness/vh"
)

type proj struct {
	K    string `json:"k"`
	N    int    `json:"n"`
	D    int    `json:"d"`
	Ap   int    `json:"ap"`
	Foc  int    `json:"foc"`
	Size int    `json:"size"`
	Axis int    `json:"axis"`
}
type camera struct {
	P   proj      `json:"p"`
	M   [3][3]int `json:"m"`
	Pos [3]int    `json:"pos"`
}
type spec struct {
	W      int      `json:"w"`
	H      int      `json:"h"`
	Np     int      `json:"np"`
	Rec    int      `json:"rec"`
	Cam    []camera `json:"cam"`
	N      int      `json:"n"`
	Bd     int      `json:"bd"`
	Md     int      `json:"md"`
	Dn     int      `json:"dn"`
	Iso    int      `json:"iso"`
	Isodir int      `json:"isodir"`
	Dbg    int      `json:"dbg"`
}
type view struct {
	W     int    `json:"w"`
	H     int    `json:"h"`
	Yaw   int    `json:"yaw"`
	Pitch int    `json:"pitch"`
	Pos   [3]int `json:"pos"`
	Dn    int    `json:"dn"`
	Isom  int    `json:"isom"`
	Fov   int    `json:"fov"`
	Dir   int    `json:"dir"`
}
type op struct {
	K string `json:"k"`
	I int    `json:"i"`
	V view   `json:"v"`
}
type scn struct {
	S   spec `json:"s"`
	Ops []op `json:"ops"`
}

// fixed is a camera given by its rotation and position.
func buildCam(c camera) tracer.Camera {
	var w *cameras.WithTransform
	switch c.P.K {
	case "proj":
		w = api.Projective(2 * math.Atan2(float64(c.P.N), float64(c.P.D)))
	case "env":
		w = api.EnvironmentMap()
	case "iso":
		w = cameras.Isometric(2, float64(c.P.Size)/8)
	}
	var m geom.Matrix
	for row := 0; row < 3; row++ {
		for col := 0; col < 3; col++ {
			m[col][row] = float64(c.M[row][col]) / 10000
		}
	}
	// the rotation is given to 4 digits: make it orthonormal
	x := m[0].Normalized()
	y := m[1].MAdd(-m[1].Dot(x), x).Normalized()
	m = geom.Matrix{x, y, x.Cross(y)}
	return cameras.Transform(w, m, geom.Vec{float64(c.Pos[0]) / 8, float64(c.Pos[1]) / 8, float64(c.Pos[2]) / 8})
}

type sky struct{}

func (sky) Shade(ctx *tracer.Ctx, s *tracer.Scene, r *tracer.Ray, h tracer.HitCoords) colorf.Color {
	return colorf.Color{R: (1 + r.Dir[0]) / 2, G: (1 + r.Dir[1]) / 2, B: (1 + r.Dir[2]) / 2}
}

type half struct{}

func (half) Filter(ctx *tracer.Ctx, s *tracer.Scene, r *tracer.Ray, tMax float64, orig colorf.Color) colorf.Color {
	return orig.Mul(0.5)
}

func build(s spec) api.Spec {
	a := api.Spec{Width: s.W, Height: s.H, NumPass: s.Np, Recursion: s.Rec, DebugNormals: s.Dn,
		DebugIsometricFOV: float64(s.Iso) / 8, DebugIsometricDir: s.Isodir}
	if len(s.Cam) > 0 {
		a.Camera = buildCam(s.Cam[0])
	}
	for i := 0; i < s.Md; i++ {
		a.Media = append(a.Media, half{})
	}
	for j := s.N; j >= 1; j-- {
		a.Objects = append(a.Objects, api.Sphere(api.Flat(colorf.Color{R: float64(j) / 8, G: 0.25}), 2, geom.Vec{0, 0, -4 * float64(j)}))
	}
	if s.Bd == 1 {
		k := Rng.Intn(len(a.Objects) + 1)
		a.Objects = append(a.Objects, api.Object{})
		copy(a.Objects[k+1:], a.Objects[k:])
		a.Objects[k] = api.Backdrop(sky{})
	}
	if Rng.Intn(2) == 0 {
		a.PostProcess = post.Params{Gaussian: post.BloomParams{Radius: 0.1, Amplitude: 2, Threshold: 3}}
	}
	a.Lights = []api.Light{api.PointLight(colorf.White, geom.Vec{1, 2, 3})}
	return a
}

func (v view) api() api.View {
	return api.View{Width: v.W, Height: v.H, AntiAlias: Rng.Intn(2) == 0, CamPos: geom.Vec{float64(v.Pos[0]) / 8, float64(v.Pos[1]) / 8, float64(v.Pos[2]) / 8},
		CamYaw: float64(v.Yaw) * 15 * geom.Deg, CamPitch: float64(v.Pitch) * 15 * geom.Deg, DebugNormals: v.Dn,
		DebugIsometric: v.Isom == 1, DebugIsometricFOV: float64(v.Fov) / 8, DebugIsometricDir: v.Dir}
}

func v3(v geom.Vec, s float64) []int { return []int{R(v[0], s), R(v[1], s), R(v[2], s)} }
func col(c colorf.Color) []int       { return []int{R(c.R, 10000), R(c.G, 10000), R(c.B, 10000)} }

func observe(i int, a *api.Spec, n, bd int, pp post.Params, lights []api.Light) {
	rest := 0
	if reflect.DeepEqual(a.PostProcess, pp) && reflect.DeepEqual(a.Lights, lights) {
		rest = 1
	}
	hasCam := 0
	if a.Camera != nil {
		hasCam = 1
	}
	Emit(M{"ev": "settings", "i": i, "w": a.Width, "h": a.Height, "np": a.NumPass, "rec": a.Recursion, "md": len(a.Media), "n": len(a.Objects), "cam": hasCam, "rest": rest})
	ctx := tracer.NewCtx(1)
	if a.Camera != nil {
		for k := 0; k < 2; k++ {
			x, y := 2*Rng.Intn(25), 4*Rng.Intn(13)
			r := a.Camera.RayFrom(ctx, float64(x)/48, float64(y)/48)
			s, d := r.Start, r.Dir
			ctx.PutRay(r)
			u := 0
			if math.Abs(d.Len()-1) < 1e-9 {
				u = 1
			}
			al := s.Dot(d)
			Emit(M{"ev": "ray", "i": i, "a": x, "b": y, "unit": u, "dir": v3(d, 10000), "start": v3(s, 1000), "perp": v3(s.Sub(d.Mul(al)), 1000)})
			if n == 0 && bd == 1 && a.Recursion > 0 {
				ctx.Init(0, 0)
				Emit(M{"ev": "pixel", "i": i, "a": x, "b": y, "c": col(a.ImageFunc()(ctx, float64(x)/48, float64(y)/48))})
			}
		}
	}
	if a.Recursion > 0 {
		sc := a.Scene()
		for j := 0; j <= n; j++ {
			if j > 1 && j < n && Rng.Intn(2) == 0 {
				continue
			}
			ctx.Init(0, 0)
			r := ctx.Ray()
			r.Start, r.Dir = geom.Vec{0, 0, -4 * float64(j)}, geom.Vec{0, 0, -1}
			c := sc.LightField(ctx, r)
			ctx.PutRay(r)
			Emit(M{"ev": "look", "i": i, "j": j, "c": col(c)})
		}
	}
}

func run(s scn) {
	Begin(s)
	if s.S.Cam == nil {
		s.S.Cam = []camera{}
	}
	Emit(M{"ev": "reset", "s": s.S, "ops": s.Ops})
	msg := Try(func() {
		specs := []*api.Spec{}
		first := build(s.S)
		specs = append(specs, &first)
		pp, lights := first.PostProcess, append([]api.Light{}, first.Lights...)
		see := func(i int) { observe(i, specs[i-1], s.S.N, s.S.Bd, pp, lights) }
		see(1)
		for _, o := range s.Ops {
			if o.K == "apply" {
				v := o.V.api()
				n := v.ApplyTo(*specs[o.I-1])
				specs = append(specs, &n)
			} else {
				specs[o.I-1].InitDefaults()
			}
			Emit(M{"ev": o.K, "i": o.I, "v": o.V})
			for i := range specs {
				if i+1 == len(specs) || i+1 == o.I || Rng.Intn(2) == 0 {
					see(i + 1)
				}
			}
		}
	})
	if msg != "" {
		Emit(M{"ev": "panic", "what": msg})
	}
}

func rcam() camera {
	a := func(n int) float64 { return float64(Rng.Intn(24)) * 15 * geom.Deg }
	y := geom.YawPitchRoll(a(24), a(24), a(24)).A
	c := camera{P: proj{K: "proj", N: 1 + Rng.Intn(4), D: 1 + Rng.Intn(4), Axis: 2}}
	for row := 0; row < 3; row++ {
		for col := 0; col < 3; col++ {
			c.M[row][col] = R(y[col][row], 10000)
		}
	}
	for i := range c.Pos {
		c.Pos[i] = Rng.Intn(80) - 40
	}
	switch Rng.Intn(4) {
	case 0:
		c.P = proj{K: "env", N: 1, D: 1, Axis: 2}
	}
	return c
}

func main() {
	Init()
	Scenarios(func(dec func(interface{})) {
		var s scn
		dec(&s)
		if !Thorough() && Rng.Intn(4) != 0 {
			return
		}
		run(s)
	})
	or0 := func(n int) int {
		if Rng.Intn(3) == 0 {
			return 0
		}
		return 1 + Rng.Intn(n)
	}
	for i := 0; i < Pick(300, 4000); i++ {
		s := scn{S: spec{W: or0(3000), H: or0(2000), Np: or0(9), Rec: or0(6), N: Rng.Intn(8), Bd: Rng.Intn(2), Md: Rng.Intn(3),
			Dn: Rng.Intn(3), Isodir: Rng.Intn(3)}}
		if Rng.Intn(3) == 0 {
			s.S.N = 0
		}
		if Rng.Intn(3) == 0 {
			s.S.Iso = 1 + Rng.Intn(50)
		}
		if Rng.Intn(3) > 0 {
			s.S.Cam = []camera{rcam()}
		}
		dbg := []bool{false}
		dn := []int{s.S.Dn}
		for k := 1 + Rng.Intn(5); k > 0; k-- {
			var idle []int
			for j, d := range dbg {
				if !d {
					idle = append(idle, j)
				}
			}
			if len(idle) == 0 {
				break
			}
			j := idle[Rng.Intn(len(idle))]
			v := view{W: or0(3000), H: or0(2000), Yaw: Rng.Intn(49) - 24, Pitch: Rng.Intn(13) - 6, Dn: Rng.Intn(5) % 3,
				Isom: Rng.Intn(2), Fov: or0(40), Dir: Rng.Intn(3)}
			for x := range v.Pos {
				v.Pos[x] = Rng.Intn(81) - 40
			}
			o := op{K: "apply", I: j + 1, V: v}
			if Rng.Intn(3) == 0 {
				o.K = "init"
				dbg[j] = dn[j] != 0
			} else {
				dbg = append(dbg, v.Dn != 0)
				dn = append(dn, v.Dn)
			}
			s.Ops = append(s.Ops, o)
		}
		run(s)
	}
	Flush()
}

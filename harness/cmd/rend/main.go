// Renders a scene given in the environment variable SCENE through the API,
// into the file given with -o; then reports how often each pixel was evaluated.
package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"strconv"
	"sync"

	"github.com/barnex/bruteray/api"
	"github.com/barnex/bruteray/geom"
	"github.com/barnex/bruteray/imagef/colorf"
	"github.com/barnex/bruteray/imagef/post"
	"github.com/barnex/bruteray/tracer"
)

type fx struct {
	K              string
	N, D, Amp, Thr int
}
type scene struct {
	W, H, Np int
	N        int // frames, -1: no animation
	Cols     [][2]int
	Img      [][][3]int
	Fx       []fx
}

type cam struct{}

func (cam) RayFrom(ctx *tracer.Ctx, u, v float64) *tracer.Ray {
	r := ctx.Ray()
	r.Dir = geom.Vec{u, v, -1}
	return r
}

type world struct {
	s     scene
	frame int
	mu    sync.Mutex
	count [][]int
}

func (w *world) Shade(ctx *tracer.Ctx, s *tracer.Scene, r *tracer.Ray, h tracer.HitCoords) colorf.Color {
	W, H := float64(w.s.W), float64(w.s.H)
	x := int(math.Floor(r.Dir[0] * W))
	y := int(math.Floor((0.5 + 0.5*H/W - r.Dir[1]) * W))
	if x < 0 || y < 0 || x >= w.s.W || y >= w.s.H {
		x, y = 0, 0
	}
	w.mu.Lock()
	e := w.count[y][x]
	w.count[y][x]++
	w.mu.Unlock()
	var c colorf.Color
	if w.s.N >= 0 {
		c.R, c.G = float64(w.s.Cols[w.frame][0])/10000, float64(w.s.Cols[w.frame][1])/10000
	} else {
		p := w.s.Img[y][x]
		c.R, c.G = float64(p[0])/10000, float64(p[1])/10000
	}
	if e == 0 {
		c.B = 1
	}
	return c
}

func newWorld(s scene, frame int) *world {
	w := &world{s: s, frame: frame}
	for y := 0; y < s.H; y++ {
		w.count = append(w.count, make([]int, s.W))
	}
	return w
}

func main() {
	var s scene
	if err := json.Unmarshal([]byte(os.Getenv("SCENE")), &s); err != nil {
		panic(err)
	}
	spec := func(w *world) api.Spec {
		a := api.Spec{Objects: []api.Object{api.Backdrop(w)}, Camera: cam{}, Width: s.W, Height: s.H, NumPass: s.Np}
		pixs := 1 / float64(s.W)
		for _, f := range s.Fx {
			b := post.BloomParams{Radius: float64(f.N) / float64(f.D) * pixs * 1.0000001, Amplitude: float64(f.Amp), Threshold: float64(f.Thr) / 10000}
			switch f.K {
			case "gauss":
				a.PostProcess.Gaussian = b
			case "airy":
				a.PostProcess.Airy = b
			case "star":
				a.PostProcess.Star = b
			}
		}
		return a
	}
	var ws []*world
	if s.N >= 0 {
		api.Animate(s.N, func(i int) api.Spec {
			ws = append(ws, newWorld(s, i))
			return spec(ws[i])
		})
	} else {
		ws = append(ws, newWorld(s, 0))
		api.Render(spec(ws[0]))
	}
	least, most := 1<<30, 0
	for _, w := range ws {
		for _, r := range w.count {
			for _, n := range r {
				if n < least {
					least = n
				}
				if n > most {
					most = n
				}
			}
		}
	}
	fmt.Println("EVALS " + strconv.Itoa(least) + " " + strconv.Itoa(most))
}

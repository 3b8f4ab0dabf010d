// Driver for C02: the random choices of every sample, under many batchings and
// schedules, and the resulting images.
package main

import (
	"math"
	"runtime"
	"sync"
	"time"

	"github.com/barnex/bruteray/geom"
	"github.com/barnex/bruteray/imagef/colorf"
	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/cameras"
	"github.com/barnex/bruteray/tracer/lights"
	"github.com/barnex/bruteray/tracer/materials"
	"github.com/barnex/bruteray/tracer/media"
	"github.com/barnex/bruteray/tracer/objects"
	. "github.com/barnex/bruteray/tracer/types"

	. "verifharness/vh"
)

type scenario struct {
	W, H    int
	Batches [][]int
	Kind    string
}

var ids = map[uint64]int{}

func id(x float64) int {
	b := math.Float64bits(x)
	if i, ok := ids[b]; ok {
		return i
	}
	ids[b] = len(ids) + 1
	return len(ids)
}

// everything is an object that every ray hits at distance 1.
type everything struct{ m Material }

func (e everything) Intersect(r *Ray) HitRecord {
	return HitRecord{T: 1, Normal: Vec{0, 1, 0}, Material: e.m}
}

type draw struct{ a [6]float64 }

// probe draws at bounce 1 and 2.
type probe struct{}

func (probe) Shade(ctx *Ctx, s *Scene, r *Ray, h HitCoords) Color {
	u, v := ctx.Generate2()
	if ctx.CurrentRecursionDepth == 1 {
		sec := ctx.Ray()
		sec.Start, sec.Dir = r.At(h.T), Vec{0, 1, 0}
		c := s.LightField(ctx, sec)
		ctx.PutRay(sec)
		cur := ctx2draw(ctx)
		cur.a[0], cur.a[1] = u, v
		cur.a[2], cur.a[3] = c.R, c.G
		return Color{u + c.R, v + c.G, u * c.G}
	}
	return Color{u, v, 0}
}

var (
	mu    sync.Mutex
	draws = map[*Ctx]*draw{}
)

func ctx2draw(c *Ctx) *draw {
	mu.Lock()
	defer mu.Unlock()
	d := draws[c]
	if d == nil {
		d = new(draw)
		draws[c] = d
	}
	return d
}

func scene(kind string) (f ImageFunc, aa bool) {
	white := materials.Matte(colorf.White.EV(-0.5))
	cam := cameras.Projective(90 * Deg).Translate(Vec{0.1, 1, 2.2})
	switch kind {
	case "probe":
		return NewScene(2, nil, everything{probe{}}).ImageFunc(cam), true
	case "scene0": // matte, area lights
		return NewScene(2, []Light{
			lights.RectangleLight(Color{1, 2, 3}, .5, .7, Vec{0.2, 3, 0}),
			lights.DiskLight(Color{3, 2, 1}, .5, Vec{-0.2, 3, 0}),
		}, objects.Box(white, 1, 2, 1, Vec{0, 0.5, 0}), objects.Rectangle(white, 10, 10, Vec{}),
			objects.Backdrop(materials.Flat(Color{.1, .2, .3}))).ImageFunc(cam), true
	case "scene1": // glass, mirror, sun
		return NewScene(2, []Light{lights.SunLight(Color{1, 1, 1}, 5*Deg, 20*Deg, 40*Deg), lights.PointLight(Color{5, 5, 5}, Vec{1, 2, 3})},
			objects.Sphere(materials.Refractive(1.5), 1, Vec{-.5, .5, 0}),
			objects.Sphere(materials.Reflective(Color{.9, .8, .7}), 1, Vec{.5, .5, 0}),
			objects.Rectangle(materials.Blend(.5, white, .5, materials.Flat(Color{1, 0, 0})), 10, 10, Vec{}),
			objects.Backdrop(materials.Flat(Color{.1, .2, .3}))).ImageFunc(cam), false
	case "scene2": // fog
		return NewSceneWithMedia(2, []Medium{media.ExpFog(.2, Color{.5, .5, .5}, 2)},
			[]Light{lights.Transformed(lights.RectangleLight(Color{1, 2, 3}, .5, .7, Vec{0.2, 3, 0}), rot())},
			objects.Sphere(materials.ReflectFresnel(1.3, white), 1, Vec{-.5, .5, 0}),
			objects.Rectangle(white, 10, 10, Vec{})).ImageFunc(cam), true
	default: // tree of many objects, environment camera
		var os []objects.Interface
		for i := 0; i < 30; i++ {
			a := float64(i)
			os = append(os, objects.Sphere(white, 0.5, Vec{math.Sin(a * 1.3), 0.3 + 0.1*math.Cos(a*2.1), 2 * math.Cos(a)}))
		}
		return NewScene(2, []Light{lights.RectangleLight(Color{1, 2, 3}, .5, .7, Vec{0.2, 3, 0})},
			objects.Tree(os...), objects.Rectangle(white, 10, 10, Vec{})).ImageFunc(cameras.EnvironmentMap().Translate(Vec{0, 1, 0})), true
	}
}

func rot() *geom.AffineTransform { return geom.Rotate(Vec{0, 3, 0}, Vec{0, 0, 1}, 30*Deg) }

func main() {
	Init()
	Scenarios(func(dec func(interface{})) {
		var s scenario
		dec(&s)
		run(s)
	})
	// many passes
	for i, k := range []string{"probe", "scene0", "scene1", "scene2", "scene3"} {
		run(scenario{1 + i%2, 1, [][]int{{150}, {1, 149}, {75, 74, 1}, {40, 40, 40, 30}, {65, 85}}, k})
		if k == "probe" || Thorough() {
			run(scenario{1, 1, [][]int{{700}, {1, 699}, {350, 350}, {1100}, {1023, 2, 75}}, k})
		}
	}
	Flush()
}

func run(s scenario) {
	Begin(s)
	Emit(M{"ev": "reset", "kind": s.Kind, "w": s.W, "h": s.H, "_w": s.W * s.H * len(s.Batches)})
	for i, b := range s.Batches {
		one(s, b, i)
	}
	// once more, the first and the last, under a busy machine
	stop := make(chan struct{})
	for i := 0; i < 4; i++ {
		go func() {
			for {
				select {
				case <-stop:
					return
				default:
					runtime.Gosched()
				}
			}
		}()
	}
	one(s, s.Batches[len(s.Batches)-1], 7)
	close(stop)
	runtime.GOMAXPROCS(1)
	one(s, s.Batches[len(s.Batches)/2], 8)
	runtime.GOMAXPROCS(runtime.NumCPU())
}

func one(s scenario, batch []int, sched int) {
	f, aa := scene(s.Kind)
	if s.W > s.H {
		aa = false
	}
	n := s.W * s.H
	vals := make([][][]int, n)
	var lock sync.Mutex
	draws = map[*Ctx]*draw{}
	probing := s.Kind == "probe"
	g := func(ctx *tracer.Ctx, u, v float64) colorf.Color {
		if sched%3 == 1 {
			runtime.Gosched()
		}
		if sched%5 == 2 && int(u*1000)%97 == 0 {
			time.Sleep(50 * time.Microsecond)
		}
		c := f(ctx, u, v)
		ix := int(math.Floor(u * float64(s.W)))
		iy := int(math.Floor((0.5+0.5*float64(s.H)/float64(s.W)-v)*float64(s.W) + 1e-9))
		lock.Lock()
		defer lock.Unlock()
		if ix < 0 || iy < 0 || ix >= s.W || iy >= s.H {
			return c
		}
		row := []int{id(u), id(v)}
		if probing {
			for _, x := range ctx2draw(ctx).a[:4] {
				row = append(row, id(x))
			}
		} else {
			row = append(row, id(c.R), id(c.G), id(c.B))
		}
		p := iy*s.W + ix
		vals[p] = append(vals[p], row)
		return c
	}
	smp := tracer.NewSampler(g, s.W, s.H, aa)
	total := 0
	for _, k := range batch {
		smp.Sample(k)
		total += k
		if sched%2 == 0 {
			smp.Image()
		}
	}
	for p := range vals {
		if vals[p] == nil {
			vals[p] = [][]int{}
		}
	}
	var img []int
	for _, rw := range smp.Image() {
		for _, c := range rw {
			img = append(img, id(c.R), id(c.G), id(c.B))
		}
	}
	Emit(M{"ev": "run", "kind": s.Kind, "w": s.W, "h": s.H, "batch": batch, "total": total, "vals": vals, "img": img})
}

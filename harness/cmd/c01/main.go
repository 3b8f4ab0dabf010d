// Driver for C01: runs the real sampler with an image function that records
// every evaluation and returns prescribed values.
package main

import (
	"math"
	"runtime"
	"sync"
	"sync/atomic"

	"github.com/barnex/bruteray/imagef/colorf"
	"github.com/barnex/bruteray/tracer"

	. "verifharness/vh"
)

type scenario struct {
	W     int     `json:"w"`
	H     int     `json:"h"`
	Calls []int   `json:"calls"`
	AA    int     `json:"aa"`
	NaN   int     `json:"nan"`
	Fine  int     `json:"fine"`
	Unit  float64 // samples are multiples of this (of 1 if 0)
}

func (s *scenario) unit() float64 {
	if s.Unit == 0 {
		return 1
	}
	return s.Unit
}

var units = []float64{0, 0.1, 1. / 3, 0.0123, 77.7, -2.5, -1000, 4096}

func main() {
	Init()
	Scenarios(func(dec func(interface{})) {
		var s scenario
		dec(&s)
		run(s)
	})
	// random larger ones
	for i := 0; i < Pick(40, 300); i++ {
		s := scenario{W: 1 + Rng.Intn(70), H: 1 + Rng.Intn(50), NaN: Rng.Intn(4), Unit: units[Rng.Intn(len(units))]}
		if Rng.Intn(4) == 0 && s.W <= s.H {
			s.AA = 1
		}
		for j := 0; j < 1+Rng.Intn(4); j++ {
			s.Calls = append(s.Calls, Rng.Intn(5))
		}
		run(s)
	}
	// many passes on a tiny image: counts far beyond what previews reach
	for _, calls := range [][]int{{40}, {1, 64, 1}, {130}, {17, 17, 17, 17}} {
		run(scenario{W: 3, H: 2, Calls: calls, NaN: 1})
		run(scenario{W: 2, H: 2, Calls: calls, NaN: 3, Unit: 0.1})
		run(scenario{W: 2, H: 3, Calls: calls, NaN: 1, AA: 1})
	}
	// sizes and numbers of passes far beyond what tests reach
	big := []scenario{
		{W: 1, H: 1, Calls: []int{300, 1}}, {W: 3, H: 2, Calls: []int{1, 515}}, {W: 2, H: 1, Calls: []int{1100, 1100}},
		{W: 1, H: 1, Calls: []int{5000}}, {W: 4500, H: 2, Calls: []int{1, 2}}, {W: 1, H: 4500, Calls: []int{2, 1}},
		{W: 70001, H: 1, Calls: []int{1}}, {W: 1, H: 70001, Calls: []int{1}}, {W: 1300, H: 1031, Calls: []int{1, 1}},
		{W: 257, H: 129, Calls: []int{20, 7}},
	}
	if Thorough() {
		big = append(big, scenario{W: 4099, H: 2161, Calls: []int{1, 1}}, scenario{W: 1, H: 1, Calls: []int{6900}},
			scenario{W: 300001, H: 3, Calls: []int{1}}, scenario{W: 64, H: 64, Calls: []int{700, 70, 7}})
	}
	for i, s := range big {
		s.NaN = i % 2
		bulk(s)
	}
	for i := 0; i < Pick(6, 40); i++ {
		s := scenario{NaN: []int{0, 1, 3}[Rng.Intn(3)], Unit: units[Rng.Intn(len(units))]}
		t := 1 + Rng.Intn(4)
		for j := 0; j < t; j++ {
			s.Calls = append(s.Calls, 1+Rng.Intn(1<<uint(Rng.Intn(11))))
		}
		sum := 0
		for _, k := range s.Calls {
			sum += k
		}
		s.W = 1 + Rng.Intn(1+200000/sum)
		s.H = 1 + Rng.Intn(1+400000/(sum*s.W))
		bulk(s)
	}
	Flush()
}

// bulk runs a whole history on a large image or with many passes.
func bulk(s scenario) {
	Begin(s)
	n := s.W * s.H
	cnt, all, inside := make([]int32, n), make([]int32, n), make([]int32, n)
	var stray, overlap int32
	f := func(ctx *tracer.Ctx, u, v float64) colorf.Color {
		ix := int(math.Floor(u * float64(s.W)))
		iy := int(math.Floor((0.5+0.5*float64(s.H)/float64(s.W)-v)*float64(s.W) + 1e-9))
		if ix < 0 || iy < 0 || ix >= s.W || iy >= s.H {
			atomic.AddInt32(&stray, 1)
			return colorf.Color{}
		}
		p := iy*s.W + ix
		if atomic.AddInt32(&inside[p], 1) != 1 {
			atomic.AddInt32(&overlap, 1)
		}
		atomic.AddInt32(&cnt[p], 1)
		k := int(atomic.AddInt32(&all[p], 1)) - 1
		c := colorf.Color{R: val(s.NaN, p+1, k, 0), G: val(s.NaN, p+1, k, 1), B: val(s.NaN, p+1, k, 2)}.Mul(s.unit())
		atomic.AddInt32(&inside[p], -1)
		return c
	}
	smp := tracer.NewSampler(f, s.W, s.H, false)
	lo, hi := []int{}, []int{}
	total := 0
	for _, k := range s.Calls {
		for i := range cnt {
			cnt[i] = 0
		}
		smp.Sample(k)
		total += k
		a, b := int(cnt[0]), int(cnt[0])
		for _, c := range cnt {
			if int(c) < a {
				a = int(c)
			}
			if int(c) > b {
				b = int(c)
			}
		}
		lo, hi = append(lo, a), append(hi, b)
	}
	img, dev := smp.Image(), smp.StdDev()
	w, h := img.Size()
	N := float64(total)
	nn := N * (N - 1)
	pix := []M{}
	see := []int{0, n - 1, s.W - 1, n - s.W}
	for i := 0; i < 12; i++ {
		see = append(see, Rng.Intn(n))
	}
	for _, p := range see {
		x, y := p%s.W, p/s.W
		c, d := img[y][x].Mul(1/s.unit()), dev[y][x].Mul(1/s.unit())
		pix = append(pix, M{"p": p + 1,
			"img": [3]int{Q(c.R, N, 1e-4), Q(c.G, N, 1e-4), Q(c.B, N, 1e-4)},
			"dev": [3]int{R(d.R*d.R, nn), R(d.G*d.G, nn), R(d.B*d.B, nn)}})
	}
	Emit(M{"ev": "bulk", "w": s.W, "h": s.H, "iw": w, "ih": h, "calls": s.Calls, "nan": s.NaN, "lo": lo, "hi": hi, "stray": stray, "overlap": overlap, "pix": pix, "_w": 10})
}

func val(nan, p, j, c int) float64 {
	if nan == 1 && (p+2*j)%7 == 3 {
		if c == (p+j)%3 {
			return math.NaN()
		}
		return 1000 // must not be counted either
	}
	if nan == 2 && (p+j)%5 == 2 && c == p%3 {
		return math.Inf(1)
	}
	if nan == 3 { // all samples of a pixel are the same
		j = 0
	}
	return float64((p*(c+3)+j*(5+c))%17 - 4)
}

func run(s scenario) {
	Begin(s)
	Emit(M{"ev": "reset", "w": s.W, "h": s.H, "nan": s.NaN, "aa": s.AA, "calls": s.Calls, "_w": 10 + s.W*s.H/20})
	n := s.W * s.H
	var mu sync.Mutex
	j := make([]int, n)      // evaluations of pixel so far
	cnt := make([]int, n)    // in this request
	inside := make([]int, n) // evaluations running now
	ids := map[*tracer.Ctx]int{}
	stray, overlap := 0, 0
	f := func(ctx *tracer.Ctx, u, v float64) colorf.Color {
		ix := int(math.Floor(u * float64(s.W)))
		iy := int(math.Floor((0.5+0.5*float64(s.H)/float64(s.W)-v)*float64(s.W) + 1e-9))
		mu.Lock()
		if ix < 0 || iy < 0 || ix >= s.W || iy >= s.H {
			stray++
			mu.Unlock()
			return colorf.Color{}
		}
		p := iy*s.W + ix
		g, ok := ids[ctx]
		if !ok {
			g = len(ids) + 1
			ids[ctx] = g
		}
		if inside[p] != 0 {
			overlap++
		}
		inside[p]++
		cnt[p]++
		k := j[p]
		j[p]++
		if s.Fine == 1 {
			Emit(M{"ev": "b", "g": g, "p": p + 1})
		}
		mu.Unlock()
		if s.Fine == 1 {
			runtime.Gosched()
		}
		c := colorf.Color{R: val(s.NaN, p+1, k, 0), G: val(s.NaN, p+1, k, 1), B: val(s.NaN, p+1, k, 2)}.Mul(s.unit())
		mu.Lock()
		inside[p]--
		if s.Fine == 1 {
			Emit(M{"ev": "e", "g": g, "p": p + 1})
		}
		mu.Unlock()
		return c
	}
	smp := tracer.NewSampler(f, s.W, s.H, s.AA == 1)
	total := 0
	for _, k := range s.Calls {
		for i := range cnt {
			cnt[i] = 0
		}
		stray, overlap = 0, 0
		if s.Fine == 1 {
			Emit(M{"ev": "call", "k": k})
		}
		smp.Sample(k)
		mu.Lock()
		if s.Fine == 1 {
			Emit(M{"ev": "ret"})
		} else {
			Emit(M{"ev": "agg", "k": k, "cnt": append([]int{}, cnt...), "stray": stray, "overlap": overlap})
		}
		mu.Unlock()
		total += k
		if total == 0 {
			continue
		}
		img, dev := smp.Image(), smp.StdDev()
		w, h := img.Size()
		vi, vd := [][3]int{}, [][3]int{}
		N := float64(total)
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				c, d := img[y][x].Mul(1/s.unit()), dev[y][x].Mul(1/s.unit())
				vi = append(vi, [3]int{q(c.R, N), q(c.G, N), q(c.B, N)})
				nn := N * (N - 1)
				vd = append(vd, [3]int{R(d.R*d.R, nn), R(d.G*d.G, nn), R(d.B*d.B, nn)})
			}
		}
		Emit(M{"ev": "img", "w": w, "h": h, "img": vi, "dev": vd})
	}
}

func q(x, n float64) int {
	if math.IsInf(x, 1) {
		return 2000000002
	}
	return Q(x, n, 1e-6)
}

// Driver for C03: where the sampler takes its samples. The image function
// returns its arguments as a colour, so that the accumulated image tells at
// which position each pixel was sampled.
package main

import (
	"math"
	"strconv"

	"github.com/barnex/bruteray/imagef/colorf"
	"github.com/barnex/bruteray/sampler"
	"github.com/barnex/bruteray/tracer"

	. "verifharness/vh"
)

func main() {
	Init()
	dims := []int{1, 2, 3, 4, 7, 15, 16, 17, 31, 33, 48}
	for _, w := range dims {
		for _, h := range dims {
			plain(w, h, 1)
		}
	}
	for i := 0; i < Pick(30, 300); i++ {
		plain(1+Rng.Intn(90), 1+Rng.Intn(70), 1+Rng.Intn(4))
	}
	for _, s := range [][3]int{{1, 1, 143}, {2, 2, 143}, {3, 3, 64}, {6, 2, 143}, {2, 7, 143}, {17, 3, 64}, {5, 20, 64}, {20, 20, 5}} {
		aa(s[0], s[1], s[2])
	}
	aa(1, 1, Pick(1300, 5000))
	aa(2, 1, 600)
	aa(1, 3, 300)
	plain(2500, 3, 1)
	plain(3, 2500, 1)
	plain(321, 243, 2)
	for i := 0; i < Pick(6, 60); i++ {
		aa(1+Rng.Intn(12), 1+Rng.Intn(12), 143)
	}
	for i := 0; i < Pick(500, 5000); i++ {
		w, h := 1+Rng.Intn(100), 1+Rng.Intn(100)
		x2, y2 := Rng.Intn(2*w+1)-1, Rng.Intn(2*h+1)-1
		for k, f := range []func(int, int, float64, float64) (float64, float64){tracer.IndexToCam, sampler.IndexToCam} {
			u, v := f(w, h, float64(x2)/2, float64(y2)/2)
			Emit(M{"ev": "map", "pkg": k, "w": w, "h": h, "x2": x2, "y2": y2, "u": Q(u, 2*float64(w), 1e-6), "v": Q(v, 2*float64(w), 1e-6)})
		}
	}
	Flush()
}

func pos(ctx *tracer.Ctx, u, v float64) colorf.Color { return colorf.Color{R: u, G: v} }

func plain(w, h, n int) {
	Begin(M{"kind": "plain", "w": w, "h": h})
	s := tracer.NewSampler(pos, w, h, false)
	s.Sample(n)
	var us, vs []int
	for _, row := range s.Image() {
		for _, c := range row {
			us = append(us, Q(c.R, 2*float64(w), 1e-6))
			vs = append(vs, Q(c.G, 2*float64(w), 1e-6))
		}
	}
	Emit(M{"ev": "plain", "w": w, "h": h, "n": n, "u": us, "v": vs})
}

func aa(w, h, n int) {
	Begin(M{"kind": "aa", "w": w, "h": h, "n": n})
	s := tracer.NewSampler(pos, w, h, true)
	var du, dv = make([][]int, w*h), make([][]int, w*h)
	id := make([][]string, w*h)
	prev := make([]colorf.Color, w*h)
	scale := 1e6 * math.Min(float64(w), float64(h))
	for k := 1; k <= n; k++ {
		s.Sample(1)
		p := 0
		for y, row := range s.Image() {
			for x, c := range row {
				sum := c.Mul(float64(k))
				u, v := sum.R-prev[p].R, sum.G-prev[p].G
				prev[p] = sum
				uc := (float64(x) + 0.5) / float64(w)
				vc := 0.5 + 0.5*float64(h)/float64(w) - (float64(y)+0.5)/float64(w)
				du[p] = append(du[p], R(u-uc, scale))
				dv[p] = append(dv[p], R(v-vc, scale))
				id[p] = append(id[p], strconv.Itoa(R(u-uc, scale))+","+strconv.Itoa(R(v-vc, scale)))
				p++
			}
		}
	}
	for p := range du {
		Emit(M{"ev": "aa", "w": w, "h": h, "x": p % w, "y": p / w, "n": n, "du": du[p], "dv": dv[p], "id": id[p], "_w": n / 10})
	}
}

// Driver for C20: real convolutions and bloom effects.
package main

import (
	"math"
	"reflect"

	"github.com/barnex/bruteray/imagef"
	"github.com/barnex/bruteray/imagef/colorf"
	"github.com/barnex/bruteray/imagef/post"

	. "verifharness/vh"
)

type img [][][3]int

func (m img) real(scale float64) imagef.Image {
	r := imagef.MakeImage(len(m[0]), len(m))
	for y := range m {
		for x, c := range m[y] {
			r[y][x] = colorf.Color{R: float64(c[0]) / scale, G: float64(c[1]) / scale, B: float64(c[2]) / scale}
		}
	}
	return r
}

func ints(m imagef.Image, scale float64, tol float64) img {
	out := img{}
	for y := range m {
		row := [][3]int{}
		for _, c := range m[y] {
			row = append(row, [3]int{Q(c.R, scale, tol), Q(c.G, scale, tol), Q(c.B, scale, tol)})
		}
		out = append(out, row)
	}
	return out
}

func rimg(w, h, n, dark int) img {
	m := img{}
	for y := 0; y < h; y++ {
		row := [][3]int{}
		for x := 0; x < w; x++ {
			c := [3]int{}
			if Rng.Intn(100) >= dark {
				c = [3]int{Rng.Intn(n), Rng.Intn(n), Rng.Intn(n)}
			}
			row = append(row, c)
		}
		m = append(m, row)
	}
	return m
}

func same(a, b imagef.Image) bool { return reflect.DeepEqual(a, b) }

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func conv(dst, src, kern img, thr, gain int) {
	sum := 0
	for _, r := range kern {
		for _, c := range r {
			sum += c[0] + c[1] + c[2]
		}
	}
	d, s, k := dst.real(1), src.real(1), kern.real(1)
	s0, k0 := s.Copy(), k.Copy()
	Begin(M{"dst": dst, "img": src, "kern": kern, "thr": thr, "gain": gain})
	msg := Try(func() {
		r := post.AddConvolution(d, s, k, float64(gain)*float64(sum)/3, float64(thr))
		ok := same(s, s0) && same(k, k0) && same(r, d)
		Emit(M{"ev": "conv", "dst": dst, "img": src, "kern": kern, "thr": thr, "gain": gain, "out": ints(r, 1, 1e-3), "same": b2i(ok)})
	})
	if msg != "" {
		Emit(M{"ev": "panic", "what": msg, "img": src, "kern": kern})
	}
}

type fx struct {
	K   string `json:"k"`
	N   int    `json:"n"`
	D   int    `json:"d"`
	Amp int    `json:"amp"`
	Thr int    `json:"thr"`
}

func effects(src img, fs []fx, pixs float64, direct bool) {
	m := src.real(10000)
	m0 := m.Copy()
	Begin(M{"img": src, "fx": fs, "pixs": pixs})
	msg := Try(func() {
		var r imagef.Image
		if direct {
			r = m
			for _, f := range fs {
				rad := float64(f.N) / float64(f.D) * pixs * 1.0000001
				switch f.K {
				case "gauss":
					r = post.ApplyGaussianBloom(r, pixs, rad, float64(f.Amp), float64(f.Thr)/10000)
				case "airy":
					r = post.ApplyAiryBloom(r, pixs, rad, float64(f.Amp), float64(f.Thr)/10000)
				case "star":
					r = post.ApplyStarBloom(r, pixs, rad, float64(f.Amp), float64(f.Thr)/10000)
				}
			}
		} else {
			var p post.Params
			for _, f := range fs {
				b := post.BloomParams{Radius: float64(f.N) / float64(f.D) * pixs * 1.0000001, Amplitude: float64(f.Amp), Threshold: float64(f.Thr) / 10000}
				switch f.K {
				case "gauss":
					p.Gaussian = b
				case "airy":
					p.Airy = b
				case "star":
					p.Star = b
				}
			}
			r = p.ApplyTo(m, pixs)
		}
		n := 0
		for _, row := range src {
			for _, c := range row {
				if c != [3]int{} {
					n++
				}
			}
		}
		Emit(M{"ev": "post", "img": src, "fx": fs, "out": ints(r, 10000, 1), "same": b2i(same(m, m0)), "_w": 20 + 20*len(fs)})
	})
	if msg != "" {
		Emit(M{"ev": "panic", "what": msg, "img": src, "fx": fs})
	}
}

func main() {
	Init()
	Scenarios(func(dec func(interface{})) {
		var s struct {
			Img, Kern img
			Thr, Gain int
		}
		dec(&s)
		w, h := len(s.Img[0]), len(s.Img)
		conv(rimg(w, h, 3, 50), s.Img, s.Kern, s.Thr, s.Gain)
	})
	for i := 0; i < Pick(400, 6000); i++ {
		w, h := 1+Rng.Intn(8), 1+Rng.Intn(8)
		kw, kh := 1+Rng.Intn(7), 1+Rng.Intn(7)
		if Rng.Intn(3) == 0 {
			kw, kh = 1+2*Rng.Intn(9), 1+2*Rng.Intn(9)
		}
		k := rimg(kw, kh, 5, 30)
		k[kh/2][kw/2][0]++
		conv(rimg(w, h, 9, 40), rimg(w, h, 12, 30), k, Rng.Intn(8), 1+Rng.Intn(3))
	}
	for i := 0; i < Pick(240, 2500); i++ {
		w, h := 3+Rng.Intn(9), 3+Rng.Intn(9)
		m := rimg(w, h, 2000, 50)
		for k := 1 + Rng.Intn(3); k > 0; k-- {
			y, x := Rng.Intn(h), Rng.Intn(w)
			m[y][x] = [3]int{3000 + Rng.Intn(6000), Rng.Intn(5000), Rng.Intn(9000)}
		}
		var fs []fx
		for _, k := range []string{"gauss", "airy", "star"} {
			if Rng.Intn(5) < 2 {
				continue
			}
			f := fx{K: k, N: 1 + Rng.Intn(8), D: 4, Amp: Rng.Intn(3), Thr: 1000 + 700*Rng.Intn(8)}
			if Rng.Intn(5) == 0 { // everything blooms
				f.Thr = 0
			}
			if k == "star" {
				f.N = 1 + Rng.Intn(48)
			}
			fs = append(fs, f)
		}
		if len(fs) == 3 && Rng.Intn(2) == 0 {
			fs = fs[:2]
		}
		if fs == nil {
			fs = []fx{}
		}
		pixs := math.Pow(10, -3*Rng.Float64())
		effects(m, fs, pixs, Rng.Intn(3) == 0)
	}
	Flush()
}

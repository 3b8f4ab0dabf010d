// Driver for C22: builds texture trees (images go through files) and evaluates
// them.
package main

import (
	"image"
	"image/color"
	"image/png"
	"io/ioutil"
	"math"
	"os"
	"path/filepath"

	"github.com/barnex/bruteray/api"
	"github.com/barnex/bruteray/geom"
	"github.com/barnex/bruteray/imagef"
	"github.com/barnex/bruteray/imagef/colorf"
	"github.com/barnex/bruteray/texture"

	. "verifharness/vh"
)

// tex as in Texture.tla
type tex = map[string]interface{}

var (
	dir   string
	files int
)

func num(x interface{}) int {
	switch v := x.(type) {
	case float64:
		return int(v)
	case int:
		return v
	}
	panic("number")
}
func arr(x interface{}) []interface{} { return x.([]interface{}) }

func rows(t tex) (px [][][3]int) {
	for _, r := range arr(t["rows"]) {
		var row [][3]int
		for _, c := range arr(r) {
			a := arr(c)
			row = append(row, [3]int{num(a[0]), num(a[1]), num(a[2])})
		}
		px = append(px, row)
	}
	return
}

func build(t tex) texture.Texture {
	switch t["k"].(string) {
	case "img":
		px := rows(t)
		h, w := len(px), len(px[0])
		m := image.NewNRGBA(image.Rect(0, 0, w, h))
		for j := range px {
			for i, c := range px[j] {
				m.Set(i, h-1-j, color.NRGBA{uint8(c[0]), uint8(c[1]), uint8(c[2]), 255})
			}
		}
		files++
		name := filepath.Join(dir, "t.png")
		f, err := os.Create(name)
		if err != nil {
			panic(err)
		}
		if err := png.Encode(f, m); err != nil {
			panic(err)
		}
		f.Close()
		if num(t["lin"]) == 1 {
			if Rng.Intn(2) == 0 {
				return api.LoadHeightMap(name)
			}
			return texture.HeightMap(name)
		}
		if Rng.Intn(2) == 0 {
			return api.LoadTexture(name)
		}
		return texture.MustLoad(name)
	case "col":
		c := arr(t["c"])
		return colorf.Color{R: float64(num(c[0])) / 10000, G: float64(num(c[1])) / 10000, B: float64(num(c[2])) / 10000}
	case "pt":
		return texture.Func(func(p geom.Vec) colorf.Color { return colorf.Color{R: p[0], G: p[1], B: p[2]} })
	case "pt2":
		return texture.Func2D(func(u, v float64) colorf.Color { return colorf.Color{R: u, G: v} })
	case "pan":
		return texture.Pan(build(t["t"].(tex)), float64(num(t["du"]))/256, float64(num(t["dv"]))/256)
	case "scale":
		n, d := arr(t["n"]), arr(t["d"])
		su, sv := float64(num(n[0]))/float64(num(d[0])), float64(num(n[1]))/float64(num(d[1]))
		if Rng.Intn(2) == 0 {
			return api.Texture{build(t["t"].(tex))}.Scale(su, sv)
		}
		return texture.ScaleUV(build(t["t"].(tex)), su, sv)
	case "check":
		return texture.Checkers(float64(num(t["pu"]))/2, float64(num(t["pv"]))/2, build(t["a"].(tex)), build(t["b"].(tex)))
	case "grid":
		return texture.Grid(float64(num(t["wd"]))/256, float64(num(t["pu"])), float64(num(t["pv"])), build(t["a"].(tex)), build(t["b"].(tex)))
	}
	panic(t["k"])
}

func at(t texture.Texture, p [3]float64) []int {
	c := t.At(geom.Vec(p))
	if u, ok := t.(interface {
		AtUV(u, v float64) colorf.Color
	}); ok && Rng.Intn(3) == 0 {
		c = u.AtUV(p[0], p[1])
	}
	if p[2] == 0 && Rng.Intn(2) == 0 { // as heights
		c.R = api.Texture{t}.HeightMap()(p[0], p[1])
	}
	return []int{R(c.R, 10000), R(c.G, 10000), R(c.B, 10000)}
}

func run(t tex, n int) {
	Begin(t)
	ps, cs := [][3]int{}, [][]int{}
	msg := Try(func() {
		x := build(t)
		for i := 0; i < n; i++ {
			p := [3]int{8 * (Rng.Intn(256) - 128), 8 * (Rng.Intn(256) - 128), 8 * (Rng.Intn(64) - 32)}
			switch Rng.Intn(6) {
			case 0:
				p[0] = 256 * (Rng.Intn(9) - 4)
			case 1:
				p[1] = 256 * (Rng.Intn(9) - 4)
			}
			f := [3]float64{float64(p[0]) / 256, float64(p[1]) / 256, float64(p[2]) / 256}
			if t["k"] != "img" && periodic(t) && Rng.Intn(2) == 0 {
				f[Rng.Intn(2)] += math.Ldexp(float64(1-2*Rng.Intn(2)), 5+Rng.Intn(18))
			}
			if t["k"] == "img" {
				switch Rng.Intn(5) {
				case 0: // far away
					k := Rng.Intn(2)
					s := math.Ldexp(float64(1-2*Rng.Intn(2)), Rng.Intn(40))
					f[k] += s
				case 1: // farther than fractions go
					k := Rng.Intn(2)
					p[k] = 0
					f[k] = math.Ldexp(float64(1-2*Rng.Intn(2)), 60+Rng.Intn(900))
				case 2: // just below or above a grid point
					k := Rng.Intn(2)
					p[k] = 0
					f[k] = 1e-12
				}
			}
			ps, cs = append(ps, p), append(cs, at(x, f))
		}
	})
	if msg != "" {
		Emit(M{"ev": "panic", "what": msg, "t": t})
		return
	}
	Emit(M{"ev": "tex", "t": t, "p": ps, "c": cs})
}

// periodic: repeats after 32 units
func periodic(t tex) bool {
	if k := t["k"]; k == "pt" || k == "pt2" {
		return false
	}
	for _, k := range []string{"t", "a", "b"} {
		if x, ok := t[k].(tex); ok && !periodic(x) {
			return false
		}
	}
	return true
}

func rimg(maxw int) tex {
	w, h := 1+Rng.Intn(maxw), 1+Rng.Intn(maxw)
	rs := []interface{}{}
	for j := 0; j < h; j++ {
		r := []interface{}{}
		for i := 0; i < w; i++ {
			r = append(r, []interface{}{Rng.Intn(256), Rng.Intn(256), Rng.Intn(256)})
		}
		rs = append(rs, r)
	}
	return tex{"k": "img", "rows": rs, "lin": Rng.Intn(2)}
}

func rtex(d int, scales int) tex {
	switch x := Rng.Intn(10); {
	case d == 0 || x < 2:
		switch Rng.Intn(5) {
		case 0:
			return tex{"k": "pt"}
		case 1:
			return tex{"k": "pt2"}
		case 2:
			return tex{"k": "col", "c": []interface{}{Rng.Intn(9999), Rng.Intn(9999), Rng.Intn(9999)}}
		}
		return rimg(9)
	case x < 4:
		return tex{"k": "pan", "t": rtex(d-1, scales), "du": 8 * (Rng.Intn(200) - 100), "dv": 8 * (Rng.Intn(200) - 100)}
	case x < 6 && scales > 0:
		n, e := []interface{}{1, 1}, []interface{}{1, 1}
		for i := range n {
			if Rng.Intn(2) == 0 {
				n[i] = 2
			} else if Rng.Intn(2) == 0 {
				e[i] = 1 + Rng.Intn(3)
			}
		}
		return tex{"k": "scale", "t": rtex(d-1, scales-1), "n": n, "d": e}
	case x < 8:
		return tex{"k": "check", "a": rtex(d-1, scales), "b": rtex(d-1, scales), "pu": 1 + Rng.Intn(9), "pv": 1 + Rng.Intn(9)}
	default:
		return tex{"k": "grid", "a": rtex(d-1, scales), "b": rtex(d-1, scales), "wd": 1 + Rng.Intn(20), "pu": 1 + Rng.Intn(5), "pv": 1 + Rng.Intn(5)}
	}
}

func nearest() {
	t := rimg(9)
	px := rows(t)
	m := imagef.MakeImage(len(px[0]), len(px))
	for j := range px {
		for i, c := range px[j] {
			m[j][i] = colorf.Color{R: float64(c[0]) / 255, G: float64(c[1]) / 255, B: float64(c[2]) / 255}
		}
	}
	t["lin"] = 1
	ps, cs := [][3]int{}, [][]int{}
	msg := Try(func() {
		x := texture.Nearest(m)
		for i := 0; i < 40; i++ {
			p := [3]int{8 * Rng.Intn(33), 8 * Rng.Intn(33), Rng.Intn(9)}
			ps, cs = append(ps, p), append(cs, at(x, [3]float64{float64(p[0]) / 256, float64(p[1]) / 256, float64(p[2])}))
		}
	})
	if msg != "" {
		Emit(M{"ev": "panic", "what": msg, "t": t})
		return
	}
	Emit(M{"ev": "near", "t": t, "p": ps, "c": cs})
}

func fish() {
	x := texture.MapFisheye(texture.Func(func(p geom.Vec) colorf.Color { return colorf.Color{R: p[0], G: p[1], B: p[2]} }))
	ps, cs := [][2]int{}, [][]int{}
	for i := 0; i < 60; i++ {
		th, ph := Rng.Intn(7), Rng.Intn(24)-12
		a, b := float64(th)*15*geom.Deg, float64(ph)*15*geom.Deg
		s := math.Ldexp(1, Rng.Intn(9)-4)
		if th == 6 { // about horizontal, in any direction nearby
			a += 1e-9 * Rng.NormFloat64()
			b += 1e-5 * Rng.NormFloat64()
			if a > math.Pi/2 {
				a = math.Pi / 2
			}
		}
		ps, cs = append(ps, [2]int{th, ph}), append(cs, at(x, [3]float64{s * math.Sin(a) * math.Cos(b), s * math.Cos(a), s * math.Sin(a) * math.Sin(b)}))
	}
	Emit(M{"ev": "fish", "p": ps, "c": cs})
}

func main() {
	Init()
	var err error
	if dir, err = ioutil.TempDir("", "verif-tex"); err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	Scenarios(func(dec func(interface{})) {
		var s struct{ T tex }
		dec(&s)
		run(s.T, 24)
	})
	for i := 0; i < Pick(600, 8000); i++ {
		run(rtex(4, 3), 40)
	}
	for i := 0; i < Pick(200, 3000); i++ {
		run(rimg(40), 60)
		nearest()
		fish()
	}
	Flush()
}

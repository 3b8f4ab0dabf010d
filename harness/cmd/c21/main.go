// Driver for C21: low-discrepancy sequences and mappings.
package main

import (
	"math"

	"github.com/barnex/bruteray/geom"
	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/sequence"

	. "verifharness/vh"
)

var bases = []int{2, 3, 5, 7, 11, 13}

func pow(b, k int) int {
	r := 1
	for ; k > 0; k-- {
		r *= b
	}
	return r
}

func main() {
	Init()
	elements()
	blocks()
	shifted()
	context()
	mappings()
	Flush()
}

func digits(b, i int) int {
	k := 1
	for pow(b, k) <= i+1 {
		k++
	}
	return k
}

func elem(b, i int) {
	k := digits(b, i)
	if pow(b, k) > 1<<30 {
		return
	}
	Emit(M{"ev": "elem", "b": b, "i": i, "k": k, "x": Q(sequence.Halton(b, i), float64(pow(b, k)), 1e-3)})
}

func elements() {
	for _, b := range append(bases, 4, 10, 17) {
		for i := 0; i < Pick(400, 3000); i++ {
			elem(b, i)
		}
		for j := 0; j < Pick(100, 1000); j++ {
			elem(b, Rng.Intn(1<<26))
		}
		for k := 1; pow(b, k) < 1<<28; k++ {
			for d := -3; d < 3; d++ {
				if pow(b, k)+d >= 0 {
					elem(b, pow(b, k)+d)
				}
			}
		}
	}
}

func blocks() {
	for _, b := range bases {
		for k := 1; pow(b, k) <= Pick(400, 3000); k++ {
			n := pow(b, k)
			for _, m := range []int{1, 2, 3, 7, Rng.Intn(1000) + 1} {
				var c []int
				for i := m * n; i < (m+1)*n; i++ {
					c = append(c, int(math.Floor(sequence.Halton(b, i-1)*float64(n)+1e-9)))
				}
				Emit(M{"ev": "block", "b": b, "k": k, "m": m, "c": c, "_w": 1 + n/20})
			}
		}
	}
}

func shifted() {
	const npix = 40
	sh := make([]geom.Vec2, npix)
	for i := range sh {
		sh[i] = geom.Vec2{Rng.Float64(), Rng.Float64()}
	}
	sh[0] = geom.Vec2{0, 0}
	sh[1] = geom.Vec2{1 - 1e-15, 0.5}
	sh[2] = geom.Vec2{0.5, 1 - 1e-16}
	for _, bb := range [][2]int{{2, 3}, {5, 7}, {11, 13}} {
		sp := []geom.Vec2{}
		for i := 0; i < bb[1]*bb[1]; i++ { // shifts that can add up to exactly one
			sp = append(sp, geom.Vec2{float64(i%bb[0]) / float64(bb[0]), float64(i%bb[1]) / float64(bb[1])},
				geom.Vec2{sequence.Halton(bb[0], i), sequence.Halton(bb[1], i)}, geom.Vec2{1 - sequence.Halton(bb[0], i), 1 - sequence.Halton(bb[1], i)})
		}
		ss := sequence.NewHalton(bb[0], bb[1], 1, sp)
		for p := range sp {
			if !(sp[p][0] < 1 && sp[p][1] < 1) {
				continue
			}
			lo, hi := 1.0, 0.0
			for i := 0; i < 250; i++ {
				ss.Init(p, i)
				u, v := ss.Generate2()
				lo, hi = math.Min(lo, math.Min(u, v)), math.Max(hi, math.Max(u, v))
			}
			Emit(M{"ev": "range", "b": bb[0], "p": p, "lo": int(math.Floor(lo * 1e6)), "hi": int(math.Floor(hi * 1e6))})
		}
		s := sequence.NewHalton(bb[0], bb[1], 1, sh)
		for p := 0; p < npix; p++ {
			for ax := 0; ax < 2; ax++ {
				b := bb[ax]
				for k := 1; pow(b, k) <= 100; k++ {
					n := pow(b, k)
					m := 1 + Rng.Intn(3)
					switch Rng.Intn(3) {
					case 1: // passes far into a long rendering
						m = 1 + Rng.Intn(1+5000/n)
					case 2: // passes around a thousand
						m = 1 + 999/n
					}
					var c []int
					lo, hi := 1.0, 0.0
					for i := m * n; i < (m+1)*n; i++ {
						if Rng.Intn(3) == 0 { // drawn in between for another pixel
							s.Init(Rng.Intn(npix), Rng.Intn(100))
							s.Generate2()
						}
						s.Init(p, i-1)
						u, v := s.Generate2()
						x := [2]float64{u, v}[ax]
						lo, hi = math.Min(lo, x), math.Max(hi, x)
						d := x - sh[p][ax]
						d -= math.Floor(d)
						c = append(c, int(math.Floor(d*float64(n)+1e-6))%n)
					}
					Emit(M{"ev": "shift", "p": p, "b": b, "k": k, "m": m, "c": c, "lo": int(math.Floor(lo * 1e6)), "hi": int(math.Floor(hi * 1e6)), "_w": 1 + n/20})
				}
			}
		}
	}
}

// what materials and lights draw at the first two bounces
func context() {
	const npix = 30
	ctx := tracer.NewCtx(npix)
	for depth := 1; depth <= 2; depth++ {
		for p := 0; p < npix; p++ {
			const n = 210
			first := 0
			if p%3 == 2 { // also late in the sequence
				first = Rng.Intn(1 << uint(8+Rng.Intn(13)))
			}
			cnt := map[[2]int][]int{}
			quad := make([]int, 4)
			out := 0
			for i := 0; i < n; i++ {
				ctx.Init(p, first+i)
				ctx.CurrentRecursionDepth = depth
				u, v := ctx.Generate2()
				if !(u >= 0 && u < 1 && v >= 0 && v < 1) {
					out++
					continue
				}
				for ax, x := range []float64{u, v} {
					for _, m := range []int{2, 3, 4, 5, 7} {
						k := [2]int{ax, m}
						if cnt[k] == nil {
							cnt[k] = make([]int, m)
						}
						cnt[k][int(x*float64(m))]++
					}
				}
				quad[int(u*2)+2*int(v*2)]++
			}
			for k, c := range cnt {
				Emit(M{"ev": "even", "what": "ctx", "depth": depth, "p": p, "first": first, "axis": k[0], "n": n, "cnt": c, "out": out, "slack": 7})
			}
			Emit(M{"ev": "even", "what": "ctx2d", "depth": depth, "p": p, "n": n, "cnt": quad, "out": out, "slack": 15})
		}
	}
}

func cell(r2, phi float64) int {
	if phi < 0 {
		phi += 2 * math.Pi
	}
	i, j := int(r2*4), int(phi/(2*math.Pi)*4)
	if i > 3 {
		i = 3
	}
	if j > 3 {
		j = 3
	}
	return i*4 + j
}

func mappings() {
	const N = 64
	cnt := make([]int, 16)
	out := 0
	for i := 0; i < N; i++ {
		for j := 0; j < N; j++ {
			x, y := sequence.UniformDisk((float64(i)+.5)/N, (float64(j)+.5)/N)
			r2 := x*x + y*y
			if !(r2 <= 1+1e-9) {
				out++
				continue
			}
			cnt[cell(r2, math.Atan2(y, x))]++
		}
	}
	Emit(M{"ev": "even", "what": "disk", "n": N * N, "cnt": cnt, "out": out, "slack": 20})
	edge := []float64{0, 1e-300, 1e-17, 0.125, 0.25, 1. / 3, 0.5, 0.75, 1 - 1e-10, math.Nextafter(1, 0)}
	for _, u := range edge {
		for _, v := range edge {
			x, y := sequence.UniformDisk(u, v)
			Emit(M{"ev": "disk", "u": u, "v": v, "r2": R(x*x+y*y, 1e6)})
		}
	}
	normals := []geom.Vec{}
	for x := -1; x <= 1; x++ {
		for y := -1; y <= 1; y++ {
			for z := -1; z <= 1; z++ {
				if x != 0 || y != 0 || z != 0 {
					normals = append(normals, geom.Vec{float64(x), float64(y), float64(z)}.Normalized())
				}
			}
		}
	}
	for i := 0; i < Pick(60, 600); i++ {
		normals = append(normals, geom.Vec{Rng.NormFloat64(), Rng.NormFloat64(), Rng.NormFloat64()}.Normalized())
	}
	for i := 0; i < 20; i++ { // nearly along an axis
		v := geom.Vec{Rng.NormFloat64() * 1e-7, Rng.NormFloat64() * 1e-9, Rng.NormFloat64() * 1e-12}
		v[Rng.Intn(3)] = 1 - 2*float64(Rng.Intn(2))
		normals = append(normals, v.Normalized())
	}
	for _, n := range normals {
		hemi(n, edge)
	}
}

func hemi(n geom.Vec, edge []float64) {
	const N = 48
	// a tangent basis of our own
	t := geom.Vec{1, 0, 0}
	if math.Abs(n[0]) > 0.6 {
		t = geom.Vec{0, 1, 0}
	}
	a := n.Cross(t).Normalized()
	b := n.Cross(a)
	cnt := make([]int, 16)
	out := 0
	nv := []int{R(n[0], 1e6), R(n[1], 1e6), R(n[2], 1e6)}
	for i := 0; i < N; i++ {
		for j := 0; j < N; j++ {
			d := sequence.CosineSphere((float64(i)+.5)/N, (float64(j)+.5)/N, n)
			c := d.Dot(n)
			if !(c >= 0 && math.Abs(d.Len()-1) < 1e-6) {
				out++
				continue
			}
			cnt[cell(1-c*c, math.Atan2(d.Dot(b), d.Dot(a)))]++
		}
	}
	Emit(M{"ev": "even", "what": "hemisphere", "normal": nv, "n": N * N, "cnt": cnt, "out": out, "slack": 30})
	for _, u := range edge[:6] {
		for _, v := range edge {
			d := sequence.CosineSphere(u, v, n)
			Emit(M{"ev": "hemi", "normal": nv, "u": u, "v": v, "len2": R(d.Dot(d), 1e6), "cos": R(d.Dot(n), 1e6)})
		}
	}
}

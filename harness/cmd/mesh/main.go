// Driver for C18: writes mesh files from lines of tokens, reads them with the
// real parsers, and looks at the meshes built from them.
package main

import (
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/barnex/bruteray/api"
	"github.com/barnex/bruteray/geom"
	"github.com/barnex/bruteray/imagef/colorf"
	"github.com/barnex/bruteray/texture"
	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/materials"
	"github.com/barnex/bruteray/tracer/objects"
	"github.com/barnex/bruteray/tracer/objects/obj"
	"github.com/barnex/bruteray/tracer/objects/ply"
	"github.com/barnex/bruteray/tracer/types"

	. "verifharness/vh"
)

// Tok and File as in MeshFile.tla
type Tok struct {
	K string `json:"k"`
	S string `json:"s"`
	V int    `json:"v"`
}
type File struct {
	Kind string  `json:"kind"`
	Ls   [][]Tok `json:"ls"`
}

var dir string

func wd(s string) Tok { return Tok{"w", s, 0} }
func in(n int) Tok    { return Tok{"i", "", n} }
func fl(n int) Tok    { return Tok{"f", "", n} }

func pick(s ...string) string { return s[Rng.Intn(len(s))] }

func decimal(v int) string {
	s := strconv.FormatFloat(float64(v)/1000, 'f', -1, 64)
	switch Rng.Intn(4) {
	case 0:
		s = strconv.FormatFloat(float64(v)/1000, 'f', 6, 64)
	case 1:
		s = strconv.FormatFloat(float64(v)/1000, 'e', -1, 64)
	case 2:
		s = fmt.Sprintf("%de-3", v)
	}
	if !strings.ContainsAny(s, ".e") {
		s += ".0"
	}
	return s
}

func (t Tok) text() string {
	switch t.K {
	case "w", "c", "x":
		return t.S
	case "i":
		return strconv.Itoa(t.V)
	case "s":
		return strconv.Itoa(t.V) + pick("/", "/1", "//2", "/3/1")
	case "f":
		return decimal(t.V)
	case "n":
		return pick("nan", "NaN", "inf", "-Inf", "1e999", "-1e400", "Infinity")
	}
	panic(t.K)
}

// text of a file, and where its lines end
func (f File) text() (string, []int) {
	var b strings.Builder
	var ends []int
	nl := pick("\n", "\n", "\r\n")
	sep := pick(" ", " ", "\t", "  ")
	for i, l := range f.Ls {
		body := f.Kind == "obj" || i >= 2
		if body && Rng.Intn(8) == 0 {
			b.WriteString(pick(" ", "\t"))
		}
		for j, t := range l {
			if j > 0 {
				if body {
					b.WriteString(sep)
				} else {
					b.WriteString(" ")
				}
			}
			b.WriteString(t.text())
		}
		if body && Rng.Intn(8) == 0 {
			b.WriteString(" ")
		}
		b.WriteString(nl)
		ends = append(ends, b.Len())
	}
	return b.String(), ends
}

// chunks delivers the text in pieces and ends in err
type chunks struct {
	s    string
	n    int
	err  error
	with bool // err comes with the last piece
}

func (c *chunks) Read(p []byte) (int, error) {
	n := c.n
	if n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], c.s)
	c.s = c.s[n:]
	if c.s == "" && (c.with || n == 0) {
		return n, c.err
	}
	return n, nil
}

// thousands of a coordinate, exact: the value is the nearest one to the decimal
func coords(vs []geom.Vec, single bool) (r [][3]int, exact bool) {
	r, exact = [][3]int{}, true
	for _, v := range vs {
		var q [3]int
		for c := range v {
			q[c] = R(v[c], 1000)
			want := float64(q[c]) / 1000
			w32, _ := strconv.ParseFloat(strconv.FormatFloat(want, 'f', -1, 64), 32)
			if !(v[c] == want || single && v[c] == w32) {
				exact = false
			}
		}
		r = append(r, q)
	}
	return
}

func readPly(f File) {
	s, ends := f.text()
	e := M{"ev": "ply", "ls": f.Ls, "mode": 0}
	r := &chunks{s: s, n: 1 << 20, err: io.EOF}
	mode := Rng.Intn(6)
	switch mode {
	case 1: // no newline at the end
		r.s = strings.TrimRight(s, "\r\n")
		if len(f.Ls) > 0 && len(f.Ls[len(f.Ls)-1]) == 0 {
			r.s = s
		}
	case 2:
		r.n = 1 + Rng.Intn(9)
		r.with = Rng.Intn(2) == 0
	case 3: // the medium fails somewhere
		k := 0
		if len(s) > 0 {
			k = Rng.Intn(len(s) + 1)
		}
		r.s, r.err = s[:k], errors.New("medium failed")
		n := 0
		for n < len(ends) && ends[n] <= k {
			n++
		}
		e["ls"] = f.Ls[:n]
	}
	e["mode"] = mode
	Begin(M{"kind": "ply", "text": head(s)})
	var v []geom.Vec
	var fc [][3]int
	var err error
	msg := Try(func() {
		if mode == 4 {
			fn := filepath.Join(dir, "a.ply")
			check(ioutil.WriteFile(fn, []byte(s), 0644))
			v, fc, err = ply.ParseFile(fn)
		} else {
			v, fc, err = ply.Parse(r)
		}
	})
	e["msg"], e["text"] = msg, head(s)
	e["ls"] = short(e["ls"].([][]Tok))
	e["v"], e["exact"] = coords(v, false)
	e["f"] = fc
	if fc == nil {
		e["f"] = [][3]int{}
	}
	e["err"] = code(err, msg)
	if code(err, msg) == 0 && len(fc) > 0 && in0(len(v), fc) {
		if m := Try(func() { objects.Mesh(materials.Flat(colorf.Color{R: 1}), v, fc) }); m != "" {
			e["msg"], e["err"] = m, 2
		}
	}
	Emit(e)
}

// in0: indices are in range. If not the observation is rejected anyway.
func in0(n int, fc [][3]int) bool {
	for _, f := range fc {
		for _, i := range f {
			if i < 0 || i >= n {
				return false
			}
		}
	}
	return true
}

func code(err error, msg string) int {
	if msg != "" {
		return 2
	}
	if err != nil {
		return 1
	}
	return 0
}

// short: the tokens, long ones cut, for the record
func short(ls [][]Tok) [][]Tok {
	r := make([][]Tok, len(ls))
	for i, l := range ls {
		r[i] = append([]Tok{}, l...)
		for j := range r[i] {
			if len(l[j].S) > 99 {
				r[i][j].S = l[j].S[:99]
			}
		}
	}
	return r
}

func head(s string) string {
	if len(s) > 1500 {
		return s[:1500]
	}
	return s
}

func check(err error) {
	if err != nil {
		panic(err)
	}
}

// long: a line is very long, which a reader may refuse
func long(s string) bool {
	for _, l := range strings.Split(s, "\n") {
		if len(l) > 30000 {
			return true
		}
	}
	return false
}

// medium: something that cannot be read as a file
func medium(fn string) {
	Begin(M{"kind": "medium", "file": fn})
	var o obj.Obj
	var v []geom.Vec
	var err, err2 error
	msg := Try(func() { o, err = obj.ParseFile(fn) })
	msg2 := Try(func() { v, _, err2 = ply.ParseFile(fn) })
	Emit(M{"ev": "medium", "file": fn, "msg": msg + msg2, "n": len(o.Vertices) + len(v), "err": []int{code(err, msg), code(err2, msg2)}})
}

// oversize: a face index or count that some machine words cannot hold
func oversize(f File) File {
	var at []int
	for j, l := range f.Ls {
		if len(l) > 0 && l[0].S == "f" && f.Kind == "obj" {
			at = append(at, j)
		}
	}
	if f.Kind == "ply" {
		j, n := 0, map[string]int{}
		for ; f.Ls[j][0].S != "end_header"; j++ {
			if f.Ls[j][0].S == "element" {
				n[f.Ls[j][1].S] = f.Ls[j][2].V
			}
		}
		for i := 0; i < n["face"]; i++ {
			at = append(at, j+1+n["vertex"]+i)
		}
	}
	if len(at) == 0 {
		return f
	}
	j := at[Rng.Intn(len(at))]
	l := append([]Tok{}, f.Ls[j]...)
	k := Rng.Intn(len(l))
	if f.Kind == "obj" && k == 0 {
		k = 1
	}
	if f.Kind == "ply" && (l[0].V != 3 && l[0].V != 4 || k > l[0].V) {
		k = 0
	}
	l[k] = Tok{"x", []string{"4294967296", "8589934592", "18446744073709551616", "-4294967296", "-18446744073709551616", "65536000000000", "1099511627776"}[Rng.Intn(7)], 0}
	b := []byte(l[k].S) // the same value after cutting off the upper bits
	switch l[k].S {
	case "4294967296":
		b = []byte(strconv.FormatInt(4294967296+int64(f.Ls[j][k].V), 10))
	case "8589934592":
		b = []byte(strconv.FormatInt(8589934592+int64(f.Ls[j][k].V), 10))
	case "-4294967296":
		b = []byte(strconv.FormatInt(-4294967296+int64(f.Ls[j][k].V), 10))
	case "18446744073709551616":
		b = []byte("1844674407370955161" + strconv.Itoa(6+f.Ls[j][k].V))
	}
	l[k].S = string(b)
	g := File{f.Kind, append([][]Tok{}, f.Ls...)}
	g.Ls[j] = l
	return g
}

// padded: a comment of n characters put somewhere
func padded(f File, n int) File {
	t := Tok{"c", "#" + strings.Repeat("x", n), 0}
	k := Rng.Intn(len(f.Ls) + 1)
	l := []Tok{t}
	if f.Kind == "ply" {
		l = []Tok{wd("comment"), {"x", strings.Repeat("y", n), 0}}
		k = 2
	}
	ls := append([][]Tok{}, f.Ls[:k]...)
	ls = append(ls, l)
	return File{f.Kind, append(ls, f.Ls[k:]...)}
}

func readObj(f File) {
	s, _ := f.text()
	if Rng.Intn(4) == 0 {
		s = strings.TrimRight(s, "\r\n")
	}
	fn := filepath.Join(dir, "a.obj")
	check(ioutil.WriteFile(fn, []byte(s), 0644))
	Begin(M{"kind": "obj", "text": head(s)})
	var o obj.Obj
	var err error
	msg := Try(func() { o, err = obj.ParseFile(fn) })
	e := M{"ev": "obj", "ls": short(f.Ls), "msg": msg, "text": head(s), "err": code(err, msg), "long": long(s)}
	e["v"], e["exact"] = coords(o.Vertices, true)
	type face struct {
		M string `json:"m"`
		I []int  `json:"i"`
	}
	fs := []face{}
	var mats []string
	for m := range o.Faces {
		mats = append(mats, m)
	}
	sort.Strings(mats)
	for _, m := range mats {
		for _, i := range o.Faces[m] {
			g := face{m, []int{}}
			for _, x := range i {
				g.I = append(g.I, int(x))
			}
			fs = append(fs, g)
		}
	}
	e["f"] = fs
	Emit(e)
}

// --- random files

type grid struct {
	n, m, unit int
	at         []int // position of corner i in the list of vertices
	faces      [][]int
	mat        []int // material number of each face, from 1
	verts      [][3]int
}

// flat: a grid in the plane z = 0, otherwise heights vary
func makeGrid(flat bool, maxN int) *grid {
	g := &grid{n: 1 + Rng.Intn(maxN), m: 1 + Rng.Intn(maxN), unit: []int{1000, 750, 1600}[Rng.Intn(3)]}
	nv := (g.n + 1) * (g.m + 1)
	extra := Rng.Intn(3)
	g.at = Rng.Perm(nv + extra)
	g.verts = make([][3]int, nv+extra)
	for i := range g.verts {
		g.verts[i] = [3]int{Rng.Intn(9000), Rng.Intn(9000), 0}
	}
	for y := 0; y <= g.m; y++ {
		for x := 0; x <= g.n; x++ {
			z := 0
			if !flat {
				z = Rng.Intn(2000) - 1000
			}
			g.verts[g.at[y*(g.n+1)+x]] = [3]int{x*g.unit - 1000, y*g.unit - 2000, z}
		}
	}
	for y := 0; y < g.m; y++ {
		for x := 0; x < g.n; x++ {
			c := []int{y*(g.n+1) + x, y*(g.n+1) + x + 1, (y+1)*(g.n+1) + x + 1, (y+1)*(g.n+1) + x}
			for i := range c {
				c[i] = g.at[c[i]]
			}
			k := Rng.Intn(4)
			c = append(c[k:], c[:k]...)
			if Rng.Intn(2) == 0 {
				c[1], c[3] = c[3], c[1]
			}
			switch Rng.Intn(5) {
			case 0:
			case 1:
				g.add(c[:3])
			case 2:
				g.add(c[:3])
				g.add([]int{c[2], c[3], c[0]})
			default:
				g.add(c)
			}
		}
	}
	Rng.Shuffle(len(g.faces), func(i, j int) {
		g.faces[i], g.faces[j] = g.faces[j], g.faces[i]
		g.mat[i], g.mat[j] = g.mat[j], g.mat[i]
	})
	return g
}

func (g *grid) add(c []int) {
	g.faces = append(g.faces, append([]int{}, c...))
	g.mat = append(g.mat, 1+Rng.Intn(3))
}

func num(v int) Tok {
	if v%1000 == 0 && Rng.Intn(2) == 0 {
		return in(v / 1000)
	}
	return fl(v)
}

func words(n int) (l []Tok) {
	l = []Tok{}
	for i := Rng.Intn(n + 1); i > 0; i-- {
		l = append(l, pickTok())
	}
	return
}

func pickTok() Tok {
	switch Rng.Intn(7) {
	case 0:
		return wd(pick("vertex", "face", "element", "100%s", "end_header", "x", "red", "property", "v", "f"))
	case 1:
		return Tok{"x", pick("1x", "--1", "0x", "1,5", "1.2.3", "%d", "e5"), 0}
	case 2:
		return Tok{"n", "", 0}
	case 3:
		return in(Rng.Intn(9) - 3)
	case 4:
		return Tok{"s", "", Rng.Intn(9)}
	}
	return fl(Rng.Intn(9000) - 3000)
}

func comment(l [][]Tok, odds int) [][]Tok {
	for Rng.Intn(odds) == 0 {
		l = append(l, append([]Tok{wd(pick("comment", "comment", "obj_info"))}, words(4)...))
	}
	return l
}

func (g *grid) ply() File {
	l := [][]Tok{{wd("ply")}, {wd("format"), wd("ascii"), wd("1.0")}}
	l = comment(l, 3)
	l = append(l, []Tok{wd("element"), wd("vertex"), in(len(g.verts))})
	prop := func(n string) {
		l = append(l, []Tok{wd("property"), wd(pick("float", "double", "uchar")), wd(n)})
	}
	for _, n := range []string{"x", "y", "z"} {
		prop(n)
		l = comment(l, 9)
	}
	vx := Rng.Intn(2) * Rng.Intn(4)
	for i := 0; i < vx; i++ {
		prop(pick("nx", "confidence", "red", "x2"))
	}
	l = append(l, []Tok{wd("element"), wd("face"), in(len(g.faces))})
	l = append(l, []Tok{wd("property"), wd("list"), wd("uchar"), wd("int"), wd(pick("vertex_indices", "vertex_index"))})
	fx := Rng.Intn(2) * Rng.Intn(3)
	for i := 0; i < fx; i++ {
		prop(pick("red", "x"))
	}
	other := Rng.Intn(3) == 0
	if other {
		l = append(l, []Tok{wd("element"), wd("edge"), in(Rng.Intn(3))})
		prop("vertex1")
	}
	l = comment(l, 4)
	l = append(l, []Tok{wd("end_header")})
	for _, v := range g.verts {
		t := []Tok{num(v[0]), num(v[1]), num(v[2])}
		for i := 0; i < vx; i++ {
			t = append(t, num(Rng.Intn(3000)))
		}
		l = append(l, t)
	}
	for _, f := range g.faces {
		t := []Tok{in(len(f))}
		for _, i := range f {
			t = append(t, in(i))
		}
		for i := 0; i < fx; i++ {
			t = append(t, in(Rng.Intn(256)))
		}
		l = append(l, t)
	}
	if other {
		l = append(l, words(3))
		if len(l[len(l)-1]) == 0 {
			l = l[:len(l)-1]
		}
	}
	return File{"ply", l}
}

var matNames = []string{"", "red#2", "SkinColor", "blue"}

func (g *grid) obj() File {
	l := [][]Tok{}
	skip := func(odds int) {
		for Rng.Intn(odds) == 0 {
			switch Rng.Intn(4) {
			case 0:
				l = append(l, []Tok{})
			case 1:
				l = append(l, append([]Tok{{"c", pick("#", "#comment", "##", "#v"), 0}}, words(14)...))
			default:
				l = append(l, append([]Tok{wd(pick("o", "vn", "vt", "s", "l", "g", "mtllib"))}, words(12)...))
			}
		}
	}
	skip(2)
	vert := func(v [3]int) {
		t := []Tok{wd("v"), num(v[0]), num(v[1]), num(v[2])}
		if Rng.Intn(5) == 0 {
			t = append(t, num(1000))
		}
		l = append(l, t)
		skip(9)
	}
	// the last few vertices may come after the first faces
	late := Rng.Intn(2) * Rng.Intn(len(g.verts))
	for _, v := range g.verts[:len(g.verts)-late] {
		vert(v)
	}
	mat := 0
	faces := func(from, to int) {
		for j := from; j < to; j++ {
			if g.mat[j] != mat || Rng.Intn(6) == 0 {
				mat = g.mat[j]
				l = append(l, []Tok{wd("usemtl"), wd(matNames[mat])})
			}
			t := []Tok{wd("f")}
			for _, i := range g.faces[j] {
				t = append(t, Tok{pick("i", "i", "s"), "", i + 1})
			}
			l = append(l, t)
			skip(9)
		}
	}
	half := len(g.faces)
	if late > 0 {
		half = Rng.Intn(half + 1)
	}
	faces(0, half)
	for _, v := range g.verts[len(g.verts)-late:] {
		vert(v)
	}
	faces(half, len(g.faces))
	return File{"obj", l}
}

// mutate damages a file in one place
func mutate(f File) File {
	ls := make([][]Tok, len(f.Ls))
	for i := range ls {
		ls[i] = append([]Tok{}, f.Ls[i]...)
	}
	i := Rng.Intn(len(ls))
	blank := func(l []Tok) bool { return f.Kind == "ply" && len(l) == 0 }
	switch Rng.Intn(8) {
	case 7: // a long line
		for k := 1 + Rng.Intn(20); k > 0; k-- {
			ls[i] = append(ls[i], []Tok{in(1 + Rng.Intn(3)), pickTok()}[Rng.Intn(2)])
		}
	case 0:
		ls = append(ls[:i], ls[i+1:]...)
	case 1:
		ls = append(ls[:i+1], ls[i:]...)
	case 2:
		ls = ls[:i]
	case 3: // drop a token
		if l := ls[i]; len(l) > 1 || len(l) == 1 && f.Kind == "obj" {
			k := Rng.Intn(len(l))
			ls[i] = append(l[:k:k], l[k+1:]...)
		}
	case 4: // change a token
		if l := ls[i]; len(l) > 0 {
			t := pickTok()
			if l[0].S == "usemtl" && t.K != "w" { // the name would be its text
				t = wd("other")
			}
			l[Rng.Intn(len(l))] = t
		}
	case 5:
		ls[i] = append(ls[i], pickTok())
	case 6:
		if w := words(5); !blank(w) {
			ls[i] = w
		}
	}
	return File{f.Kind, ls}
}

// probe looks down on the mesh in a file at two places of each half of each cell
func (g *grid) probe(f File) {
	if len(g.faces) == 0 {
		return
	}
	s, _ := f.text()
	fn := filepath.Join(dir, "p."+f.Kind)
	check(ioutil.WriteFile(fn, []byte(s), 0644))
	Begin(M{"kind": "probe", "text": head(s)})
	mats := map[string]types.Material{}
	id := map[types.Material]int{}
	for i := 1; i <= 3; i++ {
		m := materials.Flat(texture.Texture(colorf.Color{R: float64(i)}))
		mats[matNames[i]] = m
		id[m] = i
	}
	var tr []*geom.AffineTransform
	mul, add := 1.0, 0.0
	for i := Rng.Intn(5); i > 0; i-- {
		if Rng.Intn(2) == 0 {
			tr = append(tr, geom.Scale(geom.O, 2))
			mul, add = mul*2, add*2
		} else {
			tr = append(tr, geom.Translate(geom.Vec{3, 3, 0}))
			add += 3
		}
	}
	type face struct {
		M int   `json:"m"`
		I []int `json:"i"`
	}
	fs := []face{}
	q, col := [][2]int{}, []int{}
	msg := Try(func() {
		var o objects.Interface
		var err error // PlyFile and ObjFile would end the program
		if f.Kind == "ply" {
			_, _, err = ply.ParseFile(fn)
		} else {
			var parsed obj.Obj
			parsed, err = obj.ParseFile(fn)
			for k := range parsed.Faces {
				if mats[k] == nil {
					panic("material " + k)
				}
			}
		}
		check(err)
		if f.Kind == "ply" {
			o = api.PlyFile(mats[matNames[1]], fn, tr...).Interface
		} else {
			o = api.ObjFile(mats, fn, tr...).Interface
		}
		ctx := tracer.NewCtx(1)
		for y := 0; y < g.m; y++ {
			for x := 0; x < g.n; x++ {
				for _, d := range [][2]int{{2, 1}, {1, 2}, {6, 7}, {7, 5}, {2, 5}, {5, 2}} {
					p := [2]int{x*g.unit - 1000 + d[0]*g.unit/8, y*g.unit - 2000 + d[1]*g.unit/8}
					r := ctx.Ray()
					r.Start = geom.Vec{float64(p[0])/1000*mul + add, float64(p[1])/1000*mul + add, 5}
					r.Dir = geom.Vec{0, 0, -1}
					h := o.Intersect(r)
					c := 0
					if h.T > 0 {
						c = id[h.Material]
						if math.Abs(h.T-5) > 1e-6 || c == 0 {
							c = -1
						}
					}
					ctx.PutRay(r)
					q, col = append(q, p), append(col, c)
				}
			}
		}
	})
	for j, i := range g.faces {
		m := g.mat[j]
		if f.Kind == "ply" {
			m = 1
		}
		fs = append(fs, face{m, i})
	}
	if msg != "" {
		col = []int{}
		for range q {
			col = append(col, -2)
		}
		q, col = append(q, [2]int{0, 0}), append(col, -2)
	}
	vs := [][2]int{}
	for _, v := range g.verts {
		vs = append(vs, [2]int{v[0], v[1]})
	}
	Emit(M{"ev": "probe", "v": vs, "fs": fs, "q": q, "col": col, "msg": msg, "text": head(s), "_w": 1 + len(q)*len(fs)/50})
}

// big: a regular grid of w x h corners, more than small indices can count, two
// triangles per cell. Some of what was read is recorded.
func big(kind string, w, h int) {
	var b strings.Builder
	if kind == "ply" {
		fmt.Fprintf(&b, "ply\nformat ascii 1.0\nelement vertex %d\nproperty float x\nproperty float y\nproperty float z\nelement face %d\nproperty list uchar int vertex_indices\nend_header\n", w*h, 2*(w-1)*(h-1))
	} else {
		fmt.Fprintf(&b, "# %d by %d\nusemtl %s\n", w, h, matNames[1])
	}
	for i := 0; i < w*h; i++ {
		if kind == "obj" {
			b.WriteString("v ")
		}
		fmt.Fprintf(&b, "%d %d 0\n", i%w, i/w)
	}
	for _, c := range rand(w, h) {
		for _, t := range [][3]int{{c, c + 1, c + w + 1}, {c, c + w + 1, c + w}} {
			if kind == "obj" {
				fmt.Fprintf(&b, "f %d %d %d\n", t[0]+1, t[1]+1, t[2]+1)
			} else {
				fmt.Fprintf(&b, "3 %d %d %d\n", t[0], t[1], t[2])
			}
		}
	}
	fn := filepath.Join(dir, "big."+kind)
	check(ioutil.WriteFile(fn, []byte(b.String()), 0644))
	Begin(M{"kind": "big " + kind, "w": w, "h": h})
	var v []geom.Vec
	var f [][3]int
	var err error
	e := M{"ev": "big", "kind": kind, "w": w, "h": h, "_w": 50}
	msg := Try(func() {
		if kind == "ply" {
			v, f, err = ply.ParseFile(fn)
			return
		}
		var o obj.Obj
		o, err = obj.ParseFile(fn)
		v = o.Vertices
		for _, i := range o.Faces[matNames[1]] {
			f = append(f, [3]int{int(i[0]), int(i[1]), int(i[2])})
		}
	})
	e["msg"], e["err"], e["nv"], e["nf"] = msg, code(err, msg), len(v), len(f)
	for i := range f { // the smallest corner first, and in order
		for f[i][0] > f[i][1] || f[i][0] > f[i][2] {
			f[i] = [3]int{f[i][1], f[i][2], f[i][0]}
		}
	}
	sort.Slice(f, func(i, j int) bool {
		return f[i][0] < f[j][0] || f[i][0] == f[j][0] && f[i][1] < f[j][1]
	})
	at := func(n int) (r []int) {
		r = []int{}
		for _, i := range []int{0, 1, 255, 256, 32767, 32768, 65535, 65536, 65537, n - 2, n - 1} {
			if i >= 0 && i < n {
				r = append(r, i)
			}
		}
		for i := 0; i < 200 && n > 0; i++ {
			r = append(r, Rng.Intn(n))
		}
		return
	}
	sv, sf := [][]int{}, [][]int{}
	for _, i := range at(len(v)) {
		sv = append(sv, append([]int{i}, v3(v[i])...))
	}
	for _, i := range at(len(f)) {
		sf = append(sf, []int{i, f[i][0], f[i][1], f[i][2]})
	}
	e["v"], e["f"] = sv, sf
	// rays down onto it, in 1/8 of a cell: inside of it and around it
	q := [][]int{}
	msg = Try(func() {
		var o objects.Interface
		m := materials.Flat(texture.Texture(colorf.Color{R: 1}))
		if err != nil {
			return
		}
		if kind == "ply" {
			o = api.PlyFile(m, fn).Interface
		} else {
			o = api.ObjFile(map[string]types.Material{matNames[1]: m}, fn).Interface
		}
		ctx := tracer.NewCtx(1)
		for i := 0; i < 300; i++ {
			x, y := 1+2*Rng.Intn(4*w+40)-40, 2+4*Rng.Intn(2*h+20)-40
			if (x-y)%8 == 0 {
				continue
			}
			r := ctx.Ray()
			r.Start = geom.Vec{float64(x) / 8, float64(y) / 8, 5}
			r.Dir = geom.Vec{0, 0, -1}
			q = append(q, []int{x, y, R(o.Intersect(r).T, 1000)})
			ctx.PutRay(r)
		}
	})
	if msg != "" {
		e["err"], e["msg"] = 2, msg
	}
	e["q"] = q
	Emit(e)
}

// rand: the cells of a grid in some order
func rand(w, h int) (r []int) {
	for _, i := range Rng.Perm((w - 1) * (h - 1)) {
		r = append(r, i/(w-1)*w+i%(w-1))
	}
	return
}

func v3(v geom.Vec) []int { return []int{R(v[0], 1000), R(v[1], 1000), R(v[2], 1000)} }

func main() {
	Init()
	defer Flush()
	var err error
	dir, err = ioutil.TempDir("", "mesh")
	check(err)
	defer os.RemoveAll(dir)
	read := func(f File) {
		if f.Kind == "ply" {
			readPly(f)
		} else {
			readObj(f)
		}
	}
	Scenarios(func(dec func(v interface{})) {
		var f File
		dec(&f)
		read(f)
	})
	for _, fn := range []string{dir, filepath.Join(dir, "none.obj"), filepath.Join(dir, "none.ply", "x"), ""} {
		medium(fn)
	}
	for _, k := range []string{"ply", "obj"} {
		w := 258 + Rng.Intn(30)
		big(k, w, 66000/w+Rng.Intn(20))
		big(k, 2+Rng.Intn(60), 2+Rng.Intn(60))
		if Pick(0, 1) == 1 {
			big(k, 500+Rng.Intn(500), 500+Rng.Intn(500))
		}
	}
	// counts beyond any memory
	for _, n := range []string{"1000000000000", "99999999999", "4611686018427387904", "9223372036854775807"} {
		for i := 0; i < 2; i++ {
			g := makeGrid(false, 1)
			f := g.ply()
			k := 0
			for j, l := range f.Ls {
				if len(l) == 3 && l[0].S == "element" {
					if k == i {
						f.Ls[j][2] = Tok{"x", n, 0}
					}
					k++
				}
			}
			read(f)
		}
	}
	for i := 0; i < Pick(700, 6000); i++ {
		g := makeGrid(false, 1+Rng.Intn(4))
		f := g.ply()
		if i%2 == 0 {
			f = g.obj()
		}
		if i%9 == 0 {
			read(oversize(f))
			continue
		}
		for k := Rng.Intn(4); k > 1; k-- {
			if len(f.Ls) > 0 {
				f = mutate(f)
			}
		}
		read(f)
		if i%50 < 2 {
			for _, n := range []int{4000, 4095, 20000, 65534, 65535, 65536, 70000, 200000} {
				if i%100 < 2 == (n < 50000) {
					q := padded(f, n+Rng.Intn(3))
					read(q)
				}
			}
		}
	}
	for i := 0; i < Pick(100, 1000); i++ {
		g := makeGrid(true, 1+Rng.Intn(6))
		if i%2 == 0 {
			g.probe(g.ply())
		} else {
			g.probe(g.obj())
		}
	}
}

// Driver for C19: encodes images, and runs renderings and animations (the
// program given with -rend) in a scratch directory.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"image"
	_ "image/jpeg"
	_ "image/png"
	"io"
	"io/ioutil"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/barnex/bruteray/imagef"
	"github.com/barnex/bruteray/imagef/colorf"
	"github.com/barnex/bruteray/imagef/ppm"

	. "verifharness/vh"
)

var rend = flag.String("rend", "", "renderer")

type img [][][3]int

func val(v int) float64 {
	switch {
	case v == 200000:
		return math.NaN()
	case v >= 100000:
		return math.Inf(1)
	case v <= -100000:
		return math.Inf(-1)
	}
	return float64(v) / 10000
}

func (m img) real() imagef.Image {
	w := 0
	if len(m) > 0 {
		w = len(m[0])
	}
	r := imagef.MakeImage(w, len(m))
	for y := range m {
		for x, c := range m[y] {
			r[y][x] = colorf.Color{R: val(c[0]), G: val(c[1]), B: val(c[2])}
		}
	}
	return r
}

var palette []int

func channel() int {
	if Rng.Intn(4) == 0 {
		return palette[Rng.Intn(len(palette))]
	}
	switch Rng.Intn(8) {
	case 0:
		return 0
	case 1:
		return 10000
	}
	return Rng.Intn(120) * 100
}

func rimg(w, h int) img {
	m := img{}
	for y := 0; y < h; y++ {
		row := [][3]int{}
		for x := 0; x < w; x++ {
			row = append(row, [3]int{channel(), channel(), channel()})
		}
		m = append(m, row)
	}
	return m
}

func parseText(b []byte) M {
	t := strings.Fields(string(b))
	f := M{"magic": "", "w": -1, "h": -1, "max": -1, "s": []int{}}
	if len(t) < 4 {
		return f
	}
	f["magic"] = t[0]
	n := []int{}
	for _, x := range t[1:] {
		k, err := strconv.Atoi(x)
		if err != nil {
			k = -1
		}
		n = append(n, k)
	}
	f["w"], f["h"], f["max"], f["s"] = n[0], n[1], n[2], n[3:]
	return f
}

var head = regexp.MustCompile(`^(\S+)\s+(\d+)\s+(\d+)\s+(\d+)\s`)

func parseBinary(b []byte) M {
	f := M{"magic": "", "w": -1, "h": -1, "max": -1, "s": []int{}}
	m := head.FindSubmatch(b)
	if m == nil {
		return f
	}
	num := func(i int) int { n, _ := strconv.Atoi(string(m[i])); return n }
	f["magic"], f["w"], f["h"], f["max"] = string(m[1]), num(2), num(3), num(4)
	b = b[len(m[0]):]
	s := []int{}
	for len(b) >= 2 {
		s = append(s, int(binary.BigEndian.Uint16(b)))
		b = b[2:]
	}
	if len(b) > 0 {
		s = append(s, -1)
	}
	f["s"] = s
	return f
}

// short takes so many bytes.
type short struct{ room int }

func (s *short) Write(b []byte) (int, error) {
	if len(b) > s.room {
		n := s.room
		s.room = 0
		return n, errors.New("full")
	}
	s.room -= len(b)
	return len(b), nil
}

func encode(kind string, w io.Writer, m imagef.Image) error {
	if kind == "P3" {
		return ppm.EncodeAscii16(w, m)
	}
	return ppm.Encode48BE(w, m)
}

func file(m img, faults bool) {
	for _, kind := range []string{"P3", "P6"} {
		var b bytes.Buffer
		r := m.real()
		msg := Try(func() {
			if err := encode(kind, &b, r); err != nil {
				panic(err)
			}
		})
		if msg != "" {
			Emit(M{"ev": "panic", "what": msg, "img": m})
			continue
		}
		total := b.Len()
		var f M
		if kind == "P3" {
			f = parseText(b.Bytes())
		} else {
			f = parseBinary(b.Bytes())
		}
		Emit(M{"ev": "file", "magic": kind, "img": m, "f": f})
		if faults {
			for room := 0; room <= total; room++ {
				e := 0
				msg := Try(func() {
					if encode(kind, &short{room}, r) != nil {
						e = 1
					}
				})
				if msg != "" {
					Emit(M{"ev": "panic", "what": msg, "img": m})
				}
				Emit(M{"ev": "part", "magic": kind, "room": room, "total": total, "err": e})
			}
		}
	}
}

// ---- renderings ----

type fx struct {
	K   string `json:"k"`
	N   int    `json:"n"`
	D   int    `json:"d"`
	Amp int    `json:"amp"`
	Thr int    `json:"thr"`
}
type job struct {
	W    int      `json:"w"`
	H    int      `json:"h"`
	Np   int      `json:"np"`
	N    int      `json:"n"`
	Cols [][2]int `json:"cols"`
	Img  img      `json:"img"`
	Fx   []fx     `json:"fx"`

	stem, ext string
	faultKind int
	block     int // image files are lossy: only the middle of blocks of this size
}

func readFile(dir, name string, j job) M {
	f := M{"name": name, "ok": 0, "w": 0, "h": 0, "s": []int{}, "magic": "", "max": 0}
	b, err := ioutil.ReadFile(filepath.Join(dir, name))
	if err != nil {
		return f
	}
	if strings.HasSuffix(name, ".ppm") {
		g := parseText(b)
		for k, v := range g {
			f[k] = v
		}
		f["ok"] = 1
		return f
	}
	m, kind, err := image.Decode(bytes.NewReader(b))
	if err != nil {
		return f
	}
	if want := strings.TrimPrefix(filepath.Ext(name), "."); !(kind == want || kind == "jpeg" && want == "jpg") {
		return f
	}
	if end := map[string]string{"png": "IEND\xae\x42\x60\x82", "jpeg": "\xff\xd9"}[kind]; !bytes.HasSuffix(b, []byte(end)) {
		return f // something left behind it
	}
	w, h := m.Bounds().Dx(), m.Bounds().Dy()
	s := []int{}
	jpg := !strings.HasSuffix(name, ".png")
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			r, g, b, _ := m.At(m.Bounds().Min.X+x, m.Bounds().Min.Y+y).RGBA()
			if jpg && j.N >= 0 && (x%5 != 0 || y%5 != 0) {
				continue
			}
			s = append(s, int(r), int(g), int(b))
		}
	}
	f["ok"], f["w"], f["h"], f["s"] = 1, w, h, s
	return f
}

func render(j job) M {
	dir, err := ioutil.TempDir("", "verif-out")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	fault := 0
	sub := filepath.Dir(j.stem)
	if sub != "." && j.faultKind != 1 {
		if err := os.MkdirAll(filepath.Join(dir, sub), 0777); err != nil {
			panic(err)
		}
	}
	switch j.faultKind {
	case 1: // no such directory
		fault = 1
	case 2: // no room for the lossless copy
		fault = 1
		if err := os.Symlink("/dev/full", filepath.Join(dir, j.stem+".ppm")); err != nil {
			panic(err)
		}
	case 3: // no room for the image
		fault = 1
		if err := os.Symlink("/dev/full", filepath.Join(dir, j.stem+j.ext)); err != nil {
			panic(err)
		}
	case 4: // a directory in the way
		fault = 1
		if err := os.Mkdir(filepath.Join(dir, j.stem+j.ext), 0777); err != nil {
			panic(err)
		}
	case 5: // unknown format
		fault = 1
	case 6: // no room for a frame
		fault = 1
		os.Mkdir(filepath.Join(dir, j.stem+"-frames"), 0777)
		if err := os.Symlink("/dev/full", filepath.Join(dir, j.stem+"-frames", fmt.Sprintf("%05d.jpg", j.N-1))); err != nil {
			panic(err)
		}
	case 7: // a file in the way
		fault = 1
		if err := ioutil.WriteFile(filepath.Join(dir, j.stem+"-frames"), nil, 0666); err != nil {
			panic(err)
		}
	case 9: // no room for the last frame's own name
		fault = 1
		os.Mkdir(filepath.Join(dir, j.stem+"-frames"), 0777)
		if err := os.Symlink("/dev/full", filepath.Join(dir, j.stem+"-frames", "last.jpg")); err != nil {
			panic(err)
		}
	case 8: // left-overs of a longer file, and of an earlier run
		os.Mkdir(filepath.Join(dir, j.stem+"-frames"), 0777)
		junk := bytes.Repeat([]byte("junk "), 40000)
		if j.N < 0 {
			ioutil.WriteFile(filepath.Join(dir, j.stem+".ppm"), junk, 0666)
			ioutil.WriteFile(filepath.Join(dir, j.stem+j.ext), junk, 0666)
			os.Remove(filepath.Join(dir, j.stem+"-frames"))
		} else if j.N > 0 {
			ioutil.WriteFile(filepath.Join(dir, j.stem+"-frames", "00000.jpg"), junk, 0666)
			ioutil.WriteFile(filepath.Join(dir, j.stem+"-frames", "last.jpg"), junk, 0666)
		}
	}
	sc, err := json.Marshal(j)
	if err != nil {
		panic(err)
	}
	cmd := exec.Command(*rend, "-o", j.stem+j.ext)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "SCENE="+string(sc))
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	exit := 0
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	t := time.AfterFunc(120*time.Second, func() { cmd.Process.Kill() })
	if err := cmd.Wait(); err != nil {
		exit = 1
	}
	t.Stop()
	least, most := 0, -1
	if i := strings.Index(o.String(), "EVALS "); i >= 0 {
		fmt.Sscanf(o.String()[i:], "EVALS %d %d", &least, &most)
	}
	files := []M{}
	if fault == 0 {
		filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
			if err == nil && !info.IsDir() {
				n, _ := filepath.Rel(dir, p)
				files = append(files, readFile(dir, n, j))
			}
			return nil
		})
	}
	m := M{"ev": "render", "fault": fault, "kind": j.faultKind, "exit": exit, "np": j.Np, "w": j.W, "h": j.H, "stem": j.stem, "ext": j.ext, "least": least, "most": most,
		"img": j.Img, "fx": j.Fx, "files": files, "msg": e.String(), "_w": 20}
	if j.N >= 0 {
		m["ev"], m["n"], m["cols"] = "anim", j.N, j.Cols
	}
	return m
}

func stem() string {
	s := []string{"out", "a.b", "x", "my image", "deep/er/pic", "v1.2/f", "longer-name_0", "v1.2/a.b", "d/x.y.z"}
	return s[Rng.Intn(len(s))]
}

func rjob() job {
	h := 2 + Rng.Intn(20)
	w := 2 + Rng.Intn(h-1)
	if Rng.Intn(6) == 0 {
		h = 18 + Rng.Intn(30)
		w = 17
	}
	j := job{W: w, H: h, Np: 1 + Rng.Intn(12), N: -1, Cols: [][2]int{}, Fx: []fx{}, stem: stem(), ext: ".png"}
	switch Rng.Intn(4) {
	case 0:
		j.ext = ".jpg"
	case 1:
		j.ext = ".jpeg"
	}
	a, b := 500+Rng.Intn(2000), 500+Rng.Intn(2000)
	sx, sy := Rng.Intn(2000), Rng.Intn(2000)
	for y := 0; y < h; y++ {
		row := [][3]int{}
		for x := 0; x < w; x++ {
			c := [3]int{a + sx*x/w + sy*y/h, b + sy*x/w, 0}
			if j.ext == ".png" {
				c = [3]int{Rng.Intn(9000), Rng.Intn(9000), 0}
			}
			row = append(row, c)
		}
		j.Img = append(j.Img, row)
	}
	if j.ext == ".png" && w*h < 120 {
		for _, k := range []string{"gauss", "airy", "star"} {
			if Rng.Intn(4) == 0 {
				f := fx{K: k, N: 2 + Rng.Intn(4), D: 4, Amp: 1, Thr: 8000}
				if k == "star" {
					f.N = 20
				}
				j.Fx = append(j.Fx, f)
			}
		}
	}
	return j
}

func ranim() job {
	j := job{W: 8 + Rng.Intn(20), H: 28 + Rng.Intn(8), Np: 1 + Rng.Intn(4), N: Rng.Intn(6), Img: img{}, Fx: []fx{}, stem: stem(), ext: ".jpg", Cols: [][2]int{}}
	if Rng.Intn(3) == 0 {
		j.ext = ".png"
	}
	if Rng.Intn(12) == 0 {
		j.N = 12
	}
	switch Rng.Intn(10) {
	case 0:
		j.Np = 60 + Rng.Intn(80)
	case 1:
		j.N, j.Np = 100+Rng.Intn(5), 1
	}
	return cols(j)
}

func cols(j job) job {
	j.Cols = [][2]int{}
	for i := 0; i < j.N; i++ {
		j.Cols = append(j.Cols, [2]int{Rng.Intn(10000), Rng.Intn(10000)})
	}
	return j
}

func main() {
	Init()
	for i := 0; i < 60; i++ {
		palette = append(palette, Rng.Intn(24000)-7000)
	}
	palette = append(palette, 200000, 200000, 100000, -100000, 1, -1, 9999, 10001, 30, 31, 32)
	for i := 0; i < Pick(150, 1500); i++ {
		file(rimg(1+Rng.Intn(9), 1+Rng.Intn(9)), false)
	}
	for i := 0; i < Pick(6, 60); i++ {
		file(rimg(1+Rng.Intn(4), 1+Rng.Intn(4)), true)
	}
	var jobs []job
	for i := 0; i < Pick(90, 800); i++ {
		j := rjob()
		switch Rng.Intn(12) {
		case 0:
			j.stem, j.faultKind = "missing/"+j.stem, 1
		case 1:
			j.faultKind = 2
		case 2:
			j.faultKind = 3
		case 3:
			j.faultKind = 4
		case 4:
			j.faultKind = 5
			j.ext = []string{".bmp", "", ".pn", ".ppm"}[Rng.Intn(4)]
			if j.ext == "" {
				j.stem = "noext"
			}
		case 5, 6:
			j.faultKind = 8
		}
		jobs = append(jobs, j)
	}
	for i := 0; i < Pick(40, 400); i++ {
		j := ranim()
		if j.N > 0 {
			switch Rng.Intn(10) {
			case 0:
				j.stem, j.faultKind = "missing/"+j.stem, 1
			case 1:
				j.faultKind = 6
			case 2:
				j.faultKind = 7
			case 3, 4:
				j.faultKind = 8
			case 5:
				j.faultKind = 9
			}
		}
		jobs = append(jobs, j)
	}
	long := ranim()
	long.N, long.Np, long.W, long.H = 1003, 1, 8, 12
	jobs = append(jobs, cols(long))
	Begin(M{"kind": "renderings"})
	var wg sync.WaitGroup
	ch := make(chan job)
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				Emit(render(j))
			}
		}()
	}
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	wg.Wait()
	Flush()
}

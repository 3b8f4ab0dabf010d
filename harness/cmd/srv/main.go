// Driver for C14 (and the previews of C15): runs client histories against real
// servers (api.Serve on the loopback interface).
//
// The scene is a backdrop whose material identifies, for every evaluation, the
// client history, the orientation and the pixel by the ray it is given, and
// returns 2^e for the e-th evaluation of that pixel: from the average in an
// answer it can be told which evaluations it accumulates.
package main

import (
	"bytes"
	"context"
	"encoding/gob"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"log"
	"math"
	"math/bits"
	"math/rand"
	"net"
	"net/http"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/barnex/bruteray/api"
	"github.com/barnex/bruteray/geom"
	"github.com/barnex/bruteray/imagef"
	"github.com/barnex/bruteray/imagef/colorf"
	"github.com/barnex/bruteray/tracer"

	. "verifharness/vh"
)

// ---- scene ----

type cam struct{}

func (cam) RayFrom(ctx *tracer.Ctx, u, v float64) *tracer.Ray {
	r := ctx.Ray()
	r.Dir = geom.Vec{u, v, -far}
	return r
}

type key struct {
	hist int
	a, b int
}

type world struct {
	mu    sync.Mutex
	count map[key]int
	seq   map[key][]int64
	aa    map[int][2]int   // per history: size of anti-aliased views
	sizes map[int][][2]int // per history: sizes of other views
	armed map[int]bool
	held  chan struct{} // signalled when an evaluation is held
	gate  chan struct{} // closed to let it go
	iso   []*view       // of the server for isometric views: those of the current history
}

var clock int64

func tick() int64 { return atomic.AddInt64(&clock, 1) }

const near = 1e-9

func is(x, y float64) bool { return math.Abs(x-y*far) < near }

const far = 1000 // no u or v is that large

// orient recovers the orientation (0..5) and u, v from a direction.
func orient(d geom.Vec) (o int, u, v float64) {
	switch {
	case is(d[2], -1):
		return 0, d[0], d[1]
	case is(d[0], -1):
		return 1, -d[2], d[1]
	case is(d[2], 1):
		return 2, -d[0], d[1]
	case is(d[0], 1):
		return 3, d[2], d[1]
	case is(d[1], 1):
		return 4, d[0], d[2]
	case is(d[1], -1):
		return 5, d[0], -d[2]
	}
	return 9, 0, 0
}

func code(hist int, start geom.Vec, o int) float64 {
	return float64(hist%1000)*1000 + start[1]*100 + start[2]*10 + float64(o)
}

func centre(u, v float64, s [2]int) bool {
	w, h := float64(s[0]), float64(s[1])
	x := u*w - 0.5
	y := (0.5+0.5*h/w-v)*w - 0.5
	return math.Abs(x-math.Round(x)) < 1e-6 && math.Abs(y-math.Round(y)) < 1e-6
}

func (w *world) Shade(ctx *tracer.Ctx, s *tracer.Scene, r *tracer.Ray, h tracer.HitCoords) colorf.Color {
	if w.iso != nil {
		return w.shadeIso(r)
	}
	hist := int(math.Round(r.Start[0]))
	o, u, v := orient(r.Dir)
	w.mu.Lock()
	k := key{hist, int(math.Round(u * 1e7)), int(math.Round(v * 1e7))}
	plain := false
	for _, s := range w.sizes[hist] {
		plain = plain || centre(u, v, s)
	}
	if a, ok := w.aa[hist]; ok && !plain {
		k = aaKey(hist, a, u, v)
	}
	e := w.count[k]
	w.count[k]++
	w.seq[k] = append(w.seq[k], tick())
	var gate chan struct{}
	if w.armed[hist] {
		w.armed[hist] = false
		gate = w.gate
		close(w.held)
	}
	w.mu.Unlock()
	if gate != nil {
		<-gate
	}
	return stamp(code(hist, r.Start, o), e)
}

func stamp(code float64, e int) colorf.Color {
	c := colorf.Color{B: code}
	if e < 40 {
		c.R = math.Ldexp(1, e)
	} else if e < 80 {
		c.G = math.Ldexp(1, e-40)
	}
	return c
}

// shadeIso recognises the isometric view a ray belongs to by its direction and
// by the one whose pixel centres it starts from.
func (w *world) shadeIso(r *tracer.Ray) colorf.Color {
	w.mu.Lock()
	defer w.mu.Unlock()
	p := [3][3]int{{2, 1, 0}, {0, 2, 1}, {0, 1, 2}} // image x, image y, viewing direction
	for i, v := range w.iso {
		d := v.v.DebugIsometricDir
		if math.Abs(math.Abs(r.Dir[d])-1) > 1e-9 {
			continue
		}
		x, y := math.Abs(r.Start[p[d][0]]), math.Abs(r.Start[p[d][1]]) // signs do not matter for this
		f, W, H := v.v.DebugIsometricFOV, float64(v.v.Width), float64(v.v.Height)
		ok := func(x, n float64) bool {
			k := x/f*W + n/2 - 0.5
			return math.Abs(k-math.Round(k)) < 1e-4 && k < n-0.5
		}
		if !ok(x, W) || !ok(y, H) {
			continue
		}
		k := key{i, int(math.Round(r.Start[p[d][0]] * 1e6)), int(math.Round(r.Start[p[d][1]] * 1e6))}
		e := w.count[k]
		w.count[k]++
		return stamp(v.code, e)
	}
	return colorf.Color{B: -1}
}

// isometric runs a history of bakes and previews of two isometric views which
// differ in the size of the viewport or in direction.
func (s *server) isometric(rng *rand.Rand, hist int) {
	a := api.View{Width: 2 * (1 + rng.Intn(3)), Height: 2 * (1 + rng.Intn(3)), DebugIsometric: true, DebugIsometricDir: rng.Intn(3), DebugIsometricFOV: 1 + rng.Float64()}
	b := a
	if rng.Intn(3) == 0 {
		b.DebugIsometricDir = (a.DebugIsometricDir + 1 + rng.Intn(2)) % 3
	} else {
		b.DebugIsometricFOV = 2.2 + rng.Float64()
	}
	mk := func(v api.View, c int) *view {
		return &view{v: v, hist: hist, code: float64(10*hist + c), pix: [][2]int{{0, 0}, {v.Width - 1, v.Height - 1}, {v.Width - 1, 0}}}
	}
	vs := []*view{mk(a, 1), mk(b, 2)}
	s.w.mu.Lock()
	s.w.iso = vs
	s.w.count = map[key]int{}
	s.w.mu.Unlock()
	s.emit(M{"ev": "reset", "views": 2, "pix": 3, "a": a, "b": b, "ops": []string{"isometric"}})
	for i := 3 + rng.Intn(6); i > 0; i-- {
		n := rng.Intn(2)
		what := "bake"
		if rng.Intn(4) == 0 {
			what = "preview"
		}
		s.emit(vs[n].fill(M{"ev": what, "v": n + 1}, s.post(context.Background(), "/"+what, body(vs[n].v))))
	}
}

// long bakes one view many times over: the evaluations of every pixel are
// counted, the image is compared with the mean of what they gave.
func (s *server) long(rng *rand.Rand, hist int) {
	a := api.View{Width: 2 * (1 + rng.Intn(2)), Height: 2 * (1 + rng.Intn(2)), DebugIsometric: true, DebugIsometricDir: rng.Intn(3), DebugIsometricFOV: 1 + rng.Float64()}
	v := &view{v: a, hist: hist, code: float64(10*hist + 3)}
	s.w.mu.Lock()
	s.w.iso = []*view{v}
	s.w.count = map[key]int{}
	s.w.mu.Unlock()
	s.emit(M{"ev": "reset", "views": 1, "pix": 0, "a": a, "ops": []string{"long"}})
	last := 14 + rng.Intn(12)
	for k := 1; k <= last; k++ {
		r := s.post(context.Background(), "/bake", body(a))
		m := M{"ev": "long", "k": k, "res": r.res, "msg": r.msg, "pix": a.Width * a.Height}
		ns, mean := []int{}, []int{}
		s.w.mu.Lock()
		for _, n := range s.w.count {
			ns = append(ns, n)
		}
		s.w.mu.Unlock()
		sort.Ints(ns)
		n := float64(k * (k + 1) / 2)
		for _, row := range r.img {
			for _, c := range row {
				want := math.Ldexp(1, int(math.Min(n, 40))) - 1
				mean = append(mean, R(c.R*n/want, 1000), R(c.B/v.code, 1000))
				if n > 40 {
					want = math.Ldexp(1, int(math.Min(n, 80))-40) - 1
					mean = append(mean, R(c.G*n/want, 1000))
				}
			}
		}
		m["ns"], m["mean"] = ns, mean
		s.emit(m)
	}
}

func aaKey(hist int, a [2]int, u, v float64) key {
	W, H := float64(a[0]), float64(a[1])
	return key{hist, -1 - int(math.Floor(u*W)), int(math.Floor((0.5 + 0.5*H/W - v) * W))}
}

// pixKey is the key of pixel x, y of a view.
func pixKey(v *view, x, y int) key {
	W, H := float64(v.v.Width), float64(v.v.Height)
	uu, vv := (float64(x)+0.5)/W, 0.5+0.5*H/W-(float64(y)+0.5)/W
	if v.v.AntiAlias {
		return aaKey(v.hist, [2]int{v.v.Width, v.v.Height}, uu, vv)
	}
	return key{v.hist, int(math.Round(uu * 1e7)), int(math.Round(vv * 1e7))}
}

// ---- views and answers ----

type view struct {
	v     api.View
	hist  int
	code  float64
	blank bool
	pix   [][2]int
}

type answer struct {
	res string // ok, err
	img imagef.Image
	msg string
}

// decode lists the possible sets of evaluations of the image.
func (v *view) decode(img imagef.Image) (cands []M, ok, zero int) {
	ok, zero = 1, 1
	cands = []M{}
	type set = []int
	var dec func(c colorf.Color, n int) (set, bool)
	dec = func(c colorf.Color, n int) (set, bool) {
		var s set
		for i, x := range []float64{c.R, c.G} {
			y := x * float64(n)
			r := math.Round(y)
			if math.IsNaN(y) || y < 0 || y > 1<<42 || math.Abs(y-r) > 1e-3 {
				return nil, false
			}
			b := uint64(r)
			for b != 0 {
				j := bits.TrailingZeros64(b)
				s = append(s, 40*i+j)
				b &= b - 1
			}
		}
		return s, len(s) == n
	}
	for _, row := range img {
		for _, c := range row {
			if c != (colorf.Color{}) {
				zero = 0
			}
			if !(math.Abs(c.B-v.code) < 1e-6) {
				ok = 0
			}
		}
	}
	if ok == 0 {
		return
	}
	for n := 1; n <= 80; n++ {
		good := true
		for _, row := range img {
			for _, c := range row {
				if _, g := dec(c, n); !g {
					good = false
					break
				}
			}
			if !good {
				break
			}
		}
		if !good {
			continue
		}
		px := [][]int{}
		for _, p := range v.pix {
			if p[1] < len(img) && p[0] < len(img[0]) {
				s, _ := dec(img[p[1]][p[0]], n)
				px = append(px, s)
			}
		}
		cands = append(cands, M{"n": n, "px": px})
	}
	return
}

func (v *view) fill(m M, a answer) M {
	m["res"] = a.res
	m["ew"], m["eh"] = v.v.Width, v.v.Height
	w, h := 0, 0
	m["cands"], m["code"], m["zero"] = []M{}, 0, 0
	if a.res == "ok" {
		w, h = a.img.Size()
		m["cands"], m["code"], m["zero"] = v.decode(a.img)
	}
	m["w"], m["h"] = w, h
	m["blank"] = b2i(v.blank)
	m["msg"] = a.msg
	return m
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// ---- server and requests ----

type server struct {
	w    *world
	addr string
	cl   *http.Client
	out  []M
	dead bool // gave no answer, or stayed busy for a second without a bake
}

func (s *server) emit(m M) { s.out = append(s.out, m) }

func startServer() *server {
	w := &world{count: map[key]int{}, seq: map[key][]int64{}, aa: map[int][2]int{}, sizes: map[int][][2]int{}, armed: map[int]bool{}}
	for try := 0; try < 20; try++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		addr := l.Addr().String()
		l.Close()
		fail := make(chan error, 1)
		go func() {
			fail <- api.Serve(addr, api.Spec{Objects: []api.Object{api.Backdrop(w)}, Camera: cam{}})
		}()
		for i := 0; i < 200; i++ {
			select {
			case <-fail:
				i = 1000
			default:
			}
			if c, err := net.Dial("tcp", addr); err == nil {
				c.Close()
				return &server{w: w, addr: addr, cl: &http.Client{Timeout: 30 * time.Second}}
			}
			time.Sleep(10 * time.Millisecond)
		}
	}
	panic("cannot start a server")
}

func (s *server) post(ctx context.Context, path, body string) answer {
	req, err := http.NewRequest("POST", "http://"+s.addr+path, strings.NewReader(body))
	if err != nil {
		panic(err)
	}
	resp, err := s.cl.Do(req.WithContext(ctx))
	if err != nil {
		if e, ok := err.(net.Error); ok && e.Timeout() {
			s.dead = true
		}
		return answer{res: "err", msg: err.Error()}
	}
	defer resp.Body.Close()
	b, err := ioutil.ReadAll(resp.Body)
	if err != nil {
		return answer{res: "err", msg: err.Error()}
	}
	if resp.StatusCode != 200 {
		return answer{res: "err", msg: strings.TrimSpace(string(b))}
	}
	if path == "/cancel" {
		return answer{res: "ok"}
	}
	var img imagef.Image
	if err := gob.NewDecoder(bytes.NewReader(b)).Decode(&img); err != nil {
		return answer{res: "err", msg: "answer: " + err.Error()}
	}
	return answer{res: "ok", img: img}
}

func body(v api.View) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// ---- histories ----

// views makes two views which differ in one or more respects.
func (s *server) views(rng *rand.Rand, hist int) [2]*view {
	w, h := 1+rng.Intn(6), 1+rng.Intn(6)
	if rng.Intn(8) == 0 {
		w, h = 1+rng.Intn(24), 1+rng.Intn(24)
	}
	a := api.View{Width: w, Height: h, AntiAlias: rng.Intn(4) == 0, CamPos: geom.Vec{float64(hist), float64(rng.Intn(3)), float64(rng.Intn(3))}}
	if a.AntiAlias {
		a.Height = a.Width
	}
	b := a
	o := [2]int{0, 0}
	blank := false
	switch rng.Intn(8) {
	case 0:
		b.CamPos[1] += 3
	case 1:
		b.CamPos[2] += 3
	case 2:
		b.AntiAlias = !b.AntiAlias
		a.Height, b.Height = a.Width, a.Width
	case 3:
		b.Width++
	case 4:
		b.Height++
	case 5:
		o[1] = 1 + rng.Intn(3)
		b.CamYaw = float64(o[1]) * 90 * geom.Deg
	case 6:
		o[1] = 4 + rng.Intn(2)
		b.CamPitch = float64(9-2*o[1]) * 90 * geom.Deg
	case 7:
		b.DebugNormals = 1
		blank = true
	}
	if a.AntiAlias && (a.Width != b.Width || a.Height != b.Height) {
		a.AntiAlias = false
		b.AntiAlias = false
	}
	if rng.Intn(2) == 0 && !blank {
		a, b = b, a
		o[0], o[1] = o[1], o[0]
	}
	s.w.mu.Lock()
	for _, v := range []api.View{a, b} {
		if v.AntiAlias {
			s.w.aa[hist] = [2]int{v.Width, v.Height}
		} else {
			s.w.sizes[hist] = append(s.w.sizes[hist], [2]int{v.Width, v.Height})
		}
	}
	s.w.mu.Unlock()
	mk := func(v api.View, o int) *view {
		return &view{v: v, hist: hist, code: code(hist, v.CamPos, o), pix: [][2]int{{0, 0}, {v.Width - 1, v.Height - 1}, {v.Width - 1, 0}}}
	}
	va, vb := mk(a, o[0]), mk(b, o[1])
	vb.blank = blank
	return [2]*view{va, vb}
}

var badBodies = []string{"", "{", "nonsense", `{"Width":"x"}`, `{"Width":4,"Height":4,"CamPos":7}`, `[1,2]`}

func badView(rng *rand.Rand, v api.View) string {
	switch rng.Intn(3) {
	case 0:
		v.Width = -1 - rng.Intn(5)
	case 1:
		v.Height = -2
	case 2:
		v.DebugIsometric, v.DebugIsometricFOV, v.DebugIsometricDir = true, 3, 7
	}
	return body(v)
}

func (s *server) history(rng *rand.Rand, hist int, ops []string) {
	vs := s.views(rng, hist)
	bg := context.Background()
	s.emit(M{"ev": "reset", "views": 2, "pix": 3, "a": vs[0].v, "b": vs[1].v, "ops": ops})
	var pending chan answer
	var abort func()
	running, cancelled, dropped := 0, 0, false
	finish := func() {
		if running == 0 {
			return
		}
		close(s.w.gate)
		v := vs[running-1]
		s.emit(v.fill(M{"ev": "finish", "v": running, "cancelled": cancelled}, <-pending))
		running, cancelled = 0, 0
	}
	settle := func() { // another view can be baked once the abandoned bake is over
		a := s.retry(true, &view{v: api.View{Width: 1, Height: 1, CamPos: geom.Vec{-1, 0, 0}}})
		s.emit(M{"ev": "settled", "res": a.res, "msg": a.msg})
		dropped = false
	}
	for _, op := range ops {
		n, _ := strconv.Atoi(op[len(op)-1:])
		switch {
		case strings.HasPrefix(op, "bake"):
			v := vs[n-1]
			a := s.post(bg, "/bake", body(v.v))
			for i := 0; dropped && a.res == "err" && i < 100 && !s.dead; i++ { // the abandoned bake may still be running
				time.Sleep(10 * time.Millisecond)
				a = s.post(bg, "/bake", body(v.v))
			}
			if a.res == "ok" {
				dropped = false
			}
			s.emit(v.fill(M{"ev": "bake", "v": n}, a))
		case strings.HasPrefix(op, "hold"):
			v := vs[n-1]
			if v.blank || running != 0 { // cannot be held, will be refused
				s.emit(v.fill(M{"ev": "bake", "v": n}, s.retry(dropped, v)))
				continue
			}
			if dropped {
				settle()
			}
			s.w.mu.Lock()
			s.w.held, s.w.gate = make(chan struct{}), make(chan struct{})
			s.w.armed[hist] = true
			held := s.w.held
			s.w.mu.Unlock()
			ctx, cf := context.WithCancel(bg)
			abort = cf
			p := make(chan answer, 1)
			go func() { p <- s.post(ctx, "/bake", body(v.v)) }()
			select {
			case <-held:
				pending = p
				s.emit(M{"ev": "start", "v": n, "accepted": 1})
				running = n
			case a := <-p:
				s.w.mu.Lock()
				s.w.armed[hist] = false
				s.w.mu.Unlock()
				s.emit(M{"ev": "start", "v": n, "accepted": 0, "msg": a.msg})
			}
		case op == "release":
			finish()
		case op == "drop":
			if running == 0 {
				continue
			}
			abort()
			<-pending
			close(s.w.gate)
			s.emit(M{"ev": "drop"})
			running, cancelled, dropped = 0, 0, true
		case op == "cancel":
			if running != 0 {
				cancelled = 1
			}
			s.emit(M{"ev": "cancel", "res": s.post(bg, "/cancel", "").res})
		case strings.HasPrefix(op, "preview"):
			v := vs[n-1]
			if v.blank {
				continue
			}
			s.emit(v.fill(M{"ev": "preview", "v": n}, s.post(bg, "/preview", body(v.v))))
		case op == "bad":
			switch rng.Intn(4) {
			case 0:
				s.emit(M{"ev": "badbake", "reached": 0, "res": s.post(bg, "/bake", badBodies[rng.Intn(len(badBodies))]).res})
			case 1, 2:
				if dropped {
					continue
				}
				s.emit(M{"ev": "badbake", "reached": 1, "res": s.post(bg, "/bake", badView(rng, vs[0].v)).res})
			case 3:
				b := badView(rng, vs[0].v)
				if rng.Intn(2) == 0 {
					b = badBodies[rng.Intn(len(badBodies))]
				}
				s.emit(M{"ev": "badpreview", "res": s.post(bg, "/preview", b).res})
			}
		}
	}
	finish()
	if dropped { // wait until it is over
		settle()
	}
}

func (s *server) retry(dropped bool, v *view) answer {
	a := s.post(context.Background(), "/bake", body(v.v))
	for i := 0; dropped && a.res == "err" && i < 100 && !s.dead; i++ {
		time.Sleep(10 * time.Millisecond)
		a = s.post(context.Background(), "/bake", body(v.v))
	}
	if dropped && a.res == "err" {
		s.dead = true
	}
	return a
}

// stress sends requests from many clients at once.
func (s *server) stress(rng *rand.Rand, hist int, clients, reqs int) {
	vs := s.views(rng, hist)
	for vs[1].blank {
		hist += 1000000
		vs = s.views(rng, hist)
	}
	type done struct {
		v          int
		a          answer
		sent, recv int64
	}
	var mu sync.Mutex
	var oks []done
	refused := [][]int64{}
	var wg sync.WaitGroup
	bakes := int64(0)
	for c := 0; c < clients; c++ {
		wg.Add(1)
		r := rand.New(rand.NewSource(rng.Int63()))
		go func() {
			defer wg.Done()
			for i := 0; i < reqs; i++ {
				switch x := r.Intn(10); {
				case x < 5 && atomic.AddInt64(&bakes, 1) <= 11: // no more than 80 passes can be told apart
					d := done{v: r.Intn(2)}
					if r.Intn(3) > 0 {
						d.v = 0
					}
					d.sent = tick()
					d.a = s.post(context.Background(), "/bake", body(vs[d.v].v))
					d.recv = tick()
					mu.Lock()
					if d.a.res == "ok" {
						oks = append(oks, d)
					} else {
						refused = append(refused, []int64{d.sent, d.recv})
					}
					mu.Unlock()
				case x < 8:
					s.post(context.Background(), "/cancel", "")
				case x < 9:
					s.post(context.Background(), "/bake", badBodies[r.Intn(len(badBodies))])
				default:
					time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
				}
			}
		}()
	}
	wg.Wait()
	// order by the last evaluation of the first pixel
	type item struct {
		d           done
		m           M
		first, last int64
	}
	var items []item
	unreadable := false
	prev := map[int]map[int]bool{0: {}, 1: {}}
	for _, d := range oks {
		v := vs[d.v]
		it := item{d: d, m: v.fill(M{"ev": "bake", "v": d.v + 1}, d.a)}
		c := it.m["cands"].([]M)
		if len(c) == 0 || len(c[0]["px"].([][]int)) == 0 {
			unreadable = true
			s.emit(M{"ev": "reset", "views": 2, "pix": 3})
			s.emit(it.m)
			continue
		}
		px := c[0]["px"].([][]int)[0]
		sort.Ints(px)
		sq := s.w.seq[pixKey(v, 0, 0)]
		if px[len(px)-1] >= len(sq) { // never evaluated
			unreadable = true
			it.m["cands"] = []M{}
			s.emit(M{"ev": "reset", "views": 2, "pix": 3})
			s.emit(it.m)
			continue
		}
		it.last = sq[px[len(px)-1]]
		items = append(items, it)
	}
	if unreadable {
		return
	}
	sort.Slice(items, func(i, j int) bool { return items[i].last < items[j].last })
	s.emit(M{"ev": "reset", "views": 2, "pix": 3, "a": vs[0].v, "b": vs[1].v, "ops": []string{"stress"}})
	order := [][]int64{}
	okI := [][]int64{}
	lastV := -1
	for _, it := range items {
		if it.d.v != lastV {
			prev[it.d.v] = map[int]bool{}
		}
		lastV = it.d.v
		sq := s.w.seq[pixKey(vs[it.d.v], 0, 0)]
		first := int64(1 << 60)
		for _, e := range it.m["cands"].([]M)[0]["px"].([][]int)[0] {
			if !prev[it.d.v][e] && sq[e] < first {
				first = sq[e]
			}
			prev[it.d.v][e] = true
		}
		if first > it.last {
			first = it.last
		}
		s.emit(it.m)
		order = append(order, []int64{it.d.sent, first, it.last, it.d.recv})
		okI = append(okI, []int64{it.d.sent, it.d.recv})
	}
	s.emit(M{"ev": "order", "o": order})
	s.emit(M{"ev": "overlap", "refused": refused, "oks": okI})
}

func main() {
	Init()
	log.SetOutput(ioutil.Discard)
	var hists [][]string
	Scenarios(func(dec func(interface{})) {
		var s struct{ Ops []string }
		dec(&s)
		hists = append(hists, s.Ops)
	})
	idle := []string{"bake1", "bake1", "bake1", "bake2", "hold1", "hold2", "cancel", "preview1", "preview2", "bad"}
	busy := []string{"bake1", "bake2", "hold1", "hold2", "release", "release", "cancel", "cancel", "preview1", "preview2", "bad", "drop"}
	for i := 0; i < Pick(1000, 10000); i++ {
		var ops []string
		run := false
		for n := 4 + Rng.Intn(8); n > 0; n-- {
			set := idle
			if run {
				set = busy
			}
			op := set[Rng.Intn(len(set))]
			switch op {
			case "hold1", "hold2":
				run = true
			case "release", "drop":
				run = false
			}
			ops = append(ops, op)
		}
		hists = append(hists, ops)
	}
	for i := 0; i < Pick(16, 100); i++ { // many bakes of one view
		ops := []string{}
		for n := 9 + Rng.Intn(4); n > 0; n-- {
			ops = append(ops, "bake1")
		}
		if Rng.Intn(2) == 0 {
			ops[Rng.Intn(len(ops))] = "cancel"
		}
		hists = append(hists, ops)
	}
	const N = 8
	servers := make([]*server, N)
	for i := range servers {
		servers[i] = startServer()
	}
	Begin(M{"kind": "histories"})
	var wg sync.WaitGroup
	next := int64(-1)
	seeds := make([]int64, len(hists)+1000)
	for i := range seeds {
		seeds[i] = Rng.Int63()
	}
	nStress := Pick(100, 600)
	for _, s := range servers {
		wg.Add(1)
		go func(s *server) {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= len(hists)+nStress {
					return
				}
				rng := rand.New(rand.NewSource(seeds[i]))
				if i < len(hists) {
					s.history(rng, i+1, hists[i])
				} else {
					s.stress(rng, i+1, 2+rng.Intn(4), 6)
				}
			}
		}(s)
	}
	iso := startServer()
	servers = append(servers, iso)
	isoRng := rand.New(rand.NewSource(Rng.Int63()))
	wg.Add(1)
	go func() {
		defer wg.Done()
		for i := 0; i < Pick(60, 600); i++ {
			iso.isometric(isoRng, i+1)
			if i%20 == 0 {
				iso.long(isoRng, 5000+i)
			}
		}
	}()
	wg.Wait()
	for _, s := range servers {
		for _, m := range s.out {
			Emit(m)
		}
	}
	Flush()
	fmt.Println("done")
}

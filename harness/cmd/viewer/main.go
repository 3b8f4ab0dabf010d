// Driver for C16: runs the real bruteray-view with a stand-in for its window
// (see ../../fakeshiny) and for its server, and records what they see.
package main

import (
	"bufio"
	"encoding/gob"
	"encoding/json"
	"flag"
	"fmt"
	"image"
	"image/draw"
	"io/ioutil"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/barnex/bruteray/api"
	"github.com/barnex/bruteray/imagef"
	"github.com/barnex/bruteray/imagef/colorf"

	. "verifharness/vh"
)

var bin = flag.String("bin", "", "bruteray-view")

type action struct {
	A    string `json:"a"`
	Res  string `json:"res"`
	Evs  []M    `json:"evs"`
	More []M    `json:"more"`
}
type scenario struct {
	Steps []action `json:"steps"`
}

// ---- colours stand for images ----

func colour(id int) colorf.Color {
	id += 64 // never the placeholder's
	return colorf.Color{R: float64(id/64) / 7, G: float64(id/8%8) / 7, B: float64(id%8) / 7}
}

func mkImage(w, h int, id int) imagef.Image {
	img := imagef.MakeImage(w, h)
	for i := range img {
		for j := range img[i] {
			img[i][j] = colour(id)
		}
	}
	return img
}

var byColour = map[[3]int]int{}

func init() {
	for id := 0; id < 448; id++ {
		img := mkImage(1, 1, id)
		if id == 0 {
			img[0][0] = colorf.Color{B: 1}
		}
		buf := image.NewRGBA(image.Rect(0, 0, 1, 1))
		draw.Draw(buf, buf.Bounds(), img, image.Point{}, draw.Src)
		c := buf.RGBAAt(0, 0)
		byColour[[3]int{int(c.R), int(c.G), int(c.B)}] = id
	}
}

var stuck int32

func main() {
	Init()
	var scns []scenario
	Scenarios(func(dec func(interface{})) {
		var s scenario
		dec(&s)
		scns = append(scns, s)
	})
	Rng.Shuffle(len(scns), func(i, j int) { scns[i], scns[j] = scns[j], scns[i] })
	if n := Pick(500, 5000); len(scns) > n {
		scns = scns[:n]
	}
	for i := 0; i < Pick(120, 1500); i++ {
		scns = append(scns, randomScenario(Rng))
	}
	seeds := make([]int64, len(scns))
	for i := range seeds {
		seeds[i] = Rng.Int63()
	}
	ch := make(chan int)
	var wg sync.WaitGroup
	var mu sync.Mutex
	for w := 0; w < 14; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				if atomic.LoadInt32(&stuck) > 4 {
					continue
				}
				evs := run(scns[i], rand.New(rand.NewSource(seeds[i])))
				mu.Lock()
				for _, e := range evs {
					Emit(e)
				}
				mu.Unlock()
			}
		}()
	}
	for i := range scns {
		ch <- i
	}
	close(ch)
	wg.Wait()
	Flush()
}

// ---- random histories ----

func ke(code, dir string, shift int) M {
	return M{"t": "key", "code": code, "dir": dir, "shift": shift}
}
func me(x, y int, button, dir string, shift int) M {
	return M{"t": "mouse", "x": x, "y": y, "button": button, "dir": dir, "shift": shift}
}

var sizes = [][2]int{{32, 32}, {45, 77}, {77, 32}, {110, 59}, {59, 45}}

type gen struct {
	r            *rand.Rand
	x, y         int
	held, yawed  bool
	moves, zooms int
}

func (g *gen) pos() (int, int) {
	if g.r.Intn(3) > 0 {
		g.x = 20 * (g.r.Intn(21) - 10)
		g.y = 20 * (g.r.Intn(61) - 30)
	}
	return g.x, g.y
}

func (g *gen) event() []M {
	r := g.r
	switch n := r.Intn(20); {
	case n < 6:
		code := []string{"Left", "Right", "Up", "Down", "E", "S", "D", "F", "Space", "Up", "Left"}[r.Intn(11)]
		return []M{ke(code, []string{"press", "press", "press", "release", ""}[r.Intn(5)], r.Intn(2))}
	case n < 8:
		return []M{ke([]string{"X", "Y", "Z"}[r.Intn(3)], "press", r.Intn(2))}
	case n < 9:
		return []M{ke([]string{"N", "A", "Tab", "Q"}[r.Intn(4)], "press", 0)}
	case n < 11:
		return []M{ke("P", []string{"press", "press", "release"}[r.Intn(3)], 0)}
	case n < 15:
		x, y := g.pos()
		switch {
		case !g.held && r.Intn(2) == 0:
			g.held = true
			return []M{me(x, y, "left", "press", 0)}
		case g.held && r.Intn(2) == 0:
			g.held = false
			return []M{me(x, y, "left", "release", 0)}
		case !g.held && r.Intn(3) == 0:
			b := []string{"right", "middle"}[r.Intn(2)]
			return []M{me(x, y, b, "press", 0), me(x, y, b, "release", 0)}
		}
		return []M{me(x, y, "", "", 0)}
	case n < 17:
		if g.zooms++; g.zooms > 7 {
			return []M{{"t": "paint"}}
		}
		return []M{me(g.x, g.y, []string{"wheelup", "wheeldown", "wheelleft", "wheelright"}[r.Intn(4)], "step", r.Intn(2))}
	case n < 19:
		s := sizes[r.Intn(len(sizes))]
		return []M{{"t": "size", "w": s[0], "h": s[1]}}
	}
	return []M{{"t": []string{"paint", "focus"}[r.Intn(2)]}}
}

func (g *gen) events(min int) []M {
	evs := []M{}
	for len(evs) < min || g.r.Intn(3) == 0 {
		evs = append(evs, g.event()...)
	}
	return evs
}

func randomScenario(r *rand.Rand) scenario {
	g := &gen{r: r}
	var s scenario
	for n := 4 + r.Intn(8); n > 0; n-- {
		a := action{Evs: []M{}, More: []M{}}
		switch r.Intn(8) {
		case 0, 1:
			a.A, a.Evs = "ev", g.events(1)
		case 2, 3, 4:
			a.A, a.Res = "ans", []string{"ok", "ok", "ok", "ok", "err", "empty"}[r.Intn(6)]
		case 5:
			a.A, a.Res, a.Evs = "ans", []string{"ok", "ok", "err"}[r.Intn(3)], g.events(1)
		case 6:
			a.A, a.Evs = "hold", g.events(1)
			a.More = g.events(1)
			a.Res = []string{"", "ok"}[r.Intn(2)]
		case 7:
			a.A, a.Evs = "pfail", g.events(1)
			if r.Intn(3) > 0 { // failures take long
				a.A = "ev"
			}
		}
		s.Steps = append(s.Steps, a)
	}
	return s
}

// ---- one viewer ----

type viewer struct {
	mu       sync.Mutex
	cond     *sync.Cond
	log      []M
	nextID   int
	pubs     int // publishes so far
	nexts    int // events the viewer asked for
	sent     int
	bake     chan answer
	bakeView api.View
	bakes    int
	gate     chan struct{} // previews wait for it, if not nil
	pfail    bool
	previews int
	badCan   bool
	evc      net.Conn
	exited   bool
	code     int
	paused   bool
	drag     bool
	last     M
}
type answer struct {
	res string
	id  int
}

func (v *viewer) emit(m M) { v.log = append(v.log, m) }

func view2(m api.View) M {
	b := func(x bool) int {
		if x {
			return 1
		}
		return 0
	}
	return M{"w": m.Width, "h": m.Height, "aa": b(m.AntiAlias), "x": R(m.CamPos[0], 1e6), "y": R(m.CamPos[1], 1e6), "z": R(m.CamPos[2], 1e6),
		"yaw": R(m.CamYaw, 1e6), "pitch": R(m.CamPitch, 1e6), "nrm": m.DebugNormals, "iso": b(m.DebugIsometric),
		"fov": R(m.DebugIsometricFOV, 1e3), "dir": m.DebugIsometricDir}
}

func (v *viewer) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	var view api.View
	body, _ := ioutil.ReadAll(r.Body)
	json.Unmarshal(body, &view)
	switch strings.Trim(r.URL.Path, "/") {
	case "preview":
		v.mu.Lock()
		v.emit(M{"ev": "preview", "r": view2(view)})
		v.previews++
		gate := v.gate
		v.cond.Broadcast()
		v.mu.Unlock()
		if gate != nil {
			<-gate
		}
		v.mu.Lock()
		fail := v.pfail
		v.pfail = false
		id := 0
		if fail {
			v.emit(M{"ev": "pans", "ok": 0, "id": 0})
		} else {
			v.nextID++
			id = v.nextID
			v.emit(M{"ev": "pans", "ok": 1, "id": id})
		}
		v.mu.Unlock()
		if fail {
			http.Error(w, "no preview", 500)
			return
		}
		gob.NewEncoder(w).Encode(mkImage(view.Width, view.Height, id))
	case "bake":
		ans := make(chan answer, 1)
		v.mu.Lock()
		v.emit(M{"ev": "bake", "r": view2(view)})
		v.bake, v.bakeView = ans, view
		v.bakes++
		v.cond.Broadcast()
		v.mu.Unlock()
		var a answer
		select {
		case a = <-ans:
		case <-r.Context().Done():
			return
		}
		switch a.res {
		case "ok":
			gob.NewEncoder(w).Encode(mkImage(view.Width, view.Height, a.id))
		case "err":
			http.Error(w, "no bake", 500)
		default:
			gob.NewEncoder(w).Encode(imagef.Image{})
		}
	case "cancel":
		v.mu.Lock()
		v.emit(M{"ev": "cancel"})
		bad := v.badCan
		v.mu.Unlock()
		if bad {
			http.Error(w, "cannot cancel", 500)
		}
	default:
		v.mu.Lock()
		v.emit(M{"ev": "unknown request"})
		v.mu.Unlock()
	}
}

// waitFor waits until cond holds, at most 20 s.
func (v *viewer) waitFor(f func() bool) bool {
	limit := 20 * time.Second
	t := time.AfterFunc(limit, func() { v.mu.Lock(); v.cond.Broadcast(); v.mu.Unlock() })
	defer t.Stop()
	start := time.Now()
	for !f() {
		if v.exited || time.Since(start) >= limit {
			return false
		}
		v.cond.Wait()
	}
	return true
}

// send sends an input event to the viewer.
func (v *viewer) send(e M) {
	if e["t"] == "dead" {
		v.emit(M{"ev": "dead"})
	} else {
		v.emit(M{"ev": "send", "e": e})
	}
	if e["t"] == "key" && e["code"] == "P" && e["dir"] == "press" {
		v.paused = !v.paused
	}
	if e["t"] == "mouse" && e["dir"] == "press" {
		v.drag = e["button"] == "left"
	}
	if e["t"] == "mouse" && e["dir"] == "release" && e["button"] == "left" {
		v.drag = false
	}
	b, _ := json.Marshal(e)
	fmt.Fprintln(v.evc, string(b))
	v.sent++
}

func (v *viewer) settle() bool {
	ok := true
	for i := 0; i < 3 && ok; i++ {
		v.send(M{"t": "paint"})
		n, p := v.sent, v.pubs
		ok = v.waitFor(func() bool { return v.nexts > n && v.pubs > p })
	}
	if ok && !v.paused && !v.drag {
		v.waitFor(func() bool { return v.bake != nil })
	} else if ok {
		v.mu.Unlock()
		time.Sleep(3 * time.Millisecond)
		v.mu.Lock()
	}
	if v.exited {
		return false
	}
	if !ok {
		v.emit(M{"ev": "stuck"})
		atomic.AddInt32(&stuck, 1)
		return false
	}
	if v.bake == nil && !v.paused && !v.drag {
		atomic.AddInt32(&stuck, 1)
	}
	v.emit(M{"ev": "settle"})
	return true
}

func (v *viewer) answerBake(res string) {
	if v.bake == nil {
		return
	}
	a := answer{res: res}
	if res == "ok" {
		v.nextID++
		a.id = v.nextID
	}
	v.emit(M{"ev": "bans", "res": res, "id": a.id})
	v.bake <- a
	v.bake = nil
}

func run(s scenario, rng *rand.Rand) []M {
	v := &viewer{}
	v.cond = sync.NewCond(&v.mu)
	v.badCan = rng.Intn(5) == 0
	srv, err := net.Listen("tcp", "127.0.0.1:0")
	ck(err)
	ctl, err := net.Listen("tcp", "127.0.0.1:0")
	ck(err)
	hs := &http.Server{Handler: v}
	go hs.Serve(srv)
	defer hs.Close()
	defer ctl.Close()

	cmd := exec.Command(*bin, "-addr", srv.Addr().String())
	cmd.Env = append(os.Environ(), "VIEW_CTL="+ctl.Addr().String(), "HTTP_PROXY=", "http_proxy=", "GOMAXPROCS="+fmt.Sprint([]int{1, 2, 4}[rng.Intn(3)]))
	var errText strings.Builder
	cmd.Stderr = &errText
	ck(cmd.Start())
	go func() {
		err := cmd.Wait()
		v.mu.Lock()
		v.exited = true
		if err != nil {
			v.code = 1
		}
		v.cond.Broadcast()
		v.mu.Unlock()
		ctl.Close()
	}()
	defer cmd.Process.Kill()

	for i := 0; i < 2; i++ {
		c, err := ctl.Accept()
		if err != nil {
			break
		}
		defer c.Close()
		r := bufio.NewReader(c)
		kind, _ := r.ReadString('\n')
		if strings.TrimSpace(kind) == "events" {
			v.evc = c
			go func() {
				for {
					if _, err := r.ReadString('\n'); err != nil {
						return
					}
					v.mu.Lock()
					v.nexts++
					v.cond.Broadcast()
					v.mu.Unlock()
				}
			}()
		} else {
			go func() {
				for {
					line, err := r.ReadString('\n')
					if err != nil {
						return
					}
					var c3 [3]int
					fmt.Sscan(line, &c3[0], &c3[1], &c3[2])
					id, ok := byColour[c3]
					if !ok {
						id = -1
					}
					v.mu.Lock()
					v.emit(M{"ev": "publish", "id": id})
					v.pubs++
					v.cond.Broadcast()
					v.mu.Unlock()
					fmt.Fprintln(c)
				}
			}()
		}
	}

	v.mu.Lock()
	defer v.mu.Unlock()
	ok := v.evc != nil && v.settle()
	for _, a := range s.Steps {
		if !ok {
			break
		}
		sendAll := func(es []M) {
			for _, e := range es {
				v.send(e)
				if rng.Intn(4) == 0 {
					v.mu.Unlock()
					time.Sleep(time.Duration(rng.Intn(1500)) * time.Microsecond)
					v.mu.Lock()
				}
			}
		}
		switch a.A {
		case "ev":
			sendAll(a.Evs)
		case "pfail":
			v.pfail = true
			sendAll(a.Evs)
		case "ans":
			if rng.Intn(2) == 0 {
				v.answerBake(a.Res)
				if len(a.Evs) > 0 && rng.Intn(2) == 0 {
					v.mu.Unlock()
					time.Sleep(time.Duration(rng.Intn(1500)) * time.Microsecond)
					v.mu.Lock()
				}
				sendAll(a.Evs)
			} else {
				sendAll(a.Evs)
				v.answerBake(a.Res)
			}
		case "hold":
			gate := make(chan struct{})
			v.gate = gate
			n := v.previews
			sendAll(a.Evs)
			// some input asks for no preview
			start := time.Now()
			for v.previews == n && time.Since(start) < 20*time.Millisecond {
				v.mu.Unlock()
				time.Sleep(time.Millisecond)
				v.mu.Lock()
			}
			sendAll(a.More)
			if a.Res != "" {
				v.answerBake(a.Res)
			}
			v.gate = nil
			close(gate)
		}
		ok = v.settle()
		v.pfail = false
	}
	if v.exited {
		v.emit(M{"ev": "crashed", "text": tail(errText.String())})
		atomic.AddInt32(&stuck, 1)
	} else if ok {
		v.send(M{"t": "dead"})
		v.waitFor(func() bool { return v.exited })
		if v.exited && v.code == 0 {
			v.emit(M{"ev": "exit"})
		} else {
			v.emit(M{"ev": "no end", "code": v.code})
			atomic.AddInt32(&stuck, 1)
		}
	}
	return append([]M{{"ev": "reset", "steps": s.Steps}}, v.log...)
}

func tail(s string) string {
	if len(s) > 600 {
		return s[len(s)-600:]
	}
	return s
}

func ck(err error) {
	if err != nil {
		panic(err)
	}
}

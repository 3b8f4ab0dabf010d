// Driver for C17: runs the real bruteray-watch on files that change, with a
// stand-in for the go command (see ../watchstub), and records what it did.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	. "verifharness/vh"
)

var (
	bin  = flag.String("bin", "", "bruteray-watch")
	stub = flag.String("stub", "", "stand-in")
	dir  = flag.String("dir", "", "scratch directory")
)

type step struct {
	Kind string   `json:"kind"`
	Mid  string   `json:"mid"`
	Back int      `json:"back"`
	More []string `json:"more,omitempty"` // further edits at once
}
type scenario struct {
	Steps []step `json:"steps"`
}

var stuck int32

func main() {
	Init()
	var scns []scenario
	Scenarios(func(dec func(interface{})) {
		var s scenario
		dec(&s)
		scns = append(scns, s)
	})
	kinds := []string{"good", "exits", "bad", "nostart"}
	for i := 0; i < Pick(60, 600); i++ {
		var s scenario
		for j := 3 + Rng.Intn(6); j > 0; j-- {
			st := step{Kind: kinds[Rng.Intn(4)], Back: Rng.Intn(2)}
			if Rng.Intn(3) == 0 {
				st.Mid = kinds[Rng.Intn(4)]
			}
			for Rng.Intn(4) == 0 {
				st.More = append(st.More, kinds[Rng.Intn(4)])
			}
			s.Steps = append(s.Steps, st)
		}
		scns = append(scns, s)
	}
	Rng.Shuffle(len(scns), func(i, j int) { scns[i], scns[j] = scns[j], scns[i] })
	if n := Pick(500, len(scns)); len(scns) > n {
		scns = scns[:n]
	}
	var wg sync.WaitGroup
	ch := make(chan int)
	seeds := make([]int64, len(scns))
	for i := range seeds {
		seeds[i] = Rng.Int63()
	}
	var mu sync.Mutex
	for w := 0; w < 12; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				if atomic.LoadInt32(&stuck) > 4 {
					continue
				}
				evs := run(i, scns[i], rand.New(rand.NewSource(seeds[i])))
				mu.Lock()
				for _, e := range evs {
					Emit(e)
				}
				mu.Unlock()
			}
		}()
	}
	for i := range scns {
		ch <- i
	}
	close(ch)
	wg.Wait()
	Flush()
}

var names = []string{"scene.go", "my.scene.go", "s.go.go", "a b.go"}
var subs = []string{"", "sub", "sub.dir/x.y"}

func run(n int, s scenario, rng *rand.Rand) []M {
	root, err := filepath.EvalSymlinks(*dir)
	ck(err)
	root = filepath.Join(root, fmt.Sprint("w", n))
	ck(os.MkdirAll(filepath.Join(root, "pids"), 0755))
	ck(os.MkdirAll(filepath.Join(root, "bin"), 0755))
	defer os.RemoveAll(root)
	ck(os.Symlink(*stub, filepath.Join(root, "bin", "go")))
	switch rng.Intn(4) {
	case 0: // no renice at all
	case 1:
		ck(ioutil.WriteFile(filepath.Join(root, "norenice"), nil, 0644))
		fallthrough
	default:
		ck(os.Symlink(*stub, filepath.Join(root, "bin", "renice")))
	}
	name, sub := names[rng.Intn(len(names))], subs[rng.Intn(len(subs))]
	src := filepath.Join(root, "src")
	srcDir := filepath.Join(src, sub)
	ck(os.MkdirAll(srcDir, 0755))
	args := []string{}
	for _, a := range [][]string{{}, {"-o", "other.png"}, {"-pass", "3", "", "a b"}, {"x"}, {"--", "-i", "5"}}[rng.Intn(5)] {
		args = append(args, a)
	}
	ck(ioutil.WriteFile(filepath.Join(root, "log"), nil, 0644))
	logf, err := os.OpenFile(filepath.Join(root, "log"), os.O_APPEND|os.O_WRONLY, 0)
	ck(err)
	defer logf.Close()

	var kinds []string
	mtime := time.Now().Add(-time.Hour).Truncate(time.Second)
	edit := func(kind string, hold int, back bool) {
		kinds = append(kinds, kind)
		v := len(kinds)
		text, _ := json.Marshal(M{"v": v, "kind": kind, "hold": hold})
		text = append(text, strings.Repeat(" ", 80-len(text))...)
		tmp := filepath.Join(root, "edited")
		ck(ioutil.WriteFile(tmp, text, 0644))
		d := []time.Duration{time.Millisecond, 3 * time.Second, time.Hour}[rng.Intn(3)]
		if back {
			d = -d
		}
		mtime = mtime.Add(d).Add(time.Duration(v) * time.Microsecond)
		ck(os.Chtimes(tmp, mtime, mtime))
		b, _ := json.Marshal(M{"ev": "edit", "v": v, "kind": kind})
		logf.Write(append(b, '\n'))
		ck(os.Rename(tmp, filepath.Join(srcDir, name)))
	}
	hold := func(s string) int {
		if s != "" {
			return 1
		}
		return 0
	}

	rel := filepath.Join(sub, name)
	wd := src
	switch rng.Intn(3) {
	case 0:
		rel = filepath.Join(srcDir, name)
	case 1:
		rel, wd = name, srcDir
	}
	edit(s.Steps[0].Kind, hold(s.Steps[0].Mid), false)
	cmd := exec.Command(*bin, append([]string{"-i", "2ms", rel}, args...)...)
	cmd.Dir = wd
	cmd.Env = append(os.Environ(), "PATH="+filepath.Join(root, "bin"), "WATCH_ROOT="+root, "PWD="+wd)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	ck(cmd.Start())
	var dead int32
	waited := make(chan bool)
	go func() { cmd.Wait(); atomic.StoreInt32(&dead, 1); close(waited) }()
	defer func() {
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-waited
		fs, _ := ioutil.ReadDir(filepath.Join(root, "pids"))
		for _, f := range fs {
			var v, pid int
			fmt.Sscanf(f.Name(), "%d-%d", &v, &pid)
			for _, a := range alive(root) {
				if a == v {
					syscall.Kill(pid, syscall.SIGKILL)
				}
			}
		}
	}()

	read := func() []M {
		b, err := ioutil.ReadFile(filepath.Join(root, "log"))
		ck(err)
		var out []M
		for _, ln := range strings.Split(string(b), "\n") {
			var m M
			if json.Unmarshal([]byte(ln), &m) == nil && m != nil {
				out = append(out, m)
			}
		}
		return out
	}
	isDead := func() bool { return atomic.LoadInt32(&dead) == 1 }
	settled := func(l []M, al []int) bool {
		if isDead() {
			return true
		}
		c := len(kinds)
		last, done, started := 0, 0, 0
		for _, m := range l {
			v, _ := m["v"].(float64)
			switch m["ev"] {
			case "build":
				last, done, started = int(v), 0, 0
			case "built":
				done = int(v)
			case "start":
				started = int(v)
			}
		}
		if last != c || done != c {
			return false
		}
		switch kinds[c-1] {
		case "good":
			return started == c && len(al) == 1 && al[0] == c
		case "exits":
			return started == c && len(al) == 0
		}
		return len(al) == 0
	}
	quiet := func() bool {
		start := time.Now()
		since, size := time.Now(), -1
		for {
			l, al := read(), alive(root)
			if len(l) != size || !settled(l, al) {
				since, size = time.Now(), len(l)
			}
			if time.Since(since) > 30*time.Millisecond || time.Since(start) > 15*time.Second {
				w := 1
				if isDead() {
					w = 0
				}
				ok := settled(l, al) && w == 1
				if !ok {
					atomic.AddInt32(&stuck, 1)
				}
				b, _ := json.Marshal(M{"ev": "quiet", "alive": al, "watcher": w})
				logf.Write(append(b, '\n'))
				return ok
			}
			time.Sleep(2 * time.Millisecond)
		}
	}
	await := func(v int) { // until a build of version v goes on
		start := time.Now()
		for time.Since(start) < 15*time.Second && !isDead() {
			for _, m := range read() {
				if m["ev"] == "build" && m["v"] == float64(v) {
					return
				}
			}
			time.Sleep(time.Millisecond)
		}
	}
	for i, st := range s.Steps {
		if i > 0 {
			edit(st.Kind, hold(st.Mid), st.Back == 1)
		}
		held := len(kinds)
		if st.Mid != "" {
			await(held)
			edit(st.Mid, 0, rng.Intn(2) == 0)
			time.Sleep(time.Duration(rng.Intn(8)) * time.Millisecond)
			ck(ioutil.WriteFile(filepath.Join(root, fmt.Sprint("go-", held)), nil, 0644))
		}
		for _, k := range st.More {
			time.Sleep(time.Duration(rng.Intn(3000)) * time.Microsecond)
			edit(k, 0, rng.Intn(2) == 0)
		}
		if !quiet() {
			break
		}
	}
	base := strings.TrimSuffix(name, ".go")
	return append([]M{{"ev": "reset", "dir": srcDir, "file": name, "base": base, "args": args, "steps": s.Steps}}, read()...)
}

func ck(err error) {
	if err != nil {
		panic(err)
	}
}

// alive gives the versions that are running (as watchstub's Alive).
func alive(root string) []int {
	vs := []int{}
	fs, _ := ioutil.ReadDir(filepath.Join(root, "pids"))
	for _, f := range fs {
		var v, pid int
		fmt.Sscanf(f.Name(), "%d-%d", &v, &pid)
		stat, err := ioutil.ReadFile(fmt.Sprint("/proc/", pid, "/stat"))
		if err != nil {
			continue
		}
		rest := string(stat[strings.LastIndex(string(stat), ")")+2:])
		if rest[0] == 'Z' || rest[0] == 'X' {
			continue
		}
		cmd, err := ioutil.ReadFile(fmt.Sprint("/proc/", pid, "/cmdline"))
		if err != nil || !strings.Contains(string(cmd), fmt.Sprint("prog:", v, ":")) {
			continue
		}
		vs = append(vs, v)
	}
	return vs
}

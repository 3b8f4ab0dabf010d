// Stand-in for the programs that bruteray-watch runs: as "go" it builds, as
// "renice" it does nothing, and it is the program that was built (a script with
// this program as its interpreter). All write to one log.
package main

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"os/signal"
	"path/filepath"
	"strings"
	"syscall"
	"time"
)

type source struct {
	V    int    `json:"v"`
	Kind string `json:"kind"`
	Hold int    `json:"hold"`
}

var root = os.Getenv("WATCH_ROOT")

func emit(m map[string]interface{}) {
	b, _ := json.Marshal(m)
	f, err := os.OpenFile(filepath.Join(root, "log"), os.O_APPEND|os.O_WRONLY, 0)
	if err != nil {
		os.Exit(9)
	}
	f.Write(append(b, '\n'))
	f.Close()
}

func cwd() string {
	d, _ := os.Getwd()
	if r, err := filepath.EvalSymlinks(d); err == nil {
		d = r
	}
	return d
}

func main() {
	switch {
	case len(os.Args) > 2 && strings.HasPrefix(os.Args[1], "prog:"):
		prog()
	case filepath.Base(os.Args[0]) == "renice":
		if _, err := os.Stat(filepath.Join(root, "norenice")); err == nil {
			fmt.Fprintln(os.Stderr, "renice: no such process")
			os.Exit(1)
		}
	default:
		build()
	}
}

func build() {
	name := os.Args[len(os.Args)-1]
	out := ""
	for i, a := range os.Args {
		if a == "-o" {
			out = os.Args[i+1]
		}
	}
	abs := name
	if !filepath.IsAbs(abs) {
		abs = filepath.Join(cwd(), name)
	}
	text, err := ioutil.ReadFile(abs)
	var src source
	if err != nil || json.Unmarshal(text, &src) != nil {
		emit(map[string]interface{}{"ev": "nosource", "v": 0, "dir": filepath.Dir(abs), "file": filepath.Base(abs)})
		os.Exit(1)
	}
	emit(map[string]interface{}{"ev": "build", "v": src.V, "dir": filepath.Dir(abs), "file": filepath.Base(abs)})
	if src.Hold != 0 {
		for i := 0; i < 30000; i++ {
			if _, err := os.Stat(filepath.Join(root, fmt.Sprint("go-", src.V))); err == nil {
				break
			}
			time.Sleep(time.Millisecond)
		}
	}
	if src.Kind == "bad" {
		fmt.Fprintln(os.Stderr, "does not compile")
		emit(map[string]interface{}{"ev": "built", "v": src.V, "ok": 0})
		os.Exit(2)
	}
	if out == "" {
		out = filepath.Join(cwd(), strings.TrimSuffix(filepath.Base(abs), ".go"))
	}
	self, _ := os.Executable()
	mode := os.FileMode(0755)
	if src.Kind == "nostart" {
		if src.V%2 == 0 {
			self = "/nonexistent/interpreter"
		} else {
			mode = 0644
		}
	}
	tmp := out + ".tmp"
	ioutil.WriteFile(tmp, []byte(fmt.Sprintf("#!%s prog:%d:%s\n", self, src.V, src.Kind)), mode)
	os.Rename(tmp, out)
	emit(map[string]interface{}{"ev": "built", "v": src.V, "ok": 1})
}

func prog() {
	var v int
	var kind string
	p := strings.Split(os.Args[1], ":")
	fmt.Sscan(p[1], &v)
	kind = p[2]
	others := Alive(root)
	ioutil.WriteFile(filepath.Join(root, "pids", fmt.Sprint(v, "-", os.Getpid())), nil, 0644)
	if v%3 == 1 { // also programs that do not want to stop
		signal.Ignore(syscall.SIGINT, syscall.SIGTERM, syscall.SIGHUP, syscall.SIGQUIT)
	}
	args := append([]string{}, os.Args[3:]...)
	emit(map[string]interface{}{"ev": "start", "v": v, "args": args, "dir": cwd(), "others": others})
	if kind == "exits" {
		os.Exit(v % 2)
	}
	if v%3 == 0 {
		syscall.Setpgid(0, 0) // also programs that leave the terminal's group
	}
	time.Sleep(60 * time.Second)
}

// Alive gives the versions that are running.
func Alive(root string) []int {
	vs := []int{}
	fs, _ := ioutil.ReadDir(filepath.Join(root, "pids"))
	for _, f := range fs {
		var v, pid int
		fmt.Sscanf(f.Name(), "%d-%d", &v, &pid)
		stat, err := ioutil.ReadFile(fmt.Sprint("/proc/", pid, "/stat"))
		if err != nil {
			continue
		}
		rest := string(stat[strings.LastIndex(string(stat), ")")+2:])
		if rest[0] == 'Z' || rest[0] == 'X' {
			continue
		}
		cmd, err := ioutil.ReadFile(fmt.Sprint("/proc/", pid, "/cmdline"))
		if err != nil || !strings.Contains(string(cmd), fmt.Sprint("prog:", v, ":")) {
			continue
		}
		vs = append(vs, v)
	}
	return vs
}

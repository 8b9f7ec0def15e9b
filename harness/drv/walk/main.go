// Driver of cmd/autotidy and cmd/autoupdate (C36): runs the real commands over scratch trees with a stand-in go.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"
)

type entry struct {
	P    []string `json:"p"`
	Kind string   `json:"kind"`
}
type act struct {
	P    string
	Act  string
	Q    string
	Exit int
}
type job struct {
	tree            []entry
	top             string
	acts            []act
	noread, noenter [][]string
	how             string
}

func rel(p []string) string {
	if len(p) == 0 {
		return "."
	}
	return strings.Join(p, "/")
}

func fatal(a ...any) {
	fmt.Fprintln(os.Stderr, append([]any{"driver:"}, a...)...)
	os.Exit(3)
}

var unpriv = os.Getuid() == 0

func creds(c *exec.Cmd) {
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if unpriv {
		c.SysProcAttr.Credential = &syscall.Credential{Uid: 65534, Gid: 65534}
	}
}

// run builds the tree in a scratch directory, runs bin there and returns the trace.
func run(j job, scratch string, n int, bin, stubdir, args string) map[string]any {
	ctl := filepath.Join(scratch, fmt.Sprint("j", n))
	root := filepath.Join(ctl, "root", j.top)
	must := func(err error) {
		if err != nil {
			fatal(err)
		}
	}
	must(os.MkdirAll(root, 0o755))
	must(os.MkdirAll(filepath.Join(ctl, "elsewhere", "inner"), 0o755))
	for _, e := range j.tree {
		p := filepath.Join(root, rel(e.P))
		must(os.MkdirAll(filepath.Dir(p), 0o755))
		switch e.Kind {
		case "dir":
			must(os.MkdirAll(p, 0o755))
		case "file":
			must(os.WriteFile(p, []byte("module x\n"), 0o644))
		case "link":
			must(os.Symlink(filepath.Join(ctl, "elsewhere"), p))
		}
	}
	must(os.WriteFile(filepath.Join(ctl, "log"), nil, 0o666))
	b, _ := json.Marshal(j.acts)
	must(os.WriteFile(filepath.Join(ctl, "acts"), b, 0o644))
	if unpriv {
		filepath.Walk(ctl, func(p string, _ os.FileInfo, _ error) error { return os.Lchown(p, 65534, 65534) })
	}
	chmod := func(l [][]string, m os.FileMode) {
		for _, p := range l {
			must(os.Chmod(filepath.Join(root, rel(p)), m))
		}
	}
	chmod(j.noread, 0o311)
	chmod(j.noenter, 0o644)
	c := exec.Command(bin)
	c.Dir = root
	c.Env = []string{"PATH=" + stubdir, "VWALK_CTL=" + ctl, "VWALK_TOP=" + j.top, "HOME=" + ctl, "PWD=" + root}
	creds(c)
	end := "end"
	must(c.Start())
	ch := make(chan error, 1)
	go func() { ch <- c.Wait() }()
	select {
	case <-ch:
	case <-time.After(60 * time.Second):
		end = "hang"
		syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
		<-ch
	}
	var ev []any
	f, err := os.Open(filepath.Join(ctl, "log"))
	must(err)
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<24)
	for sc.Scan() {
		var e any
		must(json.Unmarshal(sc.Bytes(), &e))
		ev = append(ev, e)
	}
	f.Close()
	code := -1
	if c.ProcessState != nil {
		code = c.ProcessState.ExitCode()
	}
	ev = append(ev, map[string]any{"k": end, "code": code})
	chmod2 := filepath.Walk(ctl, func(p string, i os.FileInfo, _ error) error {
		if i != nil && i.IsDir() {
			os.Chmod(p, 0o755)
		}
		return nil
	})
	_ = chmod2
	os.RemoveAll(ctl)
	empty := func(l [][]string) [][]string {
		if l == nil {
			return [][]string{}
		}
		return l
	}
	tree := j.tree
	if tree == nil {
		tree = []entry{}
	}
	return map[string]any{"how": j.how, "name": filepath.Base(bin), "cfg": map[string]any{"tree": tree, "noread": empty(j.noread), "noenter": empty(j.noenter),
		"args": strings.Split(args, ",")}, "ev": ev}
}

var names = []string{"a", "b", "c", "vendor", ".git", "vendor", ".git", "vendor2", ".github", "Vendor", ".vendor", "git", "my vendor", ".hidden", "-x", "cmd", "go", "internal", "testdata", "node_modules", "_skip", "go.mod", "main.go", "日本",
	"vendor ", "VENDOR", "vendors", ".GIT", ".git~", ".gitmodules", "...", "*", "$HOME", "a\nb", "go.work", "examples", "third_party", "dist", "build", "~"}

// large is a deep or a wide tree.
func large(r *rand.Rand) job {
	j := job{how: "random", top: "top"}
	add := func(k string, p ...string) []string {
		j.tree = append(j.tree, entry{append([]string{}, p...), k})
		return p
	}
	if r.Intn(2) == 0 {
		var p []string
		for i := 9 + r.Intn(60); i > 0; i-- {
			n := names[r.Intn(len(names))]
			if n == "vendor" || n == ".git" {
				n = "d"
			}
			p = add("dir", append(p, n)...)
			if r.Intn(8) == 0 {
				add("dir", append(p, "vendor")...)
				add("dir", append(append([]string{}, p...), "vendor", "inner")...)
			}
			if r.Intn(8) == 0 {
				add("file", append(p, "go.mod.bak")...)
			}
		}
		return j
	}
	for i, n := 0, 30+r.Intn(300); i < n; i++ {
		d := fmt.Sprintf("%03d", r.Intn(1000)*1000+i)
		k := []string{"dir", "dir", "dir", "file"}[r.Intn(4)]
		add(k, d)
		if k == "dir" && r.Intn(3) == 0 {
			add("dir", d, names[r.Intn(len(names))])
		}
	}
	add("dir", strings.Repeat("n", 255))
	return j
}

func random(r *rand.Rand) job {
	j := job{how: "random", top: []string{"top", "top", "vendor", ".git", "a b"}[r.Intn(5)]}
	dirs := [][]string{{}}
	seen := map[string]bool{}
	for n := r.Intn(25); n > 0; n-- {
		d := dirs[r.Intn(len(dirs))]
		if r.Intn(3) == 0 {
			d = dirs[len(dirs)-1]
		}
		p := append(append([]string{}, d...), names[r.Intn(len(names))])
		if seen[rel(p)] || len(p) > 8 {
			continue
		}
		seen[rel(p)] = true
		k := []string{"dir", "dir", "dir", "file", "link"}[r.Intn(5)]
		if (p[len(p)-1] == "go.mod" || p[len(p)-1] == "main.go") && r.Intn(4) > 0 {
			k = "file"
		}
		j.tree = append(j.tree, entry{p, k})
		if k == "dir" {
			dirs = append(dirs, p)
		}
	}
	pick := func() []string { return dirs[1+r.Intn(len(dirs)-1)] }
	for _, d := range dirs {
		a := act{P: rel(d), Act: "none"}
		if r.Intn(3) == 0 {
			a.Exit = []int{1, 2, 127, -1}[r.Intn(4)]
		}
		if len(dirs) > 1 && r.Intn(12) == 0 {
			a.Act, a.Q = "rm", rel(pick())
		}
		if unpriv && len(dirs) > 1 && r.Intn(15) == 0 {
			a.Act, a.Q = "shut", rel(pick())
		}
		if a.Act != "none" || a.Exit != 0 {
			j.acts = append(j.acts, a)
		}
	}
	if unpriv && len(dirs) > 1 {
		if r.Intn(4) == 0 {
			j.noread = append(j.noread, pick())
		}
		if r.Intn(6) == 0 {
			p := pick()
			if len(j.noread) == 0 || rel(j.noread[0]) != rel(p) {
				j.noenter = append(j.noenter, p)
			}
		}
	}
	return j
}

func main() {
	trees := flag.String("trees", "", "trees, one JSON record per line")
	n := flag.Int("n", 100, "random trees")
	seed := flag.Int64("seed", 1, "")
	out := flag.String("out", "", "")
	scratch := flag.String("scratch", "", "")
	stub := flag.String("stub", "", "directory of the stand-in")
	bins := flag.String("bins", "", "command:args,args;...")
	budget := flag.Int("budget", 30, "seconds")
	flag.Parse()
	if unpriv {
		c := exec.Command(filepath.Join(*stub, "true"))
		creds(c)
		if err := c.Run(); err != nil {
			fmt.Fprintln(os.Stderr, "cannot become an unprivileged user:", err)
			unpriv = false
		}
	}
	r := rand.New(rand.NewSource(*seed))
	var jobs []job
	for i := 0; i < *n; i++ {
		if i%16 == 7 {
			jobs = append(jobs, large(r))
			continue
		}
		jobs = append(jobs, random(r))
	}
	nrand := len(jobs)
	f, err := os.Open(*trees)
	if err != nil {
		fatal(err)
	}
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<24)
	var enum []job
	for sc.Scan() {
		var t struct{ Tree []entry }
		if err := json.Unmarshal(sc.Bytes(), &t); err != nil {
			fatal(err)
		}
		enum = append(enum, job{tree: t.Tree, top: "top", how: "enumerated"})
	}
	r.Shuffle(len(enum), func(i, j int) { enum[i], enum[j] = enum[j], enum[i] })
	// random and enumerated trees take turns
	var all []job
	for i := 0; i < nrand || i < len(enum); i++ {
		if i < nrand {
			all = append(all, jobs[i])
		}
		if i < len(enum) {
			all = append(all, enum[i])
		}
	}
	end := time.Now().Add(time.Duration(*budget) * time.Second)
	var mu sync.Mutex
	var res []map[string]any
	next := 0
	var wg sync.WaitGroup
	tools := strings.Split(*bins, ";")
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				i := next
				next++
				mu.Unlock()
				if i >= len(all)*len(tools) || time.Now().After(end) {
					return
				}
				t := strings.SplitN(tools[i%len(tools)], ":", 2)
				x := run(all[i/len(tools)], *scratch, i, t[0], *stub, t[1])
				mu.Lock()
				res = append(res, x)
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	o, err := os.Create(*out)
	if err != nil {
		fatal(err)
	}
	e := json.NewEncoder(o)
	e.SetEscapeHTML(false)
	for _, x := range res {
		e.Encode(x)
	}
	o.Close()
}

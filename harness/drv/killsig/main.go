// Driver for osx/closex: every scenario runs in a child process of its own, which sends the signals to itself.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"os/exec"
	"os/signal"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/unsafe-risk/utilx/osx/closex"
)

type E map[string]any

// step: reg r; send s; pause; wait r (for its channel); poll r; open r (lets the handler of r return); entered r (waits for it to run)
type step struct {
	Op string
	R  int
	S  string
}

type scenario struct {
	Name  string
	Hold  []int // registrations whose handler waits for "open"
	Nest  int   // registration whose handler sends a signal itself
	Sync  bool  // registrations follow signals: wait until each signal has been delivered (this also keeps it from killing the process)
	Steps []step
}

var sigs = map[string]syscall.Signal{"INT": syscall.SIGINT, "QUIT": syscall.SIGQUIT, "TERM": syscall.SIGTERM, "WINCH": syscall.SIGWINCH, "URG": syscall.SIGURG}

func child(sc scenario) {
	var mu sync.Mutex
	out := json.NewEncoder(os.Stdout)
	add := func(ev E) {
		ev["t"], ev["now"] = 0, 0
		mu.Lock()
		out.Encode(ev)
		mu.Unlock()
	}
	sentinel := make(chan os.Signal, 64)
	if sc.Sync {
		signal.Notify(sentinel, syscall.SIGINT, syscall.SIGQUIT, syscall.SIGTERM)
	}
	send := func(s string) {
		add(E{"k": "send", "s": s})
		if err := syscall.Kill(os.Getpid(), sigs[s]); err != nil {
			panic(err)
		}
		if sc.Sync && s != "WINCH" && s != "URG" {
			<-sentinel
		}
	}
	chans := map[int]<-chan struct{}{}
	gates := map[int]chan struct{}{}
	entered := map[int]chan struct{}{}
	for _, r := range sc.Hold {
		gates[r] = make(chan struct{})
	}
	for r := 1; r <= 4; r++ {
		entered[r] = make(chan struct{})
	}
	var once [5]sync.Once
	logger := log.New(io.Discard, "", 0)
	for _, s := range sc.Steps {
		s := s
		switch s.Op {
		case "reg":
			// recorded before the call for the handler, which may not run before it
			add(E{"k": "reg", "r": s.R})
			chans[s.R] = closex.HandleKillSig(func() {
				add(E{"k": "hs", "r": s.R})
				once[s.R].Do(func() { close(entered[s.R]) })
				if s.R == sc.Nest {
					send("TERM")
				}
				if g := gates[s.R]; g != nil {
					<-g
				}
				time.Sleep(2 * time.Millisecond)
				add(E{"k": "he", "r": s.R})
			}, logger).C
		case "send":
			send(s.S)
		case "pause":
			time.Sleep(3 * time.Millisecond)
		case "idle":
			time.Sleep(250 * time.Millisecond)
			add(E{"k": "idle"})
		case "open":
			close(gates[s.R])
		case "entered":
			select {
			case <-entered[s.R]:
			case <-time.After(10 * time.Second):
				add(E{"k": "wait", "r": s.R, "ok": false})
			}
		case "wait":
			ok := false
			select {
			case _, open := <-chans[s.R]:
				ok = !open
			case <-time.After(10 * time.Second):
			}
			add(E{"k": "wait", "r": s.R, "ok": ok})
		case "poll":
			c := false
			// the observation lies between the two: record it only if it is certain
			select {
			case _, open := <-chans[s.R]:
				c = !open
				add(E{"k": "poll", "r": s.R, "closed": c})
			default:
				add(E{"k": "poll", "r": s.R, "closed": false})
			}
		}
	}
	add(E{"k": "fin"})
}

func main() {
	seed := flag.Int64("seed", 1, "")
	tier := flag.String("tier", "quick", "")
	outf := flag.String("out", "", "")
	one := flag.String("child", "", "")
	flag.Parse()
	if *one != "" {
		var sc scenario
		if err := json.Unmarshal([]byte(*one), &sc); err != nil {
			panic(err)
		}
		child(sc)
		return
	}
	scs := gen(rand.New(rand.NewSource(*seed)), *tier)
	f, err := os.Create(*outf)
	if err != nil {
		panic(err)
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for _, sc := range scs {
		sc := sc
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer func() { <-sem; wg.Done() }()
			j, _ := json.Marshal(sc)
			cmd := exec.Command(os.Args[0], "-child", string(j))
			cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
			var so, se bytes.Buffer
			cmd.Stdout, cmd.Stderr = &so, &se
			done := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
			err := cmd.Run()
			hung := !done.Stop()
			var ev []E
			for _, line := range strings.Split(so.String(), "\n") {
				var x E
				if json.Unmarshal([]byte(line), &x) == nil {
					ev = append(ev, x)
				}
			}
			if hung {
				ev = append(ev, E{"k": "hang", "t": 0, "now": 0, "why": "no end within 60 s"})
			} else if err != nil {
				w := se.String()
				if len(w) > 1500 {
					w = w[:1500]
				}
				ev = append(ev, E{"k": "panic", "t": 0, "now": 0, "why": err.Error() + " " + w})
			}
			b, _ := json.Marshal(E{"cfg": E{}, "ev": ev, "how": sc.Name})
			mu.Lock()
			f.Write(append(b, '\n'))
			mu.Unlock()
		}()
	}
	wg.Wait()
	f.Close()
}

func S(parts ...string) (r []step) {
	for _, p := range parts {
		var op, arg string
		fmt.Sscan(p, &op, &arg)
		s := step{Op: op, S: arg}
		fmt.Sscan(arg, &s.R)
		r = append(r, s)
	}
	return
}

func gen(r *rand.Rand, tier string) []scenario {
	mul := 1
	if tier == "thorough" {
		mul = 10
	}
	var out []scenario
	add := func(n string, hold []int, nest int, parts ...string) {
		out = append(out, scenario{n, hold, nest, strings.HasPrefix(n, "late"), S(parts...)})
	}
	for _, s := range []string{"INT", "QUIT", "TERM"} {
		add("one-"+s, nil, 0, "reg 1", "pause", "poll 1", "send "+s, "wait 1", "poll 1", "poll 1", "idle", "poll 1")
		add("again-"+s, nil, 0, "reg 1", "send "+s, "wait 1", "send "+s, "idle", "send INT", "send TERM", "idle", "poll 1")
		add("late-again-"+s, nil, 0, "reg 1", "send "+s, "wait 1", "reg 2", "idle", "send "+s, "wait 2", "idle", "poll 1")
		add("during-"+s, []int{1}, 0, "reg 1", "send "+s, "entered 1", "poll 1", "send "+s, "idle", "poll 1", "send TERM", "idle", "send QUIT", "poll 1", "open 1", "wait 1", "idle", "poll 1", "send "+s, "idle", "poll 1")
		add("burst-"+s, nil, 0, "reg 1", "send "+s, "send INT", "send QUIT", "send TERM", "send "+s, "wait 1", "idle", "poll 1")
	}
	add("none", nil, 0, "reg 1", "reg 2", "idle", "poll 1", "poll 2", "send WINCH", "send URG", "idle", "poll 1", "poll 2")
	add("other-first", nil, 0, "reg 1", "send WINCH", "send URG", "idle", "poll 1", "send INT", "wait 1")
	add("two", nil, 0, "reg 1", "reg 2", "send TERM", "wait 1", "wait 2", "send TERM", "idle", "poll 1", "poll 2")
	add("two-hold", []int{1}, 0, "reg 1", "reg 2", "send TERM", "wait 2", "poll 1", "send INT", "idle", "poll 1", "open 1", "wait 1", "idle")
	add("late", nil, 0, "reg 1", "send INT", "wait 1", "reg 2", "idle", "poll 2", "send QUIT", "wait 2", "idle", "poll 1", "reg 3", "send TERM", "wait 3", "idle")
	add("late-hold", []int{1, 2}, 0, "reg 1", "send INT", "entered 1", "reg 2", "idle", "poll 2", "send QUIT", "entered 2", "poll 1", "poll 2", "open 2", "wait 2", "poll 1", "open 1", "wait 1", "idle")
	add("nested", nil, 1, "reg 1", "send INT", "wait 1", "idle", "send INT", "idle")
	add("nested2", nil, 2, "reg 1", "reg 2", "reg 3", "send QUIT", "wait 1", "wait 2", "wait 3", "idle")
	for i := 0; i < 20*mul; i++ {
		sc := scenario{Name: fmt.Sprint("random", i), Sync: true}
		regs, sent := 0, false
		pend := map[int]bool{}
		hold := map[int]bool{}
		for k := 0; k < 12; k++ {
			switch x := r.Intn(8); {
			case regs == 0 || x == 0 && regs < 4:
				regs++
				if r.Intn(3) == 0 {
					sc.Hold = append(sc.Hold, regs)
					hold[regs] = true
				}
				sc.Steps = append(sc.Steps, step{Op: "reg", R: regs})
			case x < 4:
				sc.Steps = append(sc.Steps, step{Op: "send", S: []string{"INT", "QUIT", "TERM", "WINCH"}[r.Intn(4)]})
				sent = sent || sc.Steps[len(sc.Steps)-1].S != "WINCH"
				if sc.Steps[len(sc.Steps)-1].S != "WINCH" {
					for q := 1; q <= regs; q++ {
						pend[q] = true
					}
				}
			case x == 4:
				sc.Steps = append(sc.Steps, step{Op: "pause"})
			case x == 5:
				sc.Steps = append(sc.Steps, step{Op: "idle"})
			case x == 6:
				for q := 1; q <= regs; q++ {
					if pend[q] && hold[q] {
						sc.Steps = append(sc.Steps, step{Op: "entered", R: q}, step{Op: "poll", R: q}, step{Op: "open", R: q}, step{Op: "wait", R: q})
						hold[q] = false
						break
					}
				}
			default:
				q := 1 + r.Intn(regs)
				if pend[q] && !hold[q] {
					sc.Steps = append(sc.Steps, step{Op: "wait", R: q})
				}
			}
		}
		for q := 1; q <= regs; q++ {
			if hold[q] {
				sc.Steps = append(sc.Steps, step{Op: "open", R: q})
			}
			if pend[q] {
				sc.Steps = append(sc.Steps, step{Op: "wait", R: q})
			}
		}
		sc.Steps = append(sc.Steps, step{Op: "idle"})
		for q := 1; q <= regs; q++ {
			sc.Steps = append(sc.Steps, step{Op: "poll", R: q})
		}
		out = append(out, sc)
	}
	return out
}

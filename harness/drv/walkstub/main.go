// Stand-in for the go command in the checks of cmd/autotidy and cmd/autoupdate: it records where it was run and
// with what, and does the harm its control file asks for, inside the scratch tree only.
package main

import (
	"encoding/json"
	"os"
	"path/filepath"
	"strings"
	"syscall"
)

type act struct {
	P    string // directory, relative to the root
	Act  string // none, rm, shut
	Q    string
	Exit int // exit code, -1: killed
}

func parts(p string) []string {
	if p == "." || p == "" {
		return []string{}
	}
	return strings.Split(p, "/")
}

func main() {
	ctl := os.Getenv("VWALK_CTL")
	if ctl == "" {
		return
	}
	root := filepath.Join(ctl, "root", os.Getenv("VWALK_TOP"))
	cwd, err := os.Readlink("/proc/self/cwd")
	if err != nil {
		os.Exit(9)
	}
	rel, err := filepath.Rel(root, cwd)
	if err != nil || rel == ".." || strings.HasPrefix(rel, "../") {
		rel = "OUTSIDE/" + cwd
	}
	var acts []act
	b, _ := os.ReadFile(filepath.Join(ctl, "acts"))
	json.Unmarshal(b, &acts)
	h := act{Act: "none"}
	for _, a := range acts {
		if a.P == rel {
			h = a
		}
	}
	up := false
	for _, q := range parts(h.Q) {
		up = up || q == ".."
	}
	if h.Q != "" && !up {
		t := filepath.Join(root, h.Q)
		var err error
		switch h.Act {
		case "rm":
			if _, err = os.Lstat(t); err == nil {
				filepath.WalkDir(t, func(p string, d os.DirEntry, _ error) error {
					if d != nil && d.IsDir() {
						os.Chmod(p, 0o755)
					}
					return nil
				})
				err = os.RemoveAll(t)
			}
		case "shut":
			err = os.Chmod(t, 0)
		}
		if err != nil {
			h.Act = "none"
		}
	}
	line, _ := json.Marshal(map[string]any{"k": "run", "p": parts(rel), "a": os.Args[1:], "h": map[string]any{"act": h.Act, "q": parts(h.Q)}})
	f, err := os.OpenFile(filepath.Join(ctl, "log"), os.O_APPEND|os.O_WRONLY, 0)
	if err != nil {
		os.Exit(9)
	}
	f.Write(append(line, '\n'))
	f.Close()
	if h.Exit < 0 {
		syscall.Kill(os.Getpid(), syscall.SIGKILL)
	}
	os.Exit(h.Exit)
}

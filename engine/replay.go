package main

// Native replay: the harness and the (instrumented) repository compiled by the
// Go toolchain, run inside a testing/synctest bubble with the inputs of a
// model.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

type nativeBin struct {
	bin string
	err error
	dir string

	race bool // built with the race detector, without ordering points
}

func buildNative(repo, work string, files map[string]string, pkg string, names []string, race bool) *nativeBin {
	nb := &nativeBin{dir: work, race: race}
	var sb strings.Builder
	sb.WriteString(`package run

import (
	"encoding/json"
	"fmt"
	"os"
	"testing"
	"testing/synctest"
	"time"

	h "` + modPath + `/verifh/` + pkg + `"
	"` + ndPath + `"
)

var table = map[string]func(){
`)
	for _, n := range names {
		fmt.Fprintf(&sb, "\t%q: h.%s,\n", n, n)
	}
	sb.WriteString(`}

func TestReplay(t *testing.T) {
	b, err := os.ReadFile(os.Getenv("VERIF_REPLAY"))
	if err != nil {
		fmt.Println("REPLAY-ERROR", err)
		os.Exit(6)
	}
	var in struct {
		Harness string
		Inputs  map[string]string
	}
	if err := json.Unmarshal(b, &in); err != nil {
		fmt.Println("REPLAY-ERROR", err)
		os.Exit(6)
	}
	f := table[in.Harness]
	if f == nil {
		fmt.Println("REPLAY-ERROR no harness", in.Harness)
		os.Exit(6)
	}
	go func() {
		time.Sleep(10 * time.Second)
		fmt.Println("HANG")
		os.Exit(4)
	}()
	synctest.Test(t, func(t *testing.T) {
		nd.Setup(in.Inputs, synctest.Wait)
		f()
		fmt.Println("DONE")
		os.Exit(0)
	})
}
`)
	test := filepath.Join(work, "run_test.go")
	if err := os.WriteFile(test, []byte(sb.String()), 0o644); err != nil {
		nb.err = err
		return nb
	}
	rep := map[string]string{filepath.Join(repo, "verifh", "run", "run_test.go"): test}
	for v, r := range files {
		rep[v] = r
	}
	js, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	ov := filepath.Join(work, "overlay.json")
	if err := os.WriteFile(ov, js, 0o644); err != nil {
		nb.err = err
		return nb
	}
	nb.bin = filepath.Join(work, "replay.test")
	args := []string{"test", "-c", "-vet=off", "-overlay", ov, "-o", nb.bin}
	if modfile != "" {
		args = append(args, "-modfile="+modfile)
	}
	if race {
		args = append(args, "-race", "-gcflags="+modPath+"/...=-l")
	}
	cmd := exec.Command("go", append(args, modPath+"/verifh/run")...)
	cmd.Dir = repo
	cmd.Env = goEnv()
	if race {
		cmd.Env = append(cmd.Env, "CGO_ENABLED=1")
	}
	out, err := cmd.CombinedOutput()
	if err != nil {
		nb.err = fmt.Errorf("native build: %v: %s", err, trim(string(out), 2000))
	}
	return nb
}

func trim(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

type nativeResult struct {
	code int
	out  string
	obs  []string
	fail string // "", "assert ...", "panic ...", "deadlock", "hang", "assume", "error"
}

var replaySeq int
var replayMu sync.Mutex

func (nb *nativeBin) run(h string, inputs map[string]string, procs int) nativeResult {
	replayMu.Lock()
	replaySeq++
	f := filepath.Join(nb.dir, fmt.Sprintf("in%d.json", replaySeq))
	replayMu.Unlock()
	js, _ := json.Marshal(map[string]interface{}{"Harness": h, "Inputs": inputs})
	os.WriteFile(f, js, 0o644)
	defer os.Remove(f)
	ctx, cancel := context.WithTimeout(context.Background(), 25*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, nb.bin, "-test.run=TestReplay", "-test.timeout=0")
	env := goEnv()
	env = append(env, "VERIF_REPLAY="+f, "GODEBUG=asynctimerchan=0")
	if procs > 0 {
		env = append(env, fmt.Sprintf("GOMAXPROCS=%d", procs))
	}
	if nb.race {
		env = append(env, "GORACE=halt_on_error=0 exitcode=0")
	}
	cmd.Env = env
	var buf bytes.Buffer
	cmd.Stdout = &buf
	cmd.Stderr = &buf
	err := cmd.Run()
	r := nativeResult{out: buf.String()}
	if cmd.ProcessState != nil {
		r.code = cmd.ProcessState.ExitCode()
	}
	for _, l := range strings.Split(r.out, "\n") {
		if strings.HasPrefix(l, "OBS ") {
			r.obs = append(r.obs, l[4:])
		}
	}
	if nb.race {
		if at := repoRace(r.out); at != "" {
			r.fail = "race " + at
			return r
		}
	}
	if err == nil {
		return r
	}
	switch {
	case r.code == 3:
		r.fail = "assert"
		for _, l := range strings.Split(r.out, "\n") {
			if strings.HasPrefix(l, "ASSERT-FAILED ") {
				r.fail = "assert " + l[len("ASSERT-FAILED "):]
			}
		}
	case r.code == 4 || ctx.Err() != nil:
		r.fail = "hang"
	case r.code == 5:
		r.fail = "assume"
	case strings.Contains(r.out, "deadlock:") || strings.Contains(r.out, "all goroutines are asleep"):
		r.fail = "deadlock"
	case strings.Contains(r.out, "panic:") || strings.Contains(r.out, "fatal error:"):
		r.fail = "panic"
		for _, l := range strings.Split(r.out, "\n") {
			if strings.HasPrefix(strings.TrimSpace(l), "panic:") || strings.HasPrefix(l, "fatal error:") {
				r.fail = "panic " + strings.TrimSpace(l)
				break
			}
		}
	default:
		r.fail = "error"
	}
	return r
}

// confirms reports whether a native outcome reproduces a violation.
func confirms(v *Violation, r nativeResult) bool {
	switch {
	case v.kind == "race":
		return strings.HasPrefix(r.fail, "race") || strings.Contains(r.fail, "concurrent map")
	case strings.HasPrefix(r.fail, "assert"), strings.HasPrefix(r.fail, "panic"):
		return true
	case r.fail == "deadlock":
		return true
	case r.fail == "hang":
		return v.kind == "deadlock" || v.kind == "livelock"
	}
	return false
}

// repoRace finds a report of the race detector whose two accesses are both the
// repository's, and names them.
func repoRace(out string) string {
	for _, blk := range strings.Split(out, "==================") {
		if !strings.Contains(blk, "WARNING: DATA RACE") {
			continue
		}
		var at []string
		own := false
		lines := strings.Split(blk, "\n")
		for i, l := range lines {
			if !strings.Contains(l, " at 0x") || !(strings.Contains(l, "ead at") || strings.Contains(l, "rite at")) {
				continue
			}
			leaf := false // the report may leave out the function that calls one of these
			for _, f := range lines[i+1:] {
				f = strings.TrimSpace(f)
				if f == "" {
					break
				}
				leaf = leaf || strings.HasPrefix(f, "sync/atomic.") || strings.HasPrefix(f, "runtime.map")
				if !strings.HasPrefix(f, modPath) {
					continue // a position, or a library's code
				}
				if strings.Contains(f, "/verifh/") {
					if strings.Contains(f, "/verifh/c34.") && (leaf || strings.Contains(f, "(*sock)")) {
						at = append(at, f)
					}
				} else {
					at = append(at, f)
					own = true
				}
				break
			}
		}
		if len(at) == 2 && own {
			return strings.Join(at, ", ")
		}
	}
	return ""
}

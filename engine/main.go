package main

// Check driver: verifeng -property C01 [-tier quick|thorough] [-only CheckX]

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type tierConf struct {
	Seconds int // per harness function
	Paths   int
}

type checkConf struct {
	Harness     string   `json:"harness"`
	Bounds      string   `json:"bounds"`
	Assumptions []string `json:"assumptions"`
	Quick       tierConf `json:"quick"`
	Thorough    tierConf `json:"thorough"`
	Extra       []string `json:"extra_packages"` // further harness packages to lay over
	Instr       []string `json:"instrument"`     // further package dirs of the repo to instrument
	Standin     []string `json:"standin"`        // module=dir: dependencies replaced by the directories of standin
}

type knownFinding struct{ prop, harness, match, text string }

func readKnown(path, prop string) []knownFinding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=C01 harness=CheckX match="..." text
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		var k knownFinding
		rest := l[len("known: "):]
		for _, key := range []string{"property=", "harness="} {
			if strings.HasPrefix(rest, key) {
				f := strings.SplitN(rest[len(key):], " ", 2)
				if key == "property=" {
					k.prop = f[0]
				} else {
					k.harness = f[0]
				}
				rest = ""
				if len(f) > 1 {
					rest = f[1]
				}
			}
		}
		if strings.HasPrefix(rest, "match=") {
			q, err := strconv.QuotedPrefix(rest[len("match="):])
			if err != nil {
				continue
			}
			k.match, _ = strconv.Unquote(q)
			rest = strings.TrimSpace(rest[len("match=")+len(q):])
		}
		k.text = rest
		if k.prop == prop && k.match != "" {
			out = append(out, k)
		}
	}
	return out
}

var thorough bool

func main() {
	prop := flag.String("property", "", "property id")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	only := flag.String("only", "", "run only this harness function")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	workers := flag.Int("workers", 8, "workers")
	noNative := flag.Bool("nonative", false, "skip native validation (development)")
	seconds := flag.Int("seconds", 0, "override the per-harness time budget")
	verbose := flag.Bool("v", false, "verbose")
	flag.Parse()
	if *tier != "thorough" {
		*tier = "quick"
	}
	thorough = *tier == "thorough"
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))

	var confs map[string]checkConf
	b, err := os.ReadFile(filepath.Join(*verif, "checks.json"))
	if err == nil {
		err = json.Unmarshal(b, &confs)
	}
	if err != nil {
		fmt.Println("ERROR", err)
		os.Exit(2)
	}
	conf, ok := confs[*prop]
	if !ok {
		fmt.Println("ERROR unknown property", *prop)
		os.Exit(2)
	}
	tc := conf.Quick
	if thorough {
		tc = conf.Thorough
	}
	if tc.Seconds == 0 {
		tc.Seconds = 60
		if thorough {
			tc.Seconds = 600
		}
	}
	if *seconds > 0 {
		tc.Seconds = *seconds
	}
	if tc.Paths == 0 {
		tc.Paths = 2_000_000
	}

	work, err := os.MkdirTemp("", "verif-"+*prop+"-")
	if err != nil {
		fmt.Println("ERROR", err)
		os.Exit(2)
	}
	code := 0
	defer func() {
		os.RemoveAll(work)
		os.Exit(code)
	}()

	ev := &evidence{Property: *prop, Tier: *tier, Seed: seed, Level: "model_checking", Assumptions: conf.Assumptions}
	finish := func() {
		ev.Wall = time.Since(t0).Seconds()
		ev.write(filepath.Join(*verif, "evidence", *prop+".json"))
	}

	files, err := overlayFiles(*repo, filepath.Join(*verif, "harness"), append([]string{"nd", "hx", conf.Harness}, conf.Extra...))
	if err != nil {
		fmt.Println("ERROR", err)
		code = 2
		return
	}
	plain := map[string]string{}
	for k, v := range files {
		plain[k] = v
	}
	points := 0
	for i, d := range append([]string{"."}, conf.Instr...) {
		sub := filepath.Join(work, fmt.Sprintf("i%d", i))
		os.Mkdir(sub, 0o755)
		in, n, err := instrumentDir(filepath.Join(*repo, d), sub)
		if err != nil {
			ev.undecided("the current tree could not be parsed: " + err.Error())
			finish()
			fmt.Println("NOT-DECIDED", err)
			return
		}
		points += n
		for k, v := range in {
			files[k] = v
		}
	}
	if len(conf.Standin) > 0 {
		if modfile, err = standinMod(*repo, filepath.Join(*verif, "standin"), work, conf.Standin); err != nil {
			fmt.Println("ERROR", err)
			code = 2
			return
		}
	}
	hp := modPath + "/verifh/" + conf.Harness
	e, err := load(*repo, files, []string{hp})
	if err != nil {
		ev.undecided("the harness does not type-check against the current tree: " + err.Error())
		finish()
		fmt.Println("NOT-DECIDED", err)
		return
	}
	hs := e.harnesses(hp)
	var names []string
	for _, h := range hs {
		names = append(names, h.name)
	}
	// native build in the background
	nbCh := make(chan *nativeBin, 1)
	if !*noNative {
		go func() { nbCh <- buildNative(*repo, work, files, conf.Harness, names, false) }()
	}
	loadT := time.Since(t0)

	var ms []*Machine
	for i := 0; i < *workers; i++ {
		ms = append(ms, newMachine(e))
	}
	ev.cov.PointsInserted = points
	var jobs []*Job
	for _, h := range hs {
		if *only != "" && h.name != *only {
			continue
		}
		j := e.runJob(h, Limits{Steps: 3_000_000, Paths: tc.Paths, Seconds: tc.Seconds, VirtualSec: 3600}, ms)
		jobs = append(jobs, j)
		fmt.Printf("%-28s paths=%d steps=%d obligations=%d queries=%d solver=%.1fs violations=%d points=%d %.1fs\n", h.name, j.Paths, j.Steps, j.Asserts, j.Stats.Queries, j.Stats.Time.Seconds(), len(j.Viols), j.MaxPoints, j.Elapsed.Seconds())
		for _, c := range j.cutList() {
			fmt.Println("   bound:", trim(c, 600))
		}
		if un := e.unreached(h, j); len(un) > 0 {
			fmt.Println("   unreached:", un)
			ev.cov.Unreached = append(ev.cov.Unreached, h.name+": "+strings.Join(un, ", "))
		}
		if *verbose {
			fmt.Println("   reached:", j.Reached)
			for i, v := range j.Viols {
				if i < 5 {
					js, _ := json.Marshal(v)
					fmt.Println("   viol:", string(js))
				}
			}
		}
	}
	for _, m := range ms {
		m.sol.close()
		m.small.close()
	}
	ev.fill(e, jobs, ms, conf, loadT)
	if *verbose && len(e.partial) > 0 {
		fmt.Println("partial package inits:", e.partial)
	}

	known := readKnown(filepath.Join(*verif, "known_findings.txt"), *prop)
	printed := map[string]bool{}
	if !*noNative {
		nb := <-nbCh
		if nb.err != nil {
			fmt.Println("native build failed:", nb.err)
			ev.cov.Notes = append(ev.cov.Notes, nb.err.Error())
		} else {
			validated, mism := validate(nb, jobs, *verbose)
			ev.cov.Validated = validated
			ev.cov.Mismatch = mism
			var rb *nativeBin
			for _, j := range jobs {
				for _, v := range distinct(j.Viols) {
					if v.kind == "race" && rb == nil {
						sub := filepath.Join(work, "race")
						os.Mkdir(sub, 0o755)
						rb = buildNative(*repo, sub, plain, conf.Harness, names, true)
						if rb.err != nil {
							fmt.Println("native build failed:", rb.err)
							ev.cov.Notes = append(ev.cov.Notes, rb.err.Error())
						}
					}
					var r nativeResult
					var ok bool
					if v.kind == "race" {
						r, ok = reproduceRace(rb, j.Viols, v)
					} else {
						r, ok = reproduce(nb, j.Viols, v)
					}
					if !ok && v.kind == "livelock" {
						continue // it only took more steps than the bound
					}
					if !ok {
						ev.cov.Unconfirmed = append(ev.cov.Unconfirmed, v.Harness+": "+v.Msg)
						fmt.Println("UNCONFIRMED", v.Harness, trim(v.Msg, 300), "native:", r.fail)
						if *verbose {
							fmt.Println(strings.Join(v.Steps, "\n"))
							fmt.Println(trim(r.out, 3000))
						}
						continue
					}
					isKnown := false
					for _, k := range known {
						if (k.harness == "" || k.harness == v.Harness) && strings.Contains(v.Msg, k.match) {
							isKnown = true
							if !printed[k.text] {
								printed[k.text] = true
								fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k.text)
							}
						}
					}
					if isKnown {
						continue
					}
					rp := filepath.Join(*verif, "evidence", fmt.Sprintf("replay-%s-%d.json", *prop, ev.Violations))
					js, _ := json.MarshalIndent(map[string]interface{}{"property": *prop, "Harness": v.Harness, "message": v.Msg, "Inputs": v.Inputs, "steps": v.Steps, "native": r.fail, "native_output": trim(r.out, 4000)}, "", " ")
					os.MkdirAll(filepath.Dir(rp), 0o755)
					os.WriteFile(rp, js, 0o644)
					ev.Violations++
					code = 1
					fmt.Printf("  %s: %s (native: %s)\n", v.Harness, trim(v.Msg, 500), r.fail)
					fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, rp)
				}
			}
		}
	}
	finish()
	fmt.Printf("%s %s: %s in %.1fs\n", *prop, *tier, map[int]string{0: "held within bounds", 1: "VIOLATED"}[code], time.Since(t0).Seconds())
}

// distinct picks one violation per message.
func distinct(vs []*Violation) []*Violation {
	seen := map[string]bool{}
	var out []*Violation
	for _, v := range vs {
		k := v.key()
		if !seen[k] && len(out) < 6 {
			seen[k] = true
			out = append(out, v)
		}
	}
	return out
}

func stripDigits(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= '0' && r <= '9' {
			return -1
		}
		return r
	}, s)
}

// reproduceRace runs candidates of the same race under the race detector, each
// several times.
func reproduceRace(nb *nativeBin, all []*Violation, v *Violation) (nativeResult, bool) {
	var last nativeResult
	if nb.err != nil {
		return last, false
	}
	var same []*Violation
	for _, w := range all {
		if w.key() == v.key() {
			same = append(same, w)
		}
	}
	const runs = 64
	for done := 0; done < runs; done += 8 {
		rs := make([]nativeResult, 8)
		cs := make([]*Violation, 8)
		var wg sync.WaitGroup
		for i := range rs {
			w := same[((done+i)*7)%len(same)]
			d := *w
			d.Inputs = map[string]string{"raw": strconv.Itoa(done + i + 1)}
			for k, x := range w.Inputs {
				if !strings.HasPrefix(k, "sched/") {
					d.Inputs[k] = x
				}
			}
			cs[i] = &d
			wg.Add(1)
			go func() {
				defer wg.Done()
				rs[i] = nb.run(d.Harness, d.Inputs, 4)
			}()
		}
		wg.Wait()
		for i, r := range rs {
			last = r
			if confirms(v, r) {
				v.Inputs, v.Steps = cs[i].Inputs, cs[i].Steps
				return r, true
			}
		}
	}
	return last, false
}

// reproduce replays candidates of the same violation, spread over the ones found.
func reproduce(nb *nativeBin, all []*Violation, v *Violation) (nativeResult, bool) {
	var same []*Violation
	for _, w := range all {
		if w.key() == v.key() {
			same = append(same, w)
		}
	}
	const max = 16
	cands := same
	if len(same) > max {
		cands = nil
		for i := 0; i < max; i++ {
			cands = append(cands, same[i*(len(same)-1)/(max-1)])
		}
	}
	type result struct {
		c  *Violation
		r  nativeResult
		ok bool
	}
	var last result
	for tries := 0; tries < 3; tries++ {
		rs := make([]result, len(cands))
		var wg sync.WaitGroup
		sem := make(chan struct{}, 4)
		for i, c := range cands {
			wg.Add(1)
			sem <- struct{}{}
			go func() {
				defer func() { <-sem; wg.Done() }()
				procs := 1
				if tries == 1 {
					procs = 0
				}
				d := *c
				if tries != 1 {
					d.Inputs = map[string]string{"hold": "1"}
					for k, v := range c.Inputs {
						d.Inputs[k] = v
					}
				}
				r := nb.run(c.Harness, d.Inputs, procs)
				rs[i] = result{&d, r, confirms(c, r)}
			}()
		}
		wg.Wait()
		for _, r := range rs {
			last = r
			if r.ok {
				v.Inputs, v.Steps = r.c.Inputs, r.c.Steps
				return r.r, true
			}
		}
	}
	return last.r, false
}

// validate runs sample paths natively and compares the observations.
func validate(nb *nativeBin, jobs []*Job, verbose bool) (int, []string) {
	type task struct {
		h string
		s *sample
	}
	var ts []task
	for _, j := range jobs {
		step := 1
		max := 6
		if thorough {
			max = 24
		}
		if len(j.Samples) > max {
			step = len(j.Samples) / max
		}
		n := 0
		for i := 0; i < len(j.Samples) && n < max; i += step {
			ts = append(ts, task{j.h.name, j.Samples[i]})
			n++
		}
	}
	var mu sync.Mutex
	ok := 0
	var mism []string
	sem := make(chan struct{}, 8)
	var wg sync.WaitGroup
	for _, t := range ts {
		wg.Add(1)
		sem <- struct{}{}
		go func(t task) {
			defer wg.Done()
			defer func() { <-sem }()
			var r nativeResult
			good := false
			for try := 0; try < 3 && !good; try++ {
				r = nb.run(t.h, t.s.inputs, 1)
				good = r.fail == "" && strings.Join(r.obs, "\n") == strings.Join(t.s.obs, "\n")
			}
			mu.Lock()
			defer mu.Unlock()
			if good {
				ok++
			} else {
				mism = append(mism, t.h)
				if verbose {
					in, _ := json.Marshal(t.s.inputs)
					fmt.Printf("MISMATCH %s %s\n engine: %v\n native: %v %s\n%s\n", t.h, in, t.s.obs, r.obs, r.fail, trim(r.out, 1500))
				}
			}
		}(t)
	}
	wg.Wait()
	sort.Strings(mism)
	if len(mism) > 0 {
		fmt.Println("   model/native mismatches:", len(mism), mism)
	}
	return ok, mism
}

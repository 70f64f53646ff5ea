package main

import (
	"encoding/json"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type coverage struct {
	States         int                    `json:"states"`
	Transitions    int64                  `json:"transitions"`
	Validated      int                    `json:"traces_validated_against_impl"`
	Samples        []interface{}          `json:"samples"`
	Explanation    string                 `json:"explanation"`
	Functions      []string               `json:"functions_encoded"`
	Bounds         string                 `json:"bounds"`
	Harnesses      map[string]interface{} `json:"harnesses"`
	Queries        int                    `json:"solver_queries"`
	Sat            int                    `json:"solver_sat"`
	Unsat          int                    `json:"solver_unsat"`
	Unknown        int                    `json:"solver_unknown"`
	SolverS        float64                `json:"solver_time_s"`
	Obligations    int                    `json:"obligations"`
	Trivial        int                    `json:"obligations_discharged_by_simplification"`
	Decisions      int64                  `json:"symbolic_decisions"`
	Switches       int64                  `json:"context_switches"`
	PointsInserted int                    `json:"delay_points_in_source"`
	Exhaustive     bool                   `json:"exhaustive"`
	Cuts           []string               `json:"reduced_bounds,omitempty"`
	Unreached      []string               `json:"unreached_witnesses,omitempty"`
	Unconfirmed    []string               `json:"unconfirmed_counterexamples,omitempty"`
	Mismatch       []string               `json:"native_mismatches,omitempty"`
	Notes          []string               `json:"notes,omitempty"`
	Solver         string                 `json:"solver"`
	LoadS          float64                `json:"load_s"`
}

type evidence struct {
	Property    string   `json:"property"`
	Tier        string   `json:"tier"`
	Seed        int      `json:"seed"`
	Level       string   `json:"level"`
	Coverage    coverage `json:"coverage"`
	Assumptions []string `json:"assumptions"`
	Wall        float64  `json:"wall_s"`
	Violations  int      `json:"violations"`
	cov         coverage
}

func (ev *evidence) undecided(why string) {
	ev.cov.Explanation = "not decided: " + why
	ev.cov.Notes = append(ev.cov.Notes, why)
}

func (ev *evidence) fill(e *Engine, jobs []*Job, ms []*Machine, conf checkConf, loadT time.Duration) {
	c := &ev.cov
	c.Explanation = "Symbolic execution of the SSA of the current tree; states = symbolic paths (each stands for all inputs satisfying its path condition), transitions = SSA instructions executed symbolically; every branch and assertion decided by the SMT solver."
	c.Bounds = conf.Bounds
	c.Solver = solverBin
	c.LoadS = loadT.Seconds()
	c.Harnesses = map[string]interface{}{}
	c.Exhaustive = true
	c.Samples = []interface{}{}
	for _, j := range jobs {
		c.States += j.Done + len(j.Viols)
		c.Transitions += j.Steps
		c.Queries += j.Stats.Queries
		c.Sat += j.Stats.SatN
		c.Unsat += j.Stats.UnsatN
		c.Unknown += j.Stats.UnknownN
		c.SolverS += j.Stats.Time.Seconds()
		c.Obligations += j.Asserts
		c.Trivial += j.Trivial
		c.Decisions += j.Decisions
		c.Switches += j.Switches
		for _, x := range j.cutList() {
			c.Cuts = append(c.Cuts, j.h.name+": "+trim(x, 300))
			c.Exhaustive = false
		}
		c.Harnesses[j.h.name] = map[string]interface{}{"paths": j.Paths, "completed": j.Done, "infeasible": j.Infeasible, "obligations": j.Asserts, "queries": j.Stats.Queries, "reached": j.Reached, "delay_points_max": j.MaxPoints, "elapsed_s": j.Elapsed.Seconds()}
		for i, s := range j.Samples {
			if i < 2 && len(c.Samples) < 12 {
				c.Samples = append(c.Samples, map[string]interface{}{"harness": j.h.name, "inputs": s.inputs, "observations": s.obs})
			}
		}
	}
	fns := map[string]bool{}
	for _, m := range ms {
		for f := range m.touched {
			fns[strings.ReplaceAll(f.String(), modPath, "neffos")] = true
		}
	}
	for f := range fns {
		c.Functions = append(c.Functions, f)
	}
	sort.Strings(c.Functions)
	for p, why := range e.partial {
		c.Notes = append(c.Notes, "package "+p+" initialised partially: "+trim(why, 200))
	}
	sort.Strings(c.Notes)
}

func (ev *evidence) write(path string) {
	os.MkdirAll(filepath.Dir(path), 0o755)
	if ev.cov.Samples == nil {
		ev.cov.Samples = []interface{}{}
	}
	ev.Coverage = ev.cov
	if ev.Assumptions == nil {
		ev.Assumptions = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(path, append(b, '\n'), 0o644)
}

// unreached lists the Reach labels of the harness package's function that no
// path reached.
func (e *Engine) unreached(h harness, j *Job) []string {
	var out []string
	seen := map[*ssa.Function]bool{}
	labels := map[string]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, a := range f.AnonFuncs {
			walk(a)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				s := c.Common().StaticCallee()
				if s == nil {
					continue
				}
				if s.String() == ndPath+".Reach" {
					if k, ok := c.Common().Args[0].(*ssa.Const); ok {
						labels[strings.Trim(k.Value.ExactString(), `"`)] = true
					}
				} else if s.Pkg == h.fn.Pkg {
					walk(s)
				}
			}
		}
	}
	walk(h.fn)
	for l := range labels {
		if j.Reached[l] == 0 {
			out = append(out, l)
		}
	}
	sort.Strings(out)
	return out
}

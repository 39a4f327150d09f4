package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"time"
)

// FnReport is the outcome for one function under contract.
type FnReport struct {
	Fn          string         `json:"function"`
	Pos         string         `json:"position"`
	Contract    string         `json:"contract"`
	Status      string         `json:"status"` // proved, failed, undecided
	Reason      string         `json:"reason,omitempty"`
	Obligations []ObJSON       `json:"obligations"`
	VCs         int            `json:"vcs"`
	Discharged  int            `json:"discharged"`
	Solvers     map[string]int `json:"solvers"`
	Assumptions []string       `json:"assumptions"`
	Inlined     []string       `json:"inlined"`
	Called      []string       `json:"called_by_contract"`
	SolverTime  float64        `json:"solver_seconds"`
	WallTime    float64        `json:"wall_seconds"`
	Queries     int            `json:"queries"`
	Paths       int            `json:"paths"`
}

type ObJSON struct {
	Name   string   `json:"name"`
	Pos    string   `json:"pos,omitempty"`
	VCs    int      `json:"vcs"`
	Ok     bool     `json:"ok"`
	Why    string   `json:"why,omitempty"`
	Goal   string   `json:"goal,omitempty"`
	Path   []string `json:"path,omitempty"`
	Model  string   `json:"model,omitempty"`
	Script string   `json:"script,omitempty"`
}

func verifyOne(p *Program, cs *Contracts, key string, budget time.Duration) (rep *FnReport) {
	ct := cs.Funcs[key]
	rep = &FnReport{Fn: key, Contract: ct.File, Status: "undecided", Solvers: map[string]int{}}
	t0 := time.Now()
	fn := p.funcs[key]
	if fn == nil {
		rep.Reason = "function " + key + " is under contract but does not exist"
		return
	}
	q := p.fset.Position(fn.Pos())
	rep.Pos = fmt.Sprintf("%s:%d", q.Filename[strings.LastIndex(q.Filename, "/")+1:], q.Line)
	if len(fn.Params) != len(ct.Params) {
		rep.Reason = fmt.Sprintf("%s has %d parameters, its contract %d", key, len(fn.Params), len(ct.Params))
		return
	}
	x := newEng(p, cs)
	x.prop = cs.Prop
	x.deadline = t0.Add(budget)
	x.maxPaths = 200000
	defer x.s.close()
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case abortErr:
				rep.Reason = r.msg
			case unsupported:
				rep.Reason = "not supported: " + string(r) + " at " + x.pos(x.curInstr)
			case specErr:
				rep.Reason = "contract: " + r.msg
			default:
				rep.Reason = fmt.Sprintf("internal error: %v", r)
				if os.Getenv("GOVC_TRACE") != "" {
					fmt.Fprintln(os.Stderr, string(debug.Stack()))
				}
			}
			if os.Getenv("GOVC_STACK") != "" {
				fmt.Fprintln(os.Stderr, string(debug.Stack()))
			}
			rep.Status = "undecided"
		}
		for _, o := range x.sortedObs() {
			j := ObJSON{Name: o.Name, Pos: o.Pos, VCs: o.VCs, Ok: !o.Failed, Why: o.Why}
			if o.Failed {
				j.Goal, j.Path, j.Model, j.Script = o.Text, o.Path, o.Model, trunc(o.Script, 200000)
			} else {
				rep.Discharged++
			}
			rep.VCs += o.VCs
			for k, v := range o.Solver {
				rep.Solvers[k] += v
			}
			rep.Obligations = append(rep.Obligations, j)
		}
		rep.Assumptions = sortedKeys(x.assumps)
		rep.Inlined = sortedKeys(x.inlined)
		rep.Called = sortedKeys(x.called)
		rep.SolverTime = x.s.Time.Seconds()
		rep.WallTime = time.Since(t0).Seconds()
		rep.Queries = x.s.Queries
		rep.Paths = x.paths + 1
	}()
	x.verifyFn(ct, fn)
	if len(x.vacuous) > 0 {
		rep.Reason = "vacuous: " + strings.Join(sortedKeys(x.vacuous), ", ")
		return
	}
	if x.failed {
		rep.Status = "failed"
		return
	}
	rep.Status = "proved"
	return
}

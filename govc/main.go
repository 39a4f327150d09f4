package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"time"
)

func main() {
	repo := flag.String("repo", "/repo", "package directory")
	dir := flag.String("contracts", "/verif/contracts", "contract files")
	prop := flag.String("prop", "", "verify the functions of this property")
	one := flag.String("fn", "", "verify these functions (comma separated)")
	out := flag.String("out", "", "write the report here")
	budget := flag.Int("budget", 120, "seconds per function")
	list := flag.Bool("list", false, "list functions")
	jobs := flag.Int("j", 8, "parallel functions")
	ssaFn := flag.String("ssa", "", "print the SSA of a function")
	flag.Parse()
	t0 := time.Now()
	p, err := loadProgram(*repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(3)
	}
	load := time.Since(t0)
	if *ssaFn != "" {
		p.funcs[*ssaFn].WriteTo(os.Stdout)
		return
	}
	cs, err := loadContracts(*dir)
	if err != nil {
		fmt.Fprintln(os.Stderr, "contracts:", err)
		os.Exit(3)
	}
	if err := cs.add("generated", decoderContracts(p, cs)); err != nil {
		fmt.Fprintln(os.Stderr, "generated contracts:", err)
		os.Exit(3)
	}
	cs.Prop = *prop
	cs.keepProp()
	order := cs.Order[:0]
	for _, k := range cs.Order {
		ct := cs.Funcs[k]
		if fn := p.funcs[k]; ct.Helper && (fn == nil || len(fn.Params) != len(ct.Params) || fn.Signature.Results().Len() != len(ct.Results)) {
			delete(cs.Funcs, k)
			continue
		}
		order = append(order, k)
	}
	cs.Order = order
	if *list {
		for _, k := range p.funcNames() {
			m := "  "
			if cs.Funcs[k] != nil {
				m = "* "
			}
			fmt.Println(m + k)
		}
		return
	}
	var keys []string
	if *one != "" {
		keys = strings.Split(*one, ",")
	} else {
		for _, k := range cs.Order {
			for _, q := range cs.Funcs[k].Props {
				if q == *prop || *prop == "" {
					keys = append(keys, k)
					break
				}
			}
		}
	}
	var reps []*FnReport
	done := map[string]bool{}
	for len(keys) > 0 {
		var todo []string
		for _, k := range keys {
			if !done[k] && !cs.Funcs[k].Assumed {
				done[k] = true
				todo = append(todo, k)
			}
		}
		res := make([]*FnReport, len(todo))
		var wg sync.WaitGroup
		sem := make(chan struct{}, *jobs)
		for i, k := range todo {
			wg.Add(1)
			go func(i int, k string) {
				defer wg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				res[i] = verifyOne(p, cs, k, time.Duration(*budget)*time.Second)
			}(i, k)
		}
		wg.Wait()
		reps = append(reps, res...)
		keys = nil
		if *one == "" {
			for _, r := range res {
				for _, c := range r.Called {
					if !done[c] {
						keys = append(keys, c)
					}
				}
			}
		}
	}
	sort.Slice(reps, func(i, j int) bool { return reps[i].Fn < reps[j].Fn })
	bad := 0
	for _, r := range reps {
		if r.Status != "proved" {
			bad++
		}
		fmt.Printf("%-9s %-40s %4d/%4d obligations %5d vcs %6.2fs %5d paths %s\n", r.Status, r.Fn, r.Discharged, len(r.Obligations), r.VCs, r.WallTime, r.Paths, r.Reason)
		for _, o := range r.Obligations {
			if !o.Ok {
				fmt.Printf("    FAILED %s (%s): %s\n", o.Name, o.Pos, o.Why)
			}
		}
	}
	if *out != "" {
		var assumed []string
		for _, k := range cs.Order {
			if cs.Funcs[k].Assumed {
				for _, r := range reps {
					for _, c := range r.Called {
						if c == k {
							assumed = append(assumed, k)
						}
					}
				}
			}
		}
		sort.Strings(assumed)
		b, _ := json.MarshalIndent(map[string]interface{}{"functions": reps, "assumed_contracts": uniq(assumed), "load_seconds": load.Seconds(), "wall_seconds": time.Since(t0).Seconds()}, "", " ")
		if err := os.WriteFile(*out, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
	if bad > 0 {
		os.Exit(1)
	}
}

func uniq(s []string) []string {
	r := []string{}
	for i, v := range s {
		if i == 0 || s[i-1] != v {
			r = append(r, v)
		}
	}
	return r
}

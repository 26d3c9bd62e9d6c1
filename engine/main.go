package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"time"
)

type OblOut struct {
	Name   string   `json:"name"`
	Kind   string   `json:"kind"`
	Tags   []string `json:"tags"`
	Status string   `json:"status"`
	Where  string   `json:"where,omitempty"`
	Detail string   `json:"detail,omitempty"`
	Solver string   `json:"solver,omitempty"`
	Secs   float64  `json:"secs"`
	Fn     string   `json:"function"`
	Spec   string   `json:"contract"`
	Top    bool     `json:"top"`
}

type Out struct {
	Obligations []OblOut           `json:"obligations"`
	Functions   []string           `json:"functions"`
	Lemmas      []string           `json:"lemmas"`
	Inlined     []string           `json:"inlined"`
	Assumed     []string           `json:"assumed_contracts"`
	Notes       []string           `json:"notes"`
	Dropped     []string           `json:"dropped"`
	BySolver    map[string]int     `json:"by_solver"`
	SolverS     float64            `json:"solver_s"`
	Guards      map[string]int     `json:"guards"`
	Trivial     int                `json:"trivial"`
	LoadS       float64            `json:"load_s"`
	GenS        float64            `json:"gen_s"`
	Error       string             `json:"error,omitempty"`
	ByFn        map[string]float64 `json:"-"`
}

func has(ss []string, s string) bool {
	for _, x := range ss {
		if x == s {
			return true
		}
	}
	return false
}

func main() {
	repo := flag.String("repo", "/repo", "")
	contracts := flag.String("contracts", "/verif/contracts", "")
	prop := flag.String("prop", "", "property; empty: all")
	only := flag.String("only", "", "verify only the contract")
	dir := flag.String("dir", "", "directory for queries")
	first := flag.Int("first", 4, "")
	rest := flag.Int("rest", 20, "")
	verbose := flag.Bool("v", false, "")
	jobs := flag.Int("j", 8, "")
	keep := flag.Bool("keep", false, "")
	budget := flag.Float64("budget", 0, "seconds after which what is left counts as not discharged")
	disable := flag.String("disable", "", "contracts not to use: their functions are inlined")
	flag.Parse()
	if *dir == "" {
		d, err := os.MkdirTemp("", "zprove")
		if err != nil {
			panic(err)
		}
		*dir = d
		if !*keep {
			defer os.RemoveAll(d)
		}
	}
	t0 := time.Now()
	out := &Out{BySolver: map[string]int{}, Guards: map[string]int{}}
	e, err := newEngine(*repo, *contracts, strings.Split(*disable, ","))
	if err != nil {
		out.Error = err.Error()
		json.NewEncoder(os.Stdout).Encode(out)
		os.Exit(0)
	}
	out.LoadS = time.Since(t0).Seconds()
	t1 := time.Now()
	// generate obligations
	runs := map[string]*Run{}
	run := func(c *Contract) *Run {
		if r, ok := runs[c.name]; ok {
			return r
		}
		if c.kind != "contract" && c.kind != "lemma" {
			return nil
		}
		g0 := time.Now()
		r := e.verify(c)
		runs[c.name] = r
		if *verbose {
			fmt.Fprintf(os.Stderr, "gen %s %.2fs obls=%d assumes=%d %s\n", c.name, time.Since(g0).Seconds(), len(r.obls), len(r.assumes), r.stuckMsg)
		}
		return r
	}
	type sel struct {
		r *Run
		o *Obl
		c *Contract
	}
	var todo []sel
	hasUser := map[string]bool{}
	selected := map[string]bool{}
	var queue []*Contract
	push := func(c *Contract) {
		if c != nil && !selected[c.name] {
			selected[c.name] = true
			queue = append(queue, c)
		}
	}
	for _, c := range e.contracts {
		if *only != "" {
			if c.name == *only {
				push(c)
			}
			continue
		}
		if *prop == "" || *prop == "C18" && c.kind == "contract" || has(c.props, *prop) || c.flags["tag"+*prop] {
			push(c)
		}
	}
	// a property's obligations may sit in contracts of other properties: tags in labels
	if *prop != "" && *only == "" {
		for _, c := range e.contracts {
			if c.flags["multi"] {
				push(c)
			}
		}
	}
	for len(queue) > 0 {
		c := queue[0]
		queue = queue[1:]
		r := run(c)
		if r == nil {
			out.Assumed = append(out.Assumed, assumedName(c))
			continue
		}
		for _, u := range sortedKeys(r.used) {
			hasUser[u] = true
			if *only == "" && *prop != "C18" {
				push(e.byName[u])
			} else if cc := e.byName[u]; cc != nil && (cc.kind == "extern" || cc.kind == "interface" || cc.kind == "axiom") {
				out.Assumed = append(out.Assumed, assumedName(cc))
			}
		}
		if c.kind == "lemma" {
			out.Lemmas = append(out.Lemmas, c.name)
		} else {
			out.Functions = append(out.Functions, r.curFn)
		}
		for _, o := range r.obls {
			if *prop == "C18" {
				if !(o.Kind == "vacuity" || o.Kind == "unsupported" || has(o.Tags, "C18")) {
					continue
				}
			} else if *prop != "" && o.Kind == "safety" {
				continue
			}
			todo = append(todo, sel{r, o, c})
		}
		for n := range r.inlined {
			if !has(out.Inlined, n) {
				out.Inlined = append(out.Inlined, n)
			}
		}
		for n := range r.notes {
			if !has(out.Notes, n) {
				out.Notes = append(out.Notes, n)
			}
		}
	}
	// a contract nobody relies on contributes only what is stated for this property
	kept := todo[:0]
	for _, t := range todo {
		if *prop != "" && *prop != "C18" && t.o.Kind == "ensures" && len(t.o.Tags) > 0 && !has(t.o.Tags, *prop) && !hasUser[t.c.name] {
			continue
		}
		kept = append(kept, t)
	}
	todo = kept
	sort.Strings(out.Inlined)
	sort.Strings(out.Notes)
	sort.Strings(out.Functions)
	out.Assumed = uniq(out.Assumed)
	out.Dropped = e.dropped
	out.Trivial = e.trivial
	out.GenS = time.Since(t1).Seconds()
	texts := make([][]string, len(todo))
	outs := make([]OblOut, len(todo))
	for i, s := range todo {
		outs[i] = OblOut{Name: s.o.Name, Kind: s.o.Kind, Tags: s.o.Tags, Where: s.o.Where, Fn: s.o.fn, Spec: s.c.name, Top: s.c.top || s.c.kind == "lemma"}
		if s.o.Kind == "unsupported" {
			outs[i].Status, outs[i].Detail = "unsupported", s.o.Where
			continue
		}
		if s.o.Goal == True {
			outs[i].Status, outs[i].Solver = "discharged", "simplifier"
			continue
		}
		var as []*Term
		for _, f := range s.r.assumes[:s.o.n] {
			as = append(as, f.t)
		}
		as = append(as, s.o.Assume...)
		texts[i] = s.r.queries(as, s.o.Goal)
		if len(texts[i]) == 0 {
			outs[i].Status, outs[i].Solver = "discharged", "simplifier"
		}
	}
	sem := make(chan bool, *jobs)
	var wg sync.WaitGroup
	var mu sync.Mutex
	for i := range todo {
		if len(texts[i]) == 0 {
			if outs[i].Status == "discharged" {
				mu.Lock()
				out.BySolver["simplifier"]++
				mu.Unlock()
			}
			continue
		}
		acc := &struct {
			left int
			res  result
		}{left: len(texts[i])}
		for k := range texts[i] {
			wg.Add(1)
			sem <- true
			go func(i, k int) {
				defer wg.Done()
				defer func() { <-sem }()
				mu.Lock()
				skip := acc.res.status == "failed"
				mu.Unlock()
				var x result
				if !skip && *budget > 0 && time.Since(t0).Seconds() > *budget {
					x = result{status: "failed", detail: "not decided within the time limit"}
				} else if !skip {
					x = solve(*dir, fmt.Sprintf("q%05d.%02d", i, k), texts[i][k], todo[i].o.vacuity, *first, *rest)
				}
				mu.Lock()
				defer mu.Unlock()
				acc.left--
				if !skip && acc.res.status != "failed" {
					secs := acc.res.secs + x.secs
					if acc.res.solver != "" && acc.res.solver != "z3" {
						x.solver = acc.res.solver
					}
					if x.status == "failed" && len(texts[i]) > 1 {
						x.detail = fmt.Sprintf("case %d of %d: %s", k+1, len(texts[i]), x.detail)
					}
					acc.res = x
					acc.res.secs = secs
				}
				if acc.left > 0 {
					return
				}
				res := acc.res
				outs[i].Status, outs[i].Solver, outs[i].Secs, outs[i].Detail = res.status, res.solver, res.secs, res.detail
				out.SolverS += res.secs
				if res.status == "discharged" {
					out.BySolver[res.solver]++
				}
				if *verbose {
					fmt.Fprintf(os.Stderr, "%-11s %6.2fs %s q%05d [%s] %s %s %s\n", res.status, res.secs, res.solver, i, strings.Join(todo[i].o.Tags, ","), todo[i].o.Name, todo[i].o.Where, res.detail)
				}
			}(i, k)
		}
	}
	wg.Wait()
	for i := range outs {
		switch outs[i].Status {
		case "vacuous":
			out.Guards["vacuous"]++
			out.Obligations = append(out.Obligations, outs[i])
		case "reachable":
			out.Guards["reachable"]++
		default:
			out.Obligations = append(out.Obligations, outs[i])
		}
		if *verbose && outs[i].Status == "unsupported" {
			fmt.Fprintf(os.Stderr, "UNSUPPORTED %s: %s\n", outs[i].Name, outs[i].Detail)
		}
	}
	if *verbose {
		n := 0
		for _, o := range out.Obligations {
			if o.Status == "discharged" {
				n++
			}
		}
		fmt.Fprintf(os.Stderr, "load %.1f gen %.1f total %.1f solver %.1f; %d of %d discharged; dropped %v\n", out.LoadS, out.GenS, time.Since(t0).Seconds(), out.SolverS, n, len(out.Obligations), out.Dropped)
		return
	}
	enc := json.NewEncoder(os.Stdout)
	enc.SetIndent("", " ")
	enc.Encode(out)
}

func uniq(ss []string) []string {
	m := map[string]bool{}
	for _, s := range ss {
		m[s] = true
	}
	return sortedKeys(m)
}

func assumedName(c *Contract) string {
	if c.kind == "axiom" {
		return "axiom " + c.name
	}
	return c.kind + " " + c.target
}

package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

// A property is decided by suites of driver functions, each analysed under
// its configurations on both platforms.
type propDef struct {
	id     string
	suites []string
	// pick: the configurations used (nil: those of the tier)
	pick func(tier string, cs *Case, cfs []*Conf) []*Conf
	// viols: what is reported of a run (nil: the verdicts of its law)
	viols func(r *Run) []string
	rule  string
}

var props = map[string]*propDef{}

func defProp(p *propDef) { props[p.id] = p }

const lawRule = "abstract interpretation of the instantiated clang AST of the call, one distinguished point per index space; every terminating path must leave the output's cell at the point equal to C<M,z> = C (+) T, count it in nvals, keep the row strictly sorted, and leave the other arguments unmodified; no path may throw"

func init() {
	for id, s := range map[string]string{"M01": "mxm", "M02": "mxv", "E01": "ewise", "X01": "extract", "A01": "assign", "U01": "apply", "R01": "reduce", "T01": "transpose", "K01": "kron"} {
		defProp(&propDef{id: id, suites: []string{s}, rule: lawRule})
	}
	defProp(&propDef{id: "C01", suites: []string{"cont"},
		pick: func(tier string, cs *Case, cfs []*Conf) []*Conf { return cfs },
		rule: "abstract interpretation of the instantiated clang AST of each container method, one distinguished position, index arguments before, at, after it and out of range: every terminating path must leave the position's cell and the element count as the map model of the container says, return the model's answer, throw exactly the exception due, and leave the arguments of a rejected call unchanged"})
	defProp(&propDef{id: "S01", suites: []string{"mxm", "mxv", "ewise", "extract", "assign", "apply", "reduce", "transpose", "kron"},
		pick: func(tier string, cs *Case, cfs []*Conf) []*Conf {
			var r []*Conf
			for _, c := range cfs {
				ok := !c.repl && !c.outside && !c.otherLine
				for n, p := range c.pres {
					if p == 0 && !(strings.EqualFold(n, "m") && strings.Contains(cs.fn, "_c")) {
						ok = false
					}
					if c.cfg.truth[n+"@*"] && strings.Contains(cs.fn, "_c") {
						ok = false
					}
				}
				if ok {
					r = append(r, c)
				}
			}
			if tier != "thorough" && len(r) > 2 {
				r = r[len(r)-2:]
			}
			return r
		},
		viols: func(r *Run) []string {
			var v []string
			for _, e := range r.in.evs2() {
				if strings.HasPrefix(e, "domain: ") {
					v = append(v, e[8:])
				}
			}
			return v
		},
		rule: "every scalar that reaches a user operator, or is stored in the output, is tracked with the chain of conversions it went through since it was read or returned; a chain of two or more steps through a type that is neither the source's, the operator's nor the destination's is a violation"})
}

// confAttrs: the choices a configuration makes.
func confAttrs(c *Conf) []string {
	var a []string
	all := true
	for n, p := range c.pres {
		a = append(a, fmt.Sprintf("%s=%d", n, p))
		if p == 0 && !strings.ContainsAny(n, "CwMm") {
			all = false
		}
	}
	for n, m := range c.idx {
		a = append(a, fmt.Sprintf("%s=%d", n, m))
	}
	for n, m := range c.ix {
		a = append(a, fmt.Sprintf("%s=%s/%s", n, keyOf(m.star), keyOf(m.gap)))
	}
	a = append(a, fmt.Sprint("r=", c.repl), fmt.Sprint("all=", all), "mode="+c.mode)
	sort.Strings(a)
	return a
}

// thin keeps a subset of the configurations that covers every combination of
// two choices, and all combinations of output, mask and output control.
func thin(cfs []*Conf) []*Conf {
	type item struct {
		c    *Conf
		cs   []string
		keep bool
	}
	var its []*item
	for _, c := range cfs {
		a := confAttrs(c)
		it := &item{c: c}
		out := ""
		for i := range a {
			for j := i + 1; j < len(a); j++ {
				it.cs = append(it.cs, a[i]+" "+a[j])
			}
			if strings.ContainsAny(a[i][:1], "CwMmr") && a[i][1] == '=' {
				out += a[i] + " "
			}
		}
		it.cs = append(it.cs, out)
		its = append(its, it)
	}
	covered := map[string]bool{}
	for round := 0; ; round++ {
		var best *item
		bn := 0
		for i := len(its) - 1; i >= 0; i-- {
			it := its[i]
			if it.keep {
				continue
			}
			n := 0
			for _, s := range it.cs {
				if !covered[s] {
					n++
				}
			}
			if n > bn {
				best, bn = it, n
			}
		}
		if best == nil {
			break
		}
		best.keep = true
		best.c.prio = -round
		for _, s := range best.cs {
			covered[s] = true
		}
	}
	var r []*Conf
	for _, it := range its {
		if it.keep {
			r = append(r, it.c)
		}
	}
	return r
}

type known struct {
	Property string `json:"property"`
	Match    string `json:"match"` // prefix of the violation's identity
	What     string `json:"what"`
}

// where: the platform functions analysed, most specific files first.
func (r *Run) where() string {
	var s []string
	for id := range r.in.fnsUsed {
		f := r.tu.p.fnBy[id]
		if f == nil || f.Method != 0 && r.tu.name != "cont" || !strings.HasPrefix(f.N, "grb::backend::") {
			continue
		}
		fl := r.tu.p.Files[f.File]
		if !strings.Contains(fl, "/platforms/") || strings.HasSuffix(fl, "sparse_helpers.hpp") {
			continue
		}
		s = append(s, fmt.Sprintf("%s (%s:%d)", f.SN, strings.TrimPrefix(fl, *repo+"/"), f.L))
	}
	sort.Strings(s)
	if len(s) > 6 {
		s = s[:6]
	}
	return strings.Join(s, ", ")
}

func checkMain(id, root string) int {
	t0 := time.Now()
	pd := props[id]
	if pd == nil {
		fmt.Println("ANALYSIS-BROKEN: unknown property", id)
		return 3
	}
	var tus []*TU
	for _, s := range pd.suites {
		if suites[s] == nil {
			fmt.Println("ANALYSIS-BROKEN: unknown suite", s)
			return 3
		}
		tus = append(tus, suites[s]()...)
	}
	os.MkdirAll(*build, 0o755)
	var wg sync.WaitGroup
	errs := make([]error, len(tus))
	sem := make(chan bool, runtime.NumCPU())
	for i := range tus {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			sem <- true
			errs[i] = tus[i].load(*build)
			<-sem
		}(i)
	}
	wg.Wait()
	type vio struct{ ident, text string }
	var vios []vio
	for i, e := range errs {
		if e != nil {
			if strings.Contains(e.Error(), "does not compile") {
				vios = append(vios, vio{fmt.Sprintf("%s/%s: rejected", tus[i].platform, tus[i].name), "a valid call no longer compiles: " + e.Error()})
				continue
			}
			fmt.Println("ANALYSIS-BROKEN:", e)
			return 3
		}
	}
	var ok []*TU
	for i, e := range errs {
		if e == nil {
			ok = append(ok, tus[i])
		}
	}
	total := 0
	pick = func(cs *Case, cfs []*Conf) []*Conf {
		total += len(cfs)
		if pd.pick != nil {
			return pd.pick(*tier, cs, cfs)
		}
		if *tier == "thorough" {
			return cfs
		}
		return thin(cfs)
	}
	rs := runSuite(ok, runtime.NumCPU())
	und := map[string]int{}
	fns := map[string]bool{}
	nund, nok, steps, paths := 0, 0, 0, 0
	cases := map[string]bool{}
	twins := map[string]bool{}
	var samples []string
	for n, r := range rs {
		cases[r.tu.platform+"/"+r.cs.fn] = true
		for _, p := range r.tu.twins[r.cs.fn] {
			twins[p+"/"+r.cs.fn] = true
		}
		steps += r.in.steps
		paths += r.npaths
		for f := range r.in.fnsUsed {
			if x := r.tu.p.fnBy[f]; x != nil {
				fl := r.tu.p.Files[x.File]
				if strings.HasPrefix(fl, *repo) {
					fns[fmt.Sprintf("%s:%d %s", strings.TrimPrefix(fl, *repo+"/"), x.L, x.SN)] = true
				}
			}
		}
		vs := r.viol
		if pd.viols != nil {
			vs = pd.viols(r)
		}
		for _, v := range vs {
			vios = append(vios, vio{fmt.Sprintf("%s/%s [%s] %s", r.tu.platform, r.cs.fn, r.cf.desc, v),
				fmt.Sprintf("call: %s\nplatform: %s%s\nconfiguration of the distinguished point: %s\n%s\nanalysed through: %s", strings.TrimSpace(r.cs.body), r.tu.platform, andAlso(r.tu.twins[r.cs.fn]), r.cf.desc, v, r.where())})
		}
		if len(vs) == 0 && r.undec != "" {
			nund++
			und[r.tu.platform+"/"+r.cs.fn+": "+r.undec]++
		} else if len(vs) == 0 {
			nok++
		}
		if n%(len(rs)/4+1) == 0 {
			samples = append(samples, fmt.Sprintf("%s/%s: %s, with %s", r.tu.platform, r.cs.fn, strings.TrimSpace(r.cs.body), r.cf.desc))
		}
	}
	var kn []known
	if b, err := os.ReadFile(filepath.Join(root, "known_findings.json")); err == nil {
		var f struct {
			Findings []known `json:"findings"`
		}
		if err := json.Unmarshal(b, &f); err != nil {
			fmt.Println("ANALYSIS-BROKEN: known_findings.json:", err)
			return 3
		}
		kn = f.Findings
	}
	seenK := map[string]bool{}
	nviol := 0
	for _, v := range vios {
		k := false
		for _, f := range kn {
			if f.Property == id && strings.HasPrefix(v.ident, f.Match) {
				k = true
				if !seenK[f.Match] {
					seenK[f.Match] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, f.What)
				}
			}
		}
		if k {
			continue
		}
		nviol++
		if nviol <= 12 {
			rp := filepath.Join(root, "build", "replay", fmt.Sprintf("%s-%d.txt", id, nviol))
			os.MkdirAll(filepath.Dir(rp), 0o755)
			os.WriteFile(rp, []byte(v.text+"\n"), 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n  %s\n", id, rp, strings.ReplaceAll(v.text, "\n", "\n  "))
		}
	}
	if nviol > 12 {
		fmt.Printf("(%d further violations)\n", nviol-12)
	}
	var us []string
	for k, n := range und {
		us = append(us, fmt.Sprintf("%s (%d)", k, n))
	}
	sort.Strings(us)
	for i, u := range us {
		if i < 10 {
			fmt.Println("undecided:", u)
		}
	}
	if len(us) > 200 {
		us = us[:200]
	}
	var fl []string
	for f := range fns {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	cov := map[string]interface{}{
		"explanation":            fmt.Sprintf("Static: the clang AST of %d driver calls on both platforms, instantiated from the current headers, was interpreted abstractly under %d of %d configurations of the distinguished point (tier %s). Rule: %s.", len(cases), len(rs), total, *tier, pd.rule),
		"obligations":            len(rs),
		"discharged":             nok,
		"undecided":              nund,
		"undecided_reasons":      us,
		"driver_calls":           len(cases),
		"driver_calls_identical": fmt.Sprintf("%d further driver calls were found to be the same program as an analysed one (equal digest of all functions, records and types reached)", len(twins)),
		"abstract_steps":         steps,
		"terminating_paths":      paths,
		"functions_analysed":     len(fl),
		"functions":              fl,
		"samples":                samples,
		"configurations_total":   total,
		"translation_units":      len(tus),
		"known_findings_matched": len(seenK),
	}
	return writeEvidence(root, id, cov, nviol, time.Since(t0).Seconds(), len(rs), nund)
}

func writeEvidence(root, id string, cov map[string]interface{}, nviol int, wall float64, n, nund int) int {
	seed := 1
	fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &seed)
	ev := map[string]interface{}{"property": id, "tier": *tier, "seed": seed, "level": "other", "coverage": cov, "wall_s": wall, "violations": nviol,
		"assumptions": []string{"user operators are pure functions of their arguments", "the inputs are well-formed containers (rows strictly sorted, as the containers property establishes)", "clang's AST is the program that is compiled; the models of std::vector, std::tuple and std algorithms in tool/gcell/stdmodel.go are faithful", "what is shown for one distinguished index of every dimension holds for all, by symmetry"}}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(root, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("ANALYSIS-BROKEN:", err)
		return 3
	}
	fmt.Printf("%s: %d obligations, %d violations, %d undecided, %.1fs\n", id, n, nviol, nund, wall)
	if nviol > 0 {
		return 1
	}
	return 0
}

func andAlso(p []string) string {
	if len(p) == 0 {
		return ""
	}
	return " (the same program on " + strings.Join(p, ", ") + ")"
}

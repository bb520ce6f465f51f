package main

import (
	"regexp"
	"strings"
)

// One object in two roles: the output is also an input or the mask, or two
// inputs are the same object.

func init() {
	suites["alias"] = suiteAlias
	defProp(&propDef{id: "Y01", suites: []string{"alias"},
		pick: func(tier string, cs *Case, cfs []*Conf) []*Conf {
			if tier == "thorough" {
				return cfs
			}
			return fewest(cfs)
		},
		rule: lawRule + "; here one object is passed in two roles, and every value read from it has to be the one it held before the call"})
}

func suiteAlias() []*TU {
	var r []*TU
	for _, s := range []string{"mxm", "mxv", "ewise", "extract", "assign", "apply", "reduce", "transpose"} {
		for _, tu := range suites[s]() {
			if k := tu.name[strings.LastIndex(tu.name, "_")+1:]; *tier != "thorough" && (k == "c" || k == "s") {
				continue
			}
			n := &TU{name: "alias_" + tu.name, platform: tu.platform, pre: tu.pre, uni: true}
			for _, cs := range tu.cases {
				n.cases = append(n.cases, aliasCases(cs)...)
			}
			if len(n.cases) > 0 {
				r = append(r, n)
			}
		}
	}
	return r
}

// fewest: the configurations with everything stored, with only the output's
// aliases stored and with everything else stored, under both output controls.
func fewest(cfs []*Conf) []*Conf {
	type key struct {
		sh  string
		out bool
	}
	seen := map[key]bool{}
	var r []*Conf
	for i := len(cfs) - 1; i >= 0; i-- {
		c := cfs[i]
		n, k := 0, 0
		for x, p := range c.pres {
			if c.alias[x] != "" {
				continue
			}
			n++
			if p > 0 {
				k++
			}
		}
		sh := ""
		switch k {
		case n:
			sh = "all"
			if c.repl {
				sh = "all,replace"
			}
		case 0:
			sh = "none"
		case 1:
			sh = "one"
		default:
			continue
		}
		q := key{sh, c.outside || c.otherLine}
		if !seen[q] {
			seen[q] = true
			r = append(r, c)
		}
	}
	return r
}

func aliasCases(cs *Case) []*Case {
	var out *Obj
	for i := range cs.objs {
		o := &cs.objs[i]
		if o.k == 'x' {
			return nil
		}
		if o.mut && (o.k == 'm' || o.k == 'v') {
			out = o
		}
	}
	if out == nil {
		return nil
	}
	var r []*Case
	var ins []Obj
	for _, o := range cs.objs {
		if o.nm != out.nm && o.k == out.k {
			ins = append(ins, o)
		}
	}
	try := func(m map[string]string) {
		if c := aliasCase(cs, m); c != nil {
			r = append(r, c)
		}
	}
	for _, o := range ins {
		try(map[string]string{o.nm: out.nm})
	}
	for i, a := range ins {
		for _, b := range ins[i+1:] {
			try(map[string]string{a.nm: out.nm, b.nm: out.nm})
			try(map[string]string{a.nm: b.nm})
		}
	}
	return r
}

// aliasCase: the case with the objects m[x] passed for x.
func aliasCase(cs *Case, m map[string]string) *Case {
	obj := map[string]Obj{}
	var out Obj
	for _, o := range cs.objs {
		obj[o.nm] = o
		if o.mut && (o.k == 'm' || o.k == 'v') {
			out = o
		}
	}
	keep := map[int]bool{out.r: true}
	if out.k == 'm' {
		keep[out.c] = true
	}
	sub := map[int]int{}
	find := func(s int) int {
		for {
			t, ok := sub[s]
			if !ok {
				return s
			}
			s = t
		}
	}
	join := func(a, b int) bool {
		a, b = find(a), find(b)
		if a == b {
			return true
		}
		if keep[a] {
			a, b = b, a
		}
		if keep[a] {
			return false // the two dimensions of the output would be one
		}
		sub[a] = b
		return true
	}
	for x, t := range m {
		if !join(obj[x].r, obj[t].r) || obj[x].k == 'm' && !join(obj[x].c, obj[t].c) {
			return nil
		}
	}
	// a matrix whose two dimensions are one index space is not covered
	for _, o := range cs.objs {
		if o.k == 'm' && find(o.r) == find(o.c) && (m[o.nm] != "" || o.nm == out.nm) {
			return nil
		}
	}
	n := &Case{fn: cs.fn, check: cs.check, tag: cs.tag, body: cs.body}
	var keys []string
	for x := range m {
		keys = append(keys, x)
	}
	if len(keys) == 2 && keys[0] > keys[1] {
		keys[0], keys[1] = keys[1], keys[0]
	}
	for _, x := range keys {
		n.fn += "__" + x + m[x]
		n.body = regexp.MustCompile(`\b`+x+`\b`).ReplaceAllString(n.body, m[x])
	}
	for _, o := range cs.objs {
		if m[o.nm] != "" {
			continue
		}
		switch o.k {
		case 'm':
			o.r, o.c = find(o.r), find(o.c)
		case 'v', 'i':
			o.r = find(o.r)
		}
		n.objs = append(n.objs, o)
	}
	n.confs = func() []*Conf {
		var r []*Conf
		for _, c := range cs.confs() {
			ok := true
			truth := map[string]bool{}
			known := map[string]bool{}
			for k, v := range c.cfg.truth {
				nm := strings.TrimSuffix(k, "@*")
				if t := m[nm]; t != "" {
					nm = t
				}
				if c.pres[strings.TrimSuffix(k, "@*")] > 0 {
					truth[nm+"@*"] = v
					known[nm] = true
				}
			}
			for x, t := range m {
				ok = ok && (c.pres[x] > 0) == (c.pres[t] > 0)
			}
			if len(sub) > 0 && (c.outside || c.otherLine) {
				ok = false
			}
			if !ok {
				continue
			}
			d := c.dup()
			d.cfg.truth = truth
			d.alias = m
			for x := range m {
				d.desc = strings.TrimPrefix(strings.ReplaceAll(" "+d.desc, " "+x+":", " "+x+"="+m[x]+":"), " ")
			}
			r = append(r, d)
		}
		return r
	}
	return n
}

func (w *Want) aliased(m map[string]string) *Want {
	if w == nil || len(m) == 0 {
		return w
	}
	s := func(x string) string {
		for a, b := range m {
			x = strings.ReplaceAll(x, a+"@", b+"@")
		}
		return x
	}
	n := *w
	n.star, n.gap = nil, map[string]bool{}
	for _, x := range w.star {
		n.star = append(n.star, s(x))
	}
	for x := range w.gap {
		n.gap[s(x)] = true
	}
	return &n
}

package main

import (
	"fmt"
	"strings"
)

// Calls whose dimensions do not fit together: every dimension that a call
// requires to equal another one is given a size of its own, one at a time.

const spOdd = 70

func init() {
	defProp(&propDef{id: "D01", suites: []string{"mxm", "mxv", "ewise", "extract", "assign", "apply", "reduce", "transpose", "kron"},
		pick:  mismatches,
		viols: rejected(func(*Conf) string { return "DimensionException" }),
		rule:  "abstract interpretation of the instantiated clang AST of the call with one dimension made different from those it has to equal: every path must end in DimensionException with every container argument exactly as it was"})
	defProp(&propDef{id: "I01", suites: []string{"extract", "assign"},
		pick: badIndices,
		viols: rejected(func(cf *Conf) string {
			if cf.mode == "list" {
				return "IndexOutOfBoundsException"
			}
			return "InvalidIndexException"
		}),
		rule: "abstract interpretation of the instantiated clang AST of the call with one index equal to the size of the dimension it indexes (a row or column index, or the distinguished entry of an index list, the other entries being arbitrary valid ones): every path must end in the exception due, with every container argument exactly as it was, and no container may be subscripted out of range on the way"})
}

type dimRef struct {
	o   Obj
	col bool
}

// boundDims: the dimensions of a call's arguments that must equal others.
func boundDims(cs *Case, cf *Conf) []dimRef {
	use := map[int][]dimRef{}
	ext := strings.HasPrefix(cs.fn, "extract")
	for _, o := range cs.objs {
		if ext && (o.nm == "u" || o.nm == "A") {
			continue // an extract takes what is there
		}
		switch o.k {
		case 'm':
			use[o.r] = append(use[o.r], dimRef{o, false})
			use[o.c] = append(use[o.c], dimRef{o, true})
		case 'v':
			use[o.r] = append(use[o.r], dimRef{o, false})
		case 'x':
			p := cf.ix[o.nm].pos
			use[p] = append(use[p], dimRef{o, false})
		}
	}
	var r []dimRef
	for _, o := range cs.objs {
		if o.k != 'm' && o.k != 'v' && o.k != 'x' {
			continue
		}
		for _, col := range []bool{false, true} {
			sp := o.r
			if col {
				sp = o.c
			}
			if o.k == 'x' {
				sp = cf.ix[o.nm].pos
			}
			if col && o.k != 'm' {
				continue
			}
			bound := len(use[sp]) > 1
			for _, q := range cf.cfg.prod {
				bound = bound || q == sp
			}
			if ext && (o.nm == "u" || o.nm == "A") {
				bound = false
			}
			if o.k == 'x' && isConstAssign(cs) {
				bound = true // no more indices than positions
			}
			if bound {
				r = append(r, dimRef{o, col})
			}
		}
	}
	return r
}

func isConstAssign(cs *Case) bool {
	return strings.HasPrefix(cs.fn, "assignvc_") || strings.HasPrefix(cs.fn, "assignmc_")
}

func mismatches(tier string, cs *Case, cfs []*Conf) []*Conf {
	var base []*Conf
	for _, c := range cfs {
		ok := !c.outside && !c.otherLine && c.mode == ""
		for _, p := range c.pres {
			ok = ok && p > 0
		}
		if ok {
			base = append(base, c)
		}
	}
	if len(base) == 0 {
		return nil
	}
	if tier != "thorough" {
		base = base[len(base)-1:]
	}
	var r []*Conf
	for _, b := range base {
		for _, d := range boundDims(cs, b) {
			c := b.dup()
			c.cfg.distinct = map[[2]int]bool{}
			for sp := 0; sp < 12; sp++ {
				c.cfg.distinct[[2]int{spOdd, sp}] = true
			}
			nm := map[int]string{spOdd: "another size"}
			for k, v := range c.cfg.spName {
				nm[k] = v
			}
			c.cfg.spName = nm
			larger := d.o.nm == "u" || d.o.nm == "A" || d.o.k == 'x'
			if strings.HasPrefix(cs.fn, "assign") {
				// with AllIndices a source may be smaller than its destination
				c.cfg.leq = map[[2]int]bool{}
				for k := range b.cfg.leq {
					c.cfg.leq[k] = true
				}
				for sp := 0; sp < 12; sp++ {
					if larger {
						c.cfg.leq[[2]int{sp, spOdd}] = true
					} else {
						c.cfg.leq[[2]int{spOdd, sp}] = true
					}
				}
			}
			c.desc = d.o.nm + " of another size"
			if d.o.k == 'x' {
				m := c.ix[d.o.nm]
				m.pos = spOdd
				c.ix[d.o.nm] = m
			} else {
				x := [2]int{d.o.r, d.o.c}
				w := "rows"
				if d.col {
					x[1] = spOdd
					w = "columns"
				} else {
					x[0] = spOdd
				}
				if d.o.k == 'm' {
					c.desc = d.o.nm + " with another number of " + w
				}
				c.dimOf = map[string][2]int{d.o.nm: x}
			}
			if tier == "thorough" {
				c.desc += ", " + b.desc
			}
			r = append(r, c)
		}
	}
	return r
}

// rejected: every path ends in the exception, and nothing has been changed.
func rejected(excOf func(*Conf) string) func(r *Run) []string {
	return func(r *Run) []string {
		var v []string
		bad := func(f string, a ...interface{}) {
			s := fmt.Sprintf(f, a...)
			for _, x := range v {
				if x == s {
					return
				}
			}
			v = append(v, s)
		}
		if r.over {
			return nil
		}
		exc := excOf(r.cf)
		nimp := 0
		for _, st := range r.finals {
			if st.imp != "" {
				r.undecided(st.imp)
				nimp++
				continue
			}
			bad("the call is accepted")
		}
		for _, o := range r.thrown {
			if o.st.imp != "" {
				r.undecided(o.st.imp)
				nimp++
				continue
			}
			if !strings.HasSuffix(o.thr.ty, exc) {
				bad("throws %s at %s instead of %s", o.thr.ty, o.thr.pos, exc)
			}
			for _, ob := range r.cs.objs {
				if ob.k == 'm' || ob.k == 'v' || ob.k == 'x' {
					if norm(r.init[ob.nm]) != norm(r.in.read(o.st, r.locs[ob.nm])) {
						bad("the rejected call has changed %s", ob.nm)
					}
				}
			}
		}
		if len(r.finals)+len(r.thrown) == 0 {
			bad("no path terminates: %s", strings.Join(r.in.ubs(), "; "))
		}
		return v
	}
}

// badIndices: one index is out of range.
func badIndices(tier string, cs *Case, cfs []*Conf) []*Conf {
	var base []*Conf
	for _, c := range cfs {
		ok := !c.outside && !c.otherLine && c.mode == ""
		for n, p := range c.pres {
			ok = ok && (p > 0 || tier == "thorough" || n == "C" || n == "w" || n == "m" || n == "M")
		}
		if ok {
			base = append(base, c)
		}
	}
	if tier != "thorough" && len(base) > 2 {
		base = []*Conf{base[0], base[len(base)-1]}
	}
	var r []*Conf
	for _, b := range base {
		for _, o := range cs.objs {
			if o.k != 'x' && o.k != 'i' {
				continue
			}
			c := b.dup()
			if o.k == 'x' {
				m := c.ix[o.nm]
				m.star = VN{m.rng, 0}
				c.ix[o.nm] = m
				c.mode = "list"
				c.desc = "an entry of " + o.nm + " out of range; " + b.desc
			} else {
				c.idx[o.nm] = SE
				c.mode = "index"
				c.desc = o.nm + " out of range; " + b.desc
			}
			r = append(r, c)
		}
	}
	return r
}

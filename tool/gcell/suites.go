package main

import (
	"fmt"
	"strings"
)

var suites = map[string]func() []*TU{
	"mxm": suiteMxm,
}

const preSR = "struct SR { using result_type=TD; using ScalarType=TD; TD add(TD,TD) const; TD mult(TA,TB) const; TD zero() const; };\nstruct Acc { TZ operator()(TC,TD) const; };\n"

var maskKinds = []string{"", "m", "c", "s", "cs"}

func maskExpr(k, nm string) string {
	switch k {
	case "":
		return "grb::NoMask()"
	case "m":
		return nm
	case "c":
		return "grb::complement(" + nm + ")"
	case "s":
		return "grb::structure(" + nm + ")"
	}
	return "grb::complement(grb::structure(" + nm + "))"
}

// space numbers
const (
	spI = iota
	spJ
	spK
	spL
)

var stdNames = map[int]string{spI: "i", spJ: "j", spK: "k", spL: "l"}

func product(n int, dims []int, f func(x []int)) {
	x := make([]int, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			f(x)
			return
		}
		for x[i] = 0; x[i] < dims[i]; x[i]++ {
			rec(i + 1)
		}
	}
	rec(0)
}

// stdConfs enumerates presence of the objects, mask value and output control.
func stdConfs(objs []Obj, mask, mk string, names map[int]string, extra func(cf *Conf) []*Conf) func() []*Conf {
	return func() []*Conf {
		var r []*Conf
		var nm []string
		var dims []int
		for _, o := range objs {
			if o.k != 'm' && o.k != 'v' {
				continue
			}
			n := 2
			if o.nm == mask && mk != "" {
				n = 3
			}
			nm = append(nm, o.nm)
			dims = append(dims, n)
		}
		nm = append(nm, "REPLACE")
		dims = append(dims, 2)
		product(len(nm), dims, func(x []int) {
			cf := &Conf{pres: map[string]int{}, idx: map[string]uint8{}, ix: map[string]IxMode{}, dimOf: map[string][2]int{}}
			cf.cfg = &Cfg{prod: map[[2]int]int{}, distinct: map[[2]int]bool{}, truth: map[string]bool{}, zero: map[int]bool{}, spName: names}
			var d []string
			for i, n := range nm {
				if n == "REPLACE" {
					cf.repl = x[i] == 1
					continue
				}
				cf.pres[n] = x[i]
				s := "absent"
				if n == mask && mk != "" {
					if x[i] == 1 {
						s = "false"
					} else if x[i] == 2 {
						s = "true"
					}
					cf.cfg.truth[n+"@*"] = x[i] == 2
				} else if x[i] == 1 {
					s = "stored"
				}
				d = append(d, n+":"+s)
			}
			if cf.repl {
				d = append(d, "REPLACE")
			} else {
				d = append(d, "MERGE")
			}
			cf.desc = strings.Join(d, " ")
			if extra != nil {
				r = append(r, extra(cf)...)
			} else {
				r = append(r, cf)
			}
		})
		return r
	}
}

// lawCheck: every terminating path must leave the star cell as the law says.
func lawCheck(law *OpLaw, objs []Obj) func(r *Run) {
	return func(r *Run) {
		var out Obj
		for _, o := range objs {
			if o.nm == law.out {
				out = o
			}
		}
		alts := law.expect(r.cf)
		for i := range alts {
			alts[i] = alts[i].aliased(r.cf.alias)
		}
		good := 0
		for _, st := range r.finals {
			if st.imp != "" {
				if r.undec == "" {
					r.undec = st.imp
				}
				continue
			}
			c, err := r.cell(st, out)
			if err != nil {
				r.bad("%s: %v", out.nm, err)
				continue
			}
			m := cellCheck(c.present, c.maybe, c.t.t, alts)
			if m == "?" {
				if r.undec == "" {
					r.undec = "the stored value is not tracked"
				}
				continue
			}
			if m != "" {
				r.bad("%s: %s", out.nm, m)
				continue
			}
			good++
			if c.bad != "" {
				r.bad("%s: row not strictly sorted: %s", out.nm, c.bad)
			}
			r.checkCount(out, c)
			r.checkInputs(st, objs)
		}
		for _, o := range r.thrown {
			if o.st.imp == "" {
				r.bad("throws %s at %s", o.thr.ty, o.thr.pos)
			}
		}
		if len(r.finals) == 0 && len(r.thrown) == 0 {
			r.bad("no path terminates: %s", strings.Join(r.in.ubs(), "; "))
		}
		_ = good
	}
}

func (in *I) ubs() []string {
	var r []string
	for _, e := range in.evs2() {
		if strings.HasPrefix(e, "ub: ") {
			r = append(r, e[4:])
		}
	}
	return r
}

func (r *Run) checkCount(o Obj, c Cell) {
	if !c.hasCnt {
		return
	}
	want := 0
	if c.present {
		want = 1
	}
	switch x := c.cnt.(type) {
	case VN:
		if r.cf.mode == "in" || r.cf.mode == "out" {
			// as many positions as elements
		} else if r.cf.mode == "dup" {
			r.bad("%s: nvals counts a position once for every value given for it", o.nm)
		} else if x.sp != o.r || x.d != 0 {
			r.undecided("nvals of " + o.nm + " is " + keyOf(x))
		} else if want != 1 {
			r.bad("%s: nvals counts every position", o.nm)
		}
	case VInt:
		if int(x.k) != want {
			r.bad("%s: nvals counts %d for the element at the distinguished cell, stored elements there: %d", o.nm, x.k, want)
		}
	case VCnt:
		if x.b != want {
			r.bad("%s: nvals counts %d for the element at the distinguished cell, stored elements there: %d", o.nm, x.b, want)
		}
	default:
		if r.undec == "" {
			r.undec = "nvals of " + o.nm + " is not tracked: " + keyOf(c.cnt)
		}
	}
}

func (r *Run) checkInputs(st *State, objs []Obj) {
	for _, o := range objs {
		if o.mut || o.k != 'm' && o.k != 'v' && o.k != 'x' || r.cf.alias[o.nm] != "" {
			continue
		}
		a, b := r.init[o.nm], r.in.read(st, r.locs[o.nm])
		if norm(a) != norm(b) {
			r.bad("the input %s is modified", o.nm)
		}
	}
}

// norm forgets what path conditions reveal about cardinalities.
func norm(v Val) string {
	switch x := v.(type) {
	case VRow:
		x.L, x.R = 0, 0
		return keyOf(x)
	case VDense:
		return fmt.Sprint("D", x.sp, norm(x.p), norm(x.g))
	case VRec:
		s := "r"
		for _, f := range x.f {
			s += norm(f) + ","
		}
		return s
	}
	return keyOf(v)
}

// ---------------------------------------------------------------------------

func suiteMxm() []*TU {
	var tus []*TU
	for _, pf := range platforms {
		for _, mk := range maskKinds {
			tu := &TU{name: "mxm_" + mk, platform: pf, pre: preSR}
			for _, acc := range []bool{false, true} {
				for tr := 0; tr < 4; tr++ {
					tu.cases = append(tu.cases, mxmCase(mk, acc, tr&1 != 0, tr&2 != 0))
				}
			}
			tus = append(tus, tu)
		}
	}
	return tus
}

func accExpr(acc bool) string {
	if acc {
		return "Acc()"
	}
	return "grb::NoAccumulate()"
}
func trExpr(t bool, nm string) string {
	if t {
		return "grb::transpose(" + nm + ")"
	}
	return nm
}
func bname(b bool, s string) string {
	if b {
		return s
	}
	return ""
}

func mxmCase(mk string, acc, ta, tb bool) *Case {
	A, B := mat("A", "TA", spI, spK), mat("B", "TB", spK, spJ)
	if ta {
		A.r, A.c = A.c, A.r
	}
	if tb {
		B.r, B.c = B.c, B.r
	}
	objs := []Obj{mat("C", "TC", spI, spJ).m()}
	if mk != "" {
		objs = append(objs, mat("M", "TM", spI, spJ))
	}
	objs = append(objs, A, B, Obj{nm: "o", k: 'o'})
	c := &Case{fn: fmt.Sprintf("mxm_%s_%s_%s%s", mk, bname(acc, "acc"), bname(ta, "At"), bname(tb, "Bt")), objs: objs}
	c.body = fmt.Sprintf("grb::mxm(C, %s, %s, SR(), %s, %s, o ? grb::REPLACE : grb::MERGE);", maskExpr(mk, "M"), accExpr(acc), trExpr(ta, "A"), trExpr(tb, "B"))
	law := &OpLaw{out: "C", mask: "M", mk: mk, acc: acc, cell: "C@*"}
	gapA, gapB := mleaf("A", true, false), mleaf("B", false, true)
	if ta {
		gapA = mleaf("A", false, true)
	}
	if tb {
		gapB = mleaf("B", true, false)
	}
	gap := map[string]bool{"SR.mult(" + gapA + "," + gapB + ")": true}
	law.T = func(cf *Conf) []*Want {
		if cf.pres["A"] > 0 && cf.pres["B"] > 0 {
			return []*Want{{star: []string{"SR.mult(A@*,B@*)"}, gap: gap}}
		}
		return []*Want{nil, {gap: gap}}
	}
	c.confs = stdConfs(objs, "M", mk, stdNames, nil)
	c.check = lawCheck(law, objs)
	return c
}

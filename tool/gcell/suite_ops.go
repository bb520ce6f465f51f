package main

import (
	"fmt"
	"strings"
)

const preBin = "struct Op { TD operator()(TA,TB) const; };\nstruct Un { TD operator()(TA) const; };\nstruct Mon { using result_type=TD; TD operator()(TD,TD) const; TD identity() const; };\nstruct Acc { TZ operator()(TC,TD) const; };\n"

func init() {
	suites["mxv"] = suiteMxv
	suites["ewise"] = suiteEwise
	suites["extract"] = suiteExtract
	suites["assign"] = suiteAssign
	suites["apply"] = suiteApply
	suites["reduce"] = suiteReduce
	suites["transpose"] = suiteTranspose
	suites["kron"] = suiteKron
}

const outpExpr = "o ? grb::REPLACE : grb::MERGE"

// tuFor builds one translation unit per platform and mask kind.
func tuFor(name, pre string, kinds []string, mk func(kind string, acc bool) []*Case) []*TU {
	var tus []*TU
	for _, pf := range platforms {
		for _, k := range kinds {
			tu := &TU{name: name + "_" + k, platform: pf, pre: pre}
			for _, acc := range []bool{false, true} {
				tu.cases = append(tu.cases, mk(k, acc)...)
			}
			tus = append(tus, tu)
		}
	}
	return tus
}

func swapIf(t bool, o Obj) Obj {
	if t {
		o.r, o.c = o.c, o.r
	}
	return o
}

// gapLeaf: the leaf of a matrix element whose given axis is a gap, seen
// through an optional transposition.
func gapLeaf(nm string, t, rowStar, colStar bool) string {
	if t {
		rowStar, colStar = colStar, rowStar
	}
	return mleaf(nm, rowStar, colStar)
}

func suiteMxv() []*TU {
	return tuFor("mxv", preSR, maskKinds, func(mk string, acc bool) []*Case {
		var cs []*Case
		for _, op := range []string{"mxv", "vxm"} {
			for _, tr := range []bool{false, true} {
				var A, u Obj
				var body, term, gap string
				if op == "mxv" {
					A = swapIf(tr, mat("A", "TA", spI, spK))
					u = vec("u", "TB", spK)
					body = fmt.Sprintf("grb::mxv(w, %s, %s, SR(), %s, u, %s);", maskExpr(mk, "m"), accExpr(acc), trExpr(tr, "A"), outpExpr)
					term = "SR.mult(A@*,u@*)"
					gap = "SR.mult(" + gapLeaf("A", tr, true, false) + ",u@g)"
				} else {
					A = swapIf(tr, mat("A", "TB", spK, spI))
					u = vec("u", "TA", spK)
					body = fmt.Sprintf("grb::vxm(w, %s, %s, SR(), u, %s, %s);", maskExpr(mk, "m"), accExpr(acc), trExpr(tr, "A"), outpExpr)
					term = "SR.mult(u@*,A@*)"
					gap = "SR.mult(u@g," + gapLeaf("A", tr, false, true) + ")"
				}
				objs := []Obj{vec("w", "TC", spI).m()}
				if mk != "" {
					objs = append(objs, vec("m", "TM", spI))
				}
				objs = append(objs, A, u, Obj{nm: "o", k: 'o'})
				law := &OpLaw{out: "w", mask: "m", mk: mk, acc: acc, cell: "w@*"}
				gaps := map[string]bool{gap: true}
				law.T = func(cf *Conf) []*Want {
					if cf.pres["A"] > 0 && cf.pres["u"] > 0 {
						return []*Want{{star: []string{term}, gap: gaps}}
					}
					return []*Want{nil, {gap: gaps}}
				}
				cs = append(cs, &Case{fn: fmt.Sprintf("%s_%s_%s_%s", op, mk, bname(acc, "acc"), bname(tr, "At")), objs: objs, body: body,
					confs: stdConfs(objs, "m", mk, stdNames, nil), check: lawCheck(law, objs)})
			}
		}
		return cs
	})
}

func suiteEwise() []*TU {
	return tuFor("ewise", preBin, maskKinds, func(mk string, acc bool) []*Case {
		var cs []*Case
		for _, op := range []string{"eWiseAdd", "eWiseMult"} {
			add := op == "eWiseAdd"
			for tr := 0; tr < 5; tr++ {
				var objs []Obj
				var body, a, b, out, cell, mask string
				if tr == 4 { // vectors
					out, cell, mask, a, b = "w", "w@*", "m", "u", "v"
					objs = append(objs, vec("w", "TC", spI).m())
					if mk != "" {
						objs = append(objs, vec("m", "TM", spI))
					}
					objs = append(objs, vec("u", "TA", spI), vec("v", "TB", spI))
					body = fmt.Sprintf("grb::%s(w, %s, %s, Op(), u, v, %s);", op, maskExpr(mk, "m"), accExpr(acc), outpExpr)
				} else {
					ta, tb := tr&1 != 0, tr&2 != 0
					out, cell, mask, a, b = "C", "C@*", "M", "A", "B"
					objs = append(objs, mat("C", "TC", spI, spJ).m())
					if mk != "" {
						objs = append(objs, mat("M", "TM", spI, spJ))
					}
					objs = append(objs, swapIf(ta, mat("A", "TA", spI, spJ)), swapIf(tb, mat("B", "TB", spI, spJ)))
					body = fmt.Sprintf("grb::%s(C, %s, %s, Op(), %s, %s, %s);", op, maskExpr(mk, "M"), accExpr(acc), trExpr(ta, "A"), trExpr(tb, "B"), outpExpr)
				}
				objs = append(objs, Obj{nm: "o", k: 'o'})
				law := &OpLaw{out: out, mask: mask, mk: mk, acc: acc, cell: cell}
				law.T = func(cf *Conf) []*Want {
					pa, pb := cf.pres[a] > 0, cf.pres[b] > 0
					switch {
					case pa && pb:
						return []*Want{{star: []string{"Op(" + a + "@*," + b + "@*)"}, one: true}}
					case pa && add:
						return []*Want{{star: []string{a + "@*"}, one: true}}
					case pb && add:
						return []*Want{{star: []string{b + "@*"}, one: true}}
					}
					return []*Want{nil}
				}
				cs = append(cs, &Case{fn: fmt.Sprintf("%s_%s_%s_%d", op, mk, bname(acc, "acc"), tr), objs: objs, body: body,
					confs: stdConfs(objs, mask, mk, stdNames, nil), check: lawCheck(law, objs)})
			}
		}
		return cs
	})
}

func suiteApply() []*TU {
	return tuFor("apply", preBin, maskKinds, func(mk string, acc bool) []*Case {
		var cs []*Case
		for kind := 0; kind < 3; kind++ { // unary, bind first, bind second
			for tr := 0; tr < 3; tr++ {
				var objs []Obj
				var a, src, out, mask string
				ty := "TA"
				if kind == 1 {
					ty = "TB"
				}
				if tr == 2 {
					out, mask, a, src = "w", "m", "u", "u"
					objs = append(objs, vec("w", "TC", spI).m())
					if mk != "" {
						objs = append(objs, vec("m", "TM", spI))
					}
					objs = append(objs, vec("u", ty, spI))
				} else {
					out, mask, a, src = "C", "M", "A", trExpr(tr == 1, "A")
					objs = append(objs, mat("C", "TC", spI, spJ).m())
					if mk != "" {
						objs = append(objs, mat("M", "TM", spI, spJ))
					}
					objs = append(objs, swapIf(tr == 1, mat("A", ty, spI, spJ)))
				}
				var opn, args, term string
				switch kind {
				case 0:
					opn, args, term = "Un()", src, "Un("+a+"@*)"
				case 1:
					objs = append(objs, Obj{nm: "s", k: 's', ty: "TA"})
					opn, args, term = "Op()", "s, "+src, "Op(s@*,"+a+"@*)"
				case 2:
					objs = append(objs, Obj{nm: "s", k: 's', ty: "TB"})
					opn, args, term = "Op()", src+", s", "Op("+a+"@*,s@*)"
				}
				objs = append(objs, Obj{nm: "o", k: 'o'})
				body := fmt.Sprintf("grb::apply(%s, %s, %s, %s, %s, %s);", out, maskExpr(mk, mask), accExpr(acc), opn, args, outpExpr)
				law := &OpLaw{out: out, mask: mask, mk: mk, acc: acc, cell: out + "@*"}
				law.T = func(cf *Conf) []*Want {
					if cf.pres[a] > 0 {
						return []*Want{{star: []string{term}, one: true}}
					}
					return []*Want{nil}
				}
				cs = append(cs, &Case{fn: fmt.Sprintf("apply_%s_%s_%d_%d", mk, bname(acc, "acc"), kind, tr), objs: objs, body: body,
					confs: stdConfs(objs, mask, mk, stdNames, nil), check: lawCheck(law, objs)})
			}
		}
		return cs
	})
}

func suiteTranspose() []*TU {
	return tuFor("transpose", preBin, maskKinds, func(mk string, acc bool) []*Case {
		var cs []*Case
		for tr := 0; tr < 2; tr++ {
			objs := []Obj{mat("C", "TC", spI, spJ).m()}
			if mk != "" {
				objs = append(objs, mat("M", "TM", spI, spJ))
			}
			objs = append(objs, swapIf(tr == 0, mat("A", "TD", spI, spJ)), Obj{nm: "o", k: 'o'})
			body := fmt.Sprintf("grb::transpose(C, %s, %s, %s, %s);", maskExpr(mk, "M"), accExpr(acc), trExpr(tr == 1, "A"), outpExpr)
			law := &OpLaw{out: "C", mask: "M", mk: mk, acc: acc, cell: "C@*"}
			law.T = func(cf *Conf) []*Want {
				if cf.pres["A"] > 0 {
					return []*Want{{star: []string{"A@*"}, one: true}}
				}
				return []*Want{nil}
			}
			cs = append(cs, &Case{fn: fmt.Sprintf("transpose_%s_%s_%s", mk, bname(acc, "acc"), bname(tr == 1, "At")), objs: objs, body: body,
				confs: stdConfs(objs, "M", mk, stdNames, nil), check: lawCheck(law, objs)})
		}
		return cs
	})
}

func suiteReduce() []*TU {
	tus := tuFor("reduce", preBin, maskKinds, func(mk string, acc bool) []*Case {
		var cs []*Case
		for tr := 0; tr < 2; tr++ {
			objs := []Obj{vec("w", "TC", spI).m()}
			if mk != "" {
				objs = append(objs, vec("m", "TM", spI))
			}
			objs = append(objs, swapIf(tr == 1, mat("A", "TD", spI, spJ)), Obj{nm: "o", k: 'o'})
			body := fmt.Sprintf("grb::reduce(w, %s, %s, Mon(), %s, %s);", maskExpr(mk, "m"), accExpr(acc), trExpr(tr == 1, "A"), outpExpr)
			law := &OpLaw{out: "w", mask: "m", mk: mk, acc: acc, cell: "w@*"}
			gaps := map[string]bool{gapLeaf("A", tr == 1, true, false): true}
			law.T = func(cf *Conf) []*Want {
				if cf.pres["A"] > 0 {
					return []*Want{{star: []string{"A@*"}, gap: gaps}}
				}
				return []*Want{nil, {gap: gaps}}
			}
			cs = append(cs, &Case{fn: fmt.Sprintf("reduce_%s_%s_%s", mk, bname(acc, "acc"), bname(tr == 1, "At")), objs: objs, body: body,
				confs: stdConfs(objs, "m", mk, stdNames, nil), check: lawCheck(law, objs)})
		}
		if mk == "" {
			for k := 0; k < 2; k++ {
				src := vec("u", "TD", spI)
				gaps := map[string]bool{"u@g": true, "#Mon.identity": true}
				if k == 1 {
					src = mat("A", "TD", spI, spJ)
					gaps = map[string]bool{"A@g*": true, "A@*g": true, "A@gg": true, "#Mon.identity": true}
				}
				objs := []Obj{Obj{nm: "val", k: 's', ty: "TC"}.m(), src}
				body := fmt.Sprintf("grb::reduce(val, %s, Mon(), %s);", accExpr(acc), src.nm)
				cs = append(cs, &Case{fn: fmt.Sprintf("reduce_s_%s_%d", bname(acc, "acc"), k), objs: objs, body: body,
					confs: stdConfs(objs, "", "", stdNames, nil), check: scalarReduceCheck(objs, src.nm, acc, gaps)})
			}
		}
		return cs
	})
	return tus
}

// scalarReduceCheck: val = val (+) sum of all elements.
func scalarReduceCheck(objs []Obj, src string, acc bool, gaps map[string]bool) func(r *Run) {
	return func(r *Run) {
		w := Want{gap: gaps}
		if r.cf.pres[src] > 0 {
			w.star = []string{src + "@*"}
		}
		if acc {
			w = *accWant("val@*", &w)
		}
		for _, st := range r.finals {
			if st.imp != "" {
				r.undecided(st.imp)
				continue
			}
			t := toTerm(r.in.read(st, r.locs["val"]))
			m := termMatches(t.t, w)
			if m == "?" {
				r.undecided("the value is not tracked")
			} else if m != "" && !(acc && r.cf.pres[src] == 0 && t.t.key == "val@*") {
				r.bad("val: expected %s: %s", wantStr(&w), m)
			}
			r.checkInputs(st, objs)
		}
		r.noThrow()
	}
}

func (r *Run) undecided(why string) {
	if r.undec == "" {
		r.undec = why
	}
}
func (r *Run) noThrow() {
	for _, o := range r.thrown {
		if o.st.imp == "" {
			r.bad("throws %s at %s", o.thr.ty, o.thr.pos)
		} else {
			r.undecided(o.st.imp)
		}
	}
	if len(r.finals) == 0 && len(r.thrown) == 0 {
		r.bad("no path terminates: %s", strings.Join(r.in.ubs(), "; "))
	}
}

func suiteKron() []*TU {
	const spP, spQ = 4, 5 // i*k and j*l
	names := map[int]string{spI: "i", spJ: "j", spK: "k", spL: "l", spP: "ik", spQ: "jl"}
	return tuFor("kron", preBin, maskKinds, func(mk string, acc bool) []*Case {
		var cs []*Case
		for tr := 0; tr < 4; tr++ {
			ta, tb := tr&1 != 0, tr&2 != 0
			objs := []Obj{mat("C", "TC", spP, spQ).m()}
			if mk != "" {
				objs = append(objs, mat("M", "TM", spP, spQ))
			}
			objs = append(objs, swapIf(ta, mat("A", "TA", spI, spJ)), swapIf(tb, mat("B", "TB", spK, spL)), Obj{nm: "o", k: 'o'})
			body := fmt.Sprintf("grb::kronecker(C, %s, %s, Op(), %s, %s, %s);", maskExpr(mk, "M"), accExpr(acc), trExpr(ta, "A"), trExpr(tb, "B"), outpExpr)
			law := &OpLaw{out: "C", mask: "M", mk: mk, acc: acc, cell: "C@*"}
			law.T = func(cf *Conf) []*Want {
				if cf.pres["A"] > 0 && cf.pres["B"] > 0 {
					return []*Want{{star: []string{"Op(A@*,B@*)"}, one: true}}
				}
				return []*Want{nil}
			}
			cs = append(cs, &Case{fn: fmt.Sprintf("kron_%s_%s_%d", mk, bname(acc, "acc"), tr), objs: objs, body: body,
				confs: stdConfs(objs, "M", mk, names, func(cf *Conf) []*Conf {
					cf.cfg.prod = map[[2]int]int{{spI, spK}: spP, {spJ, spL}: spQ}
					return []*Conf{cf}
				}), check: lawCheck(law, objs)})
		}
		return cs
	})
}

// index arguments: "all" is AllIndices(), "vec" a vector of indices
func ixExpr(kind, nm string) string {
	if kind == "all" {
		return "grb::AllIndices()"
	}
	return nm
}

func suiteExtract() []*TU {
	const pI, pJ = 4, 5 // positions
	names := map[int]string{spI: "i", spJ: "j", pI: "row position", pJ: "column position"}
	return tuFor("extract", preBin, maskKinds, func(mk string, acc bool) []*Case {
		var cs []*Case
		add := func(fn, out, mask string, objs []Obj, args, src string, ixs map[string][2]int) {
			objs = append(objs, Obj{nm: "o", k: 'o'})
			law := &OpLaw{out: out, mask: mask, mk: mk, acc: acc, cell: out + "@*"}
			law.T = func(cf *Conf) []*Want {
				if cf.pres[src] > 0 {
					return []*Want{{star: []string{src + "@*"}, one: true}}
				}
				return []*Want{nil}
			}
			body := fmt.Sprintf("grb::extract(%s, %s, %s, %s, %s);", out, maskExpr(mk, mask), accExpr(acc), args, outpExpr)
			cs = append(cs, &Case{fn: fn, objs: objs, body: body, confs: stdConfs(objs, mask, mk, names, func(cf *Conf) []*Conf {
				for n, p := range ixs {
					cf.ix[n] = IxMode{pos: p[0], rng: p[1], star: VIdx{sp: p[1], m: SP}, gap: VIdx{sp: p[1], m: SL | SP | SR}}
				}
				return []*Conf{cf}
			}), check: lawCheck(law, objs)})
		}
		a := bname(acc, "acc")
		for _, k := range []string{"all", "vec"} {
			wsp := spI
			var objs []Obj
			ixs := map[string][2]int{}
			if k == "vec" {
				wsp = pI
				ixs["ri"] = [2]int{pI, spI}
			}
			// vector
			objs = append(objs, vec("w", "TC", wsp).m())
			if mk != "" {
				objs = append(objs, vec("m", "TM", wsp))
			}
			objs = append(objs, vec("u", "TD", spI))
			if k == "vec" {
				objs = append(objs, Obj{nm: "ri", k: 'x', r: pI})
			}
			add(fmt.Sprintf("extractv_%s_%s_%s", mk, a, k), "w", "m", objs, "u, "+ixExpr(k, "ri"), "u", ixs)
			for _, tr := range []bool{false, true} {
				// column (row)
				objs := []Obj{vec("w", "TC", wsp).m()}
				if mk != "" {
					objs = append(objs, vec("m", "TM", wsp))
				}
				objs = append(objs, swapIf(tr, mat("A", "TD", spI, spJ)))
				if k == "vec" {
					objs = append(objs, Obj{nm: "ri", k: 'x', r: pI})
				}
				objs = append(objs, Obj{nm: "j", k: 'i', r: spJ})
				add(fmt.Sprintf("extractc_%s_%s_%s_%s", mk, a, k, bname(tr, "At")), "w", "m", objs, trExpr(tr, "A")+", "+ixExpr(k, "ri")+", j", "A", ixs)
				// matrix
				for _, k2 := range []string{"all", "vec"} {
					csp := spJ
					ix2 := map[string][2]int{}
					for a, b := range ixs {
						ix2[a] = b
					}
					if k2 == "vec" {
						csp = pJ
						ix2["ci"] = [2]int{pJ, spJ}
					}
					objs := []Obj{mat("C", "TC", wsp, csp).m()}
					if mk != "" {
						objs = append(objs, mat("M", "TM", wsp, csp))
					}
					objs = append(objs, swapIf(tr, mat("A", "TD", spI, spJ)))
					if k == "vec" {
						objs = append(objs, Obj{nm: "ri", k: 'x', r: pI})
					}
					if k2 == "vec" {
						objs = append(objs, Obj{nm: "ci", k: 'x', r: pJ})
					}
					add(fmt.Sprintf("extractm_%s_%s_%s%s_%s", mk, a, k, k2, bname(tr, "At")), "C", "M", objs, trExpr(tr, "A")+", "+ixExpr(k, "ri")+", "+ixExpr(k2, "ci"), "A", ix2)
				}
			}
		}
		return cs
	})
}

// inRegion reports how the index vectors of cf place the star cell.
func suiteAssign() []*TU {
	const pI, pJ = 4, 5
	names := map[int]string{spI: "i", spJ: "j", pI: "row position", pJ: "column position"}
	return tuFor("assign", preBin, maskKinds, func(mk string, acc bool) []*Case {
		var cs []*Case
		// ixs: index vectors; fixed: index parameters (space); src: source object or "" for the constant s
		add := func(fn, out, mask string, objs []Obj, args, src string, ixs map[string][2]int, fixed map[string]int) {
			objs = append(objs, Obj{nm: "o", k: 'o'})
			body := fmt.Sprintf("grb::assign(%s, %s, %s, %s, %s);", out, maskExpr(mk, mask), accExpr(acc), args, outpExpr)
			conf := stdConfs(objs, mask, mk, names, func(cf *Conf) []*Conf {
				cf.cfg.leq = map[[2]int]bool{{pI, spI}: true, {pJ, spJ}: true} // the indices are distinct
				r := []*Conf{cf}
				var keys []string
				for n := range ixs {
					keys = append(keys, n)
				}
				for n := range fixed {
					keys = append(keys, n)
				}
				if len(keys) == 2 && keys[0] > keys[1] {
					keys[0], keys[1] = keys[1], keys[0]
				}
				for _, n := range keys {
					var nr []*Conf
					if p, ok := ixs[n]; ok {
						for _, c := range r {
							x := c.dup()
							x.ix[n] = IxMode{pos: p[0], rng: p[1], star: VIdx{sp: p[1], m: SP}, gap: VIdx{sp: p[1], m: SL | SR}}
							x.desc += " in(" + n + ")"
							nr = append(nr, x)
							for _, m := range []uint8{SL, SR} {
								y := c.dup()
								y.ix[n] = IxMode{pos: p[0], rng: p[1], star: VIdx{sp: p[1], m: m}, gap: VIdx{sp: p[1], m: SL | SR}}
								y.desc += " out(" + n + ")" + slotName(m)
								y.outside = true
								nr = append(nr, y)
							}
						}
					} else {
						for _, c := range r {
							for _, m := range []uint8{SP, SL, SR} {
								y := c.dup()
								y.idx[n] = m
								if m != SP {
									y.desc += " " + n + "=" + slotName(m)
									y.otherLine = true
								}
								nr = append(nr, y)
							}
						}
					}
					r = nr
				}
				return r
			})
			cs = append(cs, &Case{fn: fn, objs: objs, body: body, confs: conf, check: func(r *Run) {
				law := &OpLaw{out: out, mask: mask, mk: mk, acc: acc, cell: out + "@*"}
				cw := &Want{star: []string{out + "@*"}, one: true}
				switch {
				case r.cf.otherLine:
					// another row (column): untouched whatever the mask says
					law.mk, law.acc = "", false
					law.T = func(cf *Conf) []*Want {
						if cf.pres[out] > 0 {
							return []*Want{cw}
						}
						return []*Want{nil}
					}
				case r.cf.outside:
					// not assigned: Z holds C here
					law.acc = false
					law.T = func(cf *Conf) []*Want {
						if cf.pres[out] > 0 {
							return []*Want{cw}
						}
						return []*Want{nil}
					}
				default:
					law.T = func(cf *Conf) []*Want {
						if src == "" {
							return []*Want{{star: []string{"s@*"}, one: true}}
						}
						if cf.pres[src] > 0 {
							return []*Want{{star: []string{src + "@*"}, one: true}}
						}
						return []*Want{nil}
					}
				}
				lawCheck(law, objs)(r)
			}})
		}
		a := bname(acc, "acc")
		for _, k := range []string{"all", "vec"} {
			usp := spI
			ixs := map[string][2]int{}
			if k == "vec" {
				usp = pI
				ixs["ri"] = [2]int{pI, spI}
			}
			xr := func(objs []Obj) []Obj {
				if k == "vec" {
					objs = append(objs, Obj{nm: "ri", k: 'x', r: pI})
				}
				return objs
			}
			wv := func() []Obj {
				objs := []Obj{vec("w", "TC", spI).m()}
				if mk != "" {
					objs = append(objs, vec("m", "TM", spI))
				}
				return objs
			}
			wm := func() []Obj {
				objs := []Obj{mat("C", "TC", spI, spJ).m()}
				if mk != "" {
					objs = append(objs, mat("M", "TM", spI, spJ))
				}
				return objs
			}
			S := Obj{nm: "s", k: 's', ty: "TD"}
			add(fmt.Sprintf("assignv_%s_%s_%s", mk, a, k), "w", "m", xr(append(wv(), vec("u", "TD", usp))), "u, "+ixExpr(k, "ri"), "u", ixs, nil)
			add(fmt.Sprintf("assignvc_%s_%s_%s", mk, a, k), "w", "m", xr(append(wv(), S)), "s, "+ixExpr(k, "ri"), "", ixs, nil)
			// one column, one row: the mask is a vector over that line
			{
				objs := []Obj{mat("C", "TC", spI, spJ).m()}
				if mk != "" {
					objs = append(objs, vec("m", "TM", spI))
				}
				objs = append(objs, vec("u", "TD", usp), Obj{nm: "j", k: 'i', r: spJ})
				add(fmt.Sprintf("assigncol_%s_%s_%s", mk, a, k), "C", "m", xr(objs), "u, "+ixExpr(k, "ri")+", j", "u", ixs, map[string]int{"j": spJ})
			}
			{
				csp := spJ
				ix2 := map[string][2]int{}
				objs := []Obj{mat("C", "TC", spI, spJ).m()}
				if mk != "" {
					objs = append(objs, vec("m", "TM", spJ))
				}
				if k == "vec" {
					csp = pJ
					ix2["ci"] = [2]int{pJ, spJ}
				}
				objs = append(objs, vec("u", "TD", csp), Obj{nm: "i", k: 'i', r: spI})
				if k == "vec" {
					objs = append(objs, Obj{nm: "ci", k: 'x', r: pJ})
				}
				add(fmt.Sprintf("assignrow_%s_%s_%s", mk, a, k), "C", "m", objs, "u, i, "+ixExpr(k, "ci"), "u", ix2, map[string]int{"i": spI})
			}
			for _, k2 := range []string{"all", "vec"} {
				csp := spJ
				ix2 := map[string][2]int{}
				for a, b := range ixs {
					ix2[a] = b
				}
				if k2 == "vec" {
					csp = pJ
					ix2["ci"] = [2]int{pJ, spJ}
				}
				xc := func(objs []Obj) []Obj {
					objs = xr(objs)
					if k2 == "vec" {
						objs = append(objs, Obj{nm: "ci", k: 'x', r: pJ})
					}
					return objs
				}
				for _, tr := range []bool{false, true} {
					add(fmt.Sprintf("assignm_%s_%s_%s%s_%s", mk, a, k, k2, bname(tr, "At")), "C", "M", xc(append(wm(), swapIf(tr, mat("A", "TD", usp, csp)))),
						trExpr(tr, "A")+", "+ixExpr(k, "ri")+", "+ixExpr(k2, "ci"), "A", ix2, nil)
				}
				add(fmt.Sprintf("assignmc_%s_%s_%s%s", mk, a, k, k2), "C", "M", xc(append(wm(), S)), "s, "+ixExpr(k, "ri")+", "+ixExpr(k2, "ci"), "", ix2, nil)
			}
		}
		return cs
	})
}

func (c *Conf) dup() *Conf {
	d := *c
	cfg := *c.cfg
	d.cfg = &cfg
	d.pres = map[string]int{}
	for k, v := range c.pres {
		d.pres[k] = v
	}
	d.idx = map[string]uint8{}
	for k, v := range c.idx {
		d.idx[k] = v
	}
	d.ix = map[string]IxMode{}
	for k, v := range c.ix {
		d.ix[k] = v
	}
	return &d
}

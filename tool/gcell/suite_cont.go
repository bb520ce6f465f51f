package main

import (
	"fmt"
	"strings"
)

// Containers: every method of Matrix and Vector acts on one map from
// positions to values, and keeps the representation invariant (rows strictly
// sorted, exact element counts).

func init() { suites["cont"] = suiteCont }

const preCont = "struct Dup { TC operator()(TC,TC) const; };\n"

// contLaw: what a container call must do at the distinguished position.
type contLaw struct {
	cells  map[string]func(cf *Conf) []*Want  // objects and their acceptable contents
	ret    map[string]func(cf *Conf) []string // result parameters: acceptable values ("" not constrained)
	throws func(cf *Conf) string              // exception every path must end in ("" none, "?x" may)
}

func (l *contLaw) check(objs []Obj) func(r *Run) {
	return func(r *Run) {
		th := ""
		if l.throws != nil {
			th = l.throws(r.cf)
		}
		may := strings.TrimPrefix(th, "?")
		opt := th == "" || strings.HasPrefix(th, "?")
		for _, o := range r.thrown {
			if o.st.imp != "" {
				r.undecided(o.st.imp)
				continue
			}
			if may == "" || !strings.Contains(o.thr.ty, may) {
				if may == "" {
					r.bad("throws %s at %s", o.thr.ty, o.thr.pos)
				} else {
					r.bad("throws %s at %s instead of %s", o.thr.ty, o.thr.pos, may)
				}
			}
			if !opt {
				r.unchanged(o.st, objs)
			}
		}
		for _, st := range r.finals {
			if st.imp != "" {
				r.undecided(st.imp)
				continue
			}
			if !opt {
				r.bad("returns normally although %s is due", may)
				continue
			}
			for _, o := range objs {
				if f := l.cells[o.nm]; f != nil {
					c, err := r.cell(st, o)
					if err != nil {
						r.bad("%s: %v", o.nm, err)
						continue
					}
					m := cellCheck(c.present, c.maybe, c.t.t, f(r.cf))
					if m == "?" {
						r.undecided("the stored value is not tracked")
						continue
					}
					if m != "" {
						r.bad("%s: %s", o.nm, m)
						continue
					}
					if c.bad != "" {
						r.bad("%s: row not strictly sorted: %s", o.nm, c.bad)
					}
					r.checkCount(o, c)
				}
				if f := l.ret[o.nm]; f != nil {
					want := f(r.cf)
					v := r.in.read(st, r.locs[o.nm])
					got := resStr(r, v)
					ok := len(want) == 0
					for _, w := range want {
						if w == got {
							ok = true
						}
					}
					if ok {
						continue
					}
					if got == "?" {
						r.undecided("the result is not tracked: " + keyOf(v))
					} else {
						r.bad("%s: expected %s, got %s", o.nm, strings.Join(want, " or "), got)
					}
				}
			}
			r.checkInputs(st, objs)
		}
		for _, e := range r.in.evs2() {
			if strings.HasPrefix(e, "fold: ") {
				r.bad("%s", e[6:])
			}
		}
		if len(r.finals) == 0 && len(r.thrown) == 0 {
			r.bad("no path terminates: %s", strings.Join(r.in.ubs(), "; "))
		}
	}
}

// unchanged: a call that is rejected leaves every argument alone.
func (r *Run) unchanged(st *State, objs []Obj) {
	for _, o := range objs {
		if r.init[o.nm] == nil {
			continue
		}
		a, b := r.init[o.nm], r.in.read(st, r.locs[o.nm])
		if norm(a) != norm(b) {
			r.bad("%s is modified although the call is rejected", o.nm)
		}
	}
}

func resStr(r *Run, v Val) string {
	switch x := v.(type) {
	case VInt:
		return fmt.Sprint(x.k)
	case VN:
		if x.d == 0 {
			return "N(" + r.in.spName(x.sp) + ")"
		}
	case VTerm:
		if strings.HasPrefix(x.t.key, "#") {
			return x.t.key[1:]
		}
		if x.t.op != "top" && x.t.op != "deep" {
			return x.t.key
		}
	case VCnt:
		if x.rel {
			return fmt.Sprintf("count%+d", x.b)
		}
	}
	return "?"
}

func suiteCont() []*TU {
	const pI, sI, sJ = 4, 5, 6
	names := map[int]string{spI: "i", spJ: "j", pI: "position", sI: "new rows", sJ: "new columns"}
	var tus []*TU
	w1 := func(s ...string) []*Want { return []*Want{{star: s, one: true}} }
	for _, pf := range platforms {
		tu := &TU{name: "cont", platform: pf, pre: preCont}
		add := func(fn string, objs []Obj, body string, l *contLaw, extra func(cf *Conf) []*Conf) {
			c := &Case{fn: fn, objs: objs, body: body, check: l.check(objs)}
			c.confs = stdConfs(objs, "", "", names, extra)
			tu.cases = append(tu.cases, c)
		}
		// keep only one output-control setting and vary index slots
		slots := func(nms ...string) func(cf *Conf) []*Conf {
			return func(cf *Conf) []*Conf {
				if cf.repl {
					return nil
				}
				r := []*Conf{cf}
				for _, n := range nms {
					var nr []*Conf
					for _, c := range r {
						for _, m := range []uint8{SP, SL, SR, SE} {
							y := c.dup()
							y.idx[n] = m
							y.desc += " " + n + "=" + slotName(m)
							nr = append(nr, y)
						}
					}
					r = nr
				}
				for _, c := range r {
					c.desc = strings.Replace(c.desc, " MERGE", "", 1)
				}
				return r
			}
		}
		once := slots()
		for _, k := range []byte{'m', 'v'} {
			k := k
			A, B := mat("A", "TC", spI, spJ), mat("B", "TC", spI, spJ)
			ixs := []Obj{{nm: "i", k: 'i', r: spI}, {nm: "j", k: 'i', r: spJ}}
			p, cls := "m_", "Matrix"
			ps, in, at := "i, j", []string{"i", "j"}, " at A(i,j)"
			if k == 'v' {
				A, B = vec("A", "TC", spI), vec("B", "TC", spI)
				ixs = ixs[:1]
				p, cls, ps, in = "v_", "Vector", "i", []string{"i"}
			}
			_ = at
			s := Obj{nm: "s", k: 's', ty: "TC"}
			hit := func(cf *Conf) bool {
				for _, m := range cf.idx {
					if m != SP {
						return false
					}
				}
				return true
			}
			oob := func(cf *Conf) string {
				for _, m := range cf.idx {
					if m == SE {
						return "IndexOutOfBoundsException"
					}
				}
				return ""
			}
			same := func(cf *Conf) []*Want {
				if cf.pres["A"] > 0 {
					return w1("A@*")
				}
				return []*Want{nil}
			}
			none := func(cf *Conf) []*Want { return []*Want{nil} }
			add(p+"set", append(append([]Obj{A.m()}, ixs...), s), "A.setElement("+ps+", s);", &contLaw{throws: oob,
				cells: map[string]func(*Conf) []*Want{"A": func(cf *Conf) []*Want {
					if hit(cf) {
						return w1("s@*")
					}
					return same(cf)
				}}}, slots(in...))
			add(p+"remove", append([]Obj{A.m()}, ixs...), "A.removeElement("+ps+");", &contLaw{throws: oob,
				cells: map[string]func(*Conf) []*Want{"A": func(cf *Conf) []*Want {
					if hit(cf) {
						return []*Want{nil}
					}
					return same(cf)
				}}}, slots(in...))
			add(p+"has", append(append([]Obj{A}, ixs...), Obj{nm: "b", k: 's', ty: "bool", mut: true}), "b = A.hasElement("+ps+");", &contLaw{throws: oob,
				ret: map[string]func(*Conf) []string{"b": func(cf *Conf) []string {
					if hit(cf) {
						return []string{fmt.Sprint(cf.pres["A"])}
					}
					return nil
				}}}, slots(in...))
			add(p+"get", append(append([]Obj{A}, ixs...), Obj{nm: "s", k: 's', ty: "TC", mut: true}), "s = A.extractElement("+ps+");", &contLaw{
				throws: func(cf *Conf) string {
					if t := oob(cf); t != "" {
						return t
					}
					if !hit(cf) {
						return "?NoValueException"
					}
					if cf.pres["A"] == 0 {
						return "NoValueException"
					}
					return ""
				},
				ret: map[string]func(*Conf) []string{"s": func(cf *Conf) []string {
					if hit(cf) {
						return []string{"A@*"}
					}
					return nil
				}}}, slots(in...))
			add(p+"clear", []Obj{A.m()}, "A.clear();", &contLaw{cells: map[string]func(*Conf) []*Want{"A": none}}, once)
			add(p+"copy", []Obj{A, B.m()}, "grb::"+cls+"<TC> T(A); B = T;", &contLaw{cells: map[string]func(*Conf) []*Want{"A": same, "B": same}}, once)
			add(p+"assign", []Obj{A, B.m()}, "B = A;", &contLaw{cells: map[string]func(*Conf) []*Want{"A": same, "B": same}}, once)
			add(p+"selfassign", []Obj{A.m()}, "A = A;", &contLaw{cells: map[string]func(*Conf) []*Want{"A": same}}, once)
			eq := func(neg int) func(cf *Conf) []string {
				return func(cf *Conf) []string {
					if cf.pres["A"] != cf.pres["B"] {
						return []string{fmt.Sprint(neg)}
					}
					return nil
				}
			}
			b := Obj{nm: "b", k: 's', ty: "bool", mut: true}
			add(p+"eq", []Obj{A, B, b}, "b = (A == B);", &contLaw{ret: map[string]func(*Conf) []string{"b": eq(0)}}, once)
			add(p+"ne", []Obj{A, B, b}, "b = (A != B);", &contLaw{ret: map[string]func(*Conf) []string{"b": eq(1)}}, once)
			n := Obj{nm: "n", k: 's', ty: "grb::IndexType", mut: true}
			dim := func(sp int) func(*Conf) []string {
				return func(*Conf) []string { return []string{"N(" + names[sp] + ")"} }
			}
			if k == 'm' {
				add("m_nrows", []Obj{A, n}, "n = A.nrows();", &contLaw{ret: map[string]func(*Conf) []string{"n": dim(spI)}}, once)
				add("m_ncols", []Obj{A, n}, "n = A.ncols();", &contLaw{ret: map[string]func(*Conf) []string{"n": dim(spJ)}}, once)
			} else {
				add("v_size", []Obj{A, n}, "n = A.size();", &contLaw{ret: map[string]func(*Conf) []string{"n": dim(spI)}}, once)
			}
			add(p+"nvals", []Obj{A, n}, "n = A.nvals();", &contLaw{ret: map[string]func(*Conf) []string{"n": func(cf *Conf) []string { return []string{fmt.Sprintf("count%+d", cf.pres["A"])} }}}, once)
			// constructors
			if k == 'v' {
				add("v_fill", []Obj{A.m(), s}, "grb::Vector<TC> T(A.size(), s); A = T;", &contLaw{cells: map[string]func(*Conf) []*Want{"A": func(*Conf) []*Want { return w1("s@*") }}}, once)
				add("v_dense", []Obj{A.m(), {nm: "v", k: 'd', ty: "TC", r: spI}}, "grb::Vector<TC> T(v); A = T;", &contLaw{cells: map[string]func(*Conf) []*Want{"A": func(*Conf) []*Want { return w1("v@*") }}}, once)
				add("v_fromdense", []Obj{A.m(), {nm: "v", k: 'd', ty: "TC", r: spI}}, "A = v;", &contLaw{cells: map[string]func(*Conf) []*Want{"A": func(*Conf) []*Want { return w1("v@*") }}}, once)
				add("v_densez", []Obj{A.m(), {nm: "v", k: 'd', ty: "TC", r: spI}, {nm: "z", k: 's', ty: "TC"}}, "grb::Vector<TC> T(v, z); A = T;", &contLaw{cells: map[string]func(*Conf) []*Want{"A": func(*Conf) []*Want { return []*Want{nil, {star: []string{"v@*"}, one: true}} }}}, once)
			}
			// build from index and value arrays
			bo := []Obj{A.m(), {nm: "ri", k: 'x', r: pI}}
			args := "ri, "
			if k == 'm' {
				bo = append(bo, Obj{nm: "ci", k: 'x', r: pI})
				args += "ci, "
			}
			bo = append(bo, Obj{nm: "v", k: 'd', ty: "TC", r: pI})
			bl := &contLaw{cells: map[string]func(*Conf) []*Want{"A": func(cf *Conf) []*Want {
				if cf.mode == "out" {
					return []*Want{nil}
				}
				return []*Want{{star: []string{"v@*"}, gap: map[string]bool{"v@g": true}, one: cf.mode != "dup"}}
			}}}
			add(p+"build", bo, "A.clear(); A.build("+args+"v, Dup());", bl, func(cf *Conf) []*Conf {
				if cf.repl {
					return nil
				}
				var r []*Conf
				any := uint8(SL | SP | SR)
				oth := uint8(SL | SR)
				mk := func(mode string, rs, rg, cs, cg uint8) {
					c := cf.dup()
					c.mode = mode
					c.desc = strings.Replace(c.desc, " MERGE", "", 1) + " " + mode
					c.ix["ri"] = IxMode{pos: pI, rng: spI, star: VIdx{sp: spI, m: rs}, gap: VIdx{sp: spI, m: rg}}
					if k == 'm' {
						c.ix["ci"] = IxMode{pos: pI, rng: spJ, star: VIdx{sp: spJ, m: cs}, gap: VIdx{sp: spJ, m: cg}}
						c.desc += fmt.Sprintf(" others in row %s column %s", slotName(rg), slotName(cg))
					}
					r = append(r, c)
				}
				mk("in", SP, oth, SP, any)
				mk("out", oth, oth, SP, any)
				mk("dup", SP, any, SP, any)
				if k == 'm' {
					mk("in", SP, any, SP, oth)
					mk("out", SP, any, oth, oth)
				}
				return r
			})
		}
		tus = append(tus, tu)
	}
	return tus
}

package main

// Local counters.  A local integer that only counts things in loops cannot be
// followed as a number: the loops run an unknown number of times.  It is
// followed, like the element counter of a container, by how much of it was
// counted for the star element and how much for others.  What was added in one
// round of a loop belongs to the star if that round dealt with star elements
// only, to the others if it dealt with none; otherwise nothing is known of the
// counter from there on.

const ( // what a round of a loop has accessed
	accWS = 1 << iota // wrote a star element
	accWG             // wrote another element
	accRS             // read a star element
	accRG             // read another element
)

// accOf: whose the round is: 1 the star's, 2 another's, 0 unclear.
func accOf(a uint8) int {
	switch {
	case a&accWS != 0 && a&accWG == 0:
		return 1
	case a&accWG != 0 && a&accWS == 0:
		return 2
	case a&(accWG|accWS) != 0:
		return 0
	case a == accRS:
		return 1
	case a == accRG:
		return 2
	}
	return 0
}

func (in *I) access(st *State, l Loc, wr bool) {
	if !st.ctr {
		return
	}
	el := false
	for i := 0; i < len(l.p); i += 2 {
		if l.p[i] == 'd' || l.p[i] == 'r' {
			el = true
		}
	}
	if !el {
		return
	}
	b := uint8(accRG)
	if l.strong() {
		b = accRS
	}
	if wr {
		b >>= 2
	}
	st.acc |= b
	st.accAll |= b
}
func (in *I) accessRow(st *State, l Loc, s uint8, wr bool) {
	if st.ctr {
		if s != SP {
			s = SL
		}
		in.access(st, l.row(s), wr)
	}
}

// settleCtr attributes what was added to a local counter.
func settleCtr(c VCnt, acc uint8) Val {
	c.b, c.p = sat(c.b+c.p), 0 // known to be the star's, whatever else the round has seen
	if c.k == 0 {
		return c
	}
	w := accOf(acc)
	if w == 0 {
		return VUnk{}
	}
	n, _ := settle(c, w == 1)
	if x, ok := n.(VCnt); ok {
		x.ctr = true
		return x
	}
	return n
}
func newCtr() Val { return VCnt{rel: true, ctr: true, src: noLoc} }

// noCtr: a counter's value where it is used for something else.
func noCtr(st *State, v Val) Val {
	c, ok := v.(VCnt)
	if !ok || !c.ctr {
		return v
	}
	if x, ok := settleCtr(c, st.acc).(VCnt); ok {
		x.ctr = false
		return x
	}
	return VUnk{}
}

// findCtrs: the local variables that only count.
func (p *Prog) findCtrs() {
	p.ctrs = map[int]bool{}
	cand := map[int]bool{}
	stepd := map[int]bool{}
	bad := map[int]bool{}
	for _, f := range p.Fns {
		if f.Body == nil {
			continue
		}
		isInt := func(t int) bool {
			return p.Tys[t].K == "int"
		}
		strip := func(e *Expr) *Expr {
			for e != nil && (e.E == "wrap" || e.E == "cast" || e.E == "tmp") {
				e = e.X
			}
			return e
		}
		varOf := func(e *Expr) int {
			if e = strip(e); e != nil && e.E == "var" {
				return e.D
			}
			return 0
		}
		isLit := func(e *Expr) bool { e = strip(e); return e != nil && e.E == "int" && e.V == "0" }
		spoil := func(e *Expr) {
			var w func(e *Expr)
			w = func(e *Expr) {
				e = strip(e)
				if e == nil {
					return
				}
				if e.E == "var" {
					bad[e.D] = true
				}
				if e.E == "bin" || e.E == "un" {
					w(e.X)
					w(e.Y)
				}
			}
			w(e)
		}
		var ex func(e *Expr, loop int)
		ex = func(e *Expr, loop int) {
			if e == nil {
				return
			}
			switch e.E {
			case "un":
				if d := varOf(e.X); d != 0 {
					switch {
					case (e.Op == "++" || e.Op == "--") && loop > 0:
						stepd[d] = true
					case e.Op == "&":
						bad[d] = true
					}
				}
			case "cassign":
				if d := varOf(e.X); d != 0 && loop > 0 {
					if e.Op == "+" || e.Op == "+=" || e.Op == "-" || e.Op == "-=" {
						stepd[d] = true
					} else {
						bad[d] = true
					}
				}
			case "assign":
				if d := varOf(e.X); d != 0 {
					if y := strip(e.Y); y != nil && y.E == "bin" && y.Op == "+" && (varOf(y.X) == d || varOf(y.Y) == d) {
						if loop > 0 {
							stepd[d] = true
						}
					} else if !isLit(e.Y) {
						bad[d] = true
					}
				}
			case "bin":
				switch e.Op {
				case "<", ">", "<=", ">=", "==", "!=":
					if !isLit(e.X) && !isLit(e.Y) {
						spoil(e.X)
						spoil(e.Y)
					}
				case "*", "/", "%", "&", "|", "^", "<<", ">>":
					spoil(e.X)
					spoil(e.Y)
				}
			case "sub":
				spoil(e.Y)
			case "call", "calli", "ctor":
				sn := ""
				if e.Fn != nil && p.fnBy[*e.Fn] != nil {
					sn = p.fnBy[*e.Fn].SN
				}
				for _, a := range e.A {
					if sn != "set_nvals" {
						spoil(a)
					}
				}
			}
			ex(e.X, loop)
			ex(e.Y, loop)
			ex(e.C, loop)
			for _, a := range e.A {
				ex(a, loop)
			}
		}
		var sm func(s *Stmt, loop int)
		sm = func(s *Stmt, loop int) {
			if s == nil {
				return
			}
			for _, v := range s.Vs {
				if v.X != nil {
					if isInt(v.T) && v.Static == 0 && isLit(initOf(v.X)) {
						cand[v.D] = true
					}
					ex(v.X, loop)
				}
			}
			for _, b := range s.Blk {
				sm(b, loop)
			}
			sm(s.Init, loop)
			for _, b := range s.Pre {
				sm(b, loop)
			}
			in := loop
			switch s.S {
			case "for", "while", "do", "rfor":
				in++
			}
			sm(s.Cv, in)
			ex(s.C, in)
			ex(s.Inc, in)
			ex(s.E, in)
			sm(s.B, in)
			sm(s.X, in)
			sm(s.Y, in)
			sm(s.Lv, in)
			for _, h := range s.Hs {
				sm(h.B, in)
			}
		}
		depth := 0
		if f.RecID != nil && p.lambdas[*f.RecID] != nil {
			depth = 1 // what an algorithm calls
		}
		sm(f.Body, depth)
	}
	for d := range cand {
		if stepd[d] && !bad[d] {
			p.ctrs[d] = true
		}
	}
}
func initOf(e *Expr) *Expr {
	for e != nil && e.E == "ilist" && len(e.A) == 1 {
		e = e.A[0]
	}
	return e
}

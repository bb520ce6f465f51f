package main

import (
	"strings"
)

func (in *I) ref(v Val) (Loc, bool) {
	switch x := v.(type) {
	case VRef:
		return x.loc, true
	}
	return noLoc, false
}

// val: the value of an evaluated expression (glvalues are read).
func (in *I) val(st *State, v Val) Val {
	if r, ok := v.(VRef); ok {
		if st.ctr {
			in.access(st, r.loc, false)
		}
		return in.read(st, r.loc)
	}
	return v
}

// ev evaluates an expression and reads it if it is a glvalue.
func (in *I) ev(st *State, e *Expr, k func(*State, Val)) {
	in.eval(st, e, func(st *State, v Val) {
		if e.Lv > 0 {
			v = in.val(st, v)
		}
		if p, ok := v.(VProxy); ok {
			v = in.read(st, p.loc)
		}
		k(st, v)
	})
}

// loc evaluates an expression to a location, materialising a prvalue.
func (in *I) loc(st *State, e *Expr, k func(*State, Loc)) {
	in.eval(st, e, func(st *State, v Val) {
		if e.Lv > 0 {
			if r, ok := v.(VRef); ok {
				k(st, r.loc)
				return
			}
		}
		k(st, st.alloc(v))
	})
}

// writer gives the function that refines the variable an rvalue was read from.
func (in *I) writer(e *Expr) func(v Val) Val { return nil }

// lvOf: the lvalue expression under value-preserving conversions, or nil.
func lvOf(e *Expr) *Expr {
	for e != nil {
		switch e.E {
		case "wrap", "tmp":
			e = e.X
			continue
		case "cast":
			switch e.K {
			case "LValueToRValue", "NoOp", "IntegralCast":
				e = e.X
				continue
			}
			return nil
		case "ctor":
			return nil
		}
		break
	}
	if e != nil && e.Lv > 0 && (e.E == "var" || e.E == "mem" || e.E == "un" || e.E == "call") {
		return e
	}
	return nil
}

// evRef evaluates an operand to its value and, when it is read from a
// variable, the location it was read from (for refinement).
func (in *I) evRef(st *State, e *Expr, k func(st *State, v Val, w func(*State, Val))) {
	if lv := lvOf(e); lv != nil && (lv.E == "var" || lv.E == "mem" || lv.E == "un") {
		in.eval(st, lv, func(st *State, v Val) {
			r, ok := v.(VRef)
			if !ok {
				k(st, v, nil)
				return
			}
			x := in.read(st, r.loc)
			switch x.(type) {
			case VInt, VIdx:
				l := r.loc
				k(st, x, func(st *State, n Val) {
					if l.strong() {
						in.write(st, l, n)
					}
				})
				return
			case VUninit:
				in.ub(st, "read of an uninitialised variable")
				return
			}
			// run the conversions that were skipped
			in.eval(st, e, func(st *State, v Val) {
				if e.Lv > 0 {
					v = in.val(st, v)
				}
				k(st, v, nil)
			})
		})
		return
	}
	in.ev(st, e, func(st *State, v Val) { k(st, v, nil) })
}

func (in *I) evs(st *State, es []*Expr, k func(*State, []Val)) {
	in.evsN(st, es, nil, k)
}
func (in *I) evsN(st *State, es []*Expr, acc []Val, k func(*State, []Val)) {
	if len(es) == len(acc) {
		k(st, acc)
		return
	}
	in.eval(st, es[len(acc)], func(st *State, v Val) {
		n := make([]Val, len(acc)+1)
		copy(n, acc)
		n[len(acc)] = v
		in.evsN(st, es, n, k)
	})
}

func (in *I) eval(st *State, e *Expr, k func(*State, Val)) {
	if e == nil {
		k(st, VUnk{})
		return
	}
	in.steps++
	if in.steps > in.budget {
		panic(budgetExceeded{})
	}
	if e.L > 0 {
		in.line = e.L
	}
	switch e.E {
	case "int":
		k(st, VInt{e.iv})
	case "flt":
		k(st, VTerm{leaf("#" + e.V), "", in.p.Tys[e.T].N})
	case "str":
		k(st, VOpq{})
	case "null":
		k(st, VNull{})
	case "wrap":
		in.eval(st, e.X, k)
	case "var":
		l, ok := in.lookup(st, e.D)
		if !ok {
			in.imprecise(st, "unmodelled variable "+e.N)
			k(st, VRef{st.alloc(VUnk{})})
			return
		}
		k(st, VRef{l})
	case "fref":
		if e.Fn != nil {
			k(st, VFn{*e.Fn})
		} else {
			k(st, VUnk{})
		}
	case "this":
		l, ok := in.lookup(st, -1)
		if !ok {
			k(st, VUnk{})
			return
		}
		k(st, VRef{l})
	case "mem":
		fin := func(st *State, l Loc) {
			fl := l.field(e.Fi)
			if e.Rec >= 0 && e.Rec < len(in.p.Recs) {
				r := in.p.Recs[e.Rec]
				if e.Fi < len(r.Fs) && in.p.isRef(r.Fs[e.Fi].T) {
					v := in.read(st, fl)
					if rv, ok := v.(VRef); ok {
						k(st, rv)
						return
					}
				}
				if r.Own == 0 { // std::pair
					if strings.HasPrefix(r.N, "std::pair") || strings.HasPrefix(r.FN, "std::pair") {
						fl = l.field(e.Fi)
					}
				}
			}
			k(st, VRef{fl})
		}
		if e.Ar != 0 {
			in.ev(st, e.X, func(st *State, v Val) {
				if r, ok := v.(VRef); ok {
					fin(st, r.loc)
					return
				}
				in.imprecise(st, "member access through an unmodelled pointer")
				k(st, VRef{st.alloc(VUnk{})})
			})
			return
		}
		in.loc(st, e.X, fin)
	case "tmp":
		in.eval(st, e.X, func(st *State, v Val) {
			if r, ok := v.(VRef); ok && e.X.Lv > 0 {
				k(st, r)
				return
			}
			k(st, VRef{st.alloc(v)})
		})
	case "cast":
		in.cast(st, e, k)
	case "un":
		in.unary(st, e, k)
	case "assign":
		in.eval(st, e.X, func(st *State, lv Val) {
			in.ev(st, e.Y, func(st *State, v Val) {
				r, ok := lv.(VRef)
				if !ok {
					in.imprecise(st, "assignment to an unmodelled location")
					k(st, lv)
					return
				}
				in.write(st, r.loc, v)
				k(st, r)
			})
		})
	case "cassign":
		in.eval(st, e.X, func(st *State, lv Val) {
			in.ev(st, e.Y, func(st *State, v Val) {
				r, ok := lv.(VRef)
				if !ok {
					in.imprecise(st, "assignment to an unmodelled location")
					k(st, lv)
					return
				}
				in.arith(st, e.Op, in.read(st, r.loc), v, func(st *State, v Val) {
					in.write(st, r.loc, v)
					k(st, r)
				})
			})
		})
	case "bin":
		in.binary(st, e, k)
	case "cond":
		in.cond(st, e.C, func(st *State, b bool) {
			if b {
				in.eval(st, e.X, k)
			} else {
				in.eval(st, e.Y, k)
			}
		})
	case "throw":
		t := ""
		if e.Tt != nil {
			t = in.p.Tys[in.p.nonref(*e.Tt)].N
		}
		in.throw(st, t)
	case "lambda":
		in.lambda(st, e, k)
	case "zero":
		k(st, in.zeroVal(e.T))
	case "ilist":
		in.ilist(st, e, k)
	case "ctor":
		in.construct(st, e, k)
	case "call":
		in.call(st, e, k)
	case "calli":
		in.ev(st, e.X, func(st *State, f Val) {
			in.evs(st, e.A, func(st *State, as []Val) {
				if fv, ok := f.(VFn); ok {
					if fn := in.p.fnBy[fv.fn]; fn != nil && fn.Body != nil {
						in.callFn(st, fn, noLoc, as, k)
						return
					}
				}
				in.imprecise(st, "call through a pointer")
				k(st, VUnk{})
			})
		})
	case "sub":
		in.ev(st, e.X, func(st *State, b Val) {
			in.ev(st, e.Y, func(st *State, i Val) {
				in.imprecise(st, "subscript of a raw pointer or array")
				k(st, VRef{st.alloc(VUnk{})})
			})
		})
	default:
		in.imprecise(st, "unmodelled expression "+e.E+" "+e.K)
		if e.Lv > 0 {
			k(st, VRef{st.alloc(VUnk{})})
		} else {
			k(st, VUnk{})
		}
	}
}

func (in *I) zeroVal(t int) Val {
	ty := in.p.Tys[in.p.nonref(t)]
	switch ty.K {
	case "int", "bool", "enum":
		return VInt{0}
	case "flt":
		return VInt{0}
	case "ptr", "null":
		return VNull{}
	case "rec":
		return in.defaultRec(t)
	}
	return VUnk{}
}

// defaultRec: value-initialised object of class type.
func (in *I) defaultRec(t int) Val {
	r := in.p.rec(t)
	if r == nil {
		return VUnk{}
	}
	if in.isVector(r) {
		return in.emptyVec(r)
	}
	if strings.HasPrefix(r.N, "std::tuple") || strings.HasPrefix(r.N, "std::pair") {
		v := VRec{-1, nil}
		for _, a := range r.Ta {
			v.f = append(v.f, in.zeroVal(a))
		}
		return v
	}
	if r.Own != 0 {
		v := VRec{r.Id, nil}
		for _, f := range r.Fs {
			v.f = append(v.f, in.zeroVal(f.T))
		}
		for _, b := range r.Bs {
			v.f = append(v.f, in.zeroVal(b))
		}
		return v
	}
	return VOpq{}
}

func (in *I) ilist(st *State, e *Expr, k func(*State, Val)) {
	ty := in.p.Tys[in.p.nonref(e.T)]
	in.evs(st, e.A, func(st *State, vs []Val) {
		for i := range vs {
			if e.A[i].Lv > 0 && ty.K == "rec" {
				r := in.p.rec(e.T)
				if r != nil && i < len(r.Fs) && in.p.isRef(r.Fs[i].T) {
					continue
				}
				vs[i] = in.val(st, vs[i])
			}
		}
		if ty.K != "rec" {
			if len(vs) == 1 {
				k(st, vs[0])
			} else if len(vs) == 0 {
				k(st, in.zeroVal(e.T))
			} else {
				k(st, VUnk{})
			}
			return
		}
		r := in.p.rec(e.T)
		if r != nil && r.Own != 0 {
			k(st, VRec{r.Id, vs})
			return
		}
		k(st, VOpq{})
	})
}

func (in *I) lambda(st *State, e *Expr, k func(*State, Val)) {
	v := VRec{e.Rec, make([]Val, len(e.Caps))}
	var rec func(st *State, i int)
	rec = func(st *State, i int) {
		if i == len(e.Caps) {
			k(st, v)
			return
		}
		c := e.Caps[i]
		in.eval(st, c.X, func(st *State, x Val) {
			nv := VRec{v.rec, append([]Val{}, v.f...)}
			if c.Ref == 0 && c.This == 0 && c.X.Lv > 0 {
				x = in.val(st, x)
			}
			nv.f[i] = x
			old := v
			v = nv
			rec(st, i+1)
			v = old
		})
	}
	rec(st, 0)
}

func (in *I) cast(st *State, e *Expr, k func(*State, Val)) {
	switch e.K {
	case "LValueToRValue":
		in.eval(st, e.X, func(st *State, v Val) {
			if r, ok := v.(VRef); ok && e.X.Lv > 0 {
				v = in.read(st, r.loc)
			}
			if _, ok := v.(VUninit); ok {
				in.ub(st, "read of an uninitialised variable")
				return
			}
			k(st, v)
		})
	case "IntegralCast", "IntegralToFloating", "FloatingCast", "FloatingToIntegral":
		in.eval(st, e.X, func(st *State, v Val) {
			if e.X.Lv > 0 {
				v = in.val(st, v)
			}
			to := in.p.Tys[e.T]
			switch x := v.(type) {
			case VTerm:
				k(st, convTerm(x, to.N))
			case VIdx, VN, VCnt:
				if to.K == "int" && to.W < 64 {
					in.event("narrow", "an index or size is converted to "+to.N)
				}
				k(st, v)
			default:
				k(st, v)
			}
		})
	case "IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean":
		in.eval(st, e.X, func(st *State, v Val) {
			if e.X.Lv > 0 {
				v = in.val(st, v)
			}
			in.truth(st, v, func(st *State, b bool) {
				if b {
					k(st, VInt{1})
				} else {
					k(st, VInt{0})
				}
			})
		})
	case "DerivedToBase", "UncheckedDerivedToBase":
		in.eval(st, e.X, func(st *State, v Val) {
			from, to := e.X.T, e.T
			if in.p.Tys[in.p.nonref(from)].K == "ptr" {
				from, to = in.p.Tys[in.p.nonref(from)].P, in.p.Tys[in.p.nonref(to)].P
			}
			path, ok := in.basePath(from, to)
			if !ok {
				k(st, v)
				return
			}
			if r, ok := v.(VRef); ok {
				l := r.loc
				for _, i := range path {
					l = l.field(i)
				}
				k(st, VRef{l})
				return
			}
			for _, i := range path {
				if rv, ok := v.(VRec); ok && i < len(rv.f) {
					v = rv.f[i]
				} else {
					v = VUnk{}
				}
			}
			k(st, v)
		})
	case "NullToPointer":
		k(st, VNull{})
	case "ToVoid":
		in.eval(st, e.X, func(st *State, v Val) { k(st, VUnk{}) })
	default:
		in.eval(st, e.X, k)
	}
}

func convTerm(x VTerm, to string) VTerm {
	cur := x.nt
	if i := strings.LastIndexByte(x.ch, '>'); i >= 0 {
		cur = x.ch[i+1:]
	} else if x.ch != "" {
		cur = x.ch
	}
	if cur == to {
		return x
	}
	if x.t.op == "top" {
		return x
	}
	if x.ch == "" {
		x.ch = to
	} else {
		// cycles add nothing
		parts := strings.Split(x.ch, ">")
		for i, p := range parts {
			if p == to {
				_ = i
				if len(parts) >= 3 {
					return x
				}
			}
		}
		if len(parts) >= 4 {
			return x
		}
		x.ch += ">" + to
	}
	return x
}

func (in *I) basePath(from, to int) ([]int, bool) {
	fr, tr := in.p.rec(from), in.p.rec(to)
	if fr == nil || tr == nil || fr.Own == 0 {
		return nil, false
	}
	if fr.Id == tr.Id {
		return nil, true
	}
	for j, b := range fr.Bs {
		if p, ok := in.basePath(b, to); ok {
			return append([]int{len(fr.Fs) + j}, p...), true
		}
		if br := in.p.rec(b); br != nil && br.Id == tr.Id {
			return []int{len(fr.Fs) + j}, true
		}
	}
	return nil, false
}

func (in *I) unary(st *State, e *Expr, k func(*State, Val)) {
	switch e.Op {
	case "!":
		in.cond(st, e.X, func(st *State, b bool) {
			if b {
				k(st, VInt{0})
			} else {
				k(st, VInt{1})
			}
		})
	case "&":
		in.eval(st, e.X, k)
	case "*":
		in.ev(st, e.X, func(st *State, v Val) {
			switch x := v.(type) {
			case VRef:
				k(st, x)
			case VNull:
				in.ub(st, "dereference of a null pointer")
			default:
				in.imprecise(st, "dereference of an unmodelled pointer")
				k(st, VRef{st.alloc(VUnk{})})
			}
		})
	case "++", "--":
		d := 1
		if e.Op == "--" {
			d = -1
		}
		in.eval(st, e.X, func(st *State, lv Val) {
			r, ok := lv.(VRef)
			if !ok {
				in.imprecise(st, "increment of an unmodelled location")
				k(st, lv)
				return
			}
			old := in.read(st, r.loc)
			in.step(st, old, d, func(st *State, old, nv Val) {
				in.write(st, r.loc, nv)
				if e.Post != 0 {
					k(st, old)
				} else {
					k(st, r)
				}
			})
		})
	case "-":
		in.ev(st, e.X, func(st *State, v Val) {
			switch x := v.(type) {
			case VInt:
				k(st, VInt{-x.k})
			case VTerm:
				k(st, VTerm{app("neg", x.t), "", in.p.Tys[e.T].N})
			default:
				k(st, VUnk{})
			}
		})
	case "+":
		in.ev(st, e.X, k)
	case "__extension__":
		in.eval(st, e.X, k)
	default:
		in.ev(st, e.X, func(st *State, v Val) {
			if t, ok := v.(VTerm); ok {
				k(st, VTerm{app("u"+e.Op, t.t), "", in.p.Tys[e.T].N})
				return
			}
			k(st, VUnk{})
		})
	}
}

// step: x+1 or x-1.
func (in *I) step(st *State, v Val, d int, k func(st *State, old, nv Val)) {
	switch x := v.(type) {
	case VInt:
		n := x.k + int64(d)
		if n > 4 {
			k(st, v, VCnt{k: 1, g: 1, src: noLoc})
			return
		}
		if n < -4 {
			k(st, v, VUnk{})
			return
		}
		k(st, v, VInt{n})
	case VCnt:
		k(st, v, addCnt(x, 0, d, 0))
	case VIdx:
		st.gbits = nil
		in.split(st, x, nil, func(st *State, o Val) {
			x := o.(VIdx)
			var m uint8
			if d > 0 {
				switch x.m {
				case SL:
					m = SL | SP
				case SP, SR:
					m = SR | SE
				case SE:
					m = SE
				}
			} else {
				switch x.m {
				case SL, SP:
					m = SL
				case SR, SE:
					m = SP | SR
				}
			}
			in.split(st, VIdx{sp: x.sp, m: m}, nil, func(st *State, n Val) {
				nx := n.(VIdx)
				nx.lk, nx.off = x.lk, x.off+int8(d)
				if d == 1 {
					var ok bool
					if nx, ok = in.stepRel(st, x, nx); !ok {
						return
					}
				}
				k(st, o, nx)
			})
		})
	case VN:
		if d < 0 && x.d == 0 {
			// N-1 as a loop counter: the last index
			in.split(st, VIdx{sp: x.sp, m: SP | SR}, nil, func(st *State, n Val) { k(st, x, n) })
			return
		}
		k(st, v, VN{x.sp, x.d + d})
	case VIt:
		if d > 0 {
			in.itNext(st, x, func(st *State, n VIt) { k(st, x, n) })
		} else {
			in.itPrev(st, x, func(st *State, n VIt) { k(st, x, n) })
		}
	case VTerm:
		op := "+"
		if d < 0 {
			op = "-"
		}
		k(st, v, VTerm{app(op, x.t, lit(1)), "", x.nt})
	case VUninit:
		in.ub(st, "increment of an uninitialised variable")
	default:
		k(st, v, VUnk{})
	}
}

func (in *I) binary(st *State, e *Expr, k func(*State, Val)) {
	b2v := func(st *State, b bool) {
		if b {
			k(st, VInt{1})
		} else {
			k(st, VInt{0})
		}
	}
	switch e.Op {
	case "&&", "||":
		in.cond(st, e, b2v)
	case ",":
		in.eval(st, e.X, func(st *State, _ Val) { in.eval(st, e.Y, k) })
	case "==", "!=", "<", "<=", ">", ">=":
		in.evRef(st, e.X, func(st *State, a Val, wa func(*State, Val)) {
			in.evRef(st, e.Y, func(st *State, b Val, wb func(*State, Val)) {
				in.cmp(st, e.Op, a, b, wa, wb, b2v)
			})
		})
	default:
		in.ev(st, e.X, func(st *State, a Val) {
			in.ev(st, e.Y, func(st *State, b Val) {
				in.arith(st, e.Op, a, b, k)
			})
		})
	}
}

func (in *I) arith(st *State, op string, a, b Val, k func(*State, Val)) {
	if p, ok := a.(VProxy); ok {
		a = in.read(st, p.loc)
	}
	if p, ok := b.(VProxy); ok {
		b = in.read(st, p.loc)
	}
	_, ua := a.(VUninit)
	_, ub := b.(VUninit)
	if ua || ub {
		in.ub(st, "arithmetic on an uninitialised value")
		return
	}
	ta, aok := a.(VTerm)
	tb, bok := b.(VTerm)
	if aok || bok {
		if !aok {
			ta = toTerm(a)
		}
		if !bok {
			tb = toTerm(b)
		}
		nt := ta.nt
		if !aok {
			nt = tb.nt
		}
		if op == "+" && in.monoid["+"] {
			k(st, VTerm{bagAdd(ta.t, tb.t), "", nt})
			return
		}
		k(st, VTerm{app(op, ta.t, tb.t), "", nt})
		return
	}
	switch op {
	case "+":
		switch x := a.(type) {
		case VInt:
			switch y := b.(type) {
			case VInt:
				k(st, VInt{x.k + y.k})
				return
			case VUnk:
				k(st, VUnk{})
				return
			}
			in.arith(st, op, b, a, k)
			return
		case VCnt:
			switch y := b.(type) {
			case VInt:
				k(st, addCnt(x, 0, int(y.k), 0))
				return
			case VCnt:
				k(st, addCnts(x, y))
				return
			}
		case VIdx:
			if y, ok := b.(VInt); ok {
				if y.k == 0 {
					k(st, x)
					return
				}
				if y.k == 1 {
					in.step(st, x, 1, func(st *State, _, n Val) { k(st, n) })
					return
				}
			}
			if y, ok := b.(VPB); ok {
				in.arith(st, op, y, x, k)
				return
			}
		case VN:
			if y, ok := b.(VInt); ok {
				k(st, VN{x.sp, x.d + int(y.k)})
				return
			}
			if c, ok := b.(VCnt); ok { // e.g. counting from a full container
				_ = c
				k(st, VUnk{})
				return
			}
		case VPB:
			if y, ok := b.(VIdx); ok && y.sp == x.b {
				sp, ok := in.cfg.prod[[2]int{x.a, x.b}]
				if ok {
					if !single(y.m) {
						in.split(st, y, nil, func(st *State, y Val) { in.arith(st, op, x, y, k) })
						return
					}
					m := x.m
					if m == SP {
						m = y.m
						if m == SE {
							m = SR | SE
						}
					}
					if x.m == SR && y.m == SE {
						m = SR | SE
					}
					if x.m == SL && y.m == SE {
						m = SL | SP
					}
					k(st, VIdx{sp: sp, m: m})
					return
				}
			}
			if y, ok := b.(VInt); ok && y.k == 0 {
				// first index of the block
				in.promote(st, y, x.b, func(st *State, y Val) { in.arith(st, op, x, y, k) })
				return
			}
		case VIt:
			if y, ok := b.(VInt); ok {
				if y.k == 0 {
					k(st, x)
					return
				}
				if y.k > 0 && y.k < 4 {
					in.itNext(st, x, func(st *State, n VIt) { in.arith(st, op, n, VInt{y.k - 1}, k) })
					return
				}
				if y.k == -1 {
					in.itPrev(st, x, func(st *State, n VIt) { k(st, n) })
					return
				}
			}
		}
	case "-":
		switch x := a.(type) {
		case VInt:
			switch y := b.(type) {
			case VInt:
				k(st, VInt{x.k - y.k})
				return
			case VCnt:
				k(st, mkCnt(-y.p, int(x.k)-y.k, y.g))
				return
			}
		case VCnt:
			switch y := b.(type) {
			case VInt:
				k(st, addCnt(x, 0, -int(y.k), 0))
				return
			case VCnt:
				k(st, subCnts(x, y))
				return
			}
		case VN:
			switch y := b.(type) {
			case VInt:
				if y.k == 0 || y.k == 1 {
					k(st, VN{x.sp, x.d - int(y.k)})
					return
				}
			case VN:
				if x.sp == y.sp {
					k(st, VInt{int64(x.d - y.d)})
					return
				}
			}
		case VIdx:
			if y, ok := b.(VInt); ok {
				if y.k == 0 {
					k(st, x)
					return
				}
				if y.k == 1 {
					in.step(st, x, -1, func(st *State, _, n Val) { k(st, n) })
					return
				}
			}
		}
	case "*":
		for _, ab := range [][2]Val{{a, b}, {b, a}} {
			if y, ok := ab[1].(VN); ok && y.d == 0 {
				if x, ok := ab[0].(VIdx); ok {
					in.split(st, x, nil, func(st *State, xv Val) {
						x := xv.(VIdx)
						if _, ok := in.cfg.prod[[2]int{x.sp, y.sp}]; ok {
							k(st, VPB{x.sp, y.sp, x.m})
						} else {
							k(st, VUnk{})
						}
					})
					return
				}
				if x, ok := ab[0].(VN); ok && x.d == 0 {
					if _, ok := in.cfg.prod[[2]int{x.sp, y.sp}]; ok {
						k(st, VNP{x.sp, y.sp})
						return
					}
				}
				if x, ok := ab[0].(VInt); ok {
					if x.k == 1 {
						k(st, y)
						return
					}
					if x.k == 0 {
						// 0 * N(b): candidate first block; the left operand is unknown, leave as 0
						k(st, x)
						return
					}
				}
			}
		}
		if x, ok := a.(VInt); ok {
			if y, ok := b.(VInt); ok {
				k(st, VInt{x.k * y.k})
				return
			}
		}
	case "&", "|", "^":
		if x, ok := a.(VInt); ok {
			if y, ok := b.(VInt); ok {
				switch op {
				case "&":
					k(st, VInt{x.k & y.k})
				case "|":
					k(st, VInt{x.k | y.k})
				default:
					k(st, VInt{x.k ^ y.k})
				}
				return
			}
		}
	}
	k(st, VUnk{})
}

// ---------------------------------------------------------------------------
// Calls

func (in *I) callFn(st *State, f *Fn, this Loc, args []Val, k func(*State, Val)) {
	if len(in.cur) > 60 {
		in.imprecise(st, "call depth")
		k(st, VUnk{})
		return
	}
	in.fnsUsed[f.Id] = true
	line := in.line
	var fin []Out
	in.framed(st, f.Id, this, args, func(fs *State, this Loc, args []Val) []Out {
		return in.runFn(fs, f, this, args)
	}, func(s *State, o Out) { fin = append(fin, o) })
	for _, o := range fin {
		in.line = line
		if o.k == 4 {
			in.thrown(o.st, o.thr)
		} else {
			k(o.st, o.v)
		}
	}
}

// runFn analyses the body of f in a frame.
func (in *I) runFn(st *State, f *Fn, this Loc, args []Val) []Out {
	ne, nc := len(st.env), len(st.cells)
	in.cur = append(in.cur, f)
	if this.c >= 0 {
		st.bind(-1, this)
	}
	for i, p := range f.Ps {
		if i >= len(args) {
			break
		}
		a := args[i]
		if in.p.isRef(p.T) {
			switch r := a.(type) {
			case VRef:
				st.bind(p.D, r.loc)
			default:
				st.bind(p.D, st.alloc(a))
			}
		} else {
			l := st.alloc(a)
			st.bind(p.D, l)
		}
	}
	// lambda captures
	if this.c >= 0 && f.RecID != nil {
		if le := in.p.lambdas[*f.RecID]; le != nil {
			for i, c := range le.Caps {
				v := in.read(st, this.field(i))
				if c.This != 0 {
					if r, ok := v.(VRef); ok {
						st.bind(-1, r.loc)
					}
				} else if c.D != nil {
					if r, ok := v.(VRef); ok && c.Ref != 0 {
						st.bind(*c.D, r.loc)
					} else {
						st.bind(*c.D, this.field(i))
					}
				}
			}
		}
	}
	var outs []Out
	if f.IsCtor != 0 {
		outs = in.runCtor(st, f, this)
	} else {
		outs = in.exec(st, f.Body)
	}
	in.cur = in.cur[:len(in.cur)-1]
	isref := in.p.isRef(f.Rt) || in.p.Tys[f.Rt].K == "ptr"
	var fin []Out
	for _, o := range outs {
		s := o.st
		v := o.v
		s.env = s.env[:ne]
		if o.k == 4 {
			if len(s.cells) > nc {
				s.cells = s.cells[:nc]
			}
			fin = append(fin, o)
			continue
		}
		if v == nil {
			v = VUnk{}
		}
		v = noCtr(s, v)
		if len(s.cells) > nc {
			if m := maxCell(v); m >= nc {
				if isref {
					v = VRef{Loc{-9, "dangling"}}
					s.cells = s.cells[:nc]
				}
				// otherwise an object holding references into the dead
				// frame, or into its own temporaries: keep the cells
			} else {
				s.cells = s.cells[:nc]
			}
		}
		fin = append(fin, Out{s, 0, v, nil})
		if o.thr != nil {
			fin[len(fin)-1] = o
		}
	}
	return dedupe(fin)
}

func (in *I) runCtor(st *State, f *Fn, this Loc) []Out {
	var outs []Out
	r := in.p.Recs[*f.RecID]
	states := []*State{st}
	for _, ini := range f.Inits {
		var next []*State
		for _, s := range states {
			in.catch(&outs, func() {
				if ini.Deleg != 0 {
					in.ev(s, ini.X, func(s *State, v Val) {
						in.write(s, this, v)
						next = append(next, s)
					})
					return
				}
				if ini.Base != nil {
					p, ok := in.basePathDirect(r, *ini.Base)
					in.ev(s, ini.X, func(s *State, v Val) {
						if ok {
							in.write(s, this.field(p), v)
						}
						next = append(next, s)
					})
					return
				}
				if ini.Fi == nil {
					next = append(next, s)
					return
				}
				fl := this.field(*ini.Fi)
				nc := len(s.cells)
				in.eval(s, ini.X, func(s *State, v Val) {
					if !in.p.isRef(r.Fs[*ini.Fi].T) && ini.X.Lv > 0 {
						v = in.val(s, v)
					}
					if _, isr := v.(VRef); !isr && in.p.isRef(r.Fs[*ini.Fi].T) {
						v = VRef{s.alloc(v)}
					}
					in.write(s, fl, v)
					if maxCell(v) < nc {
						in.trunc(s, len(s.env), nc, nil)
					}
					next = append(next, s)
				})
			})
		}
		states = next
	}
	for _, s := range states {
		outs = append(outs, in.exec(s, f.Body)...)
	}
	return dedupe(outs)
}

func (in *I) basePathDirect(r *Rec, base int) (int, bool) {
	br := in.p.rec(base)
	for j, b := range r.Bs {
		if x := in.p.rec(b); x != nil && br != nil && x.Id == br.Id {
			return len(r.Fs) + j, true
		}
	}
	return 0, false
}

func (in *I) uninitRec(r *Rec) Val {
	v := VRec{r.Id, nil}
	for _, f := range r.Fs {
		fr := in.p.rec(f.T)
		if fr != nil && fr.Own != 0 && !in.p.isRef(f.T) {
			v.f = append(v.f, in.uninitRec(fr))
		} else if fr != nil && in.isVector(fr) && !in.p.isRef(f.T) {
			v.f = append(v.f, in.emptyVec(fr))
		} else {
			v.f = append(v.f, VUninit{})
		}
	}
	for _, b := range r.Bs {
		br := in.p.rec(b)
		if br != nil && br.Own != 0 {
			v.f = append(v.f, in.uninitRec(br))
		} else {
			v.f = append(v.f, VOpq{})
		}
	}
	return v
}

func (in *I) construct(st *State, e *Expr, k func(*State, Val)) {
	r := in.p.rec(e.T)
	var f *Fn
	if e.Fn != nil {
		f = in.p.fnBy[*e.Fn]
	}
	if r == nil {
		in.evs(st, e.A, func(st *State, as []Val) {
			in.imprecise(st, "construction of an unmodelled type")
			k(st, VUnk{})
		})
		return
	}
	if r.Own == 0 {
		in.stdCtor(st, e, r, f, k)
		return
	}
	in.evs(st, e.A, func(st *State, as []Val) {
		if f == nil {
			k(st, in.defaultRec(e.T))
			return
		}
		if (f.IsCtor == 2 || f.IsCtor == 3) && (f.Dflt != 0 || f.Body == nil) {
			k(st, in.val(st, as[0]))
			return
		}
		if f.Body == nil {
			if f.Dflt != 0 || len(as) == 0 || r.hasOnlyOpaque() {
				k(st, in.uninitRecDefault(r))
				return
			}
			in.imprecise(st, "constructor without a body: "+f.N)
			k(st, VUnk{})
			return
		}
		if in.isOpaqueExc(r) {
			k(st, VRec{r.Id, nil})
			return
		}
		nc := len(st.cells)
		l := st.alloc(in.uninitRec(r))
		in.callFn(st, f, l, as, func(st *State, _ Val) {
			v := in.read(st, l)
			if maxCell(v) < nc && len(st.cells) > nc {
				st.cells = st.cells[:nc]
			}
			k(st, v)
		})
	})
}

func (in *I) isOpaqueExc(r *Rec) bool {
	for _, b := range r.Bs {
		if x := in.p.rec(b); x != nil && x.N == "std::exception" {
			return true
		}
	}
	return strings.HasSuffix(r.N, "Exception")
}

func (r *Rec) hasOnlyOpaque() bool { return len(r.Fs) == 0 }

func (in *I) uninitRecDefault(r *Rec) Val { return in.uninitRec(r) }

func (in *I) call(st *State, e *Expr, k func(*State, Val)) {
	if e.Fn == nil {
		in.evs(st, e.A, func(st *State, as []Val) {
			in.imprecise(st, "unresolved call")
			k(st, VUnk{})
		})
		return
	}
	f := in.p.fnBy[*e.Fn]
	line := e.L
	if f.Body != nil && !skipBody(f) {
		in.evs(st, e.A, func(st *State, as []Val) {
			if line > 0 {
				in.line = line
			}
			this := noLoc
			ps := as
			pe := e.A
			if e.M != 0 && len(as) > 0 {
				if r, ok := as[0].(VRef); ok {
					this = r.loc
				} else {
					this = st.alloc(as[0])
				}
				ps = as[1:]
				pe = e.A[1:]
			}
			ps2 := make([]Val, len(ps))
			for i := range ps {
				ps2[i] = ps[i]
				if i < len(f.Ps) && !in.p.isRef(f.Ps[i].T) && pe[i].Lv > 0 {
					ps2[i] = in.val(st, ps[i])
				}
			}
			in.callFn(st, f, this, ps2, k)
		})
		return
	}
	in.stdCall(st, e, f, k)
}

func skipBody(f *Fn) bool {
	switch f.SN {
	case "printInfo", "operator<<", "print_vec", "pretty_print", "pretty_print_matrix", "print_matrix", "print_vector":
		return true
	}
	return false
}

func addCnt(x VCnt, p, k int, g uint8) Val {
	x.p += p
	x.k += k
	x.g = gadd(x.g, g)
	return normCnt(x)
}
func addCnts(x, y VCnt) Val {
	x.p += y.p
	x.k += y.k
	x.b += y.b
	x.rel = x.rel || y.rel
	x.g = gadd(x.g, y.g)
	return normCnt(x)
}
func subCnts(x, y VCnt) Val {
	x.p -= y.p
	x.k -= y.k
	x.b -= y.b
	if y.g != 0 {
		x.g = 1
	}
	if x.rel && y.rel {
		// a difference of two counters is a plain number
		x.rel = false
		x.p += x.b
		x.b = 0
	}
	return normCnt(x)
}

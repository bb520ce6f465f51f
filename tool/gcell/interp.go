package main

import (
	"fmt"
	"sort"
	"strings"
)

// The abstract interpreter: collecting semantics over State, interprocedural
// by inlining, loops by fixpoint over the finite set of abstract states.

type Event struct {
	kind string // "ub", "domain", "cross", "imp", "narrow"
	pos  string
	msg  string
}

type Cut struct { // sp2 is a second size for the index space sp: where the star lies relative to it
	sp, sp2 int
	starIn  bool
}

type Cfg struct {
	prod     map[[2]int]int  // product spaces
	distinct map[[2]int]bool // sizes known to differ
	truth    map[string]bool // truth of star leaves
	cuts     []Cut           // related sizes
	leq      map[[2]int]bool // sizes known to be at most another
	zero     map[int]bool    // spaces that may be empty
	spName   map[int]string
	maxState int
	facts    []string
}

type Thrown struct {
	ty  string
	pos string
}
type Out struct {
	st  *State
	k   int // 0 normal 1 break 2 continue 3 return 4 throw
	v   Val
	thr *Thrown
}

type I struct {
	nsym        int
	p           *Prog
	cfg         *Cfg
	events      map[string]*Event
	thrown      func(st *State, t *Thrown)
	cur         []*Fn
	steps       int
	depth       int
	budget      int
	over        bool
	counted     map[int]int // record id -> counter field
	fnsUsed     map[int]bool
	sitesUB     int
	line        int
	stack       []string
	dbg         bool
	loopIter    int
	forks       int
	unmod       map[string]int
	monoid      map[string]bool
	hasBodyMemo map[int]bool
	globLoc     map[int]Loc
	reached     map[string]bool
	opqCalls    map[string]int
	memo        map[memoKey]*memoVal
	hits        int
	stats       map[string][3]int
}

type budgetExceeded struct{}

func (in *I) pos() string {
	if len(in.cur) == 0 {
		return "?"
	}
	f := in.cur[len(in.cur)-1]
	return fmt.Sprintf("%s:%d (%s)", relFile(in.p.Files[f.File]), in.line, f.SN)
}
func relFile(s string) string {
	if i := strings.Index(s, "/src/"); i >= 0 {
		return s[i+1:]
	}
	return s
}
func (in *I) event(kind, msg string) {
	p := in.pos()
	k := kind + "|" + p + "|" + msg
	if in.events[k] == nil {
		in.events[k] = &Event{kind, p, msg}
	}
}
func (in *I) ub(st *State, msg string) {
	if in.dbg {
		b := getKB()
		st.key(b)
		fmt.Println("UB", in.pos(), msg, b.String())
	}
	in.event("ub", msg)
}
func (in *I) imprecise(st *State, why string) {
	in.event("imp", why)
	st.imprecise(why + " at " + in.pos())
}
func (in *I) throw(st *State, ty string) {
	in.thrown(st, &Thrown{ty, in.pos()})
}

// ---------------------------------------------------------------------------
// Memory

func (in *I) read(st *State, l Loc) Val {
	if l.c < 0 || l.c >= len(st.cells) {
		return VUnk{}
	}
	v := in.getPath(st.cells[l.c], l.p)
	if len(st.dref) > 0 {
		if x, ok := v.(VIdx); ok && x.m == SL && strings.HasSuffix(l.p, "r1f0") {
			p := Loc{l.c, l.p[:len(l.p)-2]}
			for _, d := range st.dref {
				if d.loc == p {
					x.sy = d.sy
					return x
				}
			}
		}
	}
	return v
}
func (in *I) getPath(v Val, p string) Val {
	for len(p) > 0 {
		k, i := p[0], uint8(p[1]-'0')
		p = p[2:]
		switch k {
		case 'f':
			r, ok := v.(VRec)
			if !ok || int(i) >= len(r.f) {
				if ok2, isN := v.(VUninit); isN {
					_ = ok2
					return VUninit{}
				}
				return VUnk{}
			}
			v = r.f[i]
		case 'd':
			d, ok := v.(VDense)
			if !ok {
				return VUnk{}
			}
			if i == SP {
				v = d.p
			} else {
				v = d.g
			}
			if v == nil {
				return VUnk{}
			}
		case 'r':
			r, ok := v.(VRow)
			if !ok {
				return VUnk{}
			}
			if i == SP {
				v = r.p
				if v == nil {
					v = tuple(VIdx{sp: r.sp, m: SP}, VTerm{topTerm, "", ""})
				}
			} else {
				g := r.gv
				if g == nil {
					g = VTerm{topTerm, "", ""}
				}
				v = tuple(VIdx{sp: r.sp, m: i}, g)
			}
		}
	}
	return v
}
func setPath(v Val, p string, nv Val, strong bool) Val {
	if p == "" {
		if strong {
			return nv
		}
		return join(v, nv)
	}
	k, i := p[0], uint8(p[1]-'0')
	p = p[2:]
	switch k {
	case 'f':
		r, ok := v.(VRec)
		if !ok || int(i) >= len(r.f) {
			return VUnk{}
		}
		n := VRec{r.rec, append([]Val{}, r.f...)}
		n.f[i] = setPath(r.f[i], p, nv, strong)
		return n
	case 'd':
		d, ok := v.(VDense)
		if !ok {
			return v
		}
		if i == SP {
			d.p = setPath(d.p, p, nv, strong)
		} else {
			d.g = setPath(d.g, p, nv, false)
		}
		return d
	case 'r':
		r, ok := v.(VRow)
		if !ok {
			return v
		}
		if i == SP {
			if r.p != nil {
				r.p = setPath(r.p, p, nv, strong)
			}
		} else {
			t := tuple(VIdx{sp: r.sp, m: i}, r.gv)
			x, ok := setPath(t, p, nv, false).(VRec)
			if ok && len(x.f) == 2 {
				r.gv = x.f[1]
			}
		}
		return r
	}
	return v
}
func (in *I) write(st *State, l Loc, v Val) {
	if l.c < 0 || l.c >= len(st.cells) {
		return
	}
	if st.ctr && in.packWrite(st, l, v) {
		return
	}
	in.touchWrite(st, l, v)
	if st.ctr {
		in.access(st, l, true)
		if l.p != "" {
			v = noCtr(st, v)
		} else if o, ok := st.cells[l.c].(VCnt); ok && o.ctr {
			if n, ok := v.(VInt); ok {
				v = VUnk{}
				if n.k == 0 {
					v = newCtr()
				}
			}
		}
	}
	// changing the index of a stored tuple in place
	if strings.HasSuffix(l.p, "f0") && len(l.p) >= 4 && l.p[len(l.p)-4] == 'r' {
		if old := in.read(st, l); !same(old, v) {
			in.imprecise(st, "index of a stored tuple overwritten")
		}
	}
	if len(st.gbits) > 0 && !l.strong() {
		st.dropBits(l)
	}
	st.cells[l.c] = setPath(st.cells[l.c], l.p, v, l.strong())
}

// dropBits forgets the presence bits that a write at l may change.
func (s *State) dropBits(l Loc) {
	var n []string
	for _, g := range s.gbits {
		if _, gl := touchLoc(g[1:]); gl.c != l.c || !strings.HasPrefix(gl.p, l.p) && !strings.HasPrefix(l.p, gl.p) {
			n = append(n, g)
		}
	}
	s.gbits = n
}

// touchWrite: does storing v at l change the star cell of a container?
func (in *I) touchWrite(st *State, l Loc, v Val) {
	if !l.strong() || strings.IndexByte(l.p, 'd') < 0 {
		return
	}
	if r, ok := v.(VRow); ok {
		o, _ := in.read(st, l).(VRow)
		if r.p == nil && o.p == nil {
			return
		}
	}
	in.touch(st, l)
}

// touch records that the star cell of the counted container around l changed.
func (in *I) touch(st *State, l Loc) {
	if !l.strong() {
		return
	}
	v := st.cells[l.c]
	if d, ok := v.(VDense); ok && d.sp == strongBox {
		st.touch = addStr(st.touch, "~"+Loc{l.c, "d2"}.String())
		return
	}
	for i := 0; ; i += 2 {
		if r, ok := v.(VRec); ok {
			if _, ok := in.counted[r.rec]; ok {
				st.touch = addStr(st.touch, Loc{l.c, l.p[:i]}.String())
				return
			}
		}
		if i >= len(l.p) {
			return
		}
		v = in.getPath(v, l.p[i:i+2])
	}
}

// flush attributes the increments made to element counters since the last
// loop head to the star cell (if it changed) or to the other cells.
func (in *I) flush(st *State) {
	acc := st.acc
	st.acc = 0
	for c, v := range st.cells {
		if n, ok := v.(VCnt); ok && n.ctr {
			st.cells[c] = settleCtr(n, acc)
		}
		if r, ok := v.(VRec); ok {
			if n, ch := in.flushRec(st, r, Loc{c, ""}); ch {
				st.cells[c] = n
			}
		}
	}
	var keep []string
	for _, t := range st.touch {
		if t[0] == '^' || t[0] == '~' {
			keep = addStr(keep, t)
		} else {
			for _, h := range st.held {
				if h == t {
					keep = addStr(keep, "^"+t)
				}
			}
		}
	}
	st.touch = keep
}

// A loop does not settle what was added to a counter before it: the loop may
// be the one that stores the elements counted.  hold sets such increments
// aside while the loop is analysed, release puts them back.
type heldCnt struct {
	path    string
	l       Loc
	p, k    int
	touched bool
	outer   bool
}

func (in *I) hold(st *State) []heldCnt {
	var hs []heldCnt
	for c, v := range st.cells {
		in.holdRec(st, v, Loc{c, ""}, &hs)
	}
	for i := range hs {
		h := &hs[i]
		c := in.read(st, h.l).(VCnt)
		c.p, c.k = 0, 0
		st.cells[h.l.c] = setPath(st.cells[h.l.c], h.l.p, normCnt(c), true)
		for _, x := range st.held {
			if x == h.path {
				h.outer = true
			}
		}
		var ts []string
		for _, t := range st.touch {
			if t == h.path {
				h.touched = true
			} else {
				ts = append(ts, t)
			}
		}
		st.touch = ts
		st.held = addStr(st.held, h.path)
	}
	return hs
}
func (in *I) holdRec(st *State, v Val, l Loc, hs *[]heldCnt) {
	r, ok := v.(VRec)
	if !ok {
		return
	}
	if ci, ok := in.counted[r.rec]; ok && ci < len(r.f) {
		if c, ok := r.f[ci].(VCnt); ok && c.rel && (c.p != 0 || c.k != 0) {
			*hs = append(*hs, heldCnt{path: l.String(), l: l.field(ci), p: c.p, k: c.k})
		}
		return
	}
	for i, f := range r.f {
		in.holdRec(st, f, l.field(i), hs)
	}
}
func (in *I) release(st *State, hs []heldCnt) {
	for _, h := range hs {
		touched := h.touched
		var ts []string
		for _, t := range st.touch {
			if t == "^"+h.path {
				touched = true
				if h.outer {
					ts = append(ts, t)
				}
			} else {
				ts = append(ts, t)
			}
		}
		if touched {
			ts = addStr(ts, h.path)
		}
		st.touch = ts
		if !h.outer {
			var x []string
			for _, y := range st.held {
				if y != h.path {
					x = append(x, y)
				}
			}
			st.held = x
		}
		if h.l.c >= len(st.cells) {
			continue
		}
		if c, ok := in.read(st, h.l).(VCnt); ok && c.rel {
			c.p += h.p
			c.k += h.k
			st.cells[h.l.c] = setPath(st.cells[h.l.c], h.l.p, normCnt(c), true)
		}
	}
}
func (in *I) flushRec(st *State, r VRec, l Loc) (VRec, bool) {
	changed := false
	cp := func() {
		if !changed {
			r = VRec{r.rec, append([]Val{}, r.f...)}
			changed = true
		}
	}
	if ci, ok := in.counted[r.rec]; ok && ci < len(r.f) {
		touched := false
		s := l.String()
		for _, t := range st.touch {
			if t == s {
				touched = true
			}
		}
		n, do := settle(r.f[ci], touched)
		if do {
			cp()
			r.f[ci] = n
		}
		return r, changed
	}
	for i, f := range r.f {
		if fr, ok := f.(VRec); ok {
			if n, ch := in.flushRec(st, fr, l.field(i)); ch {
				cp()
				r.f[i] = n
			}
		}
	}
	return r, changed
}

var noLoc = Loc{-1, ""}

func sat(x int) int {
	if x > 3 {
		return 3
	}
	if x < -3 {
		return -3
	}
	return x
}
func mkCnt(p, k int, g uint8) Val { return normCnt(VCnt{p: p, k: k, g: g, src: noLoc}) }
func normCnt(c VCnt) Val {
	c.src = noLoc
	if c.p == 0 && c.g == 0 && !c.rel {
		return VInt{int64(c.k)}
	}
	if c.k > 3 {
		c.k = 1
		if c.g == 0 {
			c.g = 1
		}
	}
	c.k, c.p, c.b = sat(c.k), sat(c.p), sat(c.b)
	return c
}

// settle attributes what was added to an element counter.
func settle(v Val, touched bool) (Val, bool) {
	switch c := v.(type) {
	case VInt:
		n := VCnt{rel: true, src: noLoc}
		if touched {
			n.b = int(c.k)
		} else if c.k > 0 {
			n.g = 2
		} else if c.k < 0 {
			n.g = 1
		}
		return normCnt(n), true
	case VCnt:
		if c.rel && c.p == 0 && c.k == 0 {
			return v, false
		}
		n := VCnt{rel: true, src: noLoc, b: c.b, g: c.g}
		switch {
		case !c.rel:
			n.b = c.p
			if touched {
				n.b += c.k
			} else if c.k > 0 {
				n.g = 2
			}
		case touched:
			n.b += c.p + c.k
		default:
			if c.p+c.k > 0 {
				n.g = 2
			} else if c.p+c.k < 0 && n.g != 0 {
				n.g = 1
			} else if c.p+c.k < 0 {
				n.g = 1
			}
		}
		return normCnt(n), true
	}
	return v, false
}

func gadd(a, b uint8) uint8 {
	switch {
	case a == 0:
		return b
	case b == 0:
		return a
	case a == 2 || b == 2:
		return 2
	}
	return 1
}

// ---------------------------------------------------------------------------
// Environment

func (in *I) lookup(st *State, d int) (Loc, bool) {
	for i := len(st.env) - 1; i >= st.base; i-- {
		if st.env[i].d == d {
			return st.env[i].loc, true
		}
	}
	if l, ok := in.globLoc[d]; ok {
		return l, true
	}
	return noLoc, false
}

// ---------------------------------------------------------------------------
// Statements

func dedupe(outs []Out) []Out {
	if len(outs) < 2 {
		return outs
	}
	seen := map[memoKey]int{}
	r := outs[:0]
	for _, o := range outs {
		b := getKB()
		b.put(byte('0' + o.k))
		o.st.skel(b)
		if o.v != nil {
			o.v.key(b)
		}
		if o.thr != nil {
			b.WriteString(o.thr.ty)
		}
		k := b.done()
		if j, ok := seen[k]; ok {
			r[j].st.joinState(o.st)
			continue
		}
		seen[k] = len(r)
		r = append(r, o)
	}
	return r
}

// catch runs f, collecting the exceptions it raises as outcomes.
func (in *I) catch(outs *[]Out, f func()) {
	old := in.thrown
	in.thrown = func(st *State, t *Thrown) { *outs = append(*outs, Out{st, 4, nil, t}) }
	f()
	in.thrown = old
}

func (in *I) exec(st *State, s *Stmt) []Out {
	if s == nil {
		return []Out{{st, 0, nil, nil}}
	}
	in.steps++
	if in.steps > in.budget {
		panic(budgetExceeded{})
	}
	if s.L > 0 {
		in.line = s.L
	}
	var outs []Out
	switch s.S {
	case "block":
		ne, nc := len(st.env), len(st.cells)
		outs = in.execSeq(st, s.Blk)
		for i := range outs {
			in.trunc(outs[i].st, ne, nc, outs[i].v)
		}
		return dedupe(outs)
	case "decl":
		in.catch(&outs, func() {
			in.decls(st, s.Vs, 0, func(st *State) { outs = append(outs, Out{st, 0, nil, nil}) })
		})
		return outs
	case "expr":
		nc := len(st.cells)
		in.catch(&outs, func() {
			in.eval(st, s.E, func(st *State, v Val) {
				in.trunc(st, len(st.env), nc, nil)
				outs = append(outs, Out{st, 0, nil, nil})
			})
		})
		return dedupe(outs)
	case "nop":
		return []Out{{st, 0, nil, nil}}
	case "ret":
		if s.E == nil {
			return []Out{{st, 3, nil, nil}}
		}
		in.catch(&outs, func() {
			in.eval(st, s.E, func(st *State, v Val) { outs = append(outs, Out{st, 3, v, nil}) })
		})
		return outs
	case "break":
		return []Out{{st, 1, nil, nil}}
	case "continue":
		return []Out{{st, 2, nil, nil}}
	case "if":
		ne, nc := len(st.env), len(st.cells)
		pre := []*Stmt{}
		if s.Init != nil {
			pre = append(pre, s.Init)
		}
		if s.Cv != nil {
			pre = append(pre, s.Cv)
		}
		for _, o := range in.execSeq(st, pre) {
			if o.k != 0 {
				outs = append(outs, o)
				continue
			}
			nc2 := len(o.st.cells)
			in.catch(&outs, func() {
				in.cond(o.st, s.C, func(st *State, b bool) {
					in.trunc(st, len(st.env), nc2, nil)
					br := s.X
					if !b {
						br = s.Y
					}
					save := in.thrown
					outs = append(outs, in.exec(st, br)...)
					in.thrown = save
				})
			})
		}
		for i := range outs {
			in.trunc(outs[i].st, ne, nc, outs[i].v)
		}
		return dedupe(outs)
	case "while":
		return in.loop(st, nil, s.C, nil, s.B, nil, false)
	case "do":
		return in.loop(st, nil, s.C, nil, s.B, nil, true)
	case "for":
		ne, nc := len(st.env), len(st.cells)
		for _, o := range in.exec(st, s.Init) {
			if o.k != 0 {
				outs = append(outs, o)
				continue
			}
			outs = append(outs, in.loop(o.st, nil, s.C, s.Inc, s.B, nil, false)...)
		}
		for i := range outs {
			in.trunc(outs[i].st, ne, nc, outs[i].v)
		}
		return dedupe(outs)
	case "rfor":
		ne, nc := len(st.env), len(st.cells)
		for _, o := range in.execSeq(st, s.Pre) {
			if o.k != 0 {
				outs = append(outs, o)
				continue
			}
			outs = append(outs, in.loop(o.st, nil, s.C, s.Inc, s.B, s.Lv, false)...)
		}
		for i := range outs {
			in.trunc(outs[i].st, ne, nc, outs[i].v)
		}
		return dedupe(outs)
	case "try":
		for _, o := range in.exec(st, s.B) {
			if o.k != 4 {
				outs = append(outs, o)
				continue
			}
			handled := false
			for _, h := range s.Hs {
				if h.T == nil || in.catches(*h.T, o.thr.ty) {
					in.trunc(o.st, len(st.env), len(st.cells), nil)
					outs = append(outs, in.exec(o.st, h.B)...)
					handled = true
					break
				}
			}
			if !handled {
				outs = append(outs, o)
			}
		}
		return dedupe(outs)
	case "switch":
		return in.execSwitch(st, s)
	case "case", "default":
		return in.exec(st, s.B)
	}
	in.imprecise(st, "unmodelled statement "+s.S+" "+s.K)
	return []Out{{st, 0, nil, nil}}
}

func (in *I) catches(t int, thrown string) bool {
	n := in.p.Tys[in.p.nonref(t)].N
	n = strings.TrimPrefix(n, "const ")
	return n == thrown || n == "std::exception" && thrown != ""
}

func (in *I) execSwitch(st *State, s *Stmt) []Out {
	var outs []Out
	var items []*Stmt
	if s.B != nil && s.B.S == "block" {
		items = s.B.Blk
	}
	ne, nc := len(st.env), len(st.cells)
	type ent struct{ at int }
	in.catch(&outs, func() {
		in.eval(st, s.C, func(st *State, v Val) {
			run := func(st *State, at int) {
				// strip case labels
				var seq []*Stmt
				for _, x := range items[at:] {
					for x != nil && (x.S == "case" || x.S == "default") {
						x = x.B
					}
					seq = append(seq, x)
				}
				for _, o := range in.execSeq(st, seq) {
					if o.k == 1 {
						o.k = 0
					}
					outs = append(outs, o)
				}
			}
			dflt := -1
			matched := false
			iv, known := v.(VInt)
			for i, x := range items {
				for x != nil && (x.S == "case" || x.S == "default") {
					if x.S == "default" {
						dflt = i
					} else if x.C != nil {
						c := x.C
						for c.E == "cast" || c.E == "wrap" {
							c = c.X
						}
						if c.E == "int" && (!known || iv.k == c.iv) {
							if known {
								matched = true
							}
							run(st.clone(), i)
						}
					}
					x = x.B
				}
				if matched {
					break
				}
			}
			if !matched {
				if dflt >= 0 {
					run(st, dflt)
				} else {
					outs = append(outs, Out{st, 0, nil, nil})
				}
			}
		})
	})
	for i := range outs {
		in.trunc(outs[i].st, ne, nc, outs[i].v)
	}
	return dedupe(outs)
}

func (in *I) execSeq(st *State, ss []*Stmt) []Out {
	cur := []*State{st}
	var outs []Out
	for _, s := range ss {
		var next []Out
		for _, c := range cur {
			for _, o := range in.exec(c, s) {
				if o.k == 0 {
					next = append(next, o)
				} else {
					outs = append(outs, o)
				}
			}
		}
		next = dedupe(next)
		cur = cur[:0]
		for _, o := range next {
			cur = append(cur, o.st)
		}
		if len(cur) > in.cfg.maxState {
			panic(budgetExceeded{})
		}
		if len(cur) == 0 {
			break
		}
	}
	for _, c := range cur {
		outs = append(outs, Out{c, 0, nil, nil})
	}
	return outs
}

// trunc pops cells and bindings, keeping cells that the value still refers to.
func (in *I) trunc(st *State, ne, nc int, keep Val) {
	if len(st.env) > ne {
		st.env = st.env[:ne]
	}
	if keep != nil {
		if m := maxCell(keep); m >= nc {
			// value refers to a dying cell: keep it readable
			return
		}
	}
	if len(st.cells) > nc {
		st.cells = st.cells[:nc]
	}
	st.gcRel()
}
func maxCell(v Val) int {
	switch x := v.(type) {
	case VRef:
		return x.loc.c
	case VProxy:
		return x.loc.c
	case VIt:
		return x.loc.c
	case VRec:
		m := -1
		for _, f := range x.f {
			if c := maxCell(f); c > m {
				m = c
			}
		}
		return m
	}
	return -1
}

func (in *I) decls(st *State, vs []VarD, i int, k func(*State)) {
	if i == len(vs) {
		k(st)
		return
	}
	v := vs[i]
	next := func(st *State) { in.decls(st, vs, i+1, k) }
	if v.L > 0 {
		in.line = v.L
	}
	if in.p.isRef(v.T) {
		if v.X == nil {
			next(st)
			return
		}
		in.eval(st, v.X, func(st *State, x Val) {
			switch r := x.(type) {
			case VRef:
				st.bind(v.D, r.loc)
			default:
				st.bind(v.D, st.alloc(x))
			}
			next(st)
		})
		return
	}
	if v.Static != 0 {
		c := strings.HasPrefix(in.p.Tys[v.T].N, "const ")
		if !c {
			in.imprecise(st, "mutable function-local static "+v.N)
		}
	}
	l := st.alloc(VUninit{})
	if v.X == nil {
		st.bind(v.D, l)
		next(st)
		return
	}
	nc := len(st.cells)
	in.eval(st, v.X, func(st *State, x Val) {
		x = in.decay(st, x, v.X)
		st.cells[l.c] = x
		if n, ok := x.(VInt); ok && n.k == 0 && in.p.ctrs[v.D] {
			st.cells[l.c] = newCtr()
			st.ctr = true
		}
		if maxCell(x) < nc {
			in.trunc(st, len(st.env), nc, nil)
		}
		st.bind(v.D, l)
		next(st)
	})
}

// decay: the value an initialiser denotes (a glvalue of class type is only
// seen here if the exporter elided a copy).
func (in *I) decay(st *State, v Val, e *Expr) Val {
	if r, ok := v.(VRef); ok && e.Lv > 0 {
		return in.read(st, r.loc)
	}
	return v
}

func (in *I) loop(st *State, _ *Stmt, c *Expr, inc *Expr, body *Stmt, lv *Stmt, isDo bool) []Out {
	var outs []Out
	ne, nc := len(st.env), len(st.cells)
	type item struct {
		k     memoKey
		check bool
	}
	seen := map[memoKey]*State{}
	queued := map[memoKey]bool{}
	var work []item
	push := func(st *State, check bool) {
		in.flush(st)
		for c, v := range st.cells {
			if it, ok := v.(VIt); ok && it.ro && it.first {
				it.first = false
				st.cells[c] = it
			}
		}
		b := getKB()
		if check {
			b.put('C')
		}
		st.skel(b)
		k := b.done()
		if old, ok := seen[k]; ok {
			if !old.joinState(st) {
				return
			}
		} else {
			seen[k] = st
		}
		in.loopIter++
		if len(seen) > in.cfg.maxState {
			panic(budgetExceeded{})
		}
		if !queued[k] {
			queued[k] = true
			work = append(work, item{k, check})
		}
	}
	line := in.line
	runBody := func(st *State) {
		var seq []*Stmt
		if lv != nil {
			seq = append(seq, lv)
		}
		seq = append(seq, body)
		for _, o := range in.execSeq(st, seq) {
			switch o.k {
			case 0, 2:
				in.trunc(o.st, ne, nc, nil)
				if inc != nil {
					in.line = line
					in.catch(&outs, func() {
						in.eval(o.st, inc, func(st *State, v Val) {
							in.trunc(st, ne, nc, nil)
							push(st, true)
						})
					})
				} else {
					push(o.st, true)
				}
			case 1:
				in.trunc(o.st, ne, nc, nil)
				outs = append(outs, Out{o.st, 0, nil, nil})
			default:
				in.trunc(o.st, ne, nc, o.v)
				outs = append(outs, o)
			}
		}
	}
	if in.stats != nil {
		defer func() {
			k := in.pos()
			x := in.stats[k]
			x[0]++
			x[1] += len(seen)
			if len(seen) > x[2] {
				x[2] = len(seen)
			}
			in.stats[k] = x
			if in.dbg && len(seen) > 30 {
				fmt.Println("HEAD", k, len(seen))
				for _, s := range seen {
					b := getKB()
					s.skel(b)
					fmt.Println("    ", b.String())
				}
			}
		}()
	}
	lks := in.lockstep(st, c, inc, body, isDo)
	in.depth++
	depth := in.depth
	defer func() { in.depth-- }()
	hs := in.hold(st)
	push(st, !isDo)
	for len(work) > 0 {
		w := work[0]
		work = work[1:]
		queued[w.k] = false
		it := struct{ st *State }{seen[w.k].clone()}
		in.line = line
		if !w.check || c == nil {
			runBody(it.st)
			continue
		}
		in.catch(&outs, func() {
			in.cond(it.st, c, func(st *State, b bool) {
				in.trunc(st, ne, nc, nil)
				if len(lks) > 0 {
					in.align(st, lks, depth, b)
				}
				if b {
					save := in.thrown
					runBody(st)
					in.thrown = save
				} else {
					outs = append(outs, Out{st, 0, nil, nil})
				}
			})
		})
	}
	if len(hs) > 0 {
		for _, o := range outs {
			in.release(o.st, hs)
		}
	}
	return dedupe(outs)
}

// ---------------------------------------------------------------------------
// Conditions

func (in *I) cond(st *State, e *Expr, k func(*State, bool)) {
	if e == nil {
		k(st, true)
		return
	}
	switch e.E {
	case "wrap":
		in.cond(st, e.X, k)
		return
	case "un":
		if e.Op == "!" {
			in.cond(st, e.X, func(st *State, b bool) { k(st, !b) })
			return
		}
	case "bin":
		switch e.Op {
		case "&&":
			in.cond(st, e.X, func(st *State, b bool) {
				if !b {
					k(st, false)
				} else {
					in.cond(st, e.Y, k)
				}
			})
			return
		case "||":
			in.cond(st, e.X, func(st *State, b bool) {
				if b {
					k(st, true)
				} else {
					in.cond(st, e.Y, k)
				}
			})
			return
		}
	}
	in.eval(st, e, func(st *State, v Val) {
		if r, ok := v.(VRef); ok && e.Lv > 0 {
			v = in.read(st, r.loc)
		}
		in.truth(st, v, k)
	})
}

func (in *I) fork(st *State, k func(*State, bool)) {
	in.forks++
	s2 := st.clone()
	k(st, true)
	k(s2, false)
}

func (in *I) truth(st *State, v Val, k func(*State, bool)) {
	switch x := v.(type) {
	case VInt:
		k(st, x.k != 0)
	case VRef:
		k(st, true)
	case VNull:
		k(st, false)
	case VN:
		if x.d == 0 && !in.cfg.zero[x.sp] {
			k(st, true)
		} else {
			in.fork(st, k)
		}
	case VCnt, VIdx:
		in.cmp(st, "!=", v, VInt{0}, nil, nil, k)
	case VProxy:
		in.truth(st, in.read(st, x.loc), k)
	case VTerm:
		in.termTruth(st, x.t, k)
	case VUninit:
		in.ub(st, "branch on an uninitialised value")
	default:
		in.imprecise(st, "branch on an unmodelled value")
		in.fork(st, k)
	}
}

func (in *I) termTruth(st *State, t *Term, k func(*State, bool)) {
	if b, ok := in.cfg.truth[t.key]; ok {
		k(st, b)
		return
	}
	if t.pure && t.op == "leaf" {
		k(st, t.name != "#0")
		return
	}
	if t.op == "top" || t.op == "deep" || !hasStar(t) {
		in.fork(st, k)
		return
	}
	in.factFork(st, "T:"+t.key, k)
}

func (in *I) factFork(st *State, key string, k func(*State, bool)) {
	if b, ok := st.fact(key); ok {
		k(st, b)
		return
	}
	in.forks++
	s2 := st.clone()
	st.setFact(key, true)
	s2.setFact(key, false)
	k(st, true)
	k(s2, false)
}

// ---------------------------------------------------------------------------
// Ordering of abstract numbers.  Result: mask of 1 (<), 2 (==), 4 (>).

func (in *I) order(a, b Val) int {
	flip := func(m int) int { return m&2 | (m&1)<<2 | (m&4)>>2 }
	switch x := a.(type) {
	case VInt:
		if y, ok := b.(VInt); ok {
			switch {
			case x.k < y.k:
				return 1
			case x.k > y.k:
				return 4
			}
			return 2
		}
		if _, ok := b.(VUnk); ok {
			return 7
		}
		if _, ok := b.(VTerm); ok {
			return 7
		}
		if _, ok := b.(VUninit); ok {
			return 7
		}
		return flip(in.order(b, a))
	case VIdx:
		switch y := b.(type) {
		case VIdx:
			if x.sp == y.sp {
				switch {
				case x.m < y.m:
					return 1
				case x.m > y.m:
					return 4
				case x.m == SP || x.m == SE:
					return 2
				}
				return 7
			}
			if m, ok := in.related(x, y.sp); ok {
				return in.order(VIdx{sp: y.sp, m: m}, y) // only if m is single; related guarantees
			}
			if x.m == SE && y.m == SE && in.isDistinct(x.sp, y.sp) {
				return 5
			}
			return 7
		case VN:
			if x.sp == y.sp {
				switch y.d {
				case 0:
					if x.m == SE {
						return 2
					}
					return 1
				case -1:
					switch x.m {
					case SE:
						return 4
					case SL:
						return 1
					default:
						return 3
					}
				case 1:
					return 1
				}
				return 7
			}
			for _, c := range in.cfg.cuts {
				if c.sp == x.sp && c.sp2 == y.sp && y.d == 0 { // index of the old size against the new size
					switch x.m {
					case SL:
						if c.starIn {
							return 1
						}
						return 7
					case SP:
						if c.starIn {
							return 1
						}
						return 6
					case SR, SE:
						if c.starIn {
							return 7
						}
						return 4
					}
				}
			}
			if x.m == SE && in.isDistinct(x.sp, y.sp) && y.d == 0 {
				return 5
			}
			if y.d == 0 && in.cfg.leq[[2]int{x.sp, y.sp}] {
				if x.m == SE {
					return 3
				}
				return 1
			}
			return 7
		case VInt:
			if y.k < 0 {
				return 4
			}
			if y.k == 0 {
				if x.m == SR || x.m == SE && !in.cfg.zero[x.sp] {
					return 4
				}
				return 6
			}
			return 7
		}
		return 7
	case VN:
		switch y := b.(type) {
		case VN:
			if x.sp == y.sp {
				return in.order(VInt{int64(x.d)}, VInt{int64(y.d)})
			}
			if x.d == 0 && y.d == 0 && in.isDistinct(x.sp, y.sp) {
				if in.cfg.leq[[2]int{x.sp, y.sp}] {
					return 1
				}
				if in.cfg.leq[[2]int{y.sp, x.sp}] {
					return 4
				}
				return 5
			}
			if x.d == 0 && y.d == 0 && in.cfg.leq[[2]int{x.sp, y.sp}] {
				return 3
			}
			if x.d == 0 && y.d == 0 && in.cfg.leq[[2]int{y.sp, x.sp}] {
				return 6
			}
			return 7
		case VIdx:
			return flip(in.order(b, a))
		case VNP:
			if sp, ok := in.cfg.prod[[2]int{y.a, y.b}]; ok && x.d == 0 {
				if sp == x.sp {
					return 2
				}
				if in.isDistinct(sp, x.sp) {
					return 5
				}
			}
			return 7
		case VInt:
			if y.k <= 0 && x.d == 0 && !in.cfg.zero[x.sp] {
				return 4
			}
			if y.k < 0 {
				return 4
			}
			if y.k == 0 {
				return 6
			}
			return 7
		}
		return 7
	case VNP:
		switch y := b.(type) {
		case VNP:
			if x == y {
				return 2
			}
			return 7
		case VN:
			return flip(in.order(b, a))
		case VInt:
			if y.k <= 0 {
				return 4
			}
		}
		return 7
	case VCnt:
		switch y := b.(type) {
		case VInt:
			lo := x.p + x.k + x.b
			if x.g == 2 {
				lo++
			}
			if x.g == 0 {
				return in.order(VInt{int64(lo)}, y)
			}
			if int64(lo) > y.k {
				return 4
			}
			if int64(lo) == y.k {
				return 6
			}
			return 7
		case VCnt:
			if x.src.c >= 0 && x.src == y.src && x.p == y.p && x.k == y.k {
				return 2
			}
			return 7
		}
		return 7
	case VRef:
		switch y := b.(type) {
		case VRef:
			if x.loc == y.loc {
				if x.loc.strong() {
					return 2
				}
				return 7
			}
			return 5
		case VNull:
			return 5
		}
		return 7
	case VNull:
		switch b.(type) {
		case VNull:
			return 2
		case VRef:
			return 5
		}
		return 7
	case VIt:
		switch y := b.(type) {
		case VIt:
			if x.loc != y.loc {
				return 7
			}
			switch {
			case x.s < y.s:
				return 1
			case x.s > y.s:
				return 4
			case x.s == SP || x.s == SE:
				return 2
			case x.first && y.first:
				return 2
			case x.ro || y.ro:
				return 7
			case x.first:
				return 1
			case y.first:
				return 4
			}
			return 7
		case VCnt:
			if y.src == x.loc && y.k == 0 {
				if x.s == SE {
					return 2
				}
				return 1
			}
			return 7
		case VInt:
			if y.k == 0 {
				return 6
			}
		}
		return 7
	}
	return 7
}

func (in *I) isDistinct(a, b int) bool {
	return in.cfg.distinct[[2]int{a, b}] || in.cfg.distinct[[2]int{b, a}]
}

// related maps a slot of one size of an index space to the other size.
func (in *I) related(x VIdx, sp int) (uint8, bool) {
	for _, c := range in.cfg.cuts {
		if c.sp == x.sp && c.sp2 == sp || c.sp == sp && c.sp2 == x.sp {
			if c.starIn && (x.m == SL || x.m == SP) {
				return x.m, true
			}
			if c.starIn && x.m == SR && c.sp2 == x.sp {
				return SR, true
			}
		}
	}
	return 0, false
}

func holds(op string, m int) (t, f bool) {
	for _, b := range []int{1, 2, 4} {
		if m&b == 0 {
			continue
		}
		var r bool
		switch op {
		case "==":
			r = b == 2
		case "!=":
			r = b != 2
		case "<":
			r = b == 1
		case "<=":
			r = b != 4
		case ">":
			r = b == 4
		case ">=":
			r = b != 1
		}
		if r {
			t = true
		} else {
			f = true
		}
	}
	return
}

func single(m uint8) bool { return m&(m-1) == 0 }

// cmp decides a comparison; pa/pb write a refined operand back to the variable
// it was read from.
func (in *I) cmp(st *State, op string, a, b Val, pa, pb func(*State, Val), k func(*State, bool)) {
	// split masks
	if x, ok := a.(VIdx); ok && !single(x.m) {
		in.split(st, x, pa, func(st *State, x Val) { in.cmp(st, op, x, b, pa, pb, k) })
		return
	}
	if y, ok := b.(VIdx); ok && !single(y.m) {
		in.split(st, y, pb, func(st *State, y Val) { in.cmp(st, op, a, y, pa, pb, k) })
		return
	}
	if p, ok := a.(VProxy); ok {
		in.cmp(st, op, in.read(st, p.loc), b, pa, pb, k)
		return
	}
	if p, ok := b.(VProxy); ok {
		in.cmp(st, op, a, in.read(st, p.loc), pa, pb, k)
		return
	}
	// promotion of plain integers used as indices
	if x, ok := a.(VInt); ok && pa != nil {
		if sp := in.spaceOf(b); sp >= 0 {
			in.promote(st, x, sp, func(st *State, x Val) {
				pa(st, x)
				in.cmp(st, op, x, b, pa, pb, k)
			})
			return
		}
		if c, ok := b.(VCnt); ok && c.src.c >= 0 && c.k == 0 {
			if r, ok := in.read(st, c.src).(VRow); ok && !(x.k <= 1 && op == "==") {
				_ = r
				in.cursor(st, c.src, int(x.k), func(st *State, it VIt) {
					pa(st, it)
					in.cmp(st, op, it, b, pa, pb, k)
				})
				return
			}
		}
	}
	if y, ok := b.(VInt); ok && pb != nil {
		if sp := in.spaceOf(a); sp >= 0 {
			in.promote(st, y, sp, func(st *State, y Val) {
				pb(st, y)
				in.cmp(st, op, a, y, pa, pb, k)
			})
			return
		}
	}
	// sizes of rows against small constants
	if x, ok := a.(VCnt); ok && x.src.c >= 0 && x.k == 0 {
		if y, ok := b.(VInt); ok && y.k <= 2 {
			in.rowSize(st, x.src, func(st *State, n int) {
				m := 0
				switch {
				case n < 2:
					m = in.order(VInt{int64(n)}, y)
				case y.k < 2:
					m = 4
				default:
					m = 6
				}
				in.decide(st, op, m, k)
			})
			return
		}
	}
	if y, ok := b.(VCnt); ok && y.src.c >= 0 && y.k == 0 {
		if x, ok := a.(VInt); ok && x.k <= 2 && pa == nil {
			rev := map[string]string{"<": ">", ">": "<", "<=": ">=", ">=": "<="}
			o := op
			if r, ok := rev[op]; ok {
				o = r
			}
			in.cmp(st, o, y, x, pb, pa, k)
			return
		}
	}
	ta, aok := a.(VTerm)
	tb, bok := b.(VTerm)
	if aok || bok {
		if !aok {
			ta = toTerm(a)
		}
		if !bok {
			tb = toTerm(b)
		}
		in.cmpTerm(st, op, ta.t, tb.t, k)
		return
	}
	if _, ok := a.(VUninit); ok {
		in.ub(st, "comparison of an uninitialised value")
		return
	}
	if _, ok := b.(VUninit); ok {
		in.ub(st, "comparison of an uninitialised value")
		return
	}
	_, aok = a.(VUnk)
	_, bok = b.(VUnk)
	if aok || bok {
		in.imprecise(st, "comparison of an unmodelled value")
	}
	m := in.order(a, b)
	if x, ok := a.(VIdx); ok {
		if y, ok := b.(VIdx); ok && x.sp == y.sp {
			in.cmpIdx(st, op, x, y, m, pa, pb, k)
			return
		}
	}
	in.decide(st, op, m, k)
}

// cmpIdx compares two indices of one space, using and extending what is known
// of the order of counters and named elements.
func (in *I) cmpIdx(st *State, op string, x, y VIdx, m int, pa, pb func(*State, Val), k func(*State, bool)) {
	if x.z {
		m &= 3
	}
	if y.z {
		m &= 6
	}
	if m == 0 {
		return // the star is index 0: there is nothing below it
	}
	// y (or x) is a named element, the other a counter
	isEl := func(v VIdx, p func(*State, Val)) bool { return v.sy != 0 && (p == nil || v.sy&1 == 1) }
	swap := false
	if isEl(x, pa) && !isEl(y, pb) {
		x, y, pa, pb, swap = y, x, pb, pa, true
		m = m&2 | m&1<<2 | m>>2&1
	}
	if x.m != SL || y.m != SL || y.sy&1 == 0 || x.sy&1 == 1 || (x.sy == 0 && pa == nil) {
		if swap {
			m = m&2 | m&1<<2 | m>>2&1
		}
		in.decide(st, op, m, k)
		return
	}
	if x.sy != 0 {
		m &= int(st.getRel(x.sy, y.sy))
		if m == 0 {
			return
		}
	} else {
		x.sy = in.newSym(false)
		pa(st, x)
	}
	sw := func(m int) int {
		if swap {
			return m&2 | m&1<<2 | m>>2&1
		}
		return m
	}
	t, f := 0, 0
	for _, b := range []int{1, 2, 4} {
		if m&b != 0 {
			if ht, _ := holds(op, sw(b)); ht {
				t |= b
			} else {
				f |= b
			}
		}
	}
	s2 := st
	if t != 0 && f != 0 {
		in.forks++
		s2 = st.clone()
	}
	if t != 0 {
		st.setRel(x.sy, y.sy, uint8(t))
		k(st, true)
	}
	if f != 0 {
		s2.setRel(x.sy, y.sy, uint8(f))
		k(s2, false)
	}
}

// newSym: odd names are elements, even ones counters.
func (in *I) newSym(elem bool) int {
	in.nsym += 2
	if elem {
		return in.nsym + 1
	}
	return in.nsym
}

// stepRel carries the relations of counter x over to n = x+1; false: n cannot be.
func (in *I) stepRel(st *State, x VIdx, n VIdx) (VIdx, bool) {
	n.sy, n.z = 0, false
	if x.sy == 0 || x.sy&1 == 1 || x.m != SL {
		return n, true
	}
	var out []Rel
	sy := 0
	for _, r := range st.rel {
		if r.a != x.sy {
			continue
		}
		m := uint8(0)
		if r.m&1 != 0 {
			m |= 3
		}
		if r.m&6 != 0 {
			m |= 4
		}
		if n.m != SL {
			if m&4 == 0 {
				return n, false // elements below the star are passed before it is reached
			}
			continue
		}
		if m != 7 {
			if sy == 0 {
				sy = in.newSym(false)
			}
			out = append(out, Rel{sy, r.e, m})
		}
	}
	n.sy = sy
	if len(out) > 0 {
		st.rel = append(append([]Rel(nil), st.rel...), out...)
	}
	return n, true
}

// nextRel names the element that follows element o of the same container.
func (in *I) nextRel(st *State, o int, n VIt) VIt {
	n.sy = 0
	if n.s != SL {
		return n
	}
	n.sy = in.newSym(true)
	var out []Rel
	for _, r := range st.rel {
		if o != 0 && r.e == o && r.m&4 == 0 {
			out = append(out, Rel{r.a, n.sy, 1})
		}
	}
	if len(out) > 0 {
		st.rel = append(append([]Rel(nil), st.rel...), out...)
	}
	return n
}

func (in *I) decide(st *State, op string, m int, k func(*State, bool)) {
	t, f := holds(op, m)
	switch {
	case t && f:
		in.fork(st, k)
	case t:
		k(st, true)
	default:
		k(st, false)
	}
}

func (in *I) cmpTerm(st *State, op string, a, b *Term, k func(*State, bool)) {
	if a.key == b.key && a.op != "top" && a.op != "deep" {
		in.decide(st, op, 2, k)
		return
	}
	// truth tests against zero
	if b.key == "#0" && (op == "==" || op == "!=") {
		in.termTruth(st, a, func(st *State, t bool) { k(st, t == (op == "!=")) })
		return
	}
	if a.key == "#0" && (op == "==" || op == "!=") {
		in.termTruth(st, b, func(st *State, t bool) { k(st, t == (op == "!=")) })
		return
	}
	// a comparison of a mask-like leaf with true/false
	if b.key == "#1" && (op == "==" || op == "!=") {
		if t, ok := in.cfg.truth[a.key]; ok && !t {
			k(st, op == "!=")
			return
		}
	}
	if a.op == "top" || a.op == "deep" || b.op == "top" || b.op == "deep" || !(hasStar(a) || hasStar(b)) {
		in.fork(st, k)
		return
	}
	neg := false
	switch op {
	case "!=":
		op, neg = "==", true
	case ">":
		op, a, b = "<", b, a
	case "<=":
		op, neg, a, b = "<", true, b, a
	case ">=":
		op, neg = "<", true
	}
	ka, kb := a.key, b.key
	if op == "==" && kb < ka {
		ka, kb = kb, ka
	}
	in.factFork(st, ka+op+kb, func(st *State, t bool) { k(st, t != neg) })
}

func (in *I) spaceOf(v Val) int {
	switch x := v.(type) {
	case VIdx:
		return x.sp
	case VN:
		return x.sp
	}
	return -1
}

func (in *I) split(st *State, x VIdx, p func(*State, Val), k func(*State, Val)) {
	ms := []uint8{}
	for _, m := range []uint8{SL, SP, SR, SE} {
		if x.m&m != 0 {
			ms = append(ms, m)
		}
	}
	if len(ms) > 1 {
		in.forks++
	}
	for i, m := range ms {
		s := st
		if i < len(ms)-1 {
			s = st.clone()
		}
		v := x
		v.m = m
		if p != nil {
			p(s, v)
		}
		k(s, v)
	}
}

// promote: the integer k as an index of space sp.
func (in *I) promote(st *State, v VInt, sp int, k func(*State, Val)) {
	m := uint8(SL | SP)
	if v.k > 0 {
		m = SL | SP | SR
		if v.k > 0 {
			m |= SE
		}
	}
	if v.k == 0 && in.cfg.zero[sp] {
		m |= SE
	}
	if v.k < 0 {
		in.imprecise(st, "negative index")
		m = SL
	}
	in.split(st, VIdx{sp: sp, m: m, z: v.k == 0}, nil, k)
}

func toTerm(v Val) VTerm {
	switch x := v.(type) {
	case VTerm:
		return x
	case VInt:
		return VTerm{lit(x.k), "", ""}
	case VRec:
		return VTerm{leaf("rec:" + keyOf(x)), "", ""}
	}
	return VTerm{topTerm, "", ""}
}

var _ = sort.Strings

// ---------------------------------------------------------------------------
// Counters that advance in lockstep

// stepped: the variables that the increment expression and the top level
// of the body of a loop increment.
func (in *I) stepped(inc *Expr, body *Stmt) []int {
	isOne := func(e *Expr) bool {
		for e != nil && (e.E == "wrap" || e.E == "cast" || e.E == "tmp") {
			e = e.X
		}
		return e != nil && e.E == "int" && e.V == "1"
	}
	var ds []int
	var tgt func(e *Expr) int
	tgt = func(e *Expr) int {
		for e != nil && (e.E == "wrap" || e.E == "tmp" || e.E == "cast") {
			e = e.X
		}
		if e != nil && e.E == "var" {
			return e.D
		}
		return -1
	}
	var ex func(e *Expr)
	ex = func(e *Expr) {
		if e == nil {
			return
		}
		switch e.E {
		case "wrap", "cast", "tmp":
			ex(e.X)
		case "un":
			if e.Op == "++" {
				ds = append(ds, tgt(e.X))
			}
		case "cassign":
			if (e.Op == "+" || e.Op == "+=") && isOne(e.Y) {
				ds = append(ds, tgt(e.X))
			}
		case "assign":
			y := e.Y
			for y != nil && (y.E == "wrap" || y.E == "cast" || y.E == "tmp") {
				y = y.X
			}
			if y != nil && y.E == "bin" && y.Op == "+" && (isOne(y.Y) && tgt(y.X) == tgt(e.X) || isOne(y.X) && tgt(y.Y) == tgt(e.X)) {
				ds = append(ds, tgt(e.X))
			}
		case "bin":
			if e.Op == "," {
				ex(e.X)
				ex(e.Y)
			}
		case "call", "mcall":
			if e.Fn == nil || in.p.fnBy[*e.Fn] == nil || in.p.fnBy[*e.Fn].SN != "operator++" {
				break
			}
			ds = append(ds, tgt(e.X))
			if len(e.A) > 0 {
				ds = append(ds, tgt(e.A[0]))
			}
		}
	}
	ex(inc)
	var st func(s *Stmt)
	st = func(s *Stmt) {
		if s == nil {
			return
		}
		for _, b := range s.Blk {
			st(b)
		}
		if s.S == "expr" {
			ex(s.E)
		}
	}
	st(body)
	var r []int
	for _, d := range ds {
		if d > 0 {
			r = append(r, d)
		}
	}
	return r
}

// idxOf: the index or array iterator a value consists of.
func idxOf(v Val) (Val, int) {
	switch x := v.(type) {
	case VIdx, VIt, VInt:
		return v, -1
	case VRec:
		f := -1
		for i, y := range x.f {
			switch y.(type) {
			case VIdx, VIt, VInt:
				if f >= 0 {
					return nil, 0
				}
				f = i
			}
		}
		if f >= 0 {
			return x.f[f], f
		}
	}
	return nil, 0
}
func withIdx(v Val, f int, n Val) Val {
	if x, ok := v.(VRec); ok && f >= 0 {
		r := VRec{x.rec, append([]Val{}, x.f...)}
		r.f[f] = n
		return r
	}
	return n
}

// lockstep: the variables that a loop increments and that are all at their
// start when it is entered.
func (in *I) lockstep(st *State, c, inc *Expr, body *Stmt, isDo bool) []Loc {
	if isDo || c == nil {
		return nil
	}
	var ls []Loc
	zero := false
	for _, d := range in.stepped(inc, body) {
		l, ok := in.lookup(st, d)
		if !ok {
			continue
		}
		if r, ok := in.read(st, l).(VRef); ok {
			l = r.loc
		}
		switch x, _ := idxOf(in.read(st, l)); y := x.(type) {
		case VInt:
			if y.k != 0 {
				continue
			}
			zero = true
		case VIdx:
			if !y.z {
				continue
			}
		case VIt:
			if !y.z {
				continue
			}
		default:
			continue
		}
		ls = append(ls, l)
	}
	if len(ls) < 2 || !zero {
		return nil
	}
	return ls
}

// align gives the counters that are still in step with another the slot of that other.
func (in *I) align(st *State, ls []Loc, depth int, enter bool) {
	type cand struct {
		v   Val
		f   int
		w   Val
		sp  int
		m   uint8
		off int8
		ok  bool
	}
	cs := make([]cand, len(ls))
	lead := -1
	for i, l := range ls {
		w := in.read(st, l)
		v, f := idxOf(w)
		c := cand{v: v, f: f, w: w}
		switch x := v.(type) {
		case VIdx:
			c.sp, c.m, c.off = x.sp, x.m, x.off
			c.ok = x.lk == uint8(depth) || x.z && x.lk == 0
		case VIt:
			d, ok := in.read(st, x.loc).(VDense)
			if ok && d.sp >= 0 {
				c.sp, c.m, c.off = d.sp, x.s, x.off
				c.ok = x.lk == uint8(depth) || x.z && x.lk == 0
			}
		}
		cs[i] = c
		if c.ok && lead < 0 {
			lead = i
		}
	}
	// an array leads rather than a plain number
	for i, c := range cs {
		if _, ok := c.v.(VIt); ok && c.ok {
			lead = i
			break
		}
	}
	if lead < 0 {
		return
	}
	b := cs[lead]
	for i, c := range cs {
		if i == lead {
			continue
		}
		ok := c.ok && c.off == b.off && c.sp == b.sp
		if x, isInt := c.v.(VInt); isInt && x.k == 0 {
			_, z := b.v.(VIt)
			if z {
				z = b.v.(VIt).z
			} else {
				z = b.v.(VIdx).z
			}
			ok = z
			c.v = VIdx{sp: b.sp}
		}
		lk := uint8(depth)
		if !ok || !enter {
			lk = 0
		}
		var n Val
		switch x := c.v.(type) {
		case VIdx:
			if ok {
				x.m = b.m
				switch y := b.v.(type) {
				case VIt:
					x.z = y.z
				case VIdx:
					x.z = y.z
				}
				x.sy = 0
			}
			x.lk, x.off = lk, 0
			n = x
		case VIt:
			if ok {
				x.s = b.m
			}
			x.lk, x.off = lk, 0
			n = x
		default:
			continue
		}
		in.write(st, ls[i], withIdx(c.w, c.f, n))
	}
	lk := uint8(depth)
	if !enter {
		lk = 0
	}
	var n Val
	switch x := b.v.(type) {
	case VIdx:
		x.lk, x.off = lk, 0
		n = x
	case VIt:
		x.lk, x.off = lk, 0
		n = x
	}
	in.write(st, ls[lead], withIdx(b.w, b.f, n))
}

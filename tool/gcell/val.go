package main

import (
	"bytes"
	"fmt"
	"hash/maphash"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// ---------------------------------------------------------------------------
// Terms: what a stored scalar is, as an expression over the initial contents.

type Term struct {
	op   string // "leaf", "{}" (bag), "top", "deep", or the name of an opaque operation
	name string // leaf name
	args []*Term
	cnt  []int8 // bag multiplicities, saturating at 2
	key  string
	dep  int
	pure bool // contains no leaf at all (literal)
}

var termTab = map[string]*Term{}

func mkTerm(t *Term) *Term {
	var b strings.Builder
	switch t.op {
	case "leaf":
		b.WriteString(t.name)
	case "{}":
		b.WriteByte('{')
		for i, a := range t.args {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(a.key)
			if t.cnt[i] > 1 {
				b.WriteString("*2+")
			}
		}
		b.WriteByte('}')
	default:
		b.WriteString(t.op)
		if len(t.args) > 0 {
			b.WriteByte('(')
			for i, a := range t.args {
				if i > 0 {
					b.WriteByte(',')
				}
				b.WriteString(a.key)
			}
			b.WriteByte(')')
		}
	}
	t.key = b.String()
	for _, a := range t.args {
		if a.dep+1 > t.dep {
			t.dep = a.dep + 1
		}
	}
	return t
}

var topTerm = mkTerm(&Term{op: "top"})

// gtopTerm: an unknown value in the distinguished column that was mixed from rows other than the distinguished one.
var gtopTerm = func() *Term { t := mkTerm(&Term{op: "top"}); t.key = "top@g"; return t }()

func gmark(v Val) Val {
	if r, ok := v.(VRec); ok && len(r.f) == 2 {
		if t, ok := r.f[1].(VTerm); ok && t.t == topTerm {
			return VRec{r.rec, []Val{r.f[0], VTerm{gtopTerm, "", ""}}}
		}
	}
	return v
}

var deepTerm = mkTerm(&Term{op: "deep"})

func leaf(n string) *Term { return mkTerm(&Term{op: "leaf", name: n}) }
func lit(k int64) *Term {
	return mkTerm(&Term{op: "leaf", name: "#" + strconv.FormatInt(k, 10), pure: true})
}
func app(op string, as ...*Term) *Term {
	alltop := len(as) > 0
	for _, a := range as {
		if a.op != "top" {
			alltop = false
		}
		if a.op == "deep" {
			return deepTerm
		}
	}
	if alltop {
		for _, a := range as {
			if a == gtopTerm {
				return gtopTerm
			}
		}
		return topTerm
	}
	t := mkTerm(&Term{op: op, args: as})
	if t.dep > 7 || len(t.key) > 600 {
		return deepTerm
	}
	return t
}

// bagAdd is the application of an operation that the property takes to be a
// commutative, associative monoid: only the multiset of operands is kept.
func bagAdd(a, b *Term) *Term {
	if a.op == "deep" || b.op == "deep" {
		return deepTerm
	}
	m := map[string]int8{}
	ts := map[string]*Term{}
	put := func(t *Term) {
		if t.op == "{}" {
			for i, x := range t.args {
				m[x.key] += t.cnt[i]
				ts[x.key] = x
			}
		} else {
			m[t.key]++
			ts[t.key] = t
		}
	}
	put(a)
	put(b)
	if len(m) > 12 {
		return deepTerm
	}
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	t := &Term{op: "{}"}
	for _, k := range ks {
		c := m[k]
		if c > 2 {
			c = 2
		}
		if !hasStar(ts[k]) {
			c = 1
		}
		t.args = append(t.args, ts[k])
		t.cnt = append(t.cnt, c)
	}
	if len(t.args) == 1 && t.cnt[0] == 1 {
		return t.args[0]
	}
	return mkTerm(t)
}

// hasStar: the term contains a leaf whose every index is a distinguished point.
func hasStar(t *Term) bool {
	if t.op == "leaf" {
		return strings.HasSuffix(t.name, "@*") || strings.HasSuffix(t.name, "@stale")
	}
	if t.op == "deep" {
		return true
	}
	for _, a := range t.args {
		if hasStar(a) {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------------------
// Abstract values

type Val interface{ key(b *KB) }

type VUnk struct{}           // any value
type VUninit struct{}        // read before written
type VOpq struct{ n string } // object whose contents do not matter (stream, string, ...)
type VNull struct{}          // null pointer
type VInt struct{ k int64 }  // known integer, bool or enumerator
type VN struct{ sp, d int }  // size of an index space, + d
type VIdx struct {           // an index of a space; m = mask of slots
	sp  int
	m   uint8
	sy  int   // names the value in State.rel (0: no name)
	z   bool  // the integer 0
	lk  uint8 // ties the value to another counter of the loop at this depth ...
	off int8  // ... that far behind it
}
type VPB struct { // idx of space a times N(b)
	a, b int
	m    uint8
}
type VNP struct{ a, b int } // N(a)*N(b)
type VCnt struct {          // a count of stored elements: p of them the star, g (0: none, 1: any, 2: some) others, +k
	p, k int
	g    uint8
	src  Loc  // row/dense whose size it is (c<0: none)
	b    int  // element counters: settled count at the distinguished cell
	rel  bool // derived from an element counter by adding and subtracting
	ctr  bool // a local counter
}
type VTerm struct {
	t  *Term
	ch string // conversions since the last leaf/application, "double>float"
	nt string // type the term was produced with
}
type VRec struct {
	rec int // record id; -1 tuple/pair
	f   []Val
}
type VRow struct { // vector of (index, value) tuples
	sp   int   // index space of the tuples, -1 unknown
	L, R uint8 // possible numbers of elements below/above the star: mask 1 none, 2 one, 4 more
	p    Val   // star element (tuple), nil: absent
	pm   bool  // star element may be absent
	gv   Val   // scalar of the other elements
	bad  string
	tt   int // tuple type id
}
type VDense struct { // vector indexed by a space
	sp int // -1: empty/unsized
	p  Val
	g  Val
	et int
	pk uint8 // packed arrays
}
type VIt struct {
	loc   Loc
	s     uint8 // slot bit
	first bool
	inv   bool
	sy    int  // names the element in State.rel
	z     bool // the first element of an array
	lk    uint8
	off   int8
	pk    bool // fills a packed array
	ro    bool // const iterator; first is then not tracked across loop heads
	uns   bool // the first element of an unsorted array
}
type VRef struct{ loc Loc }
type VProxy struct{ loc Loc } // vector<bool>::reference
type VFn struct{ fn int }
type VOI struct{ n string } // output iterator and other opaque iterators

type Loc struct {
	c int
	p string
}

const (
	SL = 1
	SP = 2
	SR = 4
	SE = 8
)

func slotName(m uint8) string {
	s := ""
	for i, n := range []string{"<", "*", ">", "end"} {
		if m&(1<<i) != 0 {
			s += n
		}
	}
	return s
}

// KB is a reusable key buffer.
type KB struct {
	buf []byte
	sym map[int]int // names that matter, to their ordinals in the order met (-1: not met)
	nsy int
	mid bool // leave out how many other elements a row has
}

func (b *KB) name(sy int) {
	if b.sym == nil || sy == 0 {
		return
	}
	if o, ok := b.sym[sy]; ok {
		if o < 0 {
			b.nsy++
			o = b.nsy
			b.sym[sy] = o
		}
		b.put('~')
		wi(b, o)
	}
}

func (b *KB) WriteString(s string) { b.buf = append(b.buf, s...) }
func (b *KB) put(c byte)           { b.buf = append(b.buf, c) }
func (b *KB) String() string       { return string(b.buf) }

var kbPool = sync.Pool{New: func() any { return &KB{buf: make([]byte, 0, 4096)} }}

func getKB() *KB {
	b := kbPool.Get().(*KB)
	b.buf = b.buf[:0]
	b.sym = nil
	b.nsy = 0
	b.mid = false
	return b
}
func (b *KB) done() memoKey {
	k := memoKey{maphash.Bytes(seedA, b.buf), maphash.Bytes(seedB, b.buf)}
	kbPool.Put(b)
	return k
}

func wi(b *KB, i int) {
	if i >= 0 && i < 10 {
		b.buf = append(b.buf, byte('0'+i), ',')
		return
	}
	b.buf = strconv.AppendInt(b.buf, int64(i), 10)
	b.buf = append(b.buf, ',')
}

func (v VUnk) key(b *KB)    { b.WriteString("?;") }
func (v VUninit) key(b *KB) { b.WriteString("!;") }
func (v VOpq) key(b *KB)    { b.WriteString("o;") }
func (v VNull) key(b *KB)   { b.WriteString("0p;") }
func (v VInt) key(b *KB)    { b.put('i'); b.buf = strconv.AppendInt(b.buf, v.k, 10); b.put(';') }
func (v VN) key(b *KB)      { b.WriteString("N"); wi(b, v.sp); wi(b, v.d) }
func (v VIdx) key(b *KB) {
	b.WriteString("x")
	wi(b, v.sp)
	wi(b, int(v.m))
	if v.z {
		b.put('z')
	}
	if v.lk != 0 {
		b.put('l')
		wi(b, int(v.lk))
		wi(b, int(v.off))
	}
	b.name(v.sy)
}
func (v VPB) key(b *KB) { b.WriteString("pb"); wi(b, v.a); wi(b, v.b); wi(b, int(v.m)) }
func (v VNP) key(b *KB) { b.WriteString("np"); wi(b, v.a); wi(b, v.b) }
func (v VCnt) key(b *KB) {
	b.WriteString("c")
	wi(b, v.p)
	wi(b, v.k)
	wi(b, int(v.g))
	v.src.key(b)
	if v.rel {
		b.put('r')
		if v.ctr {
			b.put('l')
		}
		wi(b, v.b)
	}
}
func (v VTerm) key(b *KB) {
	b.WriteString("t")
	b.WriteString(v.t.key)
	b.put(':')
	b.WriteString(v.ch)
	b.put(';')
}
func (v VRec) key(b *KB) {
	b.WriteString("r")
	wi(b, v.rec)
	b.put('(')
	for _, x := range v.f {
		vkey(x, b)
	}
	b.put(')')
}
func (v VRow) key(b *KB) {
	b.WriteString("R")
	if b.mid {
		if v.p != nil {
			wi(b, v.sp)
		}
	} else {
		wi(b, v.sp)
		wi(b, int(v.L))
		wi(b, int(v.R))
	}
	if v.pm {
		b.put('m')
	}
	vkey(v.p, b)
	vkey(v.gv, b)
	b.WriteString(v.bad)
	b.put(';')
}
func (v VDense) key(b *KB) {
	b.WriteString("D")
	wi(b, v.sp)
	if v.pk != 0 {
		b.put('k')
		b.put('a' + v.pk)
	}
	vkey(v.p, b)
	vkey(v.g, b)
}
func (v VIt) key(b *KB) {
	if v.z {
		b.put('z')
	}
	if v.lk != 0 {
		b.put('l')
		wi(b, int(v.lk))
		wi(b, int(v.off))
	}
	if v.pk {
		b.put('k')
	}
	b.WriteString("I")
	v.loc.key(b)
	wi(b, int(v.s))
	if v.first {
		b.put('f')
	}
	if v.inv {
		b.put('!')
	}
	if v.ro {
		b.put('c')
	}
	if v.uns {
		b.put('u')
	}
	b.name(v.sy)
}
func (v VRef) key(b *KB)   { b.WriteString("&"); v.loc.key(b) }
func (v VProxy) key(b *KB) { b.WriteString("%"); v.loc.key(b) }
func (v VFn) key(b *KB)    { b.WriteString("F"); wi(b, v.fn) }
func (v VOI) key(b *KB)    { b.WriteString("O;") }
func (l Loc) key(b *KB) {
	b.buf = strconv.AppendInt(b.buf, int64(l.c), 10)
	b.put('.')
	b.WriteString(l.p)
	b.put(';')
}
func vkey(v Val, b *KB) {
	if v == nil {
		b.WriteString("-;")
		return
	}
	v.key(b)
}
func keyOf(v Val) string {
	b := getKB()
	vkey(v, b)
	s := b.String()
	kbPool.Put(b)
	return s
}
func same(a, b Val) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	x, y := getKB(), getKB()
	vkey(a, x)
	vkey(b, y)
	r := bytes.Equal(x.buf, y.buf)
	kbPool.Put(x)
	kbPool.Put(y)
	return r
}

// ---------------------------------------------------------------------------
// Paths.  A step is two bytes: kind ('f' field, 'd' dense element, 'r' row
// element) and index (field number or slot bit).

func (l Loc) field(i int) Loc { return Loc{l.c, l.p + "f" + string(rune('0'+i))} }
func (l Loc) dense(s uint8) Loc {
	if s != SP {
		s = SL // what is known of the other elements does not depend on their side
	}
	return Loc{l.c, l.p + "d" + string(rune('0'+s))}
}
func (l Loc) row(s uint8) Loc { return Loc{l.c, l.p + "r" + string(rune('0'+s))} }
func (l Loc) parent() Loc     { return Loc{l.c, l.p[:len(l.p)-2]} }
func (l Loc) strong() bool {
	for i := 0; i+1 < len(l.p); i += 2 {
		if (l.p[i] == 'd' || l.p[i] == 'r') && l.p[i+1] != '0'+SP {
			return false
		}
	}
	return true
}
func (l Loc) String() string { return fmt.Sprintf("%d.%s", l.c, l.p) }

// ---------------------------------------------------------------------------
// State

type EnvE struct {
	d   int
	loc Loc
}
type State struct {
	cells  []Val
	env    []EnvE
	base   int
	facts  []string // sorted
	imp    string   // why what follows on this path is imprecise
	touch  []string // counted containers whose star cell changed since the last loop head
	rel    []Rel    // order of counters and elements below the star
	dref   []Dref   // names of the elements last reached through an iterator
	gbits  []string // presence bits of the gap elements at hand: '+' or '-' and their location
	ctr    bool     // some local counter is in scope
	acc    uint8    // what was accessed since the last loop head, and in this call
	accAll uint8
	held   []string // counted containers with increments set aside by an enclosing loop
}

// Rel: the index named a compares to the index of the element named e as one of m (1 less, 2 equal, 4 greater).
type Rel struct {
	a, e int
	m    uint8
}
type Dref struct {
	loc Loc
	sy  int
}

func (s *State) getRel(a, e int) uint8 {
	for _, r := range s.rel {
		if r.a == a && r.e == e {
			return r.m
		}
	}
	return 7
}
func (s *State) setRel(a, e int, m uint8) {
	n := make([]Rel, 0, len(s.rel)+1)
	for _, r := range s.rel {
		if r.a != a || r.e != e {
			n = append(n, r)
		}
	}
	if m != 7 {
		n = append(n, Rel{a, e, m})
	}
	s.rel = n
}
func (s *State) setDref(l Loc, sy int) {
	n := make([]Dref, 0, len(s.dref)+1)
	for _, d := range s.dref {
		if d.loc != l {
			n = append(n, d)
		}
	}
	if sy != 0 {
		n = append(n, Dref{l, sy})
	}
	s.dref = n
}
func (s *State) symBegin(b *KB) {
	if len(s.rel) == 0 {
		return
	}
	b.sym = map[int]int{}
	for _, r := range s.rel {
		b.sym[r.a] = -1
		b.sym[r.e] = -1
	}
}
func (s *State) symEnd(b *KB) {
	for _, g := range s.gbits {
		b.WriteString(g)
		b.put('g')
	}
	if len(s.rel) == 0 {
		return
	}
	for _, d := range s.dref {
		if _, ok := b.sym[d.sy]; ok {
			d.loc.key(b)
			b.name(d.sy)
		}
	}
	var ls []string
	for _, r := range s.rel {
		if x, y := b.sym[r.a], b.sym[r.e]; x > 0 && y > 0 {
			ls = append(ls, fmt.Sprintf("%d%d:%d", x, y, r.m))
		}
	}
	sort.Strings(ls)
	for _, l := range ls {
		b.WriteString(l)
	}
}

func (s *State) gbit(l Loc) (bool, bool) {
	k := l.String()
	for _, g := range s.gbits {
		if g[1:] == k {
			return g[0] == '+', true
		}
	}
	return false, false
}

// gcRel forgets relations of names that no longer occur.
func (s *State) gcRel() {
	if len(s.rel) == 0 {
		return
	}
	b := getKB()
	s.symBegin(b)
	for _, c := range s.cells {
		vkey(c, b)
	}
	var n []Rel
	for _, r := range s.rel {
		if b.sym[r.a] > 0 && b.sym[r.e] > 0 {
			n = append(n, r)
		}
	}
	s.rel = n
	kbPool.Put(b)
}

func (s *State) clone() *State {
	n := &State{base: s.base, imp: s.imp}
	n.cells = append(make([]Val, 0, len(s.cells)+8), s.cells...)
	n.env = append(make([]EnvE, 0, len(s.env)+8), s.env...)
	n.facts = s.facts
	n.touch = s.touch
	n.held = s.held
	n.ctr, n.acc, n.accAll = s.ctr, s.acc, s.accAll
	n.rel = s.rel
	n.gbits = s.gbits
	n.dref = s.dref
	return n
}
func (s *State) key(b *KB) {
	s.symBegin(b)
	for _, c := range s.cells {
		vkey(c, b)
	}
	b.put('|')
	for _, e := range s.env {
		wi(b, e.d)
		e.loc.key(b)
	}
	b.put('|')
	for _, f := range s.facts {
		b.WriteString(f)
		b.put(' ')
	}
	if s.imp != "" {
		b.WriteString("|imp")
	}
	for _, f := range s.touch {
		b.WriteString(f)
		b.put(' ')
	}
	for _, f := range s.held {
		b.WriteString(f)
		b.put('h')
	}
	if s.ctr {
		b.put('C')
		b.put('a' + s.acc)
		b.put('a' + s.accAll)
	}
	s.symEnd(b)
}
func (s *State) alloc(v Val) Loc {
	s.cells = append(s.cells, v)
	return Loc{len(s.cells) - 1, ""}
}
func (s *State) bind(d int, l Loc) { s.env = append(s.env, EnvE{d, l}) }
func addStr(xs []string, x string) []string {
	i := sort.SearchStrings(xs, x)
	if i < len(xs) && xs[i] == x {
		return xs
	}
	r := make([]string, 0, len(xs)+1)
	r = append(r, xs[:i]...)
	r = append(r, x)
	return append(r, xs[i:]...)
}
func (s *State) fact(k string) (bool, bool) {
	for _, f := range s.facts {
		if f[1:] == k {
			return f[0] == '+', true
		}
	}
	return false, false
}
func (s *State) setFact(k string, v bool) {
	if v {
		s.facts = addStr(s.facts, "+"+k)
	} else {
		s.facts = addStr(s.facts, "-"+k)
	}
}
func (s *State) imprecise(why string) {
	if s.imp == "" {
		s.imp = why
	}
}

// skel is the key of a state without what is known of the non-distinguished
// elements; states with the same skeleton are joined.
func (s *State) skel(b *KB) {
	s.symBegin(b)
	for _, c := range s.cells {
		skelV(c, b)
	}
	b.put('|')
	for _, e := range s.env {
		wi(b, e.d)
		e.loc.key(b)
	}
	b.put('|')
	for _, f := range s.facts {
		b.WriteString(f)
		b.put(' ')
	}
	if s.imp != "" {
		b.WriteString("|imp")
	}
	for _, f := range s.touch {
		b.WriteString(f)
		b.put(' ')
	}
	for _, f := range s.held {
		b.WriteString(f)
		b.put('h')
	}
	if s.ctr {
		b.put('C')
		b.put('a' + s.acc)
		b.put('a' + s.accAll)
	}
	s.symEnd(b)
}
func skelV(v Val, b *KB) {
	switch x := v.(type) {
	case VRow:
		b.WriteString("R")
		if x.p == nil {
			wi(b, -1)
		} else {
			wi(b, x.sp)
		}
		if x.pm {
			b.put('m')
		}
		skelV(x.p, b)
		b.WriteString(x.bad)
		b.put(';')
	case VTerm:
		if gapTerm(x.t) {
			b.WriteString("tg;")
		} else {
			x.key(b)
		}
	case VDense:
		b.WriteString("D")
		wi(b, x.sp)
		if x.pk != 0 {
			b.put('k')
			b.put('a' + x.pk)
		}
		skelV(x.p, b)
	case VRec:
		b.WriteString("r")
		wi(b, x.rec)
		b.put('(')
		for _, y := range x.f {
			skelV(y, b)
		}
		b.put(')')
	default:
		vkey(v, b)
	}
}

// gapTerm: the term says nothing about the distinguished elements.
func gapTerm(t *Term) bool { return !t.pure && !hasStar(t) }

// joinGap joins two values with the same skeleton.
func joinGap(a, b Val) (Val, bool) {
	switch x := a.(type) {
	case VTerm:
		y, ok := b.(VTerm)
		if !ok || x.t.key == y.t.key && x.ch == y.ch || x.t.op == "top" && x.ch == "" && x.nt == "" {
			return a, false
		}
		return VTerm{topTerm, "", ""}, true
	case VRow:
		y, ok := b.(VRow)
		if !ok {
			return a, false
		}
		r := x
		if r.sp == -1 {
			r.sp = y.sp
		} else if y.sp >= 0 && r.sp != y.sp {
			r.sp = -2
		}
		r.L |= y.L
		r.R |= y.R
		if !same(r.gv, y.gv) {
			r.gv = joinG(r.gv, y.gv)
			if y.gv == nil {
				r.gv = x.gv
			}
		}
		if x.p != nil {
			if p, ch := joinGap(x.p, y.p); ch {
				r.p = gmark(p)
				return r, true
			}
		}
		return r, r.sp != x.sp || r.L != x.L || r.R != x.R || !same(r.gv, x.gv)
	case VDense:
		y, ok := b.(VDense)
		if !ok {
			return a, false
		}
		r := x
		p, ch := joinGap(x.p, y.p)
		r.p = p
		if x.pk != 0 && (x.g == nil || y.g == nil) {
			if x.g == nil && y.g != nil {
				r.g, ch = y.g, true
			}
		} else if !same(x.g, y.g) {
			r.g = join(x.g, y.g)
			if !same(r.g, x.g) {
				ch = true
			}
		}
		return r, ch
	case VRec:
		y, ok := b.(VRec)
		if !ok || len(x.f) != len(y.f) {
			return a, false
		}
		var r VRec
		ch := false
		for i := range x.f {
			n, c := joinGap(x.f[i], y.f[i])
			if c {
				if !ch {
					r = VRec{x.rec, append([]Val{}, x.f...)}
					ch = true
				}
				r.f[i] = n
			}
		}
		if ch {
			return r, true
		}
	}
	return a, false
}

// joinState joins what b knows into s; it reports whether s changed.
func (s *State) joinState(b *State) bool {
	ch := false
	for i := range s.cells {
		if n, c := joinGap(s.cells[i], b.cells[i]); c {
			s.cells[i] = n
			ch = true
		}
	}
	return ch
}

// ---------------------------------------------------------------------------
// Joins (only used for weak updates of gap elements)

func join(a, b Val) Val {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	if same(a, b) {
		return a
	}
	switch x := a.(type) {
	case VRow:
		if y, ok := b.(VRow); ok {
			r := x
			if r.sp < 0 {
				r.sp = y.sp
			}
			r.L |= y.L
			r.R |= y.R
			switch {
			case x.p == nil && y.p == nil:
			case x.p == nil || y.p == nil:
				r.pm = true
				if x.p == nil {
					r.p = y.p
				}
			default:
				r.p = gmark(join(x.p, y.p))
				r.pm = x.pm || y.pm
			}
			r.gv = join(x.gv, y.gv)
			if x.bad != y.bad {
				r.bad = ""
			}
			return r
		}
	case VDense:
		if y, ok := b.(VDense); ok {
			r := x
			if x.sp != y.sp {
				r.sp = -2
			}
			r.p = join(x.p, y.p)
			r.g = join(x.g, y.g)
			return r
		}
	case VRec:
		if y, ok := b.(VRec); ok && len(x.f) == len(y.f) {
			r := VRec{x.rec, make([]Val, len(x.f))}
			for i := range x.f {
				r.f[i] = join(x.f[i], y.f[i])
			}
			return r
		}
	case VIdx:
		if y, ok := b.(VIdx); ok && x.sp == y.sp {
			return VIdx{sp: x.sp, m: x.m | y.m}
		}
	case VTerm:
		return VTerm{topTerm, "", ""}
	case VInt:
		if _, ok := b.(VInt); ok {
			return VTerm{topTerm, "", ""}
		}
	}
	if _, ok := b.(VTerm); ok {
		return VTerm{topTerm, "", ""}
	}
	return VUnk{}
}

func tuple(vs ...Val) VRec { return VRec{-1, vs} }

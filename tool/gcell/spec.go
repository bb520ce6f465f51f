package main

import (
	"fmt"
	"sort"
	"strings"
)

// ---------------------------------------------------------------------------
// Driver functions, their parameters and what is to be shown of them.

type Obj struct {
	nm   string
	k    byte // 'm' matrix, 'v' vector, 'x' index vector, 'i' index, 's' scalar, 'o' output-control flag
	r, c int  // index spaces
	ty   string
	mut  bool
}

func mat(nm, ty string, r, c int) Obj { return Obj{nm: nm, k: 'm', ty: ty, r: r, c: c} }
func vec(nm, ty string, n int) Obj    { return Obj{nm: nm, k: 'v', ty: ty, r: n} }
func (o Obj) m() Obj                  { o.mut = true; return o }

func (o Obj) decl() string {
	cst := ""
	if !o.mut {
		cst = " const"
	}
	switch o.k {
	case 'm':
		return "grb::Matrix<" + o.ty + ">" + cst + " &" + o.nm
	case 'v':
		return "grb::Vector<" + o.ty + ">" + cst + " &" + o.nm
	case 'x':
		return "std::vector<grb::IndexType> const &" + o.nm
	case 'd':
		return "std::vector<" + o.ty + "> const &" + o.nm
	case 'i':
		return "grb::IndexType " + o.nm
	case 's':
		if o.mut {
			return o.ty + " &" + o.nm
		}
		return o.ty + " " + o.nm
	case 'o':
		return "bool " + o.nm
	}
	return "?"
}

// leafKey names a stored scalar of a matrix (vector) by whether its row and
// column (index) are the distinguished ones.
func mleaf(o string, r, c bool) string {
	switch {
	case r && c:
		return o + "@*"
	case r:
		return o + "@*g"
	case c:
		return o + "@g*"
	}
	return o + "@gg"
}
func vleaf(o string, r bool) string {
	if r {
		return o + "@*"
	}
	return o + "@g"
}

// Want describes the stored value expected at the distinguished cell.
type Want struct {
	star  []string        // terms that must be present exactly once
	gap   map[string]bool // further terms that may be present
	maybe bool            // nothing at all may be stored even though gap terms exist (star empty)
	one   bool            // exactly the term star[0], not a bag
}

type Conf struct {
	desc               string
	pres               map[string]int // presence of the star element of each object (mask: 1 stored false, 2 stored true)
	repl               bool
	idx                map[string]uint8 // slot of index parameters
	cfg                *Cfg
	dimOf              map[string][2]int // overridden spaces, for mismatched calls
	mode               string
	ix                 map[string]IxMode
	alias              map[string]string // objects passed in place of others
	outside, otherLine bool
	prio               int
}

type IxMode struct { // contents of an index vector
	pos, rng int // position space and index space
	star     Val // element at the star position
	gap      Val // elements elsewhere
}

type Case struct {
	fn    string
	objs  []Obj
	body  string
	confs func() []*Conf
	check func(r *Run) // inspects the final states and records verdicts
	tag   string
}

type TU struct {
	name     string
	platform string
	pre      string
	cases    []*Case
	hdr      string
	uni      bool // all scalars of one type
	p        *Prog
	twins    map[string][]string // drivers: the platforms on which they are the same program
}

// Run is the analysis of one driver function under one configuration.
type Run struct {
	tu     *TU
	cs     *Case
	cf     *Conf
	in     *I
	finals []*State
	thrown []Out
	locs   map[string]Loc
	init   map[string]Val
	viol   []string
	undec  string
	over   bool
	npaths int
	lay    map[string]*Layout
}

func (r *Run) bad(f string, a ...interface{}) {
	m := fmt.Sprintf(f, a...)
	for _, x := range r.viol {
		if x == m {
			return
		}
	}
	r.viol = append(r.viol, m)
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// termMatches: does the stored scalar equal what is wanted?
func termMatches(t *Term, w Want) string {
	if t.op == "deep" || t.op == "top" {
		return "?"
	}
	if len(w.star) > 0 && w.star[0] == "ACC" {
		if t.op != "Acc" || len(t.args) != 2 {
			return "holds " + t.key
		}
		if t.args[0].key != w.star[1] {
			return "accumulates onto " + t.args[0].key
		}
		return termMatches(t.args[1], Want{star: w.star[2:], gap: w.gap, one: w.one})
	}
	need := map[string]int{}
	for _, s := range w.star {
		need[s]++
	}
	els := []*Term{t}
	cnt := []int8{1}
	if t.op == "{}" {
		els, cnt = t.args, t.cnt
	}
	for i, e := range els {
		if need[e.key] > 0 {
			if int(cnt[i]) != need[e.key] {
				return fmt.Sprintf("%s contributes %d times", e.key, cnt[i])
			}
			delete(need, e.key)
			continue
		}
		if w.gap[e.key] || e.op == "top" && len(w.gap) > 0 && len(els) > 1 {
			continue
		}
		return "holds " + t.key
	}
	for k := range need {
		return "lacks " + k + " (holds " + t.key + ")"
	}
	if t.op == "{}" && w.one {
		return "holds " + t.key
	}
	return ""
}

// cellCheck compares the star cell of an output with the expectation.
// present/t: what is stored.  alts: the acceptable possibilities; a nil Want
// pointer means absent.
func cellCheck(present, maybe bool, t *Term, alts []*Want) string {
	if maybe {
		return "?"
	}
	msgs := []string{}
	for _, w := range alts {
		if w == nil {
			if !present {
				return ""
			}
			msgs = append(msgs, "expected no stored value, found "+t.key)
			continue
		}
		if !present {
			msgs = append(msgs, "expected a stored value ("+wantStr(w)+"), found none")
			continue
		}
		m := termMatches(t, *w)
		if m == "" {
			return ""
		}
		if m == "?" {
			return "?"
		}
		msgs = append(msgs, "expected "+wantStr(w)+": "+m)
	}
	return strings.Join(msgs, "; or ")
}
func wantStr(w *Want) string {
	s := strings.Join(w.star, " ")
	if len(w.star) > 1 && w.star[0] == "ACC" {
		s = "Acc(" + w.star[1] + ", " + strings.Join(w.star[2:], " ") + ")"
	}
	if len(w.gap) > 0 {
		s += " [+ " + strings.Join(sortedKeys(w.gap), " ") + "]"
	}
	return s
}

// stdLaw: the GraphBLAS output rule C<M,z> = C (+) T at the star cell.
// T lists the possibilities of the computed T at that cell.
type OpLaw struct {
	out  string // output object
	mask string // "" none, else object name
	mk   string // "", "m", "c", "s", "cs"
	acc  bool
	cell string // leaf of the output
	T    func(cf *Conf) []*Want
}

func (l *OpLaw) maskTrue(cf *Conf) bool {
	if l.mk == "" {
		return true
	}
	m := cf.pres[l.mask]
	v := m == 2
	if strings.Contains(l.mk, "s") {
		v = m >= 1
	}
	if strings.HasPrefix(l.mk, "c") {
		v = !v
	}
	return v
}

func (l *OpLaw) expect(cf *Conf) []*Want {
	c := cf.pres[l.out] > 0
	cw := &Want{star: []string{l.cell}, one: true}
	if !l.maskTrue(cf) {
		if cf.repl || !c {
			return []*Want{nil}
		}
		return []*Want{cw}
	}
	ts := l.T(cf)
	if !l.acc {
		return ts
	}
	var r []*Want
	for _, t := range ts {
		switch {
		case t == nil && c:
			r = append(r, cw)
		case t == nil:
			r = append(r, nil)
		case !c:
			r = append(r, t)
		default:
			r = append(r, &Want{star: []string{"Acc"}, one: true, gap: nil, maybe: false})
			r[len(r)-1] = accWant(l.cell, t)
		}
	}
	return r
}

// accWant is matched specially: Acc(cell, t) with t matching w.
func accWant(cell string, w *Want) *Want {
	return &Want{star: append([]string{"ACC", cell}, w.star...), gap: w.gap, one: w.one}
}

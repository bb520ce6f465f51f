package main

import (
	"hash/maphash"
	"sort"
	"strconv"
	"strings"
)

// Calls are analysed in a frame of their own: the part of the memory that the
// callee can reach from its arguments, renumbered in a canonical way.  The
// outcome of a call is a function of that frame, so it is kept and reused.

type memoKey struct{ a, b uint64 }
type memoVal struct {
	outs []Out    // in frame numbering
	n    int      // number of frame cells
	in   *State   // what it was analysed for
	mod  [][]bool // per outcome and frame cell: written
	args []Val
}

var seedA, seedB = maphash.MakeSeed(), maphash.MakeSeed()

// locsOf visits every location a value holds.
func locsOf(v Val, f func(Loc)) {
	switch x := v.(type) {
	case VRef:
		f(x.loc)
	case VProxy:
		f(x.loc)
	case VIt:
		f(x.loc)
	case VRec:
		for _, y := range x.f {
			locsOf(y, f)
		}
	case VDense:
		locsOf(x.p, f)
		locsOf(x.g, f)
	case VRow:
		locsOf(x.p, f)
		locsOf(x.gv, f)
	}
}
func hasLoc(v Val) bool {
	switch x := v.(type) {
	case VRef, VProxy, VIt:
		return true
	case VIdx:
		return x.sy != 0
	case VRec:
		for _, y := range x.f {
			if hasLoc(y) {
				return true
			}
		}
	case VDense:
		return hasLoc(x.p) || hasLoc(x.g)
	case VRow:
		return hasLoc(x.p) || hasLoc(x.gv)
	}
	return false
}

// relocVal renumbers the locations a value refers to.
func relocVal(v Val, m func(Loc) Loc) Val {
	if v == nil || !hasLoc(v) {
		return v
	}
	switch x := v.(type) {
	case VIdx:
		x.sy = 0
		return x
	case VRef:
		x.loc = m(x.loc)
		return x
	case VProxy:
		x.loc = m(x.loc)
		return x
	case VIt:
		x.loc = m(x.loc)
		x.sy = 0
		return x
	case VRec:
		n := VRec{x.rec, make([]Val, len(x.f))}
		for i, y := range x.f {
			n.f[i] = relocVal(y, m)
		}
		return n
	case VDense:
		x.p = relocVal(x.p, m)
		x.g = relocVal(x.g, m)
		return x
	case VRow:
		x.p = relocVal(x.p, m)
		x.gv = relocVal(x.gv, m)
		return x
	}
	return v
}

// touchLoc splits an entry of touch or held into its mark and its location.
func touchLoc(t string) (string, Loc) {
	m := ""
	if t[0] == '^' || t[0] == '~' {
		m, t = t[:1], t[1:]
	}
	i := strings.IndexByte(t, '.')
	c, _ := strconv.Atoi(t[:i])
	return m, Loc{c, t[i+1:]}
}

const (
	weakBox   = -3 // a frame cell holding one unspecified element of a container
	strongBox = -4 // a frame cell holding the distinguished element of a counted container
)

// piece is a part of the caller's memory that a frame cell stands for.
type piece struct {
	c    int
	path string
	box  int // 0: the frame cell is the part itself
}

// cut: the part of a cell that has to be passed for a reference to path.
func cutPath(p string) string {
	n := 0
	for i := 0; i+1 < len(p); i += 2 {
		if p[i] == 'r' {
			break
		}
		n = i + 2
	}
	return p[:n]
}

// setSub replaces the part of a value at a path.
func setSub(v Val, p string, nv Val) Val {
	if p == "" {
		return nv
	}
	i := uint8(p[1] - '0')
	switch p[0] {
	case 'f':
		if r, ok := v.(VRec); ok && int(i) < len(r.f) {
			n := VRec{r.rec, append([]Val{}, r.f...)}
			n.f[i] = setSub(r.f[i], p[2:], nv)
			return n
		}
	case 'd':
		if d, ok := v.(VDense); ok {
			if i == SP {
				d.p = setSub(d.p, p[2:], nv)
			} else {
				d.g = setSub(d.g, p[2:], nv)
			}
			return d
		}
	}
	return v
}

// box decides how the part of cell v at path p is passed.
func (in *I) boxOf(v Val, p string) int {
	weak, counted, dense := false, false, false
	for i := 0; i < len(p); i += 2 {
		if r, ok := v.(VRec); ok {
			if _, ok := in.counted[r.rec]; ok {
				counted = true
			}
		}
		if d, ok := v.(VDense); ok {
			dense = true
			if d.sp == weakBox {
				weak = true
			}
			if d.sp == strongBox {
				counted = true
			}
		}
		if p[i] == 'd' && p[i+1] != '0'+SP {
			weak = true
		}
		v = in.getPath(v, p[i:i+2])
	}
	switch {
	case weak:
		return weakBox
	case counted && dense:
		return strongBox
	}
	return 0
}

// framed runs f on its frame and hands every outcome, in terms of st, to k.
func (in *I) framed(st *State, id int, this Loc, args []Val, run func(fs *State, this Loc, args []Val) []Out, k func(*State, Out)) {
	if len(st.rel) > 0 {
		st.gcRel()
	}
	if len(st.rel) > 0 { // names do not cross frames
		for _, o := range run(st, this, args) {
			k(o.st, o)
		}
		return
	}
	var ps []piece
	var add func(l Loc)
	add = func(l Loc) {
		if l.c < 0 || l.c >= len(st.cells) {
			return
		}
		p := cutPath(l.p)
		for _, q := range ps {
			if q.c == l.c && strings.HasPrefix(p, q.path) {
				return
			}
		}
		n := ps[:0]
		for _, q := range ps {
			if q.c != l.c || !strings.HasPrefix(q.path, p) {
				n = append(n, q)
			}
		}
		ps = append(n, piece{c: l.c, path: p})
		locsOf(in.getPath(st.cells[l.c], p), add)
	}
	add(this)
	for _, a := range args {
		locsOf(a, add)
	}
	for _, l := range in.globLoc {
		add(l)
	}
	sort.Slice(ps, func(i, j int) bool {
		if ps[i].c != ps[j].c {
			return ps[i].c < ps[j].c
		}
		return ps[i].path < ps[j].path
	})
	for i := range ps {
		ps[i].box = in.boxOf(st.cells[ps[i].c], ps[i].path)
	}
	find := func(l Loc) (Loc, bool) {
		for i, q := range ps {
			if q.c == l.c && strings.HasPrefix(l.p, q.path) {
				r := l.p[len(q.path):]
				switch q.box {
				case weakBox:
					r = "d1" + r
				case strongBox:
					r = "d2" + r
				}
				return Loc{i, r}, true
			}
		}
		return Loc{-8, ""}, false
	}
	to := func(l Loc) Loc {
		if l.c < 0 {
			return l
		}
		n, _ := find(l)
		return n
	}
	oldGlob := in.globLoc
	fs := &State{facts: st.facts, cells: make([]Val, len(ps), len(ps)+16)}
	for i, q := range ps {
		v := relocVal(in.getPath(st.cells[q.c], q.path), to)
		switch q.box {
		case weakBox:
			v = VDense{sp: weakBox, g: v}
		case strongBox:
			v = VDense{sp: strongBox, p: v}
		}
		fs.cells[i] = v
	}
	relTouch := func(ts []string) (r, rest []string) {
		for _, t := range ts {
			m, l := touchLoc(t)
			if n, ok := find(l); ok && m != "~" {
				r = append(r, m+n.String())
			} else {
				rest = append(rest, t)
			}
		}
		sort.Strings(r)
		return
	}
	var restBits []string
	for _, g := range st.gbits {
		_, l := touchLoc(g[1:])
		if n, ok := find(l); ok {
			fs.gbits = append(fs.gbits, g[:1]+n.String())
		} else {
			restBits = append(restBits, g)
		}
	}
	sort.Strings(fs.gbits)
	var restTouch []string
	fs.touch, restTouch = relTouch(st.touch)
	fs.held, _ = relTouch(st.held)
	fs.ctr = st.ctr
	fthis := to(this)
	fargs := make([]Val, len(args))
	for i, a := range args {
		fargs[i] = relocVal(a, to)
	}
	b := getKB()
	b.mid = true
	wi(b, id)
	fthis.key(b)
	for _, a := range fargs {
		vkey(a, b)
	}
	b.put('|')
	gl := map[int]Loc{}
	if len(oldGlob) > 0 {
		ds := make([]int, 0, len(oldGlob))
		for d := range oldGlob {
			ds = append(ds, d)
		}
		sort.Ints(ds)
		for _, d := range ds {
			l := to(oldGlob[d])
			gl[d] = l
			wi(b, d)
			l.key(b)
		}
	}
	fs.key(b)
	mk := b.done()
	mv, ok := in.memo[mk]
	if ok {
		// a summary holds for the numbers of other elements it was made for;
		// it is remade for the union when these differ
		old, oargs := mv.in.clone(), append([]Val(nil), mv.args...)
		ch := old.joinState(fs)
		for i := range oargs {
			if i < len(fargs) {
				if n, c := joinGap(oargs[i], fargs[i]); c {
					oargs[i] = n
					ch = true
				}
			}
		}
		if ch {
			ok = false
			fs, fargs = old, oargs
		}
	}
	if ok {
		in.hits++
	} else {
		in.globLoc = gl
		mv = &memoVal{n: len(ps), in: fs.clone(), args: fargs}
		mv.outs = run(fs, fthis, fargs)
		in.globLoc = oldGlob
		mv.mod = make([][]bool, len(mv.outs))
		for i, o := range mv.outs {
			mv.mod[i] = make([]bool, mv.n)
			for j := range mv.mod[i] {
				mv.mod[i][j] = j >= len(o.st.cells) || !same(o.st.cells[j], mv.in.cells[j])
			}
		}
		in.memo[mk] = mv
	}
	for i, o := range mv.outs {
		s := st
		if i+1 < len(mv.outs) {
			s = st.clone()
		}
		base := len(s.cells)
		from := func(l Loc) Loc {
			if l.c < 0 {
				return l
			}
			if l.c < mv.n {
				q := ps[l.c]
				r := l.p
				if q.box != 0 {
					if len(r) < 2 {
						return Loc{-8, ""}
					}
					r = r[2:]
				}
				return Loc{q.c, q.path + r}
			}
			return Loc{base + l.c - mv.n, l.p}
		}
		for j, v := range o.st.cells {
			if j < mv.n && !mv.mod[i][j] {
				continue
			}
			if j < mv.n {
				switch ps[j].box {
				case weakBox:
					if d, ok := v.(VDense); ok {
						v = d.g
					}
				case strongBox:
					if d, ok := v.(VDense); ok {
						v = d.p
					}
				}
				s.cells[ps[j].c] = setSub(s.cells[ps[j].c], ps[j].path, relocVal(v, from))
			} else {
				s.cells = append(s.cells, relocVal(v, from))
			}
		}
		s.facts = o.st.facts
		s.acc |= o.st.accAll
		s.accAll |= o.st.accAll
		if s.imp == "" {
			s.imp = o.st.imp
		}
		s.gbits = restBits
		for _, g := range o.st.gbits {
			if _, l := touchLoc(g[1:]); l.c < mv.n {
				s.gbits = addStr(s.gbits, g[:1]+from(l).String())
			}
		}
		s.touch = restTouch
		for _, t := range o.st.touch {
			m, l := touchLoc(t)
			if m == "~" {
				in.touch(s, Loc{ps[l.c].c, ps[l.c].path})
			} else {
				s.touch = addStr(s.touch, m+from(l).String())
			}
		}
		k(s, Out{s, o.k, relocVal(o.v, from), o.thr})
	}
}

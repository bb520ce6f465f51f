package main

import (
	"strconv"
	"strings"
)

// ---------------------------------------------------------------------------
// Models of the standard library types the backend is written with.

func (in *I) isVector(r *Rec) bool { return r.N == "std::vector" }

// rowElem: the value type of a vector of (index, value) tuples, or -1.
func (in *I) rowElem(r *Rec) int {
	if len(r.Ta) == 0 || r.Ta[0] < 0 {
		return -1
	}
	t := in.p.rec(r.Ta[0])
	if t == nil || !(t.N == "std::tuple" || t.N == "std::pair") || len(t.Ta) != 2 {
		return -1
	}
	a := in.p.Tys[t.Ta[0]]
	if a.K == "int" && a.W == 64 && a.Sg == 0 {
		return t.Ta[1]
	}
	return -1
}

func (in *I) emptyVec(r *Rec) Val {
	if t := in.rowElem(r); t >= 0 {
		return VRow{sp: -1, L: 1, R: 1, tt: r.Ta[0]}
	}
	et := -1
	if len(r.Ta) > 0 {
		et = r.Ta[0]
	}
	return VDense{sp: -1, et: et}
}

// unkRow: a sorted row about which nothing is known.
func unkRow(sp, tt int) VRow {
	return VRow{sp: sp, L: 7, R: 7, p: tuple(VIdx{sp: sp, m: SP}, VTerm{topTerm, "", ""}), pm: true, gv: VTerm{topTerm, "", ""}, tt: tt}
}

func (in *I) getRow(st *State, l Loc) (VRow, bool) {
	v := in.read(st, l)
	r, ok := v.(VRow)
	return r, ok
}

func (in *I) setRowV(st *State, l Loc, r VRow) {
	st.cells[l.c] = setPath(st.cells[l.c], l.p, r, l.strong())
}

// ordNext enumerates the first element at or after an order position
// (0: below the star, 1: star, 2: above, 3: end).
func (in *I) ordNext(st *State, l Loc, o int, k func(*State, VIt)) {
	r, ok := in.getRow(st, l)
	if !ok {
		in.imprecise(st, "iteration of an unmodelled vector")
		r = unkRow(-1, -1)
	}
	strong := l.strong()
	refine := func(st *State, f func(*VRow)) {
		if strong && ok {
			r2, _ := in.getRow(st, l)
			f(&r2)
			in.setRowV(st, l, r2)
		}
	}
	for ; o < 3; o++ {
		switch o {
		case 0, 2:
			m := r.L
			s := uint8(SL)
			if o == 2 {
				m, s = r.R, SR
			}
			if m == 1 {
				continue
			}
			if m&1 == 0 {
				k(st, VIt{loc: l, s: s, first: true})
				return
			}
			in.forks++
			s2 := st.clone()
			refine(st, func(r *VRow) {
				if s == SL {
					r.L &= 6
				} else {
					r.R &= 6
				}
			})
			k(st, VIt{loc: l, s: s, first: true})
			st = s2
			refine(st, func(r *VRow) {
				if s == SL {
					r.L = 1
				} else {
					r.R = 1
				}
			})
		case 1:
			if r.p == nil {
				continue
			}
			if !r.pm {
				k(st, VIt{loc: l, s: SP, first: true})
				return
			}
			in.forks++
			s2 := st.clone()
			refine(st, func(r *VRow) { r.pm = false })
			k(st, VIt{loc: l, s: SP, first: true})
			st = s2
			refine(st, func(r *VRow) { r.pm = false; r.p = nil })
		}
	}
	k(st, VIt{loc: l, s: SE})
}

func (in *I) checkBad(st *State, l Loc) {
	if r, ok := in.getRow(st, l); ok && r.bad != "" {
		in.imprecise(st, "iteration of an unsorted row ("+r.bad+")")
	}
}

func (in *I) denseBegin(st *State, l Loc, d VDense, k func(*State, VIt)) {
	if d.sp == -1 {
		k(st, VIt{loc: l, s: SE})
		return
	}
	m := uint8(SL | SP)
	if in.cfg.zero[d.sp] {
		m |= SE
	}
	if d.sp < 0 {
		m = SL | SE
	}
	in.split(st, VIdx{sp: d.sp, m: m}, nil, func(st *State, x Val) {
		k(st, VIt{loc: l, s: x.(VIdx).m, z: d.sp >= 0})
	})
}

func (in *I) itBegin(st *State, l Loc, k func(*State, VIt)) {
	switch d := in.read(st, l).(type) {
	case VDense:
		if d, f := in.filling(st, l); f {
			d.pk |= pkBegun
			in.setDense(st, l, d)
			k(st, VIt{loc: l, s: SL, pk: true})
			return
		}
		in.denseBegin(st, l, d, k)
	default:
		if r, ok := in.getRow(st, l); ok && r.bad != "" {
			// what it may be used for is to sort the row
			k(st, VIt{loc: l, s: SL, first: true, uns: true})
			return
		}
		in.ordNext(st, l, 0, func(st *State, n VIt) { k(st, in.nextRel(st, 0, n)) })
	}
}

func (in *I) itNext(st *State, it VIt, k func(*State, VIt)) {
	st.gbits = nil
	if it.uns {
		in.checkBad(st, it.loc)
	}
	if it.inv {
		in.ub(st, "use of an invalidated iterator")
		return
	}
	if it.s == SE {
		in.ub(st, "increment of an end iterator")
		return
	}
	if it.pk {
		in.packNext(st, it, k)
		return
	}
	if d, ok := in.read(st, it.loc).(VDense); ok {
		in.step(st, VIdx{sp: d.sp, m: it.s}, 1, func(st *State, _, n Val) {
			k(st, VIt{loc: it.loc, s: n.(VIdx).m, lk: it.lk, off: it.off + 1})
		})
		return
	}
	k1 := k
	osy := it.sy
	k = func(st *State, n VIt) { k1(st, in.nextRel(st, osy, n)) }
	if it.ro {
		k0 := k
		k = func(st *State, n VIt) { n.ro = true; k0(st, n) }
		it.ro = false
	}
	switch it.s {
	case SL, SR:
		r, ok := in.getRow(st, it.loc)
		m := uint8(7)
		if ok {
			m = r.L
			if it.s == SR {
				m = r.R
			}
		}
		o := 1
		if it.s == SR {
			o = 3
		}
		if m&4 != 0 {
			in.forks++
			s2 := st.clone()
			if it.first && ok && it.loc.strong() {
				r2 := r
				if it.s == SL {
					r2.L = 4
				} else {
					r2.R = 4
				}
				in.setRowV(s2, it.loc, r2)
			}
			k(s2, VIt{loc: it.loc, s: it.s})
			if it.first && m == 4 {
				return // more than one element: the first is not the last
			}
			if it.first && ok && it.loc.strong() && m&2 != 0 {
				r2 := r
				if it.s == SL {
					r2.L = 2
				} else {
					r2.R = 2
				}
				in.setRowV(st, it.loc, r2)
			}
		}
		in.ordNext(st, it.loc, o, k)
	case SP:
		in.ordNext(st, it.loc, 2, k)
	}
}

func (in *I) itPrev(st *State, it VIt, k func(*State, VIt)) {
	if it.uns {
		in.checkBad(st, it.loc)
	}
	if it.inv {
		in.ub(st, "use of an invalidated iterator")
		return
	}
	if d, ok := in.read(st, it.loc).(VDense); ok {
		in.step(st, VIdx{sp: d.sp, m: it.s}, -1, func(st *State, _, n Val) {
			k(st, VIt{loc: it.loc, s: n.(VIdx).m})
		})
		return
	}
	if it.ro {
		k0 := k
		k = func(st *State, n VIt) { n.ro = true; k0(st, n) }
	}
	// backwards over a row: candidates from the nearest
	r, ok := in.getRow(st, it.loc)
	if !ok {
		r = unkRow(-1, -1)
	}
	strong := it.loc.strong() && ok
	var go_ func(st *State, o int)
	go_ = func(st *State, o int) {
		switch o {
		case 2, 0:
			m, s := r.R, uint8(SR)
			if o == 0 {
				m, s = r.L, SL
			}
			if m&6 != 0 {
				s2 := st.clone()
				if strong && m&1 != 0 {
					r2, _ := in.getRow(s2, it.loc)
					if o == 0 {
						r2.L &= 6
					} else {
						r2.R &= 6
					}
					in.setRowV(s2, it.loc, r2)
				}
				k(s2, VIt{loc: it.loc, s: s})
			}
			if m&1 != 0 {
				if strong {
					r2, _ := in.getRow(st, it.loc)
					if o == 0 {
						r2.L = 1
					} else {
						r2.R = 1
					}
					in.setRowV(st, it.loc, r2)
				}
				if o == 0 {
					in.ub(st, "decrement of a begin iterator")
				} else {
					go_(st, 1)
				}
			}
		case 1:
			if r.p != nil {
				s2 := st.clone()
				k(s2, VIt{loc: it.loc, s: SP, first: true})
				if !r.pm {
					return
				}
			}
			go_(st, 0)
		}
	}
	switch it.s {
	case SE:
		go_(st, 2)
	case SR:
		if !it.first {
			k(st.clone(), VIt{loc: it.loc, s: SR})
		}
		go_(st, 1)
	case SP:
		go_(st, 0)
	default:
		k(st, VIt{loc: it.loc, s: SL})
	}
}

// cursor: iterators k positions after the beginning.
func (in *I) cursor(st *State, l Loc, n int, k func(*State, VIt)) {
	var go_ func(st *State, it VIt, n int)
	go_ = func(st *State, it VIt, n int) {
		if n == 0 || it.s == SE {
			if n > 0 {
				// past the end
				k(st, VIt{loc: l, s: SE})
				return
			}
			k(st, it)
			return
		}
		in.itNext(st, it, func(st *State, it VIt) { go_(st, it, n-1) })
	}
	in.itBegin(st, l, func(st *State, it VIt) { go_(st, it, n) })
}

// rowSize enumerates the size of a row as 0, 1 or 2 (two or more).
func (in *I) rowSize(st *State, l Loc, k func(*State, int)) {
	if d, ok := in.read(st, l).(VDense); ok {
		_ = d
		in.forks++
		k(st.clone(), 0)
		k(st.clone(), 1)
		k(st, 2)
		return
	}
	in.cursorNoUB(st, l, func(st *State, n int) { k(st, n) })
}
func (in *I) cursorNoUB(st *State, l Loc, k func(*State, int)) {
	in.ordNext(st, l, 0, func(st *State, it VIt) {
		if it.s == SE {
			k(st, 0)
			return
		}
		in.itNext(st, it, func(st *State, it VIt) {
			if it.s == SE {
				k(st, 1)
			} else {
				k(st, 2)
			}
		})
	})
}

func (in *I) sizeOf(st *State, l Loc) Val {
	switch r := in.read(st, l).(type) {
	case VRow:
		c := VCnt{src: l}
		if r.p != nil {
			if r.pm {
				c.g = 1
			} else {
				c.p = 1
			}
		}
		for _, m := range []uint8{r.L, r.R} {
			if m&1 == 0 {
				c.g = 2
			} else if m != 1 && c.g == 0 {
				c.g = 1
			}
		}
		if c.p == 0 && c.g == 0 {
			return VInt{0}
		}
		return c
	case VDense:
		if r.sp >= 0 {
			return VN{r.sp, 0}
		}
		if r.sp == -1 {
			return VInt{0}
		}
	}
	return VUnk{}
}

// insertAt puts the tuple (idx, v) before the iterator.
func (in *I) insertAt(st *State, l Loc, it VIt, idx, v Val, k func(*State, VIt)) {
	r, ok := in.getRow(st, l)
	if !ok {
		in.imprecise(st, "insertion into an unmodelled vector")
		k(st, VIt{loc: l, s: SE})
		return
	}
	if p, okp := idx.(VProxy); okp {
		idx = in.read(st, p.loc)
	}
	x, ok := idx.(VIdx)
	if !ok {
		switch y := idx.(type) {
		case VInt:
			if r.sp >= 0 {
				in.promote(st, y, r.sp, func(st *State, x Val) { in.insertAt(st, l, it, x, v, k) })
				return
			}
		case VUninit:
			in.ub(st, "uninitialised index stored")
			return
		}
		in.imprecise(st, "insertion at an unknown index")
		k(st, VIt{loc: l, s: SE})
		return
	}
	if !single(x.m) {
		in.split(st, x, nil, func(st *State, x Val) { in.insertAt(st, l, it, x, v, k) })
		return
	}
	if x.m == SE {
		in.ub(st, "an index equal to the dimension is stored")
		return
	}
	if r.sp >= 0 && r.sp != x.sp {
		if m, ok := in.related(x, r.sp); ok {
			x = VIdx{sp: r.sp, m: m}
		} else {
			in.event("cross", "an index of "+in.spName(x.sp)+" is stored where indices of "+in.spName(r.sp)+" are kept")
			in.imprecise(st, "index of another dimension stored")
			x = VIdx{sp: r.sp, m: SL | SP | SR}
			in.split(st, x, nil, func(st *State, x Val) { in.insertAt(st, l, it, x, v, k) })
			return
		}
	}
	if it.inv {
		in.ub(st, "insertion at an invalidated iterator")
		return
	}
	// resolve "end" when it is not known whether elements precede it
	if it.s == SE && l.strong() && x.m != SR && r.R&1 != 0 && r.R != 1 {
		s2 := st.clone()
		r2 := r
		r2.R &= 6
		in.setRowV(s2, l, r2)
		in.insertAt(s2, l, it, idx, v, k)
		r.R = 1
		in.setRowV(st, l, r)
		in.insertAt(st, l, it, idx, v, k)
		return
	}
	if it.s == SE && l.strong() && r.pm {
		s2 := st.clone()
		r2 := r
		r2.pm = false
		in.setRowV(s2, l, r2)
		in.insertAt(s2, l, it, idx, v, k)
		r.p, r.pm = nil, false
		in.setRowV(st, l, r)
		in.insertAt(st, l, it, idx, v, k)
		return
	}
	r.sp = x.sp
	bad := ""
	res := VIt{loc: l, s: x.m}
	bump := func(m uint8) uint8 {
		n := uint8(0)
		if m&1 != 0 {
			n |= 2
		}
		if m&6 != 0 {
			n |= 4
		}
		return n
	}
	has := r.p != nil && !r.pm
	switch x.m {
	case SP:
		if has {
			bad = "duplicate index"
			if l.strong() && (ofGapRow(v) || ofGapRow(r.p)) {
				// a row other than the distinguished one: what goes wrong there goes
				// wrong, and is reported, when that row is the distinguished one
				return
			}
		} else {
			switch it.s {
			case SL:
				bad = "out of order"
			case SR:
				if !it.first && !it.ro {
					bad = "out of order"
				}
			case SE:
				if r.R&1 == 0 {
					bad = "out of order"
				}
			}
			r.p = tuple(VIdx{sp: x.sp, m: SP}, v)
			r.pm = false
		}
		res.first = true
		if l.strong() {
			in.touch(st, l)
		}
		in.accessRow(st, l, SP, true)
	case SL:
		in.accessRow(st, l, SL, true)
		if (it.s == SR || it.s == SE) && has || it.s == SE && r.R&1 == 0 {
			bad = "out of order"
		}
		res.first = it.s == SL && it.first || r.L == 1
		r.L = bump(r.L)
		r.gv = joinG(r.gv, v)
	case SR:
		in.accessRow(st, l, SL, true)
		if it.s == SL || it.s == SP && has {
			bad = "out of order"
		}
		res.first = it.s == SR && it.first || r.R == 1
		r.R = bump(r.R)
		r.gv = joinG(r.gv, v)
	}
	if bad != "" && l.strong() {
		if r.bad == "" {
			r.bad = bad + " at " + in.pos()
		}
	}
	if l.strong() {
		in.invalidate(st, l)
	}
	in.setRowV(st, l, r)
	k(st, res)
}

// ofGapRow: does the stored element come from another row of the output?
func ofGapRow(v Val) bool {
	switch x := v.(type) {
	case VTerm:
		return strings.HasPrefix(x.t.key, "C@g") || x.t == gtopTerm
	case VRec:
		for _, f := range x.f {
			if ofGapRow(f) {
				return true
			}
		}
	}
	return false
}

func joinG(a, b Val) Val {
	if a == nil {
		return b
	}
	return join(a, b)
}

func (in *I) spName(sp int) string {
	if n, ok := in.cfg.spName[sp]; ok {
		return n
	}
	return "#" + strconv.Itoa(sp)
}

// invalidate marks the iterators stored in variables that point into l.
func (in *I) invalidate(st *State, l Loc) {
	var fix func(v Val) (Val, bool)
	fix = func(v Val) (Val, bool) {
		switch x := v.(type) {
		case VIt:
			if x.loc == l && !x.inv {
				x.inv = true
				return x, true
			}
		case VRec:
			ch := false
			var n VRec
			for i, f := range x.f {
				if g, c := fix(f); c {
					if !ch {
						n = VRec{x.rec, append([]Val{}, x.f...)}
						ch = true
					}
					n.f[i] = g
				}
			}
			if ch {
				return n, true
			}
		}
		return v, false
	}
	for i, c := range st.cells {
		if n, ch := fix(c); ch {
			st.cells[i] = n
		}
	}
}

func (in *I) eraseAt(st *State, l Loc, it VIt, k func(*State, VIt)) {
	if it.inv {
		in.ub(st, "erase through an invalidated iterator")
		return
	}
	if it.s == SE {
		in.ub(st, "erase of the end iterator")
		return
	}
	r, ok := in.getRow(st, l)
	if !ok {
		in.imprecise(st, "erase from an unmodelled vector")
		k(st, it)
		return
	}
	in.invalidate(st, l)
	drop := func(m uint8) uint8 {
		n := uint8(0)
		if m&2 != 0 {
			n |= 1
		}
		if m&4 != 0 {
			n |= 6
		}
		return n
	}
	if st.ctr && it.s != SE {
		in.accessRow(st, l, it.s, true)
	}
	switch it.s {
	case SP:
		r.p, r.pm = nil, false
		in.touch(st, l)
		in.setRowV(st, l, r)
		in.ordNext(st, l, 2, k)
	case SL:
		r.L = drop(r.L)
		in.setRowV(st, l, r)
		if r.L&6 != 0 {
			s2 := st.clone()
			k(s2, VIt{loc: l, s: SL, first: it.first})
		}
		in.ordNext(st, l, 1, k)
	case SR:
		r.R = drop(r.R)
		in.setRowV(st, l, r)
		if r.R&6 != 0 {
			s2 := st.clone()
			k(s2, VIt{loc: l, s: SR, first: it.first})
		}
		k(st, VIt{loc: l, s: SE})
	}
}

func (in *I) deref(st *State, it VIt, k func(*State, Val)) {
	if it.uns {
		in.checkBad(st, it.loc)
	}
	if it.inv {
		in.ub(st, "dereference of an invalidated iterator")
		return
	}
	if it.s == SE {
		in.ub(st, "dereference of an end iterator")
		return
	}
	if it.pk {
		in.packDeref(st, it.loc, k)
		return
	}
	if d, ok := in.read(st, it.loc).(VDense); ok {
		if d.pk != 0 {
			in.packAt(st, it.loc, d, it.s, func(st *State, l Loc) { k(st, VRef{l}) })
			return
		}
		k(st, VRef{it.loc.dense(it.s)})
		return
	}
	l := it.loc.row(it.s)
	if it.s == SL && it.sy != 0 {
		st.setDref(l, it.sy)
	}
	k(st, VRef{l})
}

// subscript of a vector.
func (in *I) subscript(st *State, l Loc, i Val, w func(*State, Val), k func(*State, Loc)) {
	switch d := in.read(st, l).(type) {
	case VDense:
		if d.sp == -1 {
			in.ub(st, "subscript of an empty vector")
			return
		}
		switch x := i.(type) {
		case VIdx:
			if !single(x.m) {
				in.split(st, x, w, func(st *State, x Val) { in.subscript(st, l, x, w, k) })
				return
			}
			if d.sp == -2 {
				k(st, l.dense(SL))
				return
			}
			if x.sp == d.sp {
				if x.m == SE {
					in.ub(st, "subscript equal to the size ("+in.spName(d.sp)+")")
					return
				}
				if d.pk != 0 {
					in.packAt(st, l, d, x.m, k)
					return
				}
				k(st, l.dense(x.m))
				return
			}
			if m, ok := in.related(x, d.sp); ok {
				k(st, l.dense(m))
				return
			}
			for _, c := range in.cfg.cuts {
				if c.sp == x.sp && c.sp2 == d.sp || c.sp == d.sp && c.sp2 == x.sp {
					for _, m := range []uint8{SL, SR} {
						k(st.clone(), l.dense(m))
					}
					return
				}
			}
			in.event("cross", "an index of "+in.spName(x.sp)+" subscripts a vector of size "+in.spName(d.sp))
			in.imprecise(st, "subscript by an index of another dimension")
			in.split(st, VIdx{sp: d.sp, m: SL | SP | SR}, nil, func(st *State, x Val) { k(st, l.dense(x.(VIdx).m)) })
			return
		case VInt:
			if d.sp == -2 {
				k(st, l.dense(SL))
				return
			}
			in.promote(st, x, d.sp, func(st *State, x Val) {
				if w != nil {
					w(st, x)
				}
				in.subscript(st, l, x, w, k)
			})
			return
		case VN:
			if x.sp == d.sp && x.d >= 0 {
				in.ub(st, "subscript beyond the size ("+in.spName(d.sp)+")")
				return
			}
			if x.sp == d.sp && x.d == -1 {
				in.split(st, VIdx{sp: d.sp, m: SP | SR}, nil, func(st *State, x Val) { k(st, l.dense(x.(VIdx).m)) })
				return
			}
		case VUninit:
			in.ub(st, "uninitialised subscript")
			return
		}
		in.imprecise(st, "subscript by an unknown value")
		if d.sp == -2 {
			k(st, l.dense(SL))
			return
		}
		in.split(st, VIdx{sp: d.sp, m: SL | SP | SR}, nil, func(st *State, x Val) { k(st, l.dense(x.(VIdx).m)) })
	case VRow:
		switch x := i.(type) {
		case VIt:
			if x.loc == l {
				in.deref(st, x, func(st *State, v Val) { k(st, v.(VRef).loc) })
				return
			}
		case VInt:
			in.checkBad(st, l)
			in.cursor(st, l, int(x.k), func(st *State, it VIt) {
				if it.s == SE {
					in.ub(st, "subscript "+strconv.Itoa(int(x.k))+" beyond the end of a row")
					return
				}
				k(st, l.row(it.s))
			})
			return
		}
		in.imprecise(st, "positional access to a row")
		for _, s := range []uint8{SL, SR} {
			k(st.clone(), l.row(s))
		}
		if d.p != nil {
			k(st, l.row(SP))
		}
	default:
		in.imprecise(st, "subscript of an unmodelled vector")
		k(st, st.alloc(VUnk{}))
	}
}

// convTo: a value stored into an object of type t, coming from type from.
func (in *I) convTo(st *State, v Val, t int) Val {
	ty := in.p.Tys[in.p.nonref(t)]
	if x, ok := v.(VTerm); ok && (ty.K == "flt" || ty.K == "int") {
		return convTerm(x, strings.TrimPrefix(ty.N, "const "))
	}
	return v
}

// boolConv: conversion to bool of a stored scalar (forks on its truth).
func (in *I) boolConv(st *State, v Val, t int, k func(*State, Val)) {
	ty := in.p.Tys[in.p.nonref(t)]
	if _, ok := v.(VTerm); ok && ty.K == "bool" {
		in.truth(st, v, func(st *State, b bool) {
			if b {
				k(st, VInt{1})
			} else {
				k(st, VInt{0})
			}
		})
		return
	}
	k(st, in.convTo(st, v, t))
}

// tupleOf makes the tuple stored in a row from constructor arguments.
func (in *I) tupleOf(st *State, vecRec *Rec, as []Val, k func(st *State, idx, v Val)) {
	vt := in.rowElem(vecRec)
	var idx, v Val
	switch len(as) {
	case 1:
		t := in.val(st, as[0])
		r, ok := t.(VRec)
		if !ok || len(r.f) != 2 {
			in.imprecise(st, "unmodelled tuple")
			k(st, VUnk{}, VUnk{})
			return
		}
		idx, v = in.val(st, r.f[0]), in.val(st, r.f[1])
	case 2:
		idx, v = in.val(st, as[0]), in.val(st, as[1])
	default:
		in.imprecise(st, "unmodelled tuple")
		k(st, VUnk{}, VUnk{})
		return
	}
	if p, ok := v.(VProxy); ok {
		v = in.read(st, p.loc)
	}
	in.boolConv(st, v, vt, func(st *State, v Val) { k(st, idx, v) })
}

func (in *I) sized(st *State, r *Rec, n Val, fill Val, k func(*State, Val)) {
	if in.rowElem(r) >= 0 {
		if i, ok := n.(VInt); ok && i.k == 0 {
			k(st, in.emptyVec(r))
			return
		}
		in.imprecise(st, "row created with a size")
		k(st, in.emptyVec(r))
		return
	}
	et := r.Ta[0]
	if fill == nil {
		fill = in.zeroVal(et)
	}
	switch x := n.(type) {
	case VN:
		if x.d == 0 {
			k(st, VDense{sp: x.sp, p: fill, g: fill, et: et})
			return
		}
	case VNP:
		if sp, ok := in.cfg.prod[[2]int{x.a, x.b}]; ok {
			k(st, VDense{sp: sp, p: fill, g: fill, et: et})
			return
		}
	case VInt:
		if x.k == 0 {
			k(st, VDense{sp: -1, et: et})
			return
		}
	case VIdx:
		if x.m == SE {
			k(st, VDense{sp: x.sp, p: fill, g: fill, et: et})
			return
		}
	case VCnt:
		if in.pack(st, x, et, k) {
			return
		}
	}
	in.imprecise(st, "vector of unmodelled size")
	k(st, VDense{sp: -2, p: fill, g: fill, et: et})
}

func (in *I) stdCtor(st *State, e *Expr, r *Rec, f *Fn, k func(*State, Val)) {
	in.evs(st, e.A, func(st *State, as []Val) {
		n := r.N
		switch {
		case in.isVector(r):
			if len(as) == 0 {
				k(st, in.emptyVec(r))
				return
			}
			if f != nil && (f.IsCtor == 2 || f.IsCtor == 3) {
				v := in.val(st, as[0])
				if f.IsCtor == 3 {
					if l, ok := in.ref(as[0]); ok {
						in.write(st, l, in.emptyVec(r))
					}
				}
				k(st, v)
				return
			}
			if f != nil && len(f.Ps) > 0 {
				t0 := in.p.Tys[in.p.nonref(f.Ps[0].T)]
				if t0.K == "int" {
					nn := in.val(st, as[0])
					var fill Val
					if len(as) > 1 && !isAlloc(in.p.Tys[in.p.nonref(f.Ps[1].T)].N) {
						fill = in.val(st, as[1])
					}
					in.sized(st, r, nn, fill, k)
					return
				}
				if isAlloc(t0.N) {
					k(st, in.emptyVec(r))
					return
				}
				if len(as) >= 2 {
					a, ok1 := in.val(st, as[0]).(VIt)
					b, ok2 := in.val(st, as[1]).(VIt)
					if ok1 && ok2 && a.loc == b.loc && b.s == SE {
						v := in.read(st, a.loc)
						if row, ok := v.(VRow); ok {
							if a.s == SE {
								k(st, in.emptyVec(r))
								return
							}
							if a.first && (a.s == SL || a.s == SP && row.L == 1 || a.s == SR && row.L == 1 && row.p == nil) {
								k(st, v)
								return
							}
						}
						if d, ok := v.(VDense); ok && a.s != SE {
							k(st, d)
							return
						}
					}
				}
			}
			in.imprecise(st, "unmodelled vector constructor")
			if in.rowElem(r) >= 0 {
				k(st, unkRow(-1, r.Ta[0]))
			} else {
				k(st, VDense{sp: -2, p: VUnk{}, g: VUnk{}})
			}
		case n == "std::tuple" || n == "std::pair":
			if len(as) == 0 {
				k(st, in.defaultRec(e.T))
				return
			}
			if len(as) == 1 && (f != nil && (f.IsCtor == 2 || f.IsCtor == 3) || len(r.Ta) != 1) {
				v, ok := in.val(st, as[0]).(VRec)
				if !ok || len(v.f) != len(r.Ta) {
					in.imprecise(st, "unmodelled tuple conversion")
					k(st, VUnk{})
					return
				}
				nv := VRec{-1, make([]Val, len(v.f))}
				for i := range v.f {
					if in.p.isRef(r.Ta[i]) {
						nv.f[i] = v.f[i]
						if _, ok := v.f[i].(VRef); !ok {
							l, _ := in.ref(as[0])
							nv.f[i] = VRef{l.field(i)}
						}
					} else {
						nv.f[i] = in.convTo(st, in.val(st, v.f[i]), r.Ta[i])
					}
				}
				k(st, nv)
				return
			}
			nv := VRec{-1, make([]Val, len(r.Ta))}
			for i := range r.Ta {
				if i >= len(as) {
					break
				}
				if in.p.isRef(r.Ta[i]) {
					nv.f[i] = as[i]
				} else {
					nv.f[i] = in.convTo(st, in.val(st, as[i]), r.Ta[i])
				}
			}
			k(st, nv)
		case isIterName(n):
			if len(as) == 0 {
				k(st, VUninit{})
				return
			}
			k(st, in.val(st, as[0]))
		case n == "std::initializer_list":
			k(st, VOpq{})
		default:
			if f != nil && (f.IsCtor == 2 || f.IsCtor == 3) && len(as) == 1 {
				k(st, in.val(st, as[0]))
				return
			}
			switch {
			case isOpaqueStd(n):
			default:
				in.unmod["ctor "+n]++
				in.imprecise(st, "unmodelled class "+n)
			}
			k(st, VOpq{n})
		}
	})
}

func isOpaqueStd(n string) bool {
	for _, p := range []string{"std::basic_string", "std::allocator", "std::basic_o", "std::basic_i", "std::plus", "std::less", "std::exception",
		"std::multiplies", "std::minus", "std::divides", "std::logical", "std::equal_to", "std::random", "std::integral_constant"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

func isAlloc(n string) bool {
	return strings.Contains(n, "std::allocator<") && !strings.Contains(n, "std::vector")
}

func isIterName(n string) bool {
	return n == "__gnu_cxx::__normal_iterator" || strings.HasPrefix(n, "std::_Bit_iterator") || n == "std::_Bit_const_iterator" || n == "std::back_insert_iterator"
}

func (in *I) opaqueCall(st *State, e *Expr, f *Fn, as []Val, k func(*State, Val)) {
	// a functor or function of the driver, about which nothing is assumed
	cls := ""
	if f.RecID != nil {
		cls = in.p.Recs[*f.RecID].N
		cls = strings.TrimPrefix(cls, "drv::")
	}
	name := f.SN
	if name == "operator()" {
		name = cls
	} else if cls != "" {
		name = cls + "." + name
	}
	ps := as
	if e.M != 0 && len(as) > 0 {
		ps = as[1:]
	}
	var ts []*Term
	rt := in.p.Tys[in.p.nonref(f.Rt)].N
	for i, a := range ps {
		v := in.val(st, a)
		if p, ok := v.(VProxy); ok {
			v = in.read(st, p.loc)
		}
		if _, ok := v.(VUninit); ok {
			in.ub(st, "an uninitialised value is passed to "+name)
			return
		}
		t := toTerm(v)
		if i < len(f.Ps) {
			pt := strings.TrimPrefix(in.p.Tys[in.p.nonref(f.Ps[i].T)].N, "const ")
			t = convTerm(t, pt)
			in.domainCheck(t, pt, name, i)
		}
		ts = append(ts, t.t)
	}
	in.opqCalls[name]++
	if len(ts) == 0 {
		t := leaf("#" + name)
		t.pure = true
		k(st, VTerm{t, "", rt})
		return
	}
	if in.monoid[name] && len(ts) == 2 {
		idn := "#" + strings.TrimSuffix(name, ".add") + ".zero"
		if ts[0].key == idn {
			k(st, VTerm{ts[1], "", rt})
			return
		}
		if ts[1].key == idn {
			k(st, VTerm{ts[0], "", rt})
			return
		}
		if name == "Dup" && ts[1].op == "{}" {
			in.event("fold", "the value met later is the left operand of "+name)
		}
		k(st, VTerm{bagAdd(ts[0], ts[1]), "", rt})
		return
	}
	k(st, VTerm{app(name, ts...), "", rt})
}

// domainCheck: a value must reach its consumer through at most one conversion.
func (in *I) domainCheck(t VTerm, want, who string, arg int) {
	if t.t.op == "top" || t.t.op == "deep" {
		return
	}
	if strings.Contains(t.ch, ">") {
		in.event("domain", "operand "+strconv.Itoa(arg)+" of "+who+" ("+want+"): "+t.t.key+" of type "+t.nt+" was converted "+t.ch)
	}
}

func (in *I) stdCall(st *State, e *Expr, f *Fn, k func(*State, Val)) {
	if strings.HasPrefix(f.N, "drv::") {
		in.evs(st, e.A, func(st *State, as []Val) { in.opaqueCall(st, e, f, as, k) })
		return
	}
	var rec *Rec
	if f.RecID != nil {
		rec = in.p.Recs[*f.RecID]
	}
	if rec != nil && in.isVector(rec) {
		in.vectorCall(st, e, f, rec, k)
		return
	}
	if e.Op != "" && len(e.A) >= 1 && (f.N == "__gnu_cxx::operator"+e.Op || f.N == "std::operator"+e.Op || rec != nil && (isIterName(rec.N) || rec.N == "std::_Bit_iterator_base")) {
		in.iterOp(st, e, f, rec, k)
		return
	}
	if rec != nil && (isIterName(rec.N) || rec.N == "std::_Bit_iterator_base") {
		in.evs(st, e.A, func(st *State, as []Val) { k(st, in.val(st, as[0])) })
		return
	}
	if rec != nil && rec.N == "std::_Bit_reference" {
		in.bitRef(st, e, f, k)
		return
	}
	if f.Dflt != 0 && strings.HasPrefix(f.SN, "operator=") && len(e.A) == 2 {
		in.evs(st, e.A, func(st *State, as []Val) {
			if l, ok := in.ref(as[0]); ok {
				in.write(st, l, in.val(st, as[1]))
			}
			k(st, as[0])
		})
		return
	}
	if rec != nil && rec.Own != 0 && (f.IsCtor == 2 || f.IsCtor == 3) {
		in.evs(st, e.A, func(st *State, as []Val) { k(st, in.val(st, as[0])) })
		return
	}
	in.evs(st, e.A, func(st *State, as []Val) { in.stdFree(st, e, f, rec, as, k) })
}

func retOpq(f *Fn, in *I) Val {
	switch in.p.Tys[in.p.nonref(f.Rt)].K {
	case "rec":
		return VOpq{}
	}
	return VUnk{}
}

func (in *I) stdFree(st *State, e *Expr, f *Fn, rec *Rec, as []Val, k func(*State, Val)) {
	n := f.N
	switch n {
	case "std::get":
		i := 0
		if len(f.Ta) > 0 {
			i, _ = strconv.Atoi(f.Ta[0])
		}
		l, ok := in.ref(as[0])
		if !ok {
			l = st.alloc(as[0])
		}
		v := in.read(st, l)
		if r, ok := v.(VRec); ok && i < len(r.f) {
			if rv, ok := r.f[i].(VRef); ok {
				k(st, rv)
				return
			}
		}
		k(st, VRef{l.field(i)})
		return
	case "std::make_tuple", "std::make_pair":
		v := VRec{-1, nil}
		rr := in.p.rec(f.Rt)
		for i, a := range as {
			x := in.val(st, a)
			if p, ok := x.(VProxy); ok {
				x = in.read(st, p.loc)
			}
			if rr != nil && i < len(rr.Ta) {
				x = in.convTo(st, x, rr.Ta[i])
			}
			v.f = append(v.f, x)
		}
		k(st, v)
		return
	case "std::tie", "std::forward_as_tuple":
		k(st, VRec{-1, append([]Val{}, as...)})
		return
	case "std::move", "std::forward", "std::addressof", "std::as_const", "std::launder", "std::__addressof":
		if len(as) == 1 {
			k(st, as[0])
			return
		}
	case "std::ref", "std::cref":
		k(st, as[0])
		return
	case "std::swap", "std::iter_swap":
		a, ok1 := in.ref(as[0])
		b, ok2 := in.ref(as[1])
		if ok1 && ok2 {
			va, vb := in.read(st, a), in.read(st, b)
			in.write(st, a, vb)
			in.write(st, b, va)
			k(st, VUnk{})
			return
		}
		pa, ok1 := as[0].(VProxy)
		pb, ok2 := as[1].(VProxy)
		if ok1 && ok2 {
			va, vb := in.read(st, pa.loc), in.read(st, pb.loc)
			in.write(st, pa.loc, vb)
			in.write(st, pb.loc, va)
			k(st, VUnk{})
			return
		}
	case "std::min", "std::max":
		if len(as) == 2 {
			a, b := in.val(st, as[0]), in.val(st, as[1])
			op := "<"
			ta, ok1 := a.(VTerm)
			tb, ok2 := b.(VTerm)
			if ok1 && ok2 {
				k(st, VRef{st.alloc(VTerm{app(n, ta.t, tb.t), "", ta.nt})})
				return
			}
			// std::min(a,b): b<a ? b : a
			x, y := b, a
			if n == "std::max" {
				x, y = a, b
			}
			in.cmp(st, op, x, y, nil, nil, func(st *State, t bool) {
				if t {
					k(st, as[1])
				} else {
					k(st, as[0])
				}
			})
			return
		}
	case "std::begin", "std::cbegin":
		if l, ok := in.ref(as[0]); ok {
			in.itBegin(st, l, func(st *State, it VIt) { k(st, it) })
			return
		}
	case "std::end", "std::cend":
		if l, ok := in.ref(as[0]); ok {
			k(st, VIt{loc: l, s: SE})
			return
		}
	case "std::size":
		if l, ok := in.ref(as[0]); ok {
			k(st, in.sizeOf(st, l))
			return
		}
	case "std::next", "std::prev":
		it, ok := in.val(st, as[0]).(VIt)
		d := Val(VInt{1})
		if len(as) > 1 {
			d = in.val(st, as[1])
		}
		if di, ok2 := d.(VInt); ok && ok2 && di.k == 1 {
			if n == "std::next" {
				in.itNext(st, it, func(st *State, it VIt) { k(st, it) })
			} else {
				in.itPrev(st, it, func(st *State, it VIt) { k(st, it) })
			}
			return
		}
	case "std::distance":
		a, ok1 := in.val(st, as[0]).(VIt)
		b, ok2 := in.val(st, as[1]).(VIt)
		if ok1 && ok2 && a.loc == b.loc && b.s == SE && a.first && a.s == SL {
			k(st, in.sizeOf(st, a.loc))
			return
		}
		if ok1 && ok2 && a.loc == b.loc && a.s == b.s && (a.s == SE || a.s == SP) {
			k(st, VInt{0})
			return
		}
		k(st, VUnk{})
		return
	case "std::accumulate", "std::reduce":
		in.stdReduce(st, e, f, as, k)
		return
	case "std::count":
		if l, ok := in.fullRange(st, as); ok {
			if d, okd := in.read(st, l).(VDense); okd && d.sp >= 0 {
				if b, okb := in.val(st, as[2]).(VInt); okb {
					if pv, okp := d.p.(VInt); okp {
						c := 0
						if (pv.k != 0) == (b.k != 0) {
							c = 1
						}
						k(st, mkCnt(c, 0, 1))
						return
					}
				}
			}
		}
	case "std::fill":
		if l, ok := in.fullRange(st, as); ok {
			if d, okd := in.read(st, l).(VDense); okd {
				v := in.val(st, as[2])
				d.p, d.g = v, v
				in.touch(st, l.dense(SP))
				st.cells[l.c] = setPath(st.cells[l.c], l.p, d, l.strong())
				k(st, VUnk{})
				return
			}
		}
	case "std::copy", "std::move_backward", "std::copy_if", "std::transform", "std::for_each", "std::find_if", "std::find", "std::find_if_not",
		"std::any_of", "std::all_of", "std::none_of", "std::lower_bound", "std::partition_point", "std::binary_search", "std::upper_bound", "std::count_if":
		if in.stdAlgo(st, e, f, as, k) {
			return
		}
	case "std::sort", "std::stable_sort":
		if in.stdSort(st, as, k) {
			return
		}
	case "std::back_inserter":
		if l, ok := in.ref(as[0]); ok {
			k(st, VOI{l.String() + "|"})
			return
		}
	case "std::isnan", "std::abs", "std::fabs", "std::sqrt", "std::pow", "fabs", "sqrt":
		var ts []*Term
		for _, a := range as {
			ts = append(ts, toTerm(in.val(st, a)).t)
		}
		k(st, VTerm{app(f.SN, ts...), "", in.p.Tys[f.Rt].N})
		return
	case "std::numeric_limits::max", "std::numeric_limits::min":
		k(st, VUnk{})
		return
	}
	if strings.HasPrefix(n, "std::numeric_limits<") {
		t := leaf("#" + f.SN + "<" + in.p.Tys[f.Rt].N + ">")
		t.pure = true
		k(st, VTerm{t, "", in.p.Tys[f.Rt].N})
		return
	}
	if rec != nil && rec.N == "std::tuple" && f.SN == "operator=" {
		in.tupleAssign(st, e, rec, as, k)
		return
	}
	if rec != nil && rec.N == "std::pair" && f.SN == "operator=" {
		in.tupleAssign(st, e, rec, as, k)
		return
	}
	if f.N == "std::tuple::swap" {
		in.imprecise(st, "tuple swap")
	}
	// functors of <functional>
	if rec != nil && f.SN == "operator()" && len(as) == 3 {
		op := map[string]string{"std::plus": "+", "std::minus": "-", "std::multiplies": "*", "std::divides": "/"}[rec.N]
		if op != "" {
			in.arith(st, op, in.val(st, as[1]), in.val(st, as[2]), k)
			return
		}
		cop := map[string]string{"std::less": "<", "std::greater": ">", "std::equal_to": "==", "std::less_equal": "<=", "std::not_equal_to": "!=", "std::greater_equal": ">="}[rec.N]
		if cop != "" {
			in.cmp(st, cop, in.val(st, as[1]), in.val(st, as[2]), nil, nil, func(st *State, b bool) {
				k(st, VInt{b2i(b)})
			})
			return
		}
	}
	// streams, strings, type names: no effect on the objects of interest
	if isNoEffect(f, rec) {
		if in.p.isRef(f.Rt) && len(as) > 0 {
			k(st, as[0])
			return
		}
		k(st, retOpq(f, in))
		return
	}
	in.unmod[n]++
	in.imprecise(st, "unmodelled call of "+n)
	// the callee may change what it gets by non-const reference
	for i, a := range as {
		pi := i
		if e.M != 0 {
			pi--
		}
		if r, ok := a.(VRef); ok {
			if pi >= 0 && pi < len(f.Ps) && in.p.isRef(f.Ps[pi].T) && in.p.Tys[f.Ps[pi].T].C == 0 {
				in.write(st, r.loc, VUnk{})
			}
			if pi < 0 && f.Const == 0 {
				in.write(st, r.loc, VUnk{})
			}
		}
	}
	if in.p.isRef(f.Rt) {
		k(st, VRef{st.alloc(VUnk{})})
	} else {
		k(st, VUnk{})
	}
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func isNoEffect(f *Fn, rec *Rec) bool {
	n := f.N
	for _, s := range []string{"std::basic_", "std::operator<<", "std::operator+", "std::endl", "std::flush", "std::type_info", "std::to_string", "std::setw", "std::setprecision", "std::exception", "std::hex"} {
		if strings.HasPrefix(n, s) {
			return true
		}
	}
	if f.SN == "operator<<" || skipBody(f) {
		return true
	}
	return false
}

func (in *I) fullRange(st *State, as []Val) (Loc, bool) {
	if len(as) < 2 {
		return noLoc, false
	}
	a, ok1 := in.val(st, as[0]).(VIt)
	b, ok2 := in.val(st, as[1]).(VIt)
	if !ok1 || !ok2 || a.loc != b.loc || b.s != SE {
		return noLoc, false
	}
	return a.loc, true
}

// stdReduce: only sums over a bitmap are modelled (they count stored elements).
func (in *I) stdReduce(st *State, e *Expr, f *Fn, as []Val, k func(*State, Val)) {
	if len(as) < 3 {
		in.imprecise(st, "unmodelled reduction")
		k(st, VUnk{})
		return
	}
	a, ok1 := in.val(st, as[0]).(VIt)
	b, ok2 := in.val(st, as[1]).(VIt)
	init := in.val(st, as[2])
	if ok1 && ok2 && a.loc == b.loc {
		if d, ok := in.read(st, a.loc).(VDense); ok && d.sp >= 0 {
			if pv, ok := d.p.(VInt); ok {
				p := 0
				if a.s <= SP && (b.s > SP) {
					p = int(pv.k)
				}
				in.arith(st, "+", init, VCnt{p: p, g: 1, src: noLoc}, func(st *State, v Val) {
					k(st, v)
				})
				return
			}
		}
	}
	in.imprecise(st, "unmodelled reduction")
	k(st, VUnk{})
}

func (in *I) tupleAssign(st *State, e *Expr, rec *Rec, as []Val, k func(*State, Val)) {
	src, ok := in.val(st, as[1]).(VRec)
	l, okl := in.ref(as[0])
	if !okl {
		l = st.alloc(as[0])
	}
	dst, okd := in.read(st, l).(VRec)
	if !okd && len(rec.Ta) == 2 {
		dst = tuple(VUninit{}, VUninit{})
		okd = true
	}
	if !ok || !okd || len(src.f) != len(dst.f) {
		in.imprecise(st, "unmodelled tuple assignment")
		k(st, as[0])
		return
	}
	var go_ func(st *State, i int)
	go_ = func(st *State, i int) {
		if i == len(src.f) {
			k(st, as[0])
			return
		}
		v := in.val(st, src.f[i])
		t := rec.Ta[i]
		in.boolConv(st, v, t, func(st *State, v Val) {
			if in.p.isRef(t) {
				switch r := dst.f[i].(type) {
				case VRef:
					in.write(st, r.loc, v)
				}
			} else {
				in.write(st, l.field(i), v)
			}
			go_(st, i+1)
		})
	}
	go_(st, 0)
}

func (in *I) bitRef(st *State, e *Expr, f *Fn, k func(*State, Val)) {
	in.evs(st, e.A, func(st *State, as []Val) {
		o := in.val(st, as[0])
		p, ok := o.(VProxy)
		switch {
		case f.IsConv != 0 || f.SN == "operator bool":
			if ok {
				in.access(st, p.loc, false)
				k(st, in.read(st, p.loc))
			} else {
				k(st, o)
			}
		case f.SN == "operator=":
			v := in.val(st, as[1])
			if q, ok := v.(VProxy); ok {
				v = in.read(st, q.loc)
			}
			if ok {
				in.boolConv(st, v, in.boolTy(), func(st *State, v Val) {
					in.write(st, p.loc, v)
					k(st, as[0])
				})
				return
			}
			in.imprecise(st, "bit reference")
			k(st, as[0])
		case f.SN == "operator==":
			in.cmp(st, "==", o, in.val(st, as[1]), nil, nil, func(st *State, b bool) { k(st, VInt{b2i(b)}) })
		default:
			in.imprecise(st, "unmodelled bit reference operation "+f.SN)
			k(st, VUnk{})
		}
	})
}
func (in *I) boolTy() int {
	for i, t := range in.p.Tys {
		if t.K == "bool" {
			return i
		}
	}
	return 0
}

func (in *I) iterOp(st *State, e *Expr, f *Fn, rec *Rec, k func(*State, Val)) {
	b2v := func(st *State, b bool) { k(st, VInt{b2i(b)}) }
	in.evs(st, e.A, func(st *State, as []Val) {
		a := in.val(st, as[0])
		switch e.Op {
		case "==", "!=", "<", ">", "<=", ">=":
			b := in.val(st, as[1])
			ia, ok1 := a.(VIt)
			ib, ok2 := b.(VIt)
			if ok1 && ok2 {
				if ia.inv || ib.inv {
					in.ub(st, "comparison of an invalidated iterator")
					return
				}
				in.cmp(st, e.Op, ia, ib, nil, nil, b2v)
				return
			}
			if ra, ok := a.(VRow); ok {
				in.rowsEqual(st, as, ra, b, e.Op, b2v)
				return
			}
			if da, ok := a.(VDense); ok {
				in.densesEqual(st, as, da, b, e.Op, b2v)
				return
			}
			if ra, ok := a.(VRec); ok {
				if rb, ok := b.(VRec); ok && len(ra.f) == len(rb.f) && (e.Op == "==" || e.Op == "!=") {
					in.recsEqual(st, ra, rb, 0, func(st *State, eq bool) { b2v(st, eq == (e.Op == "==")) })
					return
				}
			}
			if isNoEffect(f, rec) {
				k(st, VUnk{})
				return
			}
			in.imprecise(st, "unmodelled comparison "+f.N)
			in.fork(st, b2v)
			return
		case "*", "->":
			if len(as) > 1 {
				break
			}
			if it, ok := a.(VIt); ok {
				in.deref(st, it, func(st *State, v Val) {
					if in.p.Tys[in.p.nonref(f.Rt)].K == "rec" && in.p.rec(f.Rt) != nil && in.p.rec(f.Rt).N == "std::_Bit_reference" {
						k(st, VProxy{v.(VRef).loc})
						return
					}
					if !in.p.isRef(f.Rt) && in.p.Tys[f.Rt].K == "bool" {
						v = in.val(st, v)
					}
					k(st, v)
				})
				return
			}
			if o, ok := a.(VOI); ok {
				k(st, VRef{st.alloc(o)})
				return
			}
		case "++", "--":
			it, ok := a.(VIt)
			l, okl := in.ref(as[0])
			if ok {
				fin := func(st *State, n VIt) {
					if okl {
						in.write(st, l, n)
					}
					if len(as) > 1 { // postfix
						k(st, it)
					} else if okl {
						k(st, VRef{l})
					} else {
						k(st, n)
					}
				}
				if e.Op == "++" {
					in.itNext(st, it, fin)
				} else {
					in.itPrev(st, it, fin)
				}
				return
			}
			if _, ok := a.(VOI); ok {
				k(st, as[0])
				return
			}
		case "=":
			if l, ok := in.ref(as[0]); ok {
				in.write(st, l, in.val(st, as[1]))
				k(st, as[0])
				return
			}
		case "+", "-", "+=", "-=":
			if len(as) < 2 {
				break
			}
			b := in.val(st, as[1])
			fin := func(st *State, v Val) {
				if strings.HasSuffix(e.Op, "=") {
					if l, ok := in.ref(as[0]); ok {
						in.write(st, l, v)
						k(st, as[0])
						return
					}
				}
				k(st, v)
			}
			it, ok := a.(VIt)
			if ok {
				sign := e.Op[:1]
				switch y := b.(type) {
				case VInt:
					if y.k == 0 {
						fin(st, it)
						return
					}
					if sign == "+" {
						if d, okd := in.read(st, it.loc).(VDense); okd && d.sp == -1 {
							break
						}
						in.arith(st, "+", it, y, fin)
						return
					}
					if y.k == 1 {
						in.itPrev(st, it, func(st *State, n VIt) { fin(st, n) })
						return
					}
				case VIdx:
					if d, okd := in.read(st, it.loc).(VDense); okd && sign == "+" && (it.s == SL || it.s == SP) {
						in.split(st, y, nil, func(st *State, yv Val) {
							y := yv.(VIdx)
							if d.sp == y.sp {
								fin(st, VIt{loc: it.loc, s: y.m})
								return
							}
							in.imprecise(st, "iterator arithmetic")
							fin(st, VIt{loc: it.loc, s: SL})
						})
						return
					}
				case VN:
					if d, okd := in.read(st, it.loc).(VDense); okd && sign == "+" && (it.s == SL || it.s == SP) {
						if d.sp == y.sp && y.d == 0 {
							fin(st, VIt{loc: it.loc, s: SE})
							return
						}
						for _, c := range in.cfg.cuts {
							if c.sp == d.sp && c.sp2 == y.sp && y.d == 0 {
								if c.starIn {
									fin(st, VIt{loc: it.loc, s: SR})
								} else {
									in.forks++
									fin(st.clone(), VIt{loc: it.loc, s: SL})
									fin(st, VIt{loc: it.loc, s: SP})
								}
								return
							}
						}
					}
				case VCnt:
					if y.src == it.loc && sign == "+" {
						fin(st, VIt{loc: it.loc, s: SE})
						return
					}
				case VIt:
					if sign == "-" && it.loc == y.loc && it.s == SE && y.first && y.s == SL {
						fin(st, in.sizeOf(st, it.loc))
						return
					}
				}
			}
			if isNoEffect(f, rec) {
				k(st, VOpq{})
				return
			}
			in.imprecise(st, "iterator arithmetic")
			fin(st, VUnk{})
			return
		case "[]":
			if it, ok := a.(VIt); ok {
				// values[i] with values = v.begin()
				if d, okd := in.read(st, it.loc).(VDense); okd {
					_ = d
					w := (func(*State, Val))(nil)
					in.subscript(st, it.loc, in.val(st, as[1]), w, func(st *State, l Loc) {
						if rr := in.p.rec(f.Rt); rr != nil && rr.N == "std::_Bit_reference" {
							k(st, VProxy{l})
							return
						}
						k(st, VRef{l})
					})
					return
				}
			}
		case "<<", ">>":
			k(st, as[0])
			return
		}
		if isNoEffect(f, rec) {
			k(st, VOpq{})
			return
		}
		in.unmod[f.N]++
		in.imprecise(st, "unmodelled operator "+f.N)
		if e.Lv > 0 {
			k(st, VRef{st.alloc(VUnk{})})
		} else {
			k(st, VUnk{})
		}
	})
}

// equality of whole rows, vectors and tuples: decided at the star, open elsewhere.
func (in *I) rowsEqual(st *State, as []Val, ra VRow, b Val, op string, k func(*State, bool)) {
	rb, ok := b.(VRow)
	fin := func(st *State, eq bool) { k(st, eq == (op == "==")) }
	if !ok || (op != "==" && op != "!=") {
		in.imprecise(st, "unmodelled row comparison")
		in.fork(st, k)
		return
	}
	la, _ := in.ref(as[0])
	lb, _ := in.ref(as[1])
	if la == lb && la.strong() && la.c >= 0 {
		fin(st, true)
		return
	}
	pa, pb := ra.p != nil && !ra.pm, rb.p != nil && !rb.pm
	if !ra.pm && !rb.pm && pa != pb {
		fin(st, false)
		return
	}
	rest := func(st *State) {
		if ra.L == 1 && rb.L == 1 && ra.R == 1 && rb.R == 1 {
			fin(st, true)
			return
		}
		if ra.L == 1 && rb.L&1 == 0 || rb.L == 1 && ra.L&1 == 0 || ra.R == 1 && rb.R&1 == 0 || rb.R == 1 && ra.R&1 == 0 {
			fin(st, false)
			return
		}
		in.fork(st, fin)
	}
	if pa && pb {
		in.recsEqual(st, ra.p.(VRec), rb.p.(VRec), 1, func(st *State, eq bool) {
			if !eq {
				fin(st, false)
				return
			}
			rest(st)
		})
		return
	}
	rest(st)
}

func (in *I) densesEqual(st *State, as []Val, da VDense, b Val, op string, k func(*State, bool)) {
	db, ok := b.(VDense)
	fin := func(st *State, eq bool) { k(st, eq == (op == "==")) }
	if !ok || (op != "==" && op != "!=") {
		in.imprecise(st, "unmodelled vector comparison")
		in.fork(st, k)
		return
	}
	if da.sp != db.sp {
		if in.isDistinct(da.sp, db.sp) {
			fin(st, false)
			return
		}
		in.fork(st, fin)
		return
	}
	if da.sp < 0 {
		in.fork(st, fin)
		return
	}
	starEq := func(st *State, eq bool) {
		if !eq {
			fin(st, false)
			return
		}
		in.fork(st, fin) // the other elements
	}
	switch x := da.p.(type) {
	case VRow:
		in.rowsEqual(st, []Val{VUnk{}, VUnk{}}, x, db.p, "==", starEq)
	case VDense:
		in.densesEqual(st, as, x, db.p, "==", starEq)
	default:
		in.cmp(st, "==", da.p, db.p, nil, nil, starEq)
	}
}

func (in *I) recsEqual(st *State, a, b VRec, i int, k func(*State, bool)) {
	if i >= len(a.f) {
		k(st, true)
		return
	}
	x, y := in.val(st, a.f[i]), in.val(st, b.f[i])
	in.cmp(st, "==", x, y, nil, nil, func(st *State, eq bool) {
		if !eq {
			k(st, false)
			return
		}
		in.recsEqual(st, a, b, i+1, k)
	})
}

func (in *I) vectorCall(st *State, e *Expr, f *Fn, rec *Rec, k func(*State, Val)) {
	if len(e.A) == 0 {
		in.imprecise(st, "static vector member")
		k(st, VUnk{})
		return
	}
	obj := func(st *State, v Val) Loc {
		if r, ok := v.(VRef); ok {
			return r.loc
		}
		return st.alloc(v)
	}
	if f.SN == "operator[]" || f.SN == "at" {
		in.eval(st, e.A[0], func(st *State, o Val) {
			l := obj(st, o)
			in.evRef(st, e.A[1], func(st *State, i Val, w func(*State, Val)) {
				in.subscript(st, l, i, w, func(st *State, el Loc) {
					if rr := in.p.rec(f.Rt); rr != nil && rr.N == "std::_Bit_reference" {
						k(st, VProxy{el})
						return
					}
					if e.Lv == 0 {
						in.access(st, el, false)
						v := in.read(st, el)
						if t, ok := v.(VTerm); ok && !hasStar(t.t) && !t.t.pure && !el.strong() && len(el.p) >= 2 && el.p[len(el.p)-2] == 'd' {
							// the same bit is read again until the analysis moves on to another index
							if b, ok := st.gbit(el); ok {
								k(st, VInt{b2i(b)})
								return
							}
							in.fork(st, func(st *State, b bool) {
								m := "-"
								if b {
									m = "+"
								}
								st.gbits = addStr(st.gbits, m+el.String())
								k(st, VInt{b2i(b)})
							})
							return
						}
						k(st, v)
						return
					}
					k(st, VRef{el})
				})
			})
		})
		return
	}
	in.evs(st, e.A, func(st *State, as []Val) {
		l := obj(st, as[0])
		v := in.read(st, l)
		row, isRow := v.(VRow)
		dn, isDense := v.(VDense)
		if !isRow && !isDense {
			in.imprecise(st, "operation on an unmodelled vector")
			if in.rowElem(rec) >= 0 {
				row, isRow = unkRow(-1, rec.Ta[0]), true
			} else {
				dn, isDense = VDense{sp: -2, p: VUnk{}, g: VUnk{}}, true
			}
		}
		setWhole := func(st *State, nv Val) {
			in.invalidate(st, l)
			in.touchWrite(st, l, nv)
			// the star cell may appear or disappear
			st.cells[l.c] = setPath(st.cells[l.c], l.p, nv, l.strong())
		}
		switch f.SN {
		case "begin", "cbegin":
			ro := f.Const != 0 || f.SN == "cbegin"
			in.itBegin(st, l, func(st *State, it VIt) { it.ro = ro; k(st, it) })
		case "end", "cend":
			k(st, VIt{loc: l, s: SE})
		case "size":
			k(st, in.sizeOf(st, l))
		case "empty":
			if isRow {
				in.ordNext(st, l, 0, func(st *State, it VIt) { k(st, VInt{b2i(it.s == SE)}) })
				return
			}
			switch {
			case dn.sp >= 0 && !in.cfg.zero[dn.sp]:
				k(st, VInt{0})
			case dn.sp == -1:
				k(st, VInt{1})
			default:
				k(st, VUnk{})
			}
		case "clear":
			if isRow {
				setWhole(st, VRow{sp: -1, L: 1, R: 1, tt: row.tt})
			} else {
				setWhole(st, VDense{sp: -1, et: dn.et})
			}
			k(st, VUnk{})
		case "reserve", "shrink_to_fit":
			k(st, VUnk{})
		case "capacity", "max_size":
			k(st, VUnk{})
		case "get_allocator":
			k(st, VOpq{})
		case "swap":
			m, ok := in.ref(as[1])
			if !ok {
				in.imprecise(st, "vector swap")
				k(st, VUnk{})
				return
			}
			o := in.read(st, m)
			in.invalidate(st, l)
			in.invalidate(st, m)
			in.touchWrite(st, l, o)
			in.touchWrite(st, m, v)
			st.cells[l.c] = setPath(st.cells[l.c], l.p, o, l.strong())
			st.cells[m.c] = setPath(st.cells[m.c], m.p, v, m.strong())
			k(st, VUnk{})
		case "operator=":
			o := in.val(st, as[1])
			if _, ok := o.(VOpq); ok {
				in.imprecise(st, "assignment from an initialiser list")
			}
			m, isref := in.ref(as[1])
			setWhole(st, o)
			if isref && m != l && len(f.Ps) > 0 && in.p.Tys[f.Ps[0].T].K == "rref" {
				in.write(st, m, in.emptyVec(rec))
			}
			k(st, VRef{l})
		case "push_back", "emplace_back":
			if isRow {
				in.tupleOf(st, rec, as[1:], func(st *State, idx, x Val) {
					in.insertAt(st, l, VIt{loc: l, s: SE}, idx, x, func(st *State, it VIt) {
						if in.p.isRef(f.Rt) {
							k(st, VRef{l.row(it.s)})
						} else {
							k(st, VUnk{})
						}
					})
				})
				return
			}
			// a growing dense vector: sizes unknown
			x := Val(VUnk{})
			if len(as) == 2 {
				x = in.val(st, as[1])
			}
			nv := VDense{sp: -2, et: dn.et}
			if dn.sp == -1 {
				nv.p, nv.g = x, x
			} else {
				nv.p = join(join(dn.p, dn.g), x)
				nv.g = nv.p
			}
			setWhole(st, nv)
			if in.p.isRef(f.Rt) {
				k(st, VRef{l.dense(SL)})
			} else {
				k(st, VUnk{})
			}
		case "pop_back":
			in.imprecise(st, "pop_back")
			k(st, VUnk{})
		case "insert", "emplace":
			it, ok := in.val(st, as[1]).(VIt)
			if !isRow || !ok || it.loc != l || len(as) > 4 || f.SN == "insert" && len(as) != 3 {
				// insert(pos, first, last) of a whole row at the end of an empty one
				if isRow && ok && f.SN == "insert" && len(as) == 4 && row.L == 1 && row.R == 1 && row.p == nil {
					if src, ok := in.fullRange(st, as[2:]); ok {
						if rv, ok := in.read(st, src).(VRow); ok {
							a := in.val(st, as[2]).(VIt)
							if a.first && (a.s == SL || a.s == SP && rv.L == 1 || a.s == SR && rv.L == 1 && rv.p == nil) || a.s == SE {
								if a.s != SE {
									setWhole(st, rv)
									in.touch(st, l)
								}
								in.itBegin(st, l, func(st *State, it VIt) { k(st, it) })
								return
							}
						}
					}
				}
				in.imprecise(st, "unmodelled insertion")
				k(st, VIt{loc: l, s: SE})
				return
			}
			in.tupleOf(st, rec, as[2:], func(st *State, idx, x Val) {
				in.insertAt(st, l, it, idx, x, func(st *State, it VIt) { k(st, it) })
			})
		case "erase":
			it, ok := in.val(st, as[1]).(VIt)
			if !isRow || !ok || it.loc != l {
				in.imprecise(st, "unmodelled erase")
				k(st, VIt{loc: l, s: SE})
				return
			}
			if len(as) == 2 {
				in.eraseAt(st, l, it, func(st *State, it VIt) { k(st, it) })
				return
			}
			last, ok := in.val(st, as[2]).(VIt)
			if ok && last.loc == l && last.s == SE {
				n := row
				had := row.p != nil
				switch it.s {
				case SE:
					k(st, it)
					return
				case SR:
					if it.first {
						n.R = 1
					} else if it.ro {
						n.R = 7
					} else {
						n.R = 6
					}
				case SP:
					n.R, n.p, n.pm = 1, nil, false
				case SL:
					n.R, n.p, n.pm = 1, nil, false
					if it.first {
						n.L = 1
					} else if it.ro {
						n.L = 7
					} else {
						n.L = 6
					}
				}
				_ = had
				setWhole(st, n)
				k(st, VIt{loc: l, s: SE})
				return
			}
			in.imprecise(st, "unmodelled erase")
			k(st, VIt{loc: l, s: SE})
		case "resize", "assign":
			if isRow || len(as) < 2 {
				if isRow && f.SN == "resize" && len(as) == 2 {
					if z, ok := in.val(st, as[1]).(VInt); ok && z.k == 0 {
						setWhole(st, VRow{sp: -1, L: 1, R: 1, tt: row.tt})
						k(st, VUnk{})
						return
					}
				}
				if isRow && f.SN == "assign" && len(as) == 3 {
					if src, ok := in.fullRange(st, as[1:]); ok {
						if rv, ok := in.read(st, src).(VRow); ok {
							a := in.val(st, as[1]).(VIt)
							if a.s == SE {
								setWhole(st, VRow{sp: -1, L: 1, R: 1, tt: row.tt})
								k(st, VUnk{})
								return
							}
							if a.first && (a.s == SL || a.s == SP && rv.L == 1 || a.s == SR && rv.L == 1 && rv.p == nil) {
								rv.tt = row.tt
								setWhole(st, rv)
								k(st, VUnk{})
								return
							}
						}
					}
				}
				in.imprecise(st, "unmodelled "+f.SN)
				k(st, VUnk{})
				return
			}
			n := in.val(st, as[1])
			if f.SN == "assign" {
				if _, isit := n.(VIt); isit {
					if src, ok := in.fullRange(st, as[1:]); ok {
						setWhole(st, in.read(st, src))
						k(st, VUnk{})
						return
					}
					in.imprecise(st, "unmodelled assign")
					k(st, VUnk{})
					return
				}
			}
			var fill Val
			if len(as) > 2 {
				fill = in.val(st, as[2])
			}
			in.sized(st, rec, n, fill, func(st *State, nv Val) {
				x := nv.(VDense)
				if f.SN == "resize" && dn.sp >= 0 && x.sp != dn.sp {
					x = in.resized(dn, x)
				} else if f.SN == "resize" && dn.sp >= 0 && x.sp == dn.sp {
					x = dn
				}
				setWhole(st, x)
				k(st, VUnk{})
			})
		case "front", "back":
			if isRow {
				if f.SN == "front" {
					in.itBegin(st, l, func(st *State, it VIt) {
						in.deref(st, it, k)
					})
				} else {
					in.itPrev(st, VIt{loc: l, s: SE}, func(st *State, it VIt) {
						in.deref(st, it, k)
					})
				}
				return
			}
			m := uint8(SL | SP)
			if f.SN == "back" {
				m = SP | SR
			}
			if dn.sp == -1 {
				in.ub(st, f.SN+" of an empty vector")
				return
			}
			if dn.sp == -2 {
				m = SL
			}
			in.split(st, VIdx{sp: dn.sp, m: m}, nil, func(st *State, x Val) { k(st, VRef{l.dense(x.(VIdx).m)}) })
		case "flip":
			in.imprecise(st, "flip")
			k(st, VUnk{})
		default:
			in.unmod["vector::"+f.SN]++
			in.imprecise(st, "unmodelled vector operation "+f.SN)
			if in.p.isRef(f.Rt) {
				k(st, VRef{st.alloc(VUnk{})})
			} else {
				k(st, VUnk{})
			}
		}
	})
}

// resized: d (old contents) resized to the size of n (whose elements are the fill).
func (in *I) resized(d, n VDense) VDense {
	for _, c := range in.cfg.cuts {
		if c.sp == d.sp && c.sp2 == n.sp || c.sp == n.sp && c.sp2 == d.sp {
			r := n
			if c.starIn {
				r.p = d.p
			}
			r.g = join(d.g, n.g)
			return r
		}
	}
	r := n
	r.p = join(join(d.p, d.g), n.p)
	r.g = r.p
	return r
}

// stdAlgo runs a linear scan with an inlined predicate or functor.
func (in *I) stdAlgo(st *State, e *Expr, f *Fn, as []Val, k func(*State, Val)) bool {
	a, ok1 := in.val(st, as[0]).(VIt)
	b, ok2 := in.val(st, as[1]).(VIt)
	if !ok1 || !ok2 || a.loc != b.loc {
		return false
	}
	var fnv Val
	if len(as) > 2 {
		fnv = as[len(as)-1]
	}
	call := func(st *State, args []Val, k func(*State, Val)) bool { return in.callable(st, fnv, args, k) }
	name := f.SN
	if name == "copy" || name == "transform" || name == "copy_if" || name == "count_if" || name == "upper_bound" || name == "binary_search" || name == "move_backward" {
		return false
	}
	// test(st, element) decides whether the scan stops here
	var test func(st *State, el Val, k func(*State, bool)) bool
	switch name {
	case "find":
		test = func(st *State, el Val, k func(*State, bool)) bool {
			in.cmp(st, "==", in.val(st, el), in.val(st, as[2]), nil, nil, k)
			return true
		}
	case "find_if", "any_of", "none_of":
		test = func(st *State, el Val, k func(*State, bool)) bool {
			return call(st, []Val{el}, func(st *State, v Val) { in.truth(st, in.val(st, v), k) })
		}
	case "find_if_not", "all_of", "partition_point":
		test = func(st *State, el Val, k func(*State, bool)) bool {
			return call(st, []Val{el}, func(st *State, v Val) { in.truth(st, in.val(st, v), func(st *State, b bool) { k(st, !b) }) })
		}
	case "lower_bound":
		if len(as) != 4 {
			return false
		}
		test = func(st *State, el Val, k func(*State, bool)) bool {
			return call(st, []Val{el, as[2]}, func(st *State, v Val) { in.truth(st, in.val(st, v), func(st *State, b bool) { k(st, !b) }) })
		}
	case "for_each":
		test = func(st *State, el Val, k func(*State, bool)) bool {
			return call(st, []Val{el}, func(st *State, v Val) { k(st, false) })
		}
	default:
		return false
	}
	type item struct {
		st *State
		it VIt
	}
	seen := map[memoKey]*State{}
	var work, done []item
	push := func(st *State, it VIt) {
		in.flush(st)
		kb := getKB()
		st.skel(kb)
		it.key(kb)
		key := kb.done()
		if old, ok := seen[key]; ok {
			if !old.joinState(st) {
				return
			}
			work = append(work, item{old.clone(), it})
			return
		}
		seen[key] = st
		work = append(work, item{st.clone(), it})
		if len(seen) > in.cfg.maxState {
			panic(budgetExceeded{})
		}
	}
	push(st, a)
	okAll := true
	nc := len(st.cells)
	for len(work) > 0 {
		w := work[len(work)-1]
		work = work[:len(work)-1]
		in.cmp(w.st, "==", w.it, b, nil, nil, func(st *State, eq bool) {
			if eq {
				done = append(done, item{st, VIt{loc: b.loc, s: SE}})
				return
			}
			in.deref(st, w.it, func(st *State, el Val) {
				if !test(st, el, func(st *State, stop bool) {
					if len(st.cells) > nc {
						st.cells = st.cells[:nc]
					}
					if stop {
						it := w.it
						done = append(done, item{st, it})
						return
					}
					in.itNext(st, w.it, func(st *State, it VIt) { push(st, it) })
				}) {
					okAll = false
				}
			})
		})
	}
	if !okAll {
		return false
	}
	for _, d := range done {
		switch name {
		case "any_of":
			k(d.st, VInt{b2i(d.it.s != SE)})
		case "all_of", "none_of":
			k(d.st, VInt{b2i(d.it.s == SE)})
		case "for_each":
			k(d.st, VOpq{})
		default:
			k(d.st, d.it)
		}
	}
	return true
}

// callable calls a lambda or functor.
func (in *I) callable(st *State, fnv Val, args []Val, k func(*State, Val)) bool {
	l, ok := in.ref(fnv)
	if !ok {
		l = st.alloc(fnv)
	}
	r, okr := in.read(st, l).(VRec)
	if !okr {
		return false
	}
	le := in.p.lambdas[r.rec]
	if le == nil || le.Fn == nil {
		// a functor class: find its call operator
		for _, g := range in.p.Fns {
			if g.RecID != nil && *g.RecID == r.rec && g.SN == "operator()" {
				if g.Body != nil {
					in.callFn(st, g, l, args, k)
				} else {
					in.opaqueCall(st, &Expr{M: 1}, g, append([]Val{VRef{l}}, args...), k)
				}
				return true
			}
		}
		return false
	}
	g := in.p.fnBy[*le.Fn]
	if g == nil || g.Body == nil {
		return false
	}
	args2 := make([]Val, len(args))
	for i := range args {
		args2[i] = args[i]
		if i < len(g.Ps) && !in.p.isRef(g.Ps[i].T) {
			args2[i] = in.val(st, args[i])
		}
	}
	in.callFn(st, g, l, args2, k)
	return true
}

// stdSort: a row that has been sorted by index with a strict order is sorted.
func (in *I) stdSort(st *State, as []Val, k func(*State, Val)) bool {
	a, ok1 := in.val(st, as[0]).(VIt)
	b, ok2 := in.val(st, as[1]).(VIt)
	if !ok1 || !ok2 || a.loc != b.loc || b.s != SE {
		return false
	}
	r, ok := in.read(st, a.loc).(VRow)
	if !ok || !(a.s == SE || a.first) || a.s == SP && r.L != 1 {
		return false
	}
	if r.sp < 0 {
		k(st, VUnk{})
		return true
	}
	finish := func(st *State) {
		r := in.read(st, a.loc).(VRow)
		if strings.HasPrefix(r.bad, "out of order") {
			r.bad = ""
		}
		in.invalidate(st, a.loc)
		in.setRowV(st, a.loc, r)
		k(st, VUnk{})
	}
	if len(as) == 2 {
		finish(st)
		return true
	}
	// what the comparison says of an element below the distinguished index
	// and one at it, both ways round
	gv := r.gv
	if gv == nil {
		gv = VUnk{}
	}
	pv := gv
	if t, ok := r.p.(VRec); ok && len(t.f) == 2 {
		pv = t.f[1]
	}
	lo, hi := tuple(VIdx{sp: r.sp, m: SL}, gv), tuple(VIdx{sp: r.sp, m: SP}, pv)
	res := [2]int{}
	for n := 0; n < 2; n++ {
		s2 := st.clone()
		x, y := VRef{s2.alloc(lo)}, VRef{s2.alloc(hi)}
		if n == 1 {
			x, y = y, x
		}
		if !in.callable(s2, as[2], []Val{x, y}, func(s3 *State, v Val) {
			if s3.imp != "" {
				res[n] |= 4
				return
			}
			in.truth(s3, in.val(s3, v), func(s3 *State, b bool) {
				if s3.imp != "" {
					res[n] |= 4
				}
				res[n] |= 1 << b2i(b)
			})
		}) {
			return false
		}
	}
	if res[0] == 2 && res[1] == 1 {
		finish(st)
		return true
	}
	if res[0]&4 != 0 || res[1]&4 != 0 || res[0] == 3 || res[1] == 3 {
		return false
	}
	// a strict weak order, but not that of the indices
	if r.bad == "" && a.loc.strong() {
		r.bad = "out of order: sorted by something other than the index, at " + in.pos()
	}
	in.invalidate(st, a.loc)
	in.setRowV(st, a.loc, r)
	k(st, VUnk{})
	return true
}

package main

// Packed arrays.  A vector created with as many elements as a container stores,
// and then filled through an iterator, one element per stored one, is an array
// over an index space of its own: the ranks of the stored elements.  The rank
// of the star element is its star; when the star is not stored, it is that
// of the first stored element above it (spPackU) or of the last below (spPackD).

const (
	spPack  = 90
	spPackU = 91
	spPackD = 92
)
const ( // VDense.pk
	pkPack    = 1 << iota
	pkStar    // the star's element has been written
	pkUnsort  // written out of order
	pkPending // written, and not advanced since
	pkAny     // something has been written
	pkBroken  // filled in a way that is not followed
	pkBegun   // filling it has begun
)

func isPackSp(sp int) bool { return sp >= spPack && sp <= spPackD }

// pack creates a packed array for a count of elements.
func (in *I) pack(st *State, c VCnt, et int, k func(*State, Val)) bool {
	n, ok := noCtr(st, c).(VCnt)
	if !ok || !n.rel || n.p != 0 || n.k != 0 || n.b < 0 || n.b > 1 {
		return false
	}
	st.ctr = true
	sps := []int{spPack}
	if n.b == 0 {
		sps = []int{spPackU, spPackD}
		for _, v := range st.cells {
			// arrays made from one count are looked at from the same side
			if d, ok := v.(VDense); ok && (d.sp == spPackU || d.sp == spPackD) {
				sps = []int{d.sp}
			}
		}
	}
	for i, sp := range sps {
		in.cfg.setZero(sp, n.b == 0)
		s := st
		if i+1 < len(sps) {
			in.forks++
			s = st.clone()
		}
		k(s, VDense{sp: sp, et: et, pk: pkPack})
	}
	return true
}
func (c *Cfg) setZero(sp int, z bool) {
	if z && !c.zero[sp] {
		m := map[int]bool{sp: true}
		for k, v := range c.zero {
			m[k] = v
		}
		c.zero = m
	}
}

// filling: is the array at l being filled?
func (in *I) filling(st *State, l Loc) (VDense, bool) {
	d, ok := in.read(st, l).(VDense)
	if !ok || d.pk == 0 {
		return d, false
	}
	return d, d.pk&pkStar == 0 && d.sp == spPack || d.pk&pkAny == 0
}
func (in *I) setDense(st *State, l Loc, d VDense) {
	st.cells[l.c] = setPath(st.cells[l.c], l.p, d, l.strong())
}

// packDeref: where the next element is written, according to what the round of
// the loop has dealt with so far.
func (in *I) packDeref(st *State, l Loc, k func(*State, Val)) {
	d, _ := in.read(st, l).(VDense)
	w := accOf(st.acc)
	if w == 1 && (d.sp != spPack || d.pk&pkStar != 0) || d.pk&pkPending != 0 {
		w = 0
	}
	switch w {
	case 1:
		k(st, VRef{l.dense(SP)})
	case 2:
		k(st, VRef{l.dense(SL)})
	default:
		in.imprecise(st, "which element of a packed array is written is not clear")
		d.pk |= pkBroken
		in.setDense(st, l, d)
		k(st, VRef{l.dense(SL)})
	}
}
func (in *I) packNext(st *State, it VIt, k func(*State, VIt)) {
	d, _ := in.read(st, it.loc).(VDense)
	if d.pk&pkPending == 0 {
		in.imprecise(st, "element of a packed array skipped")
	}
	d.pk &^= pkPending
	in.setDense(st, it.loc, d)
	k(st, it)
}

// packWrite: a write to an element of a packed array.
func (in *I) packWrite(st *State, l Loc, v Val) bool {
	n := len(l.p)
	if n < 2 || l.p[n-2] != 'd' {
		return false
	}
	d, ok := in.read(st, l.parent()).(VDense)
	if !ok || d.pk == 0 {
		return false
	}
	in.access(st, l, true)
	v = noCtr(st, v)
	if l.p[n-1] == '0'+SP {
		d.p = v
		d.pk |= pkStar
	} else {
		if x, ok := v.(VIdx); ok {
			if x.m&SR != 0 && d.sp == spPack && d.pk&pkStar == 0 || x.m&SL != 0 && d.pk&pkStar != 0 {
				d.pk |= pkUnsort
			}
		}
		if d.g == nil {
			d.g = v
		} else {
			d.g = join(d.g, v)
		}
	}
	d.pk |= pkPending | pkAny
	in.setDense(st, l.parent(), d)
	return true
}

// packAt: the element at a rank.
func (in *I) packAt(st *State, l Loc, d VDense, m uint8, k func(*State, Loc)) {
	if (d.sp == spPack) != (d.pk&pkStar != 0) || d.pk&(pkBroken|pkUnsort) != 0 {
		in.imprecise(st, "packed array not filled in order")
	}
	side, v := m, d.g
	switch {
	case m == SP && d.sp == spPack:
		v = d.p
	case m == SP && d.sp == spPackU:
		side = SR
	case d.sp == spPackD:
		side = SL
	}
	if v == nil {
		if d.pk&pkBegun != 0 {
			return // as many elements were written as there are
		}
		v = in.zeroVal(d.et)
	}
	if x, ok := v.(VIdx); ok && side != SP {
		if x.m&side == 0 {
			return
		}
		v = VIdx{sp: x.sp, m: side}
	}
	k(st, st.alloc(v))
}

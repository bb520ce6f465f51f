package main

import (
	"crypto/sha256"
	"fmt"
	"hash"
	"regexp"
)

// canon digests everything a function's behaviour depends on: the bodies of
// all functions, the records and the types it reaches, numbered in the order
// of discovery; line numbers and file names do not take part.  Two drivers
// with one digest are the same program, so one analysis answers for both.
type canon struct {
	p    *Prog
	h    hash.Hash
	tys  map[int]int
	recs map[int]int
	decl map[int]int
	fns  map[int]int
	todo []*Fn
}

var reAt = regexp.MustCompile(`\((lambda|anonymous[^()]*) at [^()]*\)|<lambda[^>]*>`)

func (c *canon) w(a ...interface{}) { fmt.Fprintln(c.h, a...) }
func (c *canon) name(s string) string {
	return reAt.ReplaceAllString(s, "(lambda)")
}
func (c *canon) ty(t int) {
	if t < 0 || t >= len(c.p.Tys) {
		c.w("t-")
		return
	}
	if n, ok := c.tys[t]; ok {
		c.w("t", n)
		return
	}
	c.tys[t] = len(c.tys)
	y := c.p.Tys[t]
	c.w("T", c.name(y.N), y.K, y.C, y.W, y.Sg, y.Pc)
	if y.K == "ref" || y.K == "rref" || y.K == "ptr" {
		c.ty(y.P)
	}
	if y.Rec != nil {
		c.rec(*y.Rec)
	}
}
func (c *canon) rec(r int) {
	if r < 0 || r >= len(c.p.Recs) {
		c.w("r-")
		return
	}
	if n, ok := c.recs[r]; ok {
		c.w("r", n)
		return
	}
	c.recs[r] = len(c.recs)
	x := c.p.Recs[r]
	if x == nil {
		c.w("R-")
		return
	}
	c.w("R", c.name(x.N), c.name(x.FN), x.Own)
	for _, f := range x.Fs {
		c.w(f.N)
		c.ty(f.T)
	}
	c.w("b")
	for _, b := range x.Bs {
		c.ty(b)
	}
	c.w("a")
	for _, b := range x.Ta {
		c.ty(b)
	}
}
func (c *canon) d(d int) {
	n, ok := c.decl[d]
	if !ok {
		n = len(c.decl)
		c.decl[d] = n
		c.w("d", n)
		if g := c.p.glob[d]; g != nil {
			c.w("glob", g.N)
			c.ty(g.T)
			c.expr(g.X)
		}
		return
	}
	c.w("d", n)
}
func (c *canon) fn(f int) {
	n, ok := c.fns[f]
	if !ok {
		n = len(c.fns)
		c.fns[f] = n
		if x := c.p.fnBy[f]; x != nil {
			c.todo = append(c.todo, x)
		}
	}
	c.w("f", n)
}
func (c *canon) expr(e *Expr) {
	if e == nil {
		c.w("-")
		return
	}
	c.w("E", e.E, e.Lv, e.V, e.N, e.G, e.M, e.Op, e.Post, e.K, e.Ex, e.F, e.Fi, e.Ar, e.El, len(e.A), len(e.Caps))
	c.ty(e.T)
	if e.Rec != 0 || e.E == "lambda" || e.E == "mem" {
		c.rec(e.Rec)
	}
	if e.D != 0 || e.E == "var" {
		c.d(e.D)
	}
	if e.Fn != nil {
		c.fn(*e.Fn)
	}
	if e.Ct != 0 {
		c.ty(e.Ct)
	}
	if e.At != 0 {
		c.ty(e.At)
	}
	if e.Tt != nil {
		c.ty(*e.Tt)
	}
	for _, a := range e.A {
		c.expr(a)
	}
	c.expr(e.X)
	c.expr(e.Y)
	c.expr(e.C)
	for _, k := range e.Caps {
		c.w(k.Fi, k.This, k.Ref)
		if k.D != nil {
			c.d(*k.D)
		}
		c.expr(k.X)
	}
}
func (c *canon) stmt(s *Stmt) {
	if s == nil {
		c.w("-")
		return
	}
	c.w("S", s.S, s.K, s.Cx, len(s.Blk), len(s.Vs), len(s.Pre), len(s.Hs))
	for _, x := range s.Blk {
		c.stmt(x)
	}
	for _, v := range s.Vs {
		c.w(v.N, v.Static)
		c.d(v.D)
		c.ty(v.T)
		c.expr(v.X)
	}
	for _, x := range s.Pre {
		c.stmt(x)
	}
	c.stmt(s.Init)
	c.stmt(s.Cv)
	c.expr(s.C)
	c.stmt(s.X)
	c.stmt(s.Y)
	c.expr(s.E)
	c.expr(s.Inc)
	c.stmt(s.B)
	c.stmt(s.Lv)
	for _, h := range s.Hs {
		if h.T != nil {
			c.ty(*h.T)
		}
		c.stmt(h.B)
	}
}
func (c *canon) fnBody(f *Fn) {
	c.w("F", c.name(f.N), f.SN, f.Method, f.Const, f.Dflt, f.IsCtor, f.IsDtor, f.IsConv, f.NoBody, len(f.Ps), len(f.Inits))
	for _, a := range f.Ta {
		c.w(c.name(a))
	}
	c.ty(f.Rt)
	if f.RecID != nil {
		c.rec(*f.RecID)
	}
	for _, p := range f.Ps {
		c.w(p.N)
		c.d(p.D)
		c.ty(p.T)
	}
	for _, i := range f.Inits {
		c.w(i.F, i.Deleg)
		if i.Fi != nil {
			c.w(*i.Fi)
		}
		if i.Base != nil {
			c.ty(*i.Base)
		}
		c.expr(i.X)
	}
	c.stmt(f.Body)
}

// digest of the named driver functions and all they reach.
func (p *Prog) digest(names []string) string {
	c := &canon{p: p, h: sha256.New(), tys: map[int]int{}, recs: map[int]int{}, decl: map[int]int{}, fns: map[int]int{}}
	for _, n := range names {
		f := p.byName[n]
		if f == nil {
			return ""
		}
		c.fn(f.Id)
	}
	for len(c.todo) > 0 {
		f := c.todo[0]
		c.todo = c.todo[1:]
		c.fnBody(f)
	}
	return fmt.Sprintf("%x", c.h.Sum(nil))
}

// digest of a case: its driver function and the helpers that reveal the
// layout of its containers.
func (tu *TU) digest(cs *Case) string {
	n := []string{cs.fn}
	for _, o := range cs.objs {
		switch o.k {
		case 'm':
			n = append(n, "mkm_"+mangle(o.ty), "nvm_"+mangle(o.ty))
		case 'v':
			n = append(n, "mkv_"+mangle(o.ty), "nvv_"+mangle(o.ty))
		}
	}
	return tu.p.digest(n)
}

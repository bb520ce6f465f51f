package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"
)

// The resolved program, as dumped by exporter/export.cpp.

type Ty struct {
	N   string `json:"n"`
	K   string `json:"k"`
	P   int    `json:"p"`
	C   int    `json:"c"`
	W   int    `json:"w"`
	Sg  int    `json:"sg"`
	Rec *int   `json:"rec"`
	Pc  int    `json:"pc"`
}
type Field struct {
	N string `json:"n"`
	T int    `json:"t"`
}
type Rec struct {
	Id   int     `json:"id"`
	N    string  `json:"n"`
	FN   string  `json:"fn"`
	Own  int     `json:"own"`
	File int     `json:"file"`
	Fs   []Field `json:"fs"`
	Bs   []int   `json:"bs"`
	Ta   []int   `json:"ta"`
}
type Param struct {
	D int    `json:"d"`
	N string `json:"n"`
	T int    `json:"t"`
}
type Init struct {
	Fi    *int   `json:"fi"`
	F     string `json:"f"`
	Base  *int   `json:"base"`
	Deleg int    `json:"deleg"`
	X     *Expr  `json:"x"`
}
type Fn struct {
	Id     int      `json:"id"`
	N      string   `json:"n"`
	SN     string   `json:"sn"`
	File   int      `json:"file"`
	L      int      `json:"l"`
	Rt     int      `json:"rt"`
	Method int      `json:"method"`
	Const  int      `json:"const"`
	RecID  *int     `json:"rec"`
	Dflt   int      `json:"dflt"`
	Inl    int      `json:"inl"`
	IsCtor int      `json:"isctor"`
	IsDtor int      `json:"isdtor"`
	IsConv int      `json:"isconv"`
	Ps     []Param  `json:"ps"`
	Ta     []string `json:"ta"`
	Inits  []Init   `json:"inits"`
	Body   *Stmt    `json:"body"`
	NoBody int      `json:"nobody"`
}
type Cap struct {
	Fi   int   `json:"fi"`
	D    *int  `json:"d"`
	This int   `json:"this"`
	Ref  int   `json:"ref"`
	X    *Expr `json:"x"`
}
type Expr struct {
	E    string  `json:"e"`
	T    int     `json:"t"`
	Lv   int     `json:"lv"`
	L    int     `json:"l"`
	V    string  `json:"v"`
	D    int     `json:"d"`
	N    string  `json:"n"`
	G    int     `json:"g"`
	Fn   *int    `json:"fn"`
	M    int     `json:"m"`
	Op   string  `json:"op"`
	Post int     `json:"post"`
	A    []*Expr `json:"a"`
	X    *Expr   `json:"x"`
	Y    *Expr   `json:"y"`
	C    *Expr   `json:"c"`
	K    string  `json:"k"`
	Ex   int     `json:"ex"`
	F    string  `json:"f"`
	Fi   int     `json:"fi"`
	Rec  int     `json:"rec"`
	Ar   int     `json:"ar"`
	Ct   int     `json:"ct"`
	Tt   *int    `json:"tt"`
	At   int     `json:"at"`
	Caps []Cap   `json:"caps"`
	El   int     `json:"elide"`
	iv   int64
}
type VarD struct {
	D      int    `json:"d"`
	N      string `json:"n"`
	T      int    `json:"t"`
	L      int    `json:"l"`
	Static int    `json:"static"`
	X      *Expr  `json:"x"`
}
type Handler struct {
	T *int  `json:"t"`
	B *Stmt `json:"b"`
}

// Stmt has fields whose JSON kind depends on the statement kind, so it is
// decoded by hand.
type Stmt struct {
	S    string
	L    int
	Blk  []*Stmt
	Vs   []VarD
	Init *Stmt
	Cv   *Stmt
	Cx   int
	C    *Expr
	X    *Stmt
	Y    *Stmt
	E    *Expr
	Inc  *Expr
	B    *Stmt
	Pre  []*Stmt
	Lv   *Stmt
	Hs   []Handler
	K    string
}

func (s *Stmt) UnmarshalJSON(b []byte) error {
	var m map[string]json.RawMessage
	if err := json.Unmarshal(b, &m); err != nil {
		return err
	}
	get := func(k string, p interface{}) error {
		if r, ok := m[k]; ok {
			return json.Unmarshal(r, p)
		}
		return nil
	}
	if err := get("s", &s.S); err != nil {
		return err
	}
	get("l", &s.L)
	get("k", &s.K)
	get("cx", &s.Cx)
	var err error
	chk := func(e error) {
		if e != nil && err == nil {
			err = e
		}
	}
	chk(get("vs", &s.Vs))
	chk(get("init", &s.Init))
	chk(get("cv", &s.Cv))
	chk(get("c", &s.C))
	chk(get("inc", &s.Inc))
	chk(get("pre", &s.Pre))
	chk(get("lv", &s.Lv))
	chk(get("hs", &s.Hs))
	switch s.S {
	case "block":
		chk(get("b", &s.Blk))
	default:
		chk(get("b", &s.B))
	}
	switch s.S {
	case "if":
		chk(get("x", &s.X))
		chk(get("y", &s.Y))
	default:
		chk(get("x", &s.E))
	}
	return err
}

type Global struct {
	D int    `json:"d"`
	N string `json:"n"`
	T int    `json:"t"`
	X *Expr  `json:"x"`
}
type Prog struct {
	Roots   []int    `json:"roots"`
	Fns     []*Fn    `json:"fns"`
	Fns2    []*Fn    `json:"fns2"`
	Globals []Global `json:"globals"`
	Recs    []*Rec   `json:"recs"`
	Tys     []*Ty    `json:"tys"`
	Files   []string `json:"files"`
	fnBy    map[int]*Fn
	glob    map[int]*Global
	byName  map[string]*Fn
	lambdas map[int]*Expr
	ctrs    map[int]bool // local counters
}

func loadProg(path string) (*Prog, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	p := &Prog{}
	if err := json.Unmarshal(b, p); err != nil {
		return nil, fmt.Errorf("parse %s: %v", path, err)
	}
	p.Fns = append(p.Fns, p.Fns2...)
	p.fnBy = map[int]*Fn{}
	p.byName = map[string]*Fn{}
	for _, f := range p.Fns {
		p.fnBy[f.Id] = f
		fixStmt(f.Body)
		for _, in := range f.Inits {
			fixExpr(in.X)
		}
	}
	p.glob = map[int]*Global{}
	for i := range p.Globals {
		p.glob[p.Globals[i].D] = &p.Globals[i]
		fixExpr(p.Globals[i].X)
	}
	for _, r := range p.Roots {
		p.byName[p.fnBy[r].SN] = p.fnBy[r]
	}
	p.lambdas = map[int]*Expr{}
	for _, f := range p.Fns {
		p.findLambdas(f.Body)
		for _, in := range f.Inits {
			p.findLambdasE(in.X)
		}
	}
	p.findCtrs()
	return p, nil
}

func (p *Prog) findLambdasE(e *Expr) {
	if e == nil {
		return
	}
	if e.E == "lambda" {
		p.lambdas[e.Rec] = e
	}
	for _, a := range e.A {
		p.findLambdasE(a)
	}
	p.findLambdasE(e.X)
	p.findLambdasE(e.Y)
	p.findLambdasE(e.C)
	for i := range e.Caps {
		p.findLambdasE(e.Caps[i].X)
	}
}

func (p *Prog) findLambdas(s *Stmt) {
	if s == nil {
		return
	}
	for _, x := range s.Blk {
		p.findLambdas(x)
	}
	for i := range s.Vs {
		p.findLambdasE(s.Vs[i].X)
	}
	for _, x := range s.Pre {
		p.findLambdas(x)
	}
	p.findLambdas(s.Init)
	p.findLambdas(s.Cv)
	p.findLambdasE(s.C)
	p.findLambdas(s.X)
	p.findLambdas(s.Y)
	p.findLambdasE(s.E)
	p.findLambdasE(s.Inc)
	p.findLambdas(s.B)
	p.findLambdas(s.Lv)
	for _, h := range s.Hs {
		p.findLambdas(h.B)
	}
}

func fixExpr(e *Expr) {
	if e == nil {
		return
	}
	if e.E == "int" {
		v, err := strconv.ParseInt(e.V, 10, 64)
		if err != nil {
			u, _ := strconv.ParseUint(e.V, 10, 64)
			v = int64(u)
		}
		e.iv = v
	}
	for _, a := range e.A {
		fixExpr(a)
	}
	fixExpr(e.X)
	fixExpr(e.Y)
	fixExpr(e.C)
	for i := range e.Caps {
		fixExpr(e.Caps[i].X)
	}
}

func fixStmt(s *Stmt) {
	if s == nil {
		return
	}
	for _, x := range s.Blk {
		fixStmt(x)
	}
	for i := range s.Vs {
		fixExpr(s.Vs[i].X)
	}
	for _, x := range s.Pre {
		fixStmt(x)
	}
	fixStmt(s.Init)
	fixStmt(s.Cv)
	fixExpr(s.C)
	fixStmt(s.X)
	fixStmt(s.Y)
	fixExpr(s.E)
	fixExpr(s.Inc)
	fixStmt(s.B)
	fixStmt(s.Lv)
	for _, h := range s.Hs {
		fixStmt(h.B)
	}
}

func (p *Prog) nonref(t int) int {
	if p.Tys[t].K == "ref" || p.Tys[t].K == "rref" {
		return p.Tys[t].P
	}
	return t
}
func (p *Prog) isRef(t int) bool { return p.Tys[t].K == "ref" || p.Tys[t].K == "rref" }
func (p *Prog) rec(t int) *Rec {
	ty := p.Tys[p.nonref(t)]
	if ty.K == "rec" && ty.Rec != nil {
		return p.Recs[*ty.Rec]
	}
	return nil
}

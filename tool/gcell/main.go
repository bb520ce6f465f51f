package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

var _ = json.Marshal

var (
	repo     = flag.String("repo", "/repo", "source tree")
	build    = flag.String("build", "", "scratch directory")
	export   = flag.String("export", "", "exporter binary")
	suite    = flag.String("suite", "", "suite")
	only     = flag.String("only", "", "only functions whose name contains this")
	verbose  = flag.Bool("v", false, "verbose")
	debugF   = flag.Bool("debug", false, "trace")
	tier     = flag.String("tier", "quick", "tier")
	plat     = flag.String("platform", "", "only this platform")
	prof     = flag.String("prof", "", "cpu profile")
	checkF   = flag.String("check", "", "decide this property")
	root     = flag.String("root", "/verif", "where evidence is written")
	thinF    = flag.Bool("thin", false, "only the configurations of the quick tier")
	deadline = flag.Float64("deadline", 0, "stop after this many seconds of analysis")
	stats    = flag.Bool("stats", false, "per case statistics")
)

var platforms = []string{"sequential", "optimized_sequential"}

// ---------------------------------------------------------------------------

const prelude = `#include <graphblas/graphblas.hpp>
namespace drv {
using grb::IndexType;
using TA=short; using TB=int; using TC=float; using TD=double; using TZ=long double; using TM=unsigned char;
struct SR { using result_type=TD; using ScalarType=TD; TD add(TD,TD) const; TD mult(TA,TB) const; TD zero() const; };
struct Acc { TZ operator()(TC,TD) const; };
`

func (tu *TU) source() string {
	var b strings.Builder
	b.WriteString("#include <graphblas/graphblas.hpp>\n")
	b.WriteString(tu.hdr)
	b.WriteString("namespace drv {\nusing grb::IndexType;\n")
	if tu.uni {
		b.WriteString("using TA=double; using TB=double; using TC=double; using TD=double; using TZ=double; using TM=double;\n")
	} else {
		b.WriteString("using TA=short; using TB=int; using TC=float; using TD=double; using TZ=long double; using TM=unsigned char;\n")
	}
	b.WriteString(tu.pre)
	seen := map[string]bool{}
	for _, c := range tu.cases {
		for _, o := range c.objs {
			k := string(o.k) + o.ty
			if seen[k] {
				continue
			}
			seen[k] = true
			id := mangle(o.ty)
			switch o.k {
			case 'm':
				fmt.Fprintf(&b, "grb::Matrix<%s> mkm_%s(IndexType r, IndexType c) { return grb::Matrix<%s>(r, c); }\n", o.ty, id, o.ty)
				fmt.Fprintf(&b, "IndexType nvm_%s(grb::Matrix<%s> const &m) { return m.nvals(); }\n", id, o.ty)
			case 'v':
				fmt.Fprintf(&b, "grb::Vector<%s> mkv_%s(IndexType n) { return grb::Vector<%s>(n); }\n", o.ty, id, o.ty)
				fmt.Fprintf(&b, "IndexType nvv_%s(grb::Vector<%s> const &m) { return m.nvals(); }\n", id, o.ty)
			}
		}
	}
	for _, c := range tu.cases {
		var ps []string
		for _, o := range c.objs {
			ps = append(ps, o.decl())
		}
		fmt.Fprintf(&b, "void %s(%s) { %s }\n", c.fn, strings.Join(ps, ", "), c.body)
	}
	b.WriteString("}\n")
	return b.String()
}

func mangle(s string) string {
	return strings.NewReplacer(" ", "_", ":", "_", "<", "_", ">", "_").Replace(s)
}

func (tu *TU) load(dir string) error {
	base := filepath.Join(dir, tu.name+"_"+tu.platform)
	if err := os.WriteFile(base+".cpp", []byte(tu.source()), 0o644); err != nil {
		return err
	}
	args := []string{base + ".json", base + ".cpp", filepath.Join(*repo, "src") + "," + dir, "--", "-std=gnu++17", "-w",
		"-I" + filepath.Join(*repo, "src"), "-I" + filepath.Join(*repo, "src/graphblas/platforms", tu.platform)}
	c := exec.Command(*export, args...)
	out, err := c.CombinedOutput()
	if err != nil {
		return fmt.Errorf("%s (%s) does not compile or export: %v\n%s", tu.name, tu.platform, err, tail(string(out), 3000))
	}
	p, err := loadProg(base + ".json")
	if err != nil {
		return err
	}
	tu.p = p
	tu.twins = map[string][]string{}
	return nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// ---------------------------------------------------------------------------

func newI(p *Prog, cfg *Cfg) *I {
	in := &I{p: p, cfg: cfg, events: map[string]*Event{}, counted: map[int]int{}, fnsUsed: map[int]bool{}, unmod: map[string]int{},
		monoid: map[string]bool{"SR.add": true, "Mon": true, "Dup": true}, globLoc: map[int]Loc{}, opqCalls: map[string]int{}, memo: map[memoKey]*memoVal{}, budget: 15000000, reached: map[string]bool{}}
	if *stats {
		in.stats = map[string][3]int{}
	}
	in.dbg = *debugF
	in.thrown = func(st *State, t *Thrown) {}
	if cfg.maxState == 0 {
		cfg.maxState = 4000
	}
	return in
}

// Layout: where a container keeps its parts, discovered by running its
// constructor and nvals() abstractly.
type Layout struct {
	proto   Val
	rows    string // path of the vector of rows ('m')
	bits    string // path of the presence bitmap ('v')
	vals    string // path of the values ('v')
	cntRec  int
	cntFld  int
	cntPath string
}

func walk(v Val, path string, f func(path string, v Val)) {
	f(path, v)
	if r, ok := v.(VRec); ok {
		for i, x := range r.f {
			walk(x, path+"f"+string(rune('0'+i)), f)
		}
	}
}

func (tu *TU) layout(o Obj, cfg *Cfg) (*Layout, error) {
	p := tu.p
	pfx := "m"
	if o.k == 'v' {
		pfx = "v"
	}
	mk := p.byName["mk"+pfx+"_"+mangle(o.ty)]
	nv := p.byName["nv"+pfx+"_"+mangle(o.ty)]
	if mk == nil || nv == nil {
		return nil, fmt.Errorf("layout helpers of %s missing", o.ty)
	}
	in := newI(p, cfg)
	st := &State{}
	in.initGlobals(st)
	var vals []Val
	args := []Val{VN{o.r, 0}}
	if o.k == 'm' {
		args = append(args, VN{o.c, 0})
	}
	in.callFn(st, mk, noLoc, args, func(st *State, v Val) {
		if st.imp == "" {
			vals = append(vals, v)
		}
	})
	if len(vals) != 1 {
		return nil, fmt.Errorf("constructor of %s %s has %d abstract results (%v)", o.k2(), o.ty, len(vals), in.evs2())
	}
	l := &Layout{proto: vals[0], cntRec: -1}
	walk(l.proto, "", func(path string, v Val) {
		if d, ok := v.(VDense); ok && d.sp == o.r {
			if _, isRow := d.p.(VRow); isRow && o.k == 'm' {
				l.rows = path
			} else if o.k == 'v' && d.et >= 0 {
				// the bitmap is the vector of bools that the constructor fills with false; if the
				// scalars are bool as well, it is the one nvals/hasElement reads (decided below)
				if p.Tys[d.et].K == "bool" && l.bits == "" {
					l.bits = path
				} else {
					l.vals = path
				}
			}
		}
	})
	if o.k == 'm' && l.rows == "" || o.k == 'v' && (l.bits == "" || l.vals == "") {
		return nil, fmt.Errorf("the representation of %s %s is not recognised: %s", o.k2(), o.ty, keyOf(l.proto))
	}
	// the counter: the field whose value nvals() returns
	var cands []string
	walk(l.proto, "", func(path string, v Val) {
		if i, ok := v.(VInt); ok && i.k == 0 && path != "" {
			cands = append(cands, path)
		}
	})
	for _, c := range cands {
		in := newI(p, cfg)
		st := &State{}
		in.initGlobals(st)
		ol := st.alloc(setPath(l.proto, c, VIdx{sp: 990, m: SP}, true))
		hit := false
		in.callFn(st, nv, noLoc, []Val{VRef{ol}}, func(st *State, v Val) {
			if x, ok := v.(VIdx); ok && x.sp == 990 {
				hit = true
			}
		})
		if hit {
			par := in.getPath(l.proto, c[:len(c)-2])
			l.cntRec = par.(VRec).rec
			l.cntFld = int(c[len(c)-1] - '0')
			l.cntPath = c
		}
	}
	return l, nil
}
func tmplName(s string) string {
	if i := strings.IndexByte(s, '<'); i > 0 {
		return s[:i]
	}
	return s
}
func (o Obj) k2() string {
	if o.k == 'v' {
		return "Vector"
	}
	return "Matrix"
}
func (in *I) evs2() []string {
	var r []string
	for _, e := range in.events {
		r = append(r, e.kind+": "+e.msg+" at "+e.pos)
	}
	sort.Strings(r)
	return r
}

func (in *I) initGlobals(st *State) {
	for i := range in.p.Globals {
		g := &in.p.Globals[i]
		l := st.alloc(VUnk{})
		in.globLoc[g.D] = l
		if g.X != nil && strings.HasPrefix(in.p.Tys[g.T].N, "const ") || g.X != nil && in.p.Tys[g.T].C != 0 {
			done := false
			nc := len(st.cells)
			in.eval(st, g.X, func(s2 *State, v Val) {
				if !done {
					if r, ok := v.(VRef); ok {
						v = in.read(s2, r.loc)
					}
					st.cells[l.c] = v
					done = true
				}
			})
			if len(st.cells) > nc {
				st.cells = st.cells[:nc]
			}
			st.imp = ""
		}
	}
}

// ---------------------------------------------------------------------------

func (tu *TU) run(cs *Case, cf *Conf, lays map[string]*Layout) *Run {
	r := &Run{tu: tu, cs: cs, cf: cf, locs: map[string]Loc{}, init: map[string]Val{}, lay: map[string]*Layout{}}
	in := newI(tu.p, cf.cfg)
	r.in = in
	f := tu.p.byName[cs.fn]
	if f == nil {
		r.undec = "driver function missing"
		return r
	}
	st := &State{}
	in.initGlobals(st)
	st.facts = append([]string{}, cf.cfg.facts...)
	var args []Val
	for _, o := range cs.objs {
		if d, ok := cf.dimOf[o.nm]; ok {
			o.r, o.c = d[0], d[1]
		}
		switch o.k {
		case 'm', 'v':
			l, err := tu.cachedLayout(o, cf.cfg, lays)
			if err != nil {
				r.undec = err.Error()
				r.over = true
				return r
			}
			r.lay[o.nm] = l
			v := initObj(in, o, l, cf.pres[o.nm])
			if l.cntRec >= 0 {
				// every instance of the same container template counts its elements
				n := tmplName(in.p.Recs[l.cntRec].N)
				for i, q := range in.p.Recs {
					if q != nil && tmplName(q.N) == n && len(q.Fs) == len(in.p.Recs[l.cntRec].Fs) {
						in.counted[i] = l.cntFld
					}
				}
			}
			loc := st.alloc(v)
			r.locs[o.nm] = loc
			r.init[o.nm] = v
			args = append(args, VRef{loc})
		case 'x':
			m := cf.ix[o.nm]
			et := -1
			v := VDense{sp: m.pos, p: m.star, g: m.gap, et: et}
			loc := st.alloc(v)
			r.locs[o.nm] = loc
			r.init[o.nm] = v
			args = append(args, VRef{loc})
		case 'i':
			m, ok := cf.idx[o.nm]
			if !ok {
				m = SP
			}
			if m == SE { // out of range
				args = append(args, VN{o.r, 0})
				continue
			}
			args = append(args, VIdx{sp: o.r, m: m})
		case 'd':
			nt := tyName(tu.p, f, o.nm)
			v := VDense{sp: o.r, p: VTerm{leaf(o.nm + "@*"), "", nt}, g: VTerm{leaf(o.nm + "@g"), "", nt}, et: -1}
			loc := st.alloc(v)
			r.locs[o.nm] = loc
			r.init[o.nm] = v
			args = append(args, VRef{loc})
		case 's':
			v := VTerm{leaf(o.nm + "@*"), "", strings.TrimSpace(tyName(tu.p, f, o.nm))}
			if o.mut {
				loc := st.alloc(v)
				r.locs[o.nm] = loc
				r.init[o.nm] = v
				args = append(args, VRef{loc})
			} else {
				args = append(args, v)
			}
		case 'o':
			args = append(args, VInt{b2i(cf.repl)})
		}
	}
	func() {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(budgetExceeded); ok {
					r.over = true
					r.undec = "state budget exceeded"
					return
				}
				panic(x)
			}
		}()
		in.thrown = func(st *State, t *Thrown) { r.thrown = append(r.thrown, Out{st, 4, nil, t}) }
		in.callFn(st, f, noLoc, args, func(st *State, v Val) {
			in.flush(st)
			r.finals = append(r.finals, st)
		})
	}()
	if len(r.finals) > 0 {
		// An internal error that elements other than the star might raise is
		// taken not to happen; if the star raises it nothing else is left.
		var t []Out
		for _, o := range r.thrown {
			if !strings.HasSuffix(o.thr.ty, "PanicException") {
				t = append(t, o)
			}
		}
		r.thrown = t
	}
	if !r.over {
		cs.check(r)
	}
	return r
}

func tyName(p *Prog, f *Fn, nm string) string {
	for _, q := range f.Ps {
		if q.N == nm {
			return strings.TrimPrefix(p.Tys[p.nonref(q.T)].N, "const ")
		}
	}
	return ""
}

var layMu sync.Mutex

func (tu *TU) cachedLayout(o Obj, cfg *Cfg, lays map[string]*Layout) (*Layout, error) {
	layMu.Lock()
	defer layMu.Unlock()
	k := fmt.Sprintf("%s %c %s %d %d", tu.name+tu.platform, o.k, o.ty, o.r, o.c)
	if l, ok := lays[k]; ok {
		if l == nil {
			return nil, fmt.Errorf("layout of %s failed", k)
		}
		return l, nil
	}
	l, err := tu.layout(o, cfg)
	if err != nil {
		lays[k] = nil
		return nil, err
	}
	lays[k] = l
	return l, nil
}

// initObj gives the container its arbitrary initial contents.
func initObj(in *I, o Obj, l *Layout, pres int) Val {
	v := l.proto
	nt := scalarName(in.p, l, o)
	T := func(n string) Val { return VTerm{leaf(n), "", nt} }
	if o.k == 'm' {
		d := in.getPath(v, l.rows).(VDense)
		tt := d.p.(VRow).tt
		row := VRow{sp: o.c, L: 7, R: 7, gv: T(mleaf(o.nm, true, false)), tt: tt}
		if pres > 0 {
			row.p = tuple(VIdx{sp: o.c, m: SP}, T(mleaf(o.nm, true, true)))
		}
		gap := VRow{sp: o.c, L: 7, R: 7, gv: T(mleaf(o.nm, false, false)), tt: tt, p: tuple(VIdx{sp: o.c, m: SP}, T(mleaf(o.nm, false, true))), pm: true}
		d.p, d.g = row, gap
		v = setPath(v, l.rows, d, true)
	} else {
		d := in.getPath(v, l.bits).(VDense)
		p := int64(0)
		if pres > 0 {
			p = 1
		}
		d.p, d.g = VInt{p}, VTerm{leaf(o.nm + "@gb"), "", "bool"}
		v = setPath(v, l.bits, d, true)
		d = in.getPath(v, l.vals).(VDense)
		d.g = T(vleaf(o.nm, false))
		if pres > 0 {
			d.p = T(vleaf(o.nm, true))
		} else {
			d.p = T(o.nm + "@stale")
		}
		v = setPath(v, l.vals, d, true)
	}
	if l.cntRec >= 0 {
		p := 0
		if pres > 0 {
			p = 1
		}
		v = setPath(v, l.cntPath, VCnt{b: p, g: 1, src: noLoc, rel: true}, true)
	}
	return v
}

func scalarName(p *Prog, l *Layout, o Obj) string {
	in := &I{p: p}
	var t int = -1
	if o.k == 'm' {
		d := in.getPath(l.proto, l.rows).(VDense)
		tt := d.p.(VRow).tt
		if r := p.rec(tt); r != nil && len(r.Ta) == 2 {
			t = r.Ta[1]
		}
	} else {
		t = in.getPath(l.proto, l.vals).(VDense).et
	}
	if t < 0 {
		return "?"
	}
	return p.Tys[t].N
}

// Cell of an output at the distinguished point.
type Cell struct {
	present, maybe bool
	t              VTerm
	bad            string
	cnt            Val
	hasCnt         bool
}

func (r *Run) cell(st *State, o Obj) (Cell, error) {
	var c Cell
	l := r.lay[o.nm]
	v := r.in.read(st, r.locs[o.nm])
	if d, ok := r.cf.dimOf[o.nm]; ok {
		o.r, o.c = d[0], d[1]
	}
	if l.cntRec >= 0 {
		c.cnt = r.in.getPath(v, l.cntPath)
		c.hasCnt = true
	}
	if o.k == 'm' {
		d, ok := r.in.getPath(v, l.rows).(VDense)
		if !ok || d.sp != o.r {
			return c, fmt.Errorf("the number of rows changed")
		}
		row, ok := d.p.(VRow)
		if !ok {
			return c, fmt.Errorf("row is unmodelled")
		}
		if row.sp >= 0 && row.sp != o.c && (row.p != nil || row.L != 1 || row.R != 1) {
			return c, fmt.Errorf("row holds indices of another dimension (%s)", r.in.spName(row.sp))
		}
		c.bad = row.bad
		c.present = row.p != nil
		c.maybe = row.pm && row.p != nil
		if c.present {
			tp, ok := row.p.(VRec)
			if !ok || len(tp.f) != 2 {
				return c, fmt.Errorf("element is unmodelled")
			}
			c.t = toTerm(tp.f[1])
		}
		if g, ok := d.g.(VRow); ok && g.bad != "" && c.bad == "" {
			c.bad = g.bad
		}
		return c, nil
	}
	b, ok1 := r.in.getPath(v, l.bits).(VDense)
	d, ok2 := r.in.getPath(v, l.vals).(VDense)
	if !ok1 || !ok2 || b.sp != o.r || d.sp != o.r {
		return c, fmt.Errorf("the size of the vector changed")
	}
	switch x := b.p.(type) {
	case VInt:
		c.present = x.k != 0
	default:
		c.present, c.maybe = true, true
	}
	if c.present {
		switch d.p.(type) {
		case VTerm, VInt:
			c.t = toTerm(d.p)
		case VUninit:
			c.t = VTerm{leaf("uninitialised"), "", ""}
		default:
			return c, fmt.Errorf("value is unmodelled")
		}
	}
	return c, nil
}

// ---------------------------------------------------------------------------

var pick = func(cs *Case, cfs []*Conf) []*Conf { return cfs }

type result struct {
	r    *Run
	key  string
	secs float64
}

func runSuite(tus []*TU, workers int) []*Run {
	type job struct {
		tu *TU
		cs *Case
		cf *Conf
	}
	var jobs []job
	first := map[string]*TU{}
	for _, tu := range tus {
		for _, cs := range tu.cases {
			// one program, one analysis
			if d := tu.digest(cs); d != "" {
				k := cs.fn + " " + d
				if f := first[k]; f != nil && f.platform != tu.platform {
					f.twins[cs.fn] = append(f.twins[cs.fn], tu.platform)
					continue
				}
				first[k] = tu
			}
			if *only != "" && !strings.Contains(cs.fn, *only) && (!strings.HasPrefix(*only, "=") || cs.fn != (*only)[1:]) {
				continue
			}
			for _, cf := range pick(cs, cs.confs()) {
				jobs = append(jobs, job{tu, cs, cf})
			}
		}
	}
	sort.SliceStable(jobs, func(i, j int) bool { return jobs[i].cf.prio > jobs[j].cf.prio })
	t0 := time.Now()
	lays := map[string]*Layout{}
	res := make([]*Run, len(jobs))
	var next int64 = -1
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= len(jobs) {
					return
				}
				j := jobs[i]
				if *deadline > 0 && time.Since(t0).Seconds() > *deadline {
					res[i] = &Run{tu: j.tu, cs: j.cs, cf: j.cf, in: newI(j.tu.p, j.cf.cfg), undec: "time budget exceeded"}
					continue
				}
				res[i] = j.tu.run(j.cs, j.cf, lays)
				res[i].finalsCompact()
			}
		}()
	}
	wg.Wait()
	return res
}

func (r *Run) finalsCompact() {
	r.in.memo = nil
	r.npaths = len(r.finals) + len(r.thrown)
	if len(r.finals) > 3 {
		r.finals = r.finals[:3]
	}
	if len(r.thrown) > 3 {
		r.thrown = r.thrown[:3]
	}
}

func main() {
	flag.Parse()
	debug.SetGCPercent(400)
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if *checkF != "" {
		os.Exit(checkMain(*checkF, *root))
	}
	t0 := time.Now()
	if *build == "" {
		*build = "/tmp/gcell"
	}
	os.MkdirAll(*build, 0o755)
	tus := suites[*suite]()
	if *plat != "" {
		var k []*TU
		for _, t := range tus {
			if t.platform == *plat {
				k = append(k, t)
			}
		}
		tus = k
	}
	var wg sync.WaitGroup
	errs := make([]error, len(tus))
	sem := make(chan bool, runtime.NumCPU())
	for i := range tus {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			sem <- true
			errs[i] = tus[i].load(*build)
			<-sem
		}(i)
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			fmt.Println("ANALYSIS-BROKEN:", e)
			os.Exit(3)
		}
	}
	t1 := time.Now()
	if *thinF {
		pick = func(cs *Case, cfs []*Conf) []*Conf { return thin(cfs) }
	}
	rs := runSuite(tus, runtime.NumCPU())
	nv, nu := 0, 0
	und := map[string]int{}
	for _, r := range rs {
		if len(r.viol) > 0 {
			nv++
			fmt.Printf("%s/%s [%s]\n", r.tu.platform, r.cs.fn, r.cf.desc)
			for _, v := range r.viol {
				fmt.Println("    ", v)
			}
		}
		if r.undec != "" {
			nu++
			und[r.tu.platform+"/"+r.cs.fn+": "+r.undec]++
		}
		if *verbose {
			for _, e := range r.in.evs2() {
				fmt.Println("      event", e)
			}
		}
	}
	for _, k := range func() []string {
		var a []string
		for k := range und {
			a = append(a, k)
		}
		sort.Strings(a)
		return a
	}() {
		fmt.Println("undecided", k, und[k])
	}
	if *stats {
		st := map[string][2]int{}
		for _, r := range rs {
			x := st[r.tu.platform+"/"+r.cs.fn]
			x[0] += r.in.steps
			x[1]++
			st[r.tu.platform+"/"+r.cs.fn] = x
		}
		for k, x := range st {
			fmt.Println("steps", k, x[0], x[1])
		}
		for _, r := range rs {
			fmt.Println("config", r.tu.platform, r.cs.fn, r.cf.desc, "steps", r.in.steps, "memo", len(r.in.memo), "hits", r.in.hits)
			var ks []string
			for k := range r.in.stats {
				ks = append(ks, k)
			}
			sort.Slice(ks, func(i, j int) bool { return r.in.stats[ks[i]][1] > r.in.stats[ks[j]][1] })
			for i, k := range ks {
				if i < 12 {
					fmt.Println("     ", k, "entered", r.in.stats[k][0], "states", r.in.stats[k][1], "max", r.in.stats[k][2])
				}
			}
		}
	}
	fmt.Printf("%d configurations, %d violating, %d undecided; export %.1fs analysis %.1fs\n", len(rs), nv, nu, t1.Sub(t0).Seconds(), time.Since(t1).Seconds())
}

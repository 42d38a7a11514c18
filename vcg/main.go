package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

type ObRes struct {
	Unit    string `json:"unit"`
	Name    string `json:"name"`
	Kind    string `json:"kind"`
	Pos     string `json:"pos"`
	Verdict string `json:"verdict"`
	Solver  string `json:"solver"`
	Ms      int64  `json:"ms"`
	Detail  string `json:"detail,omitempty"`
	Script  string `json:"script,omitempty"`
	Goal    string `json:"goal,omitempty"`
	Bv      bool   `json:"bv,omitempty"`
}

var noHints bool

type UnitRes struct {
	Dis         []string          `json:"dis,omitempty"`
	By          map[string]string `json:"by,omitempty"`
	Name        string            `json:"name"`
	Kind        string            `json:"kind"`
	Mode        string            `json:"mode,omitempty"`
	Obligations int               `json:"obligations"`
	Discharged  int               `json:"discharged"`
	Inlined     []string          `json:"inlined,omitempty"`
	Used        []string          `json:"used,omitempty"`
	Assumed     []string          `json:"assumed,omitempty"`
	Error       string            `json:"error,omitempty"`
	Ms          int64             `json:"ms"`
}

type Result struct {
	Prop        string         `json:"property"`
	Units       []UnitRes      `json:"units"`
	Failed      []ObRes        `json:"failed"`
	All         []ObRes        `json:"all,omitempty"`
	Obligations int            `json:"obligations"`
	Discharged  int            `json:"discharged"`
	BySolver    map[string]int `json:"by_solver"`
	SolverMs    int64          `json:"solver_ms"`
	Trusted     []string       `json:"trusted"`
	Skipped     []string       `json:"skipped"`
	Error       string         `json:"error,omitempty"`
	WallS       float64        `json:"wall_s"`
}

var propLabel = regexp.MustCompile(`^(C\d\d)`)

func main() {
	repo := flag.String("repo", "/repo", "repository")
	specs := flag.String("specs", "/verif/contracts", "contracts directory")
	prop := flag.String("prop", "", "property id")
	units := flag.String("unit", "", "regexp of units to verify")
	out := flag.String("out", "", "result file (JSON)")
	dump := flag.String("dump", "", "directory for the scripts of failing obligations")
	verbose := flag.Bool("v", false, "verbose")
	timeout := flag.Int("timeout", 20, "seconds per obligation")
	only := flag.String("ob", "", "regexp of obligations to solve")
	noclose := flag.Bool("noclosure", false, "only the listed units, not what they depend on")
	maxfail := flag.Int("maxfail", 8, "stop after so many failed obligations (0: never)")
	deadline := flag.Int("deadline", 0, "seconds after which remaining obligations count as failed (0: none)")
	worker := flag.Bool("worker", false, "internal: verify the units named on standard input")
	jobs := flag.Int("jobs", runtime.NumCPU(), "worker processes")
	loops := flag.Bool("loops", false, "print loop numbering")
	flag.Parse()
	failLimit = *maxfail
	if *deadline > 0 {
		stopAt = time.Now().Add(time.Duration(*deadline) * time.Second)
	}
	if *worker {
		semR, semW = os.NewFile(3, "tokens"), os.NewFile(4, "tokens")
	} else {
		var err error
		if semR, semW, err = os.Pipe(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		for i := 0; i < runtime.NumCPU()+1; i++ {
			release()
		}
	}
	t0 := time.Now()
	res := &Result{Prop: *prop, BySolver: map[string]int{}}
	finish := func() {
		res.WallS = time.Since(t0).Seconds()
		if *out != "" {
			b, _ := json.MarshalIndent(res, "", " ")
			if err := os.WriteFile(*out, b, 0o644); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(3)
			}
		}
	}
	fail := func(err error) {
		res.Error = err.Error()
		fmt.Fprintln(os.Stderr, "vcg:", err)
		finish()
		os.Exit(3)
	}
	P = NewPool()
	prog, err := Load(*repo)
	if err != nil {
		fail(err)
	}
	sp, err := LoadSpecs(*specs)
	if err != nil {
		fail(err)
	}
	if b, err := os.ReadFile(filepath.Join(*specs, "hints.json")); err == nil {
		var h struct {
			Reach map[string][]string
			Units map[string]*Hint
		}
		if json.Unmarshal(b, &h) == nil {
			sp.reach, sp.hints = h.Reach, h.Units
		}
	}
	if cacheDir != "" {
		os.MkdirAll(cacheDir, 0o755)
	}
	if *dump != "" {
		os.MkdirAll(*dump, 0o755)
	}
	var todo []string
	if *units != "" {
		re := regexp.MustCompile("^(?:" + *units + ")$")
		for k, c := range sp.contracts {
			if !c.extern && re.MatchString(k) {
				todo = append(todo, k)
			}
		}
		for _, k := range sp.lemOrder {
			if !sp.lemmas[k].axiom && re.MatchString("lemma "+k) {
				todo = append(todo, "lemma "+k)
			}
		}
		for k, c := range sp.contracts {
			if c.extern {
				us, _ := sp.refinements(prog, k)
				for _, n := range us {
					if re.MatchString(n) {
						todo = append(todo, n)
					}
				}
			}
		}
		for k, f := range sp.fns {
			if f.rec && re.MatchString("fn "+k) {
				todo = append(todo, "fn "+k)
			}
		}
		sort.Strings(todo)
	} else {
		todo = sp.unitsFor(prog, *prop)
	}
	done := map[string]bool{}
	trusted := map[string]bool{}
	var mine *regexp.Regexp
	if *only != "" {
		mine = regexp.MustCompile(*only)
	}
	if *worker {
		if pf := os.Getenv("VCG_PROF"); pf != "" { // development only
			f, _ := os.Create(fmt.Sprintf("%s.%d", pf, os.Getpid()))
			pprof.StartCPUProfile(f)
			defer pprof.StopCPUProfile()
		}
		in := bufio.NewScanner(os.Stdin)
		enc := json.NewEncoder(os.NewFile(5, "results"))
		for in.Scan() {
			r := &Result{BySolver: map[string]int{}}
			tr := map[string]bool{}
			var ds []string
			if u := verifyUnit(prog, sp, in.Text(), r, *timeout, *prop, *verbose, mine, *dump, *loops, tr); u != nil && !*noclose {
				ds = u.deps(prog, sp, tr, *prop)
			}
			r.Trusted = sortedKeys(tr)
			if err := enc.Encode(WorkerRes{r, ds}); err != nil {
				os.Exit(3)
			}
		}
		return
	}
	type answer struct {
		w    *workerProc
		name string
		r    WorkerRes
		err  error
	}
	nw := *jobs
	if *noclose && len(todo) < nw {
		nw = len(todo)
	}
	var idle []*workerProc
	for i := 0; i < nw; i++ {
		w, err := startWorker(semR, semW)
		if err != nil {
			fail(err)
		}
		idle = append(idle, w)
	}
	// long units first; units that the closure reached before are started before
	// it gets to them (a matter of speed: only what is reached counts)
	roots := append([]string{}, todo...)
	if *prop != "" && *units == "" {
		for _, n := range sp.reach[*prop] {
			if isUnit(prog, sp, n) {
				todo = append(todo, n)
			}
		}
	}
	price := func(n string) int {
		if h := sp.hints[n]; h != nil {
			return h.Ms
		}
		return 4000
	}
	answers := make(chan answer)
	busy, nfailed := 0, 0
	got := map[string]WorkerRes{}
	for len(todo) > 0 || busy > 0 {
		if failLimit > 0 && nfailed >= failLimit {
			todo = nil
		}
		sort.SliceStable(todo, func(i, j int) bool { return price(todo[i]) > price(todo[j]) })
		for len(todo) > 0 && len(idle) > 0 {
			name := todo[0]
			todo = todo[1:]
			if done[name] {
				continue
			}
			done[name] = true
			w := idle[len(idle)-1]
			idle = idle[:len(idle)-1]
			busy++
			go func() {
				r, err := w.do(name)
				answers <- answer{w, name, r, err}
			}()
		}
		if busy == 0 {
			continue
		}
		a := <-answers
		busy--
		if a.err != nil {
			a.r.R = &Result{}
			a.r.R.Failed = []ObRes{{Unit: a.name, Name: "run", Kind: "error", Verdict: "error", Detail: "the verifier stopped: " + a.err.Error()}}
			a.r.R.Units = []UnitRes{{Name: a.name, Kind: "function", Obligations: 1, Error: a.err.Error()}}
			if w, err := startWorker(semR, semW); err == nil {
				idle = append(idle, w)
			} else {
				fail(err)
			}
		} else {
			idle = append(idle, a.w)
		}
		got[a.name] = a.r
		nfailed += len(a.r.R.Failed)
		for _, d := range a.r.Deps {
			if !done[d] {
				todo = append(todo, d)
			}
		}
	}
	reached := map[string]bool{}
	for len(roots) > 0 {
		n := roots[0]
		roots = roots[1:]
		a, ok := got[n]
		if !ok || reached[n] {
			continue
		}
		reached[n] = true
		roots = append(roots, a.Deps...)
		res.Units = append(res.Units, a.R.Units...)
		res.Failed = append(res.Failed, a.R.Failed...)
		res.SolverMs += a.R.SolverMs
		for k, n := range a.R.BySolver {
			res.BySolver[k] += n
		}
		for _, t := range a.R.Trusted {
			trusted[t] = true
		}
	}
	for _, w := range idle {
		w.in.Close()
		w.cmd.Wait()
	}
	retry(res, *timeout, *verbose)
	sort.Slice(res.Units, func(i, j int) bool { return res.Units[i].Name < res.Units[j].Name })
	sort.SliceStable(res.Failed, func(i, j int) bool { return res.Failed[i].Unit < res.Failed[j].Unit })
	for _, u := range res.Units {
		res.Obligations += u.Obligations
		res.Discharged += u.Discharged
	}
	res.Trusted = sortedKeys(trusted)
	finish()
	fmt.Printf("%s: %d units, %d obligations, %d discharged, %d failed, %.1fs\n", *prop, len(res.Units), res.Obligations, res.Discharged, len(res.Failed), time.Since(t0).Seconds())
	if len(res.Failed) > 0 {
		os.Exit(1)
	}
}

func isUnit(prog *Program, sp *Specs, n string) bool {
	switch {
	case strings.HasPrefix(n, "lemma "):
		l := sp.lemmas[n[6:]]
		return l != nil && !l.axiom
	case strings.HasPrefix(n, "fn "):
		f := sp.fns[n[3:]]
		return f != nil && f.rec
	case strings.HasPrefix(n, "refine "):
		i := strings.LastIndexByte(n, '.')
		for _, r := range sp.refines {
			if r.typ == n[7:i] && sp.contracts[r.iface+"."+n[i+1:]] != nil {
				return true
			}
		}
		return false
	}
	c := sp.contracts[n]
	return c != nil && !c.extern && prog.fn(n) != nil
}

// retry gives the few obligations left a second, longer attempt with the machine to themselves
func retry(res *Result, timeout int, verbose bool) {
	if len(res.Failed) > 8 {
		return
	}
	for _, f := range res.Failed {
		if f.Script == "" || f.Verdict != "unknown" {
			return
		}
	}
	var left []ObRes
	for i, f := range res.Failed {
		if len(left) > 0 {
			left = append(left, res.Failed[i:]...)
			break
		}
		b, err := os.ReadFile(f.Script)
		if err != nil {
			left = append(left, f)
			continue
		}
		j := &job{script: strings.TrimSuffix(string(b), "(check-sat)\n"), bv: f.Bv, timeout: 2 * timeout, hard: true}
		solveAll([]*job{j})
		if verbose {
			fmt.Printf("  retry %s %s %s %s %dms\n", f.Unit, f.Name, j.v.Res, j.v.Solver, j.v.Ms)
		}
		res.SolverMs += j.v.Ms
		if j.v.Res != "unsat" {
			left = append(left, f)
			continue
		}
		os.Remove(f.Script)
		res.BySolver[j.v.Solver]++
		for k := range res.Units {
			if res.Units[k].Name == f.Unit {
				res.Units[k].Discharged++
			}
		}
	}
	res.Failed = left
}

// WorkerRes is what a worker process says about one unit
type WorkerRes struct {
	R    *Result
	Deps []string
}

type workerProc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *json.Decoder
}

func startWorker(r, w *os.File) (*workerProc, error) {
	self, err := os.Executable()
	if err != nil {
		return nil, err
	}
	var args []string
	flag.Visit(func(f *flag.Flag) {
		if f.Name != "unit" && f.Name != "out" && f.Name != "jobs" && f.Name != "deadline" {
			args = append(args, "-"+f.Name+"="+f.Value.String())
		}
	})
	if !stopAt.IsZero() {
		args = append(args, fmt.Sprintf("-deadline=%d", int(time.Until(stopAt).Seconds())+1))
	}
	cmd := exec.Command(self, append(args, "-worker")...)
	cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
	pr, pw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	cmd.ExtraFiles = []*os.File{r, w, pw}
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	pw.Close()
	return &workerProc{cmd, in, json.NewDecoder(pr)}, nil
}

func (w *workerProc) do(name string) (r WorkerRes, err error) {
	if _, err = fmt.Fprintln(w.in, name); err != nil {
		return
	}
	err = w.out.Decode(&r)
	if err != nil {
		w.cmd.Process.Kill()
	}
	return
}

// what the proof of a unit relies on
func (u *Unit) deps(prog *Program, sp *Specs, trusted map[string]bool, prop string) []string {
	var out []string
	use := map[string]bool{}
	for _, d := range u.Used {
		use[d] = true
	}
	if u.x != nil {
		for d := range u.x.used {
			use[d] = true
		}
	}
	for _, d := range sortedKeys(use) {
		if strings.HasPrefix(d, "lemma ") {
			l := sp.lemmas[d[6:]]
			if l == nil {
				continue
			}
			if l.axiom {
				trusted["axiom "+l.name] = true
				continue
			}
			out = append(out, d)
			continue
		}
		c := sp.contracts[d]
		if c == nil {
			continue
		}
		if c.extern {
			if us, _ := sp.refinements(prog, d); len(us) > 0 {
				if prop == "" || contains(c.props, prop) {
					out = append(out, us...)
					for _, r := range sp.refines {
						for _, e := range r.except {
							if strings.HasPrefix(d, r.iface+".") {
								trusted["test double "+e+" is left out of "+r.iface] = true
							}
						}
					}
					continue
				}
				trusted["contract of "+d+" (its refinement is proved for "+strings.Join(c.props, ", ")+")"] = true
				continue
			}
		}
		if c.extern || c.flags["trusted"] {
			trusted["contract of "+d] = true
			continue
		}
		out = append(out, d)
	}
	if u.x != nil {
		for r := range u.x.reveal {
			if f := sp.fns[r]; f != nil && f.rec {
				out = append(out, "fn "+r)
			}
		}
	}
	for _, a := range u.Assumed {
		trusted[a] = true
	}
	sort.Strings(out)
	return out
}

func verifyUnit(prog *Program, sp *Specs, name string, res *Result, timeout int, prop string, verbose bool, mine *regexp.Regexp, dump string, loops bool, trusted map[string]bool) *Unit {
	t0 := time.Now()
	var gen func(dis map[string]bool) *Unit
	ur := UnitRes{Name: name, Kind: "function"}
	switch {
	case strings.HasPrefix(name, "lemma "):
		l := sp.lemmas[name[6:]]
		ur.Kind, ur.Mode = "lemma", l.mode
		gen = func(map[string]bool) *Unit { return verifyLemma(prog, sp, l) }
	case strings.HasPrefix(name, "refine "):
		ur.Kind = "refinement"
		i := strings.LastIndexByte(name, '.')
		for _, r := range sp.refines {
			ic := sp.contracts[r.iface+"."+name[i+1:]]
			if r.typ != name[7:i] || ic == nil {
				continue
			}
			if _, missing := sp.refinements(prog, r.iface+"."+name[i+1:]); len(missing) > 0 {
				res.Failed = append(res.Failed, ObRes{Unit: name, Name: "closed", Kind: "closed", Verdict: "error", Detail: "implementations of " + r.iface + " without refinement: " + strings.Join(missing, ", ")})
				ur.Obligations = 1
				ur.Error = "not closed"
				res.Units = append(res.Units, ur)
				return nil
			}
			gen = func(map[string]bool) *Unit { return verifyRefine(prog, sp, r, ic, name[i+1:]) }
		}
	case strings.HasPrefix(name, "fn "):
		ur.Kind = "termination"
		gen = func(map[string]bool) *Unit { return verifyRec(prog, sp, sp.fns[name[3:]]) }
	default:
		con := sp.contracts[name]
		fi := prog.fn(name)
		ur.Mode = con.mode
		if fi == nil {
			res.Failed = append(res.Failed, ObRes{Unit: name, Name: "missing", Kind: "missing", Verdict: "error", Detail: "the function under contract no longer exists"})
			ur.Error = "missing"
			ur.Obligations = 1
			res.Units = append(res.Units, ur)
			return nil
		}
		if con.flags["trusted"] {
			trusted["contract of "+name] = true
			return nil
		}
		if con.flags["inline"] {
			return nil
		}
		gen = func(d map[string]bool) *Unit { return verifyFunc(prog, sp, con, fi, d) }
	}
	hint := sp.hints[name]
	if hint == nil || noHints {
		hint = &Hint{}
	}
	dis := map[string]bool{}
	for _, d := range hint.Dis {
		dis[d] = true
	}
	nres := *res
	nres.BySolver = map[string]int{}
	for k, n := range res.BySolver {
		nres.BySolver[k] = n
	}
	var u *Unit
	// Houdini over candidate invariants
	for round := 0; ; round++ {
		u = gen(dis)
		if u.Err != "" {
			break
		}
		var js []*job
		var os_ []*Obligation
		for _, o := range u.Obls {
			if o.cand == "" {
				continue
			}
			s, errs := u.script(o)
			if len(errs) > 0 {
				dis[o.cand] = true
				continue
			}
			js = append(js, &job{script: s, bv: o.bv, timeout: 3, quick: true})
			os_ = append(os_, o)
		}
		if len(js) == 0 {
			break
		}
		solveAll(js)
		bad := 0
		for i, j := range js {
			if j.v.Res != "unsat" {
				if !dis[os_[i].cand] {
					bad++
				}
				dis[os_[i].cand] = true
				res.SolverMs += j.v.Ms
			}
		}
		if bad == 0 {
			break
		}
		if round > 12 {
			u.Err = "candidate invariants did not stabilise"
			break
		}
	}
	if loops {
		for _, l := range u.Loops {
			fmt.Println("  ", l)
		}
	}
	if u.Err != "" {
		ur.Error = u.Err
		ur.Obligations = 1
		res.Units = append(res.Units, ur)
		res.Failed = append(res.Failed, ObRes{Unit: name, Name: "contract", Kind: "error", Verdict: "error", Detail: u.Err})
		if verbose {
			fmt.Printf("%s: ERROR %s\n", name, u.Err)
		}
		return u
	}
	type rec struct {
		o *Obligation
		j *job
		a []*job
		e string
	}
	var recs []*rec
	var js []*job
	for _, o := range u.Obls {
		if o.cand != "" {
			continue
		}
		if prop != "" {
			if i := strings.LastIndexByte(o.Name, ':'); i >= 0 {
				if m := propLabel.FindString(o.Name[i+1:]); m != "" && m != prop {
					continue
				}
			}
		}
		if mine != nil && !mine.MatchString(o.Name) {
			continue
		}
		if o.triv {
			ur.Obligations++
			ur.Discharged++
			res.BySolver["syntactic"]++
			continue
		}
		r := &rec{o: o}
		s, errs := u.script(o)
		if len(errs) > 0 {
			r.e = errs[0]
		}
		tmo := timeout
		if o.timeout > 0 {
			tmo = o.timeout
		}
		r.j = &job{script: s, bv: o.bv, timeout: tmo, first: hint.By[o.Name]}
		if !o.bv && !o.expectSat && len(o.facts) > 40 {
			r.j.slices = []string{u.sliced(o, 1.2, 2), u.sliced(o, 2, 4)}
		}
		if o.expectSat {
			r.j.quick = true
			r.j.timeout = 2
			if o.bv {
				r.j.timeout = 5
			}
			for _, a := range o.alts {
				s, _ := u.script(a)
				r.a = append(r.a, &job{script: s, bv: o.bv, timeout: 2, quick: true})
			}
		}
		recs = append(recs, r)
		if r.e == "" {
			js = append(js, r.j)
			js = append(js, r.a...)
		}
	}
	solveAll(js)
	for _, r := range recs {
		ok := false
		v := r.j.v
		detail := v.Out
		if r.e != "" {
			v = Verdict{Res: "error"}
			detail = r.e
		} else if r.o.expectSat {
			ok = v.Res != "unsat" && v.Res != "error"
			for _, a := range r.a {
				if a.v.Res != "unsat" && a.v.Res != "error" {
					ok = true
				}
			}
			if !ok {
				detail = "assumptions are contradictory: the contract would hold vacuously"
			}
		} else {
			ok = v.Res == "unsat"
		}
		ur.Obligations++
		res.SolverMs += v.Ms
		or := ObRes{Unit: name, Name: r.o.Name, Kind: r.o.Kind, Pos: r.o.Pos, Verdict: v.Res, Solver: v.Solver, Ms: v.Ms, Detail: detail, Bv: r.o.bv}
		if v.Res == "" {
			or.Verdict, or.Detail = "skipped", "not tried: too many failures or out of time"
		}
		if r.o.unsup != "" {
			or.Detail = r.o.unsup
		}
		if ok {
			ur.Discharged++
			if !r.o.expectSat {
				res.BySolver[v.Solver]++
				if v.Solver != "z3-5.3" || v.Ms > 3000 {
					if ur.By == nil {
						ur.By = map[string]string{}
					}
					ur.By[r.o.Name] = v.Solver
				}
			}
		} else {
			or.Goal = short(r.o.goal.String(), 600)
			if dump != "" {
				fn := filepath.Join(dump, clean(name)+"__"+clean(r.o.Name)+".smt2")
				os.WriteFile(fn, []byte(r.j.script+"(check-sat)\n"), 0o644)
				or.Script = fn
			}
			res.Failed = append(res.Failed, or)
		}
		if verbose && (!ok || v.Ms > 3000 || os.Getenv("VCG_ALL") != "") {
			st := "ok"
			if !ok {
				st = "FAIL"
			}
			if r.o.unsup != "" {
				detail += " " + r.o.unsup
			}
			fmt.Printf("  %-4s %s %s [%s] %s %s %dms %s\n", st, name, r.o.Name, r.o.Pos, v.Res, v.Solver, v.Ms, detail)
			if !ok {
				fmt.Printf("       goal %s\n", short(r.o.goal.String(), 400))
			}
		}
	}
	if ur.Discharged < ur.Obligations && len(hint.Dis) > 0 {
		// perhaps for want of a candidate that failed before
		noHints = true
		defer func() { noHints = false }()
		*res = nres
		return verifyUnit(prog, sp, name, res, timeout, prop, verbose, mine, dump, loops, trusted)
	}
	for c := range dis {
		ur.Dis = append(ur.Dis, c)
	}
	sort.Strings(ur.Dis)
	ur.Inlined = u.Inlined
	ur.Used = u.Used
	ur.Assumed = u.Assumed
	ur.Ms = time.Since(t0).Milliseconds()
	res.Units = append(res.Units, ur)
	if verbose {
		fmt.Printf("%s: %d/%d  %.1fs\n", name, ur.Discharged, ur.Obligations, time.Since(t0).Seconds())
	}
	return u
}

func short(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func contains(l []string, s string) bool {
	for _, v := range l {
		if v == s {
			return true
		}
	}
	return false
}

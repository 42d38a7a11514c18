// Concrete search: property checks on the real code with independently
// written oracles.  Used to find a failing input when a proof obligation
// fails, to replay such inputs, to test the assumed contracts of external
// functions, and as the labelled bounded stand-in for code that is not under
// contract.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	log "github.com/sirupsen/logrus"
)

type R struct {
	*rand.Rand
	i int // case index: small indices produce small, boundary oriented cases
}

func (r *R) pick(n int) bool { return r.Intn(n) == 0 }

type kase struct {
	prop, name string
	weight     int
	gen        func(r *R) any
	run        func(in any) error
	load       func(b []byte) (any, error)
	shrink     func(in any) []any
}

var cases []*kase

func reg[T any](prop, name string, weight int, gen func(r *R) T, run func(in T) error, shrink func(in T) []T) {
	k := &kase{prop: prop, name: name, weight: weight}
	k.gen = func(r *R) any { return gen(r) }
	k.run = func(in any) error { return run(in.(T)) }
	k.load = func(b []byte) (any, error) {
		var t T
		err := json.Unmarshal(b, &t)
		return t, err
	}
	if shrink != nil {
		k.shrink = func(in any) []any {
			var out []any
			for _, v := range shrink(in.(T)) {
				out = append(out, v)
			}
			return out
		}
	}
	cases = append(cases, k)
}

type Failure struct {
	Property string          `json:"property"`
	Case     string          `json:"case"`
	Index    int             `json:"index"`
	Error    string          `json:"error"`
	Input    json.RawMessage `json:"input"`
}

type Report struct {
	Property    string         `json:"property"`
	Seed        int64          `json:"seed"`
	Evaluations int64          `json:"evaluations"`
	Distinct    int64          `json:"distinct_nontrivial"`
	PerCase     map[string]int `json:"per_case"`
	Samples     []any          `json:"samples"`
	Failures    []Failure      `json:"failures"`
	WallS       float64        `json:"wall_s"`
}

func guard(k *kase, in any) (err error) {
	defer func() {
		if p := recover(); p != nil {
			st := string(debug.Stack())
			at := ""
			for _, l := range strings.Split(st, "\n") {
				l = strings.TrimSpace(l)
				if strings.HasPrefix(l, "/repo/") {
					at = " at " + strings.Fields(l)[0]
					break
				}
			}
			err = fmt.Errorf("panic: %v%s", p, at)
		}
	}()
	return k.run(in)
}

func exit(code int) {
	cleanup()
	os.Exit(code)
}

func main() {
	prop := flag.String("prop", "", "property")
	seed := flag.Int64("seed", 1, "seed")
	budget := flag.Float64("budget", 10, "seconds")
	out := flag.String("out", "", "report file")
	replay := flag.String("replay", "", "failure file to replay")
	only := flag.String("case", "", "only this case")
	maxFail := flag.Int("maxfail", 1, "failures reported per case")
	list := flag.Bool("list", false, "list cases")
	flag.Parse()
	log.SetOutput(io.Discard)
	log.SetLevel(log.PanicLevel)
	quiet()
	defer cleanup()
	debug.SetMemoryLimit(10 << 30)
	debug.SetGCPercent(600)
	if *list {
		for _, k := range cases {
			fmt.Println(k.prop, k.name)
		}
		return
	}
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Println(err)
			exit(3)
		}
		var f Failure
		if err = json.Unmarshal(b, &f); err != nil {
			fmt.Println(err)
			exit(3)
		}
		for _, k := range cases {
			if k.prop == f.Property && k.name == f.Case {
				in, err := k.load(f.Input)
				if err != nil {
					fmt.Println(err)
					exit(3)
				}
				if err = guard(k, in); err != nil {
					fmt.Printf("FAIL %s/%s: %v\n", k.prop, k.name, err)
					exit(1)
				}
				fmt.Printf("ok %s/%s\n", k.prop, k.name)
				return
			}
		}
		fmt.Println("no such case")
		exit(3)
	}

	t0 := time.Now()
	rep := &Report{Property: *prop, Seed: *seed, PerCase: map[string]int{}}
	var mine []*kase
	total := 0
	for _, k := range cases {
		if k.prop == *prop && (*only == "" || *only == k.name) {
			mine = append(mine, k)
			total += k.weight
		}
	}
	var mu sync.Mutex
	write := func() {
		rep.WallS = time.Since(t0).Seconds()
		b, _ := json.MarshalIndent(rep, "", " ")
		if *out != "" {
			os.WriteFile(*out, b, 0o644)
		} else {
			os.Stdout.Write(append(b, '\n'))
		}
	}
	nw := runtime.NumCPU()
	type busy struct {
		k  *kase
		in any
		i  int
		t  time.Time
	}
	cur := make([]busy, nw)
	go func() { // watchdog
		for {
			time.Sleep(time.Second)
			mu.Lock()
			for _, b := range cur {
				if b.k != nil && time.Since(b.t) > 60*time.Second {
					j, _ := json.Marshal(b.in)
					rep.Failures = append(rep.Failures, Failure{b.k.prop, b.k.name, b.i, "does not terminate within 60 s", j})
					write()
					exit(1)
				}
			}
			mu.Unlock()
		}
	}()
	seen := map[uint64]bool{}
	for _, k := range mine {
		k := k
		end := time.Now().Add(time.Duration(*budget * float64(k.weight) / float64(total) * float64(time.Second)))
		var next int64 = -1
		var fails []Failure
		var stop atomic.Bool
		var wg sync.WaitGroup
		n := 0
		for w := 0; w < nw; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				for !stop.Load() && (time.Now().Before(end) || atomic.LoadInt64(&next) < 64) {
					i := int(atomic.AddInt64(&next, 1))
					h := fnv.New64a()
					fmt.Fprintf(h, "%s/%s/%d/%d", k.prop, k.name, *seed, i)
					r := &R{rand.New(rand.NewSource(int64(h.Sum64()))), i}
					in := k.gen(r)
					mu.Lock()
					cur[w] = busy{k, in, i, time.Now()}
					mu.Unlock()
					err := guard(k, in)
					mu.Lock()
					cur[w].k = nil
					rep.Evaluations++
					n++
					if i < 20000 {
						hh := fnv.New64a()
						b, _ := json.Marshal(in)
						fmt.Fprintf(hh, "%s", k.name)
						hh.Write(b)
						if len(b) > 12 {
							seen[hh.Sum64()] = true
						}
						if i == 3 && len(b) < 1500 {
							rep.Samples = append(rep.Samples, map[string]any{"case": k.name, "input": json.RawMessage(b)})
						}
					}
					if err != nil {
						j, _ := json.Marshal(in)
						fails = append(fails, Failure{k.prop, k.name, i, err.Error(), j})
						if len(fails) >= 8*(*maxFail) {
							stop.Store(true)
						}
						if len(fails) >= *maxFail {
							stop.Store(true)
						}
					}
					mu.Unlock()
				}
			}(w)
		}
		wg.Wait()
		rep.PerCase[k.name] = n
		sort.Slice(fails, func(a, b int) bool { return fails[a].Index < fails[b].Index })
		if len(fails) > *maxFail {
			fails = fails[:*maxFail]
		}
		for _, f := range fails {
			rep.Failures = append(rep.Failures, minimise(k, f))
		}
	}
	rep.Distinct = int64(len(seen))
	write()
	if len(rep.Failures) > 0 {
		exit(1)
	}
}

func minimise(k *kase, f Failure) Failure {
	if k.shrink == nil {
		return f
	}
	in, err := k.load(f.Input)
	if err != nil {
		return f
	}
	// the failure must survive the round trip through JSON
	e := guard(k, in)
	if e == nil {
		return f
	}
	t := time.Now()
	for progress := true; progress && time.Since(t) < 5*time.Second; {
		progress = false
		for _, c := range k.shrink(in) {
			if time.Since(t) > 5*time.Second {
				break
			}
			if e2 := guard(k, c); e2 != nil {
				in, e, progress = c, e2, true
				break
			}
		}
	}
	j, _ := json.Marshal(in)
	f.Input, f.Error = j, e.Error()
	return f
}

// the ways to drop part of a list
func chunksOff[E any](s []E) [][]E {
	var out [][]E
	for n := len(s) / 2; n >= 1; n /= 2 {
		for i := 0; i+n <= len(s); i += n {
			t := append(append([]E{}, s[:i]...), s[i+n:]...)
			out = append(out, t)
			if len(out) > 200 {
				return out
			}
		}
	}
	return out
}

package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

type Verdict struct {
	Res    string // unsat, sat, unknown, error
	Solver string
	Ms     int64
	Out    string
}

type job struct {
	script  string
	slices  []string // the goal with fewer hypotheses
	bv      bool
	timeout int // seconds per stage
	quick   bool
	first   string // what discharged this obligation before
	hard    bool   // second attempt: everything at once
	v       Verdict
}

var cacheDir = os.Getenv("VCG_CACHE") // development only

type solverCfg struct {
	slice int // 0: all hypotheses
	name  string
	head  string
	cmd   []string
}

func cfgs(bv bool) []solverCfg {
	if bv {
		return []solverCfg{
			{0, "z3-5.3", "", []string{"z3-new", "-in"}},
			{0, "cvc5-1.1", "", []string{"cvc5", "--lang", "smt2"}},
			{0, "z3-4.8", "", []string{"z3", "-in"}},
			{0, "cvc5-1.1-bb", "", []string{"cvc5", "--lang", "smt2", "--bitblast=eager"}},
		}
	}
	em := "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n"
	return []solverCfg{
		{0, "z3-5.3", em, []string{"z3-new", "-in"}},
		{0, "z3-4.8", em, []string{"z3", "-in"}},
		{0, "cvc5-1.1", "", []string{"cvc5", "--lang", "smt2"}},
		{0, "z3-5.3-a2", em + "(set-option :smt.arith.solver 2)\n(set-option :smt.random_seed 7)\n", []string{"z3-new", "-in"}},
		{0, "z3-5.3-r", em + "(set-option :smt.random_seed 13)\n(set-option :smt.qi.eager_threshold 100)\n(set-option :smt.case_split 3)\n", []string{"z3-new", "-in"}},
	}
}

func runSolver(ctx context.Context, c solverCfg, script string, secs int) Verdict {
	t0 := time.Now()
	// the limit is processor time, so that a loaded machine does not change verdicts
	ctx, cancel := context.WithTimeout(ctx, time.Duration(5*secs+5)*time.Second)
	defer cancel()
	args := append([]string{}, c.cmd[1:]...)
	if strings.HasPrefix(c.name, "z3") {
		args = append([]string{"-memory:4000"}, args...)
	}
	args = append([]string{"-c", "ulimit -t " + strconv.Itoa(secs) + "; exec \"$@\"", "sh", c.cmd[0]}, args...)
	cmd := exec.CommandContext(ctx, "/bin/sh", args...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	cmd.Stdin = strings.NewReader(c.head + script + "(check-sat)\n")
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	s := out.String()
	v := Verdict{Solver: c.name, Ms: time.Since(t0).Milliseconds(), Res: "unknown"}
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if l == "unsat" || l == "sat" {
			v.Res = l
			break
		}
		if strings.HasPrefix(l, "(error") && v.Res == "unknown" {
			v.Res = "error"
			v.Out = l
			break
		}
	}
	if v.Res == "unknown" && (ctx.Err() != nil || !strings.Contains(s, "unknown")) {
		v.Out = "timeout"
	}
	return v
}

// tokens for running a solver, shared between worker processes
var semR, semW *os.File

func acquire() {
	var b [1]byte
	for {
		n, err := semR.Read(b[:])
		if n == 1 || err != nil {
			return
		}
	}
}
func release() { semW.Write([]byte{'.'}) }

func solveOne(j *job) {
	key := ""
	if cacheDir != "" {
		h := sha256.Sum256([]byte(j.script))
		key = filepath.Join(cacheDir, hex.EncodeToString(h[:16]))
		if b, err := os.ReadFile(key); err == nil {
			j.v = Verdict{Res: "unsat", Solver: string(b)}
			return
		}
	}
	cs := cfgs(j.bv)
	stage := func(list []solverCfg, secs int) bool {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		ch := make(chan Verdict, len(list))
		for _, c := range list {
			c := c
			go func() {
				acquire()
				var v Verdict
				if ctx.Err() == nil {
					sc := j.script
					if c.slice > len(j.slices) {
						sc = "(assert false)\n(exit)\n"
						ch <- Verdict{Res: "unknown", Solver: c.name}
						release()
						return
					}
					if c.slice > 0 {
						sc = j.slices[c.slice-1]
					}
					v = runSolver(ctx, c, sc, secs)
				} else {
					v = Verdict{Res: "unknown", Solver: c.name}
				}
				release()
				ch <- v
			}()
		}
		got := false
		for range list {
			v := <-ch
			if got {
				continue
			}
			if v.Res == "unsat" {
				j.v = v
				got = true
				cancel()
				continue
			}
			if v.Res == "error" && j.v.Res != "sat" || j.v.Res == "" || v.Res == "sat" {
				j.v = v
			}
		}
		return got
	}
	if j.quick {
		stage(cs[:1], j.timeout)
	} else if j.hard {
		stage(cs, j.timeout)
	} else if j.first != "" && stage(named(cs, j.first), j.timeout) {
	} else {
		f := 3
		if j.timeout < f {
			f = j.timeout
		}
		if j.bv {
			f = j.timeout
			stage(cs[:2], f)
			if j.v.Res != "unsat" && j.v.Res != "sat" {
				stage(cs[2:], f)
			}
		} else if !stage(cs[:1], f) {
			var sl []solverCfg
			for i := range j.slices {
				for _, c := range []solverCfg{cs[0], cs[2]} {
					c.slice = i + 1
					c.name += "-s" + string(rune('1'+i))
					sl = append(sl, c)
				}
			}
			if len(sl) == 0 || !stage(sl, f) {
				stage(cs, j.timeout)
			}
		}
	}
	if key != "" && j.v.Res == "unsat" {
		os.WriteFile(key, []byte(j.v.Solver), 0o644)
	}
}

func named(cs []solverCfg, name string) []solverCfg {
	for _, c := range cs {
		if c.name == name {
			return []solverCfg{c}
		}
		for i := 1; i <= 2; i++ {
			if c.name+"-s"+string(rune('0'+i)) == name {
				c.name, c.slice = name, i
				return []solverCfg{c}
			}
		}
	}
	return nil
}

// Hint: how a unit was discharged before (only a matter of speed)
type Hint struct {
	Ms  int               `json:"ms,omitempty"`
	Dis []string          `json:"dis,omitempty"`
	By  map[string]string `json:"by,omitempty"`
}

var failLimit int
var stopAt time.Time

func solveAll(js []*job) {
	var wg sync.WaitGroup
	var bad int32
	lim := make(chan struct{}, 8)
	for _, j := range js {
		wg.Add(1)
		j := j
		go func() {
			defer wg.Done()
			lim <- struct{}{}
			defer func() { <-lim }()
			if failLimit > 0 && int(atomic.LoadInt32(&bad)) >= failLimit {
				return
			}
			if !stopAt.IsZero() && time.Now().After(stopAt) {
				return
			}
			solveOne(j)
			if !j.quick && j.v.Res != "unsat" {
				atomic.AddInt32(&bad, 1)
			}
		}()
	}
	wg.Wait()
}

package harness

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"testing"
	"testing/synctest"
	"time"
)

// The worker: runs one scenario per synctest bubble and answers on a pipe.
//
//	VERIF_IN   file of requests, one JSON per line (default fd 3)
//	VERIF_OUT  file of answers
//
// A request either names a profile and seeds to generate or carries a scenario.
type Request struct {
	Profile string
	From    uint64
	To      uint64
	Budget  int // ms of wall time
	Prop    string
	Sc      *Scenario `json:",omitempty"`
	Lines   bool
	Stop    int // stop after that many violating runs
	Known   []string
}

type Answer struct {
	Seed    uint64
	Profile string
	Res     *Result
	Sc      *Scenario `json:",omitempty"`
	Crash   string    `json:",omitempty"`
	WallUs  int64
	Last    bool
}

// one runs a scenario. What goes wrong in one of several competitions is held
// against it alone: if the same competition, with the same calls and faults,
// never shows it alone, its neighbours made the difference.
func one(t *testing.T, sc *Scenario) (r *Result, crash string) {
	r, crash = once(t, sc)
	if crash != "" || sc.B != nil || len(sc.Comps) < 2 || len(r.Panics) > 0 || r.Livelock != "" {
		return
	}
	for _, v := range r.Viol {
		if v.Prop == "C18" || known(v) {
			continue
		}
		i := -1
		for j, sp := range sc.Comps {
			if strings.HasPrefix(v.Msg, sp.ID+": ") {
				i = j
			}
		}
		if i < 0 {
			continue
		}
		alone := false
		for pol := 0; pol < 3 && !alone; pol++ {
			a, c := once(t, sc.alone(i, pol))
			if c != "" {
				return
			}
			for _, av := range a.Viol {
				alone = alone || av.Prop == v.Prop
			}
			alone = alone || len(a.Panics) > 0 || a.Livelock != ""
		}
		if !alone {
			r.Viol = append(r.Viol, Violation{Prop: "C18", Key: "differs-alone", Msg: v.Msg + " (" + v.Prop + "/" + v.Key + "; never when this competition runs alone with the same calls and faults)", AtMs: v.AtMs})
			return
		}
	}
	return
}

// known: what a recorded finding explains, which a schedule decides.
func known(v Violation) bool {
	if strings.HasSuffix(v.Key, "-overlap") {
		return true
	}
	switch v.Prop + "/" + v.Key {
	case "C14/nested-report-stuck", "C14/no-hand-late-blind", "C14/assign-spin", "C25/assign-spin", "C04/addon-lost-seat":
		return true
	}
	return false
}

// alone is the scenario with the i-th competition only.
func (sc *Scenario) alone(i, pol int) *Scenario {
	n := *sc
	n.Comps = []CompSpec{sc.Comps[i]}
	n.Ops, n.Faults = nil, nil
	for _, o := range sc.Ops {
		if o.Comp == i && o.Kind != "probe" && o.Kind != "reset" {
			o.Comp = 0
			n.Ops = append(n.Ops, o)
		}
	}
	for _, f := range sc.Faults {
		if f.Comp == i {
			f.Comp = 0
			n.Faults = append(n.Faults, f)
		}
	}
	n.Sched.Explicit, n.Sched.Preempts, n.Sched.Stalls = false, nil, nil
	n.Sched.Policy = (sc.Sched.Policy + pol) % 3
	if pol == 2 {
		n.Sched.PreemptRate, n.Sched.StallRate, n.Sched.HotRate = 0, 0, 0
	}
	return &n
}

func once(t *testing.T, sc *Scenario) (r *Result, crash string) {
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if e := recover(); e != nil {
				if r != nil && strings.Contains(fmt.Sprint(e), "blocked goroutines remain") {
					return // activities that were still waiting when the run was cut off
				}
				crash = fmt.Sprintf("%v\n%s", e, debug.Stack())
			}
		}()
		synctest.Test(t, func(*testing.T) {
			r = Run(sc, synctest.Wait)
		})
	}()
	<-done
	return
}

func TestWorker(t *testing.T) {
	in, out := os.Getenv("VERIF_IN"), os.Getenv("VERIF_OUT")
	if in == "" {
		t.Skip("not a worker")
	}
	fi, err := os.Open(in)
	if err != nil {
		t.Fatal(err)
	}
	fo, err := os.OpenFile(out, os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0o644)
	if err != nil {
		t.Fatal(err)
	}
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if os.Getenv("VERIF_LOUD") == "" {
		os.Stdout = null
	}
	enc := json.NewEncoder(fo)
	bs := bufio.NewScanner(fi)
	bs.Buffer(make([]byte, 1<<20), 1<<28)
	for bs.Scan() {
		var q Request
		if err := json.Unmarshal(bs.Bytes(), &q); err != nil {
			t.Fatal(err)
		}
		if q.Sc != nil {
			t0 := time.Now()
			r, crash := one(t, q.Sc)
			if r != nil && !q.Lines {
				r.Lines = nil
			}
			enc.Encode(Answer{Seed: q.Sc.Seed, Profile: q.Sc.Profile, Res: r, Crash: crash, WallUs: time.Since(t0).Microseconds(), Last: true})
			continue
		}
		start := time.Now()
		found := 0
		for seed := q.From; seed < q.To; seed++ {
			if q.Budget > 0 && time.Since(start) > time.Duration(q.Budget)*time.Millisecond {
				break
			}
			sc := Generate(q.Profile, seed)
			t0 := time.Now()
			r, crash := one(t, sc)
			a := Answer{Seed: seed, Profile: q.Profile, Res: r, Crash: crash, WallUs: time.Since(t0).Microseconds()}
			if r != nil {
				if !q.Lines {
					r.Lines = nil
				}
				if hit(r, q) {
					found++
					a.Sc = sc
				}
			} else {
				found++
				a.Sc = sc
			}
			if err := enc.Encode(a); err != nil {
				t.Fatal(err)
			}
			if q.Stop > 0 && found >= q.Stop {
				break
			}
		}
		enc.Encode(Answer{Last: true})
	}
	fo.Close()
}

func hit(r *Result, q Request) bool {
	if len(r.Panics) > 0 || r.Livelock != "" {
		return true
	}
	for _, v := range r.Viol {
		if q.Prop != "" && v.Prop != q.Prop {
			continue
		}
		known := false
		for _, k := range q.Known {
			known = known || k == v.Prop+"/"+v.Key
		}
		if !known {
			return true
		}
	}
	return false
}

var _ = strconv.Itoa

package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strings"
	"sync/atomic"
	"time"
)

// The watchdog notices when a call into the library never comes back for a
// reason that the scheduler does not see: a goroutine that waits for a channel
// or another primitive of the runtime.  (Locks are simulated, and endless
// computation ends at the step limit.)

var (
	ticks   int64 // grows while a run makes progress
	nowPlan atomic.Pointer[Plan]
	nowOp   atomic.Pointer[string]
	nowIdx  int64 // which plan of a replay
)

func tick() { atomic.AddInt64(&ticks, 1) }

func enterOp(t string) {
	tick()
	nowOp.Store(&t)
}

// watch calls stuck with a description and the stack when nothing has happened
// for too long.
func watch(quiet time.Duration, stuck func(what string)) {
	go func() {
		last, since := int64(-1), time.Now()
		before := ""
		for {
			time.Sleep(500 * time.Millisecond)
			if t := atomic.LoadInt64(&ticks); t != last {
				last, since, before = t, time.Now(), ""
				continue
			}
			idle := time.Since(since)
			if idle < quiet {
				continue
			}
			now := blockedCall()
			if now != "" && now == before {
				stuck(now)
				return
			}
			before = now
			if idle > 70*time.Second {
				stuck("a call into the library does not end")
				return
			}
		}
	}()
}

// blockedCall tells where the library waits, if it does and nothing else of it
// runs.
func blockedCall() string {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	what := ""
	for _, g := range strings.Split(string(buf), "\n\n") {
		lines := strings.Split(g, "\n")
		i, j := strings.Index(lines[0], "["), strings.Index(lines[0], "]")
		if i < 0 || j < i {
			continue
		}
		state := strings.Split(lines[0][i+1:j], ",")[0]
		frame := ""
		for _, l := range lines[1:] {
			if strings.HasPrefix(l, "verif.local/simrt.await") {
				frame = ""
				break
			}
			if strings.Contains(l, "Foxcapades/") && !strings.HasPrefix(l, "\t") && !strings.HasPrefix(l, "created by") && frame == "" {
				frame = l
				if k := strings.LastIndex(frame, "("); k > 0 {
					frame = frame[:k]
				}
			}
		}
		if frame == "" {
			continue
		}
		switch state {
		case "chan send", "chan receive", "select", "select (no cases)", "chan send (nil chan)", "chan receive (nil chan)",
			"semacquire", "sync.Mutex.Lock", "sync.RWMutex.Lock", "sync.RWMutex.RLock", "sync.WaitGroup.Wait", "sync.Cond.Wait", "IO wait":
			what = fmt.Sprintf("a call into the library never returns: %s waits (%s) and nothing can wake it", frame, state)
		default:
			return ""
		}
	}
	return what
}

// leftovers counts the goroutines of the library that nobody waits for.
func leftovers() int {
	if runtime.NumGoroutine() < 4 {
		return 0
	}
	buf := make([]byte, 4<<20)
	buf = buf[:runtime.Stack(buf, true)]
	n := 0
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "Foxcapades/lib-go-raml") && !strings.Contains(g, "simrt.runTask") {
			n++
		}
	}
	return n
}

// blocked makes a violation out of a call that does not return.
func blocked(p *Plan, what string) *Violation {
	v := &Violation{Class: "hang", Detail: what}
	if t := nowOp.Load(); t != nil {
		v.OpT = *t
	}
	if p.Scen == "maps" {
		v.Class = "map-hang"
		if p.Prop == "C13" {
			v.Class = "ser-hang"
		}
	}
	return v
}

// attributedHang is attributed for calls that never return: nothing can be
// executed any more.
func (p *Plan) attributedHang(v *Violation) bool {
	t := v.OpT
	reads, writes := in(t, "parse", "load"), in(t, "write", "save", "finish", "marshal", "json", "load")
	switch p.Prop {
	case "C01":
		return t == "parse"
	case "C02":
		return in(t, "parse", "panicio")
	case "C03":
		return in(t, "damaged", "parse")
	case "C04":
		return in(t, "write", "save", "finish")
	case "C05":
		return writes
	case "C20":
		return writes && t != "load"
	case "C06", "C07", "C08", "C09", "C10":
		return reads || writes
	case "C11":
		return isEdit(&Op{T: t}) || t == "new"
	case "C12", "C13":
		return p.Scen == "maps" && len(p.Map.Clients) < 2
	case "C14":
		return p.Scen == "isolated"
	case "C15":
		return true
	case "C16":
		return in(t, "poison", "heal", "cure") || writes
	case "C17":
		return !in(t, "damaged", "panicio")
	}
	return false
}

// watchWorker reports a blocked call like any other violation.
func watchWorker(rep *Report, history *[]uint64, all bool) {
	watch(8*time.Second, func(what string) {
		p := nowPlan.Load()
		if p != nil {
			v := blocked(p, what)
			if all || p.attributedHang(v) {
				rep.Found = &Found{Seed: p.Seed, Viol: v, Plan: p, History: *history}
				json.NewEncoder(os.Stdout).Encode(rep)
				os.Exit(0)
			}
		}
		fmt.Fprintf(os.Stderr, "harness: stuck: %s\n", what)
		os.Exit(4)
	})
}

// watchRun does the same for a replay.
func watchRun(r *Replay) {
	watch(3*time.Second, func(what string) {
		p := nowPlan.Load()
		if p == nil {
			os.Exit(4)
		}
		v := blocked(p, what)
		a := &Answer{Viol: v, At: int(atomic.LoadInt64(&nowIdx)) + 1}
		a.Attributed = os.Getenv("VERIF_SIM_ALL") != "" || p.attributedHang(v)
		json.NewEncoder(os.Stdout).Encode(a)
		os.Exit(0)
	})
}

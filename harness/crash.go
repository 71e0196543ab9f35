package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
)

// Replays IndexGen's histories in which the process dies: a server's life is a process of
// its own, which kills itself at the given write to its databases. The next one starts on
// what is left, as the server does.

var armCrash func(n int64, half bool)

type death struct {
	When  int64   `json:"when"`
	Half  bool    `json:"half"`
	Again []int64 `json:"again"`
}

type crashStep struct {
	A     ixAction `json:"a"`
	Crash []death  `json:"crash"`
	O     ixObs    `json:"o"`
}

// life is what one process is told to do.
type life struct {
	Dir      string              `json:"dir"`
	N        int                 `json:"n"`
	At       int                 `json:"at"` // number of its first step
	Kinds    []string            `json:"kinds"`
	First    bool                `json:"first"`
	Disk     map[string]phpFile  `json:"disk"`
	Universe map[string][]string `json:"universe"`
	DieStart int64               `json:"dieStart"` // die while starting
	O        *ixObs              `json:"o"`        // after the start
	Steps    []crashStep         `json:"steps"`
}

func (l life) run(out string) bool {
	r := &rec{n: l.N, step: l.At}
	w := &workspace{r: r, dir: l.Dir, disk: map[string]rendered{}, open: map[string]rendered{},
		kinds: map[string]bool{}, universe: map[string]map[string]bool{}}
	for _, k := range l.Kinds {
		w.kinds[k] = true
	}
	for k, us := range l.Universe {
		for _, u := range us {
			w.seen(k, u)
		}
	}
	for k, f := range l.Disk {
		w.disk[k] = f.render()
	}
	if l.DieStart > 0 {
		armCrash(l.DieStart, false)
	}
	if err := w.newStore(); err != nil {
		r.mismatch("starting after a crash", "the databases open", err.Error())
		return false
	}
	if !l.First {
		w.indexAll()
		if l.DieStart > 0 {
			armCrash(0, false)
			count("crashes not reached", 1)
			l.leave(w, out)
		}
	}
	if l.O != nil {
		w.compare(*l.O)
	}
	for i, s := range l.Steps {
		if r.bad > 0 {
			return false
		}
		r.step = l.At + i + 1
		w.applyDisk(s.A)
		if len(s.Crash) > 0 {
			armCrash(s.Crash[0].When, s.Crash[0].Half)
		}
		if err := w.apply(s.A); err != nil {
			r.mismatch("action "+s.A.Op, "no error", err.Error())
			return false
		}
		count("steps", 1)
		if len(s.Crash) > 0 {
			armCrash(0, false)
			count("crashes not reached", 1)
			l.leave(w, out)
		}
		w.compare(s.O)
	}
	w.store.Close()
	return r.bad == 0
}

// leave dies without closing anything
func (l life) leave(w *workspace, out string) {
	l.report(w.r.bad == 0, out)
	syscall.Kill(os.Getpid(), syscall.SIGKILL)
	select {}
}

func (l life) report(ok bool, out string) {
	b, _ := json.Marshal(map[string]interface{}{"ok": ok, "counters": counters})
	os.WriteFile(out, b, 0644)
}

func init() {
	raw["crashlife"] = func(a []string) {
		var l life
		b, _ := os.ReadFile(a[0])
		if err := json.Unmarshal(b, &l); err != nil {
			fatal("crashlife:", err)
		}
		if armCrash == nil {
			fatal("built without crashes")
		}
		l.report(l.run(a[1]), a[1])
	}
	subs["crash"] = func(r *rec, t json.RawMessage) {
		var steps []crashStep
		if err := json.Unmarshal(t, &steps); err != nil {
			fatal("crash:", err)
		}
		dir := scratchDir("cr")
		defer os.RemoveAll(dir)
		disk := map[string]phpFile{}
		universe := map[string]map[string]bool{}
		w := &workspace{universe: universe}
		var last *ixObs
		first := true
		at := 0
		var pending []crashStep
		// one runs a life; whether it survived to tell, and found nothing wrong
		one := func(dieStart int64, steps []crashStep, dies bool) bool {
			l := life{Dir: dir, N: r.n, At: at, Kinds: os.Args[3:], First: first, Disk: disk, DieStart: dieStart,
				Steps: steps, Universe: map[string][]string{}}
			if dieStart == 0 {
				l.O = last
			}
			for k, us := range universe {
				for u := range us {
					l.Universe[k] = append(l.Universe[k], u)
				}
			}
			in, out := filepath.Join(dir, "life.json"), filepath.Join(dir, "end.json")
			b, _ := json.Marshal(l)
			os.WriteFile(in, b, 0644)
			os.Remove(out)
			var so, se bytes.Buffer
			c := exec.Command(os.Args[0], "crashlife", in, out)
			c.Stdout, c.Stderr = &so, &se
			err := c.Run()
			for _, line := range strings.Split(so.String(), "\n") {
				if strings.HasPrefix(line, "@") {
					outMu.Lock()
					fmt.Println(line)
					outMu.Unlock()
					r.bad++
				}
			}
			var end struct {
				OK       bool           `json:"ok"`
				Counters map[string]int `json:"counters"`
			}
			if b, e := os.ReadFile(out); e == nil {
				json.Unmarshal(b, &end)
			}
			for k, v := range end.Counters {
				count(k, v)
			}
			killed := err != nil && c.ProcessState != nil && c.ProcessState.Sys().(syscall.WaitStatus).Signaled() &&
				c.ProcessState.Sys().(syscall.WaitStatus).Signal() == syscall.SIGKILL
			if os.Getenv("VH_LOG") != "" {
				fmt.Fprintln(os.Stderr, "---- life", r.n, at, r.bad)
				os.Stderr.Write(se.Bytes())
			}
			if dies && killed {
				count("crashes", 1)
			} else if err != nil {
				os.Stderr.Write(se.Bytes())
				r.step = at
				r.mismatch("a server's life after a crash", "the process survives it", fmt.Sprint(err, " ", head(se.String(), 1500)))
			}
			first = false
			return r.bad == 0
		}
		flush := func(dies bool) bool {
			ok := one(0, pending, dies)
			at += len(pending)
			for _, s := range pending {
				k := strings.Join(s.A.P, "/")
				switch s.A.Op {
				case "write":
					disk[k] = s.A.F
				case "delete":
					delete(disk, k)
				case "rmdir":
					for d := range disk {
						if strings.HasPrefix(d, k+"/") {
							delete(disk, d)
						}
					}
				}
				for _, d := range s.O.Decls {
					w.seen(d.Kind, d.Key...)
					if len(d.Key) == 2 {
						w.seen("owner", d.Key[0])
					}
				}
				for _, u := range s.O.Uses {
					w.seen("ref", u.Ref)
				}
			}
			pending = nil
			return ok
		}
		for _, s := range steps {
			o := s.O
			pending = append(pending, s)
			if len(s.Crash) == 0 {
				continue
			}
			if !flush(true) {
				return
			}
			last = &o
			for _, n := range s.Crash[0].Again {
				if !one(n, nil, true) {
					return
				}
			}
		}
		flush(false)
	}
}

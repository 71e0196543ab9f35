// Command verifharness replays behaviours generated from the TLA+ specifications in
// /verif/specs through the real code. It is compiled into the repository's module by
// 'go build -overlay' and uses exported API only.
package main

import (
	"bytes"
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"sync"
	"time"
)

// rec collects what one replayed behaviour showed.
type rec struct {
	n    int
	bad  int
	step int
}

var (
	outMu    sync.Mutex
	counters = map[string]int{}
)

func emit(v interface{}) {
	b, err := json.Marshal(v)
	if err != nil {
		b, _ = json.Marshal(map[string]interface{}{"n": -1, "step": -1, "what": "harness: " + err.Error()})
	}
	outMu.Lock()
	fmt.Printf("@%s\n", b)
	outMu.Unlock()
}

func count(k string, d int) {
	outMu.Lock()
	counters[k] += d
	outMu.Unlock()
}

func (r *rec) mismatch(what string, expected, got interface{}) {
	r.bad++
	if r.bad > 3 {
		return
	}
	emit(map[string]interface{}{"n": r.n, "step": r.step, "what": what, "expected": expected, "got": got})
}

type sub func(r *rec, t json.RawMessage)

var subs = map[string]sub{}

// waitFor polls cond until it holds; generous, because the machine may be busy.
func waitFor(limit time.Duration, cond func() bool) bool {
	end := time.Now().Add(limit)
	d := 20 * time.Microsecond
	for {
		if cond() {
			return true
		}
		if time.Now().After(end) {
			return cond()
		}
		time.Sleep(d)
		if d < 5*time.Millisecond {
			d *= 2
		}
	}
}

func fatal(v ...interface{}) {
	fmt.Fprintln(os.Stderr, v...)
	os.Exit(3)
}

func main() {
	if len(os.Args) < 3 {
		fatal("usage: verifharness sub input")
	}
	if os.Getenv("VH_LOG") == "" {
		log.SetOutput(io.Discard)
	}
	if f, ok := raw[os.Args[1]]; ok {
		f(os.Args[2:])
		return
	}
	f, ok := subs[os.Args[1]]
	if !ok {
		fatal("unknown subcommand", os.Args[1])
	}
	fh, err := os.Open(os.Args[2])
	if err != nil {
		fatal(err)
	}
	in := bufio.NewReaderSize(fh, 1<<20)
	traces, failed := 0, 0
	for {
		line, err := in.ReadBytes('\n')
		if len(line) > 0 {
			var x struct {
				N int             `json:"n"`
				T json.RawMessage `json:"t"`
			}
			if e := json.Unmarshal(line, &x); e != nil {
				fatal(e)
			}
			emit(map[string]int{"at": x.N})
			// The specification writes the letter this way, TLC has none which are not ASCII
			x.T = bytes.ReplaceAll(x.T, []byte("~e"), []byte("é"))
			r := &rec{n: x.N}
			f(r, x.T)
			traces++
			if r.bad > 0 {
				failed++
				if failed >= 5 {
					break
				}
			}
		}
		if err != nil {
			break
		}
	}
	sum := map[string]interface{}{"done": true, "traces": traces, "failed": failed}
	for k, v := range counters {
		sum[k] = v
	}
	emit(sum)
}

// raw subcommands run on their own input.
var raw = map[string]func(args []string){}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

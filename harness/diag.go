package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
	"github.com/john-nguyen09/phpintel/util"
)

// Histories of specs/DiagnosticsGen.tla: what was published last about every open document, after
// nothing has happened for longer than the server delays what it says about deprecations.

type dgToken struct {
	T, W string
	R    struct{ K, N, M string }
}

type dgText [][]dgToken

type dgWant struct {
	P, J int
	W    string
}

type dgStep struct {
	A, Eol string
	D      int
	Inc    bool
	Gone   bool
	Disk   []json.RawMessage
	Text   dgText
	Want   [][]struct{ Must, May []dgWant }
	Now    []bool
}

const dgDelay = 2 * time.Second

// write returns the text, and where its tokens are
func (t dgText) write(eol string) (string, map[[2]int]protocol.Range) {
	p := &pen{eol: eol}
	at := map[[2]int]protocol.Range{}
	p.w("<?php\n")
	// another namespace beside the one which the specification is about: its functions and
	// imports are of the same names, but not the ones declared
	clean, other := len(t)%3 > 0, "namespace Z {\nfunction f1() {}\nclass C1 {}\nuse Y\\C2;\nuse function Y\\f2;\nuse const Y\\K2;\necho new C1;\necho new C2;\necho f1();\necho f2();\necho K2;\n}\n"
	for _, piece := range t {
		for _, tok := range piece {
			clean = clean && tok.W != "error"
		}
	}
	if clean && len(t)%3 == 2 {
		p.w(other)
	}
	if clean {
		p.w("namespace {\n")
	}
	for i, piece := range t {
		for j, tok := range piece {
			s := strings.NewReplacer("@a", "é", "@o", "😀").Replace(tok.T)
			if tok.W == "use" || tok.W == "may" || tok.W == "unused" || tok.W == "import" {
				at[[2]int{i + 1, j + 1}] = p.name(s)
				continue
			}
			start := p.pos()
			p.w(s)
			at[[2]int{i + 1, j + 1}] = protocol.Range{Start: start, End: p.pos()}
		}
	}
	if clean {
		p.w("}\n")
	}
	if clean && len(t)%3 == 1 {
		p.w(other)
	}
	return p.b.String(), at
}

func dgKey(what string, x protocol.Range) string {
	if what == "may" {
		what = "use"
	}
	if what == "error" {
		return fmt.Sprintf("error in line %d", x.Start.Line)
	}
	return what + " " + rangeKeys([]protocol.Range{x})[0]
}

// said returns what the diagnostics say, in the words of the specification
func dgSaid(ds []protocol.Diagnostic) string {
	keys := map[string]bool{}
	twice := []string{}
	for _, d := range ds {
		what := d.Message
		deprecated := len(d.Tags) == 1 && d.Tags[0] == protocol.Deprecated
		switch {
		case d.Severity == protocol.SeverityError:
			what = "error"
		case strings.HasSuffix(d.Message, varUnused):
			what = "unused"
		case strings.HasSuffix(d.Message, " is declared but its value is never used."):
			what = "import"
		case deprecated && strings.Contains(d.Message, " is deprecated"):
			what = "use"
		}
		k := dgKey(what, d.Range)
		if keys[k] && what != "error" {
			twice = append(twice, k+" twice")
		}
		keys[k] = true
	}
	return strings.Join(append(sortedKeys(keys), twice...), "; ")
}

type dgDoc struct {
	path, uri, eol, text string
	at                   map[[2]int]protocol.Range
	open                 bool
	since                int // the events before the text was the last one
}

func init() {
	subs["diag"] = func(r *rec, t json.RawMessage) {
		var steps []dgStep
		if err := json.Unmarshal(t, &steps); err != nil {
			fatal(err)
		}
		dir := scratchDir("diag")
		defer os.RemoveAll(dir)
		docs := make([]dgDoc, 4)
		for d := 1; d <= 3; d++ {
			docs[d].path = filepath.Join(dir, fmt.Sprintf("d%d.php", d))
			docs[d].uri = util.PathToURI(docs[d].path)
		}
		onDisk := func(d int, text dgText) {
			s, _ := text.write("\n")
			if err := os.WriteFile(docs[d].path, []byte(s), 0o644); err != nil {
				fatal(err)
			}
		}
		for i, raw := range steps[0].Disk {
			var opt []dgText
			if err := json.Unmarshal(raw, &opt); err != nil {
				fatal(err)
			}
			if len(opt) == 1 {
				onDisk(i+1, opt[0])
			}
		}
		s := newSession()
		s.start(dir)
		defer s.end()
		s.barrier()
		events := func() []diagEvent {
			s.mu.Lock()
			defer s.mu.Unlock()
			return append([]diagEvent(nil), s.diags...)
		}
		notified := time.Now()
		for i, st := range steps[1:] {
			r.step = i + 1
			d := &docs[st.D]
			switch st.A {
			case "open", "change":
				if st.A == "open" {
					d.eol = st.Eol
				}
				d.since = len(events())
				old := d.text
				d.text, d.at = st.Text.write(d.eol)
				if st.A == "open" {
					s.open(d.uri, d.text)
				} else if st.Inc {
					c := minimalChange(old, d.text)
					s.change(d.uri, []M{{"range": c.Range, "text": c.Text}})
				} else {
					s.change(d.uri, []M{{"text": d.text}})
				}
				d.open = true
				notified = time.Now()
			case "close":
				s.close(d.uri)
				d.open = false
				notified = time.Now()
			case "disk":
				kind := 2
				if st.Gone {
					kind = 3
					os.Remove(d.path)
				} else {
					if _, err := os.Stat(d.path); err != nil {
						kind = 1
					}
					onDisk(st.D, st.Text)
				}
				s.watched(M{"uri": d.uri, "type": kind})
				notified = time.Now()
			case "short":
				time.Sleep(time.Duration(300+100*(i%7)) * time.Millisecond)
			case "wait":
				if rest := dgDelay + 700*time.Millisecond - time.Since(notified); rest > 0 {
					time.Sleep(rest)
				}
			}
			if err := s.barrier(); err != nil {
				r.mismatch("the step is handled", "an answer", err.Error())
				return
			}
			if st.A != "wait" {
				continue
			}
			for e := 1; e <= 3; e++ {
				d := &docs[e]
				if !d.open {
					continue
				}
				keys := func(ws []dgWant) map[string]bool {
					m := map[string]bool{}
					for _, x := range ws {
						m[dgKey(x.W, d.at[[2]int{x.P, x.J}])] = true
					}
					return m
				}
				wants := func(got string) bool {
					said := map[string]bool{}
					for _, k := range strings.Split(got, "; ") {
						if k != "" {
							said[k] = true
						}
					}
				next:
					for _, w := range st.Want[e-1] {
						must, may := keys(w.Must), keys(w.May)
						for k := range must {
							if !said[k] {
								continue next
							}
						}
						for k := range said {
							if !must[k] && !may[k] {
								continue next
							}
						}
						return true
					}
					return false
				}
				var got string
				ok := waitFor(20*time.Second, func() bool {
					got = "nothing"
					for _, ev := range events()[d.since:] {
						if ev.URI == d.uri {
							got = dgSaid(ev.Diagnostics)
						}
					}
					return wants(got)
				})
				count("judged", 1)
				if len(st.Want[e-1]) > 1 {
					count("of several", 1)
				}
				if !ok {
					list := []string{}
					for _, w := range st.Want[e-1] {
						x := ""
						for _, k := range sortedKeys(keys(w.Must)) {
							x += k + "; "
						}
						x += "perhaps"
						for _, k := range sortedKeys(keys(w.May)) {
							x += " " + k
						}
						list = append(list, x)
					}
					if os.Getenv("DIAG_TEXT") != "" {
						fmt.Fprintln(os.Stderr, d.text)
					}
					r.mismatch("what is said last about "+filepath.Base(d.path), strings.Join(list, " OR "), got)
				}
			}
			if r.bad > 0 {
				return
			}
		}
		ours := map[string]bool{}
		for d := 1; d <= 3; d++ {
			ours[docs[d].uri] = true
		}
		for _, e := range events() {
			if !ours[e.URI] {
				r.mismatch("diagnostics are published under the documents they belong to", "no "+e.URI, dgSaid(e.Diagnostics))
			}
		}
	}
}

func sortedKeys(m map[string]bool) []string {
	keys := []string{}
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return keys
}

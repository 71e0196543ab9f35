package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
	"github.com/john-nguyen09/phpintel/util"
)

// Documents of specs/VarsGen.tla: what is reported unused, and what a rename at each
// occurrence edits.

type varItem struct {
	T, V, Said string
	S, S2      int
	at         protocol.Range
}

const varUnused = " is declared but its value is never read."

func rangeKeys(rs []protocol.Range) []string {
	keys := []string{}
	for _, x := range rs {
		keys = append(keys, fmt.Sprintf("%d:%d-%d:%d", x.Start.Line, x.Start.Character, x.End.Line, x.End.Character))
	}
	sort.Strings(keys)
	return keys
}

// without returns the places in a which are not in b
func without(a, b string) string {
	others := map[string]int{}
	for _, x := range strings.Fields(b) {
		others[x]++
	}
	rest := []string{}
	for _, x := range strings.Fields(a) {
		if others[x]--; others[x] < 0 {
			rest = append(rest, x)
		}
	}
	return strings.Join(rest, " ")
}

func init() {
	subs["vars"] = func(r *rec, t json.RawMessage) {
		var items []varItem
		if err := json.Unmarshal(t, &items); err != nil {
			fatal(err)
		}
		p := &pen{eol: "\n"}
		for i := range items {
			if items[i].V != "" {
				items[i].at = p.name(items[i].V)
			} else {
				p.w(items[i].T)
			}
		}
		text := p.b.String()
		dir := scratchDir("vars")
		defer os.RemoveAll(dir)
		s := newSession()
		s.start(dir)
		defer s.end()
		uri := util.PathToURI(filepath.Join(dir, "a.php"))
		s.open(uri, text)
		if err := s.barrier(); err != nil {
			r.mismatch("the document is opened", "an answer", err.Error())
			return
		}
		var published *diagEvent
		waitFor(20*time.Second, func() bool {
			s.mu.Lock()
			defer s.mu.Unlock()
			for i := range s.diags {
				if s.diags[i].URI == uri {
					published = &s.diags[i]
				}
			}
			return published != nil
		})
		if published == nil {
			r.mismatch("diagnostics are published", "some", "none")
			return
		}
		errors := 0
		said := map[string]int{}
		for _, d := range published.Diagnostics {
			if strings.HasSuffix(d.Message, varUnused) {
				said[strings.TrimSuffix(d.Message, varUnused)+" "+rangeKeys([]protocol.Range{d.Range})[0]]++
			} else if d.Severity == protocol.SeverityError {
				errors++
				if os.Getenv("VARS_ERRORS") != "" {
					fmt.Fprintln(os.Stderr, d.Message, d.Range, strings.Split(text, "\n")[d.Range.Start.Line])
				}
			}
		}
		if errors > 0 {
			// what the parser does not understand is another matter
			count("unparsed", 1)
			return
		}
		for i, it := range items {
			if it.V == "" {
				continue
			}
			r.step = i
			key := it.V + " " + rangeKeys([]protocol.Range{it.at})[0]
			n := said[key]
			delete(said, key)
			count("occurrences", 1)
			if want := it.Said == "unused"; it.Said != "open" && (n == 1) != want || n > 1 {
				r.mismatch("said to be unused: "+key, want, n)
			}
		}
		for key := range said {
			r.mismatch("said to be unused: "+key, "no occurrence", key)
		}
		for i, it := range items {
			if it.V == "" || r.bad > 0 {
				continue
			}
			r.step = i
			group := func(scope int) []string {
				rs := []protocol.Range{}
				for _, o := range items {
					if o.V == it.V && (o.S == scope || o.S2 == scope) {
						rs = append(rs, o.at)
					}
				}
				return rangeKeys(rs)
			}
			for _, pos := range []protocol.Position{it.at.Start, {Line: it.at.End.Line, Character: it.at.End.Character - 1}} {
				q := posParams(uri, pos)
				q["newName"] = "$zz"
				var edit struct {
					Changes map[string][]protocol.TextEdit
				}
				if err := s.call("textDocument/rename", q, &edit); err != nil {
					r.mismatch("rename", "edits", err.Error())
					return
				}
				rs := []protocol.Range{}
				for u, es := range edit.Changes {
					for _, e := range es {
						if u != uri || e.NewText != "$zz" {
							r.mismatch("rename of "+it.V, "edits of the document to the new name", edit.Changes)
						}
						rs = append(rs, e.Range)
					}
				}
				got := strings.Join(rangeKeys(rs), " ")
				want := strings.Join(group(it.S), " ")
				if got != want && !(it.S2 != 0 && got == strings.Join(group(it.S2), " ")) {
					r.mismatch(fmt.Sprintf("rename of %s at %d:%d", it.V, pos.Line, pos.Character), "also "+without(want, got), "instead "+without(got, want))
				}
				count("renames", 1)
			}
		}
		if r.bad > 0 && os.Getenv("VARS_ERRORS") != "" {
			fmt.Fprintln(os.Stderr, text)
		}
	}
}

package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
	"github.com/john-nguyen09/phpintel/util"
)

// Documents of specs/PlacesGen.tla: their outline, what is found at the places which are used, and
// what is not found elsewhere, after every edit.

type plToken struct {
	W, T, K string
	ID      int
	To      []int
	at      protocol.Range
}

type plStep struct {
	Ts    []plToken
	Decls []struct {
		K, N, Ns, Cls string
		ID, In        int
	}
	Eol, How string
	Uni      bool // names begin with a letter of several bytes
}

var plKinds = map[string]int{"class": 5, "trait": 5, "method": 6, "prop": 7, "iface": 11, "func": 12, "const": 14, "define": 14, "cconst": 14}

func (st *plStep) kind(id int) string {
	for _, d := range st.Decls {
		if d.ID == id {
			return d.K
		}
	}
	return ""
}

func (st *plStep) real(s string) string {
	u := ""
	if st.Uni {
		u = "é"
	}
	return strings.NewReplacer("@a", "é漢", "@o", "😀", "@u", u).Replace(s)
}

// write returns the text, and where the declarations are
func (st *plStep) write() (string, map[int]protocol.Range) {
	p := &pen{eol: eols[st.Eol]}
	lines := 0
	decls := map[int]protocol.Range{}
	stack := []int{}
	for i := range st.Ts {
		t := &st.Ts[i]
		switch t.W {
		case "b":
			decls[t.ID] = protocol.Range{Start: p.pos()}
			stack = append(stack, t.ID)
		case "e":
			id := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			decls[id] = protocol.Range{Start: decls[id].Start, End: p.pos()}
		default:
			start := p.pos()
			s := st.real(t.T)
			for _, c := range s {
				if st.Eol == "mix" && c == '\n' {
					p.eol = []string{"\n", "\r\n", "\r", "\n", "\r"}[lines%5]
					lines++
					// two line endings in a row are not one
					if strings.HasSuffix(p.b.String(), "\r") && p.eol == "\n" {
						p.eol = "\r\n"
					}
				}
				p.w(string(c))
			}
			t.at = protocol.Range{Start: start, End: p.pos()}
		}
	}
	return p.b.String(), decls
}

// outline returns the lines of an outline
func plOutline(symbols []protocol.DocumentSymbol, depth string) []string {
	lines := []string{}
	for _, s := range symbols {
		lines = append(lines, fmt.Sprintf("%s%v %s %s %s", depth, s.Kind, strings.TrimPrefix(s.Name[strings.LastIndexByte(s.Name, 92)+1:], "$"), rangeKeys([]protocol.Range{s.Range})[0], rangeKeys([]protocol.Range{s.SelectionRange})[0]))
		lines = append(lines, plOutline(s.Children, depth+"-")...)
	}
	return lines
}

func (st *plStep) outline(decls map[int]protocol.Range, in int, depth string) []string {
	lines := []string{}
	for _, d := range st.Decls {
		if d.In != in {
			continue
		}
		k := rangeKeys([]protocol.Range{decls[d.ID]})[0]
		lines = append(lines, fmt.Sprintf("%s%v %s %s %s", depth, plKinds[d.K], strings.TrimPrefix(st.real(d.N), "$"), k, k))
		lines = append(lines, st.outline(decls, d.ID, depth+"-")...)
	}
	return lines
}

func init() {
	subs["places"] = func(r *rec, t json.RawMessage) {
		var steps []plStep
		if err := json.Unmarshal(t, &steps); err != nil {
			fatal(err)
		}
		dir := scratchDir("places")
		defer os.RemoveAll(dir)
		s := newSession()
		s.start(dir)
		defer s.end()
		uri := util.PathToURI(filepath.Join(dir, "a.php"))
		old := ""
		for i := range steps {
			st := &steps[i]
			r.step = i
			text, decls := st.write()
			c := minimalChange(old, text)
			how := st.How
			if how != "open" {
				a, b := newLineIndex(old).offset(c.Range.Start), newLineIndex(old).offset(c.Range.End)
				if a > 0 && b < len(old) && old[a-1] == '\r' && old[b] == '\n' && a < b {
					// without what is between them the two would be one line ending
					how = "part"
				}
			}
			switch how {
			case "open":
				s.open(uri, text)
			case "full":
				s.change(uri, []M{{"text": text}})
			case "part":
				s.change(uri, []M{{"range": c.Range, "text": c.Text}})
			case "two":
				s.change(uri, []M{{"range": c.Range, "text": ""}, {"range": protocol.Range{Start: c.Range.Start, End: c.Range.Start}, "text": c.Text}})
			case "typed":
				// the text in between is in pieces, which may be nothing in the language
				s.change(uri, []M{{"range": c.Range, "text": ""}})
				done := old[:newLineIndex(old).offset(c.Range.Start)]
				rest := c.Text
				for rest != "" {
					n := len(rest)/3 + 1
					if n > len(rest) {
						n = len(rest)
					}
					for n < len(rest) && !(utf8.RuneStart(rest[n]) && !(rest[n] == '\n' && rest[n-1] == '\r')) {
						n++
					}
					at := newLineIndex(done).position(len(done))
					s.change(uri, []M{{"range": protocol.Range{Start: at, End: at}, "text": rest[:n]}})
					done += rest[:n]
					rest = rest[n:]
				}
			}
			old = text
			if err := s.barrier(); err != nil {
				r.mismatch("the step is handled", "an answer", err.Error())
				return
			}
			s.mu.Lock()
			errors := []string{}
			for _, e := range s.diags {
				errors = errors[:0]
				for _, d := range e.Diagnostics {
					if d.Severity == protocol.SeverityError {
						errors = append(errors, fmt.Sprintf("%s %v", d.Message, d.Range))
					}
				}
			}
			s.mu.Unlock()
			if len(errors) > 0 {
				count("unparsed", 1)
				if os.Getenv("PLACES_ERRORS") != "" {
					fmt.Fprintf(os.Stderr, "%v\n%q\n", errors, text)
				}
				continue
			}
			var got []protocol.DocumentSymbol
			if err := s.call("textDocument/documentSymbol", M{"textDocument": M{"uri": uri}}, &got); err != nil {
				r.mismatch("the outline", "an answer", err.Error())
				return
			}
			want, have := st.outline(decls, 0, ""), plOutline(got, "")
			count("documents", 1)
			count("declarations", len(want))
			bad := strings.Join(want, "\n") != strings.Join(have, "\n")
			if bad {
				r.mismatch("the outline", want, have)
			}
			for j := range st.Ts {
				tk := &st.Ts[j]
				if tk.W == "n" {
					// its name, and the places which refer to it
					rs := []protocol.Range{tk.at}
					for _, u := range st.Ts {
						switch kind := st.kind(tk.ID); {
						case kind == "method" || kind == "prop" || kind == "cconst":
							// members go by their names
							other := u.K
							if u.W == "n" {
								other = st.kind(u.ID)
							}
							if u.ID != tk.ID && other == kind && strings.TrimPrefix(u.T, "$") == strings.TrimPrefix(tk.T, "$") {
								rs = append(rs, u.at)
							}
						case u.W == "u" && len(u.To) == 1 && u.To[0] == tk.ID:
							rs = append(rs, u.at)
						}
					}
					q := posParams(uri, tk.at.Start)
					q["context"] = M{"includeDeclaration": true}
					var locs []protocol.Location
					if err := s.call("textDocument/references", q, &locs); err != nil {
						r.mismatch("references", "an answer", err.Error())
						return
					}
					have := []protocol.Range{}
					for _, l := range locs {
						have = append(have, l.Range)
					}
					count("names", 1)
					if want, have := rangeKeys(rs), rangeKeys(have); strings.Join(want, " ") != strings.Join(have, " ") {
						bad = true
						r.mismatch(fmt.Sprintf("references to %q at %d:%d", tk.T, tk.at.Start.Line, tk.at.Start.Character), want, have)
					}
				}
				if tk.W != "u" && tk.W != "x" || tk.at.Start == tk.at.End {
					continue
				}
				want := []string{}
				for _, id := range tk.To {
					want = append(want, rangeKeys([]protocol.Range{decls[id]})...)
				}
				sort.Strings(want)
				from, to := newLineIndex(text).offset(tk.at.Start), newLineIndex(text).offset(tk.at.End)
				places := []int{from, to - 1, (from + to) / 2}
				if tk.W == "x" {
					places = []int{from + 1, (from + to) / 2}
				}
				for _, o := range places {
					for o > from && !utf8.RuneStart(text[o]) {
						o--
					}
					if o > 0 && text[o] == '\n' && text[o-1] == '\r' {
						o--
					}
					if tk.W == "x" && (o <= from || o >= to) {
						continue
					}
					var locs []protocol.Location
					pos := newLineIndex(text).position(o)
					if err := s.call("textDocument/definition", posParams(uri, pos), &locs); err != nil {
						r.mismatch("definition", "an answer", err.Error())
						return
					}
					have := []string{}
					for _, l := range locs {
						if l.URI == uri {
							have = append(have, rangeKeys([]protocol.Range{l.Range})...)
						} else {
							have = append(have, l.URI)
						}
					}
					sort.Strings(have)
					count("places", 1)
					if len(want) > 0 {
						count("found", 1)
					}
					if strings.Join(want, " ") != strings.Join(have, " ") {
						bad = true
						r.mismatch(fmt.Sprintf("what is at %d:%d in %q (%s)", pos.Line, pos.Character, tk.T, tk.K), want, have)
					}
				}
			}
			if bad {
				if os.Getenv("PLACES_TEXT") != "" {
					fmt.Fprintf(os.Stderr, "%s\n", strings.NewReplacer("\r\n", "\n", "\r", "\n").Replace(text))
				}
				return
			}
		}
	}
}

// offset is the inverse of position
func (x lineIndex) offset(p protocol.Position) int {
	o := x.starts[p.Line]
	for n := 0; n < p.Character; n++ {
		c, size := utf8.DecodeRuneInString(x.text[o:])
		if c > 0xffff {
			n++
		}
		o += size
	}
	return o
}

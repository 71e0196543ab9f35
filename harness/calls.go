package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
	"github.com/john-nguyen09/phpintel/util"
)

// Libraries and calls of specs/CallsGen.tla: the signature which is shown at the places of the calls,
// and the hints beside their arguments.

type clParam struct{ T, N, D string }

type clStep struct {
	What string
	Lib  struct {
		F [][]clParam
		C []struct {
			Up          int
			Ctor, M, Sm []clParam
		}
	}
	Eol  string
	Ts   []struct{ W, T string }
	Open bool
	Tail string
	Asks []struct {
		I, K int
		Sig  []clParam
	}
	Hints []struct {
		From, To int
		N        string
	}
}

func clNone(ps []clParam) bool { return len(ps) == 1 && ps[0].T == "none" }

func clParams(ps []clParam, full bool) []string {
	out := []string{}
	for _, p := range ps {
		t := p.T
		if full && strings.HasPrefix(t, "K") {
			t = "\\" + t
		}
		if t != "" {
			t += " "
		}
		t += p.N
		if p.D != "" {
			t += " = " + p.D
		}
		out = append(out, t)
	}
	return out
}

func (st *clStep) libText() string {
	b := &strings.Builder{}
	b.WriteString("<?php\n")
	for i, f := range st.Lib.F {
		fmt.Fprintf(b, "function f%d(%s) {}\n", i+1, strings.Join(clParams(f, false), ", "))
	}
	for i, c := range st.Lib.C {
		fmt.Fprintf(b, "class K%d", i+1)
		if c.Up > 0 {
			fmt.Fprintf(b, " extends K%d", c.Up)
		}
		b.WriteString(" {\n  const CA = 1;\n")
		for _, m := range []struct {
			head string
			ps   []clParam
		}{{"public function __construct", c.Ctor}, {"public function m", c.M}, {"public static function sm", c.Sm}} {
			if !clNone(m.ps) {
				fmt.Fprintf(b, "  %s(%s) {}\n", m.head, strings.Join(clParams(m.ps, false), ", "))
			}
		}
		fmt.Fprintf(b, "}\n/** @return K%[2]d */\nfunction k%[1]d() { return new K%[3]d; }\n", i+1, i+1, i+1)
	}
	return b.String()
}

// write returns the text, and where each of the tokens is
func (st *clStep) write() (string, []protocol.Range) {
	p := &pen{eol: eols[st.Eol]}
	at := []protocol.Range{}
	for _, t := range st.Ts {
		r := protocol.Range{Start: p.pos()}
		for _, c := range t.T {
			p.w(string(c))
		}
		r.End = p.pos()
		at = append(at, r)
	}
	if st.Open {
		for _, c := range st.Tail {
			p.w(string(c))
		}
	}
	return p.b.String(), at
}

func init() {
	subs["calls"] = func(r *rec, t json.RawMessage) {
		var steps []clStep
		if err := json.Unmarshal(t, &steps); err != nil {
			fatal(err)
		}
		dir := scratchDir("calls")
		defer os.RemoveAll(dir)
		s := newSession()
		s.start(dir)
		defer s.end()
		uri, lib := util.PathToURI(filepath.Join(dir, "a.php")), util.PathToURI(filepath.Join(dir, "lib.php"))
		old, oldLib := "", ""
		for i := range steps {
			st := &steps[i]
			r.step = i
			text, at := st.write()
			libText := st.libText()
			switch {
			case st.What == "open" && len(text)%2 == 0:
				s.open(uri, text)
				s.open(lib, libText)
			case st.What == "open":
				s.open(lib, libText)
				s.open(uri, text)
			default:
				for _, d := range []struct{ uri, old, text string }{{uri, old, text}, {lib, oldLib, libText}} {
					if d.old == d.text {
						continue
					}
					c := minimalChange(d.old, d.text)
					x := newLineIndex(d.old)
					a, b := x.offset(c.Range.Start), x.offset(c.Range.End)
					if a > 0 && b < len(d.old) && d.old[a-1] == '\r' && d.old[b] == '\n' && a < b || len(d.text)%3 == 0 {
						s.change(d.uri, []M{{"text": d.text}})
					} else {
						s.change(d.uri, []M{{"range": c.Range, "text": c.Text}})
					}
				}
			}
			old, oldLib = text, libText
			show := func() {
				if os.Getenv("CALLS_TEXT") != "" {
					fmt.Fprintf(os.Stderr, "%s\n----\n%s\n", libText, strings.NewReplacer("\r\n", "\n", "\r", "\n").Replace(text))
				}
			}
			bad := false
			count("documents", 1)
			x := newLineIndex(text)
			// an unfinished call makes a mess of what follows, but not of the place being written
			for _, a := range st.Asks {
				if st.Open && a.I != len(st.Ts) {
					continue
				}
				places := []protocol.Position{at[a.I-1].End}
				// the places in what is written next
				if a.I < len(st.Ts) && st.Ts[a.I].W == "x" {
					from, to := x.offset(at[a.I].Start), x.offset(at[a.I].End)
					for o := from + 1; o < to; o += 2 {
						if utf8.RuneStart(text[o]) {
							places = append(places, x.position(o))
						}
					}
				}
				want := "nothing"
				if !clNone(a.Sig) {
					want = fmt.Sprintf("%s, at %d", strings.Join(clParams(a.Sig, true), " | "), a.K)
				}
				for _, pos := range places {
					var help *protocol.SignatureHelp
					if err := s.call("textDocument/signatureHelp", posParams(uri, pos), &help); err != nil {
						r.mismatch("signature help", "an answer", err.Error())
						return
					}
					have := "nothing"
					if help != nil && len(help.Signatures) > 0 {
						lines := []string{}
						for _, sig := range help.Signatures {
							labels := []string{}
							for _, p := range sig.Parameters {
								labels = append(labels, p.Label)
							}
							if !strings.HasSuffix(sig.Label, "("+strings.Join(labels, ", ")+")") {
								labels = append(labels, "in "+sig.Label)
							}
							lines = append(lines, strings.Join(labels, " | "))
						}
						have = fmt.Sprintf("%s, at %v", strings.Join(lines, " and "), help.ActiveParameter)
						count("signatures", 1)
					}
					count("places", 1)
					if st.Open {
						count("unfinished", 1)
					}
					if want != have {
						bad = true
						o := x.offset(pos)
						r.mismatch(fmt.Sprintf("the signature at %d:%d, before %q, after %q", pos.Line, pos.Character, text[o:clip(o+12, len(text))], text[clip(o-30, len(text)):o]), want, have)
					}
				}
			}
			if !st.Open {
				var edits []protocol.TextEdit
				if err := s.call("documentSignatures", M{"uri": uri}, &edits); err != nil {
					r.mismatch("the hints", "an answer", err.Error())
					return
				}
				want, have := []string{}, []string{}
				for _, h := range st.Hints {
					want = append(want, rangeKeys([]protocol.Range{{Start: at[h.From-1].Start, End: at[h.To-1].End}})[0]+" "+h.N)
				}
				for _, e := range edits {
					have = append(have, rangeKeys([]protocol.Range{e.Range})[0]+" "+e.NewText)
				}
				sort.Strings(want)
				sort.Strings(have)
				count("hints", len(want))
				if strings.Join(want, "\n") != strings.Join(have, "\n") {
					bad = true
					r.mismatch("the hints", want, have)
				}
			}
			if bad {
				show()
				return
			}
		}
	}
}

func clip(o, n int) int {
	if o < 0 {
		return 0
	}
	if o > n {
		return n
	}
	return o
}

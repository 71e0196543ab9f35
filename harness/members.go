package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
	"github.com/john-nguyen09/phpintel/util"
)

// Worlds of types as of specs/MembersGen.tla, rendered into files of a workspace; each
// access is asked for its definitions and completions.

type mbMember struct {
	K, N, Vis string
	St, Up    bool
}

type mbDecl struct {
	N, K           string
	Ext, Impl, Use []string
	Mem            []mbMember
	File           int
	Low            bool
}

type mbAnswer struct {
	K, N string
	A    struct {
		Ok   [][]int
		Must bool
	}
}

type mbAccess struct {
	C       int
	F, T    string
	Closure bool
	Anon    bool
	Ans     []mbAnswer
}

type mbTrace struct {
	World   []mbDecl
	Acc     []mbAccess
	Anycase bool
}

type mbFile struct {
	pen
	uri string
}

type mbWorld struct {
	mbTrace
	dir    string
	eol    string
	places map[string]string            // uri:line:col -> place
	asks   map[[2]int]protocol.Position // access, answer -> where to ask
	at     map[int]*protocol.Position   // access -> where the word to complete ends
	fileOf map[int]string               // access -> uri
}

func (m mbMember) written() string {
	if m.Up && m.K == "m" {
		return strings.ToUpper(m.N)
	}
	return m.N
}

func fqRef(n string, low bool) string {
	if i := strings.LastIndex(n, `\`); low {
		n = n[:i+1] + strings.ToLower(n[i+1:])
	}
	return `\` + n
}

func fqRefs(ns []string, low bool) string {
	var rs []string
	for _, n := range ns {
		rs = append(rs, fqRef(n, low))
	}
	return strings.Join(rs, ", ")
}

func (w *mbWorld) isInterface(n string) bool {
	for _, d := range w.World {
		if d.N == n && d.K == "class" {
			return false
		}
	}
	return true
}

// access writes the code of an access, or, with a word, its beginning
func (w *mbWorld) access(f *mbFile, i int, word *string) {
	a := w.Acc[i]
	w.fileOf[i] = f.uri
	param, lead, sep := "", "", "::"
	form := a.F
	if w.isInterface(a.T) && (form == "var" || form == "inst") {
		param = fqRef(a.T, false) + " $o"
	}
	switch form {
	case "var", "inst":
		lead = "$o"
	case "param":
		param = fqRef(a.T, false) + " $o"
		lead = "$o"
	case "this":
		lead = "$this"
	case "name":
		lead = fqRef(a.T, i%3 == 0 && !w.isInterface(a.T))
	default:
		lead = form
	}
	if form == "var" || form == "param" || form == "this" {
		sep = "->"
	}
	if a.Anon {
		f.w(fmt.Sprintf("    public function zy%d() {\n      $x = new class {\n", i))
	}
	if a.C != 0 {
		f.w("    public ")
	}
	if a.Closure {
		f.w(fmt.Sprintf("function zz%d() {\n        $f = function (%s) {\n", i, param))
	} else {
		f.w(fmt.Sprintf("function zz%d(%s) {\n", i, param))
	}
	if param == "" && lead == "$o" {
		f.w("        $o = new " + fqRef(a.T, false) + "();\n")
	}
	if word != nil {
		f.w("        " + lead + sep + *word)
		p := f.pos()
		w.at[i] = &p
		// the parser does not always recover from a missing semicolon this deep
		if a.Anon && a.Closure || i%4 == 3 {
			f.w(";")
		}
		f.w("\n")
	} else {
		for j, x := range a.Ans {
			f.w("        " + lead + sep)
			if x.K == "p" && sep == "::" {
				f.w("$")
			}
			name := x.N
			if x.K == "m" && (i+j)%3 == 0 {
				name = strings.ToUpper(name)
			}
			p := f.pos()
			p.Character++
			w.asks[[2]int{i, j}] = p
			f.w(name)
			if x.K == "m" {
				f.w("()")
			}
			f.w(";\n")
		}
	}
	if a.Closure {
		f.w("        };\n")
	}
	f.w("    }\n")
	if a.Anon {
		f.w("      };\n    }\n")
	}
}

// render writes file k; the access `at` is only begun, with the word
func (w *mbWorld) render(k int, at int, word string) *mbFile {
	f := &mbFile{uri: util.PathToURI(filepath.Join(w.dir, fmt.Sprintf("f%d.php", k)))}
	f.eol = w.eol
	wordOf := func(i int) *string {
		if i == at {
			return &word
		}
		return nil
	}
	f.w(fmt.Sprintf("<?php\nnamespace {\nclass Zmark%d {}\n}\n", k))
	if k == 0 {
		f.w("namespace {\n")
		for i, a := range w.Acc {
			if a.C == 0 {
				w.access(f, i, wordOf(i))
			}
		}
		f.w("}\n")
		return f
	}
	for di, d := range w.World {
		if d.File != k {
			continue
		}
		ns, n := "", d.N
		if i := strings.LastIndex(n, `\`); i >= 0 {
			ns, n = n[:i]+" ", n[i+1:]
		}
		f.w("namespace " + ns + "{\n" + d.K + " " + n)
		if len(d.Ext) > 0 {
			f.w(" extends " + fqRefs(d.Ext, d.Low && (d.K == "class" || w.Anycase)))
		}
		if len(d.Impl) > 0 {
			f.w(" implements " + fqRefs(d.Impl, d.Low && w.Anycase))
		}
		f.w(" {\n")
		if len(d.Use) > 0 {
			f.w("    use " + fqRefs(d.Use, d.Low && w.Anycase) + ";\n")
		}
		for mi, m := range d.Mem {
			f.w("    ")
			place := fmt.Sprintf("%d.%d", di+1, mi+1)
			mark := func() {
				p := f.pos()
				w.places[fmt.Sprintf("%s:%d:%d", f.uri, p.Line, p.Character)] = place
			}
			static := ""
			if m.St {
				static = "static "
			}
			switch m.K {
			case "m":
				mark()
				f.w(m.Vis + " " + static + "function " + m.written() + "()")
				if d.K == "interface" {
					f.w(";\n")
				} else {
					f.w(" {}\n")
				}
			case "p":
				f.w(m.Vis + " " + static)
				mark()
				f.w("$" + m.N + " = 1;\n")
			case "c":
				if d.K != "interface" {
					f.w(m.Vis + " ")
				}
				f.w("const ")
				mark()
				f.w(m.N + " = 1;\n")
			}
		}
		for i, a := range w.Acc {
			if a.C == di+1 {
				w.access(f, i, wordOf(i))
			}
		}
		f.w("}\n}\n")
	}
	return f
}

func (w *mbWorld) answerKey(places [][]int) []string {
	ks := []string{}
	for _, p := range places {
		ks = append(ks, fmt.Sprintf("%d.%d", p[0], p[1]))
	}
	sort.Strings(ks)
	return ks
}

func (a mbAccess) String() string { return fmt.Sprintf("%s of %s in %d", a.F, a.T, a.C) }

func init() {
	subs["members"] = func(r *rec, t json.RawMessage) {
		w := &mbWorld{dir: scratchDir("mb"), places: map[string]string{}, asks: map[[2]int]protocol.Position{}, at: map[int]*protocol.Position{}, fileOf: map[int]string{}}
		defer os.RemoveAll(w.dir)
		if err := json.Unmarshal(t, &w.mbTrace); err != nil {
			fatal(err)
		}
		w.eol = []string{"\n", "\r\n"}[r.n%2]
		files := map[int]*mbFile{}
		texts := map[string]string{}
		number := map[string]int{}
		for k := 0; k <= 3; k++ {
			f := w.render(k, -1, "")
			files[k] = f
			texts[f.uri] = f.b.String()
			number[f.uri] = k
			writeFile(filepath.Join(w.dir, fmt.Sprintf("f%d.php", k)), f.b.String())
		}
		s := newSession()
		defer s.end()
		if err := s.start(w.dir); err != nil {
			r.mismatch("initialize", "answered", err.Error())
			return
		}
		for k := 0; k <= 3; k++ {
			k := k
			if !waitFor(60*time.Second, func() bool {
				var got []protocol.SymbolInformation
				name := fmt.Sprintf("Zmark%d", k)
				if s.call("workspace/symbol", M{"query": name}, &got) != nil {
					return false
				}
				for _, x := range got {
					if strings.HasSuffix(x.Name, name) {
						return true
					}
				}
				return false
			}) {
				r.mismatch("the workspace is indexed", "Zmark of every file is found", k)
				return
			}
		}
		opened := map[string]bool{}
		for i := range w.Acc {
			if uri := w.fileOf[i]; !opened[uri] {
				opened[uri] = true
				s.open(uri, texts[uri])
			}
		}
		for i, a := range w.Acc {
			r.step = i
			for j, x := range a.Ans {
				var got []protocol.Location
				pos := w.asks[[2]int{i, j}]
				if err := s.call("textDocument/definition", posParams(w.fileOf[i], pos), &got); err != nil {
					r.mismatch("definition", "answered", err.Error())
					return
				}
				count("definitions", 1)
				ok := w.answerKey(x.A.Ok)
				seen := []string{}
				good := true
				for _, l := range got {
					p, known := w.places[fmt.Sprintf("%s:%d:%d", l.URI, l.Range.Start.Line, l.Range.Start.Character)]
					if !known {
						p = fmt.Sprintf("%s:%v", filepath.Base(string(l.URI)), l.Range.Start)
					}
					for _, q := range seen {
						good = good && q != p
					}
					seen = append(seen, p)
					in := false
					for _, q := range ok {
						in = in || q == p
					}
					good = good && in
				}
				if len(seen) > 0 {
					count("found", 1)
				}
				var h struct {
					Contents protocol.MarkupContent `json:"contents"`
				}
				if err := s.call("textDocument/hover", posParams(w.fileOf[i], pos), &h); err != nil {
					r.mismatch("hover", "answered", err.Error())
					return
				}
				named := strings.Contains(strings.ToLower(h.Contents.Value), strings.ToLower(x.N))
				if named != (len(seen) > 0) {
					r.mismatch(fmt.Sprintf("hover of %s %s by %s (access %d) names it", x.K, x.N, a, i), len(seen) > 0, h.Contents.Value)
				}
				if !good || (x.A.Must && len(seen) == 0) {
					r.mismatch(fmt.Sprintf("definition of %s %s by %s (access %d)", x.K, x.N, a, i), M{"oneOf": ok, "must": x.A.Must}, seen)
				}
			}
		}
		for i, a := range w.Acc {
			r.step = i
			uri := w.fileOf[i]
			words := []string{"", "m", "pa", "C"}
			scoped := !(a.F == "var" || a.F == "param" || a.F == "this")
			if scoped {
				words = []string{"", "ma", "$", "$p", "CA"}
			}
			for _, word := range words {
				f := w.render(number[uri], i, word)
				s.change(uri, []M{{"text": f.b.String()}})
				var got protocol.CompletionList
				if err := s.call("textDocument/completion", posParams(uri, *w.at[i]), &got); err != nil {
					r.mismatch("completion", "answered", err.Error())
					return
				}
				count("completions", 1)
				times := map[string]int{}
				for _, it := range got.Items {
					switch it.Kind {
					case protocol.MethodCompletion:
						times["m "+strings.ToLower(it.Label)]++
					case protocol.PropertyCompletion:
						times["p "+it.Label]++
					default:
						times["c "+it.Label]++
					}
				}
				for _, x := range a.Ans {
					label := x.N
					if x.K == "p" && scoped {
						label = "$" + label
					}
					n := times[x.K+" "+label]
					match := strings.HasPrefix(strings.ToLower(label), strings.ToLower(word))
					if word != "" && word[0] == '$' && x.K != "p" {
						match = false
						if n == 0 {
							continue
						}
					}
					if n > 0 {
						count("offered", 1)
					}
					if n > 1 || (n > 0 && len(x.A.Ok) == 0) || (n == 0 && x.A.Must && match) {
						want := "offered"
						if len(x.A.Ok) == 0 {
							want = "not offered"
						} else if n > 1 {
							want = "offered once"
						}
						r.mismatch(fmt.Sprintf("completion of %q: %s %s by %s (access %d)", word, x.K, x.N, a, i), want, n)
					}
				}
			}
			s.change(uri, []M{{"text": texts[uri]}})
		}
		count("accesses", len(w.Acc))
	}
}

package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
)

// The files of specs/Php.tla, and their rendering as PHP. The renderer records where
// every declaration and every used name is, in the positions of the protocol.

type phpName struct {
	S string   `json:"s"`
	L string   `json:"l"`
	W []string `json:"w"`
}

type phpRef struct {
	FQ bool     `json:"fq"`
	NS []string `json:"ns"`
	N  string   `json:"n"`
}

func (r phpRef) String() string {
	if !r.FQ {
		return r.N
	}
	return nsString(r.NS) + "\\" + r.N
}

func nsString(parts []string) string {
	s := ""
	for _, p := range parts {
		s += "\\" + p
	}
	return s
}

type phpStmt struct {
	U string `json:"u"`
	R phpRef `json:"r"`
	M string `json:"m"`
}

type phpParam struct {
	N string   `json:"n"`
	T []phpRef `json:"t"`
}

type phpMember struct {
	K      string     `json:"k"`
	Name   phpName    `json:"name"`
	Vis    string     `json:"vis"`
	Static bool       `json:"static"`
	Abs    bool       `json:"abs"`
	Params []phpParam `json:"params"`
	Ret    []phpRef   `json:"ret"`
	Body   []phpStmt  `json:"body"`
	T      oneOrMany  `json:"t"`
	V      int        `json:"v"`
}

type phpItem struct {
	K       string      `json:"k"`
	Name    phpName     `json:"name"`
	Mod     string      `json:"mod"`
	Ext     []phpRef    `json:"ext"`
	Impl    []phpRef    `json:"impl"`
	Members []phpMember `json:"members"`
	Params  []phpParam  `json:"params"`
	Ret     []phpRef    `json:"ret"`
	Body    []phpStmt   `json:"body"`
	V       int         `json:"v"`
	N       string      `json:"n"`
	T       []phpRef    `json:"t"`
}

type phpFile struct {
	Secs []struct {
		NS    []string  `json:"ns"`
		Items []phpItem `json:"items"`
	} `json:"secs"`
	None  bool   `json:"none"`
	EOL   string `json:"eol"`
	Pad   int    `json:"pad"`
	Brace bool   `json:"brace"`
}

// rendered is a file's text with the ranges of its declarations and used names.
type rendered struct {
	text  string
	decls map[string]protocol.Range // by at
	uses  map[string]protocol.Range // by at and w
}

// pen writes text while keeping track of the position, in UTF-16 units.
type pen struct {
	b         strings.Builder
	line, col int
	eol       string
}

func (p *pen) pos() protocol.Position { return protocol.Position{Line: p.line, Character: p.col} }

// w writes; "\n" becomes the file's line ending
func (p *pen) w(s string) {
	for _, c := range s {
		if c == '\n' {
			p.b.WriteString(p.eol)
			p.line++
			p.col = 0
			continue
		}
		p.b.WriteRune(c)
		p.col++
		if c > 0xffff {
			p.col++
		}
	}
}

func (p *pen) name(s string) protocol.Range {
	start := p.pos()
	p.w(s)
	return protocol.Range{Start: start, End: p.pos()}
}

var eols = map[string]string{"lf": "\n", "crlf": "\r\n", "cr": "\r"}

func atKey(at []int) string { return strings.Trim(fmt.Sprint(at), "[]") }

func useKey(at string, w ...interface{}) string {
	return at + "|" + strings.Trim(fmt.Sprint(w...), "[]")
}

type phpWriter struct {
	pen
	rendered
	pad int
}

func (f phpFile) render() rendered {
	w := &phpWriter{pad: f.Pad}
	w.eol = eols[f.EOL]
	if w.eol == "" {
		w.eol = "\n"
	}
	w.decls = map[string]protocol.Range{}
	w.uses = map[string]protocol.Range{}
	w.w("<?php\n")
	for i := 0; i < f.Pad; i++ {
		w.w([]string{"\n", "/* é𝄞\n */", "\n"}[i%3])
	}
	brace := f.braced()
	for i, s := range f.Secs {
		n := strings.Join(s.NS, "\\")
		if brace {
			w.w(strings.TrimRight("namespace "+n, " ") + " {\n")
		} else if n != "" {
			w.w("namespace " + n + ";\n")
		}
		for j, it := range s.Items {
			w.item(it, atKey([]int{i + 1, j + 1}))
		}
		if brace {
			w.w("}\n")
		}
	}
	w.text = w.b.String()
	return w.rendered
}

// braced: the namespaces are written with braces
func (f phpFile) braced() bool {
	for _, s := range f.Secs {
		if len(f.Secs) > 1 && len(s.NS) == 0 {
			return true
		}
	}
	return f.Brace
}

func (w *phpWriter) use(at string, r string, k ...interface{}) {
	w.uses[useKey(at, k)] = w.name(r)
}

func (w *phpWriter) refs(at, kind, lead string, rs []phpRef) {
	for i, r := range rs {
		if i == 0 {
			w.w(lead)
		} else {
			w.w(", ")
		}
		w.use(at, r.String(), kind, i+1)
	}
}

func (w *phpWriter) gap() {
	if w.pad%2 == 1 {
		w.w("/* 𝄞é */ ")
	}
}

func (w *phpWriter) params(at string, ps []phpParam, ret []phpRef) {
	w.w("(")
	for i, p := range ps {
		if i > 0 {
			w.w(", ")
		}
		if len(p.T) > 0 {
			w.use(at, p.T[0].String(), "param", i+1)
			w.w(" ")
		}
		w.w("$" + p.N)
	}
	w.w(")")
	w.refs(at, "ret", ": ", ret)
}

func (w *phpWriter) body(at string, b []phpStmt, indent string) {
	for i, s := range b {
		name := func() { w.use(at, s.R.String(), "stmt", i+1, "name") }
		member := func(n string) { w.use(at, n, "stmt", i+1, "member") }
		w.w(indent)
		w.gap()
		switch s.U {
		case "call":
			name()
			w.w("(1);")
		case "new":
			w.w("$o = new ")
			name()
			w.w("();")
		case "inst":
			w.w("$b = $o instanceof ")
			name()
			w.w(";")
		case "catch":
			w.w("try { } catch (")
			name()
			w.w(" $e) { }")
		case "scall":
			name()
			w.w("::")
			member(s.M)
			w.w("();")
		case "sprop":
			name()
			w.w("::")
			member("$" + s.M)
			w.w(";")
		case "cconst":
			name()
			w.w("::")
			member(s.M)
			w.w(";")
		case "mcall":
			w.w("$o->")
			member(s.M)
			w.w("();")
		case "prop":
			w.w("$o->")
			member(s.M)
			w.w(";")
		}
		w.w("\n")
	}
}

func (w *phpWriter) block(at string, b []phpStmt, indent string) {
	w.w(" {\n")
	w.body(at, b, indent+"    ")
	w.w(indent + "}")
}

func (w *phpWriter) item(it phpItem, at string) {
	decl := func(f func()) {
		start := w.pos()
		f()
		w.decls[at] = protocol.Range{Start: start, End: w.pos()}
	}
	w.gap()
	switch it.K {
	case "class", "interface", "trait":
		decl(func() {
			if it.Mod != "" {
				w.w(it.Mod + " ")
			}
			w.w(it.K + " ")
			w.use(at, it.Name.S, "decl", 1)
			w.refs(at, "ext", " extends ", it.Ext)
			w.refs(at, "impl", " implements ", it.Impl)
			w.w("\n{\n")
			for j, m := range it.Members {
				w.member(it.K, m, at+fmt.Sprintf(" %d", j+1))
			}
			w.w("}")
		})
		w.w("\n")
	case "function":
		decl(func() {
			w.w("function ")
			w.use(at, it.Name.S, "decl", 1)
			w.params(at, it.Params, it.Ret)
			w.block(at, it.Body, "")
		})
		w.w("\n")
	case "const":
		w.w("const ")
		decl(func() { w.w(fmt.Sprintf("%s = %d", it.Name.S, it.V)) })
		w.w(";\n")
	case "define":
		decl(func() { w.w(fmt.Sprintf("define('%s', %d)", it.Name.S, it.V)) })
		w.w(";\n")
	case "gvar":
		w.w("/** @global ")
		w.use(at, it.T[0].String(), "doc", 1)
		w.w(" " + it.N + " */\nglobal ")
		decl(func() { w.w(it.N) })
		w.w(";\n")
	case "stmts":
		w.w("\n")
		w.body(at, it.Body, "")
	}
}

func (w *phpWriter) member(owner string, m phpMember, at string) {
	w.w("    ")
	w.gap()
	static := ""
	if m.Static {
		static = "static "
	}
	start := w.pos()
	end := func() { w.decls[at] = protocol.Range{Start: start, End: w.pos()} }
	switch m.K {
	case "use":
		w.w("use ")
		w.use(at, m.T[0].String(), "use", 1)
		w.w(";")
	case "method":
		if m.Abs {
			w.w("abstract ")
		}
		w.w(m.Vis + " " + static + "function ")
		w.use(at, m.Name.S, "decl", 1)
		w.params(at, m.Params, m.Ret)
		if m.Abs || owner == "interface" {
			w.w(";")
		} else {
			w.block(at, m.Body, "    ")
		}
		end()
	case "prop":
		if len(m.T) > 0 {
			w.w("/** @var ")
			w.use(at, m.T[0].String(), "doc", 1)
			w.w(" */ ")
		}
		w.w(m.Vis + " " + static)
		start = w.pos()
		w.use(at, "$"+m.Name.S, "decl", 1)
		end()
		w.w(";")
	case "cconst":
		if owner != "interface" || m.Vis != "public" {
			w.w(m.Vis + " ")
		}
		w.w("const ")
		start = w.pos()
		w.use(at, m.Name.S, "decl", 1)
		w.w(fmt.Sprintf(" = %d", m.V))
		end()
		w.w(";")
	}
	w.w("\n")
}

// lineIndex finds positions in a text.
type lineIndex struct {
	text   string
	starts []int
}

func newLineIndex(text string) lineIndex {
	x := lineIndex{text, []int{0}}
	for i := 0; i < len(text); i++ {
		if text[i] == '\n' || text[i] == '\r' && !(i+1 < len(text) && text[i+1] == '\n') {
			x.starts = append(x.starts, i+1)
		}
	}
	return x
}

func (x lineIndex) position(off int) protocol.Position {
	line := 0
	for line+1 < len(x.starts) && x.starts[line+1] <= off {
		line++
	}
	n := 0
	for _, c := range x.text[x.starts[line]:off] {
		n++
		if c > 0xffff {
			n++
		}
	}
	return protocol.Position{Line: line, Character: n}
}

// boundary: whether a position may point there
func boundary(text string, i int) bool {
	if i > 0 && i < len(text) && text[i-1] == '\r' && text[i] == '\n' {
		return false
	}
	return i == len(text) || utf8.RuneStart(text[i])
}

// minimalChange is one ranged change that turns old into new.
func minimalChange(old, new string) protocol.TextDocumentContentChangeEvent {
	a := 0
	for a < len(old) && a < len(new) && old[a] == new[a] {
		a++
	}
	for !boundary(old, a) || !boundary(new, a) {
		a--
	}
	b, c := len(old), len(new)
	for b > a && c > a && old[b-1] == new[c-1] {
		b, c = b-1, c-1
	}
	for !boundary(old, b) || !boundary(new, c) {
		b, c = b+1, c+1
	}
	x := newLineIndex(old)
	return protocol.TextDocumentContentChangeEvent{
		Range: &protocol.Range{Start: x.position(a), End: x.position(b)}, Text: new[a:c]}
}

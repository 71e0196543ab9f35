package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode/utf16"

	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
	"github.com/john-nguyen09/phpintel/util"
)

// Documents as of specs/NamesGen.tla. Where the definition of each name is found is compared, and
// every completion is applied: what it writes has to be one of the ways to write the symbol.

type nmOut struct{ T, U string }

type nmCand struct {
	K, P string
	Out  []nmOut
}

type nmSite struct {
	What, K, W, P, Form string
	Hit, Open, Low      bool
	Cand                []nmCand
	at                  protocol.Range
	tops                []protocol.Position // where imports can be added
}

type nmTrace struct {
	Defs []struct {
		K, P string
		Alt  bool
	}
	Blocks []struct {
		Ns   string
		Uses []struct {
			K, Pre string
			Cl     []struct{ K, P, A string }
		}
		Sites []nmSite
	}
	Braced, Declare bool
	Eol             string
}

func splitName(p string) (string, string) {
	i := strings.LastIndex(p, `\`)
	if i < 0 {
		return "", p
	}
	return p[:i], p[i+1:]
}

// offsetAt is the offset of a position in s
func offsetAt(s string, pos protocol.Position) int {
	at := 0
	for l := 0; l < pos.Line; l++ {
		i := strings.IndexByte(s[at:], '\n')
		if i < 0 {
			return len(s)
		}
		at += i + 1
	}
	col := 0
	for i, c := range s[at:] {
		if col >= pos.Character {
			return at + i
		}
		col += utf16.RuneLen(c)
	}
	return len(s)
}

func positionOf(s string, offset int) protocol.Position {
	line := strings.Count(s[:offset], "\n")
	col := 0
	for _, c := range s[strings.LastIndexByte(s[:offset], '\n')+1 : offset] {
		col += utf16.RuneLen(c)
	}
	return protocol.Position{Line: line, Character: col}
}

func (t *nmTrace) definitions() (string, map[int]string) {
	p := &pen{eol: eols[t.Eol]}
	p.w("<?php\n")
	lines := map[int]string{}
	spaces := map[string][]int{}
	for i, d := range t.Defs {
		ns, _ := splitName(d.P)
		spaces[ns] = append(spaces[ns], i)
	}
	var names []string
	for ns := range spaces {
		names = append(names, ns)
	}
	sort.Strings(names)
	for _, ns := range names {
		p.w("namespace " + ns + " {\n")
		for _, i := range spaces[ns] {
			d := t.Defs[i]
			_, n := splitName(d.P)
			p.w("/** " + d.K + " " + d.P + "> */\n")
			lines[p.line] = d.K + " " + d.P
			switch d.K {
			case "class":
				p.w("class " + n + " { const K = 1; }\n")
			case "iface":
				p.w("interface " + n + " {}\n")
			case "trait":
				p.w("trait " + n + " {}\n")
			case "func":
				if d.Alt {
					p.w("function " + n + "($a) { return $a; }\n")
				} else {
					p.w("function " + n + "() { return 1; }\n")
				}
			default:
				if d.Alt {
					p.w("define('" + d.P + "', 1);\n")
				} else {
					p.w("const " + n + " = 1;\n")
				}
			}
		}
		p.w("}\n")
	}
	return p.b.String(), lines
}

func (t *nmTrace) document() (string, []*nmSite) {
	p := &pen{eol: eols[t.Eol]}
	p.w("<?php")
	start := []protocol.Position{p.pos(), {Line: 1}}
	p.w("\n")
	if t.Declare {
		p.w("declare(strict_types=1);")
		start = []protocol.Position{p.pos()}
		p.w("\n\n")
	}
	var sites []*nmSite
	z := 0
	for i := range t.Blocks {
		b := &t.Blocks[i]
		tops := start
		in := ""
		if t.Braced {
			p.w(strings.TrimSpace("namespace "+b.Ns) + " {")
			in = "    "
			tops = []protocol.Position{p.pos()}
			p.w("\n")
		} else if b.Ns != "" {
			p.w("namespace " + b.Ns + ";")
			tops = []protocol.Position{p.pos()}
			p.w("\n\n")
		}
		for _, u := range b.Uses {
			p.w(in + "use " + u.K)
			if u.Pre != "" {
				p.w(u.Pre + `\{`)
			}
			for j, c := range u.Cl {
				if j > 0 {
					p.w(", ")
				}
				p.w(c.K + c.P)
				if c.A != "" {
					p.w(" as " + c.A)
				}
			}
			if u.Pre != "" {
				p.w("}")
			}
			p.w(";")
			tops = append(tops, p.pos())
			p.w("\n")
		}
		for j := range b.Sites {
			s := &b.Sites[j]
			s.tops = tops
			sites = append(sites, s)
			z++
			if s.Low {
				// aliases of classes and functions are the same in any case
				first, rest := s.W, ""
				if i := strings.Index(s.W, `\`); i >= 0 {
					first, rest = s.W[:i], s.W[i:]
				}
				s.W = strings.ToLower(first) + rest
				s.Cand = nil
			}
			parts := map[string][2]string{
				"new": {"$v = new ", "();"}, "static": {"$v = ", "::K;"}, "inst": {"$v = $v instanceof ", ";"},
				"catch": {"try { $v = 1; } catch (", " $e) { echo $e; }"},
				"ext":   {fmt.Sprintf("class Zz%d extends ", z), " {}"}, "impl": {fmt.Sprintf("class Zz%d implements ", z), " {}"},
				"param":  {fmt.Sprintf("function zz%d(", z), " $p) { return $p; }"},
				"iparam": {fmt.Sprintf("function zz%d(?", z), " $p) { return $p; }"},
				"ret":    {fmt.Sprintf("function zz%d(): ", z), " { return 1; }"},
				"iext":   {fmt.Sprintf("interface Zz%d extends ", z), " {}"},
				"trait":  {fmt.Sprintf("class Zz%d { use ", z), "; }"}, "call": {"", "(1);"}, "call2": {"$v = ['é', ", "(1)];"},
				"const": {"$v = ", ";"}, "const2": {fmt.Sprintf("function zz%d() { return 1 + ", z), "; }"},
			}[s.What]
			if s.What == "call" && s.Form == "rel" {
				// the parser takes it for a namespace declaration at the start of a statement
				parts[0] = "echo "
			}
			p.w(in + parts[0])
			s.at = p.name(s.W)
			p.w(parts[1] + "\n")
		}
		if t.Braced {
			p.w("}\n")
		}
	}
	return p.b.String(), sites
}

func init() {
	subs["names"] = func(r *rec, raw json.RawMessage) {
		var t nmTrace
		if err := json.Unmarshal([]byte(strings.ReplaceAll(string(raw), "Ce", "Cé")), &t); err != nil {
			fatal(err)
		}
		dir := scratchDir("names")
		defer os.RemoveAll(dir)
		defs, lines := t.definitions()
		text, sites := t.document()
		s := newSession()
		s.start(dir)
		defer s.end()
		uri := util.PathToURI(filepath.Join(dir, "a.php"))
		defURI := util.PathToURI(filepath.Join(dir, "defs.php"))
		s.open(defURI, defs)
		s.open(uri, text)
		if err := s.barrier(); err != nil {
			r.mismatch("the document is opened", "an answer", err.Error())
			return
		}
		definition := func(pos protocol.Position) string {
			var locs []protocol.Location
			if err := s.call("textDocument/definition", posParams(uri, pos), &locs); err != nil {
				return err.Error()
			}
			var found []string
			for _, l := range locs {
				if l.URI == defURI {
					found = append(found, lines[l.Range.Start.Line])
				} else {
					found = append(found, fmt.Sprint(l))
				}
			}
			sort.Strings(found)
			return strings.Join(found, ", ")
		}
		lineOf := func(pos protocol.Position, text string) string { return strings.Split(text, "\n")[pos.Line] }
		for _, site := range sites {
			expected := ""
			if site.Hit {
				expected = site.K + " " + site.P
			}
			at := site.at.End
			at.Character--
			r.step++
			got := definition(at)
			if !site.Open && got != expected {
				r.mismatch("the definition of "+site.W+" in: "+lineOf(at, text)+" of\n"+text, expected, got)
				if r.bad >= 3 {
					return
				}
				continue
			}
			count("name "+site.Form, 1)
			if site.Hit {
				count("found "+site.What, 1)
			}
		}
		for _, site := range sites {
			if len(site.Cand) == 0 {
				continue
			}
			var list *protocol.CompletionList
			if err := s.call("textDocument/completion", posParams(uri, site.at.End), &list); err != nil {
				r.mismatch("completion of "+site.W+" in: "+lineOf(site.at.End, text), "an answer", err.Error())
				return
			}
			if list == nil {
				continue
			}
			for _, item := range list.Items {
				doc := fmt.Sprint(item.Documentation)
				var c *nmCand
				for i := range site.Cand {
					if site.Cand[i].K == "trait" && site.K == "trait" && strings.Split(item.Detail, "\n")[0] == `\`+site.Cand[i].P {
						c = &site.Cand[i]
					}
					if strings.Contains(doc, site.Cand[i].K+" "+site.Cand[i].P+">") {
						c = &site.Cand[i]
					}
				}
				if c == nil {
					continue
				}
				written := item.InsertText
				if written == "" {
					written = item.Label
				}
				if c.K == "func" {
					written = strings.TrimSuffix(strings.TrimSuffix(strings.ReplaceAll(written, "$0", ""), "()"), "(")
				}
				if i := strings.LastIndex(site.W, `\`); i >= 0 {
					written = site.W[:i+1] + written
				}
				r.step++
				use, place := "", protocol.Position{}
				if len(item.AdditionalTextEdits) > 0 {
					e := item.AdditionalTextEdits[0]
					use = strings.TrimSpace(e.NewText)
					place = e.Range.Start
					ok := len(item.AdditionalTextEdits) == 1 && e.Range.Start == e.Range.End
					in := false
					for _, top := range site.tops {
						in = in || top == place
					}
					if !ok || !in {
						r.mismatch(fmt.Sprintf("completing %s in %s to %s %s adds its import among the imports, in\n%s", site.W, lineOf(site.at.End, text), c.K, c.P, text),
							fmt.Sprint(site.tops), fmt.Sprint(item.AdditionalTextEdits))
						if r.bad >= 3 {
							return
						}
						continue
					}
				}
				ok := false
				var ways []string
				for _, o := range c.Out {
					ok = ok || o.T == written && o.U == use
					ways = append(ways, strings.TrimSpace(o.T+" "+o.U))
				}
				if !ok {
					sort.Strings(ways)
					r.mismatch(fmt.Sprintf("completing %s in %s means %s %s, in\n%s", site.W, lineOf(site.at.End, text), c.K, c.P, text),
						strings.Join(ways, " | "), strings.TrimSpace(written+" "+use))
					if r.bad >= 3 {
						return
					}
					continue
				}
				count("completed "+c.K, 1)
				if use != "" {
					count("imported", 1)
				}
				// and the document with it is understood so
				from, to := offsetAt(text, site.at.Start), offsetAt(text, site.at.End)
				tail := ""
				if site.K == "const" && c.K == "class" {
					tail = "::K"
				} else if site.K == "const" && c.K == "func" {
					tail = "()"
				}
				changed := text[:from] + written + tail + text[to:]
				end := from + len(written)
				if use != "" {
					i := offsetAt(text, place)
					added := item.AdditionalTextEdits[0].NewText
					changed = changed[:i] + added + changed[i:]
					end += len(added)
				}
				s.change(uri, []M{{"text": changed}})
				got := definition(positionOf(changed, end-1))
				s.change(uri, []M{{"text": text}})
				if got != c.K+" "+c.P {
					r.mismatch(fmt.Sprintf("the definition of the completed %s, in\n%s", written, changed), c.K+" "+c.P, got)
					if r.bad >= 3 {
						return
					}
				}
			}
		}
	}
}

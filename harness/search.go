package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
	"github.com/john-nguyen09/phpintel/util"
)

// Groups of many symbols as of specs/SearchGen.tla, and completions and searches which reach the
// limit of the server or nearly so.

const serverLimit = 1000

type scGroup struct {
	ID, N, File int
	K, How      string
	Ns          []string
	Dup         bool
}

type scStep struct {
	Groups  []scGroup
	Queries []struct {
		Q struct {
			Cx, Kw string
			Up     int
			Scope  []string
		}
		Req []int
		Cov []string
	}
}

var scName = regexp.MustCompile(`^(Zq|FooZq|foo_zq_|azq|Bar)([A-Z])(\d+)$`)

func (g scGroup) name(i int) string {
	stem := map[string]string{"pre": "Zq", "word": "FooZq", "snake": "foo_zq_", "in": "azq", "none": "Bar"}[g.How]
	return stem + string(rune('A'+g.ID)) + strconv.Itoa(i)
}

func scFile(groups []scGroup, file int) string {
	var b strings.Builder
	b.WriteString("<?php\n")
	if file == 1 {
		b.WriteString("namespace { class Holder {\n")
		for _, g := range groups {
			for i := 0; i < g.N; i++ {
				n := g.name(i)
				switch g.K {
				case "method":
					b.WriteString("public function " + n + "() {}\n")
				case "smethod":
					b.WriteString("public static function " + n + "() {}\n")
				case "prop":
					b.WriteString("public $" + n + ";\n")
				case "cconst":
					b.WriteString("const " + n + " = 1;\n")
				}
			}
		}
		b.WriteString("} }\n")
	}
	for _, g := range groups {
		if g.File != file && !g.Dup {
			continue
		}
		ns := strings.Join(g.Ns, `\`)
		if g.K == "ns" {
			for i := 0; i < g.N; i++ {
				b.WriteString(strings.TrimPrefix("namespace "+ns+`\`+g.name(i), `\`) + " {}\n")
			}
			continue
		}
		b.WriteString("namespace " + ns + " {\n")
		for i := 0; i < g.N; i++ {
			n := g.name(i)
			switch g.K {
			case "class":
				b.WriteString("class " + n + " {}\n")
			case "iface":
				b.WriteString("interface " + n + " {}\n")
			case "trait":
				b.WriteString("trait " + n + " {}\n")
			case "func":
				b.WriteString("function " + n + "() {}\n")
			case "const":
				b.WriteString("const " + n + " = 1;\n")
			case "define":
				b.WriteString("define('" + strings.TrimPrefix(ns+`\`+n, `\`) + "', 1);\n")
			}
		}
		b.WriteString("}\n")
	}
	return strings.ReplaceAll(b.String(), `namespace \`, "namespace ")
}

func init() {
	subs["search"] = func(r *rec, raw json.RawMessage) {
		var steps []scStep
		if err := json.Unmarshal(raw, &steps); err != nil {
			fatal(err)
		}
		dir := scratchDir("search")
		defer os.RemoveAll(dir)
		s := newSession()
		s.start(dir)
		defer s.end()
		uri := func(n int) string { return util.PathToURI(filepath.Join(dir, fmt.Sprintf("f%d.php", n))) }
		texts := map[int]string{}
		main := uri(0)
		s.open(main, "<?php\n")
		for _, st := range steps {
			for f := 1; f <= 2; f++ {
				if t := scFile(st.Groups, f); texts[f] == "" {
					texts[f] = t
					s.open(uri(f), t)
				} else if t != texts[f] {
					texts[f] = t
					s.change(uri(f), []M{{"text": t}})
				}
			}
			byID := map[string]scGroup{}
			for _, g := range st.Groups {
				byID[string(rune('A'+g.ID))] = g
			}
			for _, q := range st.Queries {
				kw := ""
				if q.Q.Kw != "" {
					kw = []string{"zq", "Zq", "ZQ"}[q.Q.Up-1]
				}
				word := kw
				if len(q.Q.Scope) == 0 {
					word = `\` + kw
				} else if q.Q.Scope[0] != "*" {
					word = `\` + strings.Join(q.Q.Scope, `\`) + `\` + kw
				}
				shape := map[string][2]string{
					"new": {"$v = new ", "();"}, "ext": {"class Xx extends ", " {}"}, "impl": {"class Xx implements ", " {}"},
					"iext": {"interface Xx extends ", " {}"}, "trait": {"class Xx { use ", "; }"}, "param": {"function xx(", " $p) {}"},
					"static": {"$v = ", "::K;"}, "inst": {"$v = $v instanceof ", ";"}, "catch": {"try {} catch (", " $e) {}"},
					"expr": {"$v = ", ";"}, "member": {"$v = new Holder(); $v->", ";"}, "scoped": {"Holder::", ";"},
				}[q.Q.Cx]
				text := "<?php\n" + shape[0] + word
				at := protocol.Position{Line: 1, Character: len(shape[0] + word)}
				what := fmt.Sprintf("%s in %s%s%s", q.Q.Cx, shape[0], word, shape[1])
				r.step++
				// every answer is a list of kind, name and what tells items apart
				var names, keys []string
				incomplete, noMark := false, false
				if q.Q.Cx == "ws" {
					var found []protocol.SymbolInformation
					if err := s.call("workspace/symbol", M{"query": kw}, &found); err != nil {
						r.mismatch(what, "an answer", err.Error())
						return
					}
					noMark = true
					for _, x := range found {
						names = append(names, x.Name)
						keys = append(keys, fmt.Sprint(x))
					}
				} else {
					s.change(main, []M{{"text": text + shape[1] + "\n"}})
					var list *protocol.CompletionList
					if err := s.call("textDocument/completion", posParams(main, at), &list); err != nil {
						r.mismatch(what, "an answer", err.Error())
						return
					}
					if list == nil {
						count("no list "+q.Q.Cx, 1)
						continue
					}
					incomplete = list.IsIncomplete
					for _, x := range list.Items {
						names = append(names, x.Label)
						keys = append(keys, fmt.Sprint(x.Kind, x.Label, x.InsertText, x.Detail, x.AdditionalTextEdits))
					}
				}
				count("asked "+q.Q.Cx, 1)
				if incomplete {
					count("incomplete", 1)
				} else {
					count("complete", 1)
				}
				seen := map[string]bool{}
				for _, k := range keys {
					if seen[k] {
						r.mismatch(what+": nothing twice", "once", k)
						break
					}
					seen[k] = true
				}
				covers := map[string]bool{}
				for _, k := range q.Cov {
					covers[k] = true
				}
				got := map[string]bool{}
				perKind := map[string]int{}
				for _, n := range names {
					n = strings.TrimSuffix(strings.TrimPrefix(n[strings.LastIndex(n, `\`)+1:], "$"), "()")
					m := scName.FindStringSubmatch(n)
					if m == nil {
						continue
					}
					g, ok := byID[m[2]]
					i, _ := strconv.Atoi(m[3])
					if !ok || i >= g.N || g.name(i) != n {
						r.mismatch(what+": what is there", "symbols of the workspace", n)
						break
					}
					if !covers[g.K] {
						continue
					}
					if noMark && g.K == "smethod" {
						g.K = "method" // one kind of symbol to a search
					}
					if !got[n] || noMark {
						perKind[g.K]++
					}
					got[n] = true
				}
				for k, c := range perKind {
					if c > serverLimit && k != "method" && k != "prop" && k != "smethod" && k != "cconst" {
						r.mismatch(what+": no more than the limit", fmt.Sprint(k, " ", serverLimit), c)
					}
				}
				wanted, missing := map[string]int{}, map[string]string{}
				for _, id := range q.Req {
					g := byID[string(rune('A'+id))]
					if noMark && g.K == "smethod" {
						g.K = "method"
					}
					wanted[g.K] += g.N
					if g.Dup {
						wanted[g.K] += g.N
					}
					for i := 0; i < g.N; i++ {
						if !got[g.name(i)] {
							missing[g.K] = g.name(i)
						}
					}
				}
				for k, n := range missing {
					if !incomplete && !noMark || noMark && wanted[k] < serverLimit {
						r.mismatch(what+": complete", fmt.Sprintf("%s %s among %d", k, n, wanted[k]), fmt.Sprint(perKind[k], " and no mark"))
					}
				}
				for k, c := range wanted {
					if c > serverLimit {
						count("cut "+k, 1)
					} else if c >= serverLimit-1 {
						count("edge "+k, 1)
					}
				}
				if r.bad >= 3 {
					return
				}
			}
		}
	}
}

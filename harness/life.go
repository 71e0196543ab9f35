package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"time"
	"unicode/utf16"

	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
	"github.com/john-nguyen09/phpintel/util"
)

// Sessions of specs/LifecycleGen.tla on a server: every request is answered, as the
// specification says where it says so, and the server lives.

type lifeStep struct {
	Op, M, D, How, Word, Which, Disk, Exp string
	Text                                  []string
	L, C, Ty, Folders, At, Cut            int
	R                                     []int
	Full, Req, Add                        bool
}

type lifeRun struct {
	s      *session
	dir    string
	probes int
	texts  map[string]string // of documents last sent as a whole
}

var lifePlaces = regexp.MustCompile(`[A-Za-z_0-9]+|->|::|\$|[(,\\;]`)

// place is the end of the n-th word or sign of a text (0 for none)
func (w *lifeRun) place(d string, n int) (l, c int, ok bool) {
	text := w.texts[d]
	ends := lifePlaces.FindAllStringIndex(text, -1)
	if n == 0 || len(ends) == 0 {
		return 0, 0, false
	}
	before := text[:ends[n%len(ends)][1]]
	before = strings.ReplaceAll(before, "\r\n", "\n")
	l = strings.Count(before, "\n")
	return l, len(utf16.Encode([]rune(before[strings.LastIndex(before, "\n")+1:]))), true
}

func (w *lifeRun) uri(d string) string {
	switch d {
	case "outside":
		return "file:///nowhere/else/x.php"
	case "untitled":
		return "untitled:Untitled-1"
	case "empty":
		return ""
	case "nouri":
		return "not a uri %%%"
	case "root":
		return "file:///"
	}
	return util.PathToURI(filepath.Join(w.dir, "one", d))
}

func (w *lifeRun) folder(which string) string {
	switch which {
	case "sub":
		return util.PathToURI(filepath.Join(w.dir, "one", "sub"))
	case "gone":
		return util.PathToURI(filepath.Join(w.dir, "gone"))
	case "nouri":
		return "not a uri %%%"
	}
	return util.PathToURI(filepath.Join(w.dir, which))
}

// illTyped are parameters no message takes; false for none at all
func illTyped(how string) (interface{}, bool) {
	switch how {
	case "missing":
		return nil, false
	case "null":
		return nil, true
	case "array":
		return []interface{}{}, true
	case "string":
		return "x", true
	case "number":
		return 5, true
	case "nulls":
		return M{"textDocument": nil, "position": nil, "contentChanges": nil, "event": nil, "changes": nil, "query": nil, "newName": nil}, true
	case "wrong":
		return M{"textDocument": 5, "position": "x", "contentChanges": M{}, "event": []int{1}, "changes": "y", "query": 7, "newName": M{}, "id": M{}}, true
	}
	return M{}, true
}

func (w *lifeRun) ask(r *rec, what, exp, method string, params interface{}, has bool) {
	m := M{"jsonrpc": "2.0", "method": method}
	if has {
		m["params"] = params
	}
	s := w.s
	s.mu.Lock()
	s.nextID++
	id := s.nextID
	s.mu.Unlock()
	m["id"] = id
	b, err := json.Marshal(m)
	if err != nil {
		fatal(err)
	}
	s.in.Write(frame(b))
	reply, ok := s.await(id, 60*time.Second)
	if !ok {
		s.mu.Lock()
		closed, serr := s.closed, s.err
		s.mu.Unlock()
		r.mismatch(what, "an answer", fmt.Sprintf("none; run has ended: %v %v", closed, serr))
		return
	}
	count("requests", 1)
	got := "result"
	if reply.Error != nil {
		got = "error"
	}
	if exp != "any" && exp != got {
		r.mismatch(what, exp, reply)
	}
}

func (w *lifeRun) probe(r *rec, served bool) {
	w.probes++
	name := fmt.Sprintf("Probe%d", w.probes)
	uri := util.PathToURI(filepath.Join(w.dir, "one", name+".php"))
	w.s.open(uri, "<?php class "+name+" {}\n")
	var syms []protocol.DocumentSymbol
	err := w.s.call("textDocument/documentSymbol", M{"textDocument": M{"uri": uri}}, &syms)
	w.s.close(uri)
	if err == errNoAnswer {
		r.mismatch("a document is served", "an answer", "none")
		return
	}
	if served && (err != nil || len(syms) != 1 || !strings.HasSuffix(syms[0].Name, name)) {
		r.mismatch("a document is served", name, fmt.Sprint(err, syms))
	}
}

func (w *lifeRun) step(r *rec, i int, st lifeStep) {
	s := w.s
	what := fmt.Sprintf("step %d: %s %s", i, st.Op, st.M)
	text := strings.Join(st.Text, "")
	if rs := []rune(text); st.Cut > 0 && st.Cut < len(rs) {
		text = string(rs[:st.Cut])
	}
	switch st.Op {
	case "init":
		fs := []M{{"uri": util.PathToURI(filepath.Join(w.dir, "one")), "name": "one"}, {"uri": util.PathToURI(filepath.Join(w.dir, "more")), "name": "more"}}
		w.ask(r, what, st.Exp, "initialize", M{"processId": 1, "rootUri": nil, "capabilities": M{}, "workspaceFolders": fs[:st.Folders]}, true)
	case "inited":
		s.notify("initialized", M{})
	case "shutdown":
		w.ask(r, what, st.Exp, "shutdown", nil, false)
	case "open":
		s.open(w.uri(st.D), text)
		w.texts[st.D] = text
	case "change":
		c := M{"text": text}
		if st.Full {
			w.texts[st.D] = text
		} else {
			delete(w.texts, st.D)
			c["range"] = M{"start": M{"line": st.R[0], "character": st.R[1]}, "end": M{"line": st.R[2], "character": st.R[3]}}
		}
		s.change(w.uri(st.D), []M{c})
	case "close":
		s.close(w.uri(st.D))
	case "watch":
		if u := w.uri(st.D); strings.HasPrefix(u, util.PathToURI(w.dir)) {
			p := filepath.Join(w.dir, "one", st.D)
			switch st.Disk {
			case "write":
				os.Remove(p)
				os.MkdirAll(filepath.Dir(p), 0o755)
				os.WriteFile(p, []byte(text), 0o644)
			case "remove":
				os.Remove(p)
			case "dir":
				os.Remove(p)
				os.MkdirAll(p, 0o755)
			}
		}
		s.watched(M{"uri": w.uri(st.D), "type": st.Ty})
	case "folder":
		f := []M{{"uri": w.folder(st.Which), "name": st.Which}}
		e := M{"added": f, "removed": []M{}}
		if !st.Add {
			e = M{"added": []M{}, "removed": f}
		}
		s.notify("workspace/didChangeWorkspaceFolders", M{"event": e})
	case "query":
		if l, c, ok := w.place(st.D, st.At); ok {
			st.L, st.C = l, c
			count("placed", 1)
		}
		p := M{"textDocument": M{"uri": w.uri(st.D)}, "position": M{"line": st.L, "character": st.C}, "context": M{"includeDeclaration": true, "triggerKind": 1}, "newName": "$z", "query": st.Word, "options": M{}, "range": M{"start": M{"line": 0, "character": 0}, "end": M{"line": st.L, "character": st.C}}, "label": "x"}
		if st.M == "documentSignatures" {
			p = M{"uri": w.uri(st.D)}
		}
		w.ask(r, what+" at "+fmt.Sprint(st.L, ":", st.C), st.Exp, st.M, p, true)
	case "sweep":
		ends := lifePlaces.FindAllStringIndex(w.texts[st.D], -1)
		for k := st.At + 1; k < len(ends) && r.bad == 0; k += 12 {
			l, c, _ := w.place(st.D, k)
			for _, m := range []string{"completion", "hover", "definition", "references", "signatureHelp", "rename"} {
				p := M{"textDocument": M{"uri": w.uri(st.D)}, "position": M{"line": l, "character": c}, "context": M{"includeDeclaration": true, "triggerKind": 1}, "newName": "$z"}
				w.ask(r, fmt.Sprintf("%s: %s at %d:%d", what, m, l, c), "any", "textDocument/"+m, p, true)
			}
			count("placed", 6)
		}
	case "unknown":
		if st.Req {
			w.ask(r, what, st.Exp, st.M, M{"a": 1}, true)
		} else {
			s.notify(st.M, M{"a": 1})
		}
	case "ill":
		p, has := illTyped(st.How)
		if st.Req {
			w.ask(r, what+" with "+st.How, st.Exp, st.M, p, has)
			break
		}
		m := M{"jsonrpc": "2.0", "method": st.M}
		if has {
			m["params"] = p
		}
		b, _ := json.Marshal(m)
		s.in.Write(frame(b))
	case "probe":
		w.probe(r, st.Exp == "served")
	}
}

func init() {
	subs["life"] = func(r *rec, t json.RawMessage) {
		var steps []lifeStep
		if err := json.Unmarshal(t, &steps); err != nil {
			fatal(err)
		}
		w := &lifeRun{s: newSession(), dir: scratchDir("life"), texts: map[string]string{}}
		defer os.RemoveAll(w.dir)
		os.MkdirAll(filepath.Join(w.dir, "one", "sub"), 0o755)
		os.MkdirAll(filepath.Join(w.dir, "two"), 0o755)
		writeFile(filepath.Join(w.dir, "one", "b.php"), "<?php class A { /** @return static */ public function m() {} public $p = 1; const X = 1; }\nfunction foo($a, $b) {}\n")
		writeFile(filepath.Join(w.dir, "two", "z.php"), "<?php interface I extends J {} function f() {}\n")
		inited := false
		for i, st := range steps {
			r.step = i
			if st.Op == "inited" {
				inited = true
			}
			w.step(r, i, st)
			if r.bad > 0 {
				break
			}
			count("messages", 1)
		}
		if inited && r.bad == 0 {
			// what is computed in the background, for the diagnostics, is survived too
			time.Sleep(2200 * time.Millisecond)
			w.ask(r, "at the end", "error", "verif/none", M{}, true)
		}
		if r.bad > 0 {
			return
		}
		w.s.post("shutdown", nil)
		w.s.in.Close()
		if !waitFor(30*time.Second, func() bool { w.s.mu.Lock(); defer w.s.mu.Unlock(); return w.s.closed }) {
			r.mismatch("the run ends with its input", "ended", "still running")
		}
		w.s.out.Close()
	}
}

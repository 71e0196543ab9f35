package main

import (
	"bytes"
	"encoding/json"
	"math/rand"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/john-nguyen09/phpintel/analysis"
	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
	"github.com/john-nguyen09/phpintel/util"
)

// Replays SessionGen's behaviours on a server, over the protocol. Every text ends with a marker, a
// class of its own, from which the client sees which text of which file the index is made of;
// at the end the folders' databases are compared with the specification as a whole.

type snStep struct {
	Disk []struct {
		P []string `json:"p"`
		F phpFile  `json:"f"`
	} `json:"disk"`
	Ev []struct {
		P []string `json:"p"`
		T int      `json:"t"`
	} `json:"ev"`
	Msg     ixAction   `json:"msg"`
	Addf    [][]string `json:"addf"`
	Remf    [][]string `json:"remf"`
	Fs      [][]string `json:"fs"`
	Restart bool       `json:"restart"`
	Sync    bool       `json:"sync"`
	Own     []struct {
		P []string `json:"p"`
		F []string `json:"f"`
	} `json:"own"`
}

type snBehaviour struct {
	Steps []snStep `json:"steps"`
	O     ixObs    `json:"o"`
}

const markerWord = "Zq"

type folders struct {
	*workspace
	s     *session
	files func() time.Duration
	names map[string]string // texts without their marker -> marker
}

func (w *folders) marked(f phpFile) rendered {
	x := f.render()
	m, ok := w.names[x.text]
	if !ok {
		i := len(w.names)
		m = markerWord + string([]byte{byte('a' + i/26/26%26), byte('a' + i/26%26), byte('a' + i%26)})
		w.names[x.text] = m
	}
	eol := "\n"
	if strings.Contains(x.text, "\r\n") {
		eol = "\r\n"
	} else if strings.Contains(x.text, "\r") {
		eol = "\r"
	}
	decl := "class " + m + " {} new " + m + "();"
	if m[len(m)-1]%4 == 0 {
		// takes a while to index
		decl = strings.Repeat("1; ", 4000) + decl
	}
	if f.braced() {
		decl = "namespace { " + decl + " }"
	}
	x.text += eol + decl + eol
	return x
}

func (w *folders) markerOf(text string) string {
	i := strings.LastIndex(text, "class "+markerWord)
	rest := text[i+len("class "):]
	return rest[:strings.IndexByte(rest, ' ')]
}

func (w *folders) start(fs [][]string) error {
	var dirs []string
	for _, f := range fs {
		dirs = append(dirs, w.path(f))
	}
	w.s = newSession()
	w.s.files = w.files
	return w.s.start(dirs...)
}

func (w *folders) evURI(p []string) string {
	if len(p) == 1 && p[0] == "%" {
		return "file:///%"
	}
	return w.uri(p)
}

// respelled is another spelling of the URI of the same file
func respelled(uri string, how int) string {
	switch how {
	case 1:
		return strings.Replace(uri, "a.php", "%61.php", 1)
	case 2:
		u, err := url.PathUnescape(uri)
		if err != nil || strings.ContainsAny(u, " %") {
			return strings.Replace(uri, ".php", "%2Ephp", 1)
		}
		return u
	}
	return uri
}

func (w *folders) step(i int, st snStep) error {
	s := w.s
	if st.Restart {
		if s != nil {
			if err := s.end(); err != nil {
				return err
			}
		}
		w.open = map[string]rendered{}
	}
	for _, d := range st.Disk {
		w.put(d.P, d.F)
	}
	if st.Restart {
		return w.start(st.Addf)
	}
	if len(st.Ev) > 0 {
		var evs []interface{}
		for j, e := range st.Ev {
			evs = append(evs, M{"uri": respelled(w.evURI(e.P), (i+j)%4), "type": e.T})
		}
		s.watched(evs...)
	}
	k := strings.Join(st.Msg.P, "/")
	switch st.Msg.Op {
	case "open":
		x := w.marked(st.Msg.F)
		w.open[k] = x
		s.open(w.uri(st.Msg.P), x.text)
	case "change":
		x := w.marked(st.Msg.F)
		old := w.open[k].text
		w.open[k] = x
		s.change(w.uri(st.Msg.P), changesTo(old, x.text, st.Msg.X))
	case "close":
		delete(w.open, k)
		s.close(w.uri(st.Msg.P))
	}
	if len(st.Addf) > 0 || len(st.Remf) > 0 {
		list := func(fs [][]string) []M {
			res := []M{}
			for _, f := range fs {
				res = append(res, M{"uri": w.uri(f), "name": "f"})
			}
			return res
		}
		s.notify("workspace/didChangeWorkspaceFolders", M{"event": M{"added": list(st.Addf), "removed": list(st.Remf)}})
	}
	return nil
}

// put changes a file the way editors do: the new contents appear at once
func (w *folders) put(p []string, f phpFile) {
	k := strings.Join(p, "/")
	if f.None {
		os.Remove(w.path(p))
		delete(w.disk, k)
		// folders without files vanish
		for i := len(p) - 1; i > 0; i-- {
			os.Remove(w.path(p[:i]))
		}
		return
	}
	x := w.marked(f)
	w.disk[k] = x
	tmp := filepath.Join(w.dir, "new")
	writeFile(tmp, x.text)
	os.MkdirAll(filepath.Dir(w.path(p)), 0o755)
	if err := os.Rename(tmp, w.path(p)); err != nil {
		fatal(err)
	}
}

// expected is what the markers are to say: which text of which path is indexed
func (w *folders) expected(st snStep) []string {
	var res []string
	for _, o := range st.Own {
		if x := w.of(o.P); x.text != "" {
			res = append(res, w.markerOf(x.text)+" "+strings.Join(o.P, "/"))
		}
	}
	sort.Strings(res)
	return res
}

func (w *folders) indexed() ([]string, error) {
	var syms []protocol.SymbolInformation
	if err := w.s.call("workspace/symbol", M{"query": markerWord}, &syms); err != nil {
		return nil, err
	}
	var res []string
	for _, x := range syms {
		name := x.Name[strings.LastIndex(x.Name, "\\")+1:]
		res = append(res, name+" "+strings.TrimPrefix(x.Location.URI, w.uri(nil)+"/"))
	}
	sort.Strings(res)
	return res, nil
}

// converge waits until the index is as expected, and nothing changes it any more
func (w *folders) converge(st snStep) bool {
	want := w.expected(st)
	end := time.Now().Add(20 * time.Second)
	right := false
	for wait := time.Millisecond; ; wait += wait/2 + time.Millisecond {
		got, err := w.indexed()
		if err != nil {
			w.r.mismatch("workspace/symbol", "an answer", err.Error())
			return false
		}
		if strings.Join(got, ",") == strings.Join(want, ",") {
			if right {
				break
			}
			// it has to stay so when the client owes the server nothing
			right = true
			w.s.answered()
			time.Sleep(40 * time.Millisecond)
			continue
		}
		right = false
		if time.Now().After(end) {
			w.r.mismatch("what is indexed after everything has been reported", want, got)
			return false
		}
		if wait > 100*time.Millisecond {
			wait = 100 * time.Millisecond
		}
		time.Sleep(wait)
	}
	count("converged", 1)
	w.s.setPrompt(true)
	defer w.s.setPrompt(false)
	return w.answers(st)
}

// answers: a document's questions are answered from its own folder
func (w *folders) answers(st snStep) bool {
	for _, o := range st.Own {
		x := w.of(o.P)
		if x.text == "" {
			continue
		}
		m := w.markerOf(x.text)
		at := strings.LastIndex(x.text, m)
		pos := newLineIndex(x.text).position(at + 1)
		var want []string
		for _, q := range st.Own {
			if y := w.of(q.P); strings.Join(q.F, "/") == strings.Join(o.F, "/") && y.text != "" && w.markerOf(y.text) == m {
				want = append(want, strings.Join(q.P, "/"))
			}
		}
		for _, method := range []string{"textDocument/definition", "textDocument/references"} {
			params := posParams(w.uri(o.P), pos)
			if method == "textDocument/references" {
				params["context"] = M{"includeDeclaration": true}
			}
			var locs []protocol.Location
			if err := w.s.call(method, params, &locs); err != nil {
				w.r.mismatch(method, "an answer", err.Error())
				return false
			}
			var got []string
			for _, l := range locs {
				got = append(got, strings.TrimPrefix(l.URI, w.uri(nil)+"/"))
			}
			want := want
			if method == "textDocument/references" {
				want = append(append([]string{}, want...), want...)
			}
			if !sameSet(want, got) {
				w.r.mismatch(method+" from "+strings.Join(o.P, "/"), want, got)
				return false
			}
			count("answers", 1)
		}
	}
	return true
}

// stores compares the databases the server leaves with the specification
func (w *folders) stores(last snStep, o ixObs) {
	for _, f := range last.Fs {
		mine := map[string]bool{}
		for _, x := range last.Own {
			if strings.Join(x.F, "/") == strings.Join(f, "/") {
				mine[strings.Join(x.P, "/")] = true
			}
		}
		var part ixObs
		for _, d := range o.Decls {
			if mine[strings.Join(d.P, "/")] {
				part.Decls = append(part.Decls, d)
			}
		}
		for _, u := range o.Uses {
			if mine[strings.Join(u.P, "/")] {
				part.Uses = append(part.Uses, u)
			}
		}
		for _, q := range o.Queries {
			all := q.Hits
			q.Hits = nil
			for _, h := range all {
				if mine[strings.Join(h.P, "/")] {
					q.Hits = append(q.Hits, h)
				}
			}
			part.Queries = append(part.Queries, q)
		}
		if len(last.Fs) == 1 && len(mine) == len(last.Own) {
			part.Ns = o.Ns
		}
		for _, d := range o.Decls {
			w.seen(d.Kind, d.Key...)
		}
		for _, u := range o.Uses {
			w.seen("ref", u.Ref)
		}
		uri := w.uri(f)
		var err error
		w.store, err = analysis.NewStore(protocol.NewFileFS(), uri, filepath.Join(os.Getenv("HOME"), ".phpintel", "data", util.GetURIID(uri)))
		if err != nil {
			w.r.mismatch("the database of the folder "+strings.Join(f, "/"), "can be opened", err.Error())
			return
		}
		w.compare(part)
		w.store.Close()
		count("stores", 1)
		if w.r.bad > 0 {
			return
		}
	}
}

func init() {
	subs["lsp"] = func(r *rec, t json.RawMessage) {
		var b snBehaviour
		if r.n%3 == 1 {
			// two folders of the same name, whose paths differ in case only
			t = bytes.ReplaceAll(t, []byte(`"sa"`), []byte(`"S", "t"`))
		}
		if err := json.Unmarshal(t, &b); err != nil {
			fatal("lsp:", err)
		}
		w := &folders{workspace: &workspace{r: r, dir: scratchDir("lsp é(@) x"), disk: map[string]rendered{}, open: map[string]rendered{},
			kinds: map[string]bool{"decls": true, "uses": true, "queries": true}, universe: map[string]map[string]bool{}},
			names: map[string]string{}}
		if len(os.Args) > 3 && os.Args[3] == "slow" {
			// the client provides the files, at its own pace
			rnd := rand.New(rand.NewSource(int64(r.n)))
			w.files = func() time.Duration {
				switch rnd.Intn(4) {
				case 0:
					return time.Duration(rnd.Intn(200)) * time.Millisecond
				case 1:
					return time.Duration(rnd.Intn(5)) * time.Millisecond
				}
				return 0
			}
		}
		defer os.RemoveAll(w.dir)
		os.MkdirAll(w.path(nil), 0o755)
		defer func() {
			os.RemoveAll(filepath.Join(os.Getenv("HOME"), ".phpintel", "data"))
		}()
		for i, st := range b.Steps {
			r.step = i
			count("steps", 1)
			if err := w.step(i, st); err != nil {
				r.mismatch("session", "goes on", err.Error())
				return
			}
			if w.files != nil {
				time.Sleep(time.Duration(r.n*i%7) * 4 * time.Millisecond)
			}
			if (st.Sync || i == len(b.Steps)-1) && !w.converge(st) {
				w.s.end()
				return
			}
		}
		if err := w.s.end(); err != nil {
			r.mismatch("shutdown", "an answer", err.Error())
			return
		}
		// open documents are the editor's to the end: their texts are in the databases
		w.stores(b.Steps[len(b.Steps)-1], b.O)
	}
}

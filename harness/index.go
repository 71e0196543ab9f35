package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/john-nguyen09/phpintel/analysis"
	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
	"github.com/john-nguyen09/phpintel/util"
)

// Replays IndexGen's histories on a Store and compares everything it can be asked with
// what the specification says the index holds.

// oneOrMany: a trait use has one target, a property a list of types
type oneOrMany []phpRef

func (o *oneOrMany) UnmarshalJSON(b []byte) error {
	if len(b) > 0 && b[0] == '{' {
		var r phpRef
		if err := json.Unmarshal(b, &r); err != nil {
			return err
		}
		*o = []phpRef{r}
		return nil
	}
	var rs []phpRef
	err := json.Unmarshal(b, &rs)
	*o = rs
	return err
}

type ixDecl struct {
	P    []string `json:"p"`
	Kind string   `json:"kind"`
	Key  []string `json:"key"`
	At   []int    `json:"at"`
	Attr []string `json:"attr"`
}

type ixUse struct {
	P   []string          `json:"p"`
	Ref string            `json:"ref"`
	At  []int             `json:"at"`
	W   []json.RawMessage `json:"w"`
}

func (u ixUse) key() string {
	var ws []interface{}
	for _, x := range u.W {
		var v interface{}
		json.Unmarshal(x, &v)
		if f, ok := v.(float64); ok {
			v = int(f)
		}
		ws = append(ws, v)
	}
	return useKey(atKey(u.At), ws)
}

type ixQuery struct {
	Kind  string            `json:"kind"`
	Kw    string            `json:"kw"`
	Scope []json.RawMessage `json:"scope"`
	Limit int               `json:"limit"`
	Hits  []struct {
		P  []string `json:"p"`
		At []int    `json:"at"`
	} `json:"hits"`
}

type ixNs struct {
	Scope []string `json:"scope"`
	Kw    string   `json:"kw"`
	Hits  []string `json:"hits"`
}

type ixObs struct {
	Decls   []ixDecl  `json:"decls"`
	Uses    []ixUse   `json:"uses"`
	Queries []ixQuery `json:"queries"`
	Ns      []ixNs    `json:"ns"`
}

type ixAction struct {
	Op   string   `json:"op"`
	P    []string `json:"p"`
	F    phpFile  `json:"f"`
	X    string   `json:"x"`
	Disk []struct {
		P []string `json:"p"`
		F phpFile  `json:"f"`
	} `json:"disk"`
}

type ixStep struct {
	A ixAction `json:"a"`
	O ixObs    `json:"o"`
}

// workspace is the files on disk, the open documents and the store.
type workspace struct {
	r        *rec
	dir      string
	store    *analysis.Store
	disk     map[string]rendered
	open     map[string]rendered
	kinds    map[string]bool // what is compared
	universe map[string]map[string]bool
	wantLoc  map[string]string
}

func (w *workspace) path(p []string) string {
	return filepath.Join(append([]string{w.dir, "ws"}, p...)...)
}
func (w *workspace) uri(p []string) string { return util.PathToURI(w.path(p)) }

func (w *workspace) newStore() error {
	s, err := analysis.NewStore(protocol.NewFileFS(), util.PathToURI(filepath.Join(w.dir, "ws")), filepath.Join(w.dir, "db"))
	w.store = s
	return err
}

func writeFile(path, text string) {
	os.MkdirAll(filepath.Dir(path), 0755)
	os.WriteFile(path, []byte(text), 0644)
}

func (w *workspace) putDisk(p []string, f phpFile) {
	k := strings.Join(p, "/")
	if f.None {
		os.Remove(w.path(p))
		delete(w.disk, k)
		return
	}
	x := f.render()
	w.disk[k] = x
	writeFile(w.path(p), x.text)
}

// all indexes the whole workspace, as the server does at its start
func (w *workspace) indexAll() {
	ctx := context.Background()
	w.store.PrepareForIndexing()
	for k := range w.disk {
		w.store.CompareAndIndexDocument(ctx, w.uri(strings.Split(k, "/")))
	}
	w.store.FinishIndexing()
}

// applyDisk does what an action does to the files, before the store hears of it
func (w *workspace) applyDisk(a ixAction) {
	k := strings.Join(a.P, "/")
	switch a.Op {
	case "write":
		w.putDisk(a.P, a.F)
	case "delete":
		w.putDisk(a.P, phpFile{None: true})
	case "rmdir":
		for d := range w.disk {
			if strings.HasPrefix(d, k+"/") {
				delete(w.disk, d)
			}
		}
		os.RemoveAll(w.path(a.P))
	}
}

func (w *workspace) apply(a ixAction) error {
	ctx := context.Background()
	k := strings.Join(a.P, "/")
	switch a.Op {
	case "write":
		w.store.CompareAndIndexDocument(ctx, w.uri(a.P))
	case "again":
		w.store.CompareAndIndexDocument(ctx, w.uri(a.P))
	case "open":
		x := a.F.render()
		w.open[k] = x
		w.store.OpenDocument(w.uri(a.P), []byte(x.text))
	case "change":
		x := a.F.render()
		old := w.open[k].text
		w.open[k] = x
		w.store.ChangeDocument(w.uri(a.P), changesTo(old, x.text, a.X))
	case "close":
		delete(w.open, k)
		w.store.CloseDocument(ctx, w.uri(a.P))
	case "delete":
		w.store.RemoveDocuments(ctx, w.uri(a.P))
	case "rmdir":
		w.store.RemoveDocuments(ctx, w.uri(a.P))
	case "restart":
		w.store.Close()
		w.open = map[string]rendered{}
		for _, d := range a.Disk {
			w.putDisk(d.P, d.F)
		}
		if err := w.newStore(); err != nil {
			return err
		}
		w.indexAll()
	default:
		return fmt.Errorf("unknown action %s", a.Op)
	}
	return nil
}

func changesTo(old, text, how string) []protocol.TextDocumentContentChangeEvent {
	full := protocol.TextDocumentContentChangeEvent{Text: text}
	switch how {
	case "range":
		return []protocol.TextDocumentContentChangeEvent{minimalChange(old, text)}
	case "split":
		h := len(text) / 2
		for !boundary(text, h) {
			h--
		}
		end := newLineIndex(text[:h]).position(h)
		return []protocol.TextDocumentContentChangeEvent{{Text: text[:h]},
			{Range: &protocol.Range{Start: end, End: end}, Text: text[h:]}}
	}
	return []protocol.TextDocumentContentChangeEvent{full}
}

// of is the text the index is to hold for a path
func (w *workspace) of(p []string) rendered {
	k := strings.Join(p, "/")
	if x, ok := w.open[k]; ok {
		return x
	}
	return w.disk[k]
}

func rangeString(r protocol.Range) string {
	return fmt.Sprintf("%d:%d-%d:%d", r.Start.Line, r.Start.Character, r.End.Line, r.End.Character)
}

func (w *workspace) loc(l protocol.Location) string {
	return strings.TrimPrefix(l.URI, util.PathToURI(filepath.Join(w.dir, "ws"))+"/") + "@" + rangeString(l.Range)
}

func (w *workspace) declLoc(p []string, at []int) string {
	r, ok := w.of(p).decls[atKey(at)]
	if !ok {
		return "no declaration " + strings.Join(p, "/") + " " + atKey(at)
	}
	return strings.Join(p, "/") + "@" + rangeString(r)
}

func (w *workspace) seen(kind string, key ...string) {
	if w.universe[kind] == nil {
		w.universe[kind] = map[string]bool{}
	}
	w.universe[kind][strings.Join(key, "\x01")] = true
}

func fqns(ts []analysis.TypeString) []string {
	var res []string
	for _, t := range ts {
		res = append(res, t.GetFQN())
	}
	return res
}

func paramSig(ps []*analysis.Parameter) []string {
	var res []string
	for _, p := range ps {
		s := p.Name
		if t := p.Type.ToString(); t != "" {
			s += ":" + t
		}
		res = append(res, s)
	}
	return res
}

func visString(v analysis.VisibilityModifierValue) string {
	switch v {
	case analysis.Public:
		return "public"
	case analysis.Protected:
		return "protected"
	}
	return "private"
}

func modString(m analysis.ClassModifierValue) string {
	switch m {
	case analysis.Abstract:
		return "abstract"
	case analysis.Final:
		return "final"
	}
	return ""
}

func staticString(b bool) string {
	if b {
		return "static"
	}
	return ""
}

// found is what the index says about one symbol
type found struct {
	key  []string
	loc  string
	attr []string
}

func (w *workspace) describe(s interface{}) found {
	switch v := s.(type) {
	case *analysis.Class:
		a := append([]string{modString(v.Modifier), "extends"}, nonEmpty(v.Extends.GetFQN())...)
		a = append(append(a, "implements"), fqns(v.Interfaces)...)
		a = append(append(a, "use"), fqns(v.Use)...)
		return found{[]string{v.Name.GetFQN()}, w.loc(v.GetLocation()), a}
	case *analysis.Interface:
		return found{[]string{v.Name.GetFQN()}, w.loc(v.GetLocation()), append([]string{"extends"}, fqns(v.Extends)...)}
	case *analysis.Trait:
		return found{[]string{v.Name.GetFQN()}, w.loc(v.GetLocation()), nil}
	case *analysis.Function:
		return found{[]string{v.Name.GetFQN()}, w.loc(v.GetLocation()), paramSig(v.Params)}
	case *analysis.Const:
		return found{[]string{v.Name.GetFQN()}, w.loc(v.GetLocation()), []string{v.Value}}
	case *analysis.Define:
		return found{[]string{v.Name.GetFQN()}, w.loc(v.GetLocation()), []string{v.Value}}
	case *analysis.Method:
		return found{[]string{v.GetScope(), strings.ToLower(v.GetName())}, w.loc(v.GetLocation()),
			append([]string{visString(v.VisibilityModifier), staticString(v.IsStatic()), modString(v.ClassModifier)}, paramSig(v.Params)...)}
	case *analysis.Property:
		return found{[]string{v.GetScope(), v.GetName()}, w.loc(v.GetLocation()),
			append([]string{visString(v.VisibilityModifier), staticString(v.IsStatic())}, nonEmpty(v.Types.ToString())...)}
	case *analysis.ClassConst:
		return found{[]string{v.GetScope(), v.GetName()}, w.loc(v.GetLocation()), []string{visString(v.VisibilityModifier), v.Value}}
	case *analysis.GlobalVariable:
		return found{[]string{v.GetName()}, w.loc(v.GetLocation()), nonEmpty(v.GetDetail())}
	}
	return found{}
}

func nonEmpty(s string) []string {
	if s == "" {
		return nil
	}
	return []string{s}
}

func (w *workspace) lookup(kind string, key []string) []interface{} {
	var res []interface{}
	add := func(x interface{}) { res = append(res, x) }
	switch kind {
	case "class":
		for _, x := range analysis.NewQuery(w.store).GetClasses(key[0]) {
			add(x)
		}
	case "interface":
		for _, x := range w.store.GetInterfaces(key[0]) {
			add(x)
		}
	case "trait":
		for _, x := range w.store.GetTraits(key[0]) {
			add(x)
		}
	case "function":
		for _, x := range w.store.GetFunctions(key[0]) {
			add(x)
		}
	case "const":
		for _, x := range w.store.GetConsts(key[0]) {
			add(x)
		}
	case "define":
		for _, x := range w.store.GetDefines(key[0]) {
			add(x)
		}
	case "method":
		for _, x := range w.store.GetMethods(key[0], key[1]) {
			add(x)
		}
	case "prop":
		for _, x := range w.store.GetProperties(key[0], key[1]) {
			add(x)
		}
	case "cconst":
		for _, x := range w.store.GetClassConsts(key[0], key[1]) {
			add(x)
		}
	case "gvar":
		for _, x := range w.store.GetGlobalVariables(key[0]) {
			add(x)
		}
	}
	return res
}

// members of an owner
func (w *workspace) allMembers(kind, owner string) []interface{} {
	var res []interface{}
	switch kind {
	case "method":
		for _, x := range w.store.GetAllMethods(owner) {
			res = append(res, x)
		}
	case "prop":
		for _, x := range w.store.GetAllProperties(owner) {
			res = append(res, x)
		}
	case "cconst":
		for _, x := range w.store.GetAllClassConsts(owner) {
			res = append(res, x)
		}
	}
	return res
}

func sameSet(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	x, y := append([]string{}, a...), append([]string{}, b...)
	sort.Strings(x)
	sort.Strings(y)
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

func (w *workspace) compare(o ixObs) {
	if w.kinds["decls"] {
		w.compareDecls(o)
	}
	if w.kinds["uses"] {
		w.compareUses(o)
	}
	if w.kinds["queries"] {
		w.compareQueries(o)
	}
}

func describeAll(key []string, loc string, attr []string) string {
	return strings.Join(key, " ") + " " + loc + " " + strings.Join(attr, ",")
}

// otherCase changes the letter case of a class's own name, by which PHP does not distinguish
func otherCase(fqn string) string {
	i := strings.LastIndex(fqn, "\\") + 1
	if up := strings.ToUpper(fqn[i:]); up != fqn[i:] {
		return fqn[:i] + up
	}
	return fqn[:i] + strings.ToLower(fqn[i:])
}

func (w *workspace) compareDecls(o ixObs) {
	want := map[string]map[string][]string{}
	owners := map[string]map[string][]string{}
	put := func(m map[string]map[string][]string, kind, key, v string) {
		if m[kind] == nil {
			m[kind] = map[string][]string{}
		}
		m[kind][key] = append(m[kind][key], v)
	}
	for _, d := range o.Decls {
		w.seen(d.Kind, d.Key...)
		s := describeAll(d.Key, w.declLoc(d.P, d.At), d.Attr)
		put(want, d.Kind, strings.Join(d.Key, "\x01"), s)
		if len(d.Key) == 2 {
			put(owners, d.Kind, d.Key[0], s)
			w.seen("owner", d.Key[0])
		}
	}
	for _, kind := range []string{"class", "interface", "trait", "function", "const", "define", "method", "prop", "cconst", "gvar"} {
		for k := range w.universe[kind] {
			key := strings.Split(k, "\x01")
			var got []string
			for _, x := range w.lookup(kind, key) {
				f := w.describe(x)
				got = append(got, describeAll(f.key, f.loc, f.attr))
			}
			count("lookups", 1)
			if !sameSet(got, want[kind][k]) {
				w.r.mismatch("lookup of the "+kind+" "+strings.Join(key, "::"), want[kind][k], got)
				return
			}
			alt := append([]string{}, key...)
			switch kind {
			case "class":
				alt[0] = otherCase(key[0])
			case "method":
				alt[1] = strings.ToUpper(key[1])
			default:
				continue
			}
			if n := len(w.lookup(kind, alt)); n != len(got) {
				w.r.mismatch("lookup of the "+kind+" "+strings.Join(alt, "::")+" (other letter case)", len(got), n)
				return
			}
		}
	}
	for _, kind := range []string{"method", "prop", "cconst"} {
		for k := range w.universe["owner"] {
			var got []string
			for _, x := range w.allMembers(kind, k) {
				f := w.describe(x)
				got = append(got, describeAll(f.key, f.loc, f.attr))
			}
			if !sameSet(got, owners[kind][k]) {
				w.r.mismatch("all members ("+kind+") of "+k, owners[kind][k], got)
				return
			}
		}
	}
}

func (w *workspace) compareUses(o ixObs) {
	want := map[string][]string{}
	for _, u := range o.Uses {
		w.seen("ref", u.Ref)
		r, ok := w.of(u.P).uses[u.key()]
		if !ok {
			w.r.mismatch("harness: no use rendered", u.key(), w.of(u.P).uses)
			return
		}
		want[u.Ref] = append(want[u.Ref], strings.Join(u.P, "/")+"@"+rangeString(r))
	}
	for ref := range w.universe["ref"] {
		var got []string
		for _, l := range w.store.GetReferences(ref) {
			got = append(got, w.loc(l))
		}
		count("references", 1)
		if !sameSet(got, want[ref]) {
			w.r.mismatch("references of "+ref, want[ref], got)
			return
		}
	}
}

func (w *workspace) search(q ixQuery) ([]interface{}, bool) {
	opt := analysis.NewSearchOptions()
	if q.Limit > 0 {
		opt = opt.WithLimit(q.Limit)
	}
	kw, scope := q.Kw, ""
	if len(q.Scope) == 1 {
		var parts []string
		if json.Unmarshal(q.Scope[0], &scope) != nil {
			json.Unmarshal(q.Scope[0], &parts)
			scope = nsString(parts)
			kw = scope + "\\" + kw
		}
	}
	var res []interface{}
	var sr analysis.SearchResult
	switch q.Kind {
	case "class":
		xs, s := w.store.SearchClasses(kw, opt)
		for sr = s; len(xs) > 0; xs = xs[1:] {
			res = append(res, xs[0])
		}
	case "interface":
		xs, s := w.store.SearchInterfaces(kw, opt)
		for sr = s; len(xs) > 0; xs = xs[1:] {
			res = append(res, xs[0])
		}
	case "trait":
		xs, s := w.store.SearchTraits(kw, opt)
		for sr = s; len(xs) > 0; xs = xs[1:] {
			res = append(res, xs[0])
		}
	case "function":
		xs, s := w.store.SearchFunctions(kw, opt)
		for sr = s; len(xs) > 0; xs = xs[1:] {
			res = append(res, xs[0])
		}
	case "const":
		xs, s := w.store.SearchConsts(kw, opt)
		for sr = s; len(xs) > 0; xs = xs[1:] {
			res = append(res, xs[0])
		}
	case "define":
		xs, s := w.store.SearchDefines(kw, opt)
		for sr = s; len(xs) > 0; xs = xs[1:] {
			res = append(res, xs[0])
		}
	case "method":
		xs, s := w.store.SearchMethods(scope, kw, opt)
		for sr = s; len(xs) > 0; xs = xs[1:] {
			res = append(res, xs[0])
		}
	case "prop":
		xs, s := w.store.SearchProperties(scope, kw, opt)
		for sr = s; len(xs) > 0; xs = xs[1:] {
			res = append(res, xs[0])
		}
	case "cconst":
		xs, s := w.store.SearchClassConsts(scope, kw, opt)
		for sr = s; len(xs) > 0; xs = xs[1:] {
			res = append(res, xs[0])
		}
	}
	return res, sr.IsComplete
}

// checkHits: what is found is among what matches, nothing twice, no more than the limit, and
// everything unless the limit is what cut it
func (w *workspace) checkHits(what string, want, got []string, complete bool, limit int) bool {
	count("searches", 1)
	count("hits", len(got))
	if limit > 0 && len(want) > limit {
		count("limited", 1)
	}
	left := map[string]int{}
	for _, x := range want {
		left[x]++
	}
	for _, x := range got {
		left[x]--
		if left[x] < 0 {
			w.r.mismatch(what+": finds what does not match, or twice", want, got)
			return false
		}
	}
	switch {
	case limit > 0 && len(got) > limit:
		w.r.mismatch(what+": more than the limit", limit, len(got))
	case complete && len(got) != len(want):
		w.r.mismatch(what+": says it is complete", want, got)
	case limit == 0 && (!complete || len(got) != len(want)):
		w.r.mismatch(what+": unlimited", want, fmt.Sprint(got, " complete ", complete))
	case limit > 0 && len(want) < limit && len(got) != len(want):
		w.r.mismatch(what+": limit was not reached", want, got)
	case limit > 0 && len(want) >= limit && len(got) != limit:
		w.r.mismatch(what+": fewer than the limit", want, got)
	default:
		return true
	}
	return false
}

func (w *workspace) compareQueries(o ixObs) {
	for _, q := range o.Queries {
		var want, got []string
		for _, h := range q.Hits {
			want = append(want, w.declLoc(h.P, h.At))
		}
		xs, complete := w.search(q)
		for _, x := range xs {
			got = append(got, w.describe(x).loc)
		}
		if !w.checkHits(fmt.Sprintf("search of the kind %s for %q in %s limit %d", q.Kind, q.Kw, q.Scope, q.Limit), want, got, complete, q.Limit) {
			return
		}
	}
	for _, q := range o.Ns {
		kw := q.Kw
		if len(q.Scope) > 0 {
			kw = nsString(q.Scope) + "\\" + kw
		}
		got, sr := w.store.SearchNamespaces(kw, analysis.NewSearchOptions())
		if !w.checkHits("search of namespaces for "+kw, q.Hits, got, sr.IsComplete, 0) {
			return
		}
	}
}

func init() {
	subs["index"] = func(r *rec, t json.RawMessage) {
		var steps []ixStep
		if err := json.Unmarshal(t, &steps); err != nil {
			fatal("index:", err)
		}
		w := &workspace{r: r, dir: scratchDir("ix"), disk: map[string]rendered{}, open: map[string]rendered{},
			kinds: map[string]bool{}, universe: map[string]map[string]bool{}}
		defer os.RemoveAll(w.dir)
		for _, k := range os.Args[3:] {
			w.kinds[k] = true
		}
		if err := w.newStore(); err != nil {
			fatal(err)
		}
		defer func() { w.store.Close() }()
		for i, s := range steps {
			r.step = i + 1
			w.applyDisk(s.A)
			if err := w.apply(s.A); err != nil {
				r.mismatch("action "+s.A.Op, "no error", err.Error())
				return
			}
			count("steps", 1)
			w.compare(s.O)
			if r.bad > 0 {
				return
			}
		}
	}
}

func init() {
	// prints the text which a step of a behaviour puts at a path
	raw["render"] = func(a []string) {
		var f phpFile
		b, _ := os.ReadFile(a[0])
		if err := json.Unmarshal(b, &f); err != nil {
			fatal(err)
		}
		fmt.Print(f.render().text)
	}
}

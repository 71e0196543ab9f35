package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"

	"github.com/john-nguyen09/go-phpparser/lexer"
	"github.com/john-nguyen09/phpintel/analysis"
	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
	"github.com/john-nguyen09/phpintel/util"
)

// Replays TextGen's sessions: on a Document alone, and on a document opened in a Store
// whose file holds something else.

var textChars = []string{"a", "\n", "\r", "é", "漢", "😀", "$"}

func textOf(cs []int) string {
	s := ""
	for _, c := range cs {
		s += textChars[c-1]
	}
	return s
}

type textStep struct {
	Open    []int `json:"open"`
	Changes []struct {
		Range []int `json:"range"`
		Text  []int `json:"text"`
	} `json:"changes"`
	Txt []int    `json:"txt"`
	Pos [][2]int `json:"pos"`
}

func (s textStep) events() []protocol.TextDocumentContentChangeEvent {
	var res []protocol.TextDocumentContentChangeEvent
	for _, c := range s.Changes {
		e := protocol.TextDocumentContentChangeEvent{Text: textOf(c.Text)}
		if len(c.Range) == 4 {
			e.Range = &protocol.Range{
				Start: protocol.Position{Line: c.Range[0], Character: c.Range[1]},
				End:   protocol.Position{Line: c.Range[2], Character: c.Range[3]},
			}
		}
		res = append(res, e)
	}
	return res
}

func checkText(r *rec, what string, doc *analysis.Document, s textStep) {
	want := textOf(s.Txt)
	if got := string(doc.GetText()); got != want {
		r.mismatch(what+": text", fmt.Sprintf("%q", want), fmt.Sprintf("%q", got))
		return
	}
	off := 0
	for i, p := range s.Pos {
		if p[0] >= 0 {
			want := protocol.Position{Line: p[0], Character: p[1]}
			if got := doc.OffsetAtPosition(want); got != off {
				r.mismatch(fmt.Sprintf("%s: offset of %d:%d in %q", what, p[0], p[1], textOf(s.Txt)), off, got)
				return
			}
			if i < len(s.Txt) {
				l := len(textChars[s.Txt[i]-1])
				if s.Txt[i] == 3 && i+1 < len(s.Txt) && s.Txt[i+1] == 2 {
					l = 2 // no position between
				}
				rg := doc.GetNodeLocation(&lexer.Token{Offset: off, Length: l}).Range
				if rg.Start != want {
					r.mismatch(fmt.Sprintf("%s: position of byte %d in %q", what, off, textOf(s.Txt)), want, rg.Start)
					return
				}
				n := i + 1
				if l == 2 && s.Txt[i] == 3 {
					n++
				}
				if e := (protocol.Position{Line: s.Pos[n][0], Character: s.Pos[n][1]}); rg.End != e {
					r.mismatch(fmt.Sprintf("%s: position of byte %d in %q", what, off+l, textOf(s.Txt)), e, rg.End)
					return
				}
			}
			count("positions", 1)
		}
		if i < len(s.Txt) {
			off += len(textChars[s.Txt[i]-1])
		}
	}
}

var textCount int

func init() {
	subs["text"] = func(r *rec, t json.RawMessage) {
		var steps []textStep
		if err := json.Unmarshal(t, &steps); err != nil {
			fatal(err)
		}
		doc := analysis.NewDocument("file:///w/a.php", []byte(textOf(steps[0].Open)))
		doc.Open()
		doc.Load()
		for i, s := range steps {
			r.step = i
			if i > 0 {
				doc = doc.CloneForMutate()
				doc.ApplyChanges(s.events())
			}
			checkText(r, "document", doc, s)
			if r.bad > 0 {
				return
			}
		}
		textCount++
		if textCount%8 != 0 {
			return
		}
		dir := filepath.Join(os.Getenv("VH_DIR"), fmt.Sprintf("text%d", textCount))
		os.MkdirAll(dir+"/w", 0o755)
		defer os.RemoveAll(dir)
		file := filepath.Join(dir, "w", "a.php")
		os.WriteFile(file, []byte("<?php\nfunction onDisk() {}\n"), 0o644)
		store, err := analysis.NewStore(protocol.NewFileFS(), util.PathToURI(dir+"/w"), dir+"/db")
		if err != nil {
			fatal(err)
		}
		defer store.Close()
		uri := util.PathToURI(file)
		ctx := context.Background()
		for i, s := range steps {
			r.step = i
			if i == 0 {
				store.OpenDocument(uri, []byte(textOf(s.Open)))
			} else {
				if i%3 == 0 { // the file changes, and the server indexes it meanwhile
					os.WriteFile(file, []byte(fmt.Sprintf("<?php\nfunction onDisk%d() {}\n", i)), 0o644)
					store.CompareAndIndexDocument(ctx, uri)
				}
				if d := store.ChangeDocument(uri, s.events()); d == nil {
					r.mismatch("store: change of an open document", "applied", "not applied")
					return
				}
			}
			d := store.GetOrCreateDocument(ctx, uri)
			if d == nil {
				r.mismatch("store: open document", "found", "not found")
				return
			}
			checkText(r, "store", d, s)
			if r.bad > 0 {
				return
			}
		}
		count("store_sessions", 1)
	}
}

package main

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"sync/atomic"
	"time"

	"github.com/john-nguyen09/phpintel/internal/jsonrpc2"
	"github.com/john-nguyen09/phpintel/internal/lsp"
	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
	"github.com/john-nguyen09/phpintel/util"
)

// session is a client of a server of its own, over in-memory streams.
type session struct {
	in, out *pipeBuf
	mu      sync.Mutex
	cond    *sync.Cond
	nextID  int
	replies map[int]wire
	diags   []diagEvent
	asked   map[string]int       // requests of the server
	noRegs  bool                 // do not answer the server's requests
	files   func() time.Duration // the client provides the files, each answer takes that long
	prompt  bool                 // files are provided at once
	held    int                  // answers which are on their way
	closed  bool
	err     error
}

type diagEvent struct {
	URI         string                `json:"uri"`
	Diagnostics []protocol.Diagnostic `json:"diagnostics"`
}

type M = map[string]interface{}

var sessionCount int32

// scratchDir makes a new directory for one behaviour.
func scratchDir(name string) string {
	d := filepath.Join(os.Getenv("VH_DIR"), fmt.Sprintf("%s%d", name, atomic.AddInt32(&sessionCount, 1)))
	if err := os.MkdirAll(d, 0o755); err != nil {
		fatal(err)
	}
	return d
}

func newSession() *session {
	s := &session{in: newPipeBuf(), out: newPipeBuf(), replies: map[int]wire{}, asked: map[string]int{}}
	s.cond = sync.NewCond(&s.mu)
	ctx := protocol.WithVersion(context.Background(), "0.9.0")
	ctx, srv := lsp.NewServer(ctx, jsonrpc2.NewHeaderStream(s.in, s.out))
	go func() {
		err := srv.Run(ctx)
		s.mu.Lock()
		s.closed, s.err = true, err
		s.cond.Broadcast()
		s.mu.Unlock()
	}()
	go s.read()
	return s
}

func (s *session) read() {
	in := bufio.NewReader(s.out)
	for {
		b, err := readFrame(in)
		if err != nil {
			return
		}
		var w wire
		if json.Unmarshal(b, &w) != nil {
			continue
		}
		s.mu.Lock()
		switch {
		case w.Method == "textDocument/publishDiagnostics":
			var d diagEvent
			json.Unmarshal(w.Params, &d)
			s.diags = append(s.diags, d)
		case s.files != nil && (w.Method == "textDocument/xcontent" || w.Method == "workspace/xfiles"):
			// what is answered is what there is when the question arrives
			reply := frame([]byte(fmt.Sprintf(`{"jsonrpc":"2.0","id":%s,%s}`, string(*w.ID), s.provide(w))))
			s.held++
			delay := s.files()
			if s.prompt {
				delay = 0
			}
			time.AfterFunc(delay, func() {
				s.in.Write(reply)
				s.mu.Lock()
				s.held--
				s.cond.Broadcast()
				s.mu.Unlock()
			})
		case w.Method != "" && w.ID != nil:
			s.asked[w.Method]++
			if !s.noRegs {
				s.in.Write(frame([]byte(fmt.Sprintf(`{"jsonrpc":"2.0","id":%s,"result":null}`, string(*w.ID)))))
			}
		case w.Method == "" && w.ID != nil:
			var id int
			if json.Unmarshal(*w.ID, &id) == nil {
				s.replies[id] = w
			}
		}
		s.cond.Broadcast()
		s.mu.Unlock()
	}
}

// answered waits until the client owes the server no file
func (s *session) answered() {
	s.mu.Lock()
	for s.held > 0 && !s.closed {
		s.cond.Wait()
	}
	s.mu.Unlock()
}

func (s *session) setPrompt(b bool) {
	s.mu.Lock()
	s.prompt = b
	s.mu.Unlock()
}

func (s *session) provide(w wire) string {
	var p struct {
		Base         string `json:"base"`
		TextDocument struct {
			URI string `json:"uri"`
		} `json:"textDocument"`
	}
	json.Unmarshal(w.Params, &p)
	var result interface{}
	if w.Method == "workspace/xfiles" {
		base, _ := util.URIToPath(p.Base)
		res := []M{}
		filepath.WalkDir(base, func(path string, d os.DirEntry, err error) error {
			if err == nil && !d.IsDir() {
				res = append(res, M{"uri": util.PathToURI(path)})
			}
			return nil
		})
		result = res
	} else {
		path, _ := util.URIToPath(p.TextDocument.URI)
		text, err := os.ReadFile(path)
		if err != nil {
			return `"error":{"code":-32001,"message":"no such file"}`
		}
		result = M{"uri": p.TextDocument.URI, "languageId": "php", "version": 1, "text": string(text)}
	}
	b, err := json.Marshal(result)
	if err != nil {
		fatal(err)
	}
	return `"result":` + string(b)
}

func (s *session) notify(method string, params interface{}) {
	m := M{"jsonrpc": "2.0", "method": method}
	if params != nil {
		m["params"] = params
	}
	b, err := json.Marshal(m)
	if err != nil {
		fatal(err)
	}
	s.in.Write(frame(b))
}

func (s *session) post(method string, params interface{}) int {
	s.mu.Lock()
	s.nextID++
	id := s.nextID
	s.mu.Unlock()
	m := M{"jsonrpc": "2.0", "id": id, "method": method}
	if params != nil {
		m["params"] = params
	}
	b, err := json.Marshal(m)
	if err != nil {
		fatal(err)
	}
	s.in.Write(frame(b))
	return id
}

// await returns the response of a request, false if there is none for a long time.
func (s *session) await(id int, limit time.Duration) (wire, bool) {
	stop := time.AfterFunc(limit, func() { s.mu.Lock(); s.cond.Broadcast(); s.mu.Unlock() })
	defer stop.Stop()
	end := time.Now().Add(limit)
	s.mu.Lock()
	defer s.mu.Unlock()
	for {
		if w, ok := s.replies[id]; ok {
			delete(s.replies, id)
			return w, true
		}
		if s.closed || !time.Now().Before(end) {
			return wire{}, false
		}
		s.cond.Wait()
	}
}

var errNoAnswer = fmt.Errorf("no answer")

func (s *session) call(method string, params, result interface{}) error {
	w, ok := s.await(s.post(method, params), 60*time.Second)
	if !ok {
		return errNoAnswer
	}
	if w.Error != nil {
		return fmt.Errorf("error %d: %s", w.Error.Code, w.Error.Message)
	}
	if result != nil && w.Result != nil {
		return json.Unmarshal(*w.Result, result)
	}
	return nil
}

func (s *session) start(folders ...string) error {
	var fs []M
	for _, f := range folders {
		fs = append(fs, M{"uri": util.PathToURI(f), "name": filepath.Base(f)})
	}
	err := s.call("initialize", M{"processId": 1, "rootUri": nil, "capabilities": M{"xfilesProvider": s.files != nil, "xcontentProvider": s.files != nil}, "workspaceFolders": fs}, nil)
	if err != nil {
		return err
	}
	s.notify("initialized", M{})
	return nil
}

func (s *session) open(uri, text string) {
	s.notify("textDocument/didOpen", M{"textDocument": M{"uri": uri, "languageId": "php", "version": 1, "text": text}})
}

func (s *session) change(uri string, changes interface{}) {
	s.notify("textDocument/didChange", M{"textDocument": M{"uri": uri, "version": 2}, "contentChanges": changes})
}

func (s *session) close(uri string) {
	s.notify("textDocument/didClose", M{"textDocument": M{"uri": uri}})
}

// watched reports file events: 1 created, 2 changed, 3 deleted.
func (s *session) watched(events ...interface{}) {
	s.notify("workspace/didChangeWatchedFiles", M{"changes": events})
}

// barrier waits until every message sent so far has been handled.
func (s *session) barrier() error {
	return s.call("textDocument/documentSymbol", M{"textDocument": M{"uri": "file:///nowhere/none.php"}}, nil)
}

// end shuts the server down and closes the streams.
func (s *session) end() error {
	err := s.call("shutdown", nil, nil)
	s.in.Close()
	s.out.Close()
	return err
}

func posParams(uri string, p protocol.Position) M {
	return M{"textDocument": M{"uri": uri}, "position": p}
}

package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"strconv"
	"strings"
	"sync"
)

// An independent implementation of the base protocol, for the peer's side.

func readFrame(in *bufio.Reader) ([]byte, error) {
	n := -1
	for {
		line, err := in.ReadString('\n')
		if err != nil {
			return nil, err
		}
		line = strings.TrimRight(line, "\r\n")
		if line == "" {
			break
		}
		i := strings.Index(line, ":")
		if i < 0 {
			return nil, fmt.Errorf("bad header %q", line)
		}
		if strings.EqualFold(strings.TrimSpace(line[:i]), "content-length") {
			v, err := strconv.Atoi(strings.TrimSpace(line[i+1:]))
			if err != nil {
				return nil, err
			}
			n = v
		}
	}
	if n < 0 {
		return nil, fmt.Errorf("no length")
	}
	b := make([]byte, n)
	_, err := io.ReadFull(in, b)
	return b, err
}

type wire struct {
	JSONRPC string           `json:"jsonrpc"`
	ID      *json.RawMessage `json:"id"`
	Method  string           `json:"method"`
	Params  json.RawMessage  `json:"params"`
	Result  *json.RawMessage `json:"result"`
	Error   *struct {
		Code    int64  `json:"code"`
		Message string `json:"message"`
	} `json:"error"`
}

// pipeBuf is an in-memory byte stream whose writer never blocks.
type pipeBuf struct {
	mu     sync.Mutex
	cond   *sync.Cond
	buf    []byte
	closed bool
	idle   bool // a reader waits for more
}

func newPipeBuf() *pipeBuf {
	p := &pipeBuf{}
	p.cond = sync.NewCond(&p.mu)
	return p
}

func (p *pipeBuf) Write(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.closed {
		return 0, io.ErrClosedPipe
	}
	p.buf = append(p.buf, b...)
	p.cond.Broadcast()
	return len(b), nil
}

func (p *pipeBuf) Read(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for len(p.buf) == 0 && !p.closed {
		p.idle = true
		p.cond.Wait()
	}
	p.idle = false
	if len(p.buf) == 0 {
		return 0, io.EOF
	}
	n := copy(b, p.buf)
	p.buf = p.buf[n:]
	return n, nil
}

// drained: everything written was read, and the reader came back for more.
func (p *pipeBuf) drained() bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.idle && len(p.buf) == 0
}

func (p *pipeBuf) Close() error {
	p.mu.Lock()
	p.closed = true
	p.cond.Broadcast()
	p.mu.Unlock()
	return nil
}

func frame(body []byte) []byte {
	return append([]byte(fmt.Sprintf("Content-Length: %d\r\n\r\n", len(body))), body...)
}

package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/john-nguyen09/phpintel/internal/jsonrpc2"
)

type chunkReader struct {
	b   []byte
	cut int
	rnd *rand.Rand
}

func (c *chunkReader) Read(p []byte) (int, error) {
	if len(c.b) == 0 {
		return 0, io.EOF
	}
	n := c.cut
	if c.rnd != nil {
		n = 1 + c.rnd.Intn(c.cut)
	}
	if n > len(c.b) {
		n = len(c.b)
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, c.b[:n])
	c.b = c.b[n:]
	return n, nil
}

func frameBody(k string, i int) string {
	switch k {
	case "one":
		return string(rune('a' + i%26))
	case "ascii":
		return fmt.Sprintf("message %d", i)
	case "multi":
		return fmt.Sprintf("naïve Ünïcödé %d é", i)
	case "astral":
		return fmt.Sprintf("😀%d𝒳", i)
	case "crlf":
		return fmt.Sprintf("\r\n\r\nContent-Length: 3\r\n\r\n%d", i)
	case "nul":
		return fmt.Sprintf("\x00\xff\xfe%d\n", i)
	case "big":
		return strings.Repeat(fmt.Sprintf("é%d-", i), 9000)
	case "json":
		return fmt.Sprintf(`{"jsonrpc":"2.0","id":%d,"result":"é"}`, i)
	case "space":
		return fmt.Sprintf("  %d \n", i)
	}
	fatal("body", k)
	return ""
}

func frameLine(k string, n int) string {
	switch k {
	case "cl":
		return fmt.Sprintf("Content-Length: %d\r\n", n)
	case "clnospace":
		return fmt.Sprintf("Content-Length:%d\r\n", n)
	case "clspaces":
		return fmt.Sprintf("Content-Length:    %d   \r\n", n)
	case "cltab":
		return fmt.Sprintf("Content-Length:\t%d\r\n", n)
	case "cllf":
		return fmt.Sprintf("Content-Length: %d\n", n)
	case "clpad":
		return fmt.Sprintf("Content-Length: 00%d\r\n", n)
	case "ct":
		return "Content-Type: application/vscode-jsonrpc; charset=utf-8\r\n"
	case "x":
		return "X-Trace: 12\r\n"
	case "xcolon":
		return "X-Url: http://a:80/b: c\r\n"
	case "xempty":
		return "X-Empty:\r\n"
	case "xlf":
		return "X-Lf: 5\n"
	case "nocolon":
		return "Content-Length\r\n"
	case "clabc":
		return "Content-Length: abc\r\n"
	case "clempty":
		return "Content-Length:\r\n"
	case "clneg":
		return "Content-Length: -5\r\n"
	case "clzero":
		return "Content-Length: 0\r\n"
	case "clhuge":
		return "Content-Length: 99999999999999999999\r\n"
	case "clfloat":
		return fmt.Sprintf("Content-Length: %d.5\r\n", n)
	case "garbage":
		return "{\"jsonrpc\"}\r\n"
	case "blank":
		return "\r\n"
	case "blanklf":
		return "\n"
	}
	fatal("line", k)
	return ""
}

func init() {
	subs["frame"] = func(r *rec, t json.RawMessage) {
		var tr struct {
			Lines           []struct{ L, B string }
			Inside, At, Cut int
			Msgs            []string
		}
		if err := json.Unmarshal(t, &tr); err != nil {
			fatal(err)
		}
		var buf bytes.Buffer
		var bodies []string
		end := -1
		next := func(i int) string { // body that the header at line i announces
			for j := i; j < len(tr.Lines); j++ {
				if tr.Lines[j].L == "unit" {
					return frameBody(tr.Lines[j].B, j)
				}
			}
			return ""
		}
		for i, l := range tr.Lines {
			var s string
			if l.L == "unit" {
				s = frameBody(l.B, i)
				bodies = append(bodies, s)
			} else {
				s = frameLine(l.L, len(next(i)))
			}
			if tr.Inside == i+1 {
				end = buf.Len() + tr.At*len(s)/100
			}
			buf.WriteString(s)
		}
		b := buf.Bytes()
		if end >= 0 {
			b = b[:end]
		}
		cr := &chunkReader{b: b, cut: tr.Cut}
		if tr.Cut > 3 {
			cr.rnd = rand.New(rand.NewSource(int64(r.n)))
		}
		s := jsonrpc2.NewHeaderStream(cr, io.Discard)
		for i := 0; ; i++ {
			r.step = i
			type res struct {
				d   []byte
				err error
			}
			ch := make(chan res, 1)
			go func() {
				d, _, err := s.Read(context.Background())
				ch <- res{d, err}
			}()
			var x res
			select {
			case x = <-ch:
			case <-time.After(20 * time.Second):
				r.mismatch("read hangs", "returns", "nothing")
				return
			}
			count("reads", 1)
			if i >= len(tr.Msgs) {
				if x.err == nil {
					r.mismatch("message out of nothing", "error", string(x.d))
				}
				return
			}
			if x.err != nil {
				r.mismatch("message lost", bodies[i], x.err.Error())
				return
			}
			if string(x.d) != bodies[i] {
				r.mismatch("message differs", bodies[i], string(x.d))
				return
			}
		}
	}
	raw["framestress"] = frameStress
}

// sink records what the stream writes, yielding so that writers interleave, and notes each frame as
// soon as it is complete.
type sink struct {
	mu     sync.Mutex
	all    []byte
	parsed int
	rnd    *rand.Rand
	log    func(map[string]interface{})
	broken bool
	split  bool
}

func (s *sink) Write(p []byte) (int, error) {
	// two halves, as a transport may take them
	k := len(p)
	if s.split && k > 1 {
		k = 1 + len(p)/2
	}
	s.put(p[:k])
	runtime.Gosched()
	if s.rndn(3) == 0 {
		time.Sleep(time.Duration(s.rndn(60)) * time.Microsecond)
	}
	if k < len(p) {
		s.put(p[k:])
	}
	return len(p), nil
}

func (s *sink) rndn(n int) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.rnd.Intn(n)
}

func (s *sink) put(p []byte) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.all = append(s.all, p...)
	for !s.broken {
		rest := s.all[s.parsed:]
		i := bytes.Index(rest, []byte("\r\n\r\n"))
		if i < 0 {
			return
		}
		h := string(rest[:i])
		n, err := strconv.Atoi(strings.TrimPrefix(h, "Content-Length: "))
		if err != nil {
			s.broken = true
			s.log(map[string]interface{}{"e": "frame", "w": 0, "n": 0, "ok": false, "raw": h})
			return
		}
		if len(rest) < i+4+n {
			return
		}
		body := string(rest[i+4 : i+4+n])
		w, k, ok := stressParse(body)
		s.log(map[string]interface{}{"e": "frame", "w": w, "n": k, "ok": ok})
		if !ok {
			s.broken = true
		}
		s.parsed += i + 4 + n
	}
}

func stressBody(w, k int) string {
	pad := strings.Repeat(fmt.Sprintf("é%d.%d ", w, k), (w*7+k*13)%40)
	if (w+k)%9 == 0 {
		pad = strings.Repeat(pad, 30)
	}
	return fmt.Sprintf("%d %d %s|", w, k, pad)
}

func stressParse(s string) (int, int, bool) {
	var w, k int
	if _, err := fmt.Sscanf(s, "%d %d", &w, &k); err != nil {
		return 0, 0, false
	}
	return w, k, s == stressBody(w, k)
}

// framestress <out.ndjson> <writers> <perWriter> <seed>: prints what the real reader made of it.
func frameStress(args []string) {
	nw, _ := strconv.Atoi(args[1])
	per, _ := strconv.Atoi(args[2])
	seed, _ := strconv.ParseInt(args[3], 10, 64)
	var logMu sync.Mutex
	var events []map[string]interface{}
	logf := func(e map[string]interface{}) {
		logMu.Lock()
		events = append(events, e)
		logMu.Unlock()
	}
	sk := &sink{rnd: rand.New(rand.NewSource(seed)), log: logf, split: seed%2 == 0}
	st := jsonrpc2.NewHeaderStream(strings.NewReader(""), sk)
	var wg sync.WaitGroup
	for w := 1; w <= nw; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for k := 1; k <= per; k++ {
				logf(map[string]interface{}{"e": "inv", "w": w, "n": k})
				if _, err := st.Write(context.Background(), []byte(stressBody(w, k))); err != nil {
					logf(map[string]interface{}{"e": "frame", "w": w, "n": k, "ok": false, "raw": err.Error()})
				}
				logf(map[string]interface{}{"e": "ret", "w": w, "n": k})
			}
		}(w)
	}
	wg.Wait()
	fh, err := os.Create(args[0])
	if err != nil {
		fatal(err)
	}
	order := []string{}
	enc := json.NewEncoder(fh)
	for _, e := range events {
		enc.Encode(e)
		if e["e"] == "frame" {
			order = append(order, fmt.Sprint(e["w"], ".", e["n"]))
		}
	}
	fh.Close()
	// the real reader, on the same bytes
	rd := jsonrpc2.NewHeaderStream(&chunkReader{b: append([]byte{}, sk.all...), cut: 1 + int(seed%300), rnd: rand.New(rand.NewSource(seed))}, io.Discard)
	bad := ""
	for i := 0; ; i++ {
		d, _, err := rd.Read(context.Background())
		if err != nil {
			if i != len(order) {
				bad = fmt.Sprintf("read %d of %d messages: %v", i, len(order), err)
			}
			break
		}
		w, k, ok := stressParse(string(d))
		if i >= len(order) || !ok || fmt.Sprint(w, ".", k) != order[i] {
			bad = fmt.Sprintf("message %d read as %.80q", i, d)
			break
		}
	}
	emit(map[string]interface{}{"done": true, "bad": bad, "events": len(events), "frames": len(order)})
}

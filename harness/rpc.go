package main

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/john-nguyen09/phpintel/internal/jsonrpc2"
)

// Replays behaviours of specs/RpcGen.tla against a jsonrpc2.Conn.

type rpcAct struct {
	Op     string   `json:"op"`
	Note   bool     `json:"note"`
	Idk    string   `json:"idk"`
	Script []string `json:"script"`
	I      int      `json:"i"`
	Can    bool     `json:"can"`
	C      int      `json:"c"`
	How    string   `json:"how"`
	K      string   `json:"k"`
}

type rpcOut struct {
	I    int    `json:"i"`
	What string `json:"what"`
}

type rpcObs struct {
	Started int      `json:"started"`
	Pos     []int    `json:"pos"`
	Done    []bool   `json:"done"`
	Out     []rpcOut `json:"out"`
	Calls   []string `json:"calls"`
}

type rpcTrace struct {
	H []struct {
		A rpcAct `json:"a"`
		O rpcObs `json:"o"`
	} `json:"h"`
	Fin rpcObs `json:"fin"`
}

type rpcMsg struct {
	note    bool
	script  []string
	gate    chan rpcGate
	rawID   string
	id      jsonrpc2.ID
	started bool
	pos     int
	done    bool
}

type rpcGate struct {
	can  bool
	call int
}

type rpcDrv struct {
	jsonrpc2.EmptyHandler
	mu     sync.Mutex
	conn   *jsonrpc2.Conn
	msgs   []*rpcMsg
	order  []int
	calls  []string
	callID map[int]string
	cancel map[int]context.CancelFunc
	out    []rpcOut
	weird  []string
	in     *pipeBuf
	ran    int32
	errs   int32
	closed int32
}

var rpcNums = []int64{0, 1, -1, 2, 9007199254740993, 3}

func rpcID(i int, kind string) (string, jsonrpc2.ID) {
	n := rpcNums[i%len(rpcNums)]
	if i >= len(rpcNums) {
		n += int64(100 * i)
	}
	if kind == "num" {
		return fmt.Sprint(n), jsonrpc2.ID{Number: n}
	}
	s := fmt.Sprint(n)
	if i%3 == 2 {
		s = fmt.Sprintf("id \"%d\" é", n)
	}
	b, _ := json.Marshal(s)
	return string(b), jsonrpc2.ID{Name: s}
}

func (d *rpcDrv) problem(s string) {
	d.mu.Lock()
	d.weird = append(d.weird, s)
	d.mu.Unlock()
}

func (d *rpcDrv) Deliver(ctx context.Context, r *jsonrpc2.Request, delivered bool) bool {
	if delivered {
		return false
	}
	var i int
	if _, err := fmt.Sscanf(r.Method, "h%d", &i); err != nil {
		d.problem("unexpected method " + r.Method)
		return false
	}
	d.mu.Lock()
	m := d.msgs[i-1]
	if m.started {
		d.weird = append(d.weird, "handler started twice")
	}
	m.started = true
	d.order = append(d.order, i)
	if r.IsNotify() != m.note {
		d.weird = append(d.weird, "request and notification confused")
	}
	if string(*r.Params) != fmt.Sprintf(`{"p":%d}`, i) {
		d.weird = append(d.weird, "params changed: "+string(*r.Params))
	}
	d.mu.Unlock()
	for _, act := range m.script {
		g, open := <-m.gate
		if !open {
			return true
		}
		if (ctx.Err() != nil) != g.can {
			d.problem(fmt.Sprintf("handler %d: cancelled=%v, expected %v", i, ctx.Err() != nil, g.can))
		}
		d.mu.Lock()
		m.pos++
		d.mu.Unlock()
		switch act {
		case "par":
			r.Parallel()
		case "reply":
			r.Reply(ctx, map[string]int{"h": i}, nil)
		case "fail":
			r.Reply(ctx, nil, fmt.Errorf("fail%d", i))
		case "bad":
			r.Reply(ctx, make(chan int), nil)
		case "call":
			d.call(ctx, g.call)
		}
	}
	g, open := <-m.gate
	if !open {
		return true
	}
	if (ctx.Err() != nil) != g.can {
		d.problem(fmt.Sprintf("handler %d: cancelled=%v at its end, expected %v", i, ctx.Err() != nil, g.can))
	}
	d.mu.Lock()
	m.done = true
	d.mu.Unlock()
	return true
}

func (d *rpcDrv) Error(ctx context.Context, err error) { atomic.AddInt32(&d.errs, 1) }

func (d *rpcDrv) call(ctx context.Context, c int) {
	var res struct {
		C int `json:"c"`
	}
	err := d.conn.Call(ctx, fmt.Sprintf("call%d", c), map[string]int{"c": c}, &res)
	var st string
	var werr *jsonrpc2.Error
	switch {
	case err == nil && res.C == c:
		st = "ok"
	case err == nil:
		st = fmt.Sprintf("wrong result %d for call %d", res.C, c)
	case errors.Is(err, context.Canceled):
		st = "cancelled"
	case errors.As(err, &werr) && werr.Message == fmt.Sprintf("e%d", c) && werr.Code == 7:
		st = "err"
	default:
		st = "unexpected error: " + err.Error()
	}
	d.mu.Lock()
	d.calls[c-1] = st
	d.mu.Unlock()
}

// peer reads what the connection writes.
func (d *rpcDrv) peer(out *pipeBuf) {
	in := bufio.NewReader(out)
	for {
		b, err := readFrame(in)
		if err != nil {
			if atomic.LoadInt32(&d.closed) == 0 {
				d.problem("peer cannot read: " + err.Error())
			}
			return
		}
		var w wire
		if err := json.Unmarshal(b, &w); err != nil {
			d.problem("peer got invalid JSON: " + string(b))
			continue
		}
		if w.JSONRPC != "2.0" {
			d.problem("message without version: " + string(b))
		}
		d.mu.Lock()
		switch {
		case w.Method != "":
			var c int
			if _, err := fmt.Sscanf(w.Method, "call%d", &c); err != nil || w.ID == nil || string(w.Params) != fmt.Sprintf(`{"c":%d}`, c) {
				d.weird = append(d.weird, "unexpected call "+string(b))
			} else if _, dup := d.callID[c]; dup {
				d.weird = append(d.weird, "call sent twice "+string(b))
			} else {
				for _, o := range d.callID {
					if o == string(*w.ID) {
						d.weird = append(d.weird, "call id used twice "+string(b))
					}
				}
				d.callID[c] = string(*w.ID)
			}
		case w.ID == nil:
			d.weird = append(d.weird, "message without id "+string(b))
		default:
			who := 0
			for k, m := range d.msgs {
				if !m.note && m.rawID == string(*w.ID) {
					who = k + 1
				}
			}
			what := "?" + string(b)
			switch {
			case w.Error != nil && w.Result != nil && string(*w.Result) != "null":
				what = "both result and error"
			case w.Error != nil && w.Error.Message == fmt.Sprintf("fail%d", who):
				what = "fail"
			case w.Error != nil && strings.Contains(w.Error.Message, "did not reply"):
				what = "none"
			case w.Error != nil:
				what = "bad"
			case w.Result != nil && string(*w.Result) == fmt.Sprintf(`{"h":%d}`, who):
				what = "reply"
			}
			d.out = append(d.out, rpcOut{who, what})
		}
		d.mu.Unlock()
	}
}

func (d *rpcDrv) obs() rpcObs {
	d.mu.Lock()
	defer d.mu.Unlock()
	o := rpcObs{Started: len(d.order), Out: append([]rpcOut{}, d.out...), Calls: append([]string{}, d.calls...), Pos: []int{}, Done: []bool{}}
	for _, m := range d.msgs {
		o.Pos = append(o.Pos, m.pos)
		o.Done = append(o.Done, m.done)
	}
	return o
}

func (d *rpcDrv) send(s string) { d.in.Write(frame([]byte(s))) }

// norm: an error answer's text is not specified, except that of "fail".
func rpcNorm(o rpcObs) rpcObs {
	out := []rpcOut{}
	for _, x := range o.Out {
		if x.What == "none" {
			x.What = "bad"
		}
		out = append(out, x)
	}
	o.Out = out
	if o.Pos == nil {
		o.Pos = []int{}
	}
	if o.Done == nil {
		o.Done = []bool{}
	}
	if o.Calls == nil {
		o.Calls = []string{}
	}
	return o
}

var rpcJunk = map[string]string{
	"unknown":    `{"jsonrpc":"2.0","id":4242,"result":{"c":1}}`,
	"unknownstr": `{"jsonrpc":"2.0","id":"nobody","result":null}`,
	"errunknown": `{"jsonrpc":"2.0","id":777,"error":{"code":1,"message":"x"}}`,
	"brace":      `{`,
	"array":      `[1,2]`,
	"empty":      `{}`,
	"version":    `{"jsonrpc":"1.0","id":5,"method":"h1"}`,
	"number":     `17`,
	"null":       `null`,
	"noid":       `{"jsonrpc":"2.0","result":true}`,
	"badid":      `{"jsonrpc":"2.0","id":{"a":1},"method":"h1"}`,
	"badmethod":  `{"jsonrpc":"2.0","id":91,"method":5}`,
}

func init() {
	subs["rpc"] = func(r *rec, t json.RawMessage) {
		var tr rpcTrace
		if err := json.Unmarshal(t, &tr); err != nil {
			fatal(err)
		}
		d := &rpcDrv{callID: map[int]string{}, cancel: map[int]context.CancelFunc{}, in: newPipeBuf()}
		out := newPipeBuf()
		d.conn = jsonrpc2.NewConn(jsonrpc2.NewHeaderStream(d.in, out))
		d.conn.AddHandler(d)
		ctx, stop := context.WithCancel(context.Background())
		runErr := make(chan error, 1)
		go func() { runErr <- d.conn.Run(ctx); atomic.StoreInt32(&d.ran, 1) }()
		go d.peer(out)
		defer func() {
			atomic.StoreInt32(&d.closed, 1)
			stop()
			d.in.Close()
			select {
			case <-runErr:
			case <-time.After(20 * time.Second):
				r.mismatch("Run did not return after the stream ended", "returns", "still running")
			}
			out.Close()
			// let the handlers go
			for _, m := range d.msgs {
				close(m.gate)
			}
		}()
		check := func(want rpcObs) bool {
			want = rpcNorm(want)
			var got rpcObs
			ok := waitFor(8*time.Second, func() bool {
				got = rpcNorm(d.obs())
				return reflect.DeepEqual(got, want)
			})
			count("observations", 1)
			if !ok {
				r.mismatch("observation differs", want, got)
				return false
			}
			d.mu.Lock()
			defer d.mu.Unlock()
			for k, i := range d.order {
				if i != k+1 {
					r.mismatch("handlers started out of order", "1,2,3,...", d.order)
					return false
				}
			}
			if len(d.weird) > 0 {
				r.mismatch("protocol", "nothing unexpected", d.weird)
				return false
			}
			if atomic.LoadInt32(&d.ran) != 0 {
				r.mismatch("Run returned although the stream is open", "running", "returned")
				return false
			}
			return true
		}
		for k, s := range tr.H {
			r.step = k
			if !check(s.O) {
				return
			}
			a := s.A
			count("actions", 1)
			switch a.Op {
			case "arrive":
				i := len(d.msgs) + 1
				raw, id := rpcID(i-1, a.Idk)
				d.mu.Lock()
				d.msgs = append(d.msgs, &rpcMsg{note: a.Note, script: a.Script, gate: make(chan rpcGate, 1), rawID: raw, id: id})
				d.mu.Unlock()
				ids := `"id":` + raw + `,`
				if a.Note {
					ids = ""
				}
				d.send(fmt.Sprintf(`{"jsonrpc":"2.0",%s"method":"h%d","params":{"p":%d}}`, ids, i, i))
			case "step":
				m := d.msgs[a.I-1]
				g := rpcGate{can: a.Can}
				if m.pos < len(m.script) && m.script[m.pos] == "call" {
					d.mu.Lock()
					d.calls = append(d.calls, "pending")
					g.call = len(d.calls)
					d.mu.Unlock()
				}
				m.gate <- g
				if g.call > 0 && !a.Can && !d.awaitCall(g.call) {
					r.mismatch("call was not sent", "message", "none")
					return
				}
			case "cancel":
				// the reader must have come past the request before its id means anything
				d.mu.Lock()
				m := d.msgs[a.I-1]
				wait := !m.started
				d.mu.Unlock()
				if wait {
					waitFor(8*time.Second, d.in.drained)
				}
				d.conn.Cancel(d.msgs[a.I-1].id)
			case "call":
				d.mu.Lock()
				d.calls = append(d.calls, "pending")
				c := len(d.calls)
				cctx, cf := context.WithCancel(ctx)
				d.cancel[c] = cf
				d.mu.Unlock()
				go d.call(cctx, c)
				if !d.awaitCall(c) {
					r.mismatch("call was not sent", "message", "none")
					return
				}
			case "respond":
				d.mu.Lock()
				id := d.callID[a.C]
				d.mu.Unlock()
				if a.How == "ok" {
					d.send(fmt.Sprintf(`{"jsonrpc":"2.0","id":%s,"result":{"c":%d}}`, id, a.C))
				} else {
					d.send(fmt.Sprintf(`{"jsonrpc":"2.0","id":%s,"error":{"code":7,"message":"e%d","data":null}}`, id, a.C))
				}
			case "abort":
				d.cancel[a.C]()
			case "junk":
				j, ok := rpcJunk[a.K]
				if !ok {
					fatal("junk", a.K)
				}
				d.send(j)
			case "end":
			default:
				fatal("op", a.Op)
			}
		}
		r.step = len(tr.H)
		if !check(tr.Fin) {
			return
		}
		if r.n%16 == 0 {
			time.Sleep(5 * time.Millisecond)
			check(tr.Fin)
		}
	}
}

func (d *rpcDrv) awaitCall(c int) bool {
	return waitFor(8*time.Second, func() bool {
		d.mu.Lock()
		defer d.mu.Unlock()
		_, ok := d.callID[c]
		return ok
	})
}

package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"reflect"

	"github.com/john-nguyen09/phpintel/analysis/storage"
)

// Replays OrdMapGen's histories on every storage back end.

type storOp struct {
	O string            `json:"o"`
	K []int             `json:"k"`
	P []int             `json:"p"`
	V int               `json:"v"`
	S int               `json:"s"`
	E []json.RawMessage `json:"e"`
}

var keyBytes = []byte{0x00, 'a', 'b', 0xff}

// the values of the histories: mostly small ones, or ones that each fill a block of the disk's tables
var valSets = [][][]byte{
	{{}, []byte("x"), []byte("\x00KEY\x00"), make([]byte, 5000)},
	{{}, bytes.Repeat([]byte("x"), 4500), bytes.Repeat([]byte("\x00KEY\x00"), 900), bytes.Repeat([]byte("yz"), 2250)},
}
var valBytes [][]byte

func keyOf(k []int) []byte {
	b := []byte{}
	for _, x := range k {
		b = append(b, keyBytes[x-1])
	}
	return b
}

func valOf(b []byte) int {
	for i, v := range valBytes {
		if string(v) == string(b) {
			return i
		}
	}
	return -1
}

type backEnd struct {
	name   string
	db     storage.DB
	reopen func() (storage.DB, error)
}

// combinedMode makes one mode of a Combined a DB
type combinedMode struct {
	c    *storage.Combined
	mode storage.DBMode
}

func (c *combinedMode) Close()                       { c.c.Close() }
func (c *combinedMode) Clear()                       { c.c.Clear(c.mode) }
func (c *combinedMode) Delete(k []byte) error        { return c.c.Delete(c.mode, k) }
func (c *combinedMode) Get(k []byte) ([]byte, error) { return c.c.Get(c.mode, k) }
func (c *combinedMode) PrefixStream(p []byte, f func(storage.Iterator)) {
	c.c.PrefixStream(c.mode, p, f)
}
func (c *combinedMode) Put(k []byte, v []byte) error { return c.c.Put(c.mode, k, v) }
func (c *combinedMode) WriteBatch(f func(storage.Batch) error) error {
	return c.c.WriteBatch(c.mode, f)
}

var storCount int

func backEnds() ([]*backEnd, func()) {
	storCount++
	dir := filepath.Join(os.Getenv("VH_DIR"), fmt.Sprintf("stor%d", storCount))
	os.MkdirAll(dir, 0o755)
	var res []*backEnd
	add := func(name string, open func() (storage.DB, error), disk bool) {
		db, err := open()
		if err != nil {
			fatal(name, err)
		}
		b := &backEnd{name: name, db: db}
		if disk {
			b.reopen = open
		}
		res = append(res, b)
	}
	add("leveldb", func() (storage.DB, error) { return storage.NewGoLevelDB(filepath.Join(dir, "l")) }, true)
	add("memory", func() (storage.DB, error) { return storage.NewMemory(), nil }, false)
	comb := func(mode storage.DBMode) func() (storage.DB, error) {
		return func() (storage.DB, error) {
			c, err := storage.NewCombined(filepath.Join(dir, fmt.Sprintf("c%d", mode)))
			if err != nil {
				return nil, err
			}
			return &combinedMode{c, mode}, nil
		}
	}
	add("combined/disk", comb(storage.ModeDisk), true)
	add("combined/memory", comb(storage.ModeMemory), false)
	add("memonly", func() (storage.DB, error) { return &combinedMode{storage.NewMemOnly(), storage.ModeDisk}, nil }, false)
	return res, func() {
		for _, b := range res {
			b.db.Close()
		}
		os.RemoveAll(dir)
	}
}

func init() {
	subs["storage"] = func(r *rec, t json.RawMessage) {
		var ops []storOp
		if err := json.Unmarshal(t, &ops); err != nil {
			fatal(err)
		}
		valBytes = valSets[storCount%len(valSets)]
		bes, done := backEnds()
		defer done()
		for _, b := range bes {
			runStorage(r, b, ops)
			if r.bad > 0 {
				return
			}
		}
	}
}

var errBatch = errors.New("batch fails")

func runStorage(r *rec, be *backEnd, ops []storOp) {
	var exec func(i int, batch storage.Batch) int
	// buffers are reused by the caller after each call, as a caller may
	kb, vb := make([]byte, 0, 16), make([]byte, 0, 8192)
	key := func(k []int) []byte { kb = append(kb[:0], keyOf(k)...); return kb }
	val := func(v int) []byte { vb = append(vb[:0], valBytes[v]...); return vb }
	exec = func(i int, batch storage.Batch) int {
		for i < len(ops) && r.bad == 0 {
			o := ops[i]
			r.step = i
			count("storage_ops", 1)
			switch o.O {
			case "put":
				if err := be.db.Put(key(o.K), val(o.V)); err != nil {
					r.mismatch(be.name+" put", nil, err.Error())
				}
			case "del":
				if err := be.db.Delete(key(o.K)); err != nil {
					r.mismatch(be.name+" delete", nil, err.Error())
				}
			case "bput":
				batch.Put(key(o.K), val(o.V))
			case "bdel":
				batch.Delete(key(o.K))
			case "get":
				v, err := be.db.Get(keyOf(o.K))
				exp := []int{}
				for _, e := range o.E {
					var x int
					json.Unmarshal(e, &x)
					exp = append(exp, x)
				}
				got := []int{}
				if err == nil {
					got = append(got, valOf(v))
				}
				if !reflect.DeepEqual(exp, got) {
					r.mismatch(be.name+" get", exp, got)
				}
			case "scan", "sweep":
				exp := [][2]string{}
				for _, e := range o.E {
					var pair []json.RawMessage
					var k []int
					var v int
					json.Unmarshal(e, &pair)
					json.Unmarshal(pair[0], &k)
					json.Unmarshal(pair[1], &v)
					exp = append(exp, [2]string{fmt.Sprintf("%x", keyOf(k)), fmt.Sprint(v)})
				}
				got := [][2]string{}
				// keys and values are kept by the caller, who looks at them after the scan
				var visited [][2][]byte
				be.db.PrefixStream(keyOf(o.P), func(it storage.Iterator) {
					k := it.Key()
					visited = append(visited, [2][]byte{k, it.Value()})
					if o.O == "sweep" {
						be.db.Delete(k)
					}
					if o.S > 0 && len(visited) == o.S {
						it.Stop()
					}
				})
				for _, kv := range visited {
					got = append(got, [2]string{fmt.Sprintf("%x", kv[0]), fmt.Sprint(valOf(kv[1]))})
				}
				if !reflect.DeepEqual(exp, got) {
					r.mismatch(be.name+" "+o.O, exp, got)
				}
			case "begin":
				end := i
				err := be.db.WriteBatch(func(b storage.Batch) error {
					end = exec(i+1, b)
					if r.bad == 0 && ops[end].O == "fail" {
						return errBatch
					}
					return nil
				})
				if r.bad > 0 {
					return len(ops)
				}
				if (err != nil) != (ops[end].O == "fail") {
					r.mismatch(be.name+" batch", ops[end].O, fmt.Sprint(err))
				}
				i = end
			case "commit", "fail":
				return i
			case "clear":
				be.db.Clear()
			case "reopen":
				if be.reopen != nil {
					be.db.Close()
					db, err := be.reopen()
					if err != nil {
						r.mismatch(be.name+" reopen", nil, err.Error())
						return len(ops)
					}
					be.db = db
				}
			}
			i++
		}
		return i
	}
	exec(0, nil)
}

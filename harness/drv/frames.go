package drv

import (
	"errors"
	"hash/fnv"
	"io"
	"math/rand"
	"runtime"
	"sync"
	"testing/synctest"
	"time"

	"gitlab.com/thorchain/tss/go-tss/p2p"

	"verif/harness/netsim"
)

func init() { modules["frames"] = runFrames }

type frameStep struct {
	Op    string      `json:"op"`
	St    string      `json:"st"`
	ID    string      `json:"id"`
	Len   int         `json:"len"`
	Cut   int         `json:"cut"`
	Decl  int         `json:"decl"`
	Have  int         `json:"have"`
	Chunk int         `json:"chunk"` // most bytes in one Read
	End   string      `json:"end"`   // what follows the bytes: eof, reset, hang, data (the last bytes come with io.EOF)
	How   string      `json:"how"`   // how a cut write looks: err, late
	L     []frameStep `json:"l"`
}

func (s *frameStep) rec() M {
	switch s.Op {
	case "write":
		return M{"op": s.Op, "st": s.St, "id": s.ID, "len": s.Len, "cut": s.Cut}
	case "raw":
		return M{"op": s.Op, "st": s.St, "id": s.ID, "decl": s.Decl, "have": s.Have}
	}
	return M{"op": s.Op, "st": s.St}
}

// content is the message of that name and length
func content(id string, n int) []byte {
	h := fnv.New64a()
	h.Write([]byte(id))
	b := make([]byte, n)
	rand.New(rand.NewSource(int64(h.Sum64()))).Read(b)
	return b
}

// cutStream takes only so many bytes
type cutStream struct {
	*netsim.Stream
	left int // -1: all
	how  string
}

func (c *cutStream) Write(b []byte) (int, error) {
	if c.left < 0 || len(b) <= c.left {
		n, err := c.Stream.Write(b)
		if c.left >= 0 {
			c.left -= n
		}
		return n, err
	}
	n, err := c.Stream.Write(b[:c.left])
	c.left = 0
	if err != nil {
		panic("HARNESS: " + err.Error())
	}
	switch c.how {
	case "late":
		time.Sleep(p2p.TimeoutWritePayload)
		return n, errors.New("i/o deadline reached")
	}
	return n, errors.New("stream reset")
}

// dataStream gives io.EOF together with the last bytes
type dataStream struct {
	*netsim.Stream
}

func (d *dataStream) Read(b []byte) (int, error) {
	n, err := d.Stream.Read(b)
	if err == nil && len(d.Peek()) == 0 {
		err = io.EOF
	}
	return n, err
}

func runFrames(sc *Script) []M {
	var steps []frameStep
	sc.steps(&steps)
	net := netsim.New()
	type ends struct {
		a, b *netsim.Stream
		end  string
		id   string
		n    int
	}
	on := map[string]*ends{}
	tr := []M{}
	me, you := newIdent("me"), newIdent("you")
	do := func(s *frameStep, measure bool) func() M {
		switch s.Op {
		case "write", "raw":
			a, b := net.Pair(me.Peer, you.Peer, "/f", s.Chunk)
			e := &ends{a: a, b: b, end: s.End, id: s.ID, n: s.Len}
			on[s.St] = e
			if s.Op == "raw" {
				e.n = s.Decl
				return func() M {
					n := s.Have - 4
					if n < 0 {
						n = 0
					}
					body := content(s.ID, n)
					if s.Decl >= 0 && s.Decl > n {
						body = content(s.ID, s.Decl)
						if s.Decl > 1<<25 {
							panic("HARNESS: decl")
						}
						body = body[:n]
					} else if s.Decl < n {
						body = append(content(s.ID, s.Decl), make([]byte, n-s.Decl)...)
					}
					fr := append(lenHead(uint32(s.Decl)), body...)
					_, err := a.Write(fr[:s.Have])
					must(err)
					switch s.End {
					case "eof", "data":
						a.Close()
					}
					return M{"r": "ok"}
				}
			}
			return func() M {
				w := &cutStream{Stream: a, left: s.Cut, how: s.How}
				err := p2p.WriteStreamWithBuffer(content(s.ID, s.Len), w)
				if s.End != "hang" {
					a.Close()
				}
				if err != nil {
					return M{"r": "err"}
				}
				return M{"r": "ok"}
			}
		case "read":
			e := on[s.St]
			delete(on, s.St)
			return func() M {
				if e == nil {
					// nothing ever came on this stream
					a, b := net.Pair(me.Peer, you.Peer, "/f", 0)
					a.Close()
					e = &ends{a: a, b: b}
				}
				var st netStream = e.b
				if e.end == "data" {
					st = &dataStream{e.b}
				}
				if e.end == "reset" {
					// the bytes that are there can still be read, then the stream is dead
					st = &resetStream{e.b}
				}
				var m0, m1 runtime.MemStats
				if measure {
					runtime.ReadMemStats(&m0)
				}
				t0 := time.Now()
				buf, err := p2p.ReadStreamWithBuffer(st)
				ms := int(time.Since(t0) / time.Millisecond)
				kb := 0
				if measure {
					runtime.ReadMemStats(&m1)
					kb = int((m1.TotalAlloc - m0.TotalAlloc) / 1024)
				}
				r := "other"
				if err != nil {
					r = "err"
				} else if len(buf) == e.n && string(buf) == string(content(e.id, e.n)) {
					r = e.id
				}
				return M{"r": r, "ms": ms, "kb": kb}
			}
		}
		panic("HARNESS: op " + s.Op)
	}
	for k := range steps {
		s := &steps[k]
		l := []frameStep{*s}
		if s.Op == "par" {
			l = s.L
		}
		outs := make([]M, len(l))
		var wg sync.WaitGroup
		for j := range l {
			f := do(&l[j], len(l) == 1)
			wg.Add(1)
			go func() {
				defer wg.Done()
				outs[j] = f()
			}()
		}
		wg.Wait()
		synctest.Wait()
		for j := range l {
			tr = append(tr, M{"i": l[j].rec(), "o": outs[j]})
		}
	}
	return tr
}

func lenHead(n uint32) []byte { return []byte{byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)} }

// resetStream: after the bytes that are there come errors
type resetStream struct {
	*netsim.Stream
}

func (d *resetStream) Read(b []byte) (int, error) {
	if len(d.Peek()) == 0 {
		return 0, errors.New("stream reset")
	}
	return d.Stream.Read(b)
}

// Package netsim is an in-memory stand-in for a libp2p network: hosts, streams and peer stores that only
// use channels, timers and condition variables, so that they run on the virtual clock of testing/synctest.
package netsim

import (
	"context"
	"errors"
	"fmt"
	"io"
	"sync"
	"time"

	"github.com/libp2p/go-libp2p-core/host"
	"github.com/libp2p/go-libp2p-core/mux"
	"github.com/libp2p/go-libp2p-core/network"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/peerstore"
	"github.com/libp2p/go-libp2p-core/protocol"
	maddr "github.com/multiformats/go-multiaddr"
)

// Verdict says what happens to one attempt to open a stream.
type Verdict struct {
	Fail    bool                            // refused at once
	Hang    bool                            // never answered: the attempt ends with its context only
	Delay   time.Duration                   // latency before the remote handler sees the stream
	Chunk   int                             // most bytes handed to one Read on either side, 0: no limit
	Gate    func(s *Stream, deliver func()) // decides when (and whether) the remote handler sees the stream
	Swallow bool                            // the stream opens, but the remote side never reads it nor answers
}

// Net is one network.
type Net struct {
	mu    sync.Mutex
	hosts map[peer.ID]*Host
	// Policy decides about each stream; nil: all fine.
	Policy func(from, to peer.ID, proto protocol.ID) Verdict
	// OnOpen sees every attempt.
	OnOpen func(from, to peer.ID, proto protocol.ID)
	// OnWrite sees all the bytes written by the opener of a stream, once it stops writing (close or reset or first read).
	OnFrame func(from, to peer.ID, proto protocol.ID, data []byte)
	// ResetLag is how long it takes until the other side notices a reset: what was sent before is still read.
	ResetLag time.Duration
	all      []*Stream
	nid      int
}

func New() *Net { return &Net{hosts: map[peer.ID]*Host{}} }

// Host is one node of the network.
type Host struct {
	host.Host
	net      *Net
	id       peer.ID
	mu       sync.Mutex
	handlers map[protocol.ID]network.StreamHandler
	ps       *Peerstore
	closed   bool
}

func (n *Net) Host(id peer.ID) *Host {
	n.mu.Lock()
	defer n.mu.Unlock()
	if h, ok := n.hosts[id]; ok {
		return h
	}
	h := &Host{net: n, id: id, handlers: map[protocol.ID]network.StreamHandler{}, ps: &Peerstore{addrs: map[peer.ID][]maddr.Multiaddr{}}}
	n.hosts[id] = h
	return h
}

// Streams returns all stream ends created so far.
func (n *Net) Streams() []*Stream {
	n.mu.Lock()
	defer n.mu.Unlock()
	return append([]*Stream{}, n.all...)
}

func (h *Host) ID() peer.ID                    { return h.id }
func (h *Host) Peerstore() peerstore.Peerstore { return h.ps }
func (h *Host) Addrs() []maddr.Multiaddr       { return nil }
func (h *Host) SetPeerAddrs(p peer.ID, a []maddr.Multiaddr) {
	h.ps.mu.Lock()
	defer h.ps.mu.Unlock()
	h.ps.addrs[p] = a
}
func (h *Host) SetStreamHandler(p protocol.ID, f network.StreamHandler) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.handlers[p] = f
}
func (h *Host) RemoveStreamHandler(p protocol.ID) {
	h.mu.Lock()
	defer h.mu.Unlock()
	delete(h.handlers, p)
}
func (h *Host) Handler(p protocol.ID) network.StreamHandler {
	h.mu.Lock()
	defer h.mu.Unlock()
	return h.handlers[p]
}
func (h *Host) Close() error {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.closed = true
	return nil
}

func (h *Host) NewStream(ctx context.Context, p peer.ID, pids ...protocol.ID) (network.Stream, error) {
	n := h.net
	proto := pids[0]
	if n.OnOpen != nil {
		n.OnOpen(h.id, p, proto)
	}
	var v Verdict
	if n.Policy != nil {
		v = n.Policy(h.id, p, proto)
	}
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	if p == h.id {
		return nil, errors.New("dial to self attempted")
	}
	if v.Hang {
		<-ctx.Done()
		return nil, ctx.Err()
	}
	if v.Fail {
		return nil, errors.New("dial failed")
	}
	if v.Delay > 0 {
		t := time.NewTimer(v.Delay)
		select {
		case <-ctx.Done():
			t.Stop()
			return nil, ctx.Err()
		case <-t.C:
		}
	}
	n.mu.Lock()
	t, ok := n.hosts[p]
	n.mu.Unlock()
	if !ok {
		return nil, errors.New("no route to peer")
	}
	f := t.Handler(proto)
	t.mu.Lock()
	closed := t.closed
	t.mu.Unlock()
	if f == nil || closed {
		return nil, errors.New("protocol not supported")
	}
	a, b := n.Pair(h.id, p, proto, v.Chunk)
	switch {
	case v.Swallow:
	case v.Gate != nil:
		v.Gate(b, func() { f(b) })
	default:
		go f(b)
	}
	return a, nil
}

// Pair makes the two ends of one stream: a is the opener's.
func (n *Net) Pair(from, to peer.ID, proto protocol.ID, chunk int) (*Stream, *Stream) {
	ab, ba := newPipe(chunk), newPipe(chunk)
	n.mu.Lock()
	defer n.mu.Unlock()
	n.nid++
	a := &Stream{id: fmt.Sprintf("%d-o", n.nid), Local: from, Remote: to, proto: proto, rd: ba, wr: ab, Opener: true, net: n}
	b := &Stream{id: fmt.Sprintf("%d-r", n.nid), Local: to, Remote: from, proto: proto, rd: ab, wr: ba, net: n}
	n.all = append(n.all, a, b)
	return a, b
}

type pipe struct {
	mu       sync.Mutex
	cond     *sync.Cond
	buf      []byte
	closed   bool // writer closed
	reset    bool
	chunk    int
	deadline time.Time
	timer    *time.Timer
	total    int
}

func newPipe(chunk int) *pipe {
	p := &pipe{chunk: chunk}
	p.cond = sync.NewCond(&p.mu)
	return p
}

type timeoutError struct{}

func (timeoutError) Error() string   { return "i/o timeout" }
func (timeoutError) Timeout() bool   { return true }
func (timeoutError) Temporary() bool { return true }

func (p *pipe) read(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for {
		if p.reset {
			return 0, mux.ErrReset
		}
		if !p.deadline.IsZero() && !time.Now().Before(p.deadline) {
			return 0, timeoutError{}
		}
		if len(p.buf) > 0 {
			n := len(b)
			if n > len(p.buf) {
				n = len(p.buf)
			}
			if p.chunk > 0 && n > p.chunk {
				n = p.chunk
			}
			copy(b, p.buf[:n])
			p.buf = p.buf[n:]
			return n, nil
		}
		if p.closed {
			return 0, io.EOF
		}
		p.cond.Wait()
	}
}

func (p *pipe) setDeadline(t time.Time) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.deadline = t
	if p.timer != nil {
		p.timer.Stop()
		p.timer = nil
	}
	if !t.IsZero() {
		p.timer = time.AfterFunc(time.Until(t), func() {
			p.mu.Lock()
			defer p.mu.Unlock()
			p.cond.Broadcast()
		})
	}
	p.cond.Broadcast()
}

func (p *pipe) write(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.reset {
		return 0, mux.ErrReset
	}
	if p.closed {
		return 0, errors.New("stream closed")
	}
	p.buf = append(p.buf, b...)
	p.total += len(b)
	p.cond.Broadcast()
	return len(b), nil
}

func (p *pipe) close() {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.closed = true
	p.cond.Broadcast()
}

func (p *pipe) doReset() {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.reset = true
	if p.timer != nil {
		p.timer.Stop()
	}
	p.cond.Broadcast()
}

// Peek returns what could be read.
func (s *Stream) Peek() []byte {
	s.rd.mu.Lock()
	defer s.rd.mu.Unlock()
	return append([]byte{}, s.rd.buf...)
}

// Dead tells whether the other side has reset the stream.
func (s *Stream) Dead() bool {
	s.rd.mu.Lock()
	defer s.rd.mu.Unlock()
	return s.rd.reset
}

// Stream is one end of a stream.
type Stream struct {
	id            string
	Local, Remote peer.ID
	proto         protocol.ID
	rd, wr        *pipe
	Opener        bool
	net           *Net
	mu            sync.Mutex
	Resets        int
	Closes        int
	sent          []byte
	tapped        bool
	Quiet         bool // not seen by OnFrame
}

func (s *Stream) Read(b []byte) (int, error) { return s.rd.read(b) }
func (s *Stream) Write(b []byte) (int, error) {
	n, err := s.wr.write(b)
	if s.Opener && !s.Quiet && s.net.OnFrame != nil && err == nil {
		s.mu.Lock()
		s.sent = append(s.sent, b[:n]...)
		var frame []byte
		if !s.tapped && len(s.sent) >= 4 {
			l := int(uint32(s.sent[0]) | uint32(s.sent[1])<<8 | uint32(s.sent[2])<<16 | uint32(s.sent[3])<<24)
			if len(s.sent) >= 4+l {
				s.tapped = true
				frame = s.sent[4 : 4+l]
			}
		}
		s.mu.Unlock()
		if frame != nil {
			s.net.OnFrame(s.Local, s.Remote, s.proto, frame)
		}
	}
	return n, err
}
func (s *Stream) Close() error {
	s.mu.Lock()
	s.Closes++
	s.mu.Unlock()
	s.wr.close()
	return nil
}
func (s *Stream) Reset() error {
	s.mu.Lock()
	s.Resets++
	s.mu.Unlock()
	s.rd.doReset()
	if s.net.ResetLag > 0 {
		s.wr.close()
		time.AfterFunc(s.net.ResetLag, s.wr.doReset)
	} else {
		s.wr.doReset()
	}
	return nil
}
func (s *Stream) WasReset() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.Resets > 0
}
func (s *Stream) SetDeadline(t time.Time) error      { s.rd.setDeadline(t); return nil }
func (s *Stream) SetReadDeadline(t time.Time) error  { s.rd.setDeadline(t); return nil }
func (s *Stream) SetWriteDeadline(t time.Time) error { return nil }
func (s *Stream) ID() string                         { return s.id }
func (s *Stream) Protocol() protocol.ID              { return s.proto }
func (s *Stream) SetProtocol(p protocol.ID)          { s.proto = p }
func (s *Stream) Stat() network.Stat                 { return network.Stat{} }
func (s *Stream) Conn() network.Conn                 { return &conn{s: s} }

type conn struct {
	network.Conn
	s *Stream
}

func (c *conn) LocalPeer() peer.ID  { return c.s.Local }
func (c *conn) RemotePeer() peer.ID { return c.s.Remote }
func (c *conn) Close() error        { return nil }
func (c *conn) ID() string          { return "conn-" + c.s.id }
func (c *conn) RemoteMultiaddr() maddr.Multiaddr {
	a, _ := maddr.NewMultiaddr("/ip4/10.0.0.1/tcp/1")
	return a
}
func (c *conn) LocalMultiaddr() maddr.Multiaddr {
	a, _ := maddr.NewMultiaddr("/ip4/10.0.0.2/tcp/1")
	return a
}

// Peerstore answers the two questions that the code asks.
type Peerstore struct {
	peerstore.Peerstore
	mu    sync.Mutex
	addrs map[peer.ID][]maddr.Multiaddr
}

func (p *Peerstore) Peers() peer.IDSlice {
	p.mu.Lock()
	defer p.mu.Unlock()
	var r peer.IDSlice
	for k := range p.addrs {
		r = append(r, k)
	}
	return r
}
func (p *Peerstore) Addrs(id peer.ID) []maddr.Multiaddr {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.addrs[id]
}
func (p *Peerstore) PeersWithAddrs() peer.IDSlice { return p.Peers() }

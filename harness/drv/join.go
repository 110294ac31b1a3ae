package drv

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/protocol"
	"google.golang.org/protobuf/proto"

	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/p2p"

	"verif/harness/netsim"
)

func init() { modules["join"] = runJoin }

const (
	protoFlat   = protocol.ID("/p2p/join-party")
	protoLeader = protocol.ID("/p2p/join-party-leader")
)

type joinCfg struct {
	N       int      `json:"n"`
	Thr     int      `json:"thr"`
	Flat    bool     `json:"flat"`
	Parts   []string `json:"parts"`
	Outs    []string `json:"outs"`
	Real    []string `json:"real"`
	Timeout int      `json:"timeout"` // 0.1 ms
	Height  int64    `json:"height"`
	// random network
	Auto    bool    `json:"auto"`
	Seed    int64   `json:"seed"`
	Delay   int     `json:"delay"` // most, in 0.1 ms
	PDrop   float64 `json:"pdrop"`
	PFail   float64 `json:"pfail"`
	PHang   float64 `json:"phang"`
	PDup    float64 `json:"pdup"`
	IO      int     `json:"io"`
	Shuffle bool    `json:"shuffle"` // the nodes list the participants in different orders
}

type joinStep struct {
	E     string   `json:"e"`
	N     string   `json:"n"`
	From  string   `json:"from"`
	To    string   `json:"to"`
	X     string   `json:"x"`
	Type  string   `json:"type"`
	List  []string `json:"list"`
	D     int      `json:"d"` // 0.1 ms
	Times int      `json:"times"`
}

type heldMsg struct {
	kind, from, to string
	s              *netsim.Stream
	deliver        func()
}

type joinRun struct {
	cfg   joinCfg
	net   *netsim.Net
	mu    sync.Mutex
	tr    []M
	t0    time.Time
	ids   map[string]peer.ID
	names map[peer.ID]string
	pcs   map[string]*p2p.PartyCoordinator
	sigs  map[string]chan string
	held  []*heldMsg
	pend  int
	rng   *rand.Rand
	real  map[string]bool
	list  []string
	calls map[string]time.Time
}

func (r *joinRun) now() int { return int(time.Since(r.t0) / (100 * time.Microsecond)) }
func (r *joinRun) rec(m M) {
	m["t"] = r.now()
	r.tr = append(r.tr, m)
}

func (r *joinRun) nameList(l []string) []string {
	out := []string{}
	for _, x := range l {
		id, err := peer.Decode(x)
		name := r.names[id]
		if err != nil || name == "" {
			name = "?" + x
		}
		out = append(out, name)
	}
	return out
}

func frame(b []byte) []byte {
	h := make([]byte, 4)
	binary.LittleEndian.PutUint32(h, uint32(len(b)))
	return append(h, b...)
}

func sessOf(id string) string { return strings.TrimPrefix(id, "session-") }

// the record of a message that is about to reach the handler
func (r *joinRun) arrival(from, to string, p protocol.ID, frame []byte) M {
	if len(frame) < 4 {
		return nil
	}
	if p == protoFlat {
		var m messages.JoinPartyRequest
		if proto.Unmarshal(frame[4:], &m) != nil {
			return nil
		}
		return M{"e": "req", "from": from, "to": to, "x": sessOf(m.ID)}
	}
	var m messages.JoinPartyLeaderComm
	if proto.Unmarshal(frame[4:], &m) != nil {
		return nil
	}
	if m.MsgType == "request" {
		return M{"e": "req", "from": from, "to": to, "x": sessOf(m.ID)}
	}
	return M{"e": "resp", "from": from, "to": to, "x": sessOf(m.ID), "type": m.Type.String(), "list": r.nameList(m.PeerIDs)}
}

func (r *joinRun) handle(from, to string, s *netsim.Stream, deliver func()) {
	r.mu.Lock()
	if a := r.arrival(from, to, s.Protocol(), s.Peek()); a != nil && !s.Dead() {
		r.rec(a)
	}
	r.mu.Unlock()
	deliver()
}

func (r *joinRun) policy(from, to peer.ID, p protocol.ID) netsim.Verdict {
	f, t := r.names[from], r.names[to]
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.cfg.Auto {
		x := r.rng.Float64()
		switch {
		case x < r.cfg.PDrop:
			return netsim.Verdict{Swallow: true}
		case x < r.cfg.PDrop+r.cfg.PFail:
			return netsim.Verdict{Fail: true}
		case x < r.cfg.PDrop+r.cfg.PFail+r.cfg.PHang:
			return netsim.Verdict{Hang: true}
		}
		d := time.Duration(1000+r.rng.Intn(r.cfg.Delay*100+1)) * time.Microsecond
		dup := r.rng.Float64() < r.cfg.PDup
		return netsim.Verdict{Gate: func(s *netsim.Stream, deliver func()) {
			go func() {
				time.Sleep(d)
				buf := s.Peek()
				r.handle(f, t, s, deliver)
				if dup {
					time.Sleep(d + 777*time.Microsecond)
					r.inject(f, t, p, buf)
				}
			}()
		}}
	}
	return netsim.Verdict{Gate: func(s *netsim.Stream, deliver func()) {
		k := "req"
		if p == protoLeader && f == "L" {
			k = "resp"
		}
		r.mu.Lock()
		r.held = append(r.held, &heldMsg{kind: k, from: f, to: t, s: s, deliver: deliver})
		r.mu.Unlock()
	}}
}

// inject opens a stream from anybody and delivers a frame
func (r *joinRun) inject(from, to string, p protocol.ID, fr []byte) {
	f := r.net.Host(r.ids[to]).Handler(p)
	if f == nil {
		return
	}
	a, b := r.net.Pair(r.ids[from], r.ids[to], p, 0)
	a.Quiet = true
	if _, err := a.Write(fr); err != nil {
		panic("HARNESS: " + err.Error())
	}
	r.handle(from, to, b, func() { f(b) })
}

func (r *joinRun) buildMsg(s *joinStep) (protocol.ID, []byte) {
	id := "session-" + s.X
	if r.cfg.Flat {
		buf, err := proto.Marshal(&messages.JoinPartyRequest{ID: id})
		must(err)
		return protoFlat, frame(buf)
	}
	m := &messages.JoinPartyLeaderComm{ID: id, MsgType: "request"}
	if s.E == "resp" {
		m.MsgType = "response"
		m.Type = messages.JoinPartyLeaderComm_ResponseType(messages.JoinPartyLeaderComm_ResponseType_value[s.Type])
		for _, x := range s.List {
			m.PeerIDs = append(m.PeerIDs, r.ids[x].String())
		}
	}
	buf, err := proto.Marshal(m)
	must(err)
	return protoLeader, frame(buf)
}

func (r *joinRun) take(kind, from, to string) *heldMsg {
	r.mu.Lock()
	defer r.mu.Unlock()
	var hit *heldMsg
	var rest []*heldMsg
	for _, h := range r.held {
		if h.kind == kind && h.from == from && h.to == to {
			hit = h // older ones are lost
		} else {
			rest = append(rest, h)
		}
	}
	r.held = rest
	return hit
}

func errName(err error) string {
	switch {
	case err == nil:
		return ""
	case errors.Is(err, p2p.ErrJoinPartyTimeout):
		return "timeout"
	case errors.Is(err, p2p.ErrLeaderNotReady):
		return "notready"
	case errors.Is(err, p2p.ErrSignReceived):
		return "sig"
	case err.Error() == "not enough peer":
		return "few"
	}
	return "other: " + err.Error()
}

func (r *joinRun) call(n string) {
	pc := r.pcs[n]
	sig := make(chan string, 2)
	r.mu.Lock()
	r.sigs[n] = sig
	r.pend++
	list := append([]string{}, r.list...)
	if r.cfg.Shuffle {
		r.rng.Shuffle(len(list), func(i, j int) { list[i], list[j] = list[j], list[i] })
	}
	r.rec(M{"e": "call", "n": n})
	r.calls[n] = time.Now()
	r.mu.Unlock()
	go func() {
		var l []peer.ID
		var leader string
		var err error
		if r.cfg.Flat {
			l, err = pc.JoinPartyWithRetry("session-s", list)
		} else {
			l, leader, err = pc.JoinPartyWithLeader("session-s", r.cfg.Height, list, r.cfg.Thr, sig)
		}
		var ls []string
		for _, x := range l {
			ls = append(ls, x.String())
		}
		r.mu.Lock()
		defer r.mu.Unlock()
		ln := ""
		if leader != "" {
			ln = r.nameList([]string{leader})[0]
		}
		r.rec(M{"e": "ret", "n": n, "err": errName(err), "list": r.nameList(ls), "leader": ln})
		r.pend--
		delete(r.sigs, n)
		pc.ReleaseStream("session-s")
	}()
}

func runJoin(sc *Script) []M {
	r := &joinRun{net: netsim.New(), t0: time.Now(), ids: map[string]peer.ID{}, names: map[peer.ID]string{},
		pcs: map[string]*p2p.PartyCoordinator{}, sigs: map[string]chan string{}, real: map[string]bool{}, calls: map[string]time.Time{}}
	var steps []joinStep
	sc.cfg(&r.cfg)
	sc.steps(&steps)
	r.rng = rand.New(rand.NewSource(r.cfg.Seed + 17))
	ps, os := idents(r.cfg.N, len(r.cfg.Outs))
	for _, p := range ps {
		r.list = append(r.list, p.Peer.String())
	}
	leader := ""
	if !r.cfg.Flat {
		l, err := p2p.LeaderNode("session-s", r.cfg.Height, r.list)
		must(err)
		leader = l
	}
	k := 1
	for _, p := range ps {
		name := fmt.Sprintf("m%d", k)
		if p.Peer.String() == leader {
			name = "L"
		} else {
			k++
		}
		r.ids[name], r.names[p.Peer] = p.Peer, name
	}
	for _, p := range os {
		r.ids[p.Name], r.names[p.Peer] = p.Peer, p.Name
	}
	r.net.Policy = r.policy
	r.net.OnFrame = func(from, to peer.ID, p protocol.ID, data []byte) {
		f, t := r.names[from], r.names[to]
		if p != protoLeader || !r.real[f] {
			return
		}
		r.mu.Lock()
		defer r.mu.Unlock()
		if a := r.arrival(f, t, p, frame(data)); a != nil && a["e"] == "resp" {
			r.rec(M{"e": "sent", "n": f, "to": t, "type": a["type"], "list": a["list"]})
		}
	}
	for _, n := range r.cfg.Real {
		r.real[n] = true
		r.pcs[n] = p2p.NewPartyCoordinator(r.net.Host(r.ids[n]), time.Duration(r.cfg.Timeout)*100*time.Microsecond)
	}
	r.rec(M{"e": "cfg", "io": r.cfg.IO})
	for i := range steps {
		s := &steps[i]
		if s.D > 0 {
			time.Sleep(time.Duration(s.D)*100*time.Microsecond + 13*time.Microsecond)
		}
		switch s.E {
		case "call":
			if r.pcs[s.N] != nil && !r.waiting(s.N) {
				r.call(s.N)
			}
		case "req", "resp":
			times := s.Times
			if times == 0 {
				times = 1
			}
			if !r.real[s.To] {
				break
			}
			if r.real[s.From] {
				if r.cfg.Auto || s.X != "s" {
					break
				}
				h := r.take(s.E, s.From, s.To)
				for k := 0; h == nil && k < 12; k++ {
					time.Sleep(100 * time.Millisecond)
					synctest.Wait()
					h = r.take(s.E, s.From, s.To)
				}
				if h != nil {
					go r.handle(h.from, h.to, h.s, h.deliver)
				}
			} else {
				for k := 0; k < times; k++ {
					p, fr := r.buildMsg(s)
					go r.inject(s.From, s.To, p, fr)
					synctest.Wait()
				}
			}
		case "drop":
			r.mu.Lock()
			r.held = nil
			r.mu.Unlock()
		case "sig":
			r.mu.Lock()
			if c := r.sigs[s.N]; c != nil && len(c) == 0 {
				r.rec(M{"e": "sig", "n": s.N})
				c <- "signature received"
			}
			r.mu.Unlock()
		case "adv", "answer":
		case "ret":
			for k := 0; k < 200 && r.waiting(s.N); k++ {
				time.Sleep(100 * time.Millisecond)
				synctest.Wait()
			}
		case "deadline":
			if r.waiting(s.N) {
				if d := time.Until(r.calls[s.N].Add(time.Duration(r.cfg.Timeout)*100*time.Microsecond + 2*time.Millisecond)); d > 0 {
					time.Sleep(d)
				}
			}
		case "settle":
			// until every attempt that runs has ended
			for k := 0; k < 2400 && r.pending() > 0; k++ {
				time.Sleep(100 * time.Millisecond)
				synctest.Wait()
			}
			r.mu.Lock()
			r.held = nil
			r.mu.Unlock()
		default:
			panic("HARNESS: step " + s.E)
		}
		synctest.Wait()
	}
	for k := 0; k < 3000 && r.pending() > 0; k++ {
		time.Sleep(100 * time.Millisecond)
		synctest.Wait()
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.pend > 0 {
		r.rec(M{"e": "hang"})
	}
	tr := r.tr
	r.tr = nil
	return tr
}

func (r *joinRun) waiting(n string) bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.sigs[n] != nil
}

func (r *joinRun) pending() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.pend
}

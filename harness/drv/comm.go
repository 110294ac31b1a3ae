package drv

import (
	"encoding/json"
	"errors"
	"fmt"
	"runtime"
	"sort"
	"sync"
	"testing/synctest"
	"time"

	"github.com/libp2p/go-libp2p-core/network"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/protocol"
	"google.golang.org/protobuf/proto"

	"gitlab.com/thorchain/tss/go-tss/keysign"
	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/p2p"

	"verif/harness/netsim"
)

func init() { modules["comm"] = runComm }

type netStream = network.Stream

type commCfg struct {
	Comp  string   `json:"comp"` // comm, mgr, flat, leader, notifier: what is under test
	Errs  []string `json:"errs"` // streams whose reset fails
	Peers int      `json:"peers"`
}

type commStep struct {
	Op     string     `json:"op"`
	Kind   int        `json:"kind"`
	Sess   string     `json:"sess"`
	Ch     string     `json:"ch"`
	From   string     `json:"from"`
	ID     string     `json:"id"`
	Bad    bool       `json:"bad"`
	How    string     `json:"how"`
	Size   int        `json:"size"`
	To     []string   `json:"to"`
	Dead   []string   `json:"dead"`
	Broken []string   `json:"broken"`
	Direct bool       `json:"direct"`
	L      []commStep `json:"l"`
	Nest   bool       `json:"nest"` // the others happen while the first, a release, resets its first stream
}

func (s *commStep) rec() M {
	switch s.Op {
	case "sub":
		return M{"op": s.Op, "kind": s.Kind, "sess": s.Sess, "ch": s.Ch}
	case "cancel":
		return M{"op": s.Op, "kind": s.Kind, "sess": s.Sess}
	case "arrive":
		return M{"op": s.Op, "kind": s.Kind, "sess": s.Sess, "from": s.From, "id": s.ID, "bad": s.Bad}
	case "bcast":
		nn := func(l []string) []string { return append([]string{}, l...) }
		return M{"op": s.Op, "to": nn(s.To), "dead": nn(s.Dead), "broken": nn(s.Broken), "sess": s.Sess, "id": s.ID}
	case "add":
		return M{"op": s.Op, "id": s.ID, "sess": s.Sess}
	case "release":
		return M{"op": s.Op, "sess": s.Sess}
	case "par":
		l := []M{}
		for k := range s.L {
			l = append(l, s.L[k].rec())
		}
		return M{"op": "par", "l": l}
	}
	panic("HARNESS: op " + s.Op)
}

// watched counts resets and lets other things happen during one
type watched struct {
	*netsim.Stream
	onReset func() error
}

func (w *watched) Reset() error {
	err := w.onReset()
	w.Stream.Reset()
	return err
}

type commRun struct {
	cfg    commCfg
	net    *netsim.Net
	me     *Ident
	peers  map[string]*Ident
	names  map[peer.ID]string
	mu     sync.Mutex
	resets []string
	got    []M
	chans  map[string]chan *p2p.Message
	during func()
	errs   map[string]bool
	wrap   map[*netsim.Stream]string
	comm   *p2p.Communication
	mgr    *p2p.StreamMgr
	pc     *p2p.PartyCoordinator
	sn     *keysign.SignatureNotifier
	host   *netsim.Host
	sent   map[string]string // the bytes of a message
	last   map[string]int    // resets of the communication streams seen so far
}

func (r *commRun) stream(id string, s *netsim.Stream) *watched {
	return &watched{Stream: s, onReset: func() error {
		r.mu.Lock()
		r.resets = append(r.resets, id)
		f := r.during
		r.during = nil
		bad := r.errs[id]
		r.mu.Unlock()
		if f != nil {
			f()
		}
		if bad {
			return errors.New("reset failed")
		}
		return nil
	}}
}

func sessName(x string) string { return "sess-" + x }

// frameOf is the frame of a message, as the protocol of the component under test has it
func (r *commRun) frameOf(s *commStep) (protocol.ID, []byte) {
	var buf []byte
	var err error
	id := sessName(s.Sess)
	var p protocol.ID
	switch r.cfg.Comp {
	case "comm":
		p = p2p.TSSProtocolID
		w := messages.WrappedMessage{MessageType: messages.THORChainTSSMessageType(s.Kind), MsgID: id, Payload: content(s.ID, s.Size)}
		buf, err = json.Marshal(&w)
	case "flat":
		p = protoFlat
		buf, err = proto.Marshal(&messages.JoinPartyRequest{ID: id})
	case "leader":
		p = protoLeader
		k := "request"
		if s.How == "response" {
			k = "response"
		}
		if s.How == "kind" {
			k = "something"
		}
		buf, err = proto.Marshal(&messages.JoinPartyLeaderComm{ID: id, MsgType: k})
	case "notifier":
		p = "/p2p/signatureNotifier"
		m := &messages.KeysignSignature{ID: id, KeysignStatus: messages.KeysignSignature_Failed}
		if s.How == "sig" {
			m.KeysignStatus = messages.KeysignSignature_Success
			m.Signatures = [][]byte{{1, 2}, {3}}
		}
		buf, err = proto.Marshal(m)
	}
	must(err)
	if !s.Bad {
		r.sent[s.ID] = string(buf)
		return p, frame(buf)
	}
	switch s.How {
	case "kind": // only the leader protocol can tell
		if r.cfg.Comp == "leader" {
			return p, frame(buf)
		}
		return p, frame([]byte{0xff, 0xff, 0xff})
	case "cut":
		f := frame(buf)
		return p, f[:len(f)-1]
	case "head":
		return p, []byte{1, 2}
	case "huge":
		return p, []byte{0xff, 0xff, 0xff, 0xff, 1}
	case "none":
		return p, nil
	case "type":
		if r.cfg.Comp == "comm" {
			return p, frame([]byte(fmt.Sprintf(`{"message_type":"x","message_id":%q}`, id)))
		}
	}
	return p, frame([]byte{0xff, 0xff, 0xff})
}

func (r *commRun) do(s *commStep) {
	id := sessName(s.Sess)
	switch s.Op {
	case "sub":
		r.comm.SetSubscribe(messages.THORChainTSSMessageType(s.Kind), id, r.chans[s.Ch])
	case "cancel":
		r.comm.CancelSubscribe(messages.THORChainTSSMessageType(s.Kind), id)
	case "arrive":
		r.mu.Lock()
		p, fr := r.frameOf(s)
		r.mu.Unlock()
		a, b := r.net.Pair(r.peers[s.From].Peer, r.me.Peer, p, 0)
		a.Quiet = true
		if len(fr) > 0 {
			_, err := a.Write(fr)
			must(err)
		}
		a.Close()
		r.host.Handler(p)(r.stream(s.ID, b))
	case "bcast":
		var to []peer.ID
		for _, x := range s.To {
			to = append(to, r.peers[x].Peer)
		}
		w := messages.WrappedMessage{MessageType: messages.THORChainTSSMessageType(s.Kind), MsgID: id, Payload: content(s.ID, s.Size)}
		buf, err := json.Marshal(&w)
		must(err)
		r.mu.Lock()
		r.sent[s.ID] = string(buf)
		r.mu.Unlock()
		if s.Direct {
			r.comm.Broadcast(to, buf, id)
		} else {
			r.comm.BroadcastMsgChan <- &messages.BroadcastMsgChan{WrappedMessage: w, PeersID: to}
		}
	case "add":
		_, b := r.net.Pair(r.me.Peer, r.peers["p1"].Peer, "/m", 0)
		r.mgr.AddStream(r.mgrID(s.Sess), r.stream(s.ID, b))
	case "release":
		switch r.cfg.Comp {
		case "comm":
			r.comm.ReleaseStream(id)
		case "mgr":
			r.mgr.ReleaseStream(r.mgrID(s.Sess))
		case "flat", "leader":
			r.pc.ReleaseStream(id)
		case "notifier":
			r.sn.ReleaseStream(id)
		}
	}
}

func (r *commRun) mgrID(x string) string {
	if x == "UNKNOWN" {
		return x
	}
	return sessName(x)
}

func runComm(sc *Script) []M {
	r := &commRun{net: netsim.New(), me: newIdent("me"), peers: map[string]*Ident{}, names: map[peer.ID]string{}, chans: map[string]chan *p2p.Message{},
		errs: map[string]bool{}, sent: map[string]string{}, last: map[string]int{}}
	sc.cfg(&r.cfg)
	var steps []commStep
	sc.steps(&steps)
	for _, x := range r.cfg.Errs {
		r.errs[x] = true
	}
	r.host = r.net.Host(r.me.Peer)
	r.peers["me"] = r.me
	for k := 1; k <= 4; k++ {
		n := fmt.Sprintf("p%d", k)
		r.peers[n] = newIdent("comm-" + n)
		r.names[r.peers[n].Peer] = n
	}
	for k := 1; k <= 4; k++ {
		r.chans[fmt.Sprintf("c%d", k)] = make(chan *p2p.Message, 4096)
	}
	var dead, broken map[string]bool
	// the streams that the node opens: their reset is seen on the netsim stream itself
	type opened struct {
		s    *netsim.Stream
		name string
	}
	var outs []*opened
	r.net.Policy = func(from, to peer.ID, p protocol.ID) netsim.Verdict {
		n := r.names[to]
		r.mu.Lock()
		defer r.mu.Unlock()
		if dead[n] {
			return netsim.Verdict{Fail: true}
		}
		brk := broken[n]
		return netsim.Verdict{Gate: func(s *netsim.Stream, deliver func()) {
			if brk {
				s.Reset()
			} else {
				go deliver()
			}
		}}
	}
	for n, id := range r.peers {
		if n == "me" {
			continue
		}
		r.net.Host(id.Peer).SetStreamHandler(p2p.TSSProtocolID, func(s network.Stream) {
			buf, err := p2p.ReadStreamWithBuffer(s)
			if err != nil {
				return
			}
			r.mu.Lock()
			defer r.mu.Unlock()
			m := M{"to": n, "id": "?", "same": false}
			for id, c := range r.sent {
				var x, y messages.WrappedMessage
				if json.Unmarshal([]byte(c), &x) == nil && json.Unmarshal(buf, &y) == nil && x.MessageType == y.MessageType && x.MsgID == y.MsgID && string(x.Payload) == string(y.Payload) {
					m["id"], m["same"] = id, true
				}
			}
			if s.Conn().RemotePeer() != r.me.Peer {
				m["same"] = false
			}
			r.got = append(r.got, m)
		})
	}
	switch r.cfg.Comp {
	case "comm":
		c, err := p2p.NewCommunicationForHost(r.host)
		must(err)
		r.comm = c
	case "mgr":
		r.mgr = p2p.NewStreamMgr()
	case "flat", "leader":
		r.pc = p2p.NewPartyCoordinator(r.host, time.Second)
	case "notifier":
		r.sn = keysign.NewSignatureNotifier(r.host)
	}
	seen := 0
	tr := []M{}
	for k := range steps {
		s := &steps[k]
		r.resets, r.got = []string{}, []M{}
		dead, broken = map[string]bool{}, map[string]bool{}
		// which streams do the broadcasts of this step open?
		bc := map[string]string{}
		ops := []*commStep{s}
		if s.Op == "par" {
			ops = nil
			for j := range s.L {
				ops = append(ops, &s.L[j])
			}
		}
		for _, o := range ops {
			if o.Op == "bcast" {
				for _, x := range o.Dead {
					dead[x] = true
				}
				for _, x := range o.Broken {
					broken[x] = true
				}
				bc[o.Sess] = o.ID
			}
		}
		switch {
		case s.Op == "par" && s.Nest:
			var wg sync.WaitGroup
			started := false
			r.during = func() {
				started = true
				for j := 1; j < len(s.L); j++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						r.do(&s.L[j])
					}()
				}
				// the others may have to wait for this release, or may not
				for n := 0; n < 200; n++ {
					runtime.Gosched()
				}
			}
			r.do(&s.L[0])
			r.during = nil
			if !started {
				for j := 1; j < len(s.L); j++ {
					r.do(&s.L[j])
				}
			}
			wg.Wait()
		case s.Op == "par":
			var wg sync.WaitGroup
			for j := range s.L {
				wg.Add(1)
				go func() {
					defer wg.Done()
					r.do(&s.L[j])
				}()
			}
			wg.Wait()
		default:
			r.do(s)
		}
		synctest.Wait()
		r.mu.Lock()
		all := r.net.Streams()
		for _, x := range all[seen:] {
			if x.Opener && x.Local == r.me.Peer && x.Protocol() == p2p.TSSProtocolID && r.cfg.Comp == "comm" {
				// several broadcasts at a time are for different sessions; the frame tells
				id := ""
				if len(bc) == 1 {
					for _, b := range bc {
						id = b
					}
				}
				outs = append(outs, &opened{s: x, name: id + ":" + r.names[x.Remote]})
			}
		}
		seen = len(all)
		for _, o := range outs {
			for n := r.last[o.name]; n < o.s.Resets; n++ {
				r.resets = append(r.resets, o.name)
			}
			r.last[o.name] = o.s.Resets
		}
		del := []M{}
		for c, ch := range r.chans {
			for len(ch) > 0 {
				m := <-ch
				x := M{"ch": c, "from": r.names[m.PeerID], "id": "?", "same": false}
				for id, b := range r.sent {
					if b == string(m.Payload) {
						x["id"], x["same"] = id, true
					}
				}
				del = append(del, x)
			}
		}
		sort.Strings(r.resets)
		tr = append(tr, M{"i": s.rec(), "o": M{"del": del, "got": append([]M{}, r.got...), "resets": append([]string{}, r.resets...)}})
		r.mu.Unlock()
	}
	return tr
}

package drv

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing/synctest"

	_ "github.com/binance-chain/tss-lib/ecdsa/keygen"
	_ "github.com/binance-chain/tss-lib/ecdsa/signing"
	btss "github.com/binance-chain/tss-lib/tss"
	"github.com/golang/protobuf/proto"
	"github.com/golang/protobuf/ptypes"
	"github.com/golang/protobuf/ptypes/any"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/tendermint/tendermint/crypto/secp256k1"
	"google.golang.org/protobuf/reflect/protoreflect"

	"gitlab.com/thorchain/tss/go-tss/common"
	"gitlab.com/thorchain/tss/go-tss/conversion"
	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/p2p"
)

func init() { modules["shares"] = runShares }

// content of a share of the given round with a tag in its first bytes field
func roundContent(rnd, tag string) proto.Message {
	t := proto.MessageType(rnd)
	if t == nil {
		panic("HARNESS: unknown round " + rnd)
	}
	m := reflect.New(t.Elem()).Interface().(proto.Message)
	if !tagField(protoV2(m), &tag, true) {
		panic("HARNESS: no place for a tag in " + rnd)
	}
	return m
}

// tagField writes or reads the first bytes field of a message, in a sub-message if need be
func tagField(r protoreflect.Message, tag *string, write bool) bool {
	fds := r.Descriptor().Fields()
	for i := 0; i < fds.Len(); i++ {
		fd := fds.Get(i)
		switch {
		case fd.Kind() == protoreflect.BytesKind && fd.IsList():
			if write {
				r.Mutable(fd).List().Append(protoreflect.ValueOfBytes([]byte(*tag)))
			} else if l := r.Get(fd).List(); l.Len() > 0 {
				*tag = string(l.Get(0).Bytes())
			}
			return true
		case fd.Kind() == protoreflect.BytesKind:
			if write {
				r.Set(fd, protoreflect.ValueOfBytes([]byte(*tag)))
			} else {
				*tag = string(r.Get(fd).Bytes())
			}
			return true
		case fd.Kind() == protoreflect.MessageKind && !fd.IsList() && !fd.IsMap():
			var sub protoreflect.Message
			if write {
				sub = r.Mutable(fd).Message()
			} else {
				sub = r.Get(fd).Message()
			}
			if tagField(sub, tag, write) {
				return true
			}
		}
	}
	return false
}

func protoV2(m proto.Message) protoreflect.Message {
	return proto.MessageReflect(m)
}

func roundTag(wire []byte) string {
	var a any.Any
	if proto.Unmarshal(wire, &a) != nil {
		return "?"
	}
	var d ptypes.DynamicAny
	if ptypes.UnmarshalAny(&a, &d) != nil {
		return "?"
	}
	tag := "?"
	tagField(protoV2(d.Message), &tag, false)
	return tag
}

// fakeParty stands in for the local protocol instance of tss-lib: it records what reaches it
type fakeParty struct {
	btss.Party
	mid  string
	self *btss.PartyID
	rec  func(mid string, from *btss.PartyID, tag string, bc bool)
}

func (f *fakeParty) PartyID() *btss.PartyID { return f.self }
func (f *fakeParty) UpdateFromBytes(wire []byte, from *btss.PartyID, bc bool) (bool, *btss.Error) {
	tag := roundTag(wire)
	f.rec(f.mid, from, tag, bc)
	if strings.HasPrefix(tag, "bad") {
		return false, btss.NewError(fmt.Errorf("invalid share"), "verif", 1, f.self, from)
	}
	return true, nil
}
func (f *fakeParty) Start() *btss.Error          { return nil }
func (f *fakeParty) Running() bool               { return true }
func (f *fakeParty) WaitingFor() []*btss.PartyID { return nil }
func (f *fakeParty) String() string              { return "fake " + f.mid }
func (f *fakeParty) WrapError(err error, culprits ...*btss.PartyID) *btss.Error {
	return btss.NewError(err, "verif", 1, f.self, culprits...)
}

type entCfg struct {
	From  string `json:"from"`
	Rnd   string `json:"rnd"`
	Mid   string `json:"mid"`
	Bc    bool   `json:"bc"`
	Rt    string `json:"rt"`
	Bytes string `json:"bytes"`
	Val   string `json:"val"`
	V     string `json:"v"`
}

type sharesCfg struct {
	N      int      `json:"n"`
	Self   string   `json:"self"`
	Parts  []string `json:"parts"`
	Outs   []string `json:"outs"`
	Mids   []string `json:"mids"`
	Rounds []string `json:"rounds"`
	CT     map[string]struct {
		Kind string   `json:"kind"`
		Ents []entCfg `json:"ents"`
	} `json:"ct"`
}

type shareStep struct {
	T     string `json:"t"`
	Via   string `json:"via"`
	Owner string `json:"owner"`
	Rnd   string `json:"rnd"`
	Cid   string `json:"cid"`
	Uni   bool   `json:"uni"`
	Sig   string `json:"sig"`
	Hash  string `json:"hash"`
}

type shareNode struct {
	cfg      sharesCfg
	ids      map[string]*Ident
	partyIDs map[string]*btss.PartyID
	names    map[string]string // party id -> name
	peerName map[string]string
	tc       *common.TssCommon
	out      chan *messages.BroadcastMsgChan
	mu       sync.Mutex
	app      []interface{}
	msgID    string
	content  map[string][]byte
	byBytes  map[string]string
	byHash   map[string]string
	kg       bool
}

func newShareNode(cfg sharesCfg) *shareNode {
	n := &shareNode{cfg: cfg, ids: map[string]*Ident{}, partyIDs: map[string]*btss.PartyID{}, names: map[string]string{}, peerName: map[string]string{},
		msgID: "session-1", content: map[string][]byte{}, byBytes: map[string]string{}, byHash: map[string]string{}}
	ps, os := idents(cfg.N, len(cfg.Outs))
	var keys []string
	for _, p := range ps {
		n.ids[p.Name] = p
		n.peerName[p.Peer.String()] = p.Name
		keys = append(keys, p.Pub)
	}
	for _, p := range os {
		n.ids[p.Name] = p
		n.peerName[p.Peer.String()] = p.Name
	}
	self := n.ids[cfg.Self]
	parties, local, err := conversion.GetParties(keys, self.Pub)
	must(err)
	for _, p := range parties {
		pub, err := conversion.PartyIDtoPubKey(p)
		must(err)
		for _, id := range ps {
			if id.Pub == pub {
				n.partyIDs[id.Name] = p
				n.names[p.Id] = id.Name
			}
		}
	}
	n.kg = strings.HasPrefix(cfg.Rounds[0], "KG")
	n.out = make(chan *messages.BroadcastMsgChan, 4096)
	n.tc = common.NewTssCommon(self.Peer.String(), n.out, common.TssConfig{}, n.msgID, self.Priv, len(cfg.Mids))
	pm := new(sync.Map)
	for _, m := range cfg.Mids {
		pm.Store(m, &fakeParty{mid: m, self: local, rec: n.record})
	}
	idMap := conversion.SetupPartyIDMap(parties)
	must(conversion.SetupIDMaps(idMap, n.tc.PartyIDtoP2PID))
	must(conversion.SetupIDMaps(idMap, n.tc.GetBlameMgr().PartyIDtoP2PID))
	n.tc.SetPartyInfo(&common.PartyInfo{PartyMap: pm, PartyIDMap: idMap})
	n.tc.GetBlameMgr().SetPartyInfo(pm, idMap)
	n.tc.P2PPeersLock.Lock()
	n.tc.P2PPeers = conversion.GetPeersID(n.tc.PartyIDtoP2PID, n.tc.GetLocalPeerID())
	n.tc.P2PPeersLock.Unlock()
	for cid, c := range cfg.CT {
		n.content[cid] = n.build(cid, c.Kind, c.Ents)
		n.byBytes[string(n.content[cid])] = cid
		h, err := conversion.BytesToHashString(n.content[cid])
		must(err)
		n.byHash[h] = cid
	}
	return n
}

func (n *shareNode) record(mid string, from *btss.PartyID, tag string, bc bool) {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.app = append(n.app, []interface{}{n.names[from.Id], mid, strings.TrimPrefix(strings.TrimPrefix(tag, "bad:"), "ok:"), bc})
}

func (n *shareNode) build(cid, kind string, ents []entCfg) []byte {
	if kind != "list" {
		return []byte(kind + cid)
	}
	l := []common.BulkWireMsg{}
	for _, e := range ents {
		a, err := ptypes.MarshalAny(roundContent(e.Rnd, e.Val+":"+e.V))
		must(err)
		wire, err := proto.Marshal(a)
		must(err)
		if e.Bytes != "ok" {
			wire = []byte("garbage" + e.V)
		}
		r := &btss.MessageRouting{From: n.partyIDs[e.From], IsBroadcast: e.Bc}
		if !e.Bc {
			r.To = []*btss.PartyID{n.partyIDs[n.cfg.Self]}
		}
		switch e.Rt {
		case "nil":
			r = nil
		case "nofrom":
			r.From = nil
		}
		l = append(l, common.NewBulkWireMsg(wire, e.Mid, r))
	}
	buf, err := json.Marshal(l)
	must(err)
	return buf
}

func (n *shareNode) wire(s *shareStep) *messages.WireMessage {
	body := n.content[s.Cid]
	owner := n.partyIDs[s.Owner]
	if owner == nil { // an outsider claims to be a party
		owner = btss.NewPartyID("77", "", conversionKey(n.ids[s.Owner]))
	}
	sess := n.msgID
	signer := n.ids[s.Owner]
	switch {
	case s.Sig == "sess":
		sess = "session-2"
	case strings.HasPrefix(s.Sig, "by:"):
		signer = n.ids[s.Sig[3:]]
	}
	sig, err := signer.Priv.Sign(append(append([]byte{}, body...), []byte(sess)...))
	must(err)
	switch s.Sig {
	case "bad":
		sig[5] ^= 1
	case "none":
		sig = nil
	case "other": // a signature of the owner on something else
		sig, err = signer.Priv.Sign([]byte("something" + sess))
		must(err)
	}
	r := &btss.MessageRouting{From: owner, IsBroadcast: !s.Uni}
	if s.Uni {
		r.To = []*btss.PartyID{n.partyIDs[n.cfg.Self]}
	}
	return &messages.WireMessage{Routing: r, RoundInfo: s.Rnd, Message: body, Sig: sig}
}

func (n *shareNode) key(s *shareStep) string {
	return (&messages.WireMessage{Routing: &btss.MessageRouting{From: n.partyIDs[s.Owner]}, RoundInfo: s.Rnd}).GetCacheKey()
}

func (n *shareNode) hash(cid string) string {
	for h, c := range n.byHash {
		if c == cid {
			return h
		}
	}
	panic("HARNESS: no hash " + cid)
}

func (n *shareNode) msgTypes() (messages.THORChainTSSMessageType, messages.THORChainTSSMessageType) {
	if n.kg {
		return messages.TSSKeyGenMsg, messages.TSSKeyGenVerMsg
	}
	return messages.TSSKeySignMsg, messages.TSSKeySignVerMsg
}

func (n *shareNode) message(s *shareStep) *messages.WrappedMessage {
	share, ver := n.msgTypes()
	var v interface{}
	w := &messages.WrappedMessage{MsgID: n.msgID}
	switch s.T {
	case "share":
		w.MessageType, v = share, n.wire(s)
	case "ver":
		w.MessageType, v = ver, &messages.BroadcastConfirmMessage{P2PID: n.ids[n.cfg.Self].Peer.String(), Key: n.key(s), Hash: n.hash(s.Cid)}
	case "req":
		w.MessageType, v = messages.TSSControlMsg, &messages.TssControl{ReqHash: "whatever", ReqKey: n.key(s), RequestType: share}
	case "ans":
		w.MessageType, v = messages.TSSControlMsg, &messages.TssControl{ReqHash: n.hash(s.Hash), ReqKey: n.key(s), RequestType: share, Msg: n.wire(s)}
	case "done":
		w.MessageType, v = messages.TSSTaskDone, &messages.TssTaskNotifier{TaskDone: true}
	default:
		panic("HARNESS: step " + s.T)
	}
	buf, err := json.Marshal(v)
	must(err)
	w.Payload = buf
	return w
}

func (n *shareNode) peers(l []peer.ID) []string {
	var r []string
	for _, p := range l {
		name, ok := n.peerName[p.String()]
		if !ok {
			name = "?" + p.String()
		}
		if name != n.cfg.Self { // the transport does not send to the node itself
			r = append(r, name)
		}
	}
	sort.Strings(r)
	return r
}

func (n *shareNode) keyParts(k string) (string, string) {
	i := strings.Index(k, "-")
	if i < 0 {
		return "?", k
	}
	name, ok := n.names[k[:i]]
	if !ok {
		name = "?" + k[:i]
	}
	return name, k[i+1:]
}

func (n *shareNode) cid(h string) string {
	if c, ok := n.byHash[h]; ok {
		return c
	}
	return "?" + h
}

// what the node has sent since the last call
func (n *shareNode) sent() (vers, reqs, anss []interface{}, other int) {
	vers, reqs, anss = []interface{}{}, []interface{}{}, []interface{}{}
	share, ver := n.msgTypes()
	for {
		select {
		case m := <-n.out:
			w := m.WrappedMessage
			if w.MsgID != n.msgID {
				other++
				continue
			}
			to := n.peers(m.PeersID)
			switch w.MessageType {
			case ver:
				var b messages.BroadcastConfirmMessage
				must(json.Unmarshal(w.Payload, &b))
				o, r := n.keyParts(b.Key)
				if len(to) > 0 {
					vers = append(vers, []interface{}{o, r, n.cid(b.Hash), to})
				}
			case messages.TSSControlMsg:
				var c messages.TssControl
				must(json.Unmarshal(w.Payload, &c))
				o, r := n.keyParts(c.ReqKey)
				if c.Msg == nil {
					if len(to) > 0 {
						if c.RequestType != share {
							o = "wrong request type"
						}
						reqs = append(reqs, []interface{}{o, r, n.cid(c.ReqHash), to})
					}
				} else {
					x := n.byBytes[string(c.Msg.Message)]
					want, wr := "", ""
					if c.Msg.Routing != nil && c.Msg.Routing.From != nil {
						want, wr = n.names[c.Msg.Routing.From.Id], c.Msg.RoundInfo
					}
					if want != o || wr != r || !c.Msg.Routing.IsBroadcast || !n.sigOK(o, c.Msg.Message, c.Msg.Sig) {
						x = "altered " + x
					}
					for _, p := range to {
						anss = append(anss, []interface{}{p, o, r, x})
					}
				}
			default:
				other++
			}
		default:
			return
		}
	}
}

func (n *shareNode) sigOK(party string, body, sig []byte) bool {
	id, ok := n.ids[party]
	if !ok {
		return false
	}
	pk := secp256k1.PubKey(id.Priv.PubKey().Bytes())
	return pk.VerifySignature(append(append([]byte{}, body...), []byte(n.msgID)...), sig)
}

func (n *shareNode) blames() []interface{} {
	res := []interface{}{}
	seen := map[string]bool{}
	for _, b := range n.tc.GetBlameMgr().GetBlame().BlameNodes {
		name := "?" + b.Pubkey
		for _, id := range n.ids {
			if id.Pub == b.Pubkey {
				name = id.Name
			}
		}
		ev := ""
		if len(b.BlameData) > 0 || len(b.BlameSignature) > 0 {
			ev = n.byBytes[string(b.BlameData)]
			if ev == "" {
				ev = "?unknown data"
			}
			if !n.sigOK(name, b.BlameData, b.BlameSignature) {
				ev = "?not signed: " + ev
			}
		}
		if !seen[name+"|"+ev] {
			seen[name+"|"+ev] = true
			res = append(res, []interface{}{name, ev})
		}
	}
	return res
}

func runShares(sc *Script) []M {
	var cfg sharesCfg
	var steps []shareStep
	sc.cfg(&cfg)
	sc.steps(&steps)
	var raw []M
	sc.steps(&raw)
	n := newShareNode(cfg)
	fin := make(chan struct{})
	var wg sync.WaitGroup
	wg.Add(1)
	go n.tc.ProcessInboundMessages(fin, &wg)
	var tr []M
	for i := range steps {
		s := &steps[i]
		buf, err := json.Marshal(n.message(s))
		must(err)
		n.tc.TssMsg <- &p2p.Message{PeerID: n.ids[s.Via].Peer, Payload: buf}
		synctest.Wait()
		vers, reqs, anss, other := n.sent()
		n.mu.Lock()
		app := n.app
		n.app = nil
		n.mu.Unlock()
		if app == nil {
			app = []interface{}{}
		}
		closed := false
		select {
		case <-n.tc.GetTaskDone():
			closed = true
		default:
		}
		tr = append(tr, M{"i": raw[i], "o": M{"app": app, "vers": vers, "reqs": reqs, "anss": anss, "other": other,
			"bl": n.blames(), "closed": closed, "dead": false}})
	}
	close(fin)
	wg.Wait()
	return tr
}

package drv

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	bkeygen "github.com/binance-chain/tss-lib/ecdsa/keygen"
	"github.com/btcsuite/btcd/btcec"
	coskey "github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/bech32"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/protocol"
	"github.com/libp2p/go-libp2p-peerstore/addr"
	"github.com/prometheus/client_golang/prometheus"
	tcrypto "github.com/tendermint/tendermint/crypto"
	"github.com/tendermint/tendermint/crypto/secp256k1"
	"golang.org/x/crypto/ripemd160"
	"google.golang.org/protobuf/proto"

	"gitlab.com/thorchain/tss/go-tss/blame"
	"gitlab.com/thorchain/tss/go-tss/common"
	"gitlab.com/thorchain/tss/go-tss/conversion"
	"gitlab.com/thorchain/tss/go-tss/keygen"
	"gitlab.com/thorchain/tss/go-tss/keysign"
	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/monitor"
	"gitlab.com/thorchain/tss/go-tss/p2p"
	"gitlab.com/thorchain/tss/go-tss/storage"
	tssp "gitlab.com/thorchain/tss/go-tss/tss"

	"verif/harness/netsim"
)

func init() { modules["sess"] = runSess }

// Whole nodes (tss.TssServer) with real keys and the real tss-lib on an in-memory network in virtual time.

var protoTSS = p2p.TSSProtocolID

const protoNote = protocol.ID("/p2p/signatureNotifier")

var fixtureKeys = []string{
	"ZThiMDAxOTk2MDc4ODk3YWE0YThlMjdkMWY0NjA1MTAwZDgyNDkyYzdhNmMwZWQ3MDBhMWIyMjNmNGMzYjVhYg==",
	"ZTc2ZjI5OTIwOGVlMDk2N2M3Yzc1MjYyODQ0OGUyMjE3NGJiOGRmNGQyZmVmODg0NzQwNmUzYTk1YmQyODlmNA==",
	"MjQ1MDc2MmM4MjU5YjRhZjhhNmFjMmI0ZDBkNzBkOGE1ZTBmNDQ5NGI4NzM4OTYyM2E3MmI0OWMzNmE1ODZhNw==",
	"YmNiMzA2ODU1NWNjMzk3NDE1OWMwMTM3MDU0NTNjN2YwMzYzZmVhZDE5NmU3NzRhOTMwOWIxN2QyZTQ0MzdkNg==",
}

type sessCfg struct {
	N     int    `json:"n"` // nodes a0..; the first four are those of the fixture key
	Seed  int64  `json:"seed"`
	PT    int    `json:"pt"` // ms
	GT    int    `json:"gt"`
	ST    int    `json:"st"`
	Delay int    `json:"delay"` // longest latency, ms
	Pool  string `json:"pool"`  // "fix": the fixture key; "": none; "fake:N": a key of the first N nodes that cannot sign
	Files bool   `json:"files"` // keep the keys in files
}

type sessStep struct {
	Op      string   `json:"op"`
	N       string   `json:"n"`
	C       string   `json:"c"` // name of the session
	Msgs    []string `json:"msgs"`
	Keys    []string `json:"keys"`
	Pool    string   `json:"pool"`
	Ver     string   `json:"ver"`
	Height  int64    `json:"height"`
	D       int      `json:"d"` // ms before
	Kind    string   `json:"kind"`
	Round   string   `json:"round"`
	Keep    []string `json:"keep"`
	To      string   `json:"to"`
	From    string   `json:"from"`
	Deaf    bool     `json:"deaf"`
	Text    string   `json:"text"`
	Dur     int      `json:"dur"`
	SigOf   string   `json:"sigof"`
	Corrupt string   `json:"corrupt"`
}

type memState struct {
	mu   sync.Mutex
	m    map[string][]byte
	fail bool
}

func (s *memState) SaveLocalState(st storage.KeygenLocalState) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.fail {
		return fmt.Errorf("disk full")
	}
	b, err := json.Marshal(st)
	if err != nil {
		return err
	}
	s.m[st.PubKey] = b
	return nil
}

func (s *memState) GetLocalState(k string) (storage.KeygenLocalState, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	var st storage.KeygenLocalState
	b, ok := s.m[k]
	if !ok {
		return st, fmt.Errorf("no such key")
	}
	return st, json.Unmarshal(b, &st)
}
func (s *memState) SaveAddressBook(map[peer.ID]addr.AddrList) error { return nil }
func (s *memState) RetrieveP2PAddresses() (addr.AddrList, error)    { return nil, fmt.Errorf("none") }

type sessNode struct {
	name string
	pub  string
	id   peer.ID
	priv secp256k1.PrivKey
	srv  *tssp.TssServer
	st   storage.LocalStateManager
	reg  *prometheus.Registry
	dir  string
	pre  *bkeygen.LocalPreParams
	host *netsim.Host
}

type sessFault struct {
	sessStep
	on    bool
	round int
}

type handled struct {
	n    *sessNode
	from string
	sid  string
	done bool
	t0   time.Time
}

type sessRun struct {
	cfg    sessCfg
	net    *netsim.Net
	mu     sync.Mutex
	tr     []M
	t0     time.Time
	nodes  map[string]*sessNode
	byID   map[peer.ID]*sessNode
	byPub  map[string]string
	order  []*sessNode
	sids   map[string]string // session identifiers -> s1..
	rawSid map[string]string
	seen   map[string]bool
	faults []*sessFault
	pend   int
	calls  int
	rng    *rand.Rand
	pools  map[string]string // name -> pool key
	poolN  map[string]string
	sigs   map[string]int
	sessOf map[string]string // session name -> sid (by the first message of a node that runs a call of it)
	active map[string][]string
	strm   map[*netsim.Stream]string
	strmT  map[*netsim.Stream]time.Time
	subj   map[*netsim.Stream]*netsim.Stream
	last   map[string]*messages.KeysignSignature
	ended  map[string]bool
	blocks []*handled
}

func (r *sessRun) now() int { return int(time.Since(r.t0) / time.Millisecond) }
func (r *sessRun) rec(m M)  { m["t"] = r.now(); r.tr = append(r.tr, m) }
func (r *sessRun) once(k string, m M) {
	if !r.seen[k] {
		r.seen[k] = true
		r.rec(m)
	}
}

func (r *sessRun) sid(raw string) string {
	if s, ok := r.sids[raw]; ok {
		return s
	}
	s := "s" + strconv.Itoa(len(r.sids)+1)
	r.sids[raw] = s
	r.rawSid[s] = raw
	return s
}

var roundOrder = map[string]int{
	messages.KEYGEN1: 1, messages.KEYGEN2aUnicast: 2, messages.KEYGEN2b: 3, messages.KEYGEN3: 4,
	messages.KEYSIGN1aUnicast: 1, messages.KEYSIGN1b: 2, messages.KEYSIGN2Unicast: 3, messages.KEYSIGN3: 4, messages.KEYSIGN4: 5, messages.KEYSIGN5: 6, messages.KEYSIGN6: 7, messages.KEYSIGN7: 8,
}

// what a frame says: kind, session, detail
type frameInfo struct {
	kind  string // join, answer, share, ver, ctl, done, note, ?
	raw   string
	round string
	from  string
	bcast bool
	owner string
	ok    bool
	typ   string
	list  []string
	note  *messages.KeysignSignature
}

func (r *sessRun) parse(p protocol.ID, b []byte) frameInfo {
	fi := frameInfo{kind: "?"}
	switch p {
	case protoFlat:
		var m messages.JoinPartyRequest
		if proto.Unmarshal(b, &m) == nil {
			fi.kind, fi.raw = "join", m.ID
		}
	case protoLeader:
		var m messages.JoinPartyLeaderComm
		if proto.Unmarshal(b, &m) == nil {
			fi.kind, fi.raw = "join", m.ID
			if m.MsgType == "response" {
				fi.kind, fi.typ = "answer", m.Type.String()
				for _, x := range m.PeerIDs {
					id, err := peer.Decode(x)
					n := r.byID[id]
					if err != nil || n == nil {
						fi.list = append(fi.list, "?"+x)
					} else {
						fi.list = append(fi.list, n.name)
					}
				}
				sort.Strings(fi.list)
			}
		}
	case protoNote:
		var m messages.KeysignSignature
		if proto.Unmarshal(b, &m) == nil {
			fi.kind, fi.raw, fi.ok = "note", m.ID, m.KeysignStatus == messages.KeysignSignature_Success
			fi.note = &m
		}
	case protoTSS:
		var w messages.WrappedMessage
		if json.Unmarshal(b, &w) == nil {
			fi.raw = w.MsgID
			switch w.MessageType {
			case messages.TSSKeyGenMsg, messages.TSSKeySignMsg:
				fi.kind = "share"
				var m messages.WireMessage
				if json.Unmarshal(w.Payload, &m) == nil {
					fi.round = m.RoundInfo
					if m.Routing != nil {
						fi.bcast = m.Routing.IsBroadcast
					}
				}
			case messages.TSSKeyGenVerMsg, messages.TSSKeySignVerMsg:
				fi.kind = "ver"
			case messages.TSSControlMsg:
				fi.kind = "ctl"
			case messages.TSSTaskDone:
				fi.kind = "done"
			}
		}
	}
	return fi
}

// whether a frame gets lost. Faults of a session only apply to it.
func (r *sessRun) lost(f, t string, fi frameInfo) bool {
	sid := ""
	if fi.raw != "" {
		sid = r.sid(fi.raw)
	}
	cut := false
	for _, x := range r.faults {
		if x.C != "" && r.sessOf[x.C] != sid {
			continue
		}
		switch x.Kind {
		case "silent": // n delivers nothing from that round on; the share of that round still gets to those in keep
			if f == x.N && fi.kind == "share" && roundOrder[fi.round] >= x.round {
				if !x.on {
					x.on = true
					r.rec(M{"e": "silent", "n": x.N, "c": x.C, "x": sid, "round": fi.round, "keep": x.Keep})
				}
				kept := false
				for _, k := range x.Keep {
					kept = kept || (k == t && roundOrder[fi.round] == x.round)
				}
				if !kept {
					cut = true
				}
			} else if x.on && (f == x.N || (x.Deaf && t == x.N)) {
				cut = true
			}
		case "lose": // messages of a kind from n to t get lost
			if (x.From == "" || f == x.From) && (x.To == "" || t == x.To) && strings.Contains(x.Text, fi.kind) && (x.Round == "" || x.Round == fi.round) {
				cut = true
			}
		}
	}
	return cut
}

func (r *sessRun) policy(from, to peer.ID, p protocol.ID) netsim.Verdict {
	a, b := r.byID[from], r.byID[to]
	if a == nil || b == nil {
		return netsim.Verdict{Fail: true}
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, x := range r.faults {
		if x.Kind == "gone" && (x.N == a.name || x.N == b.name) {
			return netsim.Verdict{Fail: true}
		}
	}
	d := time.Duration(500+r.rng.Intn(r.cfg.Delay*1000+1)) * time.Microsecond
	return netsim.Verdict{Gate: func(s *netsim.Stream, deliver func()) {
		go func() {
			time.Sleep(d)
			buf := s.Peek()
			r.arrive(a, b, p, s, buf, deliver)
		}()
	}}
}

func (r *sessRun) arrive(a, b *sessNode, p protocol.ID, s *netsim.Stream, buf []byte, deliver func()) {
	r.mu.Lock()
	if len(buf) < 4 {
		r.mu.Unlock()
		deliver()
		return
	}
	fi := r.parse(p, buf[4:])
	if r.lost(a.name, b.name, fi) {
		r.mu.Unlock()
		return
	}
	h := &handled{n: b, from: a.name, t0: time.Now()}
	if fi.raw != "" {
		x := r.sid(fi.raw)
		h.sid = x
		r.strm[s], r.strmT[s] = x, time.Now()
		switch fi.kind {
		case "done":
			r.rec(M{"e": "done", "n": b.name, "from": a.name, "x": x})
		case "answer":
			r.once("ans"+b.name+x+strconv.Itoa(r.calls), M{"e": "ans", "n": b.name, "x": x, "from": a.name})
		case "note":
			r.once(fmt.Sprint("gotnote", b.name, x, fi.ok, r.calls), M{"e": "got", "n": b.name, "x": x, "ok": fi.ok, "from": a.name})
		}
	}
	r.blocks = append(r.blocks, h)
	r.mu.Unlock()
	deliver()
	r.mu.Lock()
	h.done = true
	r.mu.Unlock()
}

func (r *sessRun) onFrame(from, to peer.ID, p protocol.ID, data []byte) {
	a, b := r.byID[from], r.byID[to]
	if a == nil || b == nil {
		return
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	fi := r.parse(p, data)
	if fi.raw == "" {
		r.once("odd"+a.name+string(p), M{"e": "odd", "n": a.name, "p": string(p)})
		return
	}
	x := r.sid(fi.raw)
	// which call this belongs to
	for _, c := range r.active[a.name] {
		if r.sessOf[c] == "" && !r.taken(x) {
			r.sessOf[c] = x
			break
		}
	}
	k := fi.kind
	switch k {
	case "answer":
		r.once(fmt.Sprint("party", a.name, x, fi.list, fi.typ, r.calls), M{"e": "party", "n": a.name, "x": x, "list": fi.list, "ok": fi.typ == "Success"})
		return
	case "join":
		k = "flat"
		if p == protoLeader {
			k = "led"
		}
	case "note":
		if fi.ok {
			r.last[x] = fi.note
		}
		k = "note"
	case "share", "ver", "ctl", "done":
		k = "tss"
	}
	r.once("net"+a.name+k+x+strconv.Itoa(r.calls), M{"e": "net", "n": a.name, "k": k, "x": x})
}

func (r *sessRun) taken(x string) bool {
	for _, y := range r.sessOf {
		if x == y {
			return true
		}
	}
	return false
}

func (r *sessRun) name(pub string) string {
	if n, ok := r.byPub[pub]; ok {
		return n
	}
	return "?" + pub
}

// canon is a message as the bytes that are to be signed, in the usual encoding
func canon(m string) string {
	b, err := base64.StdEncoding.DecodeString(m)
	if err != nil {
		return "!" + m
	}
	return base64.StdEncoding.EncodeToString(b)
}

// an own notion of a valid signature: R, S and the recovery id belong to the message and the pool key, and s is in the lower half
func sigOK(pool string, msg string, sg keysign.Signature) bool {
	m, e0 := base64.StdEncoding.DecodeString(msg)
	rb, e1 := base64.StdEncoding.DecodeString(sg.R)
	sb, e2 := base64.StdEncoding.DecodeString(sg.S)
	id, e3 := base64.StdEncoding.DecodeString(sg.RecoveryID)
	if e0 != nil || e1 != nil || e2 != nil || e3 != nil || len(id) != 1 {
		return false
	}
	pk, err := sdk.GetPubKeyFromBech32(sdk.Bech32PubKeyTypeAccPub, pool)
	if err != nil {
		return false
	}
	key, err := btcec.ParsePubKey(pk.Bytes()[len(pk.Bytes())-33:], btcec.S256())
	if err != nil {
		return false
	}
	R, S := new(big.Int).SetBytes(rb), new(big.Int).SetBytes(sb)
	if !ecdsa.Verify(key.ToECDSA(), m, R, S) {
		return false
	}
	if new(big.Int).Lsh(S, 1).Cmp(btcec.S256().N) > 0 || len(rb) > 32 || len(sb) > 32 {
		return false
	}
	if id[0] > 3 {
		return false
	}
	c := make([]byte, 65)
	c[0] = 27 + id[0]
	R.FillBytes(c[1:33])
	S.FillBytes(c[33:])
	got, _, err := btcec.RecoverCompact(btcec.S256(), c, m)
	return err == nil && got.IsEqual(key)
}

func statusName(s common.Status) string {
	switch s {
	case common.Success:
		return "ok"
	case common.Fail:
		return "fail"
	}
	return "na"
}

func (r *sessRun) blameOf(b blame.Blame) M {
	l := []string{}
	for _, x := range b.BlameNodes {
		l = append(l, r.name(x.Pubkey))
	}
	sort.Strings(l)
	return M{"why": b.FailReason, "l": l, "uni": b.IsUnicast}
}

func (r *sessRun) poolName(key string) string {
	if key == "" {
		return ""
	}
	if n, ok := r.poolN[key]; ok {
		return n
	}
	n := "k" + strconv.Itoa(len(r.poolN)+1)
	r.poolN[key] = n
	r.pools[n] = key
	return n
}

// counters gathers the exported counters of a node
func (r *sessRun) counters(n *sessNode) M {
	out := M{"gok": 0, "gfail": 0, "sok": 0, "sfail": 0, "jgok": 0, "jgfail": 0, "jsok": 0, "jsfail": 0}
	mf, err := n.reg.Gather()
	must(err)
	for _, f := range mf {
		for _, m := range f.GetMetric() {
			if m.GetCounter() == nil {
				continue
			}
			v := int(m.GetCounter().GetValue())
			lab := map[string]string{}
			for _, l := range m.GetLabel() {
				lab[l.GetName()] = l.GetValue()
			}
			switch {
			case strings.HasSuffix(f.GetName(), "_keygen"):
				out[map[string]string{"success": "gok", "failure": "gfail"}[lab["status"]]] = v
			case strings.HasSuffix(f.GetName(), "_keysign"):
				out[map[string]string{"success": "sok", "failure": "sfail"}[lab["status"]]] = v
			case strings.HasSuffix(f.GetName(), "_join_party"):
				out["j"+map[string]string{"keygen": "g", "keysign": "s"}[lab["type"]]+map[string]string{"success": "ok", "failure": "fail"}[lab["result"]]] = v
			}
		}
	}
	return out
}

// usable tells what is stored for a pool key on a node: the participants, whose share it is, and whether the share belongs to the key
func (r *sessRun) stored(n *sessNode, pool string) M {
	st, err := n.st.GetLocalState(pool)
	if err != nil {
		return M{"there": false}
	}
	parts := []string{}
	for _, k := range st.ParticipantKeys {
		parts = append(parts, r.name(k))
	}
	sort.Strings(parts)
	good := st.PubKey == pool && st.LocalData.Xi != nil && st.LocalData.ECDSAPub != nil
	if good {
		// its public share, interpolated with those of the others, is the pool key: checked for the own share here
		x, y := btcec.S256().ScalarBaseMult(st.LocalData.Xi.Bytes())
		hit := false
		for k, id := range st.LocalData.Ks {
			if id.Cmp(st.LocalData.ShareID) == 0 {
				hit = st.LocalData.BigXj[k].X().Cmp(x) == 0 && st.LocalData.BigXj[k].Y().Cmp(y) == 0
			}
		}
		// the secret shares only have one polynomial: recombining is done by the "gather" step
		pk, err := sdk.GetPubKeyFromBech32(sdk.Bech32PubKeyTypeAccPub, pool)
		if err != nil {
			return M{"there": false}
		}
		ec := btcec.PublicKey{Curve: btcec.S256(), X: st.LocalData.ECDSAPub.X(), Y: st.LocalData.ECDSAPub.Y()}
		good = hit && bytes.Equal(ec.SerializeCompressed(), pk.Bytes()[len(pk.Bytes())-33:])
	}
	return M{"there": true, "me": r.name(st.LocalPartyKey), "parts": parts, "good": good}
}

func (r *sessRun) spelled(keys []string) []string {
	var l []string
	for _, k := range keys {
		if n, ok := r.nodes[k]; ok {
			l = append(l, n.pub)
		} else {
			l = append(l, k)
		}
	}
	return l
}

func (r *sessRun) call(s *sessStep) {
	n := r.nodes[s.N]
	r.mu.Lock()
	r.calls++
	r.pend++
	id := r.calls
	keys := append([]string{}, s.Keys...)
	r.rng.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
	msgs := append([]string{}, s.Msgs...)
	r.rng.Shuffle(len(msgs), func(i, j int) { msgs[i], msgs[j] = msgs[j], msgs[i] })
	cm := []string{}
	for _, m := range msgs {
		cm = append(cm, canon(m))
	}
	sort.Strings(cm)
	sk := append([]string{}, s.Keys...)
	sort.Strings(sk)
	pool := s.Pool
	if p, ok := r.pools[s.Pool]; ok {
		pool = p
	}
	r.active[s.N] = append(r.active[s.N], s.C)
	r.rec(M{"e": "call", "id": id, "n": s.N, "c": s.C, "k": s.Op, "msgs": cm, "keys": sk, "pool": s.Pool, "ver": s.Ver, "hgt": int(s.Height)})
	r.mu.Unlock()
	go func() {
		m := M{"e": "ret", "id": id, "n": s.N, "c": s.C, "k": s.Op, "sigs": []M{}, "pub": "", "addr": true, "err": false, "keep": M{"there": false}}
		if s.Op == "sign" {
			resp, err := n.srv.KeySign(keysign.Request{PoolPubKey: pool, Messages: msgs, SignerPubKeys: r.spelled(keys), BlockHeight: s.Height, Version: s.Ver})
			m["err"] = err != nil
			m["st"] = statusName(resp.Status)
			r.mu.Lock()
			l := []M{}
			for _, sg := range resp.Signatures {
				k := sg.R + "|" + sg.S + "|" + sg.RecoveryID
				if r.sigs[k] == 0 {
					r.sigs[k] = len(r.sigs) + 1
				}
				l = append(l, M{"m": canon(sg.Msg), "ok": sigOK(pool, sg.Msg, sg), "id": r.sigs[k]})
			}
			m["sigs"] = l
			m["blame"] = r.blameOf(resp.Blame)
			r.mu.Unlock()
		} else {
			resp, err := n.srv.Keygen(keygen.Request{Keys: r.spelled(keys), BlockHeight: s.Height, Version: s.Ver})
			m["err"] = err != nil
			m["st"] = statusName(resp.Status)
			r.mu.Lock()
			m["pub"] = r.poolName(resp.PubKey)
			if resp.PubKey != "" {
				m["addr"] = sameAddr(resp.PubKey, resp.PoolAddress)
				m["keep"] = r.stored(n, resp.PubKey)
			} else {
				m["addr"] = resp.PoolAddress == ""
			}
			m["blame"] = r.blameOf(resp.Blame)
			r.mu.Unlock()
		}
		r.mu.Lock()
		defer r.mu.Unlock()
		r.pend--
		sid := r.sessOf[s.C]
		m["x"] = sid
		// the streams of the session that the node had taken up a while ago and still holds
		left := 0
		for st, x := range r.strm {
			if x == sid && sid != "" && st.Local == n.id && !st.WasReset() && time.Since(r.strmT[st]) > 11*time.Second {
				left++
			}
		}
		m["left"] = left
		act := r.active[s.N]
		for k, c := range act {
			if c == s.C {
				r.active[s.N] = append(append([]string{}, act[:k]...), act[k+1:]...)
				break
			}
		}
		r.rec(m)
	}()
}

// sameAddr tells whether an address (of whatever chain) is that of the public key
func sameAddr(pub, addr string) bool {
	pk, err := sdk.GetPubKeyFromBech32(sdk.Bech32PubKeyTypeAccPub, pub)
	if err != nil {
		return false
	}
	_, b, err := bech32.DecodeAndConvert(addr)
	if err != nil {
		return false
	}
	raw := pk.Bytes()[len(pk.Bytes())-33:]
	h := sha256.Sum256(raw)
	rp := ripemd160.New()
	rp.Write(h[:])
	return bytes.Equal(b, rp.Sum(nil))
}

func (r *sessRun) pending() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.pend
}

var preCache []*bkeygen.LocalPreParams
var fixCache [][]byte

func preParams() []*bkeygen.LocalPreParams {
	if preCache == nil {
		buf, err := os.ReadFile(filepath.Join(repoDir(), "test_data/preParam_test.data"))
		must(err)
		for _, l := range strings.Split(strings.TrimSpace(string(buf)), "\n") {
			var p bkeygen.LocalPreParams
			v, err := hex.DecodeString(strings.TrimSpace(l))
			must(err)
			must(json.Unmarshal(v, &p))
			preCache = append(preCache, &p)
		}
		for k := 0; k < 4; k++ {
			b, err := os.ReadFile(filepath.Join(repoDir(), fmt.Sprintf("test_data/keysign_data/%d.json", k)))
			must(err)
			fixCache = append(fixCache, b)
		}
	}
	return preCache
}

func (r *sessRun) addNode(k int, conf common.TssConfig) {
	var priv tcrypto.PrivKey
	var err error
	if k < 4 {
		priv, err = conversion.GetPriKey(fixtureKeys[k])
		must(err)
	} else {
		priv = newIdent(fmt.Sprintf("sess%d", k)).Priv
	}
	pk := coskey.PubKey{Key: priv.PubKey().Bytes()[:]}
	if len(pk.Key) != 33 {
		pk.Key = pk.Key[len(pk.Key)-33:]
	}
	pub, err := sdk.Bech32ifyPubKey(sdk.Bech32PubKeyTypeAccPub, &pk)
	must(err)
	id, err := conversion.GetPeerIDFromPubKey(pub)
	must(err)
	n := &sessNode{name: fmt.Sprintf("a%d", k), pub: pub, id: id, reg: prometheus.NewRegistry()}
	if r.cfg.Files {
		n.dir, err = os.MkdirTemp(os.Getenv("DRV_WORK"), "sess")
		must(err)
		n.st, err = storage.NewFileStateMgr(n.dir)
		must(err)
	} else {
		n.st = &memState{m: map[string][]byte{}}
	}
	n.host = r.net.Host(id)
	n.pre = preParams()[k%len(preCache)]
	prometheus.DefaultRegisterer = n.reg
	mt := monitor.NewMetric()
	mt.Enable()
	n.srv, err = tssp.NewTssForHost(n.host, priv, conf, n.pre, n.st, mt)
	must(err)
	r.nodes[n.name], r.byID[id], r.byPub[pub] = n, n, n.name
	r.order = append(r.order, n)
}

func runSess(sc *Script) []M {
	r := &sessRun{net: netsim.New(), t0: time.Now(), nodes: map[string]*sessNode{}, byID: map[peer.ID]*sessNode{}, byPub: map[string]string{},
		sids: map[string]string{}, rawSid: map[string]string{}, seen: map[string]bool{}, pools: map[string]string{}, poolN: map[string]string{}, sigs: map[string]int{},
		sessOf: map[string]string{}, active: map[string][]string{}, strm: map[*netsim.Stream]string{}, strmT: map[*netsim.Stream]time.Time{},
		last: map[string]*messages.KeysignSignature{}, ended: map[string]bool{}}
	var steps []sessStep
	sc.cfg(&r.cfg)
	sc.steps(&steps)
	r.rng = rand.New(rand.NewSource(r.cfg.Seed + 31))
	if r.cfg.Delay == 0 {
		r.cfg.Delay = 20
	}
	conf := common.TssConfig{PartyTimeout: time.Duration(r.cfg.PT) * time.Millisecond, KeyGenTimeout: time.Duration(r.cfg.GT) * time.Millisecond,
		KeySignTimeout: time.Duration(r.cfg.ST) * time.Millisecond}
	preParams()
	for k := 0; k < r.cfg.N; k++ {
		r.addNode(k, conf)
	}
	switch {
	case r.cfg.Pool == "fix":
		for k := 0; k < 4 && k < r.cfg.N; k++ {
			var st storage.KeygenLocalState
			must(json.Unmarshal(fixCache[k], &st))
			must(r.order[k].st.SaveLocalState(st))
			r.pools["fix"], r.poolN[st.PubKey] = st.PubKey, "fix"
		}
	case strings.HasPrefix(r.cfg.Pool, "fake:"):
		m, err := strconv.Atoi(r.cfg.Pool[5:])
		must(err)
		var st storage.KeygenLocalState
		must(json.Unmarshal(fixCache[0], &st))
		st.ParticipantKeys = nil
		for k := 0; k < m; k++ {
			st.ParticipantKeys = append(st.ParticipantKeys, r.order[k].pub)
		}
		for k := 0; k < r.cfg.N; k++ {
			st.LocalPartyKey = r.order[k].pub
			must(r.order[k].st.SaveLocalState(st))
		}
		r.pools["fix"], r.poolN[st.PubKey] = st.PubKey, "fix"
	}
	r.net.Policy = r.policy
	r.net.ResetLag = time.Duration(r.cfg.Delay+5) * time.Millisecond
	r.net.OnFrame = r.onFrame
	for i := range steps {
		s := &steps[i]
		if s.D > 0 {
			time.Sleep(time.Duration(s.D)*time.Millisecond + 137*time.Microsecond)
			synctest.Wait()
		}
		switch s.Op {
		case "sign", "gen":
			r.call(s)
		case "fault":
			f := &sessFault{sessStep: *s, round: roundOrder[s.Round]}
			r.mu.Lock()
			r.faults = append(r.faults, f)
			r.rec(M{"e": "fault", "kind": s.Kind, "n": s.N, "c": s.C})
			r.mu.Unlock()
		case "heal":
			r.mu.Lock()
			r.faults = nil
			r.rec(M{"e": "heal"})
			r.mu.Unlock()
		case "settle":
			for k := 0; k < 4000 && r.pending() > 0; k++ {
				time.Sleep(100 * time.Millisecond)
				synctest.Wait()
			}
			r.mu.Lock()
			if r.pend > 0 {
				r.rec(M{"e": "hang"})
				r.mu.Unlock()
				return r.finish()
			}
			r.mu.Unlock()
			time.Sleep(30 * time.Second)
			synctest.Wait()
			r.mu.Lock()
			for _, n := range r.order {
				m := r.counters(n)
				m["e"], m["n"] = "count", n.name
				r.rec(m)
			}
			r.rec(M{"e": "settled"})
			r.mu.Unlock()
		case "probe":
			r.probe(s)
		case "gather":
			r.gather(s)
		case "adv":
		default:
			panic("HARNESS: step " + s.Op)
		}
		synctest.Wait()
	}
	return r.finish()
}

func (r *sessRun) finish() []M {
	for _, n := range r.order {
		n.srv.Stop()
		if n.dir != "" {
			os.RemoveAll(n.dir)
		}
	}
	time.Sleep(40 * time.Second)
	synctest.Wait()
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.tr
}

// probe sends messages of an ended session to a node: nothing may take them, and nothing may wait for somebody to take them
func (r *sessRun) probe(s *sessStep) {
	n, from := r.nodes[s.N], r.nodes[s.From]
	x := r.sessOf[s.C]
	if x == "" {
		return
	}
	raw := r.rawSid[x]
	f := n.host.Handler(protoTSS)
	var mu sync.Mutex
	open := 0
	for k := 0; k < 12; k++ {
		for _, ty := range []messages.THORChainTSSMessageType{messages.TSSKeyGenMsg, messages.TSSKeySignMsg, messages.TSSKeyGenVerMsg, messages.TSSKeySignVerMsg, messages.TSSControlMsg, messages.TSSTaskDone} {
			buf, err := json.Marshal(messages.WrappedMessage{MessageType: ty, MsgID: raw, Payload: []byte("{}")})
			must(err)
			a, b := r.net.Pair(from.id, n.id, protoTSS, 0)
			a.Quiet = true
			_, err = a.Write(frame(buf))
			must(err)
			mu.Lock()
			open++
			mu.Unlock()
			go func() {
				f(b)
				mu.Lock()
				open--
				mu.Unlock()
			}()
		}
	}
	time.Sleep(5 * time.Second)
	synctest.Wait()
	mu.Lock()
	defer mu.Unlock()
	r.mu.Lock()
	defer r.mu.Unlock()
	r.rec(M{"e": "probe", "n": s.N, "c": s.C, "open": open > 0})
}

// gather recombines the shares that the listed nodes have stored for a pool key
func (r *sessRun) gather(s *sessStep) {
	r.mu.Lock()
	defer r.mu.Unlock()
	pool, ok := r.pools[s.Pool]
	if !ok {
		return
	}
	N := btcec.S256().N
	var ids, xs []*big.Int
	fine := true
	for _, k := range s.Keys {
		st, err := r.nodes[k].st.GetLocalState(pool)
		if err != nil || st.LocalData.Xi == nil {
			fine = false
			break
		}
		ids, xs = append(ids, st.LocalData.ShareID), append(xs, st.LocalData.Xi)
	}
	if fine {
		sum := new(big.Int)
		for i := range ids {
			num, den := big.NewInt(1), big.NewInt(1)
			for j := range ids {
				if i != j {
					num.Mod(num.Mul(num, ids[j]), N)
					den.Mod(den.Mul(den, new(big.Int).Sub(ids[j], ids[i])), N)
				}
			}
			inv := new(big.Int).ModInverse(den, N)
			if inv == nil {
				fine = false
				break
			}
			sum.Add(sum, new(big.Int).Mod(new(big.Int).Mul(xs[i], new(big.Int).Mul(num, inv)), N))
		}
		sum.Mod(sum, N)
		x, y := btcec.S256().ScalarBaseMult(sum.Bytes())
		pk, err := sdk.GetPubKeyFromBech32(sdk.Bech32PubKeyTypeAccPub, pool)
		must(err)
		ec := btcec.PublicKey{Curve: btcec.S256(), X: x, Y: y}
		fine = fine && reflect.DeepEqual(ec.SerializeCompressed(), pk.Bytes()[len(pk.Bytes())-33:])
	}
	r.rec(M{"e": "gather", "pool": s.Pool, "keys": s.Keys, "ok": fine})
}

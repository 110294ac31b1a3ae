package drv

import (
	"errors"
	"fmt"
	"math/big"
	"sort"
	"sync"
	"testing/synctest"
	"time"

	tcommon "github.com/binance-chain/tss-lib/common"
	"github.com/btcsuite/btcd/btcec"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/protocol"
	"google.golang.org/protobuf/proto"

	"gitlab.com/thorchain/tss/go-tss/common"
	"gitlab.com/thorchain/tss/go-tss/keysign"
	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/p2p"

	"verif/harness/netsim"
)

func init() { modules["notify"] = runNotify }

const protoNotify = protocol.ID("/p2p/signatureNotifier")

type sigEntry struct {
	M    string `json:"m"`
	Key  string `json:"key"`
	Kind string `json:"kind"`
	How  string `json:"how"`
}

type notifyStep struct {
	Op     string       `json:"op"`
	W      string       `json:"w"`
	Sess   string       `json:"sess"`
	Msgs   []string     `json:"msgs"`
	Key    string       `json:"key"`
	T      int          `json:"t"` // ms
	D      int          `json:"d"`
	ID     string       `json:"id"`
	Status string       `json:"status"`
	Whole  bool         `json:"whole"`
	How    string       `json:"how"`
	Set    []sigEntry   `json:"set"`
	Via    string       `json:"via"` // raw, or node: sent by another node's notifier
	L      []notifyStep `json:"l"`
}

func (s *notifyStep) rec() M {
	switch s.Op {
	case "wait":
		return M{"op": s.Op, "w": s.W, "sess": s.Sess, "msgs": append([]string{}, s.Msgs...), "key": s.Key, "t": s.T}
	case "notice":
		l := []M{}
		for _, e := range s.Set {
			l = append(l, M{"m": e.M, "key": e.Key, "kind": e.Kind})
		}
		return M{"op": s.Op, "sess": s.Sess, "id": s.ID, "status": s.Status, "whole": s.Whole, "set": l}
	case "local":
		return M{"op": s.Op, "w": s.W}
	case "adv":
		return M{"op": s.Op, "d": s.D}
	}
	l := []M{}
	for k := range s.L {
		l = append(l, s.L[k].rec())
	}
	return M{"op": "par", "l": l}
}

// the bytes of a message: "h0", "h1" are 32 byte hashes, "s.." short, "l.." long ones
func msgBytes(name string) []byte {
	n := 32
	switch name[0] {
	case 's':
		n = 1 + len(name)
	case 'l':
		n = 32 + 7*len(name)
	case 'z':
		b := content(name, 32)
		b[0], b[1] = 0, 0
		return b
	}
	return content(name, n)
}

func btcKey(id *Ident) *btcec.PrivateKey {
	k, _ := btcec.PrivKeyFromBytes(btcec.S256(), id.Priv.Bytes())
	return k
}

// signMsg signs as the threshold protocol does: any nonce, the lower s
func signMsg(id *Ident, msg []byte, nonce string) *tcommon.ECSignature {
	curve := btcec.S256()
	k := new(big.Int).SetBytes(content("nonce"+nonce, 32))
	k.Mod(k, curve.N)
	x, y := curve.ScalarBaseMult(k.Bytes())
	r := new(big.Int).Mod(x, curve.N)
	e, err := common.MsgToHashInt(msg)
	must(err)
	d := btcKey(id).D
	s := new(big.Int).Mul(r, d)
	s.Add(s, e)
	s.Mul(s, new(big.Int).ModInverse(k, curve.N))
	s.Mod(s, curve.N)
	rec := byte(y.Bit(0))
	if x.Cmp(curve.N) >= 0 {
		rec |= 2
	}
	if s.Cmp(new(big.Int).Rsh(curve.N, 1)) > 0 {
		s.Sub(curve.N, s)
		rec ^= 1
	}
	return &tcommon.ECSignature{R: r.Bytes(), S: s.Bytes(), Signature: append(append([]byte{}, r.Bytes()...), s.Bytes()...), SignatureRecovery: []byte{rec}, M: e.Bytes()}
}

func flipByte(b []byte, at int) []byte {
	c := append([]byte{}, b...)
	if len(c) > 0 {
		c[at%len(c)] ^= 1 << (at % 7)
	}
	return c
}

func (e *sigEntry) make(id *Ident, nonce string) *tcommon.ECSignature {
	sig := signMsg(id, msgBytes(e.M), nonce)
	if e.Kind == "ok" {
		return sig
	}
	N := btcec.S256().N
	switch e.How {
	case "r":
		sig.R = flipByte(sig.R, len(nonce))
	case "s":
		sig.S = flipByte(sig.S, len(nonce))
	case "zero":
		sig.R, sig.S = []byte{0}, []byte{0}
	case "empty":
		return &tcommon.ECSignature{}
	case "swap":
		sig.R, sig.S = sig.S, sig.R
	case "high":
		sig.S = new(big.Int).Sub(N, new(big.Int).SetBytes(sig.S)).Bytes()
		sig.SignatureRecovery = []byte{sig.SignatureRecovery[0] ^ 1}
	case "rec":
		sig.SignatureRecovery = []byte{sig.SignatureRecovery[0] ^ 1}
	case "rec4":
		sig.SignatureRecovery = []byte{sig.SignatureRecovery[0] + 4}
	case "norec":
		sig.SignatureRecovery = nil
	case "big":
		sig.R = new(big.Int).Add(N, new(big.Int).SetBytes(sig.R)).Bytes()
	case "noR":
		sig.R = nil
	default:
		panic("HARNESS: how " + e.How)
	}
	return sig
}

func runNotify(sc *Script) []M {
	var steps []notifyStep
	sc.steps(&steps)
	net := netsim.New()
	me := newIdent("me")
	host := net.Host(me.Peer)
	sn := keysign.NewSignatureNotifier(host)
	others := map[string]*keysign.SignatureNotifier{}
	peers := []*Ident{newIdent("n1"), newIdent("n2")}
	for _, p := range peers {
		others[string(p.Peer)] = keysign.NewSignatureNotifier(net.Host(p.Peer))
	}
	keys := map[string]*Ident{}
	key := func(n string) *Ident {
		if _, ok := keys[n]; !ok {
			keys[n] = newIdent("pool-" + n)
		}
		return keys[n]
	}
	var mu sync.Mutex
	done := []M{}
	sets := map[string][]*tcommon.ECSignature{}
	chans := map[string]chan string{}
	var tstep time.Time
	same := func(a, b []*tcommon.ECSignature) bool {
		if len(a) != len(b) {
			return false
		}
		for k := range a {
			if !proto.Equal(a[k], b[k]) {
				return false
			}
		}
		return true
	}
	sess := func(x string) string {
		if x == "" {
			return ""
		}
		return sessName(x)
	}
	npeer := 0
	do := func(s *notifyStep) func() {
		switch s.Op {
		case "wait":
			ch := make(chan string, 2)
			chans[s.W] = ch
			pub := ""
			if s.Key != "" {
				pub = key(s.Key).Pub
			}
			var msgs [][]byte
			for _, m := range s.Msgs {
				msgs = append(msgs, msgBytes(m))
			}
			return func() {
				go func() {
					d, err := sn.WaitForSignature(sess(s.Sess), msgs, pub, time.Duration(s.T)*time.Millisecond, ch)
					mu.Lock()
					defer mu.Unlock()
					r := "err"
					ms := int(time.Since(tstep) / time.Millisecond)
					switch {
					case err == nil:
						r = "other"
						for id, x := range sets {
							if same(x, d) {
								r = id
							}
						}
					case errors.Is(err, p2p.ErrSigGenerated):
						r = "local"
					case ms > 0 || s.T == 0:
						r = "timeout"
					}
					done = append(done, M{"w": s.W, "r": r, "t": ms})
				}()
				// the wait is set up before the next thing happens
				if s.Status == "" {
					synctest.Wait()
				}
			}
		case "notice":
			var set []*tcommon.ECSignature
			for k := range s.Set {
				set = append(set, s.Set[k].make(key(s.Set[k].Key), fmt.Sprintf("%s-%d", s.ID, k)))
			}
			mu.Lock()
			sets[s.ID] = set
			mu.Unlock()
			from := peers[npeer%2]
			npeer++
			if s.Via == "node" && s.Whole {
				return func() {
					o := others[string(from.Peer)]
					if s.Status == "ok" {
						must(o.BroadcastSignature(sess(s.Sess), set, []peer.ID{me.Peer, from.Peer}))
					} else {
						must(o.BroadcastFailed(sess(s.Sess), []peer.ID{me.Peer}))
					}
				}
			}
			m := &messages.KeysignSignature{ID: sess(s.Sess), KeysignStatus: messages.KeysignSignature_Success}
			if s.Status != "ok" {
				m.KeysignStatus = messages.KeysignSignature_Failed
			}
			for _, x := range set {
				b, err := proto.Marshal(x)
				must(err)
				m.Signatures = append(m.Signatures, b)
			}
			if n := len(m.Signatures); !s.Whole && s.How == "sig" && n > 0 {
				m.Signatures[n-1] = []byte{0xff, 0xff, 1}
			}
			buf, err := proto.Marshal(m)
			must(err)
			fr := frame(buf)
			if !s.Whole {
				switch s.How {
				case "cut":
					fr = fr[:len(fr)-1]
				case "none":
					fr = nil
				case "huge":
					fr = []byte{0xff, 0xff, 0xff, 0xff}
				case "garbage":
					fr = frame([]byte{0xff, 0xff, 0xff, 0xff, 0xff})
				case "empty":
					fr = frame(nil)
				}
			}
			return func() {
				a, b := net.Pair(from.Peer, me.Peer, protoNotify, 0)
				a.Quiet = true
				if len(fr) > 0 {
					_, err = a.Write(fr)
					must(err)
				}
				a.Close()
				host.Handler(protoNotify)(b)
			}
		case "local":
			ch := chans[s.W]
			return func() {
				if ch != nil {
					select {
					case ch <- "signature generated":
					default:
					}
				}
			}
		case "adv":
			return func() { time.Sleep(time.Duration(s.D) * time.Millisecond) }
		}
		panic("HARNESS: op " + s.Op)
	}
	tr := []M{}
	for k := range steps {
		s := &steps[k]
		mu.Lock()
		done = []M{}
		tstep = time.Now()
		mu.Unlock()
		if s.Op == "par" {
			var fs []func()
			for j := range s.L {
				if s.L[j].Op == "wait" {
					panic("HARNESS: wait in par")
				}
				fs = append(fs, do(&s.L[j]))
			}
			var wg sync.WaitGroup
			for _, f := range fs {
				wg.Add(1)
				go func() { defer wg.Done(); f() }()
			}
			wg.Wait()
		} else {
			do(s)()
		}
		synctest.Wait()
		mu.Lock()
		d := append([]M{}, done...)
		mu.Unlock()
		sort.Slice(d, func(a, b int) bool { return d[a]["w"].(string) < d[b]["w"].(string) })
		tr = append(tr, M{"i": s.rec(), "o": M{"done": d}})
	}
	return tr
}

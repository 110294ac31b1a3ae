package drv

import (
	"encoding/base64"
	"encoding/hex"
	"math/big"

	btss "github.com/binance-chain/tss-lib/tss"
	"github.com/libp2p/go-libp2p-core/crypto"
	"github.com/libp2p/go-libp2p-core/peer"

	"gitlab.com/thorchain/tss/go-tss/conversion"
	"gitlab.com/thorchain/tss/go-tss/p2p"
)

func init() {
	modules["leader"] = runLeader
	modules["ident"] = runIdent
}

type leaderStep struct {
	Op     string   `json:"op"`
	Sess   string   `json:"sess"`
	Height int64    `json:"height"`
	List   []string `json:"list"`
}

func runLeader(sc *Script) []M {
	var steps []leaderStep
	var raw []M
	sc.steps(&steps)
	sc.steps(&raw)
	ps, os := idents(240, 4)
	ids, names := map[string]string{}, map[string]string{}
	for _, p := range append(append([]*Ident{}, ps...), os...) {
		ids[p.Name] = p.Peer.String()
		names[p.Peer.String()] = p.Name
	}
	var tr []M
	for i, s := range steps {
		if s.Op == "turns" {
			tr = append(tr, M{"i": raw[i], "o": ""})
			continue
		}
		var l []string
		for _, x := range s.List {
			l = append(l, ids[x])
		}
		res, err := p2p.LeaderNode(s.Sess, s.Height, l)
		o := names[res]
		if err != nil {
			o = ""
			if res != "" {
				o = "leader and error"
			}
		} else if o == "" {
			o = "?" + res
		}
		tr = append(tr, M{"i": raw[i], "o": o})
	}
	return tr
}

type identStep struct {
	Op   string   `json:"op"`
	Fn   string   `json:"fn"`
	A    string   `json:"a"`
	K    string   `json:"k"`
	L    []string `json:"l"`
	N    int      `json:"n"`
	Self string   `json:"self"`
}

// the names that the scripts use are those of known identities; everything else is taken literally
func runIdent(sc *Script) []M {
	var steps []identStep
	var raw []M
	sc.steps(&steps)
	sc.steps(&raw)
	byName := map[string]*Ident{}
	pubName, peerName := map[string]string{}, map[string]string{}
	get := func(n string) *Ident {
		if byName[n] == nil {
			id := newIdent("identity-" + n)
			byName[n] = id
			pubName[id.Pub] = n
			peerName[rawPeer(id).String()] = "peer-" + n
		}
		return byName[n]
	}
	nameOr := func(m map[string]string, x string) string {
		if n, ok := m[x]; ok {
			return n
		}
		return x
	}
	er := func(v string, err error) string {
		if err != nil {
			return "err"
		}
		return v
	}
	var tr []M
	for i, s := range steps {
		o := M{}
		in := raw[i]
		switch s.Op {
		case "pub2peer":
			id := get(s.A)
			var p peer.ID
			var err error
			switch s.Fn {
			case "sec":
				p, err = conversion.GetPeerIDFromSecp256PubKey(id.Priv.PubKey().Bytes())
			case "party":
				p, err = conversion.GetPeerIDFromPartyID(party("3", conversionKey(id)))
			default:
				p, err = conversion.GetPeerIDFromPubKey(id.Pub)
			}
			o["r"] = er(nameOr(peerName, p.String()), err)
		case "peer2pub":
			r, err := conversion.GetPubKeyFromPeerID(rawPeer(get(s.K)).String())
			in["a"] = "peer-" + s.K
			o["r"] = er(nameOr(pubName, r), err)
		case "maybe":
			x := mutate(rawPeer(get(s.K)).String(), s.N)
			r, err := conversion.GetPubKeyFromPeerID(x)
			in["a"] = nameOr(peerName, x)
			o["r"] = er(nameOr(pubName, r), err)
		case "bad", "good":
			o["r"] = "ok"
			if err := badInput(s.Fn, get("k1"), s.N); err != nil {
				o["r"] = "err"
			}
		case "pubs2peers":
			var l, r []string
			for _, x := range s.L {
				l = append(l, get(x).Pub)
			}
			var p []peer.ID
			var err error
			if s.Fn == "2" {
				p, err = conversion.GetPeerIDs(l)
			} else {
				p, err = conversion.GetPeerIDsFromPubKeys(l)
			}
			for _, x := range p {
				r = append(r, nameOr(peerName, x.String()))
			}
			if err != nil || r == nil {
				r = []string{}
			}
			o["l"] = r
		case "peers2pubs":
			var l, in2 []string
			for _, x := range s.L {
				l = append(l, rawPeer(get(x)).String())
				in2 = append(in2, "peer-"+x)
			}
			in["l"] = in2
			p, err := conversion.GetPubKeysFromPeerIDs(l)
			r := []string{}
			for _, x := range p {
				r = append(r, nameOr(pubName, x))
			}
			if err != nil {
				r = []string{}
			}
			o["l"] = r
		case "threshold":
			n, err := conversion.GetThreshold(s.N)
			o["r"], o["n"] = er("ok", err), n
		case "parties":
			var keys []string
			for _, x := range s.L {
				keys = append(keys, get(x).Pub)
			}
			ps, local, err := conversion.GetParties(keys, get(s.Self).Pub)
			o["r"] = er("ok", err)
			o["local"], o["p"], o["others"] = "", []M{}, []string{}
			if err == nil {
				o["local"] = local.Id
				im := conversion.SetupPartyIDMap(ps)
				pm := map[string]peer.ID{}
				if err := conversion.SetupIDMaps(im, pm); err != nil {
					o["r"] = "err"
				}
				l := []M{}
				for _, p := range ps {
					pub, err := conversion.PartyIDtoPubKey(p)
					pid, err2 := conversion.GetPeerIDFromPartyID(p)
					acc, err3 := conversion.AccPubKeysFromPartyIDs([]string{p.Id}, im)
					a := "err"
					if err3 == nil && len(acc) == 1 {
						a = nameOr(pubName, acc[0])
					}
					l = append(l, M{"id": p.Id, "pub": er(nameOr(pubName, pub), err), "peer": er(nameOr(peerName, pid.String()), err2),
						"index": p.Index, "acc": a, "mapped": nameOr(peerName, pm[p.Id].String())})
				}
				o["p"] = l
				others := []string{}
				for _, x := range conversion.GetPeersID(pm, rawPeer(get(s.Self)).String()) {
					others = append(others, nameOr(peerName, x.String()))
				}
				o["others"] = others
			}
		default:
			panic("HARNESS: op " + s.Op)
		}
		tr = append(tr, M{"i": in, "o": o})
	}
	return tr
}

// rawPeer is the peer identity computed without the code under test
func rawPeer(id *Ident) peer.ID {
	k, err := crypto.UnmarshalSecp256k1PublicKey(id.Priv.PubKey().Bytes())
	must(err)
	p, err := peer.IDFromPublicKey(k)
	must(err)
	return p
}

func mutate(x string, n int) string {
	al := "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
	b := []byte(x)
	pos := n % len(b)
	switch (n / len(b)) % 4 {
	case 0, 1:
		b[pos] = al[(n/7)%len(al)]
	case 2:
		b = b[:pos]
	case 3:
		b = append(b[:pos:pos], b[pos+1:]...)
	}
	return string(b)
}

// badInput hands something malformed (or, for good-*, something fine) to one of the conversions
func badInput(fn string, id *Ident, n int) error {
	var err error
	pubs := []string{"", "x", id.Pub[:len(id.Pub)-1], id.Pub + "q", "bnb" + id.Pub[4:], flip(id.Pub, n), flip(id.Pub, n*31+5)}
	pub := pubs[n%len(pubs)]
	peers := []string{"", "x", "0OIl", "QmYwAPJzv5CZsnA625s3Xf2nemtYgPpHdWEz79ojWKPbdG", string([]byte{0xff, 0xfe})}
	pid := peers[n%len(peers)]
	raws := [][]byte{nil, {}, {1}, make([]byte, 33), append([]byte{2}, make([]byte, 31)...), append([]byte{5}, id.Priv.PubKey().Bytes()[1:]...), id.Priv.PubKey().Bytes()[:32]}
	raw := raws[n%len(raws)]
	parties := []*btss.PartyID{nil, {Index: -1, MessageWrapper_PartyID: party("1", conversionKey(id)).MessageWrapper_PartyID}, {}, {MessageWrapper_PartyID: &btss.MessageWrapper_PartyID{Id: "1"}}}
	pty := parties[n%len(parties)]
	hx := hex.EncodeToString(id.Priv.Bytes())
	b64 := func(x string) string { return base64.StdEncoding.EncodeToString([]byte(x)) }
	pris := []string{"", "*", b64(""), b64("zz"), b64(hx[:2]), b64(hx[:62]), b64(hx[:63]), hx, b64(hx)[1:]}
	switch fn {
	case "pub2peer":
		_, err = conversion.GetPeerIDFromPubKey(pub)
	case "pubs2peers":
		_, err = conversion.GetPeerIDsFromPubKeys([]string{id.Pub, pub})
	case "pubs2peers2":
		_, err = conversion.GetPeerIDs([]string{pub, id.Pub})
	case "parties":
		_, _, err = conversion.GetParties([]string{id.Pub, pub}, id.Pub)
	case "curve":
		_, err = conversion.CheckKeyOnCurve(pub)
	case "peer2pub":
		_, err = conversion.GetPubKeyFromPeerID(pid)
	case "peers2pubs":
		_, err = conversion.GetPubKeysFromPeerIDs([]string{rawPeer(id).String(), pid})
	case "sec":
		_, err = conversion.GetPeerIDFromSecp256PubKey(raw)
	case "rawparty":
		_, err = conversion.GetPeerIDFromPartyID(party("1", new(big.Int).SetBytes(raw)))
	case "party2peer":
		_, err = conversion.GetPeerIDFromPartyID(pty)
	case "party2pub":
		_, err = conversion.PartyIDtoPubKey(pty)
	case "acc":
		_, err = conversion.AccPubKeysFromPartyIDs([]string{"0", "1"}, map[string]*btss.PartyID{"0": party("0", conversionKey(id))})
	case "pri":
		_, err = conversion.GetPriKey(pris[n%len(pris)])
	case "edpeer":
		k, _, e := crypto.GenerateEd25519Key(zeroReader{})
		must(e)
		p, e := peer.IDFromPrivateKey(k)
		must(e)
		_, err = conversion.GetPubKeyFromPeerID(p.String())
	case "good-curve":
		var ok bool
		ok, err = conversion.CheckKeyOnCurve(newIdent(string(rune('a' + n%26))).Pub)
		if err == nil && !ok {
			err = p2p.ErrSignReceived
		}
	case "good-pri":
		me := newIdent(string(rune('a' + n%26)))
		k, e := conversion.GetPriKey(b64(hex.EncodeToString(me.Priv.Bytes())))
		if err = e; err == nil {
			rb, e := conversion.GetPriKeyRawBytes(k)
			if err = e; err == nil && string(rb) != string(me.Priv.Bytes()) {
				err = p2p.ErrSignReceived
			}
			if err == nil && !k.PubKey().Equals(me.Priv.PubKey()) {
				err = p2p.ErrSignReceived
			}
		}
	default:
		panic("HARNESS: fn " + fn)
	}
	return err
}

type zeroReader struct{}

func (zeroReader) Read(b []byte) (int, error) { return len(b), nil }

// flip changes one character of a bech32 string
func flip(x string, n int) string {
	al := "qpzry9x8gf2tvdw0s3jn54khce6mua7l"
	b := []byte(x)
	pos := n % len(b)
	c := al[(n/5)%len(al)]
	if b[pos] == c {
		c = al[(n/5+1)%len(al)]
	}
	b[pos] = c
	return string(b)
}

// party is a party identity as it is once the parties of a session are sorted
func party(id string, key *big.Int) *btss.PartyID {
	p := btss.NewPartyID(id, "", key)
	p.Index = 0
	return p
}

package drv

import (
	"crypto/sha256"
	"fmt"
	"math/big"
	"sort"

	coskey "github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/tendermint/tendermint/crypto/secp256k1"
	"gitlab.com/thorchain/tss/go-tss/conversion"
)

// Ident is a node with a fixed key.
type Ident struct {
	Name string
	Priv secp256k1.PrivKey
	Pub  string // bech32
	Peer peer.ID
}

func newIdent(seed string) *Ident {
	h := sha256.Sum256([]byte("verif" + seed))
	priv := secp256k1.GenPrivKeySecp256k1(h[:])
	pk := coskey.PubKey{Key: priv.PubKey().Bytes()}
	pub, err := sdk.Bech32ifyPubKey(sdk.Bech32PubKeyTypeAccPub, &pk)
	must(err)
	id, err := conversion.GetPeerIDFromPubKey(pub)
	must(err)
	return &Ident{Priv: priv, Pub: pub, Peer: id}
}

var identCache = map[string][]*Ident{}

// idents gives n participants p0.. (in the order of their bech32 keys) and the outsiders x0..
func idents(n, outs int) ([]*Ident, []*Ident) {
	k := fmt.Sprintf("%d", n)
	if _, ok := identCache[k]; !ok {
		var l []*Ident
		for i := 0; i < n; i++ {
			l = append(l, newIdent(fmt.Sprintf("part%d", i)))
		}
		sort.Slice(l, func(i, j int) bool { return l[i].Pub < l[j].Pub })
		for i, e := range l {
			e.Name = fmt.Sprintf("p%d", i)
		}
		identCache[k] = l
	}
	var o []*Ident
	for i := 0; i < outs; i++ {
		e := newIdent(fmt.Sprintf("out%d", i))
		e.Name = fmt.Sprintf("x%d", i)
		o = append(o, e)
	}
	return identCache[k], o
}

func conversionKey(id *Ident) *big.Int { return new(big.Int).SetBytes(id.Priv.PubKey().Bytes()) }

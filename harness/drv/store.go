package drv

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/big"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/btcsuite/btcd/btcec"
	coskey "github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-peerstore/addr"
	ma "github.com/multiformats/go-multiaddr"

	"gitlab.com/thorchain/tss/go-tss/storage"
)

func init() { modules["store"] = runStore }

type bookEntry struct {
	P  string `json:"p"`
	A  string `json:"a"`
	Lo bool   `json:"lo"`
}

type storeStep struct {
	Op    string        `json:"op"`
	K     string        `json:"k"`
	V     string        `json:"v"`
	Vs    []string      `json:"vs"`
	Book  []bookEntry   `json:"book"`
	Books [][]bookEntry `json:"books"`
	Name  string        `json:"name"`
	Fn    string        `json:"fn"`
	Mode  string        `json:"mode"`  // of a fault: err, crash
	At    float64       `json:"at"`    // of what is to be written
	Plus  int           `json:"plus"`  // bytes more
	Us    int           `json:"us"`    // until the kill
	Other bool          `json:"other"` // by another manager of the same folder
	L     []storeStep   `json:"l"`
}

type storeCfg struct {
	Folder string `json:"folder"` // "abs", "deep", "rel" or "" (the working directory)
}

func (s *storeStep) rec() M {
	switch s.Op {
	case "save":
		return M{"op": s.Op, "k": s.K, "v": s.V}
	case "get":
		return M{"op": s.Op, "k": s.K}
	case "savebook":
		return M{"op": s.Op, "book": append([]bookEntry{}, s.Book...)}
	case "fault":
		if s.K == "book" {
			return M{"op": s.Op, "k": s.K, "v": [][]bookEntry{append([]bookEntry{}, s.Book...)}}
		}
		return M{"op": s.Op, "k": s.K, "v": s.V}
	case "kill":
		if s.K == "book" {
			l := [][][]bookEntry{}
			for _, b := range s.Books {
				l = append(l, [][]bookEntry{append([]bookEntry{}, b...)})
			}
			return M{"op": s.Op, "k": s.K, "vs": l}
		}
		return M{"op": s.Op, "k": s.K, "vs": s.Vs}
	case "par":
		l := []M{}
		for k := range s.L {
			l = append(l, s.L[k].rec())
		}
		return M{"op": s.Op, "l": l}
	}
	return M{"op": s.Op}
}

var shareData [][]byte
var shareCache = map[string]storage.KeygenLocalState{}
var shareMu sync.Mutex

// shareOf is the value of that name as a share of a pool key: real data of a key generation with the name put in
func shareOf(key, val string) storage.KeygenLocalState {
	shareMu.Lock()
	defer shareMu.Unlock()
	if st, ok := shareCache[key+"/"+val]; ok {
		return st
	}
	st := makeShare(key, val)
	shareCache[key+"/"+val] = st
	return st
}

func makeShare(key, val string) storage.KeygenLocalState {
	if shareData == nil {
		for k := 0; k < 4; k++ {
			b, err := ioutil.ReadFile(filepath.Join(repoDir(), "test_data/keysign_data", fmt.Sprintf("%d.json", k)))
			must(err)
			shareData = append(shareData, b)
		}
	}
	c := content("share"+key+val, 64)
	var raw struct {
		LocalData json.RawMessage `json:"local_data"`
	}
	must(json.Unmarshal(shareData[int(c[0])%4], &raw))
	st := storage.KeygenLocalState{}
	must(json.Unmarshal(raw.LocalData, &st.LocalData))
	st.PubKey = newIdent("store-" + key).Pub
	st.LocalData.ShareID = new(big.Int).SetBytes(c[:32])
	st.LocalData.Xi = new(big.Int).SetBytes(c[32:])
	n := 1 + int(c[1])%7
	for k := 0; k < n; k++ {
		st.ParticipantKeys = append(st.ParticipantKeys, newIdent(fmt.Sprintf("%s-%d", val, k)).Pub)
	}
	st.LocalPartyKey = st.ParticipantKeys[int(c[2])%n]
	if c[3]%5 == 0 {
		// much more data
		for k := 0; k < 40; k++ {
			st.LocalData.Ks = append(st.LocalData.Ks, new(big.Int).SetBytes(content(val, 4000)))
		}
	}
	return st
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

// offCurve is a well-formed key that is no point of the curve
func offCurve() string {
	for x := byte(1); ; x++ {
		raw := make([]byte, 33)
		raw[0], raw[32] = 2, x
		if _, err := btcec.ParsePubKey(raw, btcec.S256()); err != nil {
			pub, err := sdk.Bech32ifyPubKey(sdk.Bech32PubKeyTypeAccPub, &coskey.PubKey{Key: raw})
			must(err)
			return pub
		}
	}
}

func peerNamed(n string) peer.ID { return newIdent("book-" + n).Peer }

func bookOf(b []bookEntry) map[peer.ID]addr.AddrList {
	m := map[peer.ID]addr.AddrList{}
	for _, e := range b {
		p := peerNamed(e.P)
		if e.A == "" {
			m[p] = nil
			continue
		}
		a, err := ma.NewMultiaddr(e.A)
		must(err)
		m[p] = append(m[p], a)
	}
	return m
}

func sizeOf(v interface{}) int {
	b, err := json.Marshal(v)
	must(err)
	return len(b)
}

// saveOnce is what the child process does
func storeSave(m *storage.FileStateMgr, k, v string, b []bookEntry) error {
	if k == "book" {
		return m.SaveAddressBook(bookOf(b))
	}
	return m.SaveLocalState(shareOf(k, v))
}

type childJob struct {
	Dir  string    `json:"dir"`
	Step storeStep `json:"step"`
	Lim  uint64    `json:"lim"`
}

// StoreChild runs in a process of its own that may die
func StoreChild() {
	var j childJob
	must(json.Unmarshal([]byte(os.Getenv("DRV_STORE_CHILD")), &j))
	m, err := storage.NewFileStateMgr(j.Dir)
	must(err)
	s := &j.Step
	if s.Op == "kill" {
		var saves []func() error
		if s.K == "book" {
			for _, b := range s.Books {
				x := bookOf(b)
				saves = append(saves, func() error { return m.SaveAddressBook(x) })
			}
		} else {
			for _, v := range s.Vs {
				x := shareOf(s.K, v)
				saves = append(saves, func() error { return m.SaveLocalState(x) })
			}
		}
		fmt.Println("GO")
		for k := 0; ; k++ {
			if err := saves[k%len(saves)](); err != nil {
				fmt.Println("ERR", err)
			}
		}
	}
	st := shareOf("warm", "up")
	_ = st
	if s.Mode == "err" {
		signal.Ignore(syscall.SIGXFSZ)
	}
	runtime.GC()
	must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: j.Lim, Max: j.Lim}))
	err = storeSave(m, s.K, s.V, s.Book)
	os.Stderr.WriteString("\n") // a pipe, not limited
	if err != nil {
		os.Exit(7)
	}
	os.Exit(8)
}

func snapshot(dir string) string {
	var l []string
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		x := fmt.Sprintf("%s %d %s %s", p, fi.Size(), fi.Mode(), fi.ModTime())
		if !fi.IsDir() {
			b, _ := ioutil.ReadFile(p)
			x += string(b)
		}
		l = append(l, x)
		return nil
	})
	sort.Strings(l)
	return strings.Join(l, "\n")
}

func badName(name string) string {
	id := newIdent("store-K1")
	switch name {
	case "empty":
		return ""
	case "dots":
		return "../../escape"
	case "slash":
		return id.Pub + "/../x"
	case "abs":
		return "/" + id.Pub
	case "short":
		return id.Pub[:len(id.Pub)-1]
	case "long":
		return id.Pub + "q"
	case "flip":
		return flip(id.Pub, 7)
	case "prefix":
		return "../x" + id.Pub
	case "addr":
		return "thor1" + strings.TrimPrefix(id.Pub, "thorpub1")
	case "nul":
		return id.Pub + "\x00"
	case "json":
		return `","pub_key":"x`
	case "curve": // well formed, but no point of the curve
		return offCurve()
	}
	panic("HARNESS: name " + name)
}

func runStore(sc *Script) []M {
	var cfg storeCfg
	var steps []storeStep
	sc.cfg(&cfg)
	sc.steps(&steps)
	base, err := ioutil.TempDir(os.Getenv("DRV_WORK"), "store")
	must(err)
	defer os.RemoveAll(base)
	dir := filepath.Join(base, "node")
	cwd, err := os.Getwd()
	must(err)
	childDir := dir
	switch cfg.Folder {
	case "deep":
		dir = filepath.Join(base, "node", "a", "b")
		childDir = dir
	case "rel":
		must(os.Chdir(base))
		dir = "node/x"
		childDir = filepath.Join(base, dir)
	case "cwd":
		must(os.Mkdir(dir, 0o755))
		must(os.Chdir(dir))
		childDir = dir
		dir = ""
	}
	defer os.Chdir(cwd)
	mgr, err := storage.NewFileStateMgr(dir)
	must(err)
	other := mgr
	do := func(s *storeStep) M {
		m := mgr
		if s.Other {
			m = other
		}
		switch s.Op {
		case "save":
			if err := m.SaveLocalState(shareOf(s.K, s.V)); err != nil {
				return M{"r": "err"}
			}
			return M{"r": "ok"}
		case "get":
			pub := newIdent("store-" + s.K).Pub
			st, err := m.GetLocalState(pub)
			if err != nil {
				if !reflect.DeepEqual(st, storage.KeygenLocalState{}) {
					return M{"r": "both"}
				}
				return M{"r": "none"}
			}
			for k := 0; k < 12; k++ {
				v := fmt.Sprintf("v%d", k)
				if reflect.DeepEqual(st, shareOf(s.K, v)) {
					return M{"r": v}
				}
			}
			return M{"r": "other"}
		case "savebook":
			if err := m.SaveAddressBook(bookOf(s.Book)); err != nil {
				return M{"r": "err"}
			}
			return M{"r": "ok"}
		case "getbook":
			l, err := m.RetrieveP2PAddresses()
			if err != nil {
				return M{"r": "none", "l": []M{}}
			}
			out := []M{}
			for _, a := range l {
				x := a.String()
				n := "?"
				if i := strings.LastIndex(x, "/p2p/"); i >= 0 {
					for k := 0; k < 12; k++ {
						if peerNamed(fmt.Sprintf("n%d", k)).String() == x[i+5:] {
							n = fmt.Sprintf("n%d", k)
						}
					}
					x = x[:i]
				}
				out = append(out, M{"p": n, "a": x})
			}
			return M{"r": "ok", "l": out}
		case "restart":
			n, err := storage.NewFileStateMgr(dir)
			if err != nil {
				return M{"r": "err"}
			}
			other, mgr = mgr, n
			return M{"r": "ok"}
		case "bad":
			before := snapshot(base)
			var err error
			switch s.Fn {
			case "get":
				_, err = m.GetLocalState(badName(s.Name))
			case "save":
				st := shareOf("K1", "v1")
				st.PubKey = badName(s.Name)
				err = m.SaveLocalState(st)
			}
			r := "ok"
			if err != nil {
				r = "err"
			}
			return M{"r": r, "clean": snapshot(base) == before}
		case "fault", "kill":
			n := 0
			if s.K == "book" {
				for _, e := range s.Book {
					if !e.Lo && e.A != "" {
						n += len(e.A) + 5 + len(peerNamed(e.P).String()) + 1
					}
				}
			} else if s.Op == "fault" {
				n = sizeOf(shareOf(s.K, s.V))
			}
			lim := int(float64(n)*s.At) + s.Plus
			if lim < 0 {
				lim = 0
			}
			job, err := json.Marshal(&childJob{Dir: childDir, Step: *s, Lim: uint64(lim)})
			must(err)
			cmd := exec.Command(os.Args[0], "-test.run", "TestDrv")
			cmd.Dir = base
			cmd.Env = append(os.Environ(), "DRV_STORE_CHILD="+string(job))
			out, err := cmd.StdoutPipe()
			must(err)
			must(cmd.Start())
			rd := bufio.NewReader(out)
			if s.Op == "kill" {
				line, _ := rd.ReadString('\n')
				if strings.TrimSpace(line) != "GO" {
					rest, _ := ioutil.ReadAll(rd)
					panic("HARNESS: child: " + line + string(rest))
				}
				time.Sleep(time.Duration(s.Us) * time.Microsecond)
				cmd.Process.Kill()
				rest, _ := ioutil.ReadAll(rd)
				cmd.Wait()
				if strings.Contains(string(rest), "ERR") {
					return M{"r": "err"}
				}
				return M{"r": "dead"}
			}
			rest, _ := ioutil.ReadAll(rd)
			err = cmd.Wait()
			code := cmd.ProcessState.ExitCode()
			switch {
			case code == 7:
				return M{"r": "err"}
			case code == 8:
				return M{"r": "ok"}
			case strings.Contains(string(rest), "HARNESS:"):
				panic("HARNESS: child: " + string(rest))
			}
			return M{"r": "dead"}
		}
		panic("HARNESS: op " + s.Op)
	}
	tr := []M{}
	for k := range steps {
		s := &steps[k]
		if s.Op != "par" {
			tr = append(tr, M{"i": s.rec(), "o": do(s)})
			continue
		}
		l := make([]M, len(s.L))
		var wg sync.WaitGroup
		for j := range s.L {
			wg.Add(1)
			go func() {
				defer wg.Done()
				l[j] = do(&s.L[j])
			}()
		}
		wg.Wait()
		tr = append(tr, M{"i": s.rec(), "o": M{"l": l}})
	}
	return tr
}

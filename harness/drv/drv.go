// Package drv runs scripts (sequences of inputs) on the real code and records what it does.
package drv

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"testing"
	"testing/synctest"

	"github.com/rs/zerolog"
	"gitlab.com/thorchain/tss/go-tss/conversion"
)

// M is a JSON object.
type M = map[string]interface{}

// Script is one run of the real code.
type Script struct {
	ID    string          `json:"id"`
	Mod   string          `json:"mod"`
	Cfg   json.RawMessage `json:"cfg"`
	Steps json.RawMessage `json:"steps"`
}

// Module runs a script and returns its trace: a list of records.
type Module func(sc *Script) []M

var modules = map[string]Module{}

func must(err error) {
	if err != nil {
		panic("HARNESS: " + err.Error())
	}
}

func (s *Script) cfg(v interface{})   { must(json.Unmarshal(s.Cfg, v)) }
func (s *Script) steps(v interface{}) { must(json.Unmarshal(s.Steps, v)) }

func sortedKeys(m map[string]bool) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// Main is the body of the only test: it runs all the scripts of $DRV_IN in one bubble and leaves the process from there.
func Main(t *testing.T) {
	in, outName, cur := os.Getenv("DRV_IN"), os.Getenv("DRV_OUT"), os.Getenv("DRV_CUR")
	if os.Getenv("DRV_STORE_CHILD") != "" {
		conversion.SetupBech32Prefix()
		StoreChild()
	}
	if in == "" {
		t.Skip("no scripts")
	}
	if os.Getenv("DRV_LOG") == "" {
		zerolog.SetGlobalLevel(zerolog.Disabled)
	}
	debug.SetGCPercent(400)
	conversion.SetupBech32Prefix()
	f, err := os.Open(in)
	must(err)
	out, err := os.OpenFile(outName, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	must(err)
	var scripts []*Script
	rd := bufio.NewReaderSize(f, 1<<20)
	dec := json.NewDecoder(rd)
	for dec.More() {
		var s Script
		must(dec.Decode(&s))
		scripts = append(scripts, &s)
	}
	w := bufio.NewWriterSize(out, 1<<20)
	run := func() {
		for _, s := range scripts {
			m, ok := modules[s.Mod]
			if !ok {
				panic("HARNESS: unknown module " + s.Mod)
			}
			must(os.WriteFile(cur, []byte(s.ID), 0o644))
			tr := m(s)
			buf, err := json.Marshal(M{"id": s.ID, "trace": tr})
			must(err)
			w.Write(buf)
			w.WriteByte('\n')
			must(w.Flush())
		}
		must(os.WriteFile(cur, []byte("DONE"), 0o644))
		fmt.Println("drv: done")
		os.Exit(0)
	}
	if os.Getenv("DRV_REAL") != "" {
		run()
	}
	synctest.Test(t, func(t *testing.T) { run() })
}

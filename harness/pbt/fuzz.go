package pbt

import (
	"encoding/binary"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Fuzz runs the property in VERIF_PROP by coverage-guided fuzzing: of texts, or
// of the random bits that its generator draws from.
func Fuzz(f *testing.F) {
	p, _, one := fuzzWorker(f)
	seed, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	rnd := rand.New(rand.NewPCG(mix(seed, p.ID, -1), 0))
	if p.FromBytes != nil && os.Getenv("VERIF_FUZZ") == "text" {
		g := rapid.Custom(func(t *rapid.T) any { return p.Gen(t) })
		for range 200 {
			if b := p.Bytes(g.Example(int(rnd.Uint32()))); b != nil && len(b) < 4000 {
				f.Add(b)
			}
		}
		f.Fuzz(func(t *testing.T, b []byte) {
			if len(b) <= 20000 {
				one(t, p.FromBytes(b), nil)
			}
		})
		return
	}
	for i := range 40 {
		b := make([]byte, 1024<<(i%5))
		for k := range b {
			b[k] = byte(rnd.Uint32() >> (i % 3 * 2))
		}
		f.Add(b)
	}
	f.Fuzz(func(t *testing.T, b []byte) {
		rapid.MakeFuzz(func(rt *rapid.T) { one(rt, p.Gen(rt), b) })(t, b)
	})
}

// Reduce cuts down the bits in VERIF_BITS that make a failing case.
func Reduce(t *testing.T) {
	p, _, one := fuzzWorker(t)
	b, err := os.ReadFile(os.Getenv("VERIF_BITS"))
	if err != nil {
		t.Fatal(err)
	}
	until := time.Now().Add(30 * time.Second)
	fails := func(b []byte) bool {
		if time.Now().After(until) {
			return false
		}
		return !t.Run("", func(t *testing.T) {
			rapid.MakeFuzz(func(rt *rapid.T) { one(rt, p.Gen(rt), b) })(t, b)
		})
	}
	if !fails(b) {
		t.Fatal("doesn't fail")
	}
	for again := true; again && time.Now().Before(until); {
		again = false
		for size := len(b) / 16 * 8; size >= 8; size = size / 16 * 8 {
			for i := 0; i+size <= len(b); {
				c := append(append([]byte{}, b[:i]...), b[i+size:]...)
				if fails(c) {
					b, again = c, true
				} else {
					i += size
				}
			}
		}
		for i := 0; i+8 <= len(b); i += 8 {
			v := binary.LittleEndian.Uint64(b[i:])
			for _, n := range []uint64{0, 1, v >> 32, v >> 8, v >> 1, v - 1} {
				if n >= v {
					continue
				}
				c := append([]byte{}, b...)
				binary.LittleEndian.PutUint64(c[i:], n)
				if fails(c) {
					b, again = c, true
					break
				}
			}
		}
	}
}

type fataler interface{ Fatalf(string, ...any) }

func fuzzWorker(f testing.TB) (*Prop, *worker, func(t fataler, v any, bits []byte)) {
	p := props[os.Getenv("VERIF_PROP")]
	if p == nil {
		f.Skip("VERIF_PROP is not set")
	}
	debug.SetMaxStack(256 << 20)
	debug.SetMemoryLimit(3 << 30)
	dir := filepath.Join(os.Getenv("VERIF_DIR"), strconv.Itoa(os.Getpid()))
	Scratch = filepath.Join(dir, "scratch")
	if err := os.MkdirAll(Scratch, 0o755); err != nil {
		f.Fatal(err)
	}
	w := &worker{p: p, dir: dir, seen: map[uint64]bool{}, curPath: filepath.Join(dir, "current.json")}
	w.res.Classes = map[string]int{}
	if p.Setup != nil {
		if err := p.Setup(dir); err != nil {
			f.Fatal("setup:", err)
		}
	}
	startWatchdog(dir)
	smallest := 0
	return p, w, func(t fataler, v any, bits []byte) {
		defer func() {
			if w.res.Error != "" {
				os.WriteFile(filepath.Join(dir, "harness.txt"), []byte(w.res.Error), 0o644)
			}
		}()
		err := w.one(v)
		if err == nil {
			return
		}
		c := w.encode(Case{Property: p.ID, Failure: err.Error(), Case: w.encode(v)})
		if smallest == 0 || len(c) < smallest {
			smallest = len(c)
			os.WriteFile(filepath.Join(dir, "failed.json"), c, 0o644)
			os.WriteFile(filepath.Join(dir, "failed.bits"), bits, 0o644)
		}
		first, _, _ := strings.Cut(err.Error(), "\n")
		t.Fatalf("%.60s", first)
	}
}

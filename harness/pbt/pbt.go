// Package pbt runs properties: generated cases through an oracle, with
// shrinking, statistics and replays.
package pbt

import (
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Obs collects what a case exercised.
type Obs struct {
	nontrivial bool
	sig        string
	classes    []string
	sample     any
	evals      int
}

// NonTrivial marks the case as one that counts, by the property's rule.
// Cases are distinct if their signature is.
func (o *Obs) NonTrivial(ok bool) {
	if ok {
		o.nontrivial = true
	}
}
func (o *Obs) Class(c string) { o.classes = append(o.classes, c) }
func (o *Obs) ClassIf(ok bool, c string) {
	if ok {
		o.Class(c)
	}
}
func (o *Obs) Sample(v any) { o.sample = v }
func (o *Obs) Sig(s string) { o.sig = s }

// Evals sets how many evaluations of the property the case stands for.
func (o *Obs) Evals(n int) { o.evals = n }

// Prop is one property.
type Prop struct {
	ID    string
	Rule  string // how cases are made and what makes one non-trivial
	New   func() any
	Gen   func(t *rapid.T) any
	Check func(c any, o *Obs) error
	Quick int // cases in total, in sixths
	Deep  int // in thirtieths
	// Text, if set, gives access to the text of the case that can be cut
	// down when the process itself dies.
	Text func(c any) *[]byte
	// FromBytes, if set, makes a case of any text, for coverage-guided
	// fuzzing of texts; Bytes is its inverse.
	FromBytes func(b []byte) any
	Bytes     func(c any) []byte
	// Enumerate, if set, yields further cases, exhaustively; called with
	// the tier. Shard i of n takes every n-th.
	Enumerate func(deep bool, yield func(c any) bool)
	Assume    []string
	// Isolated: cost is dominated by each case; use these many shards.
	Shards int
	Setup  func(dir string) error
}

var props = map[string]*Prop{}

// Get returns a registered property.
func Get(id string) *Prop { return props[id] }

func Register(p *Prop) {
	if props[p.ID] != nil {
		panic("duplicate " + p.ID)
	}
	props[p.ID] = p
}

// Case wraps a case for storage.
type Case struct {
	Property string          `json:"property"`
	Note     string          `json:"note,omitempty"`
	Failure  string          `json:"failure,omitempty"`
	Case     json.RawMessage `json:"case"`
}

// Result is what a worker reports.
type Result struct {
	Property   string         `json:"property"`
	Rule       string         `json:"rule"`
	Assume     []string       `json:"assume"`
	Evals      int            `json:"evals"`
	NonTrivial int            `json:"nontrivial"`
	Classes    map[string]int `json:"classes"`
	Samples    []any          `json:"samples"`
	Failed     bool           `json:"failed"`
	Failure    string         `json:"failure,omitempty"`
	FailCase   *Case          `json:"failCase,omitempty"`
	FirstCase  *Case          `json:"firstCase,omitempty"`
	Error      string         `json:"error,omitempty"`
	WallS      float64        `json:"wall_s"`
	Corpus     int            `json:"corpus"`
	Enumerated int            `json:"enumerated"`
	// cases left out because the time was up
	Unenumerated int `json:"unenumerated"`
	Ungenerated  int `json:"ungenerated"`
}

type tb struct {
	failed bool
	log    []string
}

type failNow struct{}

func (t *tb) Helper()                   {}
func (t *tb) Name() string              { return "verif" }
func (t *tb) Logf(f string, a ...any)   { t.add(fmt.Sprintf(f, a...)) }
func (t *tb) Log(a ...any)              { t.add(fmt.Sprint(a...)) }
func (t *tb) Skipf(f string, a ...any)  { panic("skip") }
func (t *tb) Skip(a ...any)             { panic("skip") }
func (t *tb) SkipNow()                  { panic("skip") }
func (t *tb) Errorf(f string, a ...any) { t.add(fmt.Sprintf(f, a...)); t.failed = true }
func (t *tb) Error(a ...any)            { t.add(fmt.Sprint(a...)); t.failed = true }
func (t *tb) Fatalf(f string, a ...any) { t.Errorf(f, a...); panic(failNow{}) }
func (t *tb) Fatal(a ...any)            { t.Error(a...); panic(failNow{}) }
func (t *tb) FailNow()                  { t.failed = true; panic(failNow{}) }
func (t *tb) Fail()                     { t.failed = true }
func (t *tb) Failed() bool              { return t.failed }
func (t *tb) add(s string) {
	if len(t.log) < 200 {
		t.log = append(t.log, s)
	}
}

type worker struct {
	p       *Prop
	dir     string
	res     Result
	seen    map[uint64]bool
	curPath string
	curFile *os.File
	lastBad *Case
	first   *Case
	start   time.Time
	budget  time.Duration // no new cases after that
}

// Current activity, for the watchdog.
var caseSeq atomic.Int64

// Scratch is a directory of the worker for files of cases.
var Scratch string

func Main() {
	testing.Init()
	var (
		list    = flag.Bool("list", false, "list properties")
		prop    = flag.String("prop", "", "property")
		seed    = flag.Uint64("seed", 1, "seed")
		cases   = flag.Int("cases", 0, "cases, overrides the tier")
		tier    = flag.String("tier", "quick", "tier")
		shard   = flag.Int("shard", 0, "shard")
		shards  = flag.Int("shards", 1, "number of shards")
		out     = flag.String("out", "", "result file")
		dir     = flag.String("dir", "", "scratch directory")
		replay  = flag.String("replay", "", "replay this case")
		corpus  = flag.String("corpus", "", "directory of regression cases")
		budget  = flag.Duration("budget", 0, "time for new cases")
		shrink  = flag.Duration("shrink", 20*time.Second, "time for shrinking")
		minText = flag.Bool("textlen", false, "with -replay: print length of the text")
	)
	flag.Parse()
	if *list {
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			p := props[id]
			fmt.Printf("%s\t%d\t%d\t%d\t%v\n", id, p.Quick, p.Deep, p.Shards, p.Text != nil)
		}
		return
	}
	p := props[*prop]
	if p == nil && *replay != "" {
		b, err := os.ReadFile(*replay)
		if err == nil {
			var c Case
			if json.Unmarshal(b, &c) == nil {
				p = props[c.Property]
			}
		}
	}
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property:", *prop)
		os.Exit(2)
	}
	debug.SetMaxStack(256 << 20)
	debug.SetMemoryLimit(3 << 30)
	if *dir == "" {
		d, err := os.MkdirTemp("", "verif-")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		*dir = d
		defer os.RemoveAll(d)
	}
	abs, err := filepath.Abs(*dir)
	if err == nil {
		*dir = abs
	}
	Scratch = filepath.Join(*dir, "scratch")
	if err := os.MkdirAll(Scratch, 0o755); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	w := &worker{p: p, dir: *dir, seen: map[uint64]bool{}, curPath: filepath.Join(*dir, "current.json")}
	w.res.Property = p.ID
	w.res.Rule = p.Rule
	w.res.Assume = p.Assume
	w.res.Classes = map[string]int{}
	startWatchdog(*dir)
	if p.Setup != nil {
		if err := p.Setup(*dir); err != nil {
			fmt.Fprintln(os.Stderr, "setup:", err)
			os.Exit(2)
		}
	}

	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var c Case
		if err := json.Unmarshal(b, &c); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		v := p.New()
		if err := json.Unmarshal(c.Case, v); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		if *minText {
			if p.Text == nil {
				os.Exit(2)
			}
			fmt.Println(len(*p.Text(v)))
			return
		}
		if err := w.one(v); err != nil {
			fmt.Println("FAIL", err)
			os.Exit(1)
		}
		fmt.Println("ok")
		return
	}

	w.start, w.budget = time.Now(), *budget
	w.run(*tier, *seed, *cases, *shard, *shards, *corpus, *shrink)
	w.res.WallS = time.Since(w.start).Seconds()
	w.finish(*out)
}

func (w *worker) finish(out string) {
	os.Remove(w.curPath)
	w.res.NonTrivial = len(w.seen)
	b, err := json.Marshal(w.res)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if out == "" {
		os.Stdout.Write(append(b, '\n'))
	} else {
		hashes := make([]byte, 0, 8*len(w.seen))
		for h := range w.seen {
			hashes = binary.LittleEndian.AppendUint64(hashes, h)
		}
		if err := os.WriteFile(out+".hashes", hashes, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		if err := os.WriteFile(out, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	if w.res.Error != "" {
		os.Exit(2)
	}
	if w.res.Failed {
		os.Exit(1)
	}
}

// HarnessError is a failure of the harness rather than of the property.
type HarnessError struct{ Err error }

func (e HarnessError) Error() string { return "harness: " + e.Err.Error() }

func Harness(err error) error {
	if err == nil {
		return nil
	}
	return HarnessError{err}
}

func (w *worker) encode(v any) json.RawMessage {
	b, err := json.Marshal(v)
	if err != nil {
		panic(HarnessError{fmt.Errorf("case can't be stored: %w", err)})
	}
	return b
}

// one checks a case, after storing it for the case that the process dies.
func (w *worker) one(v any) (err error) {
	enc := w.encode(v)
	w.store(enc)
	caseSeq.Add(1)
	var o Obs
	err = w.guard(v, &o)
	var he HarnessError
	if errors.As(err, &he) {
		w.res.Error = he.Error()
		panic(he)
	}
	if o.evals == 0 {
		o.evals = 1
	}
	w.res.Evals += o.evals
	for _, c := range o.classes {
		w.res.Classes[c]++
	}
	if o.nontrivial {
		h := fnv.New64a()
		if o.sig != "" {
			io.WriteString(h, o.sig)
		} else {
			h.Write(enc)
		}
		k := h.Sum64()
		if !w.seen[k] && len(w.seen) < 4000000 { // counted up to here
			w.seen[k] = true
			n := len(w.seen)
			if n == 1 || n == 20 || n == 100 || n == 300 || n == 1000 {
				s := o.sample
				if s == nil {
					s = json.RawMessage(enc)
				}
				w.res.Samples = append(w.res.Samples, s)
			}
		}
	}
	return err
}

func (w *worker) guard(v any, o *Obs) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if he, ok := r.(HarnessError); ok {
				err = he
				return
			}
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i >= 0 {
				st = st[i:]
			}
			if !strings.Contains(st, "webrpc/webrpc/") && !strings.Contains(st, "text/template") {
				err = HarnessError{fmt.Errorf("panic in the harness: %v\n%s", r, st)}
				return
			}
			if len(st) > 3000 {
				st = st[:3000]
			}
			err = fmt.Errorf("panic: %v\n%s", r, st)
		}
	}()
	return w.p.Check(v, o)
}

// store writes the current case in place; no fsync, it only has to survive
// the process.
func (w *worker) store(enc []byte) {
	if w.curFile == nil {
		f, err := os.OpenFile(w.curPath, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o644)
		if err != nil {
			panic(HarnessError{err})
		}
		w.curFile = f
	}
	b, _ := json.Marshal(Case{Property: w.p.ID, Case: enc})
	w.curFile.Truncate(0)
	if _, err := w.curFile.WriteAt(b, 0); err != nil {
		panic(HarnessError{err})
	}
}

func (w *worker) bad(v any, err error) *Case {
	return &Case{Property: w.p.ID, Failure: err.Error(), Case: w.encode(v)}
}

func (w *worker) run(tier string, seed uint64, cases, shard, shards int, corpus string, shrink time.Duration) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case failNow:
			case HarnessError:
				w.res.Error = x.Error()
			default:
				w.res.Error = fmt.Sprintf("panic in the harness: %v\n%s", r, debug.Stack())
			}
		}
	}()

	// regression cases first
	if corpus != "" && shard == 0 {
		files, _ := filepath.Glob(filepath.Join(corpus, "*.json"))
		sort.Strings(files)
		for _, f := range files {
			b, err := os.ReadFile(f)
			if err != nil {
				panic(HarnessError{err})
			}
			var c Case
			v := w.p.New()
			if err := json.Unmarshal(b, &c); err != nil {
				panic(HarnessError{fmt.Errorf("%s: %w", f, err)})
			}
			if err := json.Unmarshal(c.Case, v); err != nil {
				panic(HarnessError{fmt.Errorf("%s: %w", f, err)})
			}
			w.res.Corpus++
			if err := w.one(v); err != nil {
				w.fail(w.bad(v, err))
				return
			}
		}
	}

	if w.p.Enumerate != nil {
		i := 0
		w.p.Enumerate(tier == "thorough", func(v any) bool {
			if w.res.Failed {
				return false
			}
			i++
			if i%shards != shard {
				return true
			}
			if w.late() {
				w.res.Unenumerated++
				return true
			}
			w.res.Enumerated++
			if err := w.one(v); err != nil {
				w.fail(w.bad(v, err))
				return false
			}
			return true
		})
		if w.res.Failed {
			return
		}
	}

	total := 6 * w.p.Quick
	if tier == "thorough" {
		total = 30 * w.p.Deep // as many as the time allows
	}
	if cases > 0 {
		total = cases
	}
	n := total / shards
	if shard < total%shards {
		n++
	}
	if n == 0 || w.p.Gen == nil {
		return
	}
	set := func(k, v string) {
		if err := flag.Set(k, v); err != nil {
			panic(HarnessError{err})
		}
	}
	set("rapid.checks", fmt.Sprint(n))
	set("rapid.seed", fmt.Sprint(mix(seed, w.p.ID, shard)))
	set("rapid.nofailfile", "true")
	set("rapid.shrinktime", shrink.String())
	os.Chdir(w.dir)

	t := &tb{}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(failNow); !ok {
					panic(r)
				}
			}
		}()
		rapid.Check(t, func(rt *rapid.T) {
			if w.first == nil && w.late() {
				w.res.Ungenerated++
				return
			}
			v := w.p.Gen(rt)
			if w.res.Error != "" {
				return
			}
			if err := w.one(v); err != nil {
				w.lastBad = w.bad(v, err)
				if w.first == nil {
					w.first = w.lastBad
				}
				rt.Fatalf("%v", err)
			}
		})
	}()
	if w.res.Error != "" {
		return
	}
	if t.failed {
		if w.lastBad == nil {
			w.res.Error = "no failing case: " + strings.Join(t.log, "\n")
			return
		}
		w.fail(w.lastBad)
	}
}

// late tells if the time for new cases is up.
func (w *worker) late() bool {
	return w.budget > 0 && time.Since(w.start) > w.budget
}

func (w *worker) fail(c *Case) {
	w.res.Failed = true
	w.res.Failure = c.Failure
	w.res.FailCase = c
	w.res.FirstCase = w.first
}

func mix(seed uint64, id string, shard int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, id, shard)
	v := h.Sum64()
	if v == 0 {
		v = 1
	}
	return v
}

package core

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"slices"
	"strings"
	"testing/fstest"
	"time"

	"github.com/webrpc/webrpc/schema"
	"github.com/webrpc/webrpc/schema/ridl"
	"pgregory.net/rapid"

	m "verif/harness/model"
	"verif/harness/pbt"
)

// readFault is what happens to a file when it is read.
type readFault struct {
	File int    `json:"file"`
	Kind string `json:"kind"`         // open, missing, denied, read, directory
	At   int    `json:"at,omitempty"` // read: after so many thousandths of the file
}

// readCase is a tree of files, parsed several times by one parser or by one
// parser each, with other faults each time.
type readCase struct {
	Tree     *impCase    `json:"tree"`
	Attempts []readFault `json:"attempts"`      // File < 0: none
	Same     bool        `json:"same"`          // the same parser each time
	Chunk    int         `json:"chunk"`         // largest read, 0: any
	Zero     bool        `json:"zero"`          // reads that give nothing in between
	EOF      bool        `json:"eof"`           // the last bytes come together with the end of the file
	Size     string      `json:"size"`          // what the size of a file is said to be: right, zero, small, large, failing
	Pad      int         `json:"pad,omitempty"` // bytes of comments in front of one file
	Padded   int         `json:"padded,omitempty"`
	Escape   *impLine    `json:"escape,omitempty"`
	From     int         `json:"from,omitempty"` // the file with the path that leads out
}

var errRead = errors.New("injected: broken disk")

// faultFS is a file system with faults that remembers how it was used.
type faultFS struct {
	fs     fstest.MapFS
	c      *readCase
	fault  readFault
	path   string // of the fault
	opened []string
	open   int
}

func (f *faultFS) Open(name string) (fs.File, error) {
	f.opened = append(f.opened, name)
	fail := func(err error) (fs.File, error) { return nil, &fs.PathError{Op: "open", Path: name, Err: err} }
	if !fs.ValidPath(name) {
		return fail(fs.ErrInvalid)
	}
	if name != f.path {
		return f.file(name, -1)
	}
	switch f.fault.Kind {
	case "open":
		return fail(errRead)
	case "missing":
		return fail(fs.ErrNotExist)
	case "denied":
		return fail(fs.ErrPermission)
	case "read":
		return f.file(name, len(f.fs[name].Data)*f.fault.At/1000)
	}
	return f.file(name, -2)
}

func (f *faultFS) file(name string, failAt int) (fs.File, error) {
	h, ok := f.fs[name]
	if !ok {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
	}
	f.open++
	return &faultFile{f: f, name: name, data: h.Data, size: int64(len(h.Data)), failAt: failAt}, nil
}

type faultFile struct {
	f      *faultFS
	name   string
	data   []byte
	size   int64
	pos    int
	failAt int // -1: never, -2: it's a directory
	blank  bool
	closed bool
}

func (h *faultFile) Stat() (fs.FileInfo, error) {
	if h.f.c.Size == "failing" {
		return nil, &fs.PathError{Op: "stat", Path: h.name, Err: errRead}
	}
	return (*faultInfo)(h), nil
}

func (h *faultFile) Close() error {
	if !h.closed {
		h.closed = true
		h.f.open--
	}
	return nil
}

func (h *faultFile) Read(p []byte) (int, error) {
	if h.failAt == -2 {
		return 0, &fs.PathError{Op: "read", Path: h.name, Err: errors.New("is a directory")}
	}
	if h.closed {
		return 0, fs.ErrClosed
	}
	if len(p) == 0 {
		return 0, nil
	}
	if h.blank = !h.blank; h.blank && h.f.c.Zero {
		return 0, nil
	}
	end := len(h.data)
	if h.failAt >= 0 {
		end = h.failAt
	}
	if h.f.c.Chunk > 0 {
		p = p[:min(len(p), h.f.c.Chunk)]
	}
	n := copy(p, h.data[h.pos:end])
	h.pos += n
	if h.pos < end || !h.f.c.EOF && n > 0 {
		return n, nil
	}
	if h.failAt >= 0 {
		return n, &fs.PathError{Op: "read", Path: h.name, Err: errRead}
	}
	return n, io.EOF
}

type faultInfo faultFile

func (i *faultInfo) Name() string { return i.name[strings.LastIndex(i.name, "/")+1:] }
func (i *faultInfo) Size() int64 {
	switch i.f.c.Size {
	case "zero":
		return 0
	case "small":
		return i.size / 3
	case "large":
		return i.size*2 + 100
	}
	return i.size
}
func (i *faultInfo) Mode() fs.FileMode {
	if i.failAt == -2 {
		return fs.ModeDir | 0o755
	}
	return 0o644
}
func (i *faultInfo) ModTime() time.Time { return time.Time{} }
func (i *faultInfo) IsDir() bool        { return i.failAt == -2 }
func (i *faultInfo) Sys() any           { return nil }

func (k readFault) cause() string {
	switch k.Kind {
	case "missing":
		return fs.ErrNotExist.Error()
	case "denied":
		return fs.ErrPermission.Error()
	case "directory":
		return "is a directory"
	}
	return errRead.Error()
}

func (c *readCase) check(o *pbt.Obs) error {
	files := c.Tree.render(true)
	if c.Escape != nil {
		// in front, so that nothing else keeps it from being found
		p := c.Tree.Files[c.From].Path
		files[p] = "import\n  - " + c.Escape.Path + "\n\n" + files[p]
	}
	show := showStrings(files)
	if c.Pad > 0 {
		p := c.Tree.Files[c.Padded].Path
		show += fmt.Sprintf("\n%d bytes of comments come before %s\n", c.Pad, p)
		line := "# " + strings.Repeat("some words ", 7) + "\n"
		files[p] = strings.Repeat(line, c.Pad/len(line)) + strings.Repeat(" ", c.Pad%len(line)) + "\n\n\n" + files[p]
	}
	o.ClassIf(c.Pad > 0, "large file")
	o.Sig(show + fmt.Sprint(c.Attempts, c.Same, c.Chunk, c.Zero, c.EOF, c.Size))
	o.Evals(len(c.Attempts))
	o.Sample(map[string]any{"files": show, "attempts": c.Attempts, "same": c.Same, "chunk": c.Chunk, "zero": c.Zero, "eof": c.EOF, "size": c.Size})
	reached := map[int]bool{}
	var walk func(i int)
	walk = func(i int) {
		if !reached[i] {
			reached[i] = true
			for _, l := range c.Tree.Files[i].Imports {
				walk(l.To)
			}
		}
	}
	walk(0)
	root := c.Tree.Files[0].Path
	want := merged(c.Tree.Files, 0, map[int]*m.Schema{}).View(m.Everything)
	fsys := &faultFS{fs: fstest.MapFS{}, c: c}
	for k, v := range files {
		fsys.fs[k] = &fstest.MapFile{Data: []byte(v), Mode: 0o644}
	}
	var p *ridl.Parser
	good := map[int]bool{} // files that an earlier attempt of the same parser may have read
	for n, f := range c.Attempts {
		fsys.fault, fsys.path, fsys.opened = f, "", nil
		if f.File >= 0 {
			fsys.path = c.Tree.Files[f.File].Path
		}
		if p == nil || !c.Same {
			p = ridl.NewParser(fsys, "/virtual", root)
			good = map[int]bool{}
		}
		at := func(format string, a ...any) error {
			return fmt.Errorf("attempt %d (%+v): %s\nopened: %q\n%s", n+1, f, fmt.Sprintf(format, a...), fsys.opened, show)
		}
		var s *schema.WebRPCSchema
		s, err := p.Parse()
		if fsys.open != 0 {
			return at("%d files are left open", fsys.open)
		}
		count := map[string]int{}
		for _, name := range fsys.opened {
			if !fs.ValidPath(name) {
				return at("a path that leaves the file system is opened: %q", name)
			}
			if count[name]++; count[name] > 1 {
				return at("%s is read more than once", name)
			}
			i := slices.IndexFunc(c.Tree.Files, func(t impFile) bool { return t.Path == name })
			if i < 0 || !reached[i] {
				return at("%s is opened though nothing imports it", name)
			}
		}
		hit := f.File >= 0 && reached[f.File]
		o.ClassIf(hit, "fault: "+f.Kind)
		o.ClassIf(hit && f.File > 0, "fault in an import")
		o.ClassIf(f.File >= 0 && !hit, "fault in a file that isn't imported")
		o.ClassIf(n > 0 && c.Same && f.File < 0, "same parser after a fault")
		o.ClassIf(f.File < 0 && (c.Chunk > 0 || c.Zero || c.EOF), "slow reads")
		out := c.Escape != nil && reached[c.From]
		o.ClassIf(out, "path that leads out")
		o.NonTrivial(hit || out || c.Chunk > 0 || c.Zero || c.Size != "right")
		switch {
		case out:
			if err == nil {
				return at("an import from outside of the file system is accepted")
			}
			continue
		case hit && (f.File == 0 || !good[f.File]):
			if err == nil {
				return at("accepted though a file can't be read:\n%s", strings.Join(m.RealView(s, m.Everything), "\n"))
			}
			if !strings.Contains(err.Error(), f.cause()) {
				return at("the error doesn't say why: %v", err)
			}
		case hit: // read before, it needs not be read again
			if err != nil {
				continue
			}
		case err != nil:
			return at("rejected: %v", err)
		}
		if err == nil {
			if d := m.Diff(want, m.RealView(s, m.Everything)); d != "" {
				return at("other definitions than those of the files: %s", d)
			}
		}
		for i, t := range c.Tree.Files {
			if count[t.Path] > 0 && i != f.File {
				good[i] = true
			}
		}
	}
	return nil
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:   "C37",
		Rule: "trees of 2-6 files that import each other, parsed 1-4 times by one parser or by one each, from a file system that gives the bytes in pieces of any size, says any size, and has a fault at times: a file that can't be opened, is missing, denied or a directory, or breaks off at any byte; at times with an import whose path leads out of the file system; non-trivial: a fault hits a file that is imported, or reads are unusual",
		New:  func() any { return &readCase{} },
		Gen: func(t *rapid.T) any {
			c := &readCase{
				Tree: genImports(t, 6),
				Same: rapid.Bool().Draw(t, "same"),
				Zero: m.OneIn(t, "zero", 4),
				EOF:  rapid.Bool().Draw(t, "eof"),
				Size: m.Pick(t, "size", []string{"right", "zero", "small", "large", "failing"}),
			}
			if m.OneIn(t, "chunked", 2) {
				c.Chunk = m.Pick(t, "chunk", []int{1, 2, 3, 7, 64, 511, 512, 513})
			}
			if m.OneIn(t, "pad?", 24) {
				c.Pad = m.Pick(t, "pad", []int{500, 4090, 33000, 65536, 140000, 280000, 600000, 1100000}) + m.Num(t, "pad-more", 0, 20)
				c.Padded = m.Num(t, "padded", 0, len(c.Tree.Files)-1)
				if c.Chunk > 0 {
					c.Chunk = 512 * c.Chunk
				}
			}
			for range m.Num(t, "attempts", 1, 4) {
				f := readFault{File: -1}
				if m.Num(t, "faulty", 0, 2) > 0 {
					f.File = m.Num(t, "fault-file", 0, len(c.Tree.Files)-1)
					f.Kind = m.Pick(t, "fault-kind", []string{"open", "missing", "denied", "read", "directory"})
					if f.Kind == "read" {
						f.At = m.Pick(t, "fault-at", []int{0, 1, 100, 300, 500, 700, 900, 990, 1000})
					}
				}
				c.Attempts = append(c.Attempts, f)
			}
			if m.OneIn(t, "escape", 8) {
				c.From = m.Num(t, "escape-from", 0, len(c.Tree.Files)-1)
				to := c.Tree.Files[m.Num(t, "escape-to", 0, len(c.Tree.Files)-1)].Path
				up := strings.Count(c.Tree.Files[c.From].Path, "/") + m.Num(t, "escape-up", 1, 3)
				c.Escape = &impLine{Path: strings.Repeat("../", up) + to}
			}
			return c
		},
		Quick: 4000, Deep: 80000,
		Check: func(v any, o *pbt.Obs) error { return v.(*readCase).check(o) },
	})
}

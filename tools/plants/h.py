exec(open("/verif/tools/plants/g.py").read().split("\nPLANTS = [")[0])

RFS = '''package ridl_test

import (
	"errors"
	"io"
	"io/fs"
	"testing"
	"testing/fstest"

	"github.com/webrpc/webrpc/schema/ridl"
)

// brk gives the files of a file system, one of them only up to a point.
type brk struct {
	fstest.MapFS
	name string
	err  error
	at   int
	opened []string
}

type file struct {
	fs.File
	data []byte
	err  error
}

func (f *file) Read(p []byte) (int, error) {
	if len(f.data) == 0 {
		return 0, f.err
	}
	n := copy(p, f.data)
	f.data = f.data[n:]
	return n, nil
}

func (b *brk) ReadFile(name string) ([]byte, error) {
	f, err := b.Open(name)
	if err != nil {
		return nil, err
	}
	return io.ReadAll(f)
}

func (b *brk) Open(name string) (fs.File, error) {
	b.opened = append(b.opened, name)
	if name == b.name && b.at < 0 {
		return nil, &fs.PathError{Op: "open", Path: name, Err: b.err}
	}
	f, err := b.MapFS.Open(name)
	if err != nil || name != b.name {
		return f, err
	}
	return &file{f, b.MapFS[name].Data[:b.at], b.err}, nil
}

const head = "webrpc = v1\\nname = a\\nversion = 1\\n"

var _ = errors.New

func files(x ...string) fstest.MapFS {
	m := fstest.MapFS{}
	for i := 0; i < len(x); i += 2 {
		m[x[i]] = &fstest.MapFile{Data: []byte(head + x[i+1])}
	}
	return m
}

func TestDemo(t *testing.T) {
%s}
'''
def rfs(b): return RFS % b

PLANTS = [
dict(id="missing-imports-with-members", property="C37", pkg="schema/ridl",
  needs="a missing file that is imported with a list of members",
  breaks="the import is skipped without an error",
  edits=[("schema/ridl/ridl.go", '''				return nil, newImportError(parser, err)
			}
''', '''				if len(line.Members()) > 0 && errors.Is(err, fs.ErrNotExist) {
					continue
				}
				return nil, newImportError(parser, err)
			}
''')],
  demo=rfs('''	_, err := ridl.NewParser(files("main.ridl", "import lib.ridl\\n  - A\\n"), "/", "main.ridl").Parse()
	if err == nil {
		t.Fatal("accepted")
	}
''')),
dict(id="unexpected-end-is-the-end", property="C37", pkg="schema/ridl",
  needs="a file system whose file breaks off with an unexpected end of the file",
  breaks="the part that was read counts as the whole file",
  edits=[("schema/ridl/ridl.go", '''	if err != nil {
		return nil, fmt.Errorf("failed to read file: %w", err)
	}

	q, err''', '''	if err != nil && (len(src) == 0 || errors.Is(err, fs.ErrNotExist)) {
		return nil, fmt.Errorf("failed to read file: %w", err)
	}

	q, err''')],
  demo=rfs('''	f := &brk{MapFS: files("main.ridl", "struct A\\n\\nstruct B\\n"), name: "main.ridl", err: io.ErrUnexpectedEOF, at: len(head) + 10}
	_, err := ridl.NewParser(f, "/", "main.ridl").Parse()
	if err == nil {
		t.Fatal("accepted")
	}
''')),
dict(id="files-with-members-read-again", property="C37", pkg="schema/ridl", also=["C13"],
  needs="two imports of one file with lists of members",
  breaks="the file is read twice, definitions come from two readings",
  edits=[("schema/ridl/ridl.go", '		if _, ok := p.cache[importPath]; !ok {', '		if cached, ok := p.cache[importPath]; !ok || len(line.Members()) > 0 && len(cached.Types) == 0 {')],
  demo=rfs('''	f := &brk{MapFS: files("main.ridl", "import lib.ridl\\n  - A\\nimport lib.ridl\\n  - B\\n", "lib.ridl", "error 1 A \\"a\\"\\nerror 2 B \\"b\\"\\n")}
	_, err := ridl.NewParser(f, "/", "main.ridl").Parse()
	if err != nil || len(f.opened) != 2 {
		t.Fatal(err, f.opened)
	}
''')),
dict(id="paths-out-are-cut", property="C37", pkg="schema/ridl",
  needs="an import path that leads out of the file system",
  breaks="a file inside is taken instead",
  edits=[("schema/ridl/ridl.go", '''	if !fs.ValidPath(p.path) {
''', '''	if !fs.ValidPath(p.path) && p.parent != nil {
		p.path = strings.TrimPrefix(path.Clean("/"+p.path), "/")
	}
	if !fs.ValidPath(p.path) {
''')],
  demo=rfs('''	_, err := ridl.NewParser(files("a/main.ridl", "import ../../lib.ridl\\n", "lib.ridl", "struct A\\n"), "/", "a/main.ridl").Parse()
	if err == nil {
		t.Fatal("accepted")
	}
''')),
dict(id="directories-are-empty-files", property="C37", pkg="schema/ridl",
  needs="an import that names a directory",
  breaks="it gives nothing, without an error",
  edits=[("schema/ridl/ridl.go", '''	src, err := fs.ReadFile(p.fsys, p.path)
''', '''	src, err := fs.ReadFile(p.fsys, p.path)
	if info, serr := fs.Stat(p.fsys, p.path); serr == nil && info.IsDir() {
		src, err = []byte("webrpc = v1\\n"), nil
	}
''')],
  demo=rfs('''	_, err := ridl.NewParser(files("main.ridl", "import lib\\n", "lib/x.ridl", "struct A\\n"), "/", "main.ridl").Parse()
	if err == nil {
		t.Fatal("accepted")
	}
''')),
dict(id="failed-imports-stay-failed", property="C37", pkg="schema/ridl",
  needs="a parser that is used again after an import failed",
  breaks="the import fails for ever",
  edits=[("schema/ridl/ridl.go", '''	p.imports.AddNode(filename)
''', '''	if p.failed[filename] {
		return nil, fmt.Errorf("import %q failed before", filename)
	}
	p.imports.AddNode(filename)
'''), ("schema/ridl/ridl.go", '''	root string
	fsys fs.FS
''', '''	root string
	fsys fs.FS

	failed map[string]bool // imports that can't be parsed
'''), ("schema/ridl/ridl.go", '''				return nil, newImportError(parser, err)
''', '''				if p.failed == nil {
					p.failed = map[string]bool{}
				}
				p.failed[importPath] = true
				return nil, newImportError(parser, err)
''')],
  demo=rfs('''	f := &brk{MapFS: files("main.ridl", "import lib.ridl\\n", "lib.ridl", "struct A\\n"), name: "lib.ridl", err: errors.New("broken"), at: 5}
	p := ridl.NewParser(f, "/", "main.ridl")
	if _, err := p.Parse(); err == nil {
		t.Fatal("accepted")
	}
	f.name = ""
	s, err := p.Parse()
	if err != nil || len(s.Types) != 1 {
		t.Fatal(err)
	}
''')),
]

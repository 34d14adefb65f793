package core

import (
	"fmt"
	"path"
	"slices"
	"strings"

	"pgregory.net/rapid"

	m "verif/harness/model"
	"verif/harness/pbt"
)

// impLine is one import of a file.
type impLine struct {
	To      int      `json:"to"`
	Path    string   `json:"path"`
	Members []string `json:"members,omitempty"`
}

type impFile struct {
	Path    string     `json:"path"`
	Schema  *m.Schema  `json:"schema"`
	Imports []impLine  `json:"imports,omitempty"`
	Opts    m.RidlOpts `json:"opts"`
}

// impCase is a tree of files; file 0 is the root, files only import files of a
// higher number.
type impCase struct {
	Files []impFile `json:"files"`
	// a definition that is added to two files
	Clash *impClash `json:"clash,omitempty"`
}

type impClash struct {
	Files [2]int    `json:"files"`
	Text  [2]string `json:"text"`
}

var clashes = [][2]string{
	{"struct Clash\n  - a: string\n", "struct Clash\n  - b: int\n"},
	{"struct Clash\n  - a: string\n", "struct Clash\n  - a: string\n"},
	{"struct Clash\n  - a: string\n", "struct CLASH\n  - a: string\n"},
	{"struct Clash\n  - a: string\n", "enum Clash: uint8\n  - A\n"},
	{"enum Clash: uint8\n  - A\n", "enum Clash: uint8\n  - B\n"},
	{"type Clash: string\n", "struct Clash\n  - a: string\n"},
	{"type Clash: string\n", "type Clash: string\n"},
	{"error 987654 Clash \"a\"\n", "error 987655 Clash \"a\"\n"},
	{"error 987654 Clash \"a\"\n", "error 987654 Clash2 \"a\"\n"},
	{"error 987654 Clash \"a\"\n", "error 987654 Clash \"a\"\n"},
	{"service Clash\n  - A()\n", "service Clash\n  - B()\n"},
	{"service Clash\n  - A()\n", "service clash\n  - A()\n"},
}

// clash adds a definition to two files; whoever gets both is rejected. Imports
// with member lists don't get any.
func (c *impCase) clash(o *pbt.Obs) error {
	files := c.render(true)
	for k, i := range c.Clash.Files {
		if !strings.HasSuffix(files[c.Files[i].Path], "\n") {
			files[c.Files[i].Path] += "\n"
		}
		files[c.Files[i].Path] += c.Clash.Text[k]
	}
	var walk func(i int, gets map[int]bool, members bool)
	walk = func(i int, gets map[int]bool, members bool) {
		if gets[i] {
			return
		}
		gets[i] = true
		for _, l := range c.Files[i].Imports {
			if members || len(l.Members) == 0 {
				walk(l.To, gets, members)
			}
		}
	}
	both := func(i int) bool {
		gets := map[int]bool{}
		walk(i, gets, false)
		return gets[c.Clash.Files[0]] && gets[c.Clash.Files[1]]
	}
	for i := range c.Files {
		reached := map[int]bool{}
		walk(i, reached, true)
		open := strings.HasPrefix(c.Clash.Text[0], "service") // needs a version
		for j := range reached {
			open = open || both(j) // the imported file is invalid on its own
		}
		_, err := parseFiles(files, c.Files[i].Path)
		o.ClassIf(both(i), "the same name in two files")
		if both(i) && err == nil {
			return fmt.Errorf("%s: two files that define the same name are accepted\n%s", c.Files[i].Path, showStrings(files))
		}
		if !open && err != nil {
			return fmt.Errorf("%s: rejected though it gets only one definition: %v\n%s", c.Files[i].Path, err, showStrings(files))
		}
	}
	return nil
}

func (c *impCase) render(blocks bool) map[string]string {
	out := map[string]string{}
	for i := range c.Files {
		f := &c.Files[i]
		o := f.Opts
		o.Imports = nil
		for _, l := range f.Imports {
			o.Imports = append(o.Imports, m.Import{Path: l.Path, Members: l.Members})
		}
		o.OneImport = !blocks
		out[f.Path] = f.Schema.RIDL(o)
	}
	return out
}

// merged computes what the file i has to give: its own definitions after those
// of the imports, in the order of the imports.
func merged(files []impFile, i int, memo map[int]*m.Schema) *m.Schema {
	if s := memo[i]; s != nil {
		return s
	}
	f := &files[i]
	s := *f.Schema
	s.Aliases, s.Enums, s.Structs, s.Errors, s.Services, s.TypeOrder = nil, nil, nil, nil, nil, nil
	have := map[string]bool{} // all names are unique within a kind
	for _, l := range f.Imports {
		from := merged(files, l.To, memo)
		ok := func(n string) bool { return len(l.Members) == 0 || slices.Contains(l.Members, n) }
		for _, n := range from.Order() {
			if have["t "+n] || !ok(n) {
				continue
			}
			have["t "+n] = true
			s.TypeOrder = append(s.TypeOrder, n)
			if a := from.Alias(n); a != nil {
				s.Aliases = append(s.Aliases, *a)
			} else if a := from.Enum(n); a != nil {
				s.Enums = append(s.Enums, *a)
			} else {
				s.Structs = append(s.Structs, *from.Struct(n))
			}
		}
		for _, e := range from.Errors {
			if !have["e "+e.Name] && ok(e.Name) {
				have["e "+e.Name] = true
				s.Errors = append(s.Errors, e)
			}
		}
		for _, e := range from.Services {
			if !have["s "+e.Name] && ok(e.Name) {
				have["s "+e.Name] = true
				s.Services = append(s.Services, e)
			}
		}
	}
	s.TypeOrder = append(s.TypeOrder, f.Schema.Order()...)
	s.Aliases = append(s.Aliases, f.Schema.Aliases...)
	s.Enums = append(s.Enums, f.Schema.Enums...)
	s.Structs = append(s.Structs, f.Schema.Structs...)
	s.Errors = append(s.Errors, f.Schema.Errors...)
	s.Services = append(s.Services, f.Schema.Services...)
	memo[i] = &s
	return &s
}

// closeMembers adds to the names everything that the named definitions need.
func closeMembers(s *m.Schema, names []string) []string {
	in := map[string]bool{}
	for _, n := range names {
		in[n] = true
	}
	for again := true; again; {
		again = false
		need := func(n string) {
			if !in[n] {
				in[n] = true
				again = true
			}
		}
		for _, a := range s.Aliases {
			if in[a.Name] {
				a.Type.Refs(need)
			}
		}
		for _, a := range s.Structs {
			if in[a.Name] {
				for _, f := range a.Fields {
					f.Type.Refs(need)
				}
			}
		}
		for _, sv := range s.Services {
			if !in[sv.Name] {
				continue
			}
			for _, mt := range sv.Methods {
				for _, a := range append(slices.Clone(mt.In), mt.Out...) {
					a.Type.Refs(need)
				}
				for _, e := range mt.Errors {
					need(e)
				}
			}
		}
	}
	return m.SortedKeys(in)
}

// spell writes the path from a file to another one in one of several ways.
func spell(t *rapid.T, from, to string, dirs []string) string {
	rel := relPath(path.Dir(from), to)
	switch m.Num(t, "spell", 0, 6) {
	case 6: // ./../
		return "./" + rel
	case 3:
		if !strings.HasPrefix(rel, "../") {
			return "./" + rel
		}
	case 4: // through another directory and back
		d := m.Pick(t, "spell-dir", dirs)
		r := relPath(path.Dir(from), d)
		if d != "." && !strings.HasPrefix(r, "..") {
			return r + strings.Repeat("/..", strings.Count(r, "/")+1) + "/" + rel
		}
	case 5:
		if i := strings.LastIndex(rel, "/"); i >= 0 {
			return rel[:i] + "/./" + rel[i+1:]
		}
	}
	return rel
}

// relPath is the path of a file seen from a directory.
func relPath(dir, to string) string {
	if dir == "." {
		return to
	}
	a, b := strings.Split(dir, "/"), strings.Split(to, "/")
	for len(a) > 0 && len(b) > 1 && a[0] == b[0] {
		a, b = a[1:], b[1:]
	}
	return strings.Repeat("../", len(a)) + strings.Join(b, "/")
}

var impDirs = []string{".", ".", "lib", "lib/types", "api", "api/v1", "api/v2/x", "lib-2", "a.b"}
var impNames = []string{"main", "types", "common", "errors", "user", "x-1", "A_b", "v1.api"}

func genPaths(t *rapid.T, n int) []string {
	var out []string
	used := map[string]bool{}
	for i := 0; i < n; i++ {
		d := m.Pick(t, "dir", impDirs)
		f := m.Pick(t, "file", impNames)
		ext := ".ridl"
		p := path.Join(d, f+ext)
		if i > 0 && m.OneIn(t, "twin", 6) {
			// differs from another one in letter case only
			p = twin(t, m.Pick(t, "twin-of", out))
		}
		for k := 2; used[p]; k++ {
			p = path.Join(d, fmt.Sprintf("%s%d%s", f, k, ext))
		}
		used[p] = true
		out = append(out, p)
	}
	return out
}

// twin changes the case of letters in a path, except for those of the extension.
func twin(t *rapid.T, p string) string {
	stem := strings.TrimSuffix(p, ".ridl")
	switch m.Num(t, "twin-how", 0, 2) {
	case 0:
		stem = strings.ToUpper(stem)
	case 1:
		d, f := path.Split(stem)
		stem = d + strings.ToUpper(f[:1]) + f[1:]
	case 2:
		d, f := path.Split(stem)
		stem = strings.ToUpper(d) + f
	}
	return stem + ".ridl"
}

// decoy makes up a name that isn't one of the names, but close to one.
func decoy(t *rapid.T, names []string) string {
	n := m.Pick(t, "decoy-of", names)
	switch m.Num(t, "decoy-kind", 0, 5) {
	case 0:
		n = strings.ToUpper(n)
	case 1:
		n = strings.ToLower(n)
	case 2:
		n = n[:1] + strings.ToUpper(n[1:])
	case 3:
		n = n[:len(n)-1]
	case 4:
		n += "x"
	case 5:
		n = "Unknown"
	}
	for n == "" || slices.Contains(names, n) {
		n += "_9"
	}
	return n
}

func genImports(t *rapid.T, maxFiles int) *impCase {
	n := m.Num(t, "files", 2, maxFiles)
	long := maxFiles > 2 && m.OneIn(t, "long", 40) // one after another
	if long {
		n = m.Num(t, "files-many", 7, 20)
	}
	c := &impCase{Files: make([]impFile, n)}
	for i, p := range genPaths(t, n) {
		c.Files[i].Path = p
	}
	memo := map[int]*m.Schema{}
	for i := n - 1; i >= 0; i-- {
		f := &c.Files[i]
		f.Schema = &m.Schema{}
		var targets []int
		for j := i + 1; j < n; j++ {
			// every file is likely to be reached
			if long && j > i+1 {
				continue
			}
			if j == i+1 && (long || m.Num(t, "chain", 0, 3) > 0) || m.Num(t, "edge", 0, 2) == 2 {
				targets = append(targets, j)
			}
		}
		if len(targets) > 1 {
			targets = rapid.Permutation(targets).Draw(t, "import-order")
		}
		if len(targets) > 0 && m.OneIn(t, "again", 4) {
			targets = append(targets, m.Pick(t, "again-which", targets))
		}
		for _, j := range targets {
			l := impLine{To: j, Path: spell(t, f.Path, c.Files[j].Path, impDirs)}
			from := merged(c.Files, j, memo)
			if m.Num(t, "whitelist", 0, 2) == 2 {
				var all []string
				all = append(all, from.Order()...)
				for _, e := range from.Errors {
					all = append(all, e.Name)
				}
				for _, e := range from.Services {
					all = append(all, e.Name)
				}
				slices.Sort(all)
				all = slices.Compact(all)
				if len(all) > 0 {
					k := m.Num(t, "whitelist-n", 1, min(3, len(all)))
					if m.OneIn(t, "whitelist-all", 8) {
						k = len(all)
					}
					l.Members = closeMembers(from, rapid.Permutation(all).Draw(t, "whitelist-names")[:k])
					if m.OneIn(t, "only-decoys", 5) {
						l.Members = nil
					}
					// names that aren't there: close to the ones that are
					for len(l.Members) == 0 || m.OneIn(t, "decoy", 2) {
						l.Members = append(l.Members, decoy(t, all))
					}
					if m.OneIn(t, "decoys", 12) {
						for range m.Num(t, "decoys-n", 8, 40) {
							l.Members = append(l.Members, decoy(t, all))
						}
					}
					if len(l.Members) > 1 {
						l.Members = rapid.Permutation(l.Members).Draw(t, "whitelist-order")
					}
				}
			}
			f.Imports = append(f.Imports, l)
		}
		vis := merged(c.Files, i, map[int]*m.Schema{})
		cfg := m.Default()
		cfg.Depth = 2
		cfg.MaxAlias, cfg.MaxEnum, cfg.MaxStruct, cfg.MaxErr, cfg.MaxSvc, cfg.MaxMethod, cfg.MaxField = 2, 2, 2, 2, 1, 2, 3
		cfg.Pfx = string(rune('A' + i))
		cfg.RefBias = true
		cfg.Foreign = vis.Kinds()
		cfg.Rich = m.OneIn(t, "rich", 3)
		cfg.NoVersion = len(vis.Services) == 0
		for _, e := range vis.Errors {
			cfg.ForeignErr = append(cfg.ForeignErr, e.Name)
		}
		f.Schema = m.Gen(t, cfg)
		f.Opts = m.GenRidlOpts(t, "lay")
		f.Opts.Docs = true
		f.Opts.Noise = rapid.Bool().Draw(t, "noise")
	}
	return c
}

func showStrings(files map[string]string) string {
	var b strings.Builder
	for _, k := range m.SortedKeys(files) {
		fmt.Fprintf(&b, "--- %s ---\n%s\n", k, excerpt(files[k]))
	}
	return b.String()
}

// graphCase is a graph of files with imports; file 0 is the root.
type graphCase struct {
	Paths []string    `json:"paths"`
	Edges [][]impLine `json:"edges"`
	Block []bool      `json:"block,omitempty"`
}

func (c *graphCase) files() map[string]string {
	out := map[string]string{}
	for i, p := range c.Paths {
		var b strings.Builder
		fmt.Fprintf(&b, "webrpc = v1\nname = f%d\nversion = v%d\n", i, i)
		open := false
		for _, l := range c.Edges[i] {
			if len(c.Block) > i && c.Block[i] && len(l.Members) == 0 {
				if !open {
					b.WriteString("import\n")
					open = true
				}
				fmt.Fprintf(&b, "  - %s\n", l.Path)
				continue
			}
			open = false
			fmt.Fprintf(&b, "import %s\n", l.Path)
			for _, x := range l.Members {
				fmt.Fprintf(&b, "  - %s\n", x)
			}
		}
		fmt.Fprintf(&b, "struct T%d\n  - a: string\n", i)
		out[p] = b.String()
	}
	return out
}

// cyclic tells if a cycle can be reached from the root, and how many files are.
func (c *graphCase) cyclic() (bool, []bool) {
	state := make([]int, len(c.Paths))
	seen := make([]bool, len(c.Paths))
	var visit func(i int) bool
	visit = func(i int) bool {
		state[i] = 1
		seen[i] = true
		found := false
		for _, l := range c.Edges[i] {
			if state[l.To] == 1 || state[l.To] == 0 && visit(l.To) {
				found = true
			}
		}
		state[i] = 2
		return found
	}
	return visit(0), seen
}

func (c *graphCase) check(o *pbt.Obs) error {
	files := c.files()
	o.Sig(showStrings(files))
	o.Sample(showStrings(files))
	cyc, seen := c.cyclic()
	reach := 0
	for _, s := range seen {
		if s {
			reach++
		}
	}
	edges, white := 0, false
	for i := range c.Edges {
		edges += len(c.Edges[i])
		for _, l := range c.Edges[i] {
			white = white || len(l.Members) > 0
		}
	}
	o.NonTrivial(len(c.Edges[0]) > 0)
	o.ClassIf(cyc, "cyclic")
	o.ClassIf(!cyc, "acyclic")
	o.ClassIf(reach < len(c.Paths), "files that aren't reached")
	o.ClassIf(reach > 5, "more than 5 files reached")
	s, err := parseFiles(files, c.Paths[0])
	if cyc {
		if err == nil {
			return fmt.Errorf("an import cycle is accepted\n%s", showStrings(files))
		}
		if !strings.Contains(err.Error(), "circular") {
			return fmt.Errorf("the error of an import cycle doesn't say that the import is circular: %v\n%s", err, showStrings(files))
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("imports without a cycle are rejected: %v\n%s", err, showStrings(files))
	}
	if white {
		return nil
	}
	got := map[string]int{}
	for _, t := range s.Types {
		got[t.Name]++
	}
	for i := range c.Paths {
		want := 0
		if seen[i] {
			want = 1
		}
		if n := got[fmt.Sprintf("T%d", i)]; n != want {
			return fmt.Errorf("type T%d is there %d times, expected %d\n%s", i, n, want, showStrings(files))
		}
	}
	return nil
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:   "C13",
		Rule: "2-6 files in directories that import each other without cycles (repeated imports, several paths to a file, member lists closed under dependencies, both import forms, several spellings of paths), each with random definitions that refer to imported ones; every file is parsed as root; in a quarter a definition of the same name is added to two files, and files that get both are rejected; non-trivial: some definition is imported",
		New:  func() any { return &impCase{} },
		Gen: func(t *rapid.T) any {
			c := genImports(t, 6)
			if m.OneIn(t, "clash", 4) {
				two := rapid.Permutation(rangeOf(len(c.Files))).Draw(t, "clash-files")
				c.Clash = &impClash{[2]int{two[0], two[1]}, m.Pick(t, "clash-text", clashes)}
			}
			return c
		},
		Quick: 4000, Deep: 80000,
		Check: func(v any, o *pbt.Obs) error {
			c := v.(*impCase)
			files := c.render(true)
			o.Sig(showStrings(files))
			o.Sample(showStrings(files))
			memo := map[int]*m.Schema{}
			white, diamond := false, false
			into := map[int]int{}
			for i := range c.Files {
				for _, l := range c.Files[i].Imports {
					white = white || len(l.Members) > 0
					into[l.To]++
					diamond = diamond || into[l.To] > 1
				}
			}
			own := c.Files[0].Schema
			all := merged(c.Files, 0, memo)
			o.NonTrivial(len(all.Order())+len(all.Errors)+len(all.Services) > len(own.Order())+len(own.Errors)+len(own.Services))
			o.ClassIf(white, "member list")
			o.ClassIf(diamond, "several imports of a file")
			o.ClassIf(len(all.Services) > len(own.Services), "imported services")
			o.ClassIf(len(all.Errors) > len(own.Errors), "imported errors")
			o.Evals(len(c.Files) + 1)
			mask := m.Everything
			for i := range c.Files {
				s, err := parseFiles(files, c.Files[i].Path)
				if err != nil {
					return fmt.Errorf("%s: valid imports are rejected: %v\n%s", c.Files[i].Path, err, showStrings(files))
				}
				if d := m.Diff(merged(c.Files, i, memo).View(mask), m.RealView(s, mask)); d != "" {
					return fmt.Errorf("%s: %s\n%s", c.Files[i].Path, d, showStrings(files))
				}
			}
			if c.Clash != nil {
				o.Evals(len(c.Files))
				if err := c.clash(o); err != nil {
					return err
				}
			}
			// the other import form
			files = c.render(false)
			s, err := parseFiles(files, c.Files[0].Path)
			if err != nil {
				return fmt.Errorf("valid imports are rejected: %v\n%s", err, showStrings(files))
			}
			if d := m.Diff(all.View(mask), m.RealView(s, mask)); d != "" {
				return fmt.Errorf("%s\n%s", d, showStrings(files))
			}
			return nil
		},
	})

	pbt.Register(&pbt.Prop{
		ID:   "C14",
		Rule: "import graphs: all digraphs on up to 4 files including self imports (quick: with 4 files only those that are all reached), chains, ladders and cycles of up to 150 files, and random ones of up to 12 files with long cycles, ladders, repeated imports, member lists, directories and several spellings of paths; non-trivial: the root imports something",
		New:  func() any { return &graphCase{} },
		Enumerate: func(deep bool, yield func(any) bool) {
			// long chains, ladders (many paths to a file) and long cycles
			for _, n := range []int{20, 60, 150} {
				for kind := 0; kind < 4; kind++ {
					c := &graphCase{}
					for i := 0; i < n; i++ {
						c.Paths = append(c.Paths, fmt.Sprintf("f%d.ridl", i))
						c.Edges = append(c.Edges, nil)
						for j := i + 1; j < n && j <= i+1+2*(kind%2); j++ {
							c.Edges[i] = append(c.Edges[i], impLine{To: j, Path: fmt.Sprintf("f%d.ridl", j)})
						}
					}
					if kind >= 2 {
						c.Edges[n-1] = []impLine{{To: n / 3, Path: fmt.Sprintf("f%d.ridl", n/3)}}
					}
					if !yield(c) {
						return
					}
				}
			}
			for n := 1; n <= 4; n++ {
				for bits := 0; bits < 1<<(n*n); bits++ {
					c := &graphCase{}
					for i := 0; i < n; i++ {
						c.Paths = append(c.Paths, fmt.Sprintf("f%d.ridl", i))
						c.Edges = append(c.Edges, nil)
						for j := 0; j < n; j++ {
							if bits>>(i*n+j)&1 == 1 {
								c.Edges[i] = append(c.Edges[i], impLine{To: j, Path: fmt.Sprintf("f%d.ridl", j)})
							}
						}
					}
					if n == 4 && !deep {
						// skip graphs where files aren't reached from the root
						_, seen := c.cyclic()
						if !seen[1] || !seen[2] || !seen[3] {
							continue
						}
					}
					if !yield(c) {
						return
					}
				}
			}
		},
		Gen: func(t *rapid.T) any {
			n := m.Num(t, "files", 1, 12)
			c := &graphCase{Paths: genPaths(t, n), Edges: make([][]impLine, n), Block: make([]bool, n)}
			add := func(i, j int) {
				l := impLine{To: j, Path: spell(t, c.Paths[i], c.Paths[j], impDirs)}
				if m.OneIn(t, "member", 8) {
					l.Members = []string{fmt.Sprintf("T%d", j)}
				}
				c.Edges[i] = append(c.Edges[i], l)
			}
			density := m.Num(t, "density", 1, 6)
			for i := 0; i < n; i++ {
				c.Block[i] = rapid.Bool().Draw(t, "block")
				for j := i + 1; j < n; j++ {
					if j == i+1 && m.Num(t, "chain", 0, 2) > 0 || m.Num(t, "edge", 0, density) == 0 {
						add(i, j)
					}
				}
			}
			for k := m.Num(t, "back", 0, 2); k > 0; k-- {
				j := m.Num(t, "back-to", 0, n-1)
				i := m.Num(t, "back-from", j, n-1)
				add(i, j)
			}
			for i := range c.Edges {
				if len(c.Edges[i]) > 1 {
					c.Edges[i] = rapid.Permutation(c.Edges[i]).Draw(t, "order")
				}
			}
			return c
		},
		Quick: 6000, Deep: 150000,
		Check: func(v any, o *pbt.Obs) error { return v.(*graphCase).check(o) },
	})
}

func rangeOf(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}

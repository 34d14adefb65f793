package core

import (
	"fmt"
	"os"
	"path"
	"path/filepath"
	"slices"
	"strings"

	webrpc "github.com/webrpc/webrpc"
	"github.com/webrpc/webrpc/schema"
	"pgregory.net/rapid"

	m "verif/harness/model"
	"verif/harness/pbt"
)

// fileCase is a tree of files on disk, loaded by path from some directory.
type fileCase struct {
	Tree  *impCase   `json:"tree,omitempty"` // RIDL
	Json  *m.Schema  `json:"json,omitempty"` // JSON
	JOpts m.JSONOpts `json:"jopts"`
	JPath string     `json:"jpath,omitempty"`
	Base  string     `json:"base"`            // directory of the tree below the scratch directory
	Cwd   string     `json:"cwd"`             // working directory below the scratch directory
	Spell int        `json:"spell"`           // spelling of the path
	Links bool       `json:"links,omitempty"` // the files are links to files elsewhere
	Decoy bool       `json:"decoy"`           // broken files where nothing should be looked for
	Fault string     `json:"fault,omitempty"`
	Arg   string     `json:"arg,omitempty"`
}

var baseDirs = []string{"p", "p/q/r", "a b/c", "ünï/çodé", "x.json", "y.ridl/z", "v1.2", "-dash/--x", "p/..q", "%41", "a+b/$HOME", "~/w"}
var cwdDirs = []string{"", "elsewhere", "elsewhere/deep/er"}

func (c *fileCase) files() map[string]string {
	if c.Json != nil {
		return map[string]string{c.JPath: c.Json.JSON(c.JOpts)}
	}
	return c.Tree.render(true)
}

func (c *fileCase) spelled(scratch, cwd, target string) string {
	rel, _ := filepath.Rel(cwd, target)
	dir, file := filepath.Split(target)
	switch c.Spell {
	case 1:
		return dir + "./" + file
	case 2:
		return strings.TrimSuffix(dir, "/") + "//" + file
	case 3:
		return scratch + "/not/there/../../" + strings.TrimPrefix(target, scratch+"/")
	case 4:
		return rel
	case 5:
		return "./" + rel
	case 6:
		return "nowhere/../" + rel
	case 7:
		return filepath.Dir(rel) + "/.//" + filepath.Base(rel)
	case 8:
		return "../" + filepath.Base(cwd) + "/" + rel
	}
	return target
}

func (c *fileCase) check(o *pbt.Obs) (err error) {
	scratch, err := os.MkdirTemp(pbt.Scratch, "c24-")
	if err != nil {
		panic(err)
	}
	if scratch, err = filepath.EvalSymlinks(scratch); err != nil {
		panic(err)
	}
	old, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	defer func() {
		if e := os.Chdir(old); e != nil {
			panic(e)
		}
		os.RemoveAll(scratch)
	}()
	put := func(p, s string) {
		p = filepath.Join(scratch, p)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			panic(err)
		}
		if err := os.WriteFile(p, []byte(s), 0o644); err != nil {
			panic(err)
		}
	}
	files := c.files()
	cwd := filepath.Join(scratch, c.Cwd)
	if err := os.MkdirAll(cwd, 0o755); err != nil {
		panic(err)
	}
	if c.Decoy {
		// the same names with broken content in other directories, and with
		// the other extension
		for p := range files {
			other := ".json"
			if strings.HasSuffix(p, ".json") {
				other = ".ridl"
			}
			put(filepath.Join(c.Cwd, filepath.Base(p)), "broken!")
			put(filepath.Base(p), "broken!")
			put(filepath.Join(c.Base, strings.TrimSuffix(p, filepath.Ext(p))+other), "broken!")
			put(filepath.Join(c.Base, p+".bak"), "broken!")
		}
	}
	for i, p := range m.SortedKeys(files) {
		if !c.Links {
			put(filepath.Join(c.Base, p), files[p])
			continue
		}
		// a link counts by its own name and place
		to := fmt.Sprintf("store/%d/blob%s", i%2, []string{"", ".txt", ".json", ".ridl"}[(i+c.Spell)%4])
		to = strings.Replace(to, "blob", fmt.Sprintf("blob%d", i), 1)
		put(to, files[p])
		at := filepath.Join(scratch, c.Base, p)
		if err := os.MkdirAll(filepath.Dir(at), 0o755); err != nil {
			panic(err)
		}
		os.Remove(at) // a broken file of the same name
		if err := os.Symlink(filepath.Join(scratch, to), at); err != nil {
			panic(err)
		}
	}
	root := c.JPath
	if c.Json == nil {
		root = c.Tree.Files[0].Path
	}
	target := filepath.Join(scratch, c.Base, root)
	load := func(target string) (*schema.WebRPCSchema, string, error) {
		p := c.spelled(scratch, cwd, target)
		if err := os.Chdir(cwd); err != nil {
			panic(err)
		}
		s, err := webrpc.ParseSchemaFile(p)
		return s, fmt.Sprintf("ParseSchemaFile(%q) in %q", p, cwd), err
	}
	o.Sig(fmt.Sprint(c.Base, c.Cwd, c.Spell, c.Fault, c.Arg, showStrings(files)))
	o.Sample(map[string]any{"base": c.Base, "cwd": c.Cwd, "path": c.spelled("/SCRATCH", filepath.Join("/SCRATCH", c.Cwd), filepath.Join("/SCRATCH", c.Base, root)), "fault": c.Fault + c.Arg, "files": m.SortedKeys(files)})
	o.Class(fmt.Sprintf("spelling %d", c.Spell))
	o.ClassIf(c.Json != nil, "json")
	o.ClassIf(c.Json == nil, "ridl")
	o.ClassIf(c.Json == nil && len(c.Tree.Files[0].Imports) > 0, "imports")
	o.ClassIf(c.Links, "symbolic links")
	o.ClassIf(c.Decoy, "same names elsewhere")
	o.NonTrivial(true)

	if c.Fault == "" {
		s, what, err := load(target)
		if c.Json != nil {
			o.Evals(1)
			if err := accepted(what, files[root], s, err, c.Json.View(allMask), allMask); err != nil {
				return err
			}
			mem, err := parseJSON(files[root])
			if err != nil {
				return err
			}
			if d := m.Diff(m.RealView(mem, allMask), m.RealView(s, allMask)); d != "" {
				return fmt.Errorf("%s: differs from parsing the content: %s", what, d)
			}
			return nil
		}
		o.Evals(len(c.Tree.Files))
		memo := map[int]*m.Schema{}
		for i := range c.Tree.Files {
			if i > 0 {
				s, what, err = load(filepath.Join(scratch, c.Base, c.Tree.Files[i].Path))
			}
			if err != nil {
				return fmt.Errorf("%s: valid files are rejected: %v\n%s", what, err, showStrings(files))
			}
			if d := m.Diff(merged(c.Tree.Files, i, memo).View(m.Everything), m.RealView(s, m.Everything)); d != "" {
				return fmt.Errorf("%s: %s\n%s", what, d, showStrings(files))
			}
			mem, err := parseFiles(files, c.Tree.Files[i].Path)
			if err != nil {
				return err
			}
			if a, b := jsonOf(mem), jsonOf(s); a != b {
				return fmt.Errorf("%s: differs from parsing the content: %s\n---\n%s", what, b, a)
			}
		}
		return nil
	}

	// with one fault it has to fail, without it not
	if _, what, err := load(target); err != nil {
		return fmt.Errorf("%s: a valid file is rejected: %v\n%s", what, err, showStrings(files))
	}
	o.Class("fault " + c.Fault)
	ext := filepath.Ext(root)
	bad := target
	switch c.Fault {
	case "extension":
		bad = strings.TrimSuffix(target, ext) + "-f" + c.Arg
		put(strings.TrimPrefix(bad, scratch), files[root])
	case "other format":
		bad = strings.TrimSuffix(target, ext) + "-other" + map[string]string{".json": ".ridl", ".ridl": ".json"}[ext]
		put(strings.TrimPrefix(bad, scratch), files[root])
	case "missing":
		bad = strings.TrimSuffix(target, ext) + "-missing" + ext
	case "directory":
		bad = strings.TrimSuffix(target, ext) + "-dir" + ext
		if err := os.MkdirAll(bad, 0o755); err != nil {
			panic(err)
		}
	case "removed import":
		var reached []int
		for _, l := range c.Tree.Files[0].Imports {
			reached = append(reached, l.To)
			for _, l := range c.Tree.Files[l.To].Imports {
				reached = append(reached, l.To)
			}
		}
		slices.Sort(reached)
		reached = slices.Compact(reached)
		if len(reached) == 0 {
			return nil
		}
		k := reached[len(c.Arg)%len(reached)]
		gone := filepath.Join(scratch, c.Base, c.Tree.Files[k].Path)
		content := files[c.Tree.Files[k].Path]
		if err := os.Remove(gone); err != nil {
			panic(err)
		}
		// the file exists elsewhere, and with another extension
		put(filepath.Join("elsewhere2", path.Base(c.Tree.Files[k].Path)), content)
		put(strings.TrimSuffix(strings.TrimPrefix(gone, scratch), ".ridl")+".RIDL", content)
	case "imported directory":
		if len(c.Tree.Files[0].Imports) == 0 {
			return nil
		}
		gone := filepath.Join(scratch, c.Base, c.Tree.Files[c.Tree.Files[0].Imports[0].To].Path)
		if err := os.Remove(gone); err != nil {
			panic(err)
		}
		if err := os.Mkdir(gone, 0o755); err != nil {
			panic(err)
		}
	}
	if s, what, err := load(bad); err == nil {
		return fmt.Errorf("%s succeeds with fault %q %q: %s\n%s", what, c.Fault, c.Arg, jsonOf(s), showStrings(files))
	} else if err.Error() == "" {
		return fmt.Errorf("%s: empty error message", what)
	}
	return nil
}

func jsonOf(s *schema.WebRPCSchema) string {
	b, err := s.ToJSON()
	if err != nil {
		return "error: " + err.Error()
	}
	return b
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:   "C24",
		Rule: "a tree of 1-5 RIDL files with imports up and down, or a JSON file, written below directories with odd names (or links there to files elsewhere), loaded by 9 spellings of its path from several working directories, with broken files of the same name elsewhere; a third with one fault (other extension, other format, missing file, directory, removed import); non-trivial: all",
		New:  func() any { return &fileCase{} },
		Gen: func(t *rapid.T) any {
			c := &fileCase{Base: m.Pick(t, "base", baseDirs), Spell: m.Num(t, "spelling", 0, 8), Decoy: rapid.Bool().Draw(t, "decoy")}
			switch m.Num(t, "cwd", 0, 3) {
			case 0:
				c.Cwd = c.Base
			case 1:
				c.Cwd = path.Join(c.Base, m.Pick(t, "cwd-in", impDirs))
			default:
				c.Cwd = m.Pick(t, "cwd-dir", cwdDirs)
			}
			c.Links = m.OneIn(t, "links", 6)
			faults := []string{"extension", "other format", "missing", "directory"}
			if m.OneIn(t, "json", 4) {
				c.Json = genJSONSchema(t)
				c.JOpts = m.GenJSONOpts(t, "json-opts")
				c.JPath = path.Join(m.Pick(t, "json-dir", impDirs), m.Pick(t, "json-name", []string{"main", "x.ridl", "a b", "v1.2"})+".json")
			} else {
				c.Tree = genImports(t, 5)
				faults = append(faults, "removed import", "removed import", "imported directory")
			}
			if m.OneIn(t, "faulty", 3) {
				c.Fault = m.Pick(t, "fault", faults)
				switch c.Fault {
				case "extension":
					c.Arg = m.Pick(t, "ext", []string{"", ".", ".txt", ".RIDL", ".JSON", ".Json", ".ridl~", ".ridl.bak", ".json5", ".yaml", ".xridl", "ridl", ".ridl "})
				case "removed import":
					c.Arg = strings.Repeat("x", m.Num(t, "which", 0, 5))
				}
			}
			return c
		},
		Quick: 2400, Deep: 60000,
		Check: func(v any, o *pbt.Obs) error { return v.(*fileCase).check(o) },
	})
}

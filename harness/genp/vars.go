package genp

import (
	"crypto/sha1"
	"embed"
	"encoding/hex"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"slices"
	"strings"
	"time"

	dart "github.com/webrpc/gen-dart"
	golang "github.com/webrpc/gen-golang"
	javascript "github.com/webrpc/gen-javascript"
	kotlin "github.com/webrpc/gen-kotlin"
	openapi "github.com/webrpc/gen-openapi"
	typescript "github.com/webrpc/gen-typescript"
	"github.com/webrpc/webrpc"
	"github.com/webrpc/webrpc/gen"
	"pgregory.net/rapid"

	m "verif/harness/model"
	"verif/harness/pbt"
)

// C31: variables of templates.
type varsRun struct {
	Target  string            `json:"target"`
	Args    []string          `json:"args,omitempty"` // of the process
	Opts    map[string]string `json:"opts,omitempty"`
	Version *string           `json:"version,omitempty"`
}

type varsCase struct {
	Src  source    `json:"src"`
	Runs []varsRun `json:"runs"`
	// how embedded targets are spelled
	Embedded int `json:"embedded,omitempty"`
}

// the errors that are the same for all generators
var builtinErrors = []struct {
	code   int
	name   string
	msg    string
	status int
}{
	{0, "WebrpcEndpoint", "endpoint error", 400},
	{-1, "WebrpcRequestFailed", "request failed", 400},
	{-2, "WebrpcBadRoute", "bad route", 404},
	{-3, "WebrpcBadMethod", "bad method", 405},
	{-4, "WebrpcBadRequest", "bad request", 400},
	{-5, "WebrpcBadResponse", "bad response", 500},
	{-6, "WebrpcServerPanic", "server panic", 500},
	{-7, "WebrpcInternalError", "internal error", 500},
	{-8, "WebrpcClientAborted", "request aborted by client", 400},
	{-9, "WebrpcStreamLost", "stream lost", 400},
	{-10, "WebrpcStreamFinished", "stream finished", 200},
}

var goModLine = regexp.MustCompile(`(?m)^\tgithub\.com/webrpc/gen-([a-z]+) (\S+)`)

// embeddedVersions are those of the module file.
func embeddedVersions() map[string]string {
	out := map[string]string{}
	for _, x := range goModLine.FindAllStringSubmatch(webrpc.GoModFile, -1) {
		out[x[1]] = x[2]
	}
	return out
}

// cacheName is the directory of a target in the cache.
func cacheName(target string) string {
	h := fnv.New32a()
	h.Write([]byte(target))
	return fmt.Sprintf("%d-%s", h.Sum32(), target[strings.LastIndex(target, "/")+1:])
}

// moduleFS are the templates of the modules.
var moduleFS = map[string]embed.FS{
	"golang":     golang.FS,
	"typescript": typescript.FS,
	"javascript": javascript.FS,
	"openapi":    openapi.FS,
	"kotlin":     kotlin.FS,
	"dart":       dart.FS,
}

// checkEmbedded: each spelling of an embedded target stands for the templates
// of its own module, in the version of the module file.
func checkEmbedded(spell int) error {
	versions := embeddedVersions()
	for name, fs := range moduleFS {
		tag := "github.com/webrpc/gen-" + name
		full := tag + "@" + versions[name]
		target := []string{name, name + "@" + versions[name], tag, full}[spell]
		got, ok := gen.EmbeddedTargets[target]
		if !ok {
			return fmt.Errorf("target %s isn't embedded", target)
		}
		if got.Name != name || got.Version != versions[name] || got.ImportTag != full {
			return fmt.Errorf("embedded target %s is %s %s %s, want %s %s %s", target, got.Name, got.Version, got.ImportTag, name, versions[name], full)
		}
		files, err := fs.ReadDir(".")
		if err != nil {
			return pbt.Harness(err)
		}
		for _, f := range files {
			if f.IsDir() {
				continue
			}
			want, err := fs.ReadFile(f.Name())
			if err != nil {
				return pbt.Harness(err)
			}
			if b, err := got.FS.ReadFile(f.Name()); err != nil || string(b) != string(want) {
				return fmt.Errorf("embedded target %s: %s isn't the one of its module (%v)", target, f.Name(), err)
			}
		}
		if !slices.Contains(gen.EmbeddedTargetNames, name) {
			return fmt.Errorf("%s isn't listed as embedded", name)
		}
	}
	if len(versions) != len(moduleFS) {
		return fmt.Errorf("%d targets in the module file, want %d", len(versions), len(moduleFS))
	}
	return nil
}

func stubTemplate() (string, error) {
	fs := gen.EmbeddedTargets["golang"].FS
	b, err := fs.ReadFile("main.go.tmpl")
	if err != nil {
		return "", pbt.Harness(err)
	}
	return string(b), nil
}

func (c *varsCase) check(o *pbt.Obs) error {
	if err := checkEmbedded(c.Embedded % 4); err != nil {
		return err
	}
	text, err := stubTemplate()
	if err != nil {
		return err
	}
	root, err := os.MkdirTemp(pbt.Scratch, "vars-")
	if err != nil {
		return pbt.Harness(err)
	}
	if root, err = filepath.EvalSymlinks(root); err != nil {
		return pbt.Harness(err)
	}
	defer os.RemoveAll(root)
	dir := filepath.Join(root, "w")
	put := func(p, text string) error {
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			return pbt.Harness(err)
		}
		if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
			return pbt.Harness(err)
		}
		return nil
	}
	if err := put(filepath.Join(dir, "x"), ""); err != nil {
		return err
	}
	oldTmp, hadTmp := os.LookupEnv("TMPDIR")
	os.Setenv("TMPDIR", root)
	defer func() {
		if hadTmp {
			os.Setenv("TMPDIR", oldTmp)
		} else {
			os.Unsetenv("TMPDIR")
		}
	}()
	s, err := c.Src.parse()
	if err != nil {
		return err
	}
	written := s.SchemaVersion
	versions := embeddedVersions()
	for i, r := range c.Runs {
		// where the templates are, and which generator they make
		as := r.Target
		var kind string
		target := strings.ReplaceAll(r.Target, "{dir}", dir)
		short := strings.TrimPrefix(target, "github.com/webrpc/gen-")
		name, version, _ := strings.Cut(short, "@")
		switch {
		case strings.HasPrefix(target, "/") || strings.HasPrefix(target, "."):
			p := target
			if !strings.HasPrefix(p, "/") {
				p = filepath.Join(dir, p)
			}
			if err := put(filepath.Join(p, "main.go.tmpl"), text); err != nil {
				return err
			}
			kind, as = "local", target
		case (name == "golang" || name == "typescript") && (version == "" || version == versions[name]):
			kind, as = "embedded", "github.com/webrpc/gen-"+name+"@"+versions[name]
		default:
			kind, as = "cached", target
			switch {
			case target == "go":
				as = "github.com/webrpc/gen-golang@v0.6.0"
			case target == "ts":
				as = "github.com/webrpc/gen-typescript@v0.6.0"
			case target == "js":
				as = "github.com/webrpc/gen-javascript@v0.6.0"
			case !strings.Contains(target, "/"):
				as = "github.com/webrpc/gen-" + strings.ToLower(target)
			}
			d := filepath.Join(root, "webrpc-cache", cacheName(as))
			for n, t := range map[string]string{"main.go.tmpl": text, ".webrpc-gen-info": as, ".webrpc-gen-timestamp": fmt.Sprint(time.Now().Unix())} {
				if err := put(filepath.Join(d, n), t); err != nil {
					return err
				}
			}
		}
		o.Class(kind)
		base := as[strings.LastIndex(as, "/")+1:]
		genName, genVersion, _ := strings.Cut(base, "@")

		s.SchemaVersion = written
		if r.Version != nil {
			s.SchemaVersion = *r.Version
		}
		opts, orig := map[string]any{}, map[string]any{}
		for k, v := range r.Opts {
			opts[k], orig[k] = v, v
		}
		var code, form string
		args := append([]string{"/some where/webrpc-gen"}, r.Args...)
		err = inDir(dir, r.Args, func() error {
			os.Args = args
			f, err := gen.Generate(s, "json", &gen.Config{})
			if err != nil {
				return fmt.Errorf("target json: %v", err)
			}
			form = f.Code
			out, err := gen.Generate(s, target, &gen.Config{TemplateOptions: opts})
			if err != nil {
				return fmt.Errorf("target %s fails: %v\n--- schema ---\n%s", target, err, excerpt(c.Src.text()))
			}
			code = out.Code
			return nil
		})
		if err != nil {
			return err
		}
		sum := sha1.Sum([]byte(form))
		hash := hex.EncodeToString(sum[:])
		shownVersion := s.SchemaVersion
		if shownVersion == "" {
			shownVersion = "v0.0.0-" + hash
		}
		shownGen := genVersion
		if shownGen == "" {
			shownGen = "unknown"
		}
		var w strings.Builder
		add := func(f string, a ...any) { fmt.Fprintf(&w, "// "+f+"\n", a...) }
		add("header %q", "webrpc@"+toolVersion+";"+genName+"@"+shownGen+";"+c.Src.Schema.Name+"@"+shownVersion)
		add("hash %q", hash)
		add("webrpc %q", "v1")
		add("schema %q %q", c.Src.Schema.Name, s.SchemaVersion)
		add("tool %q", toolVersion)
		add("command %q", strings.Join(append([]string{"webrpc-gen"}, r.Args...), " "))
		add("target %q", target)
		add("generator %q %q %q", base, genName, genVersion)
		for _, k := range m.SortedKeys(r.Opts) {
			add("option %q string:%q", k, r.Opts[k])
		}
		errorsAt := w.Len()
		for _, e := range builtinErrors {
			add("error %d %s %q %d", e.code, e.name, e.msg, e.status)
		}
		rest := w.Len()
		for _, e := range c.Src.Schema.Errors {
			st := e.Status
			if st == 0 {
				st = 400
			}
			add("own error %d %s %q %d", e.Code, e.Name, e.Msg, st)
		}
		for _, f := range []string{"SchemaHash", "WebrpcErrors", "SchemaName", "Services", "CodeGen", "Nope", "schemaHash"} {
			add("field %s %v", f, f != "Nope" && f != "schemaHash")
		}
		pkg := r.Opts["pkg"]
		if pkg == "" {
			pkg = "proto"
		}
		fmt.Fprintf(&w, "\npackage %s\n", pkg)
		want := w.String()
		got := code
		// further errors may be appended to the list
		if at := rest; len(got) > at && strings.HasPrefix(got, want[:rest]) && errorsAt <= at {
			for strings.HasPrefix(got[at:], "// error -") {
				n := strings.IndexByte(got[at:], '\n') + 1
				got = got[:at] + got[at+n:]
			}
		}
		if len(got) > len(want) {
			got = got[:len(want)]
		}
		if d := diffLines(want, got); d != "" {
			return fmt.Errorf("generation %d, target %s, options %q, %s\n--- schema ---\n%s", i+1, target, r.Opts, d, excerpt(c.Src.text()))
		}
		if !reflect.DeepEqual(opts, orig) {
			return fmt.Errorf("generation changes the options: %v -> %v", orig, opts)
		}
		o.ClassIf(s.SchemaVersion == "", "no schema version")
		o.ClassIf(genVersion == "", "generator without version")
	}
	codes, names := map[int]bool{}, map[string]bool{}
	for _, e := range gen.WebrpcErrors {
		if codes[e.Code] || names[e.Name] || e.Code > 0 || !strings.HasPrefix(e.Name, "Webrpc") {
			return fmt.Errorf("built-in error %d %s", e.Code, e.Name)
		}
		codes[e.Code], names[e.Name] = true, true
	}
	o.Evals(len(c.Runs))
	o.NonTrivial(len(c.Runs) > 1)
	return nil
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:   "C31",
		Rule: "a random schema and a sequence of 1-4 generations with local, embedded and cached targets of every spelling, random options, process arguments and schema version; every variable other than the definitions is printed and compared with its meaning; non-trivial: more than one generation",
		New:  func() any { return &varsCase{} },
		Gen: func(t *rapid.T) any {
			c := &varsCase{}
			cfg := m.Default()
			cfg.Depth = 1
			cfg.MaxAlias, cfg.MaxEnum, cfg.MaxStruct, cfg.MaxSvc, cfg.MaxMethod = 1, 1, 2, 2, 2
			c.Src = genSource(t, cfg)
			c.Embedded = m.Num(t, "embedded-spelling", 0, 3)
			versions := embeddedVersions()
			for k := m.Num(t, "runs", 1, 4); k > 0; k-- {
				r := varsRun{Opts: genOpts(t)}
				switch m.Num(t, "kind", 0, 4) {
				case 0, 1:
					r.Target = m.Pick(t, "base", []string{".", "./", "../", "./deep/er/", "{dir}/", "./at@v9/"})
					n := m.Pick(t, "name", []string{"templates", "gen-golang", "gen-foo@v1.2.3", "golang", "foo@", "foo@v1@v2", "a b", "ü@v1", "gen-x@main", ".hidden@v3", "gen-Foo@V1.2.3-RC1", "ABC", "@v7", "@", "x@v1.0.0@", "foo@v0", "foo@unknown", "gen-a@0"})
					if r.Target == "." && strings.HasPrefix(n, ".") {
						n = "tmpl"
					}
					r.Target += n
				case 2:
					n := m.Pick(t, "embedded", []string{"golang", "typescript"})
					r.Target = m.Pick(t, "spelling", []string{n, n + "@" + versions[n], "github.com/webrpc/gen-" + n, "github.com/webrpc/gen-" + n + "@" + versions[n]})
				default:
					r.Target = m.Pick(t, "cached", []string{"go", "ts", "js", "foo", "Foo", "golang@v0.1.0", "github.com/x/gen-y", "github.com/x/gen-y@v1.2.3", "github.com/x/y/deep/path@heads/main", "github.com/webrpc/gen-golang@v0.1.0", "example.org/gen-golang", "x/y", "Golang"})
				}
				for j := m.Num(t, "args", 0, 3); j > 0; j-- {
					r.Args = append(r.Args, m.Pick(t, "arg", []string{"-schema=x.ridl", "-target=go", "-a=b c", "", "-ü", "-pkg=x", "\"q\""}))
				}
				if m.OneIn(t, "version?", 3) {
					v := m.Pick(t, "version", []string{"", "v2", "1.0.0", "x;y", "a@b"})
					r.Version = &v
				}
				c.Runs = append(c.Runs, r)
			}
			return c
		},
		Check: func(v any, o *pbt.Obs) error { return v.(*varsCase).check(o) },
		Quick: 1500, Deep: 60000,
	})
}

package genp

import (
	"crypto/sha1"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"slices"
	"strings"

	"github.com/webrpc/webrpc/gen"
	"github.com/webrpc/webrpc/schema"
	"pgregory.net/rapid"

	m "verif/harness/model"
	"verif/harness/pbt"
)

// C28: generation is a function of the schema.
type detCase struct {
	Src  source            `json:"src"`
	Opts map[string]string `json:"opts,omitempty"`
	Go   bool              `json:"go,omitempty"`  // target is a Go generator
	Fmt  bool              `json:"fmt,omitempty"` // formatting is on
	Bad  bool              `json:"bad,omitempty"` // the generated Go code doesn't parse
	// another schema, nearly the same, that the process generates before and
	// between
	Other *source `json:"other,omitempty"`
	// the template directory of the formatting
	Name string `json:"name,omitempty"`
	// an embedded target and its options, for the command
	Embedded string   `json:"embedded,omitempty"`
	Args     []string `json:"args,omitempty"`
	// an embedded target to format, with its version if it ends with @v
	EmbFmt string `json:"embFmt,omitempty"`
	// the debug target has more options
	Many bool `json:"many,omitempty"`
}

const detTemplate = viewTemplate + `{{- define "main" -}}{{template "view" .}}hash {{.SchemaHash}}
{{range $k, $v := .Opts}}opt {{printf "%q" $k}} {{printf "%q" $v}}
{{end}}{{- /* a template with dictionaries and sorting */ -}}
{{- $d := dict -}}
{{- range .Types}}{{set $d .Name .Kind}}{{end -}}
{{range $k, $v := $d}}{{$k}}={{$v}} {{end}}
{{- $names := array -}}
{{- range .Services}}{{range .Methods}}{{$names = append $names .Name}}{{end}}{{end}}
{{join (sort $names) ","}}
{{join (array $d (dict "a" "x" "b" "y" "c" "z" "d" "w" "e" "v")) ";"}}
{{join (sort (array $d "zz" (dict "a" "x" "b" "y" "c" "z"))) ";"}}
{{range $k, $v := SchemaBigIntFieldsByType .WebRPCSchema}}{{$k}}={{$v}};{{end}}{{SchemaUsesBigInts .WebRPCSchema}}
{{end -}}
`

// goTemplate gives Go code that isn't formatted.
const goTemplate = `{{- define "main" -}}
package   p
{{if exists .Opts "unused"}}import   "fmt"
import ( "os"
  "strings" )
{{end}}{{if exists .Opts "missing"}}var  U=strings.ToUpper("x" )
var  N  = []any{ strconv.Itoa(1),bytes.MinRead}
{{end}}{{range .Types}}{{if isStructType .}}type T_{{.Name}}   struct   {
 {{range $i, $f := .Fields}}F{{$i}}   int ; Other{{$i}} string
{{end}} }
func  (T_{{.Name}}) f( ) {   if true {  return } }
{{end}}{{end}}
var   Hash="{{.SchemaHash}}"
{{if exists .Opts "broken"}}func ({{end}}
{{- end -}}`

func (c *detCase) check(o *pbt.Obs) error {
	dir, err := templateDir("det", map[string]string{"main.go.tmpl": detTemplate})
	if err != nil {
		return err
	}
	opts := func() map[string]any {
		out := map[string]any{}
		for k, v := range c.Opts {
			out[k] = v
		}
		return out
	}
	run := func(s *schema.WebRPCSchema, target string, f bool, op map[string]any) (*gen.GenOutput, error) {
		out, err := gen.Generate(s, target, &gen.Config{Format: f, TemplateOptions: op})
		if err != nil {
			return nil, fmt.Errorf("generation with target %s fails: %v\n--- schema ---\n%s", target, err, excerpt(c.Src.text()))
		}
		return out, nil
	}
	fail := func(f string, a ...any) error {
		return fmt.Errorf("%s\n--- schema ---\n%s", fmt.Sprintf(f, a...), excerpt(c.Src.text()))
	}
	s1, err := c.Src.parse()
	if err != nil {
		return err
	}
	want := *c.Src.Schema
	if want.BasePath == "" && len(want.Services) > 0 {
		want.BasePath = "/rpc/"
	}
	o.ClassIf(want.BasePath != c.Src.Schema.BasePath, "default base path")

	before, err := s1.ToJSON()
	if err != nil {
		return fail("%v", err)
	}
	another := func() error {
		if c.Other == nil {
			return nil
		}
		s, err := c.Other.parse()
		if err != nil {
			return err
		}
		out, err := run(s, dir, c.Fmt, opts())
		if err != nil {
			return err
		}
		want := *c.Other.Schema
		if want.BasePath == "" && len(want.Services) > 0 {
			want.BasePath = "/rpc/"
		}
		view := viewText(&want)
		if !strings.HasPrefix(out.Code, view) {
			return fail("another schema in the same process, %s", diffLines(view, out.Code[:min(len(out.Code), strings.LastIndex(out.Code, "\nhash ")+1)]))
		}
		text, err := s.ToJSON()
		if err != nil {
			return fail("%v", err)
		}
		sum := sha1.Sum([]byte(text))
		if !strings.Contains(out.Code[len(view):], "hash "+hex.EncodeToString(sum[:])+"\n") {
			return fail("the hash of another schema in the same process isn't the one of its JSON form:\n%s\n%s", text, excerpt(out.Code[len(view):]))
		}
		return nil
	}
	if err := another(); err != nil {
		return err
	}
	o.ClassIf(c.Other != nil, "another schema in the process")

	// the schema alone
	first, err := run(s1, dir, c.Fmt, opts())
	if err != nil {
		return err
	}
	view := viewText(&want)
	if !strings.HasPrefix(first.Code, view) {
		n := min(len(first.Code), strings.LastIndex(first.Code, "\nhash ")+1)
		return fail("a template that prints the whole schema, %s", diffLines(view, first.Code[:n]))
	}
	if err := another(); err != nil {
		return err
	}
	for i := 0; i < 3; i++ {
		out, err := run(s1, dir, c.Fmt, opts())
		if err != nil {
			return err
		}
		if d := diffLines(first.Code, out.Code); d != "" {
			return fail("the same generation twice, %s", d)
		}
	}
	j, err := run(s1, "json", c.Fmt, opts())
	if err != nil {
		return err
	}
	after, err := s1.ToJSON()
	if err != nil {
		return fail("%v", err)
	}
	if want.BasePath == c.Src.Schema.BasePath && before != after {
		return fail("generation changes the schema, %s", diffLines(before, after))
	}
	if j.Code != after {
		return fail("the json target isn't the JSON form, %s", diffLines(after, j.Code))
	}
	sum := sha1.Sum([]byte(after))
	if !strings.Contains(first.Code[len(view):], "hash "+hex.EncodeToString(sum[:])+"\n") {
		return fail("the hash isn't the one of the schema being generated")
	}

	// the schema parsed again, and from the JSON form
	s2, err := c.Src.parse()
	if err != nil {
		return err
	}
	s3, err := schema.ParseSchemaJSON([]byte(before))
	if err != nil {
		return fail("the JSON form is rejected: %v", err)
	}
	s4, err := schema.ParseSchemaJSON([]byte(j.Code))
	if err != nil {
		return fail("the generated JSON form is rejected: %v", err)
	}
	for i, s := range []*schema.WebRPCSchema{s2, s3, s4} {
		which := []string{"parsed again", "from its JSON form", "from the output of the json target"}[i]
		out, err := run(s, dir, c.Fmt, opts())
		if err != nil {
			return err
		}
		if d := diffLines(first.Code, out.Code); d != "" {
			return fail("the same schema %s, %s", which, d)
		}
		out, err = run(s, "json", c.Fmt, opts())
		if err != nil {
			return err
		}
		if d := diffLines(j.Code, out.Code); d != "" {
			return fail("target json, the same schema %s, %s", which, d)
		}
	}
	d1, err := run(s2, "debug", c.Fmt, opts())
	if err != nil {
		return err
	}
	s5, err := c.Src.parse()
	if err != nil {
		return err
	}
	d2, err := run(s5, "debug", c.Fmt, opts())
	if err != nil {
		return err
	}
	if d := diffLines(d1.Code, d2.Code); d != "" {
		return fail("target debug, %s", d)
	}
	if c.Many {
		many := opts()
		for i := 0; i < 8; i++ {
			many[fmt.Sprintf("o%d", i)] = ""
		}
		var first string
		for i := 0; i < 4; i++ {
			d, err := run(s5, "debug", c.Fmt, many)
			if err != nil {
				return err
			}
			if i == 0 {
				first = d.Code
			}
			if d := diffLines(first, d.Code); d != "" {
				return fail("target debug with many options, %s", d)
			}
		}
		o.Class("many options")
	}

	if err := c.formatting(o, s1, run, fail); err != nil {
		return err
	}
	if c.EmbFmt != "" {
		if err := c.embeddedFormat(o, s1, run, fail); err != nil {
			return err
		}
	}
	if c.Embedded != "" {
		if err := c.embedded(o, before, fail); err != nil {
			return err
		}
	}
	o.NonTrivial(len(want.Order()) > 1 && len(want.Services) > 0)
	o.ClassIf(c.Src.IsJSON, "JSON")
	o.ClassIf(!c.Src.IsJSON, "RIDL")
	o.ClassIf(len(c.Opts) > 0, "options")
	return nil
}

// embedded runs the command with one of the embedded targets: twice, and on
// the JSON form.
func (c *detCase) embedded(o *pbt.Obs, jsonForm string, fail func(string, ...any) error) error {
	dir, err := os.MkdirTemp(pbt.Scratch, "det-")
	if err != nil {
		return pbt.Harness(err)
	}
	defer os.RemoveAll(dir)
	name := "api.ridl"
	if c.Src.IsJSON {
		name = "api.json"
	}
	for n, text := range map[string]string{name: c.Src.text(), "form.json": jsonForm} {
		if err := os.WriteFile(filepath.Join(dir, n), []byte(text), 0o644); err != nil {
			return pbt.Harness(err)
		}
	}
	var first *cliRun
	for i, n := range []string{name, name, "form.json"} {
		r, err := tool(dir, nil, append([]string{"-schema=" + n, "-target=" + c.Embedded}, c.Args...))
		if err != nil {
			return err
		}
		// the command is part of the code
		r.out = strings.ReplaceAll(r.out, "-schema="+n, "-schema=S")
		r.errout = strings.ReplaceAll(r.errout, n, "S")
		if i == 0 {
			first = r
			o.ClassIf(r.code == 0, "embedded target "+c.Embedded)
			o.ClassIf(r.code != 0, "embedded target refuses the schema")
			continue
		}
		if r.code != first.code {
			return fail("target %s %q: exit code %d, then %d for %s\n%s%s", c.Embedded, c.Args, first.code, r.code, n, first.errout, r.errout)
		}
		if d := diffLines(first.out, r.out); d != "" {
			return fail("target %s %q for %s, %s", c.Embedded, c.Args, n, d)
		}
		if d := diffLines(first.errout, r.errout); d != "" {
			return fail("target %s %q for %s, on stderr %s", c.Embedded, c.Args, n, d)
		}
	}
	return nil
}

// embeddedFormat: the embedded Go generator is one in each of its spellings,
// other embedded ones aren't.
func (c *detCase) embeddedFormat(o *pbt.Obs, s *schema.WebRPCSchema, run func(*schema.WebRPCSchema, string, bool, map[string]any) (*gen.GenOutput, error), fail func(string, ...any) error) error {
	name, with, _ := strings.Cut(c.EmbFmt, "@")
	target := c.EmbFmt
	if with != "" {
		target = name + "@" + embeddedVersions()[strings.TrimPrefix(name, "github.com/webrpc/gen-")]
	}
	raw, err := run(s, target, false, map[string]any{})
	if err != nil {
		return err
	}
	out, err := run(s, target, true, map[string]any{})
	if err != nil {
		return err
	}
	want := raw.Code
	broken := false
	if strings.HasSuffix(name, "golang") {
		if b, err := format.Source([]byte(raw.Code)); err == nil {
			want = string(b)
		} else {
			broken = true
		}
	}
	if broken != (out.FormatErr != nil) {
		return fail("target %s: format error %v", target, out.FormatErr)
	}
	if d := diffLines(want, out.Code); d != "" {
		return fail("formatting of target %s, %s", target, d)
	}
	o.Class("formatting of " + name)
	return nil
}

// formatting is only for code of Go generators.
func (c *detCase) formatting(o *pbt.Obs, s *schema.WebRPCSchema, run func(*schema.WebRPCSchema, string, bool, map[string]any) (*gen.GenOutput, error), fail func(string, ...any) error) error {
	name := c.Name
	if name == "" {
		name = "det-other"
		if c.Go {
			name = "gen-golang"
		}
	}
	dir, err := templateDir(name, map[string]string{"main.go.tmpl": goTemplate})
	if err != nil {
		return err
	}
	op := map[string]any{}
	if c.Bad {
		op["broken"] = ""
	}
	raw, err := run(s, dir, false, op)
	if err != nil {
		return err
	}
	out, err := run(s, dir, c.Fmt, op)
	if err != nil {
		return err
	}
	want := raw.Code
	if c.Go && c.Fmt && !c.Bad {
		b, err := format.Source([]byte(raw.Code))
		if err != nil {
			return pbt.Harness(err)
		}
		want = string(b)
		o.Class("formatted")
	}
	if c.Go && c.Fmt && c.Bad {
		o.Class("can't be formatted")
		if out.FormatErr == nil {
			return fail("no format error for code that doesn't parse")
		}
	} else if out.FormatErr != nil {
		return fail("format error: %v", out.FormatErr)
	}
	if d := diffLines(want, out.Code); d != "" {
		return fail("formatting (on: %v, Go generator: %v, broken code: %v), %s", c.Fmt, c.Go, c.Bad, d)
	}
	if c.Go && c.Fmt && !c.Bad {
		return c.imports(o, func(f bool, op map[string]any) (*gen.GenOutput, error) { return run(s, dir, f, op) }, fail)
	}
	return nil
}

// imports: formatted code imports what it uses, and nothing else.
func (c *detCase) imports(o *pbt.Obs, run func(bool, map[string]any) (*gen.GenOutput, error), fail func(string, ...any) error) error {
	op := map[string]any{}
	var want []string
	if len(c.Src.Schema.Structs)%2 == 0 {
		op["unused"] = ""
	}
	if len(c.Src.Schema.Services)%2 == 0 {
		op["missing"] = ""
		want = []string{`"bytes"`, `"strconv"`, `"strings"`}
	}
	raw, err := run(false, op)
	if err != nil {
		return err
	}
	out, err := run(true, op)
	if err != nil {
		return err
	}
	if out.FormatErr != nil {
		return fail("format error: %v", out.FormatErr)
	}
	plain := func(code string) (got []string, rest string, err error) {
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, "", code, 0)
		if err != nil {
			return nil, "", err
		}
		for _, i := range f.Imports {
			got = append(got, i.Path.Value)
		}
		slices.Sort(got)
		f.Decls = slices.DeleteFunc(f.Decls, func(d ast.Decl) bool {
			g, ok := d.(*ast.GenDecl)
			return ok && g.Tok == token.IMPORT
		})
		var b strings.Builder
		if err := format.Node(&b, token.NewFileSet(), f); err != nil {
			return nil, "", err
		}
		return got, b.String(), nil
	}
	_, before, err := plain(raw.Code)
	if err != nil {
		return pbt.Harness(err)
	}
	got, after, err := plain(out.Code)
	if err != nil {
		return fail("the formatted code doesn't parse: %v\n%s", err, out.Code)
	}
	if !slices.Equal(got, want) {
		return fail("the formatted code imports %v, but uses %v", got, want)
	}
	if before != after {
		return fail("the formatted code is another: %s", diffLines(before, after))
	}
	o.Class("imports of formatted code")
	return nil
}

var optNames = []string{"client", "server", "pkg", "help", "a", "b-c", "x.y", "types", "Opts", "n1"}

func genOpts(t *rapid.T) map[string]string {
	out := map[string]string{}
	k := m.Num(t, "opts", 0, 4)
	for i := 0; i < k; i++ {
		out[m.Pick(t, "opt", optNames)] = m.Pick(t, "optval", []string{"", "true", "false", "x", "a=b", "1", "-", "with blank", "\"q\"", "ü", "a,b", "<no value>"})
	}
	return out
}

// near is a schema with the same name, version and numbers of everything, but
// for one detail.
func near(t *rapid.T, src source) *source {
	b, err := json.Marshal(src)
	if err != nil {
		panic(err)
	}
	var c source
	if err := json.Unmarshal(b, &c); err != nil {
		panic(err)
	}
	s := c.Schema
	var fields []*m.Field
	for i := range s.Structs {
		for k := range s.Structs[i].Fields {
			fields = append(fields, &s.Structs[i].Fields[k])
		}
	}
	var methods []*m.Method
	for i := range s.Services {
		for k := range s.Services[i].Methods {
			methods = append(methods, &s.Services[i].Methods[k])
		}
	}
	switch how := m.Num(t, "near", 0, 5); {
	case how == 0 && len(fields) > 0:
		f := m.Pick(t, "near-field", fields)
		f.Opt = !f.Opt
	case how == 1 && len(fields) > 0:
		f := m.Pick(t, "near-field", fields)
		f.Meta = append(f.Meta, m.Meta{K: "near", V: "x"})
	case how == 2 && len(s.Structs) > 0:
		d := &s.Structs[m.Num(t, "near-struct", 0, len(s.Structs)-1)].Doc
		d.Above = append(d.Above, "near")
	case how == 3 && len(s.Errors) > 0:
		s.Errors[m.Num(t, "near-error", 0, len(s.Errors)-1)].Msg += "near"
	case how == 4 && len(methods) > 0:
		mt := m.Pick(t, "near-method", methods)
		mt.Doc.Above = append(mt.Doc.Above, "near")
	default:
		if s.BasePath == "/near" {
			s.BasePath = "/near/x"
		} else {
			s.BasePath = "/near"
		}
	}
	return &c
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:   "C28",
		Rule: "a schema, options and formatting or not; a template that prints everything in the schema, dictionaries and sorted arrays is generated four times, and for the schema parsed again, from its JSON form and from the output of the json target: all outputs are the same, agree with the model and leave the schema alone; also targets json and debug, and formatting, and one case in three runs the command with an embedded target twice and on the JSON form; non-trivial if the schema has services and at least two types",
		New:  func() any { return &detCase{} },
		Gen: func(t *rapid.T) any {
			c := &detCase{}
			cfg := m.Default()
			cfg.JSONOnly = false
			cfg.BigInt = rapid.Bool().Draw(t, "bigint")
			c.Opts = genOpts(t)
			c.Many = m.OneIn(t, "many", 4)
			if m.OneIn(t, "embedded-format", 4) {
				c.EmbFmt = m.Pick(t, "embedded-format-of", []string{"golang", "golang@v", "github.com/webrpc/gen-golang", "github.com/webrpc/gen-golang@v", "typescript", "github.com/webrpc/gen-typescript@v"})
			}
			c.Go = rapid.Bool().Draw(t, "go")
			if c.Go {
				c.Name = m.Pick(t, "go-name", []string{"gen-golang", "my-gen-golang", "gen-golang@v1.2.3", "a.gen-golang@x"})
			} else {
				c.Name = m.Pick(t, "other-name", []string{"det-other", "gen-golang-docs", "gen-golangx", "gen-typescript", "golang", "gen-go", "xgolang", "go", "Gen-Golang", "gen-typescript@gen-golang", "gen_golang"})
			}
			c.Fmt = m.Num(t, "fmt", 0, 2) > 0
			c.Bad = m.OneIn(t, "broken", 4)
			if m.OneIn(t, "embedded?", 3) {
				c.Embedded = m.Pick(t, "embedded", []string{"javascript", "kotlin", "dart", "openapi", "golang", "github.com/webrpc/gen-javascript", "javascript@v0.16.0"})
				for _, a := range []string{"-client", "-server"} {
					if rapid.Bool().Draw(t, a) {
						c.Args = append(c.Args, a)
					}
				}
				if m.OneIn(t, "plain", 3) { // what all embedded targets support
					cfg.Depth, cfg.BigInt = 2, false
				}
			}
			c.Src = genSource(t, cfg)
			if m.OneIn(t, "other", 2) {
				c.Other = near(t, c.Src)
			}
			return c
		},
		Check: func(c any, o *pbt.Obs) error { return c.(*detCase).check(o) },
		Quick: 500, Deep: 30000,
	})
}

// Package genp holds the properties of code generation: template functions,
// template variables, the template cache and the command line.
package genp

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing/fstest"

	"github.com/webrpc/webrpc"
	"github.com/webrpc/webrpc/gen"
	"github.com/webrpc/webrpc/schema"
	"github.com/webrpc/webrpc/schema/ridl"
	"pgregory.net/rapid"

	m "verif/harness/model"
	"verif/harness/pbt"
)

const toolVersion = "v0.99.0-verif"

func init() { webrpc.VERSION = toolVersion }

func parseRIDL(src string) (*schema.WebRPCSchema, error) {
	fsys := fstest.MapFS{"main.ridl": &fstest.MapFile{Data: []byte(src), Mode: 0o644}}
	return ridl.NewParser(fsys, "/virtual", "main.ridl").Parse()
}

// source is a schema with a way to write it down.
type source struct {
	Schema *m.Schema  `json:"schema"`
	Ridl   m.RidlOpts `json:"ridl"`
	JSON   m.JSONOpts `json:"json"`
	IsJSON bool       `json:"isJSON,omitempty"`
}

func genSource(t *rapid.T, cfg m.Cfg) source {
	cfg.OneWay = true
	s := source{IsJSON: rapid.Bool().Draw(t, "as-json")}
	s.Schema = m.Gen(t, cfg)
	if s.IsJSON {
		s.JSON = m.GenJSONOpts(t, "json")
		c := *s.Schema
		c.TypeOrder = nil
		if names := c.Order(); len(names) > 1 {
			s.Schema.TypeOrder = rapid.Permutation(names).Draw(t, "type-order")
		}
	} else {
		s.Ridl = m.GenRidlOpts(t, "lay")
		s.Ridl.Docs = true
	}
	return s
}

func (s *source) text() string {
	if s.IsJSON {
		return s.Schema.JSON(s.JSON)
	}
	return s.Schema.RIDL(s.Ridl)
}

func (s *source) parse() (*schema.WebRPCSchema, error) {
	src := s.text()
	var out *schema.WebRPCSchema
	var err error
	if s.IsJSON {
		out, err = schema.ParseSchemaJSON([]byte(src))
	} else {
		out, err = parseRIDL(src)
	}
	if err != nil {
		return nil, fmt.Errorf("a valid schema is rejected: %v\n--- input ---\n%s", err, src)
	}
	return out, nil
}

// templateDir writes template files into a directory below the scratch
// directory and gives its path.
func templateDir(name string, files map[string]string) (string, error) {
	dir := filepath.Join(pbt.Scratch, name)
	if err := os.RemoveAll(dir); err != nil {
		return "", pbt.Harness(err)
	}
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", pbt.Harness(err)
	}
	for n, text := range files {
		if err := os.WriteFile(filepath.Join(dir, n), []byte(text), 0o644); err != nil {
			return "", pbt.Harness(err)
		}
	}
	return dir, nil
}

// render generates code with a template text.
func render(s *schema.WebRPCSchema, text string, opts map[string]any) (string, error) {
	dir, err := templateDir("t", map[string]string{"main.go.tmpl": text})
	if err != nil {
		return "", err
	}
	if opts == nil {
		opts = map[string]any{}
	}
	out, err := gen.Generate(s, dir, &gen.Config{TemplateOptions: opts})
	if err != nil {
		return "", err
	}
	return out.Code, nil
}

func empty() *schema.WebRPCSchema {
	return &schema.WebRPCSchema{WebrpcVersion: "v1", SchemaName: "a", SchemaVersion: "v1", Types: []*schema.Type{}, Errors: []*schema.Error{}, Services: []*schema.Service{}}
}

func body(lines ...string) string {
	return `{{- define "main" -}}` + strings.Join(lines, "\n") + `{{- end -}}`
}

func excerpt(s string) string {
	if len(s) > 3000 {
		return s[:3000] + "..."
	}
	return s
}

// diffLines describes the first line in which two texts differ, or "".
func diffLines(want, got string) string {
	if want == got {
		return ""
	}
	w, g := strings.Split(want, "\n"), strings.Split(got, "\n")
	for i := 0; i < len(w) || i < len(g); i++ {
		a, b := "<nothing>", "<nothing>"
		if i < len(w) {
			a = w[i]
		}
		if i < len(g) {
			b = g[i]
		}
		if a != b {
			return fmt.Sprintf("line %d:\nexpected: %q\n     got: %q", i+1, a, b)
		}
	}
	return "texts differ"
}

// Package core holds the properties of the schema model, the RIDL and the JSON
// parser.
package core

import (
	"fmt"
	"strings"
	"testing/fstest"

	"github.com/webrpc/webrpc/schema"
	"github.com/webrpc/webrpc/schema/ridl"
	"pgregory.net/rapid"

	m "verif/harness/model"
	"verif/harness/pbt"
)

func parseRIDL(src string) (*schema.WebRPCSchema, error) {
	return parseFiles(map[string]string{"main.ridl": src}, "main.ridl")
}

func parseFiles(files map[string]string, root string) (*schema.WebRPCSchema, error) {
	fsys := fstest.MapFS{}
	for k, v := range files {
		fsys[k] = &fstest.MapFile{Data: []byte(v), Mode: 0o644}
	}
	return ridl.NewParser(fsys, "/virtual", root).Parse()
}

func parseJSON(src string) (*schema.WebRPCSchema, error) {
	return schema.ParseSchemaJSON([]byte(src))
}

func excerpt(s string) string {
	if len(s) > 3000 {
		return s[:3000] + "..."
	}
	return s
}

// accepted demands that a valid text is accepted and gives the view.
func accepted(what, src string, s *schema.WebRPCSchema, err error, want []string, mask m.Mask) error {
	if err != nil {
		return fmt.Errorf("%s: a valid schema is rejected: %v\n--- input ---\n%s", what, err, excerpt(src))
	}
	if d := m.Diff(want, m.RealView(s, mask)); d != "" {
		return fmt.Errorf("%s: %s\n--- input ---\n%s", what, d, excerpt(src))
	}
	return nil
}

func checkRIDL(what string, s *m.Schema, o m.RidlOpts, mask m.Mask) (string, *schema.WebRPCSchema, error) {
	src := s.RIDL(o)
	real, err := parseRIDL(src)
	return src, real, accepted(what, src, real, err, s.View(mask), mask)
}

func checkJSON(what string, s *m.Schema, o m.JSONOpts, mask m.Mask) (string, *schema.WebRPCSchema, error) {
	src := s.JSON(o)
	real, err := parseJSON(src)
	return src, real, accepted(what, src, real, err, s.View(mask), mask)
}

// ridlCase is a schema with a way to write it down.
type ridlCase struct {
	Schema *m.Schema  `json:"schema"`
	Opts   m.RidlOpts `json:"opts"`
	// Lib, if there is one, is a file that the schema imports: its definitions
	// come first, and everything is captured as if there was one file.
	Lib     *m.Schema  `json:"lib,omitempty"`
	LibOpts m.RidlOpts `json:"libOpts,omitzero"`
}

// genRidl draws a schema for the configuration, at times of two files.
func genRidl(t *rapid.T, cfg m.Cfg) *ridlCase {
	c := &ridlCase{}
	if m.OneIn(t, "lib", 6) {
		lib := cfg
		lib.Pfx = "L"
		c.Lib = m.Gen(t, lib)
		c.LibOpts = m.GenRidlOpts(t, "lib-lay")
		c.LibOpts.Docs = true
		cfg.Pfx = "M"
		cfg.Foreign = c.Lib.Kinds()
		for _, e := range c.Lib.Errors {
			cfg.ForeignErr = append(cfg.ForeignErr, e.Name)
		}
		cfg.NoVersion = cfg.NoVersion && len(c.Lib.Services) == 0
	}
	c.Schema, c.Opts = m.Gen(t, cfg), m.GenRidlOpts(t, "lay")
	c.Opts.Docs = true
	return c
}

func (c *ridlCase) check(o *pbt.Obs, mask m.Mask) (string, error) {
	o.ClassIf(c.Lib != nil, "two files")
	if c.Lib == nil {
		src, _, err := checkRIDL("RIDL", c.Schema, c.Opts, mask)
		return src, err
	}
	all := merged([]impFile{{Schema: c.Schema, Imports: []impLine{{To: 1}}}, {Schema: c.Lib}}, 0, map[int]*m.Schema{})
	opts := c.Opts
	opts.Imports = []m.Import{{Path: "lib.ridl"}}
	files := map[string]string{"main.ridl": c.Schema.RIDL(opts), "lib.ridl": c.Lib.RIDL(c.LibOpts)}
	src := files["main.ridl"] + "\n--- lib.ridl ---\n" + files["lib.ridl"]
	real, err := parseFiles(files, "main.ridl")
	return src, accepted("RIDL", src, real, err, all.View(mask), mask)
}

func layoutClasses(o *pbt.Obs, r m.RidlOpts) {
	o.ClassIf(len(r.Lay) > 0, "varied layout")
	o.ClassIf(r.CRLF, "CRLF")
	o.ClassIf(r.NoFinal, "no final newline")
	o.ClassIf(r.Mix, "mixed declaration order")
	o.ClassIf(r.Noise, "unrelated comments")
}

func lines(xs ...string) string { return strings.Join(xs, "\n") + "\n" }

// permTypes draws an order of the types other than the one of RIDL.
func typeNames(s *m.Schema) []string {
	c := *s
	c.TypeOrder = nil
	return c.Order()
}

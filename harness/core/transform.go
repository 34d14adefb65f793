package core

import (
	"fmt"
	"reflect"
	"slices"
	"strings"

	"github.com/webrpc/webrpc/schema"
	"pgregory.net/rapid"

	m "verif/harness/model"
	"verif/harness/pbt"
)

// source is a schema with a way to have it parsed.
type source struct {
	Schema *m.Schema  `json:"schema"`
	Ridl   m.RidlOpts `json:"ridl"`
	JSON   m.JSONOpts `json:"json"`
	IsJSON bool       `json:"isJSON,omitempty"`
}

func genSource(t *rapid.T, cfg m.Cfg) source {
	s := source{IsJSON: rapid.Bool().Draw(t, "as-json")}
	s.Schema = m.Gen(t, cfg)
	if s.IsJSON {
		s.JSON = m.GenJSONOpts(t, "json")
		if names := typeNames(s.Schema); len(names) > 1 {
			s.Schema.TypeOrder = rapid.Permutation(names).Draw(t, "type-order")
		}
	} else {
		s.Ridl = m.GenRidlOpts(t, "lay")
		s.Ridl.Docs = true
	}
	return s
}

func (s *source) mask() m.Mask {
	if s.IsJSON {
		return allMask
	}
	return m.Everything
}

func (s *source) text() string {
	if s.IsJSON {
		return s.Schema.JSON(s.JSON)
	}
	return s.Schema.RIDL(s.Ridl)
}

func (s *source) parse() (*schema.WebRPCSchema, error) {
	src := s.text()
	var out *schema.WebRPCSchema
	var err error
	if s.IsJSON {
		out, err = parseJSON(src)
	} else {
		out, err = parseRIDL(src)
	}
	if err != nil {
		return nil, fmt.Errorf("a valid schema is rejected: %v\n--- input ---\n%s", err, excerpt(src))
	}
	return out, nil
}

type shakeCase struct {
	source
	Services []string `json:"services"`
}

type filterCase struct {
	source
	Request map[string]string `json:"request"`
}

type bigCase struct {
	source
	Compat bool `json:"compat,omitempty"`
}

// bigEntry is what a field or argument adds to the analysis, or nil.
func bigEntry(name string, t *m.Type, holds map[string]bool) any {
	list := ""
	if t.K == "list" {
		list = "[]"
		t = t.Elem
	}
	switch {
	case t.K == "core" && t.N == "bigint":
		return name + list
	case t.K == "ref" && holds[t.N]:
		return [2]string{name, t.N + list}
	}
	return nil
}

// bigStructs are the structs that contain a big integer at any depth.
func bigStructs(s *m.Schema) map[string]bool {
	holds := map[string]bool{}
	for again := true; again; {
		again = false
		for _, st := range s.Structs {
			for _, f := range st.Fields {
				if !holds[st.Name] && bigEntry(f.Name, f.Type, holds) != nil {
					holds[st.Name] = true
					again = true
				}
			}
		}
	}
	return holds
}

func init() {
	graphCfg := func(t *rapid.T) m.Cfg {
		cfg := m.Default()
		cfg.Depth = 3
		cfg.RefBias = true
		cfg.Rich = false
		cfg.MaxAlias, cfg.MaxEnum, cfg.MaxStruct, cfg.MaxSvc, cfg.MaxMethod = 4, 3, 6, 4, 2
		cfg.Nested = rapid.Bool().Draw(t, "nested")
		return cfg
	}

	pbt.Register(&pbt.Prop{
		ID:   "C18",
		Rule: "a random schema (RIDL or JSON) with many references among types, tree-shaken for a random list of services (repeated, unknown, near misses); non-trivial: some type has to stay and some has to go",
		New:  func() any { return &shakeCase{} },
		Gen: func(t *rapid.T) any {
			cfg := graphCfg(t)
			cfg.MinSvc = 1
			c := &shakeCase{source: genSource(t, cfg)}
			c.Services = m.GenServices(t, c.Schema)
			return c
		},
		Quick: 8000, Deep: 200000,
		Check: func(v any, o *pbt.Obs) error {
			c := v.(*shakeCase)
			in := m.Reachable(c.Schema, c.Services)
			o.NonTrivial(len(in) > 0 && len(in) < len(c.Schema.Order()))
			o.ClassIf(c.IsJSON, "JSON")
			o.ClassIf(len(in) == 0, "nothing in use")
			o.ClassIf(len(in) > 3, "more than 3 types in use")
			rec := false
			for _, st := range c.Schema.Structs {
				for _, f := range st.Fields {
					f.Type.Refs(func(n string) { rec = rec || n == st.Name && in[n] })
				}
			}
			o.ClassIf(rec, "recursive type in use")
			s, err := c.parse()
			if err != nil {
				return err
			}
			want := m.KeepTypes(c.Schema, in)
			for i := 0; i < 2; i++ { // again: nothing more to drop
				list := slices.Clone(c.Services)
				s = schema.MethodTreeShake(s, list)
				if !slices.Equal(list, c.Services) {
					return fmt.Errorf("tree-shaking changes the list of services")
				}
				mask := c.mask() &^ m.Services
				if d := m.Diff(want.View(mask), m.RealView(s, mask)); d != "" {
					return fmt.Errorf("tree-shaking for %q: %s\n--- input ---\n%s", c.Services, d, excerpt(c.text()))
				}
				mask = m.Header | m.BasePath | m.Errors | m.Services | m.Docs
				if d := m.Diff(want.View(mask), m.RealView(s, mask)); d != "" {
					return fmt.Errorf("tree-shaking for %q changes more than types: %s\n--- input ---\n%s", c.Services, d, excerpt(c.text()))
				}
			}
			return nil
		},
	})

	pbt.Register(&pbt.Prop{
		ID:   "C19",
		Rule: "a random schema (RIDL or JSON) with up to 6 services, selected by a random list (any order, repeated, unknown, other letter case, prefixes); non-trivial: some service has to stay and some has to go",
		New:  func() any { return &shakeCase{} },
		Gen: func(t *rapid.T) any {
			cfg := m.Default()
			cfg.Depth = 2
			cfg.MaxAlias, cfg.MaxEnum, cfg.MaxStruct, cfg.MaxSvc, cfg.MaxMethod = 1, 1, 2, 6, 3
			c := &shakeCase{source: genSource(t, cfg)}
			c.Services = m.GenServices(t, c.Schema)
			return c
		},
		Quick: 8000, Deep: 200000,
		Check: func(v any, o *pbt.Obs) error {
			c := v.(*shakeCase)
			want := m.Select(c.Schema, c.Services)
			o.NonTrivial(len(want.Services) > 0 && len(want.Services) < len(c.Schema.Services))
			o.ClassIf(len(c.Services) == 0, "empty list")
			o.ClassIf(len(want.Services) == 0, "none left")
			o.ClassIf(c.IsJSON, "JSON")
			s, err := c.parse()
			if err != nil {
				return err
			}
			for i := 0; i < 2; i++ {
				list := slices.Clone(c.Services)
				s = schema.MatchServices(s, list)
				if !slices.Equal(list, c.Services) {
					return fmt.Errorf("selecting changes the list of services")
				}
				if d := m.Diff(want.View(c.mask()), m.RealView(s, c.mask())); d != "" {
					return fmt.Errorf("selecting %q: %s\n--- input ---\n%s", c.Services, d, excerpt(c.text()))
				}
			}
			return nil
		},
	})

	pbt.Register(&pbt.Prop{
		ID:   "C20",
		Rule: "a random schema (RIDL or JSON) whose methods have annotations of few names and values, matched and ignored by a random request of up to 3 annotations (by name, blank value, exact value, near misses); non-trivial: some method has to stay and some has to go",
		New:  func() any { return &filterCase{} },
		Gen: func(t *rapid.T) any {
			cfg := m.Default()
			cfg.Depth = 1
			cfg.MaxAlias, cfg.MaxEnum, cfg.MaxStruct, cfg.MaxSvc, cfg.MinSvc, cfg.MaxMethod = 1, 1, 2, 3, 1, 4
			cfg.Annots = true
			c := &filterCase{source: genSource(t, cfg), Request: map[string]string{}}
			var have []m.Annot
			for _, sv := range c.Schema.Services {
				for i := range sv.Methods {
					mt := &sv.Methods[i]
					for j := range mt.Annots {
						// values with blanks and of any text
						if mt.Annots[j].HasVal && m.OneIn(t, "text-value", 4) {
							mt.Annots[j].Val = m.Pick(t, "text", []string{"a b", " admin", "admin ", "Admin", "é", "a,b", "a:b", "\"", "admin"})
						}
					}
					have = append(have, mt.Annots...)
				}
			}
			for k := m.Num(t, "requests", 0, 3); k > 0; k-- {
				if len(have) == 0 || m.OneIn(t, "any", 4) {
					c.Request[m.Pick(t, "name", []string{"auth", "Auth", "nope", "internal", "aut"})] = m.Pick(t, "value", []string{"", "admin", "x"})
					continue
				}
				a := m.Pick(t, "of", have)
				v := a.Val
				switch m.Num(t, "how", 0, 6) {
				case 0, 1:
					v = ""
				case 2:
					v = m.Pick(t, "blank", []string{" ", "   "})
				case 3:
					v = m.Pick(t, "near", []string{strings.ToUpper(v), v + "x", " " + v, "admin", "user"})
				}
				c.Request[a.Name] = v
			}
			return c
		},
		Quick: 8000, Deep: 200000,
		Check: func(v any, o *pbt.Obs) error {
			c := v.(*filterCase)
			for _, match := range []bool{true, false} {
				want, kept, gone := m.Filter(c.Schema, c.Request, match)
				o.NonTrivial(kept > 0 && gone > 0)
				s, err := c.parse()
				if err != nil {
					return err
				}
				req := map[string]string{}
				for k, v := range c.Request {
					req[k] = v
				}
				for i := 0; i < 2; i++ {
					if match {
						s = schema.MatchMethodsWithAnnotations(s, req)
					} else {
						s = schema.IgnoreMethodsWithAnnotations(s, req)
					}
					if !reflect.DeepEqual(req, c.Request) {
						return fmt.Errorf("filtering changes the request")
					}
					if d := m.Diff(want.View(c.mask()), m.RealView(s, c.mask())); d != "" {
						return fmt.Errorf("filtering by %q, match=%v: %s\n--- input ---\n%s", c.Request, match, d, excerpt(c.text()))
					}
				}
			}
			o.Evals(2)
			o.ClassIf(c.IsJSON, "JSON")
			o.ClassIf(len(c.Request) > 1, "several annotations requested")
			return nil
		},
	})

	pbt.Register(&pbt.Prop{
		ID:   "C21",
		Rule: "a random schema (RIDL or JSON) with many big integers and references among structs, analysed with and without the compatible names; non-trivial: some struct, request or response has a big integer through another struct",
		New:  func() any { return &bigCase{} },
		Gen: func(t *rapid.T) any {
			cfg := graphCfg(t)
			cfg.BigInt = m.Num(t, "bigint", 0, 2) > 0
			cfg.Nested = m.OneIn(t, "nested2", 4)
			cfg.MaxEnum, cfg.MaxAlias = 1, 2
			c := &bigCase{source: genSource(t, cfg), Compat: rapid.Bool().Draw(t, "compat")}
			if !cfg.BigInt {
				// one big integer at most, deep down
				keep := m.Num(t, "keep", -1, 3)
				n := 0
				c.Schema.AllTypes(func(ty *m.Type) {
					for ty != nil {
						if ty.K == "core" && ty.N == "bigint" {
							if n != keep {
								ty.N = "int64"
							}
							n++
						}
						ty = ty.Elem
					}
				})
			}
			return c
		},
		Quick: 8000, Deep: 200000,
		Check: func(v any, o *pbt.Obs) error {
			c := v.(*bigCase)
			holds := bigStructs(c.Schema)
			want := map[string][][]any{}
			uses := false
			deep := false
			note := func(e any) any {
				if _, ok := e.([2]string); ok {
					deep = true
				}
				return e
			}
			for _, st := range c.Schema.Structs {
				var list []any
				for _, f := range st.Fields {
					if e := note(bigEntry(f.Name, f.Type, holds)); e != nil {
						list = append(list, e)
					}
				}
				if len(list) > 0 {
					want[st.Name] = append(want[st.Name], list)
					uses = true
				}
			}
			req, resp := "Request", "Response"
			if c.Compat {
				req, resp = "Args", "Return"
			}
			for _, sv := range c.Schema.Services {
				for _, mt := range sv.Methods {
					for i, args := range [][]m.Arg{mt.In, mt.Out} {
						var list []any
						for _, a := range args {
							if e := note(bigEntry(a.Name, a.Type, holds)); e != nil {
								list = append(list, e)
							}
						}
						if len(list) == 0 {
							continue
						}
						uses = true
						if !mt.Succinct {
							n := mt.Name + []string{req, resp}[i]
							want[n] = append(want[n], list)
						}
					}
				}
			}
			o.NonTrivial(deep)
			o.ClassIf(uses, "big integers")
			o.ClassIf(!uses, "no big integers")
			o.ClassIf(c.IsJSON, "JSON")
			s, err := c.parse()
			if err != nil {
				return err
			}
			for i := 0; i < 2; i++ {
				var got map[string][]any
				if c.Compat || i == 1 {
					got = schema.SchemaBigIntFieldsByType(s, c.Compat)
				} else {
					got = schema.SchemaBigIntFieldsByType(s)
				}
				for _, n := range m.SortedKeys(want) {
					ok := false
					for _, w := range want[n] { // several methods can imply the same name
						ok = ok || reflect.DeepEqual(w, got[n])
					}
					if !ok {
						return fmt.Errorf("big integers of %s: got %v, expected %v\n--- input ---\n%s", n, got[n], want[n][0], excerpt(c.text()))
					}
				}
				for _, n := range m.SortedKeys(got) {
					if want[n] == nil {
						return fmt.Errorf("big integers of %s: got %v, expected none\n--- input ---\n%s", n, got[n], excerpt(c.text()))
					}
				}
				if g := schema.SchemaUsesBigInts(s); g != uses {
					return fmt.Errorf("uses big integers: got %v, expected %v\n--- input ---\n%s", g, uses, excerpt(c.text()))
				}
				if d := m.Diff(c.Schema.View(c.mask()), m.RealView(s, c.mask())); d != "" {
					return fmt.Errorf("the analysis changes the schema: %s\n--- input ---\n%s", d, excerpt(c.text()))
				}
			}
			return nil
		},
	})
}

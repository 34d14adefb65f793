package core

import (
	"fmt"
	"reflect"
	"slices"
	"strings"

	"github.com/webrpc/webrpc/schema"
	"pgregory.net/rapid"

	m "verif/harness/model"
	"verif/harness/pbt"
)

// call is one call on a schema.
type call struct {
	Op       string            `json:"op"` // shake, select, match, ignore; json, hash, lookup, bigint
	Services []string          `json:"services,omitempty"`
	Request  map[string]string `json:"request,omitempty"`
}

// stepsCase is a schema with a history of calls.
type stepsCase struct {
	Src   *source  `json:"src,omitempty"`
	Tree  *impCase `json:"tree,omitempty"`
	Steps []call   `json:"steps"`
}

func (c *stepsCase) input() *anyInput { return &anyInput{Src: c.Src, Tree: c.Tree} }

// apply makes the step on the model.
func (st call) apply(s *m.Schema) *m.Schema {
	switch st.Op {
	case "shake":
		return m.KeepTypes(s, m.Reachable(s, st.Services))
	case "select":
		return m.Select(s, st.Services)
	case "match", "ignore":
		out, _, _ := m.Filter(s, st.Request, st.Op == "match")
		return out
	}
	return s
}

// run makes the step on the schema.
func (st call) run(s *schema.WebRPCSchema) (*schema.WebRPCSchema, error) {
	switch st.Op {
	case "shake":
		return schema.MethodTreeShake(s, slices.Clone(st.Services)), nil
	case "select":
		return schema.MatchServices(s, slices.Clone(st.Services)), nil
	case "match":
		return schema.MatchMethodsWithAnnotations(s, st.Request), nil
	case "ignore":
		return schema.IgnoreMethodsWithAnnotations(s, st.Request), nil
	case "json":
		_, err := s.ToJSON()
		return s, err
	case "hash":
		_, err := hashOf(s)
		return s, err
	case "bigint":
		schema.SchemaUsesBigInts(s)
		schema.SchemaBigIntFieldsByType(s)
	case "lookup":
		s.GetServiceByName("A")
		s.GetTypeByName("A")
	}
	return s, nil
}

// closed says if all types in use are defined, and all services have methods.
func closed(s *m.Schema) (types, methods bool) {
	have := s.Kinds()
	types, methods = true, true
	s.AllTypes(func(t *m.Type) {
		t.Refs(func(n string) {
			if have[n] == "" {
				types = false
			}
		})
	})
	for _, sv := range s.Services {
		methods = methods && len(sv.Methods) > 0
	}
	return
}

func (c *stepsCase) check(o *pbt.Obs) error {
	in := c.input()
	show := in.show()
	o.Sig(show + fmt.Sprint(c.Steps))
	o.Sample(map[string]any{"input": show, "steps": c.Steps})
	o.Evals(len(c.Steps) + 1)
	mask := in.mask()
	s, err := in.parse()
	if err != nil {
		return fmt.Errorf("a valid schema is rejected: %v\n%s", err, show)
	}
	full, err := in.parse()
	if err != nil {
		return fmt.Errorf("a valid schema is rejected: %v\n%s", err, show)
	}
	want := in.model()
	hashes := map[string]string{} // to definitions
	changes := 0
	for i, st := range c.Steps {
		at := func(format string, a ...any) error {
			return fmt.Errorf("after step %d, %+v: %s\nsteps: %+v\n%s", i+1, st, fmt.Sprintf(format, a...), c.Steps, show)
		}
		if types, _ := closed(want); !types && st.Op == "shake" {
			break // what is reached through a type that is gone isn't specified
		}
		next := st.apply(want)
		if m.Diff(want.View(m.Everything), next.View(m.Everything)) != "" {
			changes++
			o.Class("effective " + st.Op)
		}
		want = next
		if s, err = st.run(s); err != nil {
			return at("%v", err)
		}
		if s == nil {
			return at("no schema")
		}
		masks := []m.Mask{mask}
		if types, _ := closed(want); !types {
			// the types of some arguments are gone
			masks = []m.Mask{mask &^ m.Services, m.Header | m.BasePath | m.Errors | m.Services | m.Docs}
		}
		for _, mask := range masks {
			if d := m.Diff(want.View(mask), m.RealView(s, mask)); d != "" {
				return at("%s", d)
			}
		}
		// the hash is that of what is left
		h, err := hashOf(s)
		if err != nil {
			return at("%v", err)
		}
		v := strings.Join(m.RealView(s, allMask), "\n")
		if w, ok := hashes[h]; ok && w != v {
			return at("same hash, %s, as before for other definitions", h)
		}
		hashes[h] = v
		// what is left is found, what is gone isn't
		for _, t := range full.Types {
			if got := s.GetTypeByName(t.Name); (got != nil) != (want.Kinds()[t.Name] != "") || got != nil && got.Name != t.Name {
				return at("type %s is found: %v", t.Name, got != nil)
			}
		}
		for _, t := range full.Services {
			ok := slices.ContainsFunc(want.Services, func(sv m.Service) bool { return sv.Name == t.Name })
			if got := s.GetServiceByName(t.Name); (got != nil) != ok || ok && got.Name != t.Name {
				return at("service %s is found: %v", t.Name, got != nil)
			}
		}
		if !reflect.DeepEqual(full.Errors, s.Errors) {
			return at("other errors")
		}
	}
	o.NonTrivial(changes > 1)
	o.ClassIf(c.Tree != nil, "imports")
	o.ClassIf(c.Src != nil && c.Src.IsJSON, "JSON")
	types, methods := closed(want)
	switch {
	case types && methods:
		o.Class("result is valid")
		if err := fixpoint(s); err != nil {
			return fmt.Errorf("after all steps: %v\nsteps: %+v\n%s", err, c.Steps, show)
		}
		j, err := s.ToJSON()
		if err != nil {
			return err
		}
		again, err := parseJSON(j)
		if err != nil {
			return err
		}
		names := map[string]bool{}
		unique := true
		for _, sv := range want.Services {
			for _, mt := range sv.Methods {
				unique = unique && !names[mt.Name]
				names[mt.Name] = true
			}
		}
		if a, b := schema.SchemaUsesBigInts(s), schema.SchemaUsesBigInts(again); a != b {
			return fmt.Errorf("after all steps: big integers %v, parsed again %v\nsteps: %+v\n%s", a, b, c.Steps, show)
		}
		if a, b := schema.SchemaBigIntFieldsByType(s), schema.SchemaBigIntFieldsByType(again); unique && !reflect.DeepEqual(a, b) {
			return fmt.Errorf("after all steps: big integers %v, parsed again %v\nsteps: %+v\n%s", a, b, c.Steps, show)
		}
	default:
		o.Class("result is invalid")
		j, err := s.ToJSON()
		if err != nil {
			return fmt.Errorf("after all steps: %v\nsteps: %+v\n%s", err, c.Steps, show)
		}
		if _, err := parseJSON(j); err == nil {
			return fmt.Errorf("after all steps: the JSON form is accepted though types are missing (%v) or services are empty (%v)\nsteps: %+v\n%s", !types, !methods, c.Steps, show)
		}
	}
	return nil
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:   "C38",
		Rule: "a random schema (RIDL, JSON or files that import each other) and a history of 2-7 calls: tree-shaking, selecting services, matching and ignoring annotations, with hashing, printing, lookups and analyses in between; non-trivial: two or more calls change the definitions",
		New:  func() any { return &stepsCase{} },
		Gen: func(t *rapid.T) any {
			c := &stepsCase{}
			if m.OneIn(t, "tree", 5) {
				c.Tree = genImports(t, 4)
			} else {
				cfg := m.Default()
				cfg.Depth = 2
				cfg.RefBias = true
				cfg.Annots = true
				cfg.MaxAlias, cfg.MaxEnum, cfg.MaxStruct, cfg.MaxSvc, cfg.MinSvc, cfg.MaxMethod = 3, 2, 5, 4, 2, 4
				cfg.BigInt = m.OneIn(t, "bigint", 3)
				src := genSource(t, cfg)
				c.Src = &src
			}
			all := c.input().model()
			now := all
			for range m.Num(t, "steps", 2, 7) {
				st := call{Op: m.Pick(t, "op", []string{"shake", "select", "match", "ignore", "shake", "select", "match", "ignore", "json", "hash", "lookup", "bigint"})}
				if types, _ := closed(now); !types && st.Op == "shake" {
					st.Op = "select"
				}
				switch st.Op {
				case "shake", "select":
					from := now
					if m.OneIn(t, "gone", 4) {
						from = all
					}
					st.Services = m.GenServices(t, from)
					// most of them, so that something is left for the next steps
					for _, sv := range from.Services {
						if !slices.Contains(st.Services, sv.Name) && m.Num(t, "keep", 0, 2) > 0 {
							st.Services = append(st.Services, sv.Name)
						}
					}
				case "match", "ignore":
					st.Request = map[string]string{}
					var have []m.Annot
					for _, sv := range now.Services {
						for _, mt := range sv.Methods {
							have = append(have, mt.Annots...)
						}
					}
					for range m.Num(t, "requests", 1, 3) {
						if len(have) == 0 {
							st.Request["auth"] = ""
							continue
						}
						a := m.Pick(t, "of", have)
						st.Request[a.Name] = a.Val
						if m.OneIn(t, "any-value", 2) {
							st.Request[a.Name] = ""
						}
					}
				}
				c.Steps = append(c.Steps, st)
				now = st.apply(now)
			}
			return c
		},
		Quick: 4000, Deep: 80000,
		Check: func(v any, o *pbt.Obs) error { return v.(*stepsCase).check(o) },
	})
}

package core

import (
	"encoding/json"
	"fmt"
	"reflect"
	"slices"
	"strings"

	"github.com/webrpc/webrpc/schema"
	"pgregory.net/rapid"

	m "verif/harness/model"
	"verif/harness/pbt"
)

// lookCase is a schema, or a tree of files, with names to look up.
type lookCase struct {
	Source *source  `json:"source,omitempty"`
	Tree   *impCase `json:"tree,omitempty"`
	Asks   []string `json:"asks"`
	Words  []string `json:"words,omitempty"`
}

// genAsk spells the name of a definition, exactly or not.
func genAsk(t *rapid.T, names []string) string {
	n := m.Pick(t, "ask", names)
	switch m.Num(t, "ask-how", 0, 9) {
	case 0:
		return strings.ToLower(n)
	case 1:
		return strings.ToUpper(n)
	case 2: // each letter in a random case
		b := []byte(n)
		for i := range b {
			if rapid.Bool().Draw(t, "ask-case") {
				b[i] = strings.ToUpper(string(b[i]))[0]
			} else {
				b[i] = strings.ToLower(string(b[i]))[0]
			}
		}
		return string(b)
	case 3:
		return n[:len(n)-1]
	case 4:
		return n[1:]
	case 5:
		return n + m.Pick(t, "ask-more", []string{" ", "s", "[]", ".", "\x00", "0", "_"})
	case 6:
		return m.Pick(t, "ask-before", []string{" ", "[]", "*", "a"}) + n
	case 7:
		return m.Pick(t, "ask-none", []string{"", "string", "map", "any", "Nope", "list", "struct", "null"})
	}
	return n
}

// addTwin adds a struct whose name is the same as another's under Unicode case
// folding, but not in lower case: these are two names.
func addTwin(t *rapid.T, s *m.Schema) {
	fold := strings.NewReplacer("s", "ſ", "S", "ſ")
	for _, n := range s.Order() {
		twin := n[:1] + fold.Replace(n[1:])
		if twin == n || find(s.Order(), twin) >= 0 {
			continue
		}
		all := s.Order()
		i := m.Num(t, "twin-at", 0, len(all))
		s.TypeOrder = slices.Insert(slices.Clone(all), i, twin)
		s.Structs = append(s.Structs, m.Struct{Name: twin, Fields: []m.Field{{Name: "a", Type: m.Ref(n)}}})
		return
	}
}

// addLonger adds a service, and in JSON a struct, whose names begin, or end,
// with that of another, in front of it or behind.
func addLonger(t *rapid.T, s *m.Schema, types bool) {
	affix := func(n string) string {
		if m.OneIn(t, "longer-front", 3) {
			return m.Pick(t, "longer-prefix", []string{"Admin", "My", "A", "X1"}) + n
		}
		return n + m.Pick(t, "longer-suffix", []string{"Admin", "s", "2", "Service", "Request", "_"})
	}
	sv := s.Services[m.Num(t, "longer-service", 0, len(s.Services)-1)]
	sv.Methods = sv.Methods[:1:1]
	sv.Name = affix(sv.Name)
	taken := func(names []string) bool { return find(names, sv.Name) >= 0 }
	var svcs []string
	for _, o := range s.Services {
		svcs = append(svcs, o.Name)
	}
	if !taken(svcs) {
		s.Services = slices.Insert(slices.Clone(s.Services), m.Num(t, "longer-at", 0, len(s.Services)), sv)
	}
	all := s.Order()
	if len(all) == 0 || !types {
		return
	}
	n := m.Pick(t, "longer-type", all)
	longer := affix(n)
	if find(all, longer) < 0 {
		s.TypeOrder = slices.Insert(slices.Clone(all), m.Num(t, "longer-type-at", 0, len(all)), longer)
		s.Structs = append(s.Structs, m.Struct{Name: longer, Fields: []m.Field{{Name: "a", Type: m.Core("int")}}})
	}
}

var wordLetters = []string{"a", "Z", "é", "É", "ß", "ǆ", "世", "1", "_", "-", " ", "İ", "ı", "𐐀", "\u0301", "Ω", "ω", "x", "X"}

// find is the reference lookup: letters of either case are the same.
func find(names []string, ask string) int {
	return slices.IndexFunc(names, func(n string) bool { return strings.ToLower(n) == strings.ToLower(ask) })
}

func checkLookups(s *m.Schema, out *schema.WebRPCSchema, asks []string, o *pbt.Obs) error {
	types := s.Order()
	var svcs []string
	for _, sv := range s.Services {
		svcs = append(svcs, sv.Name)
	}
	if len(out.Types) != len(types) || len(out.Services) != len(svcs) {
		return fmt.Errorf("%d types and %d services, want %d and %d", len(out.Types), len(out.Services), len(types), len(svcs))
	}
	ask := func(n string) error {
		i, got := find(types, n), out.GetTypeByName(n)
		if i < 0 && got != nil {
			return fmt.Errorf("GetTypeByName(%q) = %q, and no type has this name", n, got.Name)
		}
		if i >= 0 && (got == nil || got != out.Types[i] || got.Name != types[i]) {
			return fmt.Errorf("GetTypeByName(%q) = %v, want type %q of the schema", n, got, types[i])
		}
		o.ClassIf(i >= 0 && types[i] != n, "a type in another case")
		o.ClassIf(i < 0, "no such type")
		j, sv := find(svcs, n), out.GetServiceByName(n)
		if j < 0 && sv != nil {
			return fmt.Errorf("GetServiceByName(%q) = %q, and no service has this name", n, sv.Name)
		}
		if j >= 0 && (sv == nil || sv != out.Services[j] || sv.Name != svcs[j]) {
			return fmt.Errorf("GetServiceByName(%q) = %v, want service %q of the schema", n, sv, svcs[j])
		}
		o.ClassIf(j >= 0 && svcs[j] != n, "a service in another case")
		return nil
	}
	for _, n := range slices.Concat(types, svcs, asks) {
		if err := ask(n); err != nil {
			return err
		}
	}

	texts := func(what string, vt *schema.VarType, t *m.Type) error {
		if got := vt.String(); got != t.Expr() {
			return fmt.Errorf("%s: String() is %q, want %q", what, got, t.Expr())
		}
		for t != nil && vt != nil {
			if err := coreText(vt.Type, t); err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
			switch {
			case t.K == "list" && vt.List != nil:
				vt, t = vt.List.Elem, t.Elem
			case t.K == "map" && vt.Map != nil:
				if got := vt.Map.Key.String(); got != t.Key.Expr() {
					return fmt.Errorf("%s: String() of a key is %q, want %q", what, got, t.Key.Expr())
				}
				vt, t = vt.Map.Value, t.Elem
			default:
				t = nil
			}
			if t != nil && vt.String() != t.Expr() {
				return fmt.Errorf("%s: String() of an inner type is %q, want %q", what, vt.String(), t.Expr())
			}
		}
		return nil
	}
	for _, st := range s.Structs {
		typ := out.GetTypeByName(st.Name)
		before := slices.Clone(typ.Fields)
		req := typ.RequiredFields()
		if !slices.Equal(before, typ.Fields) {
			return fmt.Errorf("struct %s: RequiredFields changed the struct", st.Name)
		}
		k := 0
		for i, f := range st.Fields {
			if i < len(typ.Fields) {
				if err := texts(st.Name+"."+f.Name, typ.Fields[i].Type, f.Type); err != nil {
					return err
				}
			}
			if f.Opt {
				continue
			}
			if k >= len(req) || req[k] != typ.Fields[i] || req[k].Name != f.Name {
				return fmt.Errorf("struct %s: RequiredFields lacks field %q at %d", st.Name, f.Name, k)
			}
			k++
		}
		if k != len(req) {
			return fmt.Errorf("struct %s: %d required fields, want %d", st.Name, len(req), k)
		}
		o.ClassIf(k > 0 && k < len(st.Fields), "required and optional fields")
		// the result belongs to the caller
		for i := range req {
			req[i] = nil
		}
		if !slices.Equal(before, typ.Fields) || slices.Contains(typ.RequiredFields(), nil) {
			return fmt.Errorf("struct %s: the result of RequiredFields shares memory with the struct", st.Name)
		}
	}
	for _, a := range s.Aliases {
		if err := texts(a.Name, out.GetTypeByName(a.Name).Type, a.Type); err != nil {
			return err
		}
	}
	for i, sv := range s.Services {
		real := out.Services[i]
		if real.Schema != out {
			return fmt.Errorf("service %s does not refer to its schema", sv.Name)
		}
		if len(real.Methods) != len(sv.Methods) {
			return fmt.Errorf("service %s: %d methods, want %d", sv.Name, len(real.Methods), len(sv.Methods))
		}
		for j, mt := range sv.Methods {
			rm := real.Methods[j]
			if rm.Service != real {
				return fmt.Errorf("method %s.%s does not refer to its service", sv.Name, mt.Name)
			}
			if len(rm.Inputs) != len(mt.In) || len(rm.Outputs) != len(mt.Out) {
				return fmt.Errorf("method %s.%s: %d inputs and %d outputs, want %d and %d", sv.Name, mt.Name, len(rm.Inputs), len(rm.Outputs), len(mt.In), len(mt.Out))
			}
			for k, a := range rm.Inputs {
				if !a.InputArg || a.OutputArg {
					return fmt.Errorf("method %s.%s: input %q: InputArg %v, OutputArg %v", sv.Name, mt.Name, a.Name, a.InputArg, a.OutputArg)
				}
				if err := texts(mt.Name+" "+a.Name, a.Type, mt.In[k].Type); err != nil {
					return err
				}
			}
			for k, a := range rm.Outputs {
				if a.InputArg || !a.OutputArg {
					return fmt.Errorf("method %s.%s: output %q: InputArg %v, OutputArg %v", sv.Name, mt.Name, a.Name, a.InputArg, a.OutputArg)
				}
				if err := texts(mt.Name+" "+a.Name, a.Type, mt.Out[k].Type); err != nil {
					return err
				}
			}
		}
	}
	return nil
}

// coreText checks the name of a core type, lists and maps included, and that
// the name in JSON stands for the same type again.
func coreText(ct schema.CoreType, t *m.Type) error {
	want := map[string]string{"core": t.N, "list": "[]", "map": "map"}[t.K]
	if want == "" {
		return nil
	}
	if ct.String() != want {
		return fmt.Errorf("the type of %s is %q, want %q", t.Expr(), ct.String(), want)
	}
	b, err := json.Marshal(ct)
	if err != nil || string(b) != `"`+want+`"` {
		return fmt.Errorf("type %q in JSON is %s, %v", want, b, err)
	}
	var back schema.CoreType
	if err := json.Unmarshal(b, &back); err != nil || back != ct {
		return fmt.Errorf("type %q read from JSON is %q, %v", want, back, err)
	}
	return nil
}

func checkWord(w string) error {
	r := []rune(w)
	head, tail := "", ""
	if len(r) > 0 {
		head, tail = string(r[:1]), string(r[1:])
	}
	if got, want := schema.VarName(w).TitleDowncase(), strings.ToLower(head)+tail; got != want {
		return fmt.Errorf("TitleDowncase of %q is %q, want %q", w, got, want)
	}
	if got, want := schema.VarName(w).TitleUpcase(), strings.ToUpper(head)+tail; got != want {
		return fmt.Errorf("TitleUpcase of %q is %q, want %q", w, got, want)
	}
	return nil
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:   "C34",
		Rule: "a random schema from RIDL, JSON or a tree of files, every name in it and misspelled ones looked up, every struct, service and method asked; non-trivial: two types, a struct with a required field, and a service",
		New:  func() any { return &lookCase{} },
		Gen: func(t *rapid.T) any {
			c := &lookCase{}
			var s *m.Schema
			if m.OneIn(t, "tree", 4) {
				c.Tree = genImports(t, 4)
				s = merged(c.Tree.Files, 0, map[int]*m.Schema{})
			} else {
				cfg := m.Default()
				cfg.MinSvc = 1
				cfg.MaxMethod = 3
				cfg.Rich = m.OneIn(t, "rich", 3)
				src := genSource(t, cfg)
				if src.IsJSON && m.OneIn(t, "twin", 3) {
					addTwin(t, src.Schema)
				}
				if m.OneIn(t, "longer", 3) {
					addLonger(t, src.Schema, src.IsJSON)
				}
				c.Source = &src
				s = src.Schema
			}
			names := slices.Clone(s.Order())
			for _, sv := range s.Services {
				names = append(names, sv.Name)
			}
			names = append(names, "Nope")
			for i := m.Num(t, "asks", 2, 8); i > 0; i-- {
				c.Asks = append(c.Asks, genAsk(t, names))
			}
			for i := m.Num(t, "words", 0, 3); i > 0; i-- {
				w := ""
				for k := m.Num(t, "letters", 0, 4); k > 0; k-- {
					w += m.Pick(t, "letter", wordLetters)
				}
				c.Words = append(c.Words, w)
			}
			return c
		},
		Quick: 6000, Deep: 120000,
		Check: func(v any, o *pbt.Obs) error {
			c := v.(*lookCase)
			var s *m.Schema
			var out *schema.WebRPCSchema
			var err error
			if c.Tree != nil {
				o.Class("imports")
				s = merged(c.Tree.Files, 0, map[int]*m.Schema{})
				files := c.Tree.render(false)
				if out, err = parseFiles(files, c.Tree.Files[0].Path); err != nil {
					return fmt.Errorf("a valid schema is rejected: %v\n%s", err, showStrings(files))
				}
				o.Sig(showStrings(files))
				o.Sample(showStrings(files))
			} else {
				o.ClassIf(c.Source.IsJSON, "JSON")
				s = c.Source.Schema
				if out, err = c.Source.parse(); err != nil {
					return err
				}
				o.Sig(c.Source.text())
				o.Sample(c.Source.text())
			}
			req := false
			for _, st := range s.Structs {
				for _, f := range st.Fields {
					req = req || !f.Opt
				}
			}
			o.NonTrivial(len(s.Order()) >= 2 && req && len(s.Services) > 0)
			json, err := out.ToJSON()
			if err != nil {
				return err
			}
			if err := checkLookups(s, out, c.Asks, o); err != nil {
				return err
			}
			after, err := out.ToJSON()
			if err != nil || after != json {
				return fmt.Errorf("looking things up changed the schema: %v\n%s\n---\n%s", err, json, after)
			}
			for _, w := range c.Words {
				if err := checkWord(w); err != nil {
					return err
				}
			}
			// the zero values
			if e := (&schema.WebRPCSchema{}); e.GetTypeByName("x") != nil || e.GetServiceByName("") != nil {
				return fmt.Errorf("something is found in an empty schema")
			}
			if got := (&schema.Type{}).RequiredFields(); len(got) != 0 || reflect.ValueOf(got).IsNil() {
				return fmt.Errorf("RequiredFields without fields: %v", got)
			}
			if got := (*schema.VarType)(nil).String(); got != "" {
				return fmt.Errorf("String() of no type: %q", got)
			}
			return nil
		},
	})
}

package core

import (
	"crypto/sha1"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"regexp"
	"slices"
	"strings"

	"github.com/webrpc/webrpc/schema"
	"pgregory.net/rapid"

	m "verif/harness/model"
	"verif/harness/pbt"
)

const allMask = m.Everything | m.EnumDocs

type jsonCase struct {
	Schema *m.Schema    `json:"schema"`
	Opts   []m.JSONOpts `json:"opts"`
}

func genJSONSchema(t *rapid.T) *m.Schema {
	cfg := m.Default()
	cfg.Longest = true
	cfg.JSONOnly = true
	cfg.NoVersion = true
	s := m.Gen(t, cfg)
	if names := s.Order(); len(names) > 1 && rapid.Bool().Draw(t, "shuffle-types") {
		s.TypeOrder = rapid.Permutation(names).Draw(t, "type-order")
	}
	// in JSON the mark of the short form doesn't depend on the arguments
	for i := range s.Services {
		for j := range s.Services[i].Methods {
			if mt := &s.Services[i].Methods[j]; len(mt.In) < 2 && len(mt.Out) < 2 && m.OneIn(t, "mark-short", 4) {
				mt.Succinct = true
			}
		}
	}
	return s
}

// fixpoint checks that the JSON form of an accepted schema stands for it.
func fixpoint(s *schema.WebRPCSchema) error {
	before := m.RealView(s, allMask)
	j1, err := s.ToJSON()
	if err != nil {
		return fmt.Errorf("no JSON form: %v", err)
	}
	if !json.Valid([]byte(j1)) {
		return fmt.Errorf("the JSON form is no JSON:\n%s", excerpt(j1))
	}
	if again, err := s.ToJSON(); err != nil || again != j1 {
		return fmt.Errorf("the JSON form changes when produced again (%v):\n%s\n---\n%s", err, excerpt(j1), excerpt(again))
	}
	if d := m.Diff(before, m.RealView(s, allMask)); d != "" {
		return fmt.Errorf("producing the JSON form changes the schema: %s", d)
	}
	s2, err := parseJSON(j1)
	if err != nil {
		return fmt.Errorf("the JSON form is rejected: %v\n%s", err, excerpt(j1))
	}
	if d := m.Diff(before, m.RealView(s2, allMask)); d != "" {
		return fmt.Errorf("the JSON form gives another schema: %s\n%s", d, excerpt(j1))
	}
	j2, err := s2.ToJSON()
	if err != nil || j2 != j1 {
		return fmt.Errorf("the JSON form of the JSON form differs (%v):\n%s\n--- / ---\n%s", err, excerpt(j1), excerpt(j2))
	}
	h1, e1 := s.SchemaHash()
	h2, e2 := s2.SchemaHash()
	if e1 != nil || e2 != nil || h1 != h2 {
		return fmt.Errorf("hashes of a schema and its JSON form: %s %s (%v %v)", h1, h2, e1, e2)
	}
	return nil
}

var hashRe = regexp.MustCompile(`^[0-9a-f]{40}$`)

func hashOf(s *schema.WebRPCSchema) (string, error) {
	before, err := s.ToJSON()
	if err != nil {
		return "", err
	}
	view := m.RealView(s, allMask)
	h, err := s.SchemaHash()
	if err != nil {
		return "", fmt.Errorf("no hash: %v", err)
	}
	if !hashRe.MatchString(h) {
		return "", fmt.Errorf("hash %q", h)
	}
	if sum := sha1.Sum([]byte(before)); hex.EncodeToString(sum[:]) != h {
		return "", fmt.Errorf("hash %s isn't the SHA-1 of the JSON form, %s", h, hex.EncodeToString(sum[:]))
	}
	if h2, err := s.SchemaHash(); err != nil || h2 != h {
		return "", fmt.Errorf("hash changes from %s to %s (%v)", h, h2, err)
	}
	if after, err := s.ToJSON(); err != nil || after != before {
		return "", fmt.Errorf("computing the hash changes the JSON form")
	}
	if d := m.Diff(view, m.RealView(s, allMask)); d != "" {
		return "", fmt.Errorf("computing the hash changes the schema: %s", d)
	}
	return h, nil
}

type edit struct {
	name  string
	apply func(t *rapid.T, s *m.Schema) bool
}

func oneDoc(t *rapid.T, d *m.Doc) {
	switch {
	case len(d.Above) > 0 && m.Num(t, "doc-how", 0, 1) == 0:
		d.Above = slices.Clone(d.Above)[:len(d.Above)-1]
	default:
		d.Above = append(slices.Clone(d.Above), "fresh99 "+m.CommentLine(t, "doc"))
	}
}

func swapIn[T any](t *rapid.T, xs []T) bool {
	if len(xs) < 2 {
		return false
	}
	i := m.Num(t, "swap", 0, len(xs)-2)
	xs[i], xs[i+1] = xs[i+1], xs[i]
	return true
}

func otherType(t *rapid.T, ty *m.Type) *m.Type {
	switch m.Num(t, "retype", 0, 3) {
	case 0:
		return m.List(ty.Clone())
	case 1:
		return m.MapOf(m.Core("string"), ty.Clone())
	case 2:
		if ty.K == "core" && ty.N == "int8" {
			return m.Core("int16")
		}
		return m.Core("int8")
	default:
		if ty.Elem != nil {
			return ty.Elem.Clone()
		}
		if ty.K == "core" && ty.N == "any" {
			return m.Core("null")
		}
		return m.Core("any")
	}
}

func pickField(t *rapid.T, s *m.Schema) *m.Field {
	w := withFields(s)
	if len(w) == 0 {
		return nil
	}
	st := &s.Structs[m.Pick(t, "st", w)]
	return &st.Fields[m.Num(t, "f", 0, len(st.Fields)-1)]
}

func pickMember(t *rapid.T, s *m.Schema) (*m.Enum, *m.Member) {
	w := withMembers(s)
	if len(w) == 0 {
		return nil, nil
	}
	e := &s.Enums[m.Pick(t, "en", w)]
	return e, &e.Members[m.Num(t, "m", 0, len(e.Members)-1)]
}

func pickArg(t *rapid.T, s *m.Schema) *m.Arg {
	var as []*m.Arg
	for i := range s.Services {
		for j := range s.Services[i].Methods {
			mt := &s.Services[i].Methods[j]
			if mt.Succinct {
				continue
			}
			for k := range mt.In {
				as = append(as, &mt.In[k])
			}
			for k := range mt.Out {
				as = append(as, &mt.Out[k])
			}
		}
	}
	if len(as) == 0 {
		return nil
	}
	return m.Pick(t, "arg", as)
}

func onMethod(f func(t *rapid.T, s *m.Schema, mt *m.Method) bool) func(t *rapid.T, s *m.Schema) bool {
	return func(t *rapid.T, s *m.Schema) bool {
		if len(s.Services) == 0 {
			return false
		}
		return f(t, s, pickMethod(t, s))
	}
}

func onField(f func(t *rapid.T, fl *m.Field) bool) func(t *rapid.T, s *m.Schema) bool {
	return func(t *rapid.T, s *m.Schema) bool {
		fl := pickField(t, s)
		return fl != nil && f(t, fl)
	}
}

func onArg(f func(t *rapid.T, a *m.Arg) bool) func(t *rapid.T, s *m.Schema) bool {
	return func(t *rapid.T, s *m.Schema) bool {
		a := pickArg(t, s)
		return a != nil && f(t, a)
	}
}

func onMember(f func(t *rapid.T, e *m.Enum, mb *m.Member) bool) func(t *rapid.T, s *m.Schema) bool {
	return func(t *rapid.T, s *m.Schema) bool {
		e, mb := pickMember(t, s)
		return mb != nil && f(t, e, mb)
	}
}

func onErr(f func(t *rapid.T, s *m.Schema, e *m.Err) bool) func(t *rapid.T, s *m.Schema) bool {
	return func(t *rapid.T, s *m.Schema) bool {
		return len(s.Errors) > 0 && f(t, s, bumpErr(t, s))
	}
}

// edits are single changes of content; each keeps the schema valid.
var edits = []edit{
	{"schema name", func(t *rapid.T, s *m.Schema) bool { s.Name += "x"; return true }},
	{"schema version", func(t *rapid.T, s *m.Schema) bool { s.Version += "1"; return true }},
	{"base path", func(t *rapid.T, s *m.Schema) bool { s.BasePath = "/other99" + s.BasePath; return true }},
	{"field name", onField(func(t *rapid.T, f *m.Field) bool { f.Name = "fresh99"; return true })},
	{"field name case", onField(func(t *rapid.T, f *m.Field) bool {
		n := strings.ToUpper(f.Name)
		if n == f.Name {
			n = strings.ToLower(f.Name)
		}
		ch := n != f.Name
		f.Name = n
		return ch
	})},
	{"field type", onField(func(t *rapid.T, f *m.Field) bool { f.Type = otherType(t, f.Type); return true })},
	{"field optional", onField(func(t *rapid.T, f *m.Field) bool { f.Opt = !f.Opt; return true })},
	{"field meta added", onField(func(t *rapid.T, f *m.Field) bool {
		f.Meta = append(f.Meta, m.Meta{K: "fresh.key99", V: "x"})
		return true
	})},
	{"field meta value", onField(func(t *rapid.T, f *m.Field) bool {
		for i := range f.Meta {
			if f.Meta[i].K != "json" {
				f.Meta[i].V += "y"
				return f.Meta[i].Lit == ""
			}
		}
		return false
	})},
	{"field meta removed", onField(func(t *rapid.T, f *m.Field) bool {
		n := len(f.Meta)
		if n > 0 && f.Meta[n-1].K != "json" {
			f.Meta = f.Meta[:n-1]
			return true
		}
		return false
	})},
	{"field comment", onField(func(t *rapid.T, f *m.Field) bool { oneDoc(t, &f.Doc); return true })},
	{"field order", func(t *rapid.T, s *m.Schema) bool {
		w := withFields(s)
		return len(w) > 0 && swapIn(t, s.Structs[m.Pick(t, "st", w)].Fields)
	}},
	{"field added", func(t *rapid.T, s *m.Schema) bool {
		if len(s.Structs) == 0 {
			return false
		}
		st := &s.Structs[m.Num(t, "st", 0, len(s.Structs)-1)]
		st.Fields = insert(t, st.Fields, m.Field{Name: "fresh99", Type: m.Core("int")})
		return true
	}},
	{"field removed", func(t *rapid.T, s *m.Schema) bool {
		w := withFields(s)
		if len(w) == 0 {
			return false
		}
		st := &s.Structs[m.Pick(t, "st", w)]
		i := m.Num(t, "rm", 0, len(st.Fields)-1)
		// not one whose name another one takes
		for j, f := range st.Fields {
			if j != i && strings.EqualFold(jsonName(&f), st.Fields[i].Name) {
				return false
			}
		}
		st.Fields = slices.Delete(st.Fields, i, i+1)
		return true
	}},
	{"struct comment", func(t *rapid.T, s *m.Schema) bool {
		if len(s.Structs) == 0 {
			return false
		}
		oneDoc(t, &s.Structs[m.Num(t, "st", 0, len(s.Structs)-1)].Doc)
		return true
	}},
	{"type added", func(t *rapid.T, s *m.Schema) bool { addType(t, s, "FreshType99"); return true }},
	{"type order", func(t *rapid.T, s *m.Schema) bool {
		o := slices.Clone(s.Order())
		if !swapIn(t, o) {
			return false
		}
		s.TypeOrder = o
		return true
	}},
	{"alias type", func(t *rapid.T, s *m.Schema) bool {
		if len(s.Aliases) == 0 {
			return false
		}
		a := &s.Aliases[m.Num(t, "al", 0, len(s.Aliases)-1)]
		if a.Type.K == "ref" {
			return false // may be a map key
		}
		a.Type = m.List(a.Type.Clone())
		return true
	}},
	{"alias meta", func(t *rapid.T, s *m.Schema) bool {
		if len(s.Aliases) == 0 {
			return false
		}
		a := &s.Aliases[m.Num(t, "al", 0, len(s.Aliases)-1)]
		a.Meta = append(a.Meta, m.Meta{K: "fresh.key99", V: "x"})
		return true
	}},
	{"enum base", func(t *rapid.T, s *m.Schema) bool {
		if len(s.Enums) == 0 {
			return false
		}
		e := &s.Enums[m.Num(t, "en", 0, len(s.Enums)-1)]
		if e.Base == "uint8" {
			e.Base = "uint16"
		} else {
			e.Base = "uint8"
		}
		return true
	}},
	{"member name", onMember(func(t *rapid.T, e *m.Enum, mb *m.Member) bool { mb.Name = "fresh99"; return true })},
	{"member value", onMember(func(t *rapid.T, e *m.Enum, mb *m.Member) bool {
		if !mb.Explicit {
			mb.Explicit, mb.Val = true, "fresh99"
		} else {
			mb.Val += "9"
		}
		return true
	})},
	{"member comment", onMember(func(t *rapid.T, e *m.Enum, mb *m.Member) bool { oneDoc(t, &mb.Doc); return true })},
	{"member order", func(t *rapid.T, s *m.Schema) bool {
		w := withMembers(s)
		return len(w) > 0 && swapIn(t, s.Enums[m.Pick(t, "en", w)].Members)
	}},
	{"error code", onErr(func(t *rapid.T, s *m.Schema, e *m.Err) bool { e.Code = freeCode(s); return true })},
	{"error message", onErr(func(t *rapid.T, s *m.Schema, e *m.Err) bool { e.Msg += "!"; return true })},
	{"error status", onErr(func(t *rapid.T, s *m.Schema, e *m.Err) bool {
		st := 400
		if e.HasStatus {
			st = e.Status
		}
		e.HasStatus = true
		e.Status = 400 + (st-400+m.Num(t, "st", 1, 199))%200
		return true
	})},
	{"error order", func(t *rapid.T, s *m.Schema) bool { return swapIn(t, s.Errors) }},
	{"error added", func(t *rapid.T, s *m.Schema) bool {
		addErr(t, s, m.Err{Code: freeCode(s), Name: "FreshError99", Msg: "x"})
		return true
	}},
	{"service name", func(t *rapid.T, s *m.Schema) bool {
		if len(s.Services) == 0 {
			return false
		}
		s.Services[m.Num(t, "sv", 0, len(s.Services)-1)].Name = "FreshService99"
		return true
	}},
	{"service comment", func(t *rapid.T, s *m.Schema) bool {
		if len(s.Services) == 0 {
			return false
		}
		oneDoc(t, &s.Services[m.Num(t, "sv", 0, len(s.Services)-1)].Doc)
		return true
	}},
	{"service order", func(t *rapid.T, s *m.Schema) bool { return swapIn(t, s.Services) }},
	{"service removed", func(t *rapid.T, s *m.Schema) bool {
		if len(s.Services) == 0 {
			return false
		}
		i := m.Num(t, "sv", 0, len(s.Services)-1)
		s.Services = slices.Delete(s.Services, i, i+1)
		return true
	}},
	{"method name", onMethod(func(t *rapid.T, s *m.Schema, mt *m.Method) bool { mt.Name = "FreshMethod99"; return true })},
	{"method order", func(t *rapid.T, s *m.Schema) bool {
		return len(s.Services) > 0 && swapIn(t, s.Services[m.Num(t, "sv", 0, len(s.Services)-1)].Methods)
	}},
	{"method added", func(t *rapid.T, s *m.Schema) bool {
		if len(s.Services) == 0 {
			return false
		}
		sv := &s.Services[m.Num(t, "sv", 0, len(s.Services)-1)]
		sv.Methods = insert(t, sv.Methods, m.Method{Name: "FreshMethod99"})
		return true
	}},
	{"method comment", onMethod(func(t *rapid.T, s *m.Schema, mt *m.Method) bool { oneDoc(t, &mt.Doc); return true })},
	{"input stream", onMethod(func(t *rapid.T, s *m.Schema, mt *m.Method) bool { mt.SIn = !mt.SIn; return true })},
	{"output stream", onMethod(func(t *rapid.T, s *m.Schema, mt *m.Method) bool { mt.SOut = !mt.SOut; return true })},
	{"short form", onMethod(func(t *rapid.T, s *m.Schema, mt *m.Method) bool {
		ch := mt.Succinct
		mt.Succinct = false
		return ch
	})},
	{"method errors", onMethod(func(t *rapid.T, s *m.Schema, mt *m.Method) bool {
		for _, e := range s.Errors {
			if !slices.Contains(mt.Errors, e.Name) {
				mt.Errors = insert(t, mt.Errors, e.Name)
				return true
			}
		}
		return swapIn(t, mt.Errors)
	})},
	{"annotation added", onMethod(func(t *rapid.T, s *m.Schema, mt *m.Method) bool {
		mt.Annots = append(mt.Annots, m.Annot{Name: "fresh99"})
		return true
	})},
	{"annotation value", onMethod(func(t *rapid.T, s *m.Schema, mt *m.Method) bool {
		if len(mt.Annots) == 0 {
			return false
		}
		a := &mt.Annots[m.Num(t, "an", 0, len(mt.Annots)-1)]
		a.HasVal = true
		a.Val += "z"
		return true
	})},
	{"annotation removed", onMethod(func(t *rapid.T, s *m.Schema, mt *m.Method) bool {
		if len(mt.Annots) == 0 {
			return false
		}
		mt.Annots = mt.Annots[:len(mt.Annots)-1]
		return true
	})},
	{"argument name", onArg(func(t *rapid.T, a *m.Arg) bool { a.Name = "fresh99"; return true })},
	{"argument type", onArg(func(t *rapid.T, a *m.Arg) bool { a.Type = otherType(t, a.Type); return true })},
	{"argument optional", onArg(func(t *rapid.T, a *m.Arg) bool { a.Opt = !a.Opt; return true })},
	{"argument order", onMethod(func(t *rapid.T, s *m.Schema, mt *m.Method) bool { return swapIn(t, mt.In) || swapIn(t, mt.Out) })},
	{"argument moved", onMethod(func(t *rapid.T, s *m.Schema, mt *m.Method) bool {
		if mt.Succinct || len(mt.In) == 0 {
			return false
		}
		mt.Out = append([]m.Arg{mt.In[len(mt.In)-1]}, mt.Out...)
		mt.In = mt.In[:len(mt.In)-1]
		return true
	})},
}

type hashCase struct {
	Schema *m.Schema    `json:"schema"`
	Edited *m.Schema    `json:"edited,omitempty"`
	Edit   string       `json:"edit,omitempty"`
	Opts   []m.RidlOpts `json:"opts"`
	JSON   m.JSONOpts   `json:"json"`
	Split  bool         `json:"split,omitempty"`
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:   "C10",
		Rule: "a random valid schema, including what only JSON can express, written as three JSON documents that differ in member order, whitespace, escapes and omitted empty members; non-trivial: five or more of types, fields, errors, methods and meta entries",
		New:  func() any { return &jsonCase{} },
		Gen: func(t *rapid.T) any {
			return &jsonCase{Schema: genJSONSchema(t), Opts: []m.JSONOpts{{}, m.GenJSONOpts(t, "a"), m.GenJSONOpts(t, "b")}}
		},
		Quick: 6000, Deep: 120000,
		Check: func(v any, o *pbt.Obs) error {
			c := v.(*jsonCase)
			n := schemaSize(c.Schema)
			o.NonTrivial(n >= 5)
			var first string
			for i, op := range c.Opts {
				src, s, err := checkJSON("JSON", c.Schema, op, allMask)
				if i == 0 {
					o.Sig(src)
				} else {
					o.Sample(src)
				}
				o.ClassIf(op.Shuffle, "shuffled members")
				o.ClassIf(op.Space, "whitespace")
				o.ClassIf(op.Escape, "escapes")
				o.ClassIf(op.Omit, "omitted members")
				if err != nil {
					return err
				}
				// the JSON form must not depend on the way the document is written
				out, err := s.ToJSON()
				if err != nil {
					return err
				}
				if !op.Omit { // null and empty lists may differ
					if first == "" {
						first = out
					} else if out != first {
						return fmt.Errorf("the JSON form depends on member order, whitespace or escapes of the document:\n%s\n---\n%s", excerpt(first), excerpt(out))
					}
				}
			}
			o.ClassIf(len(c.Schema.TypeOrder) > 0, "types in any order")
			return nil
		},
	})

	pbt.Register(&pbt.Prop{
		ID:        "C11",
		Rule:      "the JSON form of accepted schemas: random valid schemas from RIDL (some split over imports) and JSON, and randomly edited texts as far as they're accepted; non-trivial: accepted, and with five or more definitions or an accepted edited text",
		FromBytes: anyBytes, Bytes: bytesOf,
		New: func() any { return &textCase{} },
		Gen: func(t *rapid.T) any {
			switch m.Num(t, "source", 0, 5) {
			case 0, 1:
				cfg := m.Default()
				cfg.NoVersion = true
				s := m.Gen(t, cfg)
				o := m.GenRidlOpts(t, "lay")
				o.Docs = true
				if m.Num(t, "split", 0, 2) == 2 {
					return &textCase{Files: split(s, o), Size: schemaSize(s)}
				}
				return &textCase{Files: map[string][]byte{"main.ridl": []byte(s.RIDL(o))}, Size: schemaSize(s)}
			case 2, 3:
				s := genJSONSchema(t)
				return &textCase{JSON: []byte(s.JSON(m.GenJSONOpts(t, "json"))), Size: schemaSize(s)}
			case 4:
				return genRidlText(t, 2)
			default:
				return genJSONText(t, 2)
			}
		},
		Quick: 8000, Deep: 150000,
		Check: func(v any, o *pbt.Obs) error {
			c := v.(*textCase)
			s, err := c.parse()
			o.Sig(c.sig())
			o.Sample(c.show())
			o.ClassIf(c.JSON != nil, "JSON")
			o.ClassIf(c.JSON == nil, "RIDL")
			o.ClassIf(len(c.Files) > 1, "imports")
			if err != nil {
				o.Class("rejected")
				if c.Size > 0 {
					return fmt.Errorf("a valid schema is rejected: %v\n%s", err, c.show())
				}
				return nil
			}
			o.Class("accepted")
			o.ClassIf(c.Size == 0, "accepted edited text")
			o.NonTrivial(c.Size == 0 || c.Size >= 5)
			if err := fixpoint(s); err != nil {
				return fmt.Errorf("%v\n--- input ---\n%s", err, c.show())
			}
			return nil
		},
	})

	pbt.Register(&pbt.Prop{
		ID:   "C12",
		Rule: "the hash of a random schema from two RIDL layouts, from JSON, from the JSON form, and split over imports, and the hash of the same schema with one random content change (48 kinds); non-trivial: there is a content change and the changed schema is accepted",
		New:  func() any { return &hashCase{} },
		Gen: func(t *rapid.T) any {
			cfg := m.Default()
			cfg.NoVersion = false
			c := &hashCase{Schema: m.Gen(t, cfg), JSON: m.GenJSONOpts(t, "json")}
			c.JSON.Omit = false
			if m.OneIn(t, "far", 40) { // a change far from the start
				lines := make([]string, m.Pick(t, "far-by", []int{2, 5, 9, 17, 34, 70, 140}))
				for i := range lines {
					lines[i] = strings.Repeat(strings.Repeat("x", 49)+" ", 19) + "end"
				}
				c.Schema.Structs = append([]m.Struct{{Name: "FarFirst99", Doc: m.Doc{Above: lines}}}, c.Schema.Structs...)
			}
			for _, l := range []string{"a", "b"} {
				o := m.GenRidlOpts(t, l)
				o.Docs = true
				o.Noise = rapid.Bool().Draw(t, l+"-noise")
				c.Opts = append(c.Opts, o)
			}
			c.Split = rapid.Bool().Draw(t, "split")
			for range 5 {
				e := m.Pick(t, "edit", edits)
				x := cloneSchema(c.Schema)
				if e.apply(t, x) {
					c.Edit, c.Edited = e.name, x
					break
				}
			}
			return c
		},
		Quick: 5000, Deep: 100000,
		Check: func(v any, o *pbt.Obs) error {
			c := v.(*hashCase)
			var want string
			same := func(what, src string, s *schema.WebRPCSchema, err error) error {
				if err != nil {
					return fmt.Errorf("%s is rejected: %v\n%s", what, err, excerpt(src))
				}
				h, err := hashOf(s)
				if err != nil {
					return fmt.Errorf("%s: %v\n%s", what, err, excerpt(src))
				}
				if want == "" {
					want = h
				} else if h != want {
					return fmt.Errorf("%s has the hash %s, not %s\n%s", what, h, want, excerpt(src))
				}
				return nil
			}
			var form string
			for i, op := range c.Opts {
				src := c.Schema.RIDL(op)
				s, err := parseRIDL(src)
				if i == 0 {
					o.Sig(src + "\x00" + c.Edit)
					o.Sample(map[string]any{"schema": src, "edit": c.Edit})
				}
				if err := same("RIDL", src, s, err); err != nil {
					return err
				}
				if form, err = s.ToJSON(); err != nil {
					return err
				}
			}
			s, err := parseJSON(form)
			if err := same("the JSON form", form, s, err); err != nil {
				return err
			}
			if c.Split {
				fs := split(c.Schema, c.Opts[0])
				s, err := parseBytes(fs)
				if err := same("RIDL split over files", string(fs["lib.ridl"]), s, err); err != nil {
					return err
				}
				o.Class("split over imports")
			}
			// The JSON written by the model has to be the same content too, in
			// the canonical order of members; enums keep comments only there.
			if !slices.ContainsFunc(c.Schema.Enums, func(e m.Enum) bool { return len(e.Doc.Lines()) > 0 }) {
				src := c.Schema.JSON(c.JSON)
				s, err := parseJSON(src)
				if err := same("JSON", src, s, err); err != nil {
					return err
				}
				o.Class("JSON document")
			}
			// a schema that has been hashed can change
			name, services, types := s.SchemaName, s.Services, s.Types
			for _, change := range []func(){
				func() { s.SchemaName += "x" },
				func() { s.Services = append([]*schema.Service{}, services[:len(services)/2]...) },
				func() { s.Types = append([]*schema.Type{}, types[len(types)/2:]...) },
				func() { s.SchemaName, s.Services, s.Types = name, services, types },
			} {
				change()
				h, err := hashOf(s)
				if err != nil {
					return fmt.Errorf("after a change of a schema that has been hashed: %v\n%s", err, excerpt(form))
				}
				if (s.SchemaName == name) != (h == want) {
					return fmt.Errorf("hash %s of a changed schema, %s before\n%s", h, want, excerpt(form))
				}
			}
			if c.Edited == nil {
				return nil
			}
			o.Class("edit: " + c.Edit)
			const view = allMask &^ m.EnumDocs
			if m.Diff(c.Schema.View(view), c.Edited.View(view)) == "" {
				return nil // e.g. equal members swapped
			}
			jo := m.JSONOpts{}
			src := c.Edited.JSON(jo)
			se, err := parseJSON(src)
			if err != nil {
				return pbt.Harness(fmt.Errorf("edit %q makes the schema invalid: %v\n%s", c.Edit, err, excerpt(src)))
			}
			o.NonTrivial(true)
			h, err := hashOf(se)
			if err != nil {
				return err
			}
			// compare with the same rendering of the original
			so, err := parseJSON(c.Schema.JSON(jo))
			if err != nil {
				return fmt.Errorf("JSON is rejected: %v", err)
			}
			ho, err := hashOf(so)
			if err != nil {
				return err
			}
			if h == ho || h == want {
				return fmt.Errorf("a changed schema (%s) has the same hash %s\n%s", c.Edit, h, excerpt(src))
			}
			return nil
		},
	})
}

func schemaSize(s *m.Schema) int {
	n := len(s.Aliases) + len(s.Enums) + len(s.Structs) + len(s.Errors)
	for _, st := range s.Structs {
		n += len(st.Fields)
	}
	for _, sv := range s.Services {
		n += len(sv.Methods)
	}
	return n
}

// split moves all definitions of a schema to an imported file.
func split(s *m.Schema, o m.RidlOpts) map[string][]byte {
	head := &m.Schema{Name: s.Name, Version: s.Version, BasePath: s.BasePath}
	lib := *s
	lib.Name, lib.BasePath = "lib", "/other"
	if lib.Version != "" {
		lib.Version = "9"
	}
	ho := m.RidlOpts{Imports: []m.Import{{Path: "lib.ridl"}}}
	return map[string][]byte{"main.ridl": []byte(head.RIDL(ho)), "lib.ridl": []byte(lib.RIDL(o))}
}

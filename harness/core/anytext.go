package core

import (
	"encoding/json"
	"fmt"
	"runtime"
	"slices"
	"strings"
	"unicode"

	"github.com/webrpc/webrpc/schema"
	"pgregory.net/rapid"

	m "verif/harness/model"
	"verif/harness/pbt"
)

// outcome is what parsing gave, for comparison.
func outcome(s *schema.WebRPCSchema, err error) (string, error) {
	if err != nil {
		return "error: " + err.Error(), nil
	}
	if s == nil {
		return "", fmt.Errorf("neither a schema nor an error")
	}
	js, err := s.ToJSON()
	if err != nil {
		return "", fmt.Errorf("accepted, but there's no JSON form: %v", err)
	}
	return js, nil
}

// survives parses the text twice.
func survives(c *textCase, o *pbt.Obs, leaks bool) error {
	o.Sig(c.sig())
	o.Sample(c.show())
	base := runtime.NumGoroutine()
	s, err := c.parse()
	first, bad := outcome(s, err)
	if bad != nil {
		return fmt.Errorf("%v\n%s", bad, c.show())
	}
	o.ClassIf(err == nil, "accepted")
	o.ClassIf(err != nil, "rejected")
	for i := 0; i < 2; i++ {
		s, err = c.parse()
		again, bad := outcome(s, err)
		if bad != nil {
			return fmt.Errorf("%v\n%s", bad, c.show())
		}
		if again != first {
			return fmt.Errorf("another result for the same text:\n%s\n---\n%s\n--- input ---\n%s", excerpt(first), excerpt(again), c.show())
		}
	}
	if leaks {
		if st := pbt.Leaked(base); st != "" {
			return fmt.Errorf("goroutines that never end are left behind:\n%s\n--- input ---\n%s", excerpt(st), c.show())
		}
	}
	return nil
}

var ridlContexts = []string{
	"",
	"webrpc = v1\nname = x\nversion = 1\n",
	"webrpc = v1\nname = x\nversion = 1\nstruct S\n  - ",
	"webrpc = v1\nname = x\nversion = 1\nstruct S\n  - a: string\n    + ",
	"webrpc = v1\nname = x\nversion = 1\nstruct S\n  - a: ",
	"webrpc = v1\nname = x\nversion = 1\nenum E: uint8\n  - A",
	"webrpc = v1\nname = x\nversion = 1\nenum ",
	"webrpc = v1\nname = x\nversion = 1\ntype T",
	"webrpc = v1\nname = x\nversion = 1\nerror 1 ",
	"webrpc = v1\nname = x\nversion = 1\nerror 1 X \"m\" ",
	"webrpc = v1\nname = x\nversion = 1\nimport ",
	"webrpc = v1\nname = x\nversion = 1\nservice Svc\n  ",
	"webrpc = v1\nname = x\nversion = 1\nservice Svc\n  - M",
	"webrpc = v1\nname = x\nversion = 1\nservice Svc\n  - M(",
	"webrpc = v1\nname = x\nversion = 1\nservice Svc\n  - M(a",
	"webrpc = v1\nname = x\nversion = 1\nservice Svc\n  - M() => ",
	"webrpc = v1\nname = x\nversion = 1\nerror 1 X \"m\"\nservice Svc\n  - M() errors ",
	"webrpc = v1\nname = x\nversion = 1\nservice Svc\n  @",
	"webrpc = \"",
	"# ",
	"webrpc = v1\nname = x\nversion = 1\nstruct ",
	"webrpc = v1\nname = x\nversion = 1\nstruct S",
	"webrpc = v1\nname = x\nversion = 1\nstruct S\n  - a?",
	"webrpc = v1\nname = x\nversion = 1\nstruct S\n  - a: map<",
	"webrpc = v1\nname = x\nversion = 1\nstruct S\n  - a: map<string",
	"webrpc = v1\nname = x\nversion = 1\nstruct S\n  - a: map<string,",
	"webrpc = v1\nname = x\nversion = 1\nstruct S\n  - a: []",
	"webrpc = v1\nname = x\nversion = 1\nstruct S\n  - a: string",
	"webrpc = v1\nname = x\nversion = 1\nstruct S\n  - a: string\n    + a",
	"webrpc = v1\nname = x\nversion = 1\nstruct S\n  - a: string\n    + a.",
	"webrpc = v1\nname = x\nversion = 1\nstruct S\n  - a: string\n    + a = ",
	"webrpc = v1\nname = x\nversion = 1\nstruct S\n  - a: string\n    + a = b",
	"webrpc = v1\nname = x\nversion = 1\ntype T: ",
	"webrpc = v1\nname = x\nversion = 1\ntype T: string\n  + a",
	"webrpc = v1\nname = x\nversion = 1\nenum E: ",
	"webrpc = v1\nname = x\nversion = 1\nenum E: uint8\n  - ",
	"webrpc = v1\nname = x\nversion = 1\nenum E: uint8\n  - A = ",
	"webrpc = v1\nname = x\nversion = 1\nenum E: uint8\n  - A = \"a\"",
	"webrpc = v1\nname = x\nversion = 1\nerror ",
	"webrpc = v1\nname = x\nversion = 1\nerror 1",
	"webrpc = v1\nname = x\nversion = 1\nerror 1 X",
	"webrpc = v1\nname = x\nversion = 1\nerror 1 X m HTTP ",
	"webrpc = v1\nname = x\nversion = 1\nerror 1 X m HTTP 404",
	"webrpc = v1\nname = x\nversion = 1\nimport ./a",
	"webrpc = v1\nname = x\nversion = 1\nimport\n  - ",
	"webrpc = v1\nname = x\nversion = 1\nimport\n  - ./a",
	"webrpc = v1\nname = x\nversion = 1\nimport\n  - ./a\n    - ",
	"webrpc = v1\nname = x\nversion = 1\nservice ",
	"webrpc = v1\nname = x\nversion = 1\nservice Svc\n  - stream ",
	"webrpc = v1\nname = x\nversion = 1\nservice Svc\n  - M(a: ",
	"webrpc = v1\nname = x\nversion = 1\nservice Svc\n  - M(a: string",
	"webrpc = v1\nname = x\nversion = 1\nservice Svc\n  - M(a?: string, ",
	"webrpc = v1\nname = x\nversion = 1\nservice Svc\n  - M() ",
	"webrpc = v1\nname = x\nversion = 1\nservice Svc\n  - M() => (a",
	"webrpc = v1\nname = x\nversion = 1\nservice Svc\n  - M() => (a: string)",
	"webrpc = v1\nname = x\nversion = 1\nstruct S\nservice Svc\n  - M(S",
	"webrpc = v1\nname = x\nversion = 1\nservice Svc\n  @a",
	"webrpc = v1\nname = x\nversion = 1\nservice Svc\n  @a:",
	"webrpc = v1\nname = x\nversion = 1\nservice Svc\n  @a:b",
	"webrpc = v1\nname = x\nversion = 1\nservice Svc\n  @a:\"b\"",
	"webrpc = v1\nname = x\nversion = 1\nerror 1 X m\nservice Svc\n  - M() errors X",
	"webrpc = v1\nname = x\nversion = 1\nerror 1 X m\nservice Svc\n  - M() errors X | ",
	"webrpc",
	"webrpc =",
	"webrpc = v1",
	"webrpc = \"v1\"",
}

var shortTokens = []string{
	"=", "=>", ":", ",", "|", "-", "+", "@", "#", "#!", "?", "!", ".", "\\", "\"", "(", ")", "[", "]", "<", ">", "map<",
	" ", "\t", "\n", "\r", "\x00", "\xff", "é", "a", "S", "1", "string", "struct", "stream", "map<string,", "-1", "\n  - ", "\n  @", "\n    + ", "name", "service", "import",
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:        "C15",
		Rule:      "RIDL texts: all one- and two-token sequences in 66 syntactic contexts, bytes, token soup, valid schemas with 1-6 random edits (tokens, lines, bytes, truncation, splices), some as imported file, types rewired to declared names and circles of aliases, all graphs of three aliases, and long repetitions; parsed three times; non-trivial: not accepted as it is, or an edited text",
		FromBytes: ridlBytes, Bytes: bytesOf,
		New: func() any { return &textCase{} },
		Enumerate: func(deep bool, yield func(any) bool) {
			toks := shortTokens
			if deep {
				toks = ridlTokens
			}
			one := func(s string) bool {
				return yield(&textCase{Files: map[string][]byte{"main.ridl": []byte(s)}})
			}
			for _, c := range ridlContexts {
				for _, a := range append([]string{""}, ridlTokens...) {
					if !one(c + a) {
						return
					}
				}
				for _, a := range toks {
					for _, b := range toks {
						if !one(c + a + b) {
							return
						}
					}
				}
			}
			if !aliasGraphs(false, yield) {
				return
			}
			// long ones
			for _, unit := range []string{"[]", "map<string,", "(", "\"", "#", "@a ", "@", "- a: b\n", "\n", "\\", "a", "é", "struct S\n", " ", "\t#x\n", "=>", "enum E: uint8\n  - A = \"\n"} {
				for _, ctx := range []int{0, 1, 4, 13} {
					n := 3000 / len(unit)
					if deep {
						n = 20000 / len(unit)
					}
					if !one(ridlContexts[ctx] + strings.Repeat(unit, n)) {
						return
					}
				}
			}
		},
		Gen:   func(t *rapid.T) any { return genRidlText(t, 0) },
		Quick: 12000, Deep: 400000,
		Check: func(v any, o *pbt.Obs) error {
			c := v.(*textCase)
			o.NonTrivial(true)
			o.ClassIf(c.Edits > 0, "edited schema")
			o.ClassIf(len(c.Files) > 1, "imported")
			return survives(c, o, true)
		},
	})

	pbt.Register(&pbt.Prop{
		ID:        "C16",
		Rule:      "JSON texts: bytes, token soup, valid schemas with 1-6 structural edits (members removed, renamed, replaced, null, added, copied) and byte edits, types rewired to declared names and circles of aliases, all graphs of three aliases, and each member of a full schema replaced by each of 31 values in turn; parsed three times; texts that encoding/json doesn't take for one JSON value have to be rejected; non-trivial: every distinct text",
		FromBytes: jsonBytes, Bytes: bytesOf,
		New: func() any { return &textCase{} },
		Enumerate: func(deep bool, yield func(any) bool) {
			eachMemberReplaced(deep, yield)
			if !aliasGraphs(true, yield) {
				return
			}
			for _, unit := range []string{"[", "{\"types\":", "{\"types\":[{\"fields\":", "\"", " "} {
				if !yield(&textCase{JSON: []byte(strings.Repeat(unit, 20000/len(unit)))}) {
					return
				}
			}
			for _, unit := range []string{"[]", "map<string,"} {
				src := fmt.Sprintf(`{"webrpc":"v1","name":"x","version":"1","types":[{"kind":"alias","name":"T","type":"%s"}]}`, strings.Repeat(unit, 3000/len(unit))+"int"+strings.Repeat(">", strings.Count(unit, "<")*3000/len(unit)))
				if !yield(&textCase{JSON: []byte(src)}) {
					return
				}
			}
		},
		Gen:   func(t *rapid.T) any { return genJSONText(t, 0) },
		Quick: 12000, Deep: 400000,
		Check: func(v any, o *pbt.Obs) error {
			c := v.(*textCase)
			o.NonTrivial(true)
			o.ClassIf(c.Edits > 0, "edited schema")
			if err := survives(c, o, false); err != nil {
				return err
			}
			if !json.Valid(c.JSON) {
				o.Class("no JSON")
				if s, err := c.parse(); err == nil {
					return fmt.Errorf("a text that isn't a JSON value is accepted: %s\n--- input ---\n%s", jsonOf(s), c.show())
				}
			}
			return nil
		},
	})

	pbt.Register(&pbt.Prop{
		ID:        "C17",
		Rule:      "RIDL and JSON texts as for C15 and C16, with few edits, and some with one rule broken on purpose; every accepted schema goes through an independent checker of the invariants; non-trivial: accepted, with at least one definition",
		FromBytes: anyBytes, Bytes: bytesOf,
		New: func() any { return &textCase{} },
		Gen: func(t *rapid.T) any {
			switch m.Num(t, "source", 0, 9) {
			case 0:
				return genRidlText(t, 0)
			case 1:
				return genJSONText(t, 0)
			case 2, 3, 4, 5:
				return genRidlText(t, 2)
			default:
				return genJSONText(t, 2)
			}
		},
		Enumerate: eachMemberReplaced,
		Quick:     16000, Deep: 400000,
		Check: func(v any, o *pbt.Obs) error {
			c := v.(*textCase)
			s, err := c.parse()
			o.Sig(c.sig())
			o.Sample(c.show())
			o.ClassIf(c.JSON != nil, "JSON")
			o.ClassIf(c.JSON == nil, "RIDL")
			if err != nil {
				o.Class("rejected")
				return nil
			}
			o.Class("accepted")
			o.NonTrivial(len(s.Types)+len(s.Errors)+len(s.Services) > 0)
			if err := wellFormed(s); err != nil {
				return fmt.Errorf("an accepted schema isn't well formed: %v\n%s", err, c.show())
			}
			return nil
		},
	})
}

// fullSchema has everything at least once.
func fullSchema() *m.Schema {
	return &m.Schema{
		Name: "full", Version: "v1", BasePath: "/rpc/",
		Aliases: []m.Alias{{Name: "Al", Type: m.List(m.Core("string")), Meta: []m.Meta{{K: "x", V: "y"}}, Doc: m.Doc{Above: []string{"c"}}}, {Name: "Ax", Type: m.MapOf(m.Ref("Ay"), m.Ref("Ay"))}, {Name: "Ay", Type: m.Ref("En")}},
		Enums:   []m.Enum{{Name: "En", Base: "uint8", Members: []m.Member{{Name: "A"}, {Name: "B", Explicit: true, Val: "7", Doc: m.Doc{Above: []string{"c"}}}}}, {Name: "Ex", Base: "string"}},
		Structs: []m.Struct{{Name: "St", Doc: m.Doc{Above: []string{"c"}}, Fields: []m.Field{{Name: "a", Type: m.MapOf(m.Ref("En"), m.List(m.Ref("St"))), Opt: true, Meta: []m.Meta{{K: "json", V: "b"}}}, {Name: "c", Type: m.Ref("Al")}}}, {Name: "Sx"}},
		Errors:  []m.Err{{Code: 1, Name: "Er", Msg: "m", HasStatus: true, Status: 404}, {Code: 2, Name: "Ex", Msg: "m"}},
		Services: []m.Service{{Name: "Svc", Doc: m.Doc{Above: []string{"c"}}, Methods: []m.Method{
			{Name: "M", Annots: []m.Annot{{Name: "auth", HasVal: true, Val: "x"}}, SOut: true, In: []m.Arg{{Name: "a", Type: m.Core("string"), Opt: true}}, Out: []m.Arg{{Name: "b", Type: m.Ref("St")}}, Errors: []string{"Er"}, Doc: m.Doc{Above: []string{"c"}}},
			{Name: "N", Succinct: true, In: []m.Arg{{Name: "st", Type: m.Ref("St")}}, Out: []m.Arg{{Name: "st", Type: m.Ref("St")}}},
		}}},
	}
}

// wellFormed checks what generators rely on.
func wellFormed(s *schema.WebRPCSchema) error {
	if s.WebrpcVersion != "v1" {
		return fmt.Errorf("webrpc version %q", s.WebrpcVersion)
	}
	seen := map[string]bool{}
	dup := func(kind, n string) error {
		k := kind + "\x00" + strings.ToLower(n)
		if seen[k] {
			return fmt.Errorf("%s %q is there twice", kind, n)
		}
		seen[k] = true
		return nil
	}
	upper := func(kind, n string) error {
		if n == "" {
			return fmt.Errorf("%s without name", kind)
		}
		if !unicode.IsUpper([]rune(n)[0]) {
			return fmt.Errorf("%s name %q doesn't start with an upper case letter", kind, n)
		}
		return nil
	}
	argName := func(n string) bool {
		for i, r := range n {
			ok := r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z'
			if i > 0 {
				ok = ok || r >= '0' && r <= '9' || r == '_'
			}
			if !ok {
				return false
			}
		}
		return n != ""
	}
	declared := func(t *schema.Type, name string, kinds ...string) error {
		if t == nil {
			return fmt.Errorf("%q isn't resolved", name)
		}
		if !slices.Contains(s.Types, t) {
			return fmt.Errorf("%q is linked to something that isn't a declaration of the schema", name)
		}
		if t.Name != name {
			return fmt.Errorf("%q is linked to type %q", name, t.Name)
		}
		if !slices.Contains(kinds, t.Kind) {
			return fmt.Errorf("%q is linked to a declaration of kind %q", name, t.Kind)
		}
		return nil
	}
	var vtype func(vt *schema.VarType, key bool) error
	vtype = func(vt *schema.VarType, key bool) error {
		if vt == nil {
			return fmt.Errorf("no type")
		}
		n := 0
		for _, b := range []bool{vt.List != nil, vt.Map != nil, vt.Struct != nil, vt.Enum != nil, vt.Alias != nil} {
			if b {
				n++
			}
		}
		want := 1
		switch vt.Type {
		case schema.T_List, schema.T_Map, schema.T_Struct, schema.T_Enum, schema.T_Alias:
		default:
			want = 0
		}
		if n != want {
			return fmt.Errorf("type %q of kind %v has %d parts or links", vt.Expr, vt.Type, n)
		}
		switch vt.Type {
		case schema.T_List:
			if vt.List == nil || key {
				return fmt.Errorf("list %q: no element type, or used as map key", vt.Expr)
			}
			return vtype(vt.List.Elem, false)
		case schema.T_Map:
			if vt.Map == nil || key {
				return fmt.Errorf("map %q: no parts, or used as map key", vt.Expr)
			}
			if err := vtype(vt.Map.Key, true); err != nil {
				return fmt.Errorf("map key of %q: %w", vt.Expr, err)
			}
			return vtype(vt.Map.Value, false)
		case schema.T_Struct:
			if vt.Struct == nil || key {
				return fmt.Errorf("struct %q: not linked, or used as map key", vt.Expr)
			}
			return declared(vt.Struct.Type, vt.Struct.Name, "struct")
		case schema.T_Enum:
			if vt.Enum == nil {
				return fmt.Errorf("enum %q isn't linked", vt.Expr)
			}
			if !key {
				return declared(vt.Enum.Type, vt.Enum.Name, "enum")
			}
			if err := declared(vt.Enum.Type, vt.Enum.Name, "enum", "alias"); err != nil {
				return err
			}
			t := vt.Enum.Type
			for i := 0; t.Kind == "alias"; i++ {
				if t.Type == nil || i > len(s.Types) {
					return fmt.Errorf("alias %q without end", vt.Expr)
				}
				switch {
				case t.Type.Alias != nil && t.Type.Alias.Type != nil:
					t = t.Type.Alias.Type
				case t.Type.Enum != nil && t.Type.Enum.Type != nil:
					t = t.Type.Enum.Type
				case keyCore[t.Type.Type]:
					return nil
				default:
					return fmt.Errorf("alias %q of %q is no legal map key", vt.Expr, t.Type.Expr)
				}
			}
			return nil
		case schema.T_Alias:
			if vt.Alias == nil {
				return fmt.Errorf("alias %q isn't linked", vt.Expr)
			}
			return declared(vt.Alias.Type, vt.Alias.Name, "alias")
		}
		if !m.IsCore(vt.Type) {
			return fmt.Errorf("type %q of kind %v", vt.Expr, vt.Type)
		}
		if key && !keyCore[vt.Type] {
			return fmt.Errorf("%v is no legal map key", vt.Type)
		}
		return nil
	}

	for _, t := range s.Types {
		if t == nil {
			return fmt.Errorf("null type")
		}
		if err := upper("type", t.Name); err != nil {
			return err
		}
		if err := dup("type", t.Name); err != nil {
			return err
		}
		switch t.Kind {
		case "alias":
			if err := vtype(t.Type, false); err != nil {
				return fmt.Errorf("alias %q: %w", t.Name, err)
			}
			continue
		case "enum":
			if err := vtype(t.Type, false); err != nil {
				return fmt.Errorf("enum %q: %w", t.Name, err)
			}
			if !keyCore[t.Type.Type] {
				return fmt.Errorf("enum %q has base type %v", t.Name, t.Type.Type)
			}
		case "struct":
		default:
			return fmt.Errorf("type %q of kind %q", t.Name, t.Kind)
		}
		json := map[string]bool{}
		for _, f := range t.Fields {
			if f == nil {
				return fmt.Errorf("null field of %q", t.Name)
			}
			if !argName(f.Name) {
				return fmt.Errorf("field name %q of %q", f.Name, t.Name)
			}
			if err := dup("field of type "+t.Name, f.Name); err != nil {
				return err
			}
			name := f.Name
			for _, x := range f.Meta {
				if v, ok := x["json"]; ok {
					str, ok := v.(string)
					if !ok {
						return fmt.Errorf("json name %v of field %s.%s", v, t.Name, f.Name)
					}
					if str == "-" {
						continue
					}
					if !argName(str) {
						return fmt.Errorf("json name %q of field %s.%s", str, t.Name, f.Name)
					}
					name = str
				}
			}
			if json[strings.ToLower(name)] {
				return fmt.Errorf("json name %q of field %s.%s is there twice", name, t.Name, f.Name)
			}
			json[strings.ToLower(name)] = true
			if t.Kind == "enum" {
				if f.Value == "" {
					return fmt.Errorf("enum member %s.%s without value", t.Name, f.Name)
				}
				if f.Type != nil {
					return fmt.Errorf("enum member %s.%s has a type", t.Name, f.Name)
				}
				continue
			}
			if f.Value != "" {
				return fmt.Errorf("field %s.%s has value %q", t.Name, f.Name, f.Value)
			}
			if err := vtype(f.Type, false); err != nil {
				return fmt.Errorf("field %s.%s: %w", t.Name, f.Name, err)
			}
		}
	}
	errs := map[string]bool{}
	for _, e := range s.Errors {
		if e == nil {
			return fmt.Errorf("null error")
		}
		errs[e.Name] = true
		if err := upper("error", e.Name); err != nil {
			return err
		}
		if strings.TrimSpace(e.Name) != e.Name || strings.HasPrefix(strings.ToLower(e.Name), "webrpc") {
			return fmt.Errorf("error name %q", e.Name)
		}
		if err := dup("error", e.Name); err != nil {
			return err
		}
		if e.Code <= 0 {
			return fmt.Errorf("error %q has code %d", e.Name, e.Code)
		}
		if err := dup("error code", fmt.Sprint(e.Code)); err != nil {
			return err
		}
		if e.Message == "" {
			return fmt.Errorf("error %q without message", e.Name)
		}
		if e.HTTPStatus < 400 || e.HTTPStatus > 599 {
			return fmt.Errorf("error %q has status %d", e.Name, e.HTTPStatus)
		}
	}
	if len(s.Services) > 0 && s.SchemaVersion == "" {
		return fmt.Errorf("services, but no schema version")
	}
	if b := s.BasePath; b != "" && (!strings.HasPrefix(b, "/") || !strings.HasSuffix(b, "/") || strings.ContainsAny(b, " \t\r\n?#") || strings.Contains(b, "://")) {
		return fmt.Errorf("base path %q", b)
	}
	for _, sv := range s.Services {
		if sv == nil {
			return fmt.Errorf("null service")
		}
		if sv.Name == "" {
			return fmt.Errorf("service without name")
		}
		if err := dup("service", sv.Name); err != nil {
			return err
		}
		if len(sv.Methods) == 0 {
			return fmt.Errorf("service %q without methods", sv.Name)
		}
		if sv.Schema != s {
			return fmt.Errorf("service %q isn't linked to its schema", sv.Name)
		}
		for _, mt := range sv.Methods {
			if mt == nil {
				return fmt.Errorf("null method of %q", sv.Name)
			}
			if mt.Name == "" {
				return fmt.Errorf("method of %q without name", sv.Name)
			}
			if err := dup("method of service "+sv.Name, mt.Name); err != nil {
				return err
			}
			if mt.Service != sv {
				return fmt.Errorf("method %s.%s isn't linked to its service", sv.Name, mt.Name)
			}
			if mt.Succinct && (len(mt.Inputs) > 1 || len(mt.Outputs) > 1) {
				return fmt.Errorf("short-form method %s.%s has several arguments", sv.Name, mt.Name)
			}
			for i, a := range append(slices.Clone(mt.Inputs), mt.Outputs...) {
				if a == nil {
					return fmt.Errorf("null argument of %s.%s", sv.Name, mt.Name)
				}
				if a.Name == "" {
					return fmt.Errorf("argument of %s.%s without name", sv.Name, mt.Name)
				}
				if err := vtype(a.Type, false); err != nil {
					return fmt.Errorf("argument %q of %s.%s: %w", a.Name, sv.Name, mt.Name, err)
				}
				if in := i < len(mt.Inputs); a.InputArg != in || a.OutputArg == in {
					return fmt.Errorf("argument %q of %s.%s: input %v output %v", a.Name, sv.Name, mt.Name, a.InputArg, a.OutputArg)
				}
			}
			for k, a := range mt.Annotations {
				if a == nil {
					return fmt.Errorf("null annotation %q of %s.%s", k, sv.Name, mt.Name)
				}
			}
			for _, e := range mt.Errors {
				if !errs[e] {
					return fmt.Errorf("%s.%s: error %q isn't declared", sv.Name, mt.Name, e)
				}
			}
		}
	}
	return nil
}

var keyCore = map[schema.CoreType]bool{
	schema.T_String: true, schema.T_Uint: true, schema.T_Uint8: true, schema.T_Uint16: true, schema.T_Uint32: true, schema.T_Uint64: true,
	schema.T_Int: true, schema.T_Int8: true, schema.T_Int16: true, schema.T_Int32: true, schema.T_Int64: true,
}

// eachMemberReplaced yields a full schema with each member replaced in turn.
func eachMemberReplaced(deep bool, yield func(any) bool) {
	// each member in turn
	doc := func() *m.JObj { return fullSchema().JSONDoc() }
	var hs []any
	holders(doc(), &hs)
	for h := range hs {
		n := 0
		switch x := hs[h].(type) {
		case *m.JObj:
			n = len(x.M)
		case *m.JArr:
			n = len(x.E)
		}
		for i := 0; i < n; i++ {
			for b := -2; b < len(jsonBits); b++ {
				d := doc()
				var at []any
				holders(d, &at)
				switch x := at[h].(type) {
				case *m.JObj:
					if b == -2 {
						x.M = append(x.M[:i:i], x.M[i+1:]...)
					} else if b == -1 {
						x.M[i].K += "x"
					} else {
						x.M[i].V = m.JRaw(jsonBits[b])
					}
				case *m.JArr:
					if b == -2 {
						x.E = append(x.E[:i:i], x.E[i+1:]...)
					} else if b == -1 {
						x.E = append(x.E, cloneDoc(x.E[i]))
					} else {
						x.E[i] = m.JRaw(jsonBits[b])
					}
				}
				if !yield(&textCase{JSON: []byte(m.RenderDoc(d))}) {
					return
				}
			}
		}
	}
}

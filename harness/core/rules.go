package core

import (
	"fmt"
	"slices"
	"strings"

	"pgregory.net/rapid"

	m "verif/harness/model"
	"verif/harness/pbt"
)

// ruleCase is a schema with and without a single fault, as texts.
type ruleCase struct {
	Fault string            `json:"fault"`
	Good  map[string]string `json:"good"`          // RIDL files, root main.ridl
	Bad   map[string]string `json:"bad,omitempty"` // nil if RIDL can't express the fault
	GoodJ string            `json:"goodJson,omitempty"`
	BadJ  string            `json:"badJson,omitempty"`
}

// flipCase writes a name in another letter case, with the first letter kept.
func flipCase(t *rapid.T, s string) string {
	switch m.Num(t, "case", 0, 2) {
	case 0:
		return s[:1] + strings.ToUpper(s[1:])
	case 1:
		return s[:1] + strings.ToLower(s[1:])
	}
	return s
}

func insert[T any](t *rapid.T, xs []T, x T) []T {
	return slices.Insert(slices.Clone(xs), m.Num(t, "at", 0, len(xs)), x)
}

type fault struct {
	name string
	// needs says what a schema has to have
	needs func(s *m.Schema) bool
	// apply changes the schema
	apply func(t *rapid.T, s *m.Schema)
	// ridl and json change the rendered forms; nil: nothing to do
	ridl     func(t *rapid.T, s *m.Schema) func(src string) string
	json     func(t *rapid.T, s *m.Schema) func(doc *m.JObj)
	onlyJSON bool
	onlyRIDL bool
}

func always(*m.Schema) bool { return true }

func addType(t *rapid.T, s *m.Schema, name string) {
	switch m.Num(t, "add-kind", 0, 2) {
	case 0:
		s.Structs = insert(t, s.Structs, m.Struct{Name: name})
	case 1:
		s.Enums = insert(t, s.Enums, m.Enum{Name: name, Base: "uint8", Members: []m.Member{{Name: "A"}}})
	case 2:
		s.Aliases = insert(t, s.Aliases, m.Alias{Name: name, Type: m.Core("string")})
	}
}

func jsonName(f *m.Field) string {
	n := f.Name
	for _, mt := range f.Meta {
		if mt.K == "json" && mt.V != "-" {
			n = mt.V
		}
	}
	return n
}

func withFields(s *m.Schema) []int {
	var out []int
	for i := range s.Structs {
		if len(s.Structs[i].Fields) > 0 {
			out = append(out, i)
		}
	}
	return out
}

func withMembers(s *m.Schema) []int {
	var out []int
	for i := range s.Enums {
		if len(s.Enums[i].Members) > 0 {
			out = append(out, i)
		}
	}
	return out
}

func pickMethod(t *rapid.T, s *m.Schema) *m.Method {
	sv := &s.Services[m.Num(t, "svc", 0, len(s.Services)-1)]
	return &sv.Methods[m.Num(t, "mth", 0, len(sv.Methods)-1)]
}

func findType(doc *m.JObj, name string) *m.JObj {
	a, _ := doc.Get("types").(*m.JArr)
	if a == nil {
		return nil
	}
	for _, e := range a.E {
		if o := e.(*m.JObj); o.Get("name") == name {
			return o
		}
	}
	return nil
}

var badFieldNames = []string{"a-b", "1a", "_a", "a.b", "9", "é", "naïve", "a$", "a/b", "_", "日本", "a+b", "x^", "a;"}

func bumpErr(t *rapid.T, s *m.Schema) *m.Err { return &s.Errors[m.Num(t, "err", 0, len(s.Errors)-1)] }

var hasErr = func(s *m.Schema) bool { return len(s.Errors) > 0 }
var hasSvc = func(s *m.Schema) bool { return len(s.Services) > 0 }
var hasStruct = func(s *m.Schema) bool { return len(s.Structs) > 0 }
var hasFields = func(s *m.Schema) bool { return len(withFields(s)) > 0 }
var hasMembers = func(s *m.Schema) bool { return len(withMembers(s)) > 0 }
var hasEnum = func(s *m.Schema) bool { return len(s.Enums) > 0 }

func addErr(t *rapid.T, s *m.Schema, e m.Err) { s.Errors = insert(t, s.Errors, e) }

func freeCode(s *m.Schema) int {
	c := 1
	for _, e := range s.Errors {
		c = max(c, e.Code+1)
	}
	return c
}

var faults = []fault{
	{name: "webrpc version wrong", needs: always,
		ridl: func(t *rapid.T, s *m.Schema) func(string) string {
			v := m.Pick(t, "ver", []string{"v2", "v0", "1", "V1", "v1.0", "v10", "webrpc", "\"v1 \""})
			return func(src string) string { return replaceVersion(src, v) }
		},
		json: func(t *rapid.T, s *m.Schema) func(*m.JObj) {
			v := m.Pick(t, "verj", []string{"v2", "v0", "1", "V1", "v1.0", "", " v1", "v1 "})
			return func(d *m.JObj) { d.Set("webrpc", v) }
		}},
	{name: "webrpc version missing", needs: always,
		ridl: func(t *rapid.T, s *m.Schema) func(string) string {
			return func(src string) string { return replaceVersion(src, "") }
		},
		json: func(t *rapid.T, s *m.Schema) func(*m.JObj) { return func(d *m.JObj) { d.Del("webrpc") } }},
	{name: "services without schema version", needs: hasSvc, apply: func(t *rapid.T, s *m.Schema) { s.Version = "" }},
	{name: "duplicate type name", needs: func(s *m.Schema) bool { return len(s.Order()) > 0 },
		apply: func(t *rapid.T, s *m.Schema) { addType(t, s, flipCase(t, m.Pick(t, "dup", s.Order()))) }},
	{name: "lower-case type name", needs: always,
		apply: func(t *rapid.T, s *m.Schema) {
			addType(t, s, m.Pick(t, "lname", []string{"lowerType", "a", "zzType", "_Type", "9Type", "userX_y"}))
		}},
	{name: "duplicate field name", needs: hasFields,
		apply: func(t *rapid.T, s *m.Schema) {
			st := &s.Structs[m.Pick(t, "st", withFields(s))]
			f := m.Pick(t, "dupf", st.Fields)
			nf := m.Field{Name: flipCase(t, f.Name), Type: m.Core("int")}
			if m.Num(t, "other-json", 0, 1) == 1 {
				nf.Meta = []m.Meta{{K: "json", V: "otherName99"}}
			}
			st.Fields = insert(t, st.Fields, nf)
		}},
	{name: "duplicate enum member name", needs: hasMembers,
		apply: func(t *rapid.T, s *m.Schema) {
			e := &s.Enums[m.Pick(t, "en", withMembers(s))]
			e.Members = insert(t, e.Members, m.Member{Name: flipCase(t, m.Pick(t, "dupm", e.Members).Name), Explicit: true, Val: "77"})
		}},
	{name: "duplicate JSON field name", needs: hasFields,
		apply: func(t *rapid.T, s *m.Schema) {
			st := &s.Structs[m.Pick(t, "st", withFields(s))]
			f := m.Pick(t, "dupf", st.Fields)
			mt := []m.Meta{{K: "json", V: flipCase(t, jsonName(&f))}}
			if m.OneIn(t, "renamed-before", 3) { // the last name counts
				mt = append([]m.Meta{{K: "json", V: "fine98"}}, mt...)
			}
			st.Fields = insert(t, st.Fields, m.Field{Name: "freshField99", Type: m.Core("int"), Meta: mt})
		}},
	{name: "invalid field name", needs: hasStruct,
		apply: func(t *rapid.T, s *m.Schema) {
			st := &s.Structs[m.Num(t, "st", 0, len(s.Structs)-1)]
			st.Fields = insert(t, st.Fields, m.Field{Name: m.Pick(t, "badname", badFieldNames), Type: m.Core("int")})
		}},
	{name: "invalid enum member name", needs: hasEnum,
		apply: func(t *rapid.T, s *m.Schema) {
			e := &s.Enums[m.Num(t, "en", 0, len(s.Enums)-1)]
			e.Members = insert(t, e.Members, m.Member{Name: m.Pick(t, "badname", badFieldNames), Explicit: true, Val: "77"})
		}},
	{name: "invalid JSON field name", needs: hasStruct,
		apply: func(t *rapid.T, s *m.Schema) {
			st := &s.Structs[m.Num(t, "st", 0, len(s.Structs)-1)]
			v := m.Pick(t, "badname", append([]string{"a b", "--", " ", "json-name,omitempty", "-a", "a\n", "\""}, badFieldNames...))
			mt := []m.Meta{{K: "json", V: v}}
			// among other entries, and other names that are valid
			for k := m.Num(t, "other-metas", 0, 3); k > 0; k-- {
				mt = insert(t, mt, m.Pick(t, "other-meta", []m.Meta{{K: "go.tag.db", V: "x"}, {K: "json", V: "fine98"}, {K: "json", V: "-"}, {K: "JSON", V: "ok"}}))
			}
			st.Fields = insert(t, st.Fields, m.Field{Name: "freshField99", Type: m.Core("int"), Meta: mt})
		}},
	{name: "duplicate service name", needs: hasSvc,
		apply: func(t *rapid.T, s *m.Schema) {
			s.Services = insert(t, s.Services, m.Service{Name: flipCase(t, m.Pick(t, "dups", s.Services).Name), Methods: []m.Method{{Name: "Ping"}}})
		}},
	{name: "duplicate method name", needs: hasSvc,
		apply: func(t *rapid.T, s *m.Schema) {
			sv := &s.Services[m.Num(t, "svc", 0, len(s.Services)-1)]
			sv.Methods = insert(t, sv.Methods, m.Method{Name: flipCase(t, m.Pick(t, "dupm", sv.Methods).Name)})
		}},
	{name: "duplicate error name", needs: hasErr,
		apply: func(t *rapid.T, s *m.Schema) {
			addErr(t, s, m.Err{Code: freeCode(s), Name: flipCase(t, bumpErr(t, s).Name), Msg: "x"})
		}},
	{name: "duplicate error code", needs: hasErr,
		apply: func(t *rapid.T, s *m.Schema) {
			addErr(t, s, m.Err{Code: bumpErr(t, s).Code, Name: "FreshError99", Msg: "x"})
		}},
	{name: "lower-case error name", needs: always,
		apply: func(t *rapid.T, s *m.Schema) {
			addErr(t, s, m.Err{Code: freeCode(s), Name: m.Pick(t, "ename", []string{"lower", "aB", "_X", "7x"}), Msg: "x"})
		}},
	{name: "reserved error name", needs: always,
		apply: func(t *rapid.T, s *m.Schema) {
			addErr(t, s, m.Err{Code: freeCode(s), Name: m.Pick(t, "ename", []string{"WebrpcX", "Webrpc", "WEBRPCError", "WebRPC_a", "WeBrPcEndpoint"}), Msg: "x"})
		}},
	{name: "error code not positive", needs: always,
		apply: func(t *rapid.T, s *m.Schema) { addErr(t, s, m.Err{Code: 0, Name: "FreshError99", Msg: "x"}) }},
	{name: "error code negative", needs: always, onlyJSON: true,
		apply: func(t *rapid.T, s *m.Schema) {
			addErr(t, s, m.Err{Code: -m.Num(t, "neg", 1, 100000), Name: "FreshError99", Msg: "x"})
		}},
	{name: "status out of range", needs: always,
		apply: func(t *rapid.T, s *m.Schema) {
			st := m.Pick(t, "status", []int{0, 1, 99, 100, 200, 204, 301, 399, 600, 601, 999, 4000, 40, 1000000})
			addErr(t, s, m.Err{Code: freeCode(s), Name: "FreshError99", Msg: "x", HasStatus: true, Status: st})
		}},
	{name: "status negative", needs: always, onlyJSON: true,
		apply: func(t *rapid.T, s *m.Schema) {
			addErr(t, s, m.Err{Code: freeCode(s), Name: "FreshError99", Msg: "x", HasStatus: true, Status: -m.Num(t, "neg", 1, 600)})
		}},
	{name: "empty error message", needs: always,
		apply: func(t *rapid.T, s *m.Schema) { addErr(t, s, m.Err{Code: freeCode(s), Name: "FreshError99"}) }},
	{name: "enum base type", needs: always,
		apply: func(t *rapid.T, s *m.Schema) {
			bases := []string{"bool", "bigint", "float32", "float64", "byte", "any", "null", "timestamp", "[]int", "[]string", "map<string,int>", "Undeclared", "String", "INT"}
			bases = append(bases, s.Order()...)
			e := m.Enum{Name: "FreshEnum99", Base: m.Pick(t, "base", bases)}
			for i := m.Num(t, "nmem", 0, 2); i > 0; i-- {
				e.Members = append(e.Members, m.Member{Name: fmt.Sprintf("M%d", i), Explicit: m.Num(t, "ex", 0, 1) == 1, Val: "5"})
			}
			s.Enums = insert(t, s.Enums, e)
		}},
	{name: "enum base type missing", needs: hasEnum, onlyJSON: true,
		json: func(t *rapid.T, s *m.Schema) func(*m.JObj) {
			n := m.Pick(t, "en", s.Enums).Name
			return func(d *m.JObj) { findType(d, n).Del("type") }
		}},
	{name: "struct field with a value", needs: hasFields, onlyJSON: true,
		json: func(t *rapid.T, s *m.Schema) func(*m.JObj) {
			st := s.Structs[m.Pick(t, "st", withFields(s))]
			i := m.Num(t, "f", 0, len(st.Fields)-1)
			return func(d *m.JObj) {
				findType(d, st.Name).Get("fields").(*m.JArr).E[i].(*m.JObj).Set("value", "1")
			}
		}},
	{name: "header line given twice", needs: always, onlyRIDL: true,
		ridl: func(t *rapid.T, s *m.Schema) func(string) string {
			at := m.Num(t, "at", 0, 1<<16)
			word := m.Pick(t, "header", []string{"webrpc", "name", "version", "basepath"})
			if word == "version" && s.Version == "" || word == "basepath" && s.BasePath == "" {
				word = "name"
			}
			val := m.Pick(t, "same", []string{"v1", "x"})
			if word == "webrpc" {
				val = "v1"
			}
			return func(src string) string { return repeatHeader(src, word, val, at) }
		}},
	{name: "annotation given twice", needs: hasSvc, onlyRIDL: true,
		apply: func(t *rapid.T, s *m.Schema) {
			mt := pickMethod(t, s)
			if len(mt.Annots) == 0 {
				mt.Annots = []m.Annot{{Name: "internal"}}
			}
			a := m.Pick(t, "dupa", mt.Annots)
			if m.Num(t, "other-value", 0, 1) == 1 {
				a.HasVal, a.Val = true, "other"
			}
			mt.Annots = insert(t, mt.Annots, a)
		}},
	{name: "empty name", needs: always, onlyJSON: true,
		json: func(t *rapid.T, s *m.Schema) func(*m.JObj) {
			k := m.Num(t, "empty", 0, 1<<16)
			return func(d *m.JObj) {
				os := named(d)
				if len(os) == 0 {
					types, _ := d.Get("types").(*m.JArr)
					if types == nil {
						types = &m.JArr{}
						d.Set("types", types)
					}
					types.E = append(types.E, obj("kind", "struct", "name", "", "fields", &m.JArr{}))
					return
				}
				o := os[k%len(os)]
				if k&1024 != 0 {
					o.Del("name")
				} else {
					o.Set("name", "")
				}
			}
		}},
	{name: "unknown kind of type", needs: func(s *m.Schema) bool { return len(s.Order()) > 0 }, onlyJSON: true,
		json: func(t *rapid.T, s *m.Schema) func(*m.JObj) {
			n := m.Pick(t, "type", s.Order())
			k := m.Pick(t, "kind", []string{"", "message", "Struct", "ENUM", "map", "list", "struct ", "type"})
			return func(d *m.JObj) { findType(d, n).Set("kind", k) }
		}},
	{name: "JSON field name that is no text", needs: hasFields, onlyJSON: true,
		json: func(t *rapid.T, s *m.Schema) func(*m.JObj) {
			st := s.Structs[m.Pick(t, "st", withFields(s))]
			i := m.Num(t, "f", 0, len(st.Fields)-1)
			lit := m.Pick(t, "lit", []string{"1", "true", "null", "{}", "[\"a\"]", "0.5"})
			return func(d *m.JObj) {
				findType(d, st.Name).Get("fields").(*m.JArr).E[i].(*m.JObj).Set("meta", &m.JArr{E: []any{obj("json", m.JRaw(lit))}})
			}
		}},
	{name: "enum member without value", needs: hasMembers, onlyJSON: true,
		json: func(t *rapid.T, s *m.Schema) func(*m.JObj) {
			e := s.Enums[m.Pick(t, "en", withMembers(s))]
			i := m.Num(t, "f", 0, len(e.Members)-1)
			del := m.Num(t, "del", 0, 1) == 1
			return func(d *m.JObj) {
				o := findType(d, e.Name).Get("fields").(*m.JArr).E[i].(*m.JObj)
				if del {
					o.Del("value")
				} else {
					o.Set("value", "")
				}
			}
		}},
	{name: "enum member with a type", needs: hasMembers, onlyJSON: true,
		json: func(t *rapid.T, s *m.Schema) func(*m.JObj) {
			e := s.Enums[m.Pick(t, "en", withMembers(s))]
			i := m.Num(t, "f", 0, len(e.Members)-1)
			return func(d *m.JObj) {
				findType(d, e.Name).Get("fields").(*m.JArr).E[i].(*m.JObj).Set("type", e.Base)
			}
		}},
	{name: "service without methods", needs: always,
		apply: func(t *rapid.T, s *m.Schema) {
			if s.Version == "" {
				s.Version = "1"
			}
			s.Services = insert(t, s.Services, m.Service{Name: "FreshService99"})
		}},
	{name: "undeclared method error", needs: hasSvc,
		apply: func(t *rapid.T, s *m.Schema) {
			mt := pickMethod(t, s)
			n := "UndeclaredError99"
			if len(s.Errors) > 0 && m.Num(t, "errcase", 0, 1) == 1 {
				e := bumpErr(t, s).Name
				f := e[:1] + strings.ToUpper(e[1:])
				if f == e {
					f = e[:1] + strings.ToLower(e[1:])
				}
				if f != e {
					n = f
				}
			}
			mt.Errors = insert(t, mt.Errors, n)
		}},
	{name: "short form with several arguments", needs: func(s *m.Schema) bool { return hasSvc(s) && hasStruct(s) },
		apply: func(t *rapid.T, s *m.Schema) {
			mt := pickMethod(t, s)
			a := func() m.Arg {
				n := m.Pick(t, "sst", s.Structs).Name
				return m.Arg{Name: m.LowerFirst(n), Type: m.Ref(n)}
			}
			mt.Succinct = true
			mt.In, mt.Out = []m.Arg{a()}, []m.Arg{a()}
			b := a()
			b.Name = "freshArg99"
			if m.Num(t, "side", 0, 1) == 0 {
				mt.In = insert(t, mt.In, b)
			} else {
				mt.Out = insert(t, mt.Out, b)
			}
		}},
	{name: "short form on one side", needs: func(s *m.Schema) bool { return hasSvc(s) && hasStruct(s) }, onlyRIDL: true,
		apply: func(t *rapid.T, s *m.Schema) {
			mt := pickMethod(t, s)
			n := m.Pick(t, "sst", s.Structs).Name
			short := []m.Arg{{Name: m.LowerFirst(n), Type: m.Ref(n)}}
			var long []m.Arg
			for i := m.Num(t, "nlong", 1, 2); i > 0; i-- {
				long = append(long, m.Arg{Name: fmt.Sprintf("a%d", i), Type: m.Core("int")})
			}
			mt.Succinct = true // the renderer takes the side with this mark
			if m.Num(t, "side", 0, 1) == 0 {
				mt.In, mt.Out = short, long
			} else {
				mt.In, mt.Out = long, short
			}
		}},
}

func obj(kv ...any) *m.JObj {
	o := &m.JObj{}
	for i := 0; i < len(kv); i += 2 {
		o.Set(kv[i].(string), kv[i+1])
	}
	return o
}

// named lists all objects of a JSON document that have to have a name.
func named(d *m.JObj) (out []*m.JObj) {
	each := func(v any, f func(*m.JObj)) {
		if a, _ := v.(*m.JArr); a != nil {
			for _, e := range a.E {
				f(e.(*m.JObj))
			}
		}
	}
	add := func(o *m.JObj) { out = append(out, o) }
	each(d.Get("types"), func(o *m.JObj) { add(o); each(o.Get("fields"), add) })
	each(d.Get("errors"), add)
	each(d.Get("services"), func(o *m.JObj) {
		add(o)
		each(o.Get("methods"), func(o *m.JObj) { add(o); each(o.Get("inputs"), add); each(o.Get("outputs"), add) })
	})
	return out
}

// repeatHeader adds a header line that is there already, somewhere before the
// first definition of another kind.
func repeatHeader(src, word, val string, at int) string {
	ls := strings.SplitAfter(src, "\n")
	var places []int
	for i, l := range ls {
		f := strings.TrimSpace(l)
		w, rest, ok := strings.Cut(f, "=")
		if !ok || !slices.Contains([]string{"webrpc", "name", "version", "basepath"}, strings.TrimSpace(w)) || strings.HasPrefix(rest, ">") {
			continue
		}
		places = append(places, i)
	}
	if len(places) == 0 {
		panic(pbt.HarnessError{Err: fmt.Errorf("no header lines in %q", src)})
	}
	return strings.Join(slices.Insert(ls, places[at%len(places)], word+" = "+val+"\n"), "")
}

func replaceVersion(src, v string) string {
	// the line is "webrpc = v1", with any blanks and perhaps quotes
	ls := strings.SplitAfter(src, "\n")
	for i, l := range ls {
		f := strings.TrimSpace(l)
		if strings.HasPrefix(f, "webrpc") {
			rest := strings.TrimSpace(strings.TrimPrefix(f, "webrpc"))
			if strings.HasPrefix(rest, "=") {
				if v == "" {
					ls[i] = "\n"
				} else {
					ls[i] = "webrpc = " + v + "\n"
				}
				return strings.Join(ls, "")
			}
		}
	}
	panic(pbt.HarnessError{Err: fmt.Errorf("no webrpc line in %q", src)})
}

func cloneSchema(s *m.Schema) *m.Schema {
	c := *s
	c.Aliases = slices.Clone(s.Aliases)
	c.Enums = slices.Clone(s.Enums)
	for i := range c.Enums {
		c.Enums[i].Members = slices.Clone(c.Enums[i].Members)
		for j := range c.Enums[i].Members {
			c.Enums[i].Members[j].Meta = slices.Clone(c.Enums[i].Members[j].Meta)
		}
	}
	c.Structs = slices.Clone(s.Structs)
	for i := range c.Structs {
		c.Structs[i].Fields = slices.Clone(c.Structs[i].Fields)
		for j := range c.Structs[i].Fields {
			c.Structs[i].Fields[j].Meta = slices.Clone(c.Structs[i].Fields[j].Meta)
		}
	}
	for i := range c.Aliases {
		c.Aliases[i].Meta = slices.Clone(c.Aliases[i].Meta)
	}
	c.Errors = slices.Clone(s.Errors)
	c.Services = slices.Clone(s.Services)
	for i := range c.Services {
		c.Services[i].Methods = slices.Clone(c.Services[i].Methods)
		for j := range c.Services[i].Methods {
			mt := &c.Services[i].Methods[j]
			mt.In, mt.Out = slices.Clone(mt.In), slices.Clone(mt.Out)
			mt.Errors = slices.Clone(mt.Errors)
			mt.Annots = slices.Clone(mt.Annots)
		}
	}
	c.TypeOrder = slices.Clone(s.TypeOrder)
	return &c
}

func genRule(t *rapid.T) any {
	cfg := m.Default()
	cfg.Docs = false
	cfg.Depth = 2
	cfg.Rich = rapid.Bool().Draw(t, "rich")
	cfg.NoVersion = true
	good := m.Gen(t, cfg)
	var fs []fault
	for _, f := range faults {
		if f.needs(good) {
			fs = append(fs, f)
		}
	}
	f := m.Pick(t, "fault", fs)
	bad := cloneSchema(good)
	if f.apply != nil {
		f.apply(t, bad)
	}
	c := &ruleCase{Fault: f.name}
	ro := m.GenRidlOpts(t, "lay")
	// in an imported file, or in the root
	imported := m.Num(t, "imported", 0, 3) == 3 && f.name != "webrpc version missing"
	files := func(src string) map[string]string {
		if imported {
			return map[string]string{"lib/x.ridl": src, "main.ridl": "webrpc = v1\nname = root\nversion = 1\nimport lib/x.ridl\n"}
		}
		return map[string]string{"main.ridl": src}
	}
	c.Good = files(good.RIDL(ro))
	if !f.onlyJSON {
		src := bad.RIDL(ro)
		if f.ridl != nil {
			src = f.ridl(t, bad)(src)
		}
		c.Bad = files(src)
	}
	jo := m.GenJSONOpts(t, "json")
	c.GoodJ = good.JSON(jo)
	if !f.onlyRIDL {
		if f.json != nil {
			jo.Edit = f.json(t, bad)
		}
		if f.name == "status out of range" || f.name == "status negative" || f.json != nil || f.apply != nil {
			c.BadJ = bad.JSON(jo)
		}
	}
	return c
}

// addNeeded adds to the library a definition that needs another one and gives
// member lists with and without the latter.
func addNeeded(t *rapid.T, lib *m.Schema) (with, without []string) {
	ref := m.Ref("NeededType")
	kind := m.Num(t, "needed", 0, 2)
	switch kind {
	case 0:
		lib.Structs = append(lib.Structs, m.Struct{Name: "NeededType", Fields: []m.Field{{Name: "a", Type: m.Core("string")}}})
	case 1:
		lib.Enums = append(lib.Enums, m.Enum{Name: "NeededType", Base: "uint8", Members: []m.Member{{Name: "A"}}})
	case 2:
		lib.Aliases = append(lib.Aliases, m.Alias{Name: "NeededType", Type: m.Core("string")})
	}
	expr := ref
	switch m.Num(t, "needed-in", 0, 5) {
	case 1:
		expr = m.List(ref)
	case 2:
		expr = m.MapOf(m.Core("string"), ref)
	case 3:
		expr = m.MapOf(m.Core("string"), m.List(m.List(ref)))
	case 4:
		if kind == 1 {
			expr = m.MapOf(ref, m.Core("int32"))
		}
	case 5:
		expr = m.List(m.MapOf(m.Core("int32"), ref))
	}
	need := "NeededType"
	with = []string{"Needy"}
	arg := []m.Arg{{Name: "a", Type: m.Core("string")}, {Name: "b", Type: expr, Opt: m.OneIn(t, "needed-opt", 3)}}
	switch m.Num(t, "needy", 0, 6) {
	case 0, 1:
		lib.Structs = append(lib.Structs, m.Struct{Name: "Needy", Fields: []m.Field{{Name: "x", Type: m.Core("int32")}, {Name: "y", Type: expr, Opt: m.OneIn(t, "needed-opt", 3)}}})
	case 2:
		lib.Aliases = append(lib.Aliases, m.Alias{Name: "Needy", Type: expr})
	case 3:
		lib.Services = append(lib.Services, m.Service{Name: "Needy", Methods: []m.Method{{Name: "Do"}, {Name: "Run", In: arg}}})
	case 4:
		lib.Services = append(lib.Services, m.Service{Name: "Needy", Methods: []m.Method{{Name: "Do"}, {Name: "Run", Out: arg}}})
	case 5:
		need = "NeededError"
		lib.Errors = append(lib.Errors, m.Err{Code: 9, Name: "NeededError", Msg: "x"})
		lib.Services = append(lib.Services, m.Service{Name: "Needy", Methods: []m.Method{{Name: "Do"}, {Name: "Run", Errors: []string{"OtherError", "NeededError"}}}})
		with = append(with, "OtherError")
	case 6: // through another one
		lib.Structs = append(lib.Structs, m.Struct{Name: "Needy", Fields: []m.Field{{Name: "x", Type: m.List(m.Ref("Middle"))}}}, m.Struct{Name: "Middle", Fields: []m.Field{{Name: "x", Type: expr}}})
		with = append(with, "Middle")
	}
	for _, n := range []string{"OtherType", "OtherError", "OtherService"} {
		if !slices.Contains(with, n) && rapid.Bool().Draw(t, n) {
			with = append(with, n)
		}
	}
	with = rapid.Permutation(with).Draw(t, "needed-order")
	return insert(t, with, need), with
}

// genCross splits a schema over files such that a name or code occurs in two
// of them.
func genCross(t *rapid.T) any {
	lib := &m.Schema{Name: "lib", Version: "1",
		Structs:  []m.Struct{{Name: "SharedType"}, {Name: "OtherType"}},
		Errors:   []m.Err{{Code: 7, Name: "SharedError", Msg: "x"}, {Code: 8, Name: "OtherError", Msg: "x"}},
		Services: []m.Service{{Name: "SharedService", Methods: []m.Method{{Name: "Ping"}}}, {Name: "OtherService", Methods: []m.Method{{Name: "Ping"}}}},
	}
	cfg := m.Default()
	cfg.Docs, cfg.Depth = false, 1
	cfg.MaxStruct, cfg.MaxEnum, cfg.MaxAlias, cfg.MaxMethod = 2, 1, 1, 2
	main := m.Gen(t, cfg)
	for i := range main.Errors {
		main.Errors[i].Code += 100
	}
	bad := cloneSchema(main)
	c := &ruleCase{}
	shared := ""
	var withNeeded, withoutNeeded []string
	switch m.Num(t, "cross", 0, 5) {
	case 4, 5:
		c.Fault = "member list lacks a needed definition"
		withNeeded, withoutNeeded = addNeeded(t, lib)
	case 0:
		c.Fault, shared = "duplicate type name across files", "SharedType"
		addType(t, bad, flipCase(t, shared))
	case 1:
		c.Fault, shared = "duplicate error name across files", "SharedError"
		addErr(t, bad, m.Err{Code: freeCode(bad), Name: flipCase(t, shared), Msg: "x"})
	case 2:
		c.Fault, shared = "duplicate error code across files", "SharedError"
		addErr(t, bad, m.Err{Code: 7, Name: "FreshError99", Msg: "x"})
	case 3:
		c.Fault, shared = "duplicate service name across files", "SharedService"
		bad.Services = insert(t, bad.Services, m.Service{Name: flipCase(t, shared), Methods: []m.Method{{Name: "Ping"}}})
	}
	ro := m.GenRidlOpts(t, "lay")
	head := &m.Schema{Name: "head", Version: "1"}
	l := lib.RIDL(m.RidlOpts{})
	// what main imports of lib; the other members don't clash
	members := func(t *rapid.T, good bool) []string {
		other := []string{"OtherType", "OtherError", "OtherService"}
		switch {
		case good:
			return other
		case m.OneIn(t, "members", 3):
			return append(other[:m.Num(t, "members-n", 0, 3):3], shared)
		}
		return nil
	}
	// without the shared definition in a file or in what is imported of it
	listed := m.OneIn(t, "good-by-list", 3)
	goodMain, goodList := main, []string(nil)
	if listed {
		goodMain, goodList = bad, members(t, true)
	}
	badList := members(t, false)
	if withNeeded != nil {
		goodMain, goodList, badList = main, withNeeded, withoutNeeded
	}
	lay := m.Num(t, "cross-layout", 0, 4)
	build := func(def *m.Schema, list []string) map[string]string {
		imp := m.Import{Path: "lib.ridl", Members: list}
		ro := ro
		switch lay {
		case 1: // two imported files
			other := m.Import{Path: "other.ridl"}
			h := m.RidlOpts{Imports: []m.Import{imp, other}}
			if len(ro.Lay)%2 == 1 {
				h.Imports[0], h.Imports[1] = other, imp
			}
			return map[string]string{"lib.ridl": l, "other.ridl": def.RIDL(ro), "main.ridl": head.RIDL(h)}
		case 2: // through another file
			ro.Imports = []m.Import{{Path: "mid.ridl"}}
			return map[string]string{"lib.ridl": l, "mid.ridl": head.RIDL(m.RidlOpts{Imports: []m.Import{imp}}), "main.ridl": def.RIDL(ro)}
		case 3: // in an imported file that imports the other one
			ro.Imports = []m.Import{imp}
			return map[string]string{"lib.ridl": l, "mid.ridl": def.RIDL(ro), "main.ridl": head.RIDL(m.RidlOpts{Imports: []m.Import{{Path: "mid.ridl"}}})}
		case 4: // a file that is imported twice
			mid := head.RIDL(m.RidlOpts{Imports: []m.Import{imp}})
			ro.Imports = []m.Import{{Path: "mid.ridl"}, imp}
			return map[string]string{"lib.ridl": l, "mid.ridl": mid, "main.ridl": def.RIDL(ro)}
		}
		ro.Imports = []m.Import{imp}
		return map[string]string{"lib.ridl": l, "main.ridl": def.RIDL(ro)}
	}
	c.Good = build(goodMain, goodList)
	c.Bad = build(bad, badList)
	return c
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:   "C09",
		Rule: "a random valid schema and the same with a single fault injected at a random place (36 kinds of faults; in the root file, an imported file or across the two), as RIDL and as JSON; non-trivial: the fault-free schema is accepted, i.e. the fault is the only one",
		New:  func() any { return &ruleCase{} },
		Gen: func(t *rapid.T) any {
			if m.OneIn(t, "cross-file", 8) {
				return genCross(t)
			}
			return genRule(t)
		},
		Quick: 8000, Deep: 150000,
		Check: func(v any, o *pbt.Obs) error {
			c := v.(*ruleCase)
			o.Class(c.Fault)
			if c.Good != nil {
				if _, err := parseFiles(c.Good, "main.ridl"); err != nil {
					return fmt.Errorf("RIDL without the fault (%s) is rejected: %v\n%s", c.Fault, err, showFiles(c.Good))
				}
			}
			if c.GoodJ != "" {
				if _, err := parseJSON(c.GoodJ); err != nil {
					return fmt.Errorf("JSON without the fault (%s) is rejected: %v\n%s", c.Fault, err, excerpt(c.GoodJ))
				}
			}
			o.NonTrivial(true)
			o.Sig(c.Bad["main.ridl"] + c.Bad["lib/x.ridl"] + "\x00" + c.BadJ)
			o.Sample(map[string]any{"fault": c.Fault, "ridl": c.Bad, "json": c.BadJ})
			if c.Bad != nil {
				s, err := parseFiles(c.Bad, "main.ridl")
				if err == nil {
					return fmt.Errorf("RIDL with %s is accepted\n%s", c.Fault, showFiles(c.Bad))
				}
				if s != nil {
					return fmt.Errorf("RIDL with %s gives both a schema and an error\n%s", c.Fault, showFiles(c.Bad))
				}
				if err.Error() == "" {
					return fmt.Errorf("RIDL with %s gives an empty error\n%s", c.Fault, showFiles(c.Bad))
				}
			}
			if c.BadJ != "" {
				if _, err := parseJSON(c.BadJ); err == nil {
					return fmt.Errorf("JSON with %s is accepted\n%s", c.Fault, excerpt(c.BadJ))
				}
			}
			return nil
		},
	})
}

func showFiles(fs map[string]string) string {
	var b strings.Builder
	for _, k := range m.SortedKeys(fs) {
		fmt.Fprintf(&b, "--- %s ---\n%s\n", k, excerpt(fs[k]))
	}
	return b.String()
}

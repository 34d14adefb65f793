// Package model is the reference model: schemas as plain data, independent of
// the code under test, with random generators, renderers to RIDL and JSON, and
// the expected outcome of parsing them.
package model

import (
	"fmt"
	"sort"
	"strings"
)

// Type is a type expression.
type Type struct {
	K    string `json:"k"`           // core, ref, list, map
	N    string `json:"n,omitempty"` // name of the core type or of the declared type
	Key  *Type  `json:"key,omitempty"`
	Elem *Type  `json:"elem,omitempty"`
}

func Core(n string) *Type    { return &Type{K: "core", N: n} }
func Ref(n string) *Type     { return &Type{K: "ref", N: n} }
func List(e *Type) *Type     { return &Type{K: "list", Elem: e} }
func MapOf(k, e *Type) *Type { return &Type{K: "map", Key: k, Elem: e} }
func (t *Type) Depth() int {
	if t == nil || t.Elem == nil {
		return 0
	}
	return 1 + t.Elem.Depth()
}

// Expr is the canonical text: no blanks.
func (t *Type) Expr() string {
	switch t.K {
	case "list":
		return "[]" + t.Elem.Expr()
	case "map":
		return "map<" + t.Key.Expr() + "," + t.Elem.Expr() + ">"
	}
	return t.N
}

// Refs calls f for each declared type named in the expression.
func (t *Type) Refs(f func(name string)) {
	if t == nil {
		return
	}
	if t.K == "ref" {
		f(t.N)
	}
	t.Key.Refs(f)
	t.Elem.Refs(f)
}

func (t *Type) Clone() *Type {
	if t == nil {
		return nil
	}
	return &Type{K: t.K, N: t.N, Key: t.Key.Clone(), Elem: t.Elem.Clone()}
}

type Meta struct {
	K    string `json:"k"`
	V    string `json:"v"`
	Lit  string `json:"lit,omitempty"`  // JSON literal instead of the string V (JSON only)
	Join bool   `json:"join,omitempty"` // part of the same object as the entry before (JSON only)
}

type Doc struct {
	Above []string `json:"above,omitempty"` // "!..." are ignored lines
	Trail string   `json:"trail,omitempty"`
	Raw   []string `json:"raw,omitempty"` // instead of all that, in JSON only
}

func (d Doc) Lines() []string {
	if d.Raw != nil {
		return d.Raw
	}
	var out []string
	for _, l := range d.Above {
		if !strings.HasPrefix(l, "!") {
			out = append(out, l)
		}
	}
	if d.Trail != "" && !strings.HasPrefix(d.Trail, "!") {
		out = append(out, d.Trail)
	}
	return out
}

type Field struct {
	Name string `json:"name"`
	Type *Type  `json:"type"`
	Opt  bool   `json:"opt,omitempty"`
	Meta []Meta `json:"meta,omitempty"`
	Doc  Doc    `json:"doc"`
}

type Alias struct {
	Name string `json:"name"`
	Type *Type  `json:"type"`
	Meta []Meta `json:"meta,omitempty"`
	Doc  Doc    `json:"doc"`
}

type Member struct {
	Name     string `json:"name"`
	Explicit bool   `json:"explicit,omitempty"`
	Val      string `json:"val,omitempty"`
	Meta     []Meta `json:"meta,omitempty"` // JSON only
	Doc      Doc    `json:"doc"`
}

type Enum struct {
	Name    string   `json:"name"`
	Base    string   `json:"base"`
	Members []Member `json:"members,omitempty"`
	Meta    []Meta   `json:"meta,omitempty"` // JSON only
	Doc     Doc      `json:"doc"`            // RIDL drops it, JSON keeps it (EnumDocs)
}

type Struct struct {
	Name   string  `json:"name"`
	Fields []Field `json:"fields,omitempty"`
	Meta   []Meta  `json:"meta,omitempty"` // JSON only
	Doc    Doc     `json:"doc"`
}

type Err struct {
	Code      int    `json:"code"`
	Name      string `json:"name"`
	Msg       string `json:"msg"`
	HasStatus bool   `json:"hasStatus,omitempty"`
	Status    int    `json:"status,omitempty"`
}

type Arg struct {
	Name string `json:"name"`
	Type *Type  `json:"type"`
	Opt  bool   `json:"opt,omitempty"`
	Meta []Meta `json:"meta,omitempty"` // JSON only
}

type Annot struct {
	Name   string `json:"name"`
	HasVal bool   `json:"hasVal,omitempty"`
	Val    string `json:"val,omitempty"`
	Other  bool   `json:"other,omitempty"` // JSON only: the type member is not the name but As
	As     string `json:"as,omitempty"`
}

type Method struct {
	Name     string   `json:"name"`
	Annots   []Annot  `json:"annots,omitempty"`
	SIn      bool     `json:"sin,omitempty"`
	SOut     bool     `json:"sout,omitempty"`
	Succinct bool     `json:"succinct,omitempty"`
	In       []Arg    `json:"in,omitempty"`
	Out      []Arg    `json:"out,omitempty"`
	Errors   []string `json:"errors,omitempty"`
	Doc      Doc      `json:"doc"`
}

type Service struct {
	Name    string   `json:"name"`
	Methods []Method `json:"methods"`
	Doc     Doc      `json:"doc"`
}

type Schema struct {
	Name     string    `json:"name"`
	Version  string    `json:"version"`
	BasePath string    `json:"basepath,omitempty"`
	Aliases  []Alias   `json:"aliases,omitempty"`
	Enums    []Enum    `json:"enums,omitempty"`
	Structs  []Struct  `json:"structs,omitempty"`
	Errors   []Err     `json:"errors,omitempty"`
	Services []Service `json:"services,omitempty"`

	// TypeOrder is the order of all types by name; empty means aliases,
	// enums, structs (as in RIDL).
	TypeOrder []string `json:"typeOrder,omitempty"`
}

// Kinds maps declared type names to alias, enum or struct.
func (s *Schema) Kinds() map[string]string {
	m := map[string]string{}
	for _, a := range s.Aliases {
		m[a.Name] = "alias"
	}
	for _, a := range s.Enums {
		m[a.Name] = "enum"
	}
	for _, a := range s.Structs {
		m[a.Name] = "struct"
	}
	return m
}

func (s *Schema) Order() []string {
	if len(s.TypeOrder) > 0 {
		return s.TypeOrder
	}
	var out []string
	for _, a := range s.Aliases {
		out = append(out, a.Name)
	}
	for _, a := range s.Enums {
		out = append(out, a.Name)
	}
	for _, a := range s.Structs {
		out = append(out, a.Name)
	}
	return out
}

func (s *Schema) Alias(n string) *Alias {
	for i := range s.Aliases {
		if s.Aliases[i].Name == n {
			return &s.Aliases[i]
		}
	}
	return nil
}

func (s *Schema) Enum(n string) *Enum {
	for i := range s.Enums {
		if s.Enums[i].Name == n {
			return &s.Enums[i]
		}
	}
	return nil
}

func (s *Schema) Struct(n string) *Struct {
	for i := range s.Structs {
		if s.Structs[i].Name == n {
			return &s.Structs[i]
		}
	}
	return nil
}

// AllTypes calls f for every type expression in the schema.
func (s *Schema) AllTypes(f func(t *Type)) {
	for i := range s.Aliases {
		f(s.Aliases[i].Type)
	}
	for i := range s.Structs {
		for j := range s.Structs[i].Fields {
			f(s.Structs[i].Fields[j].Type)
		}
	}
	for i := range s.Services {
		for j := range s.Services[i].Methods {
			m := &s.Services[i].Methods[j]
			for k := range m.In {
				f(m.In[k].Type)
			}
			for k := range m.Out {
				f(m.Out[k].Type)
			}
		}
	}
}

// Mask selects what a view shows.
type Mask int

const (
	Header Mask = 1 << iota
	Types
	Members // enum member values
	Errors
	Services
	Docs
	Resolve // resolved structure of type expressions
	BasePath
	EnumDocs // doc comments of enums themselves
)

const Everything = Header | Types | Members | Errors | Services | Docs | Resolve | BasePath

// NormBase is the expected base path.
func NormBase(b string) string {
	if b == "" {
		return ""
	}
	if !strings.HasPrefix(b, "/") {
		b = "/" + b
	}
	if !strings.HasSuffix(b, "/") {
		b += "/"
	}
	return b
}

// View renders the expected parse result, one fact per line.
func (s *Schema) View(mask Mask) []string {
	v := &viewer{mask: mask}
	kinds := s.Kinds()
	order := s.Order()
	idx := map[string]int{}
	for i, n := range order {
		idx[n] = i
	}
	var res func(t *Type, key bool) string
	res = func(t *Type, key bool) string {
		switch t.K {
		case "core":
			return t.N
		case "list":
			return "list(" + res(t.Elem, false) + ")"
		case "map":
			return "map(" + res(t.Key, true) + "=>" + res(t.Elem, false) + ")"
		}
		k := kinds[t.N]
		if key {
			k = "enum" // keys are linked as enum, even if named by an alias
		}
		return fmt.Sprintf("%s:%s@%d", k, t.N, idx[t.N])
	}
	rt := func(t *Type) (string, string) { return t.Expr(), res(t, false) }

	v.header(s.Name, s.Version, NormBase(s.BasePath))
	for _, n := range order {
		switch kinds[n] {
		case "alias":
			a := s.Alias(n)
			e, r := rt(a.Type)
			v.typ("alias", n, e, r)
			v.meta(metaStrings(a.Meta))
			v.docs(a.Doc.Lines())
		case "enum":
			en := s.Enum(n)
			v.typ("enum", n, en.Base, en.Base)
			v.meta(metaStrings(en.Meta))
			v.enumDocs(en.Doc.Lines())
			for i, m := range en.Members {
				v.member(m.Name, EnumValue(en, i))
				v.meta(metaStrings(m.Meta))
				v.docs(m.Doc.Lines())
			}
		case "struct":
			st := s.Struct(n)
			v.typ("struct", n, "", "")
			v.meta(metaStrings(st.Meta))
			v.docs(st.Doc.Lines())
			for _, f := range st.Fields {
				e, r := rt(f.Type)
				v.field(f.Name, e, r, f.Opt)
				v.meta(metaStrings(f.Meta))
				v.docs(f.Doc.Lines())
			}
		}
	}
	for _, e := range s.Errors {
		st := 400
		if e.HasStatus {
			st = e.Status
		}
		v.err(e.Code, e.Name, e.Msg, st)
	}
	for _, sv := range s.Services {
		v.service(sv.Name)
		v.docs2(sv.Doc.Lines())
		for _, m := range sv.Methods {
			v.method(m.Name, m.Succinct, m.SIn, m.SOut)
			var an []string
			for _, a := range m.Annots {
				if a.Other && a.As != a.Name {
					an = append(an, fmt.Sprintf("%q stored under %q", a.As, a.Name))
					continue
				}
				an = append(an, fmt.Sprintf("%q=%q", a.Name, a.Val))
			}
			v.annots(an)
			for _, a := range m.In {
				e, r := rt(a.Type)
				v.arg("in", a.Name, e, r, a.Opt)
				v.argMeta(metaStrings(a.Meta))
			}
			for _, a := range m.Out {
				e, r := rt(a.Type)
				v.arg("out", a.Name, e, r, a.Opt)
				v.argMeta(metaStrings(a.Meta))
			}
			v.errs(m.Errors)
			v.docs2(m.Doc.Lines())
		}
	}
	return v.out
}

func EnumValue(en *Enum, i int) string {
	m := en.Members[i]
	if m.Explicit {
		return m.Val
	}
	if en.Base == "string" {
		return m.Name
	}
	return fmt.Sprint(i)
}

func metaStrings(ms []Meta) []string {
	var out []string
	for i := 0; i < len(ms); {
		j := i + 1
		for j < len(ms) && ms[j].Join {
			j++
		}
		var parts []string
		for _, m := range ms[i:j] {
			if m.Lit != "" {
				parts = append(parts, fmt.Sprintf("%q=%s", m.K, normLit(m.Lit)))
			} else {
				parts = append(parts, fmt.Sprintf("%q=%s", m.K, jsonString(m.V)))
			}
		}
		sort.Strings(parts)
		out = append(out, strings.Join(parts, " "))
		i = j
	}
	return out
}

type viewer struct {
	mask Mask
	out  []string
}

func (v *viewer) add(m Mask, f string, a ...any) {
	if v.mask&m != 0 {
		v.out = append(v.out, fmt.Sprintf(f, a...))
	}
}

func (v *viewer) res(r string) string {
	if v.mask&Resolve == 0 {
		return ""
	}
	return " resolved " + r
}

func (v *viewer) header(name, version, base string) {
	v.add(Header, "schema name=%q version=%q", name, version)
	v.add(BasePath, "basepath=%q", base)
}
func (v *viewer) typ(kind, name, expr, res string) {
	v.add(Types|Members, "type %s %q : %q%s", kind, name, expr, v.res(res))
}
func (v *viewer) meta(ms []string) {
	for _, m := range ms {
		v.add(Types, "    meta %s", m)
	}
}
func (v *viewer) docs(ds []string) {
	for _, d := range ds {
		v.add(Docs, "    doc %q", d)
	}
}
func (v *viewer) argMeta(ms []string) {
	for _, m := range ms {
		v.add(Services, "      meta %s", m)
	}
}
func (v *viewer) enumDocs(ds []string) {
	for _, d := range ds {
		v.add(EnumDocs, "    doc %q", d)
	}
}
func (v *viewer) docs2(ds []string) { v.docs(ds) }
func (v *viewer) member(name, val string) {
	if v.mask&Members != 0 {
		v.add(Members, "  member %q = %q", name, val)
	} else {
		v.add(Types, "  member %q", name)
	}
}
func (v *viewer) field(name, expr, res string, opt bool) {
	v.add(Types, "  field %q : %q optional=%v%s", name, expr, opt, v.res(res))
}
func (v *viewer) err(code int, name, msg string, status int) {
	v.add(Errors, "error %d %q %q %d", code, name, msg, status)
}
func (v *viewer) service(name string) { v.add(Services, "service %q", name) }
func (v *viewer) method(name string, succ, sin, sout bool) {
	v.add(Services, "  method %q succinct=%v streamInput=%v streamOutput=%v", name, succ, sin, sout)
}
func (v *viewer) annots(an []string) {
	sort.Strings(an)
	for _, a := range an {
		v.add(Services, "    annotation %s", a)
	}
}
func (v *viewer) arg(dir, name, expr, res string, opt bool) {
	v.add(Services, "    %s %q : %q optional=%v%s", dir, name, expr, opt, v.res(res))
}
func (v *viewer) errs(es []string) {
	for _, e := range es {
		v.add(Services, "    throws %q", e)
	}
}

// Diff describes the first difference of two views, or "".
func Diff(want, got []string) string {
	for i := 0; i < len(want) || i < len(got); i++ {
		w, g := "<nothing>", "<nothing>"
		if i < len(want) {
			w = want[i]
		}
		if i < len(got) {
			g = got[i]
		}
		if w != g {
			ctx := ""
			for j := i - 1; j >= 0 && j < len(want); j-- {
				if !strings.HasPrefix(want[j], "    ") {
					ctx = " (after " + strings.TrimSpace(want[j]) + ")"
					break
				}
			}
			return fmt.Sprintf("expected: %s\n     got: %s%s", strings.TrimSpace(w), strings.TrimSpace(g), ctx)
		}
	}
	return ""
}

package genp

import (
	"fmt"
	"strings"

	"github.com/webrpc/webrpc/schema"
	"pgregory.net/rapid"

	m "verif/harness/model"
	"verif/harness/pbt"
)

// C26: the type functions, over every type position of a schema.
type typeCase struct {
	Src source `json:"src"`
	// a misuse: function and index of the type
	Bad   string `json:"bad,omitempty"`
	BadAt int    `json:"badAt,omitempty"`
	Text  bool   `json:"text,omitempty"`
}

const typeTemplates = `{{- define "f"}}{{isCoreType .}},{{isBasicType .}},{{isStructType .}},{{isEnumType .}},{{isAliasType .}},{{isListType .}},{{isMapType .}}{{end -}}
{{- define "v"}}{{.}}|{{template "f" .}}{{if isMapType .}}<{{mapKeyType .}};{{mapValueType .}}|{{.Map.Key}}|{{isCoreType .Map.Key}}{{isListType .Map.Key}}{{isMapType .Map.Key}};{{template "v" .Map.Value}}>{{else if isListType .}}[{{template "v" (listElemType .)}}]{{end}}{{end -}}
{{- define "t"}}{{.}}|{{template "f" .}}{{if isMapType .}}<{{mapKeyType .}};{{template "t" (mapKeyType .)}};{{template "t" (mapValueType .)}}>{{else if isListType .}}[{{template "t" (listElemType .)}}]{{end}}{{end -}}
{{- define "r"}}{{if isMapType .}}map<{{mapKeyType .}},{{template "r" (mapValueType .)}}>{{else if isListType .}}[]{{template "r" (listElemType .)}}{{else}}{{.}}{{end}}{{end -}}
{{- define "all"}}{{template "v" .}}
{{template "t" (print .)}}
{{template "r" .}}
{{template "r" (print .)}}
{{end -}}
`

const typeMain = typeTemplates + `{{- define "main" -}}
{{range .Types}}decl {{.Name}} {{template "f" .}}
{{if isAliasType .}}{{template "all" .Type}}{{end}}{{if isEnumType .}}{{template "all" .Type}}{{end}}{{if isStructType .}}{{range .Fields}}{{template "all" .Type}}{{end}}{{end}}{{end -}}
{{range .Services}}{{range .Methods}}{{range .Inputs}}{{template "all" .Type}}{{end}}{{range .Outputs}}{{template "all" .Type}}{{end}}{{end}}{{end -}}
{{range .Opts.values}}value {{template "f" .}}{{if isMapType .}} {{mapKeyType .}}{{end}}
{{end -}}
{{range .Opts.decls}}value {{template "f" .}}
{{end -}}
{{- end -}}
`

// values are the types of the schema as values rather than pointers.
func values(s *schema.WebRPCSchema) (vars []schema.VarType, decls []schema.Type) {
	for _, t := range s.Types {
		decls = append(decls, *t)
		switch t.Kind {
		case "alias", "enum":
			vars = append(vars, *t.Type)
		case "struct":
			for _, f := range t.Fields {
				vars = append(vars, *f.Type)
			}
		}
	}
	return
}

func flagText(k string) string {
	is := func(x string) bool { return k == x }
	return fmt.Sprintf("%v,%v,%v,%v,%v,%v,%v", is("core"), is("core"), is("struct"), is("enum"), is("alias"), is("list"), is("map"))
}

func kindOf(s *m.Schema, t *m.Type, kinds map[string]string) string {
	if t.K == "ref" {
		return kinds[t.N]
	}
	return t.K
}

func (c *typeCase) expect() string {
	s := c.Src.Schema
	kinds := s.Kinds()
	var b strings.Builder
	var v, tx func(t *m.Type)
	v = func(t *m.Type) {
		k := kindOf(s, t, kinds)
		b.WriteString(t.Expr() + "|" + flagText(k))
		switch t.K {
		case "map":
			b.WriteString("<" + t.Key.Expr() + ";" + t.Elem.Expr() + "|")
			// keys named by an alias of an enum are neither here, don't ask for enums
			b.WriteString(fmt.Sprintf("%s|%vfalsefalse;", t.Key.Expr(), t.Key.K == "core"))
			v(t.Elem)
			b.WriteString(">")
		case "list":
			b.WriteString("[")
			v(t.Elem)
			b.WriteString("]")
		}
	}
	tx = func(t *m.Type) {
		k := t.K
		if k == "ref" {
			k = "?" // a name alone doesn't tell what it stands for
		}
		b.WriteString(t.Expr() + "|" + flagText(k))
		switch t.K {
		case "map":
			b.WriteString("<" + t.Key.Expr() + ";")
			tx(t.Key)
			b.WriteString(";")
			tx(t.Elem)
			b.WriteString(">")
		case "list":
			b.WriteString("[")
			tx(t.Elem)
			b.WriteString("]")
		}
	}
	all := func(t *m.Type) {
		v(t)
		b.WriteString("\n")
		tx(t)
		b.WriteString("\n" + t.Expr() + "\n" + t.Expr() + "\n")
	}
	vals, decls := "", ""
	value := func(t *m.Type) {
		vals += "value " + flagText(kindOf(s, t, kinds))
		if t.K == "map" {
			vals += " " + t.Key.Expr()
		}
		vals += "\n"
	}
	for _, n := range s.Order() {
		decls += "value " + flagText(kinds[n]) + "\n"
		b.WriteString("decl " + n + " " + flagText(kinds[n]) + "\n")
		switch kinds[n] {
		case "alias":
			all(s.Alias(n).Type)
			value(s.Alias(n).Type)
		case "enum":
			all(m.Core(s.Enum(n).Base))
			value(m.Core(s.Enum(n).Base))
		case "struct":
			for _, f := range s.Struct(n).Fields {
				all(f.Type)
				value(f.Type)
			}
		}
	}
	for _, sv := range s.Services {
		for _, mt := range sv.Methods {
			for _, a := range mt.In {
				all(a.Type)
			}
			for _, a := range mt.Out {
				all(a.Type)
			}
		}
	}
	return b.String() + vals + decls
}

func (c *typeCase) check(o *pbt.Obs) error {
	s, err := c.Src.parse()
	if err != nil {
		return err
	}
	if c.Bad != "" {
		return c.misuse(o)
	}
	vars, decls := values(s)
	got, err := render(s, typeMain, map[string]any{"values": vars, "decls": decls})
	if err != nil {
		return fmt.Errorf("the template fails: %v\n--- schema ---\n%s", err, excerpt(c.Src.text()))
	}
	if d := diffLines(c.expect(), got); d != "" {
		return fmt.Errorf("template over all types (core,basic,struct,enum,alias,list,map), %s\n--- schema ---\n%s", d, excerpt(c.Src.text()))
	}
	depth, n := 0, 0
	c.Src.Schema.AllTypes(func(t *m.Type) {
		n++
		depth = max(depth, t.Depth())
		o.ClassIf(t.K == "map", "map")
		o.ClassIf(t.K == "list", "list")
		o.ClassIf(t.K == "ref", "declared type")
		o.ClassIf(t.K == "core", "core type")
		o.ClassIf(t.Depth() > 1, "nested")
	})
	o.NonTrivial(depth > 0 && n > 1)
	return nil
}

// misuse asks for the parts of something that has none.
func (c *typeCase) misuse(o *pbt.Obs) error {
	s, err := c.Src.parse()
	if err != nil {
		return err
	}
	var fields []string
	var types []*m.Type
	for i, st := range c.Src.Schema.Structs {
		_ = i
		for j, f := range st.Fields {
			fits := f.Type.K == "map"
			if c.Bad == "listElemType" {
				fits = f.Type.K == "list"
			}
			if !fits {
				fields = append(fields, fmt.Sprintf(`{{range .Types}}{{if eq .Name %q}}{{(index .Fields %d).Type | ARG%s}}{{end}}{{end}}`, st.Name, j, c.Bad))
				types = append(types, f.Type)
			}
		}
	}
	if len(fields) == 0 {
		return nil
	}
	k := c.BadAt % len(fields)
	text := strings.ReplaceAll(fields[k], "ARG", map[bool]string{true: "print | ", false: ""}[c.Text])
	o.NonTrivial(true)
	o.Class("parts of a type without such parts")
	out, err := render(s, body(text), nil)
	if err == nil {
		return fmt.Errorf("%s of %s gives %q rather than an error", c.Bad, types[k].Expr(), out)
	}
	return nil
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:   "C26",
		Rule: "a schema with nested types; a template prints what every type function says about every type in it (declarations, alias targets, enum bases, fields, arguments) and all of its parts, for the resolved type and for its text, and rebuilds the expression recursively; or it asks for the parts of a type that has none; non-trivial if a type is nested or misused",
		New:  func() any { return &typeCase{} },
		Gen: func(t *rapid.T) any {
			c := &typeCase{}
			cfg := m.Default()
			cfg.Docs, cfg.Rich = false, false
			cfg.Nested, cfg.RefBias = true, true
			cfg.Depth = m.Num(t, "depth", 1, 6)
			if m.OneIn(t, "misuse", 8) {
				cfg.MinStruct = 1
				cfg.MinField = 1
				c.Bad = m.Pick(t, "fn", []string{"mapKeyType", "mapValueType", "listElemType"})
				c.BadAt = m.Num(t, "at", 0, 50)
				c.Text = rapid.Bool().Draw(t, "text")
			}
			c.Src = genSource(t, cfg)
			return c
		},
		Check: func(c any, o *pbt.Obs) error { return c.(*typeCase).check(o) },
		Quick: 1500, Deep: 120000,
	})
}

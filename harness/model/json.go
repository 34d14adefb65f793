package model

import (
	"fmt"
	"strings"
	"unicode/utf16"
)

// JSONOpts says what the JSON renderer may vary.
type JSONOpts struct {
	Lay     []byte `json:"lay,omitempty"`
	Shuffle bool   `json:"shuffle,omitempty"` // member order
	Space   bool   `json:"space,omitempty"`   // insignificant whitespace
	Escape  bool   `json:"escape,omitempty"`  // optional string escapes
	Omit    bool   `json:"omit,omitempty"`    // leave out members that are empty
	Extra   bool   `json:"extra,omitempty"`   // members that the format doesn't have

	Types func(where string, t *Type) string `json:"-"`
	// Edit changes the document tree before it's rendered.
	Edit func(doc *JObj) `json:"-"`
}

// JObj is an object with ordered members, JArr an array, JRaw any other value.
type JObj struct{ M []JMember }
type JMember struct {
	K string
	V any
}
type JArr struct{ E []any }
type JRaw string

func (o *JObj) Get(k string) any {
	for _, m := range o.M {
		if m.K == k {
			return m.V
		}
	}
	return nil
}

func (o *JObj) Set(k string, v any) {
	for i, m := range o.M {
		if m.K == k {
			o.M[i].V = v
			return
		}
	}
	o.M = append(o.M, JMember{k, v})
}

func (o *JObj) Del(k string) {
	for i, m := range o.M {
		if m.K == k {
			o.M = append(o.M[:i:i], o.M[i+1:]...)
			return
		}
	}
}

type jsonw struct {
	o JSONOpts
	l *Lay
}

// JSON renders the schema as a JSON document.
func (s *Schema) JSON(o JSONOpts) string {
	w := &jsonw{o: o, l: &Lay{D: o.Lay}}
	doc := w.tree(s)
	if o.Extra {
		w.extra(doc)
	}
	if o.Edit != nil {
		o.Edit(doc)
	}
	var b strings.Builder
	w.render(&b, doc)
	return b.String()
}

var extraNames = []string{"description", "$schema", "imports", "x-note", "deprecated", "", "é", "id", "extends"}
var extraValues = []string{`null`, `true`, `1`, `-2.5e3`, `"text"`, `""`, `[]`, `{}`, `{"name":"other","type":[{"a":null}]}`, `[1,"x",{"kind":"struct"}]`}

// extra adds members to the parts of a schema, but not to those whose members
// have any name.
func (w *jsonw) extra(o *JObj) {
	for _, m := range o.M {
		switch m.K {
		case "types", "fields", "errors", "services", "methods", "inputs", "outputs":
			if a, ok := m.V.(*JArr); ok {
				for _, e := range a.E {
					if sub, ok := e.(*JObj); ok {
						w.extra(sub)
					}
				}
			}
		}
	}
	if w.l.n(3) == 0 {
		o.M = append(o.M, JMember{extraNames[w.l.n(len(extraNames))], JRaw(extraValues[w.l.n(len(extraValues))])})
	}
}

// JSONDoc is the document in its plain form.
func (s *Schema) JSONDoc() *JObj { return (&jsonw{l: &Lay{}}).tree(s) }

// RenderDoc writes down a document in its plain form.
func RenderDoc(doc *JObj) string {
	var b strings.Builder
	(&jsonw{l: &Lay{}}).render(&b, doc)
	return b.String()
}

func str(s string) any { return s }

func (w *jsonw) tree(s *Schema) *JObj {
	doc := &JObj{}
	doc.Set("webrpc", "v1")
	doc.Set("name", s.Name)
	if s.Version != "" || !w.omit() {
		doc.Set("version", s.Version)
	}
	if s.BasePath != "" || !w.omit() {
		doc.Set("basepath", s.BasePath)
	}
	types := &JArr{}
	kinds := s.Kinds()
	for _, n := range s.Order() {
		t := &JObj{}
		t.Set("kind", kinds[n])
		t.Set("name", n)
		switch kinds[n] {
		case "alias":
			a := s.Alias(n)
			t.Set("type", w.typ("type:"+n, a.Type))
			w.metas(t, a.Meta)
			w.docs(t, a.Doc, true)
		case "enum":
			e := s.Enum(n)
			t.Set("type", w.typ("enum:"+n, Core(e.Base)))
			fs := &JArr{}
			for i, m := range e.Members {
				f := &JObj{}
				f.Set("name", m.Name)
				f.Set("value", EnumValue(e, i))
				w.metas(f, m.Meta)
				w.docs(f, m.Doc, true)
				fs.E = append(fs.E, f)
			}
			if len(fs.E) > 0 || !w.omit() {
				t.Set("fields", fs)
			}
			w.metas(t, e.Meta)
			w.docs(t, e.Doc, true)
		case "struct":
			st := s.Struct(n)
			fs := &JArr{}
			for i := range st.Fields {
				sf := &st.Fields[i]
				f := &JObj{}
				f.Set("name", sf.Name)
				f.Set("type", w.typ("field:"+n+"."+sf.Name, sf.Type))
				if sf.Opt || !w.omit() {
					f.Set("optional", sf.Opt)
				}
				w.metas(f, sf.Meta)
				w.docs(f, sf.Doc, true)
				fs.E = append(fs.E, f)
			}
			if len(fs.E) > 0 || !w.omit() {
				t.Set("fields", fs)
			}
			w.metas(t, st.Meta)
			w.docs(t, st.Doc, true)
		}
		types.E = append(types.E, t)
	}
	if len(types.E) > 0 || !w.omit() {
		doc.Set("types", types)
	}
	errs := &JArr{}
	for _, e := range s.Errors {
		j := &JObj{}
		j.Set("code", JRaw(fmt.Sprint(e.Code)))
		j.Set("name", e.Name)
		j.Set("message", e.Msg)
		st := 400
		if e.HasStatus {
			st = e.Status
		}
		j.Set("httpStatus", JRaw(fmt.Sprint(st)))
		errs.E = append(errs.E, j)
	}
	if len(errs.E) > 0 || !w.omit() {
		doc.Set("errors", errs)
	}
	svcs := &JArr{}
	for i := range s.Services {
		sv := &s.Services[i]
		j := &JObj{}
		j.Set("name", sv.Name)
		ms := &JArr{}
		for k := range sv.Methods {
			ms.E = append(ms.E, w.method(sv, &sv.Methods[k]))
		}
		j.Set("methods", ms)
		w.docs(j, sv.Doc, true)
		svcs.E = append(svcs.E, j)
	}
	if len(svcs.E) > 0 || !w.omit() {
		doc.Set("services", svcs)
	}
	return doc
}

func (w *jsonw) method(sv *Service, m *Method) *JObj {
	j := &JObj{}
	j.Set("name", m.Name)
	an := &JObj{}
	for _, a := range m.Annots {
		x := &JObj{}
		switch {
		case !a.Other:
			x.Set("annotationType", a.Name)
		case a.As != "" || !w.omit():
			x.Set("annotationType", a.As)
		}
		if a.HasVal || !w.omit() {
			x.Set("value", a.Val)
		}
		an.Set(a.Name, x)
	}
	if len(an.M) > 0 || !w.omit() {
		j.Set("annotations", an)
	}
	w.docs(j, m.Doc, true)
	for _, fl := range []struct {
		k string
		v bool
	}{{"succinct", m.Succinct}, {"streamInput", m.SIn}, {"streamOutput", m.SOut}} {
		if fl.v || !w.omit() {
			j.Set(fl.k, fl.v)
		}
	}
	args := func(k string, as []Arg) {
		arr := &JArr{}
		for _, a := range as {
			x := &JObj{}
			x.Set("name", a.Name)
			x.Set("type", w.typ("method:"+sv.Name+"."+m.Name+":"+strings.TrimSuffix(k, "puts")+"."+a.Name, a.Type))
			if a.Opt || !w.omit() {
				x.Set("optional", a.Opt)
			}
			w.metas(x, a.Meta)
			arr.E = append(arr.E, x)
		}
		if len(as) > 0 || !w.omit() {
			j.Set(k, arr)
		}
	}
	args("inputs", m.In)
	args("outputs", m.Out)
	if len(m.Errors) > 0 || !w.omit() {
		arr := &JArr{}
		for _, e := range m.Errors {
			arr.E = append(arr.E, e)
		}
		j.Set("errors", arr)
	}
	return j
}

func (w *jsonw) omit() bool { return w.o.Omit && w.l.n(2) == 1 }

func (w *jsonw) typ(where string, t *Type) string {
	if w.o.Types != nil {
		return w.o.Types(where, t)
	}
	return t.Expr()
}

func (w *jsonw) metas(o *JObj, ms []Meta) {
	arr := &JArr{}
	for i := 0; i < len(ms); {
		x := &JObj{}
		for j := i; j == i || j < len(ms) && ms[j].Join; j++ {
			if ms[j].Lit != "" {
				x.Set(ms[j].K, JRaw(ms[j].Lit))
			} else {
				x.Set(ms[j].K, ms[j].V)
			}
		}
		i++
		for i < len(ms) && ms[i].Join {
			i++
		}
		arr.E = append(arr.E, x)
	}
	if len(ms) > 0 || !w.omit() {
		o.Set("meta", arr)
	}
}

func (w *jsonw) docs(o *JObj, d Doc, _ bool) {
	arr := &JArr{}
	for _, l := range d.Lines() {
		arr.E = append(arr.E, l)
	}
	if len(arr.E) > 0 || !w.omit() {
		o.Set("comments", arr)
	}
}

func (w *jsonw) ws() string {
	if !w.o.Space {
		return ""
	}
	return []string{"", " ", "\n", "\t", "\r\n  ", "   "}[w.l.n(6)]
}

func (w *jsonw) render(b *strings.Builder, v any) {
	b.WriteString(w.ws())
	defer func() { b.WriteString(w.ws()) }()
	switch x := v.(type) {
	case *JObj:
		ms := append([]JMember(nil), x.M...)
		if w.o.Shuffle {
			for i := len(ms) - 1; i > 0; i-- {
				j := i - w.l.n(i+1)
				ms[i], ms[j] = ms[j], ms[i]
			}
		}
		b.WriteString("{")
		for i, m := range ms {
			if i > 0 {
				b.WriteString(",")
			}
			b.WriteString(w.ws())
			b.WriteString(w.str(m.K))
			b.WriteString(w.ws() + ":")
			w.render(b, m.V)
		}
		if len(ms) == 0 {
			b.WriteString(w.ws())
		}
		b.WriteString("}")
	case *JArr:
		b.WriteString("[")
		for i, e := range x.E {
			if i > 0 {
				b.WriteString(",")
			}
			w.render(b, e)
		}
		if len(x.E) == 0 {
			b.WriteString(w.ws())
		}
		b.WriteString("]")
	case string:
		b.WriteString(w.str(x))
	case bool:
		fmt.Fprint(b, x)
	case JRaw:
		b.WriteString(string(x))
	case nil:
		b.WriteString("null")
	default:
		panic(fmt.Sprintf("unexpected %T", v))
	}
}

// str writes a JSON string, with characters optionally escaped.
func (w *jsonw) str(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, c := range s {
		esc := w.o.Escape && w.l.n(5) == 4
		switch {
		case c == '"' || c == '\\':
			b.WriteByte('\\')
			b.WriteRune(c)
		case c == '\n' && !esc:
			b.WriteString(`\n`)
		case c == '\t' && !esc:
			b.WriteString(`\t`)
		case c == '/' && esc:
			b.WriteString(`\/`)
		case c < 0x20 || esc:
			if c > 0xffff {
				r1, r2 := utf16.EncodeRune(c)
				fmt.Fprintf(&b, `\u%04x\u%04X`, r1, r2)
			} else if w.l.n(2) == 0 {
				fmt.Fprintf(&b, `\u%04x`, c)
			} else {
				fmt.Fprintf(&b, `\u%04X`, c)
			}
		default:
			b.WriteRune(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

package model

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/webrpc/webrpc/schema"
)

func jsonString(s string) string {
	b, err := json.Marshal(s)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func jsonAny(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("<%v>", err)
	}
	return string(b)
}

func normLit(lit string) string {
	var v any
	if err := json.Unmarshal([]byte(lit), &v); err != nil {
		return "<bad literal " + lit + ">"
	}
	return jsonAny(v)
}

// Resolved describes the resolved structure of a parsed type expression,
// with every link checked to lead to a declaration in the schema.
func Resolved(s *schema.WebRPCSchema, vt *schema.VarType) string {
	return resolved(s, vt, 0)
}

func resolved(s *schema.WebRPCSchema, vt *schema.VarType, depth int) string {
	if vt == nil {
		return "<nil>"
	}
	if depth > 10000 {
		return "<too deep>"
	}
	n := 0
	for _, b := range []bool{vt.List != nil, vt.Map != nil, vt.Struct != nil, vt.Enum != nil, vt.Alias != nil} {
		if b {
			n++
		}
	}
	if n > 1 {
		return fmt.Sprintf("<%d kinds at once>", n)
	}
	link := func(kind, name string, t *schema.Type) string {
		if t == nil {
			return "<" + kind + " " + name + " without declaration>"
		}
		at := -1
		for i, d := range s.Types {
			if d == t {
				at = i
			}
		}
		if at < 0 {
			return "<" + kind + " " + name + " linked to something that isn't a declaration of the schema>"
		}
		if t.Name != name {
			return "<" + kind + " " + name + " linked to " + t.Name + ">"
		}
		return fmt.Sprintf("%s:%s@%d", kind, name, at)
	}
	switch vt.Type {
	case schema.T_List:
		if vt.List == nil {
			return "<list without element>"
		}
		return "list(" + resolved(s, vt.List.Elem, depth+1) + ")"
	case schema.T_Map:
		if vt.Map == nil {
			return "<map without parts>"
		}
		return "map(" + resolved(s, vt.Map.Key, depth+1) + "=>" + resolved(s, vt.Map.Value, depth+1) + ")"
	case schema.T_Struct:
		if vt.Struct == nil {
			return "<struct without link>"
		}
		return link("struct", vt.Struct.Name, vt.Struct.Type)
	case schema.T_Enum:
		if vt.Enum == nil {
			return "<enum without link>"
		}
		return link("enum", vt.Enum.Name, vt.Enum.Type)
	case schema.T_Alias:
		if vt.Alias == nil {
			return "<alias without link>"
		}
		return link("alias", vt.Alias.Name, vt.Alias.Type)
	}
	if n != 0 {
		return "<core type with parts>"
	}
	name := coreNames[vt.Type]
	if name == "" {
		return fmt.Sprintf("<unknown type %d>", int(vt.Type))
	}
	return name
}

var coreNames = map[schema.CoreType]string{
	schema.T_Null: "null", schema.T_Any: "any", schema.T_Byte: "byte", schema.T_Bool: "bool",
	schema.T_Uint: "uint", schema.T_Uint8: "uint8", schema.T_Uint16: "uint16", schema.T_Uint32: "uint32", schema.T_Uint64: "uint64",
	schema.T_Int: "int", schema.T_Int8: "int8", schema.T_Int16: "int16", schema.T_Int32: "int32", schema.T_Int64: "int64",
	schema.T_BigInt: "bigint", schema.T_Float32: "float32", schema.T_Float64: "float64",
	schema.T_String: "string", schema.T_Timestamp: "timestamp",
}

// RealView renders a parsed schema in the same way as Schema.View.
func RealView(s *schema.WebRPCSchema, mask Mask) []string {
	if s == nil {
		return []string{"<no schema>"}
	}
	v := &viewer{mask: mask}
	rt := func(t *schema.VarType) (string, string) {
		if t == nil {
			return "<nil>", "<nil>"
		}
		return t.Expr, Resolved(s, t)
	}
	if s.WebrpcVersion != "v1" {
		v.add(Header, "webrpc=%q", s.WebrpcVersion)
	}
	v.header(s.SchemaName, s.SchemaVersion, s.BasePath)
	for _, t := range s.Types {
		if t == nil {
			v.add(Types|Members, "type <nil>")
			continue
		}
		e, r := "", ""
		if t.Type != nil {
			e, r = rt(t.Type)
		}
		v.typ(t.Kind, t.Name, e, r)
		if t.Optional || t.Value != "" {
			v.add(Types, "    <type with optional=%v value=%q>", t.Optional, t.Value)
		}
		switch t.Kind {
		case "struct":
			v.meta(realMeta(t.Meta))
			v.docs(t.Comments)
			for _, f := range t.Fields {
				e, r := rt(f.Type)
				v.field(f.Name, e, r, f.Optional)
				if f.Value != "" {
					v.add(Types, "    <value %q>", f.Value)
				}
				v.meta(realMeta(f.Meta))
				v.docs(f.Comments)
			}
		case "enum":
			v.meta(realMeta(t.Meta))
			v.enumDocs(t.Comments)
			for _, f := range t.Fields {
				v.member(f.Name, f.Value)
				if f.Type != nil || f.Optional {
					v.add(Types|Members, "    <type %v optional %v>", f.Type, f.Optional)
				}
				v.meta(realMeta(f.Meta))
				v.docs(f.Comments)
			}
		default:
			v.meta(realMeta(t.Meta))
			v.docs(t.Comments)
			for _, f := range t.Fields {
				v.add(Types, "  <field %q>", f.Name)
			}
		}
	}
	for _, e := range s.Errors {
		v.err(e.Code, e.Name, e.Message, e.HTTPStatus)
	}
	for _, sv := range s.Services {
		v.service(sv.Name)
		v.docs2(sv.Comments)
		for _, m := range sv.Methods {
			v.method(m.Name, m.Succinct, m.StreamInput, m.StreamOutput)
			var an []string
			for k, a := range m.Annotations {
				if a == nil {
					an = append(an, fmt.Sprintf("%q=<nil>", k))
					continue
				}
				if a.AnnotationType != k {
					an = append(an, fmt.Sprintf("%q stored under %q", a.AnnotationType, k))
					continue
				}
				an = append(an, fmt.Sprintf("%q=%q", k, a.Value))
			}
			v.annots(an)
			for _, a := range m.Inputs {
				e, r := rt(a.Type)
				v.arg("in", a.Name, e, r, a.Optional)
				if a.Value != "" {
					v.add(Services, "      <value %q>", a.Value)
				}
				v.argMeta(realMeta(a.Meta))
			}
			for _, a := range m.Outputs {
				e, r := rt(a.Type)
				v.arg("out", a.Name, e, r, a.Optional)
				if a.Value != "" {
					v.add(Services, "      <value %q>", a.Value)
				}
				v.argMeta(realMeta(a.Meta))
			}
			v.errs(m.Errors)
			v.docs2(m.Comments)
		}
	}
	return v.out
}

func realMeta(ms []schema.TypeFieldMeta) []string {
	var out []string
	for _, m := range ms {
		var parts []string
		for k, x := range m {
			parts = append(parts, fmt.Sprintf("%q=%s", k, jsonAny(x)))
		}
		sort.Strings(parts)
		out = append(out, strings.Join(parts, " "))
	}
	return out
}

// IsCore tells if it is a plain core type.
func IsCore(t schema.CoreType) bool { return coreNames[t] != "" }

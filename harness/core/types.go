package core

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/webrpc/webrpc/schema"
	"pgregory.net/rapid"

	m "verif/harness/model"
	"verif/harness/pbt"
)

// eachVarType calls f for every type expression of a parsed schema.
func eachVarType(s *schema.WebRPCSchema, f func(where string, vt *schema.VarType)) {
	for _, t := range s.Types {
		if t.Kind != "struct" {
			f(t.Name, t.Type)
		}
		for _, fl := range t.Fields {
			if t.Kind == "struct" {
				f(t.Name+"."+fl.Name, fl.Type)
			}
		}
	}
	for _, sv := range s.Services {
		for _, mt := range sv.Methods {
			for _, a := range mt.Inputs {
				f(sv.Name+"."+mt.Name+"("+a.Name+")", a.Type)
			}
			for _, a := range mt.Outputs {
				f(sv.Name+"."+mt.Name+"=>"+a.Name, a.Type)
			}
		}
	}
}

// roundTripTypes checks that the text form of every type expression gives the
// same structure again.
func roundTripTypes(s *schema.WebRPCSchema) error {
	var bad error
	eachVarType(s, func(where string, vt *schema.VarType) {
		if bad != nil {
			return
		}
		if vt == nil {
			bad = fmt.Errorf("%s has no type", where)
			return
		}
		if strings.ContainsAny(vt.Expr, " \t\r\n") || vt.String() != vt.Expr {
			bad = fmt.Errorf("%s: text form %q", where, vt.String())
			return
		}
		var again schema.VarType
		if err := schema.ParseVarTypeExpr(s, vt.String(), &again); err != nil {
			bad = fmt.Errorf("%s: the text form %q of a type isn't accepted: %v", where, vt.String(), err)
			return
		}
		if a, b := m.Resolved(s, vt), m.Resolved(s, &again); a != b {
			bad = fmt.Errorf("%s: the text form %q of %s gives %s", where, vt.String(), a, b)
			return
		}
		b, err := json.Marshal(vt)
		if err != nil {
			bad = fmt.Errorf("%s: %v", where, err)
			return
		}
		var x string
		if json.Unmarshal(b, &x) != nil || x != vt.Expr {
			bad = fmt.Errorf("%s: the JSON form of type %s is %s", where, vt.Expr, b)
			return
		}
		var v2 schema.VarType
		if err := json.Unmarshal(b, &v2); err != nil || v2.Expr != vt.Expr {
			bad = fmt.Errorf("%s: the JSON form %s is read as %q (%v)", where, b, v2.Expr, err)
		}
	})
	return bad
}

// packed is a schema with all given expressions as field types, in structs
// of up to per fields, and as arguments.
func packed(exprs []*m.Type, decl *m.Schema) *m.Schema {
	s := *decl
	s.Structs = append([]m.Struct(nil), decl.Structs...)
	st := m.Struct{Name: "Packed"}
	mt := m.Method{Name: "M"}
	for i, e := range exprs {
		st.Fields = append(st.Fields, m.Field{Name: fmt.Sprintf("f%d", i), Type: e})
		if i%2 == 0 {
			mt.In = append(mt.In, m.Arg{Name: fmt.Sprintf("a%d", i), Type: e})
		} else {
			mt.Out = append(mt.Out, m.Arg{Name: fmt.Sprintf("a%d", i), Type: e})
		}
	}
	s.Structs = append(s.Structs, st)
	s.Services = []m.Service{{Name: "Svc", Methods: []m.Method{mt}}}
	return &s
}

// smallExprs yields all expressions up to the given depth over the
// declarations of declSmall.
func smallExprs(depth int, yield func(*m.Type) bool) bool {
	var atoms, keys []*m.Type
	for _, c := range m.CoreAll {
		atoms = append(atoms, m.Core(c))
	}
	for _, r := range []string{"Struct1", "Enum1", "Alias1", "AliasE"} {
		atoms = append(atoms, m.Ref(r))
	}
	for _, c := range m.CoreKeys {
		keys = append(keys, m.Core(c))
	}
	keys = append(keys, m.Ref("Enum1"), m.Ref("AliasE"))
	var rec func(d int, y func(*m.Type) bool) bool
	rec = func(d int, y func(*m.Type) bool) bool {
		for _, a := range atoms {
			if !y(a) {
				return false
			}
		}
		if d == 0 {
			return true
		}
		return rec(d-1, func(e *m.Type) bool {
			if !y(m.List(e)) {
				return false
			}
			for _, k := range keys {
				if !y(m.MapOf(k, e)) {
					return false
				}
			}
			return true
		})
	}
	return rec(depth, yield)
}

func declSmall() *m.Schema {
	return &m.Schema{Name: "x", Version: "1",
		Aliases: []m.Alias{{Name: "Alias1", Type: m.List(m.Ref("Struct1"))}, {Name: "AliasE", Type: m.Ref("Enum1")}},
		Enums:   []m.Enum{{Name: "Enum1", Base: "uint8", Members: []m.Member{{Name: "A"}}}},
		Structs: []m.Struct{{Name: "Struct1", Fields: []m.Field{{Name: "a", Type: m.Core("int")}}}},
	}
}

type typeCase struct {
	Schema *m.Schema  `json:"schema"`
	Opts   m.RidlOpts `json:"opts"`
	JSON   m.JSONOpts `json:"json"`
	Order  []string   `json:"order,omitempty"` // of the types in the JSON form
	N      int        `json:"n,omitempty"`
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:   "C07",
		Rule: "all type expressions up to depth 1 (thorough: 2) over core types, a struct, an enum, an alias and an alias of an enum, plus random schemas with nested types up to depth 8 and forward references, in RIDL and in JSON with the types in random order; non-trivial: an expression nested two or deeper and a reference to a declared type",
		New:  func() any { return &typeCase{} },
		Gen: func(t *rapid.T) any {
			cfg := m.Default()
			cfg.Docs, cfg.Rich = false, false
			cfg.Depth = m.Num(t, "depth", 1, 8)
			cfg.RefBias, cfg.Nested = true, true
			cfg.MinStruct, cfg.MinField = 1, 1
			cfg.MaxErr = 0
			c := &typeCase{Schema: m.Gen(t, cfg), Opts: m.GenRidlOpts(t, "lay"), JSON: m.GenJSONOpts(t, "json")}
			names := typeNames(c.Schema)
			if len(names) > 1 {
				c.Order = rapid.Permutation(names).Draw(t, "order")
			}
			return c
		},
		Enumerate: func(deep bool, yield func(any) bool) {
			d := 1
			if deep {
				d = 2
			}
			var batch []*m.Type
			flush := func() bool {
				if len(batch) == 0 {
					return true
				}
				c := &typeCase{Schema: packed(batch, declSmall()), N: len(batch)}
				c.Order = []string{"Packed", "AliasE", "Struct1", "Alias1", "Enum1"}
				batch = nil
				return yield(c)
			}
			ok := smallExprs(d, func(e *m.Type) bool {
				batch = append(batch, e)
				if len(batch) == 40 {
					return flush()
				}
				return true
			})
			if ok {
				flush()
			}
		},
		Quick: 6000, Deep: 100000,
		Check: func(v any, o *pbt.Obs) error {
			c := v.(*typeCase)
			const mask = m.Types | m.Services | m.Resolve
			src, real, err := checkRIDL("RIDL", c.Schema, c.Opts, mask)
			depth, refs := 0, 0
			c.Schema.AllTypes(func(t *m.Type) {
				depth = max(depth, t.Depth())
				t.Refs(func(string) { refs++ })
			})
			o.NonTrivial(depth >= 2 && refs > 0 || c.N > 0)
			o.Sig(src)
			o.Sample(src)
			o.Class(fmt.Sprintf("depth %d", min(depth, 6)))
			if c.N > 0 {
				o.Evals(c.N)
			}
			if err != nil {
				return err
			}
			if err := roundTripTypes(real); err != nil {
				return fmt.Errorf("%v\n--- input ---\n%s", err, excerpt(src))
			}
			s2 := *c.Schema
			s2.TypeOrder = c.Order
			_, real2, err := checkJSON("JSON", &s2, c.JSON, mask)
			if err != nil {
				return err
			}
			return roundTripTypes(real2)
		},
	})

	pbt.Register(&pbt.Prop{
		ID:   "C08",
		Rule: "a random valid schema in which one type expression at a random place is replaced by an ill-formed or unresolvable one (random kind, wrapped in up to 4 lists and maps, a name with a blank, a sign or an invisible character put into it (JSON only), or a random edit of a valid one), in RIDL and JSON, and the same with the valid one; whether an expression is valid is decided by an independent recogniser; non-trivial: the replaced expression is invalid",
		New:  func() any { return &badTypeCase{} },
		Gen:  genBadType,
		Enumerate: func(deep bool, yield func(any) bool) {
			decl := declSmall()
			var aliases []string // of what is no key
			for i, n := range m.CoreNotKeys {
				a := fmt.Sprintf("AliasN%d", i)
				aliases = append(aliases, a)
				decl.Aliases = append(decl.Aliases, m.Alias{Name: a, Type: m.Core(n)})
			}
			decl.Aliases = append(decl.Aliases, m.Alias{Name: "AliasS", Type: m.Ref("Struct1")}, m.Alias{Name: "AliasSS", Type: m.Ref("AliasS")})
			aliases = append(aliases, "AliasS", "AliasSS")
			s := packed([]*m.Type{m.Core("int"), m.Core("string")}, decl)
			var places []string
			for _, p := range typePlaces(s) {
				if strings.HasPrefix(p, "field:Packed") || strings.HasPrefix(p, "method") || strings.HasPrefix(p, "type:Alias1") {
					places = append(places, p)
				}
			}
			bads := append([]string(nil), badAtoms...)
			bads = append(bads, "Struct2", "struct1", "STRUCT1", "enum1", "alias1")
			for _, k := range append([]string{"Struct1", "enum1", "Alias1", "[]string", "map<string,int>", "Undeclared"}, append(aliases, m.CoreNotKeys...)...) {
				bads = append(bads, "map<"+k+",int>", "map<"+k+",map<string,int>>", "map<"+k+",[]map<int,any>>")
			}
			for _, b := range bads {
				for _, p := range places {
					for _, w := range []string{"%s", "[]%s", "map<string,%s>", "[]map<Enum1,[]%s>"} {
						if !yield(&badTypeCase{Schema: s, Where: p, Bad: fmt.Sprintf(w, b)}) {
							return
						}
					}
				}
			}
		},
		Quick: 8000, Deep: 150000,
		Check: checkBadType,
	})
}

var badAtoms = []string{"Undeclared", "String", "INT32", "Bool", "Any", "Timestamp", "Map<string,int>", "int128", "uint9", "float", "str", "[]", "[][]", "map", "map<>", "map<string>", "map<string,>", "map<,string>", "map<,>", "map<string,string", "map<string,string>>", "map string,string>", "string]", "[string]", "string[]", "[string", "]string", "[]]string", "[[]string", "<string>", "string<int>", "map[string]string", "map<string,int>string", "map<string,map<string,int>", "map<map<string,int>,int>", "list", "[]list", "enum", "object", "string,string", "[]string>", "map<string|int>", "map<string | int>", "map<string |int>", "map<string : int>", "string | int", "map<string ,| int>", "map<string:int>", "map<string;int>", "map<string,int>?", "string?", "?string", "[]string?", "*string", "string!", "string=", "map<string,int>[]", "[]*string", "[1]string", "...string", "string|int", "map(string,int)", "map{string,int}", "map<string,int,int>", "map<int32>,string"}

type badTypeCase struct {
	Schema *m.Schema  `json:"schema"`
	Opts   m.RidlOpts `json:"opts"`
	JSON   m.JSONOpts `json:"json"`
	Where  string     `json:"where"`
	Bad    string     `json:"bad"`
	// JSONOnly is set if there are characters that separate words in RIDL
	JSONOnly bool `json:"json_only,omitempty"`
}

func genBadType(t *rapid.T) any {
	cfg := m.Default()
	cfg.Docs, cfg.Rich = false, false
	cfg.RefBias = true
	cfg.MinStruct, cfg.MinField = 1, 1
	c := &badTypeCase{Schema: m.Gen(t, cfg), Opts: m.GenRidlOpts(t, "lay"), JSON: m.GenJSONOpts(t, "json")}
	c.Where = m.Pick(t, "where", typePlaces(c.Schema))
	var declared []string
	for _, n := range c.Schema.Order() {
		declared = append(declared, n)
	}
	kinds := c.Schema.Kinds()
	flip := func(s string) string {
		// change the case of some letters, at least one
		rs := []rune(s)
		var at []int
		for i, r := range rs {
			if strings.ToLower(string(r)) != strings.ToUpper(string(r)) {
				at = append(at, i)
			}
		}
		if len(at) == 0 {
			return s + "x"
		}
		i := m.Pick(t, "flip", at)
		if l := strings.ToLower(string(rs[i])); l != string(rs[i]) {
			rs[i] = []rune(l)[0]
		} else {
			rs[i] = []rune(strings.ToUpper(string(rs[i])))[0]
		}
		return string(rs)
	}
	var bad string
	switch m.Num(t, "bad-kind", 0, 6) {
	case 0:
		bad = m.Pick(t, "bad-atom", badAtoms)
	case 1:
		bad = flip(m.Pick(t, "bad-core", m.CoreAll))
	case 2:
		bad = flip(m.Pick(t, "bad-decl", declared))
	case 3: // a bad key
		var keys []string
		keys = append(keys, m.CoreNotKeys...)
		keys = append(keys, "[]string", "map<string,int>", "Undeclared", "String", "", "Int")
		for _, d := range declared {
			if kinds[d] == "struct" {
				keys = append(keys, d)
			}
			if kinds[d] == "alias" {
				keys = append(keys, d, d)
			}
			if kinds[d] == "enum" {
				keys = append(keys, flip(d))
			}
		}
		bad = "map<" + m.Pick(t, "bad-key", keys) + "," + m.Pick(t, "bad-val", []string{"int", "[]string", "any", "map<string,int>", "map<int,map<string,any>>", "[]map<string,bool>"}) + ">"
	case 4: // a name that something is put into
		e := m.Pick(t, "split-of", append([]string{"string", "timestamp", "uint8"}, declared...))
		if len(e) < 2 {
			e = "bool"
		}
		i := m.Num(t, "split-at", 1, len(e)-1)
		bad = e[:i] + m.Pick(t, "split-by", []string{" ", "\t", "\n", "\r\n", "\u00a0", "\x00", "\u200b", "\ufeff", "  ", "\"", "#", "\\", "/", "\u0301"}) + e[i:]
		c.JSONOnly = true
	default: // a random edit of a valid expression
		var exprs []string
		c.Schema.AllTypes(func(ty *m.Type) { exprs = append(exprs, ty.Expr()) })
		exprs = append(exprs, "map<string,[]map<uint8,[]string>>", "[][]"+declared[0], "map<int,map<string,[]int>>")
		e := m.Pick(t, "edit-of", exprs)
		for k := m.Num(t, "edits", 1, 2); k > 0; k-- {
			i := m.Num(t, "edit-at", 0, len(e))
			switch m.Num(t, "edit-how", 0, 3) {
			case 0: // delete
				if i < len(e) {
					e = e[:i] + e[i+1:]
				}
			case 1:
				e = e[:i] + m.Pick(t, "edit-ins", []string{"[", "]", "<", ">", ",", "[]", "map<", "a", "1", "S", "map", "string", ",int>", "string,", "|", "?", "!", "*", "-", "."}) + e[i:]
			case 2: // replace a character
				if i < len(e) {
					e = e[:i] + m.Pick(t, "edit-rep", []string{"[", "]", "<", ">", ",", "x", "T", "|", ":", ";", "(", "?"}) + e[i+1:]
				}
			case 3: // swap
				if i+1 < len(e) {
					e = e[:i] + e[i+1:i+2] + e[i:i+1] + e[i+2:]
				}
			}
		}
		bad = e
	}
	for k := m.Num(t, "wraps", 0, 4); k > 0; k-- {
		if m.Num(t, "wrap", 0, 1) == 0 {
			bad = "[]" + bad
		} else {
			bad = "map<" + m.Pick(t, "wrap-key", m.CoreKeys) + "," + bad + ">"
		}
	}
	c.Bad = bad
	return c
}

// exprValidity is the reference recogniser of type expressions.
const (
	exprBad = iota
	exprOK
	exprUnspecified
)

func exprValidity(e string, kind func(string) string, aliasOf func(string) *m.Type) int {
	for _, c := range m.CoreAll {
		if e == c {
			return exprOK
		}
	}
	if strings.HasPrefix(e, "[]") {
		return exprValidity(e[2:], kind, aliasOf)
	}
	if strings.HasPrefix(e, "map<") && strings.HasSuffix(e, ">") {
		in := e[4 : len(e)-1]
		i := strings.Index(in, ",")
		if i < 0 {
			return exprBad
		}
		k := keyValidity(in[:i], kind, aliasOf)
		v := exprValidity(in[i+1:], kind, aliasOf)
		if k == exprBad || v == exprBad {
			return exprBad
		}
		if k == exprUnspecified || v == exprUnspecified {
			return exprUnspecified
		}
		return exprOK
	}
	if kind(e) != "" {
		return exprOK
	}
	return exprBad
}

func keyValidity(k string, kind func(string) string, aliasOf func(string) *m.Type) int {
	for _, c := range m.CoreKeys {
		if k == c {
			return exprOK
		}
	}
	switch kind(k) {
	case "enum":
		return exprOK
	case "alias":
		t := aliasOf(k)
		// an alias of something that is no key at all isn't one either;
		// anything but a direct alias of an enum isn't specified further
		for i := 0; t != nil && i < 100; i++ {
			switch {
			case t.K == "list" || t.K == "map":
				return exprBad
			case t.K == "core":
				for _, c := range m.CoreKeys {
					if t.N == c {
						return exprUnspecified
					}
				}
				return exprBad
			case kind(t.N) == "struct":
				return exprBad
			case kind(t.N) == "enum":
				if i == 0 {
					return exprOK
				}
				return exprUnspecified
			case kind(t.N) == "alias":
				t = aliasOf(t.N)
			default:
				return exprBad
			}
		}
		return exprUnspecified
	}
	return exprBad
}

func checkBadType(v any, o *pbt.Obs) error {
	c := v.(*badTypeCase)
	if _, _, err := checkRIDL("RIDL", c.Schema, c.Opts, 0); err != nil {
		return err
	}
	if _, _, err := checkJSON("JSON", c.Schema, c.JSON, 0); err != nil {
		return err
	}
	kinds := c.Schema.Kinds()
	kind := func(n string) string { return kinds[n] }
	aliasOf := func(n string) *m.Type {
		if a := c.Schema.Alias(n); a != nil {
			return a.Type
		}
		return nil
	}
	isEnum := strings.HasPrefix(c.Where, "enum:")
	isAlias := strings.HasPrefix(c.Where, "type:")
	isArg := strings.HasPrefix(c.Where, "method:")
	val := exprValidity(c.Bad, kind, aliasOf)
	if isEnum && val != exprBad {
		return nil // the base types of enums are C09's
	}
	if isAlias && val == exprOK {
		val = exprUnspecified // can make a cycle of aliases, or change map keys elsewhere
	}
	o.NonTrivial(val == exprBad)
	o.Sig(c.Where[:4] + c.Bad)
	o.Sample(map[string]string{"where": c.Where, "type": c.Bad})
	o.Class([]string{"invalid expression", "valid expression", "unspecified expression"}[val])
	o.Class("at " + c.Where[:strings.IndexByte(c.Where, ':')])
	if val == exprUnspecified {
		return nil
	}
	want := val == exprOK
	judge := func(what, src string, s *schema.WebRPCSchema, err error) error {
		if (err == nil) == want {
			if err == nil {
				return nil
			}
			if s != nil && what == "RIDL" {
				return fmt.Errorf("%s: an error and a schema, for type %q of %s\n--- input ---\n%s", what, c.Bad, c.Where, excerpt(src))
			}
			return nil
		}
		if want {
			return fmt.Errorf("%s: the type %q of %s is rejected: %v\n--- input ---\n%s", what, c.Bad, c.Where, err, excerpt(src))
		}
		return fmt.Errorf("%s: the type %q of %s is accepted\n--- input ---\n%s", what, c.Bad, c.Where, excerpt(src))
	}
	jo := c.JSON
	jo.Types = breakAt(c.Where, c.Bad)
	js := c.Schema.JSON(jo)
	sj, ej := parseJSON(js)
	if err := judge("JSON", js, sj, ej); err != nil {
		return err
	}
	if c.JSONOnly || isArg && topLevelComma(c.Bad) {
		return nil // would be two words, or two arguments
	}
	ro := c.Opts
	ro.Types = breakAt(c.Where, c.Bad)
	src := c.Schema.RIDL(ro)
	sr, er := parseRIDL(src)
	return judge("RIDL", src, sr, er)
}

func topLevelComma(e string) bool {
	d := 0
	for _, c := range e {
		switch c {
		case '<':
			d++
		case '>':
			d--
		case ',':
			if d <= 0 {
				return true
			}
		}
	}
	return false
}

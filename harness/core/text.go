package core

import (
	"bytes"
	"fmt"
	"regexp"
	"strings"
	"testing/fstest"

	"github.com/webrpc/webrpc/schema"
	"github.com/webrpc/webrpc/schema/ridl"
	"pgregory.net/rapid"

	m "verif/harness/model"
)

// textCase is any text, as RIDL files (root main.ridl) or a JSON document.
type textCase struct {
	Files map[string][]byte `json:"files,omitempty"`
	JSON  []byte            `json:"jsonText,omitempty"`
	Size  int               `json:"size,omitempty"` // >0: known to be valid
	Edits int               `json:"edits,omitempty"`
}

func parseBytes(files map[string][]byte) (*schema.WebRPCSchema, error) {
	fsys := fstest.MapFS{}
	for k, v := range files {
		fsys[k] = &fstest.MapFile{Data: v, Mode: 0o644}
	}
	return ridl.NewParser(fsys, "/virtual", "main.ridl").Parse()
}

func (c *textCase) parse() (*schema.WebRPCSchema, error) {
	if c.JSON != nil {
		return schema.ParseSchemaJSON(bytes.Clone(c.JSON))
	}
	return parseBytes(c.Files)
}

func (c *textCase) sig() string {
	var b strings.Builder
	for _, k := range m.SortedKeys(c.Files) {
		fmt.Fprintf(&b, "%s\x00%s\x00", k, c.Files[k])
	}
	b.Write(c.JSON)
	return b.String()
}

func (c *textCase) show() string {
	if c.JSON != nil {
		return excerpt(string(c.JSON))
	}
	var b strings.Builder
	for _, k := range m.SortedKeys(c.Files) {
		fmt.Fprintf(&b, "--- %s ---\n%s\n", k, excerpt(string(c.Files[k])))
	}
	return b.String()
}

func (c *textCase) text() *[]byte {
	if c.JSON != nil {
		return &c.JSON
	}
	if len(c.Files) == 1 {
		b := c.Files["main.ridl"]
		return &b
	}
	return nil
}

var ridlTokens = []string{
	"webrpc", "name", "version", "basepath", "import", "enum", "struct", "type", "error", "service", "stream", "proxy", "errors", "map", "HTTP",
	"=", "=>", ":", ",", "|", "-", "+", "@", "#", "#!", "?", "!", ".", "/", "\\", "\"", "(", ")", "[", "]", "<", ">", "[]", "map<", "map<string,",
	" ", "  ", "\t", "\n", "\n", "\n\n", "\r\n", "\r", "\n  - ", "\n  @", "\n    + ", "\n#", "\x00", "\xff", "\xc3", "\u00a0", "\ufeff", "é", "世", "🙂", "\u2028",
	"v1", "string", "int32", "uint8", "bigint", "any", "Foo", "foo", "X", "a", "1", "0", "42", "400", "99999999999999999999", "-1", "\"\"", "\"a b\"", "\\\"", "\\n", "\"\\",
	"json", "go.tag.db", "main.ridl", "lib.ridl", "../x.ridl",
	"webrpc = v1\n", "name = x\n", "version = 1\n", "basepath = /x\n", "struct S\n", "  - a: string\n", "enum E: uint8\n", "  - A = 1\n", "type T: string\n", "error 1 Err \"m\" HTTP 404\n", "service Svc\n", "  - M()\n", "  - M(a: string) => (b: int)\n", "  - N(S) => (S)\n", "  @auth:x @y\n", "    + json = b\n", "import lib.ridl\n", "import\n  - lib.ridl\n", "errors Err | X",
}

// genRidlText makes a text that is near to RIDL: a valid schema with random
// edits, or tokens at random. Up to maxEdits edits if that's > 0.
func genRidlText(t *rapid.T, maxEdits int) *textCase {
	c := &textCase{Files: map[string][]byte{}}
	kind := m.Num(t, "text-kind", 0, 9)
	if maxEdits > 0 {
		kind = max(kind, 3)
	}
	var src []byte
	switch {
	case kind == 0: // token soup
		var b strings.Builder
		if m.Num(t, "soup-head", 0, 1) == 1 {
			b.WriteString("webrpc = v1\nname = x\nversion = 1\n")
		}
		for _, s := range rapid.SliceOfN(rapid.SampledFrom(ridlTokens), 0, 60).Draw(t, "soup") {
			b.WriteString(s)
		}
		src = []byte(b.String())
	case kind == 1: // bytes
		src = rapid.SliceOfN(rapid.Byte(), 0, 80).Draw(t, "bytes")
	case kind == 2: // soup lines
		var b strings.Builder
		for _, s := range rapid.SliceOfN(rapid.SampledFrom(ridlTokens), 0, 30).Draw(t, "soup") {
			b.WriteString(s)
			b.WriteString(m.Pick(t, "sep", []string{" ", "", "\n", " "}))
		}
		src = []byte(b.String())
	default:
		cfg := m.Default()
		cfg.Depth = 2
		cfg.MaxStruct, cfg.MaxSvc, cfg.MaxEnum, cfg.MaxAlias = 2, 2, 2, 2
		cfg.Rich = rapid.Bool().Draw(t, "rich")
		s := m.Gen(t, cfg)
		o := m.GenRidlOpts(t, "lay")
		o.Docs = rapid.Bool().Draw(t, "docs")
		src = []byte(s.RIDL(o))
		n := maxEdits
		if n == 0 {
			n = 6
		}
		c.Edits = m.Num(t, "edits", 1, n)
		for i := 0; i < c.Edits; i++ {
			src = editRidl(t, src)
		}
	}
	if len(src) > 32<<10 {
		src = src[:32<<10]
	}
	if kind == 9 {
		var names []string
		for _, x := range ridlNamed.FindAllSubmatch(src, -1) {
			names = append(names, string(x[1]))
		}
		list := ""
		for k := m.Num(t, "members", 0, 3); k > 0 && len(names) > 0; k-- {
			list += "  - " + m.Pick(t, "member", names) + "\n"
		}
		c.Files["main.ridl"] = []byte("webrpc = v1\nname = root\nversion = 1\nimport lib.ridl\n" + list)
		c.Files["lib.ridl"] = src
	} else {
		c.Files["main.ridl"] = src
	}
	return c
}

// words are the boundaries of tokens in the text, roughly.
func cuts(src []byte) []int {
	out := []int{0}
	class := func(b byte) int {
		switch {
		case b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b >= '0' && b <= '9' || b == '_' || b >= 0x80:
			return 1
		case b == ' ' || b == '\t':
			return 2
		}
		return 3 + int(b)
	}
	for i := 1; i < len(src); i++ {
		if class(src[i]) != class(src[i-1]) || class(src[i]) > 2 {
			out = append(out, i)
		}
	}
	return append(out, len(src))
}

func splice(src []byte, i, j int, mid []byte) []byte {
	out := make([]byte, 0, len(src)+len(mid))
	out = append(out, src[:i]...)
	out = append(out, mid...)
	return append(out, src[j:]...)
}

func editRidl(t *rapid.T, src []byte) []byte {
	switch m.Num(t, "edit", 0, 12) {
	case 11, 12: // change types
		return rewireRidl(t, src)
	case 0: // delete a token
		cs := cuts(src)
		k := m.Num(t, "cut", 0, max(0, len(cs)-2))
		if len(cs) < 2 {
			return src
		}
		return splice(src, cs[k], cs[k+1], nil)
	case 1: // insert a token
		cs := cuts(src)
		k := m.Pick(t, "cut", cs)
		return splice(src, k, k, []byte(m.Pick(t, "ins", ridlTokens)))
	case 2: // replace a token
		cs := cuts(src)
		if len(cs) < 2 {
			return src
		}
		k := m.Num(t, "cut", 0, len(cs)-2)
		return splice(src, cs[k], cs[k+1], []byte(m.Pick(t, "ins", ridlTokens)))
	case 3: // copy a token somewhere else
		cs := cuts(src)
		if len(cs) < 2 {
			return src
		}
		a, k := m.Num(t, "cut", 0, len(cs)-2), m.Num(t, "cut2", 0, len(cs)-2)
		return splice(src, cs[k], cs[k+1], bytes.Clone(src[cs[a]:cs[a+1]]))
	case 4: // truncate
		return bytes.Clone(src[:m.Num(t, "cut", 0, len(src))])
	case 5: // drop the beginning
		return bytes.Clone(src[m.Num(t, "cut", 0, len(src)):])
	case 6, 7: // lines: duplicate, delete, move
		ls := bytes.SplitAfter(src, []byte("\n"))
		i, j := m.Num(t, "line", 0, len(ls)-1), m.Num(t, "line2", 0, len(ls)-1)
		out := make([][]byte, 0, len(ls)+1)
		switch m.Num(t, "line-how", 0, 2) {
		case 0:
			out = append(append(append(out, ls[:j]...), ls[i]), ls[j:]...)
		case 1:
			out = append(append(out, ls[:i]...), ls[i+1:]...)
		case 2:
			out = append(out, ls...)
			out[i], out[j] = out[j], out[i]
		}
		return bytes.Join(out, nil)
	case 8: // change a byte
		if len(src) == 0 {
			return src
		}
		i := m.Num(t, "at", 0, len(src)-1)
		out := bytes.Clone(src)
		out[i] = rapid.Byte().Draw(t, "byte")
		return out
	case 9: // change the case of a letter
		if len(src) == 0 {
			return src
		}
		out := bytes.Clone(src)
		for k := m.Num(t, "at", 0, len(src)-1); k < len(out); k++ {
			if c := out[k]; c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' {
				out[k] ^= 0x20
				break
			}
		}
		return out
	default: // splice parts of the text itself
		i, j := m.Num(t, "from", 0, len(src)), m.Num(t, "to", 0, len(src))
		if i > j {
			i, j = j, i
		}
		if j-i > 400 {
			j = i + 400
		}
		k := m.Num(t, "into", 0, len(src))
		part := bytes.Clone(src[i:j])
		if m.OneIn(t, "many-times", 12) {
			part = bytes.Repeat(part[:min(len(part), 12)], m.Pick(t, "times", []int{20, 70, 200, 700}))
		}
		return splice(src, k, k, part)
	}
}

var jsonBits = []string{"null", "true", "false", "0", "-1", "1e400", "1.5", "9223372036854775808", "\"\"", "\"x\"", "\"string\"", "\"[]\"", "\"map<\"", "\"map<string,[]int>\"", "\" \"", "\"\\u0000\"", "\"\\ud800\"", "[]", "{}", "[null]", "[[]]", "{\"a\":null}", "[{}]", "{\"\":{}}", "\"map\"", "\"[]Foo\"", "\"Foo\"", "\"éa\"", "\"Éa\"", "\"世\"", "\"foo\"", "\"Webrpc\"", "\"v1\"", "\"enum\"", "\"struct\"", "\"alias\"", "[\"a\",\"b\"]"}
var jsonKeys = []string{"webrpc", "name", "version", "basepath", "types", "errors", "services", "kind", "type", "fields", "optional", "value", "meta", "comments", "methods", "annotations", "annotationType", "succinct", "streamInput", "streamOutput", "inputs", "outputs", "code", "message", "httpStatus", "Expr", "Name", "TYPES"}

// holders collects the objects and arrays of a document.
func holders(v any, out *[]any) {
	switch x := v.(type) {
	case *m.JObj:
		*out = append(*out, x)
		for _, e := range x.M {
			holders(e.V, out)
		}
	case *m.JArr:
		*out = append(*out, x)
		for _, e := range x.E {
			holders(e, out)
		}
	}
}

var (
	ridlDeclared = regexp.MustCompile(`(?m)^(?:struct|type|enum)[ \t]+([A-Za-z0-9_]+)`)
	ridlNamed    = regexp.MustCompile(`(?m)^(?:struct|type|enum|service|error[ \t]+[0-9]+)[ \t]+([A-Za-z0-9_]+)`)
	ridlTyped    = regexp.MustCompile(`:[ \t]*([A-Za-z0-9_<>,\[\]]+)`)
)

// genExprOf makes a type expression of declared names.
func genExprOf(t *rapid.T, names []string) string {
	if m.OneIn(t, "deep", 12) {
		k := m.Pick(t, "deep-by", []int{12, 30, 70, 200})
		e := m.Pick(t, "deep-of", append([]string{"int", "string", "bigint", "Nope"}, names...))
		if rapid.Bool().Draw(t, "deep-lists") {
			return strings.Repeat("[]", k) + e
		}
		return strings.Repeat("map<string,[]", k) + e + strings.Repeat(">", k-m.Num(t, "deep-lack", 0, 1))
	}
	if len(names) == 0 {
		names = []string{"Foo"}
	}
	n := m.Pick(t, "of", names)
	switch m.Num(t, "of-how", 0, 6) {
	case 1:
		return "[]" + n
	case 2:
		return "map<" + n + "," + m.Pick(t, "of2", names) + ">"
	case 3:
		return "map<" + n + ",int32>"
	case 4:
		return "map<string," + n + ">"
	case 5:
		return "map<" + m.Pick(t, "of2", names) + ",[]map<" + n + ",any>>"
	}
	return n
}

// rewireRidl changes types to expressions of the declared names, or adds
// aliases in a circle.
func rewireRidl(t *rapid.T, src []byte) []byte {
	var names []string
	for _, x := range ridlDeclared.FindAllSubmatch(src, -1) {
		names = append(names, string(x[1]))
	}
	if m.Num(t, "rewire", 0, 2) == 2 {
		n := m.Num(t, "circle", 1, 4)
		var b strings.Builder
		for i := range n {
			names = append(names, fmt.Sprintf("Circ%d", i))
			fmt.Fprintf(&b, "\ntype Circ%d: Circ%d\n", i, (i+1)%n)
		}
		fmt.Fprintf(&b, "\nstruct CircS\n  - a: %s\n", genExprOf(t, names))
		if rapid.Bool().Draw(t, "circle-first") {
			if i := bytes.Index(src, []byte("\nstruct")); i >= 0 {
				return splice(src, i, i, []byte(b.String()))
			}
		}
		return append(bytes.Clone(src), b.String()...)
	}
	for k := m.Num(t, "rewires", 1, 3); k > 0; k-- {
		at := ridlTyped.FindAllSubmatchIndex(src, -1)
		if len(at) == 0 {
			break
		}
		x := m.Pick(t, "rewire-at", at)
		src = splice(src, x[2], x[3], []byte(genExprOf(t, names)))
	}
	return src
}

// rewireJSON does the same to a document.
func rewireJSON(t *rapid.T, doc *m.JObj) {
	var hs []any
	holders(doc, &hs)
	var names []string
	var typed []*any
	var types *m.JArr
	for _, h := range hs {
		x, ok := h.(*m.JObj)
		if !ok {
			continue
		}
		for i := range x.M {
			switch e := &x.M[i]; e.K {
			case "type":
				typed = append(typed, &e.V)
			case "types":
				if a, ok := e.V.(*m.JArr); ok {
					types = a
				}
			}
		}
	}
	if types != nil {
		for _, e := range types.E {
			if x, ok := e.(*m.JObj); ok {
				for _, y := range x.M {
					if n, ok := y.V.(string); ok && y.K == "name" {
						names = append(names, n)
					}
				}
			}
		}
		if m.Num(t, "rewire", 0, 2) == 2 {
			n := m.Num(t, "circle", 1, 4)
			for i := range n {
				x := &m.JObj{M: []m.JMember{{K: "kind", V: "alias"}, {K: "name", V: fmt.Sprintf("Circ%d", i)}, {K: "type", V: fmt.Sprintf("Circ%d", (i+1)%n)}}}
				types.E = append(types.E, x)
				names = append(names, fmt.Sprintf("Circ%d", i))
			}
		}
	}
	for k := m.Num(t, "rewires", 1, 3); k > 0 && len(typed) > 0; k-- {
		*m.Pick(t, "rewire-at", typed) = genExprOf(t, names)
	}
}

func editJSON(t *rapid.T, doc *m.JObj) {
	if m.Num(t, "rewire?", 0, 4) == 4 {
		rewireJSON(t, doc)
		return
	}
	var hs []any
	holders(doc, &hs)
	bit := func() any {
		if m.Num(t, "bit-copy", 0, 3) == 3 {
			// something from elsewhere in the document
			h := m.Pick(t, "bit-from", hs)
			switch x := h.(type) {
			case *m.JObj:
				if len(x.M) > 0 {
					if v := m.Pick(t, "bit-m", x.M).V; !nested(v, 6) {
						return cloneDoc(v)
					}
				}
			case *m.JArr:
				if len(x.E) > 0 {
					if v := m.Pick(t, "bit-e", x.E); !nested(v, 6) {
						return cloneDoc(v)
					}
				}
			}
		}
		return m.JRaw(m.Pick(t, "bit", jsonBits))
	}
	switch x := m.Pick(t, "holder", hs).(type) {
	case *m.JObj:
		how := m.Num(t, "obj-how", 0, 4)
		if len(x.M) == 0 {
			how = 2
		}
		i := 0
		if len(x.M) > 0 {
			i = m.Num(t, "obj-at", 0, len(x.M)-1)
		}
		switch how {
		case 0:
			x.M[i].V = bit()
		case 1:
			x.M = append(x.M[:i:i], x.M[i+1:]...)
		case 2:
			b := bit()
			x.M = append(x.M, m.JMember{K: m.Pick(t, "key", jsonKeys), V: b})
		case 3:
			x.M[i].V = m.JRaw("null")
		case 4:
			x.M[i].K = m.Pick(t, "key", jsonKeys)
		}
	case *m.JArr:
		how := m.Num(t, "arr-how", 0, 4)
		if len(x.E) == 0 {
			how = 2
		}
		i := 0
		if len(x.E) > 0 {
			i = m.Num(t, "arr-at", 0, len(x.E)-1)
		}
		switch how {
		case 0:
			x.E[i] = bit()
		case 1:
			x.E = append(x.E[:i:i], x.E[i+1:]...)
		case 2:
			x.E = append(x.E, bit())
		case 3:
			x.E[i] = m.JRaw("null")
		case 4:
			x.E = append(x.E, cloneDoc(x.E[i]))
		}
	}
}

func cloneDoc(v any) any {
	switch x := v.(type) {
	case *m.JObj:
		c := &m.JObj{}
		for _, e := range x.M {
			e.V = cloneDoc(e.V)
			c.M = append(c.M, e)
		}
		return c
	case *m.JArr:
		c := &m.JArr{}
		for _, e := range x.E {
			c.E = append(c.E, cloneDoc(e))
		}
		return c
	}
	return v
}

func nested(v any, lim int) bool {
	if lim == 0 {
		return true
	}
	switch x := v.(type) {
	case *m.JObj:
		for _, e := range x.M {
			if nested(e.V, lim-1) {
				return true
			}
		}
	case *m.JArr:
		for _, e := range x.E {
			if nested(e, lim-1) {
				return true
			}
		}
	}
	return false
}

// genJSONText makes a text that is near to a JSON schema.
func genJSONText(t *rapid.T, maxEdits int) *textCase {
	c := &textCase{}
	kind := m.Num(t, "text-kind", 0, 9)
	if maxEdits > 0 {
		kind = max(kind, 2)
	}
	switch {
	case kind == 0:
		c.JSON = rapid.SliceOfN(rapid.Byte(), 1, 60).Draw(t, "bytes")
		return c
	case kind == 1:
		var b strings.Builder
		for _, s := range rapid.SliceOfN(rapid.SampledFrom(append(append([]string{"{", "}", "[", "]", ",", ":", "{\"webrpc\":\"v1\","}, jsonBits...), quoteAll(jsonKeys)...)), 1, 40).Draw(t, "soup") {
			b.WriteString(s)
		}
		c.JSON = []byte(b.String())
		return c
	}
	cfg := m.Default()
	cfg.Depth = 2
	cfg.MaxStruct, cfg.MaxSvc, cfg.MaxEnum, cfg.MaxAlias = 2, 2, 2, 2
	cfg.JSONOnly = true
	s := m.Gen(t, cfg)
	o := m.GenJSONOpts(t, "json")
	n := maxEdits
	if n == 0 {
		n = 6
	}
	c.Edits = m.Num(t, "edits", 1, n)
	o.Edit = func(doc *m.JObj) {
		for i := 0; i < c.Edits; i++ {
			editJSON(t, doc)
		}
	}
	c.JSON = []byte(s.JSON(o))
	if kind == 7 && maxEdits == 0 && m.OneIn(t, "rest", 2) { // something after the schema
		c.JSON = append(c.JSON, m.Pick(t, "rest-gap", []string{"", " ", "\n", "\r\n\t "})...)
		c.JSON = append(c.JSON, m.Pick(t, "rest-text", []string{"{}", "null", "]", "}", ",", "0", "x", "\"\"", "\x00", "\ufeff", "// x", "# x", "/* */", string(c.JSON), "<", ";"})...)
	}
	if kind >= 8 && maxEdits == 0 { // byte edits too
		for k := m.Num(t, "byte-edits", 1, 3); k > 0; k-- {
			c.JSON = editRidl(t, c.JSON)
		}
	}
	if len(c.JSON) > 64<<10 {
		c.JSON = c.JSON[:64<<10]
	}
	if c.JSON == nil {
		c.JSON = []byte{}
	}
	return c
}

func quoteAll(xs []string) []string {
	var out []string
	for _, x := range xs {
		out = append(out, "\""+x+"\"")
	}
	return out
}

// anyBytes makes a case of any text: RIDL, or JSON if it starts with a brace.
func anyBytes(b []byte) any {
	if len(b) > 0 && b[0] == '{' {
		return &textCase{JSON: b}
	}
	return ridlBytes(b)
}

func ridlBytes(b []byte) any {
	return &textCase{Files: map[string][]byte{"main.ridl": b, "lib.ridl": []byte("webrpc = v1\nname = lib\nversion = 1\nstruct Lib\n  - a: Inner\nstruct Inner\n  - a: map<Kind,Text>\nenum Kind: uint8\n  - A\ntype Text: string\nerror 1 Err \"m\"\nservice Svc\n  - Do(Lib) errors Err\n")}}
}

func jsonBytes(b []byte) any { return &textCase{JSON: append([]byte{}, b...)} }

func bytesOf(v any) []byte {
	c := v.(*textCase)
	if c.JSON != nil {
		return c.JSON
	}
	return c.Files["main.ridl"]
}

// aliasGraphs gives all schemas of three aliases that refer to each other, with
// a struct or a method that uses them.
func aliasGraphs(asJSON bool, yield func(c any) bool) bool {
	names := []string{"A", "B", "C"}
	exprs := []string{"string"}
	for _, n := range names {
		exprs = append(exprs, n, "[]"+n, "map<"+n+",int32>")
	}
	uses := []string{"A", "map<A,int32>", "map<string,map<A,B>>"}
	for i := range len(exprs) * len(exprs) * len(exprs) {
		types := []string{exprs[i%len(exprs)], exprs[i/len(exprs)%len(exprs)], exprs[i/len(exprs)/len(exprs)]}
		use := uses[i%len(uses)]
		c := &textCase{}
		if asJSON {
			var b strings.Builder
			b.WriteString(`{"webrpc":"v1","name":"x","version":"1","types":[`)
			for k, n := range names {
				fmt.Fprintf(&b, `{"kind":"alias","name":"%s","type":"%s"},`, n, types[k])
			}
			fmt.Fprintf(&b, `{"kind":"struct","name":"S","fields":[{"name":"a","type":"%s"}]}],"services":[{"name":"V","methods":[{"name":"M","inputs":[{"name":"a","type":"%s"}],"outputs":[]}]}]}`, use, use)
			c.JSON = []byte(b.String())
		} else {
			var b strings.Builder
			b.WriteString("webrpc = v1\nname = x\nversion = 1\n")
			for k, n := range names {
				fmt.Fprintf(&b, "type %s: %s\n", n, types[k])
			}
			fmt.Fprintf(&b, "struct S\n  - a: %s\nservice V\n  - M(a: %s)\n", use, use)
			c.Files = map[string][]byte{"main.ridl": []byte(b.String())}
		}
		if !yield(c) {
			return false
		}
	}
	return true
}

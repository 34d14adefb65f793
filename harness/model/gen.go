package model

import (
	"fmt"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// Cfg says what schemas to generate.
type Cfg struct {
	Pfx        string // goes into the names, to keep them unique among files
	Docs       bool   // doc comments
	Rich       bool   // values with any text (need quotes in RIDL)
	JSONOnly   bool   // things that only the JSON form can express
	MaxAlias   int
	MaxEnum    int
	MaxStruct  int
	MinStruct  int
	MaxField   int
	MinField   int
	MaxErr     int
	MinErr     int
	MaxSvc     int
	MinSvc     int
	MaxMethod  int
	Depth      int  // nesting of type expressions
	BigInt     bool // more bigints
	RefBias    bool // more references to declared types
	Nested     bool // more lists and maps
	Annots     bool // more annotations, of few names
	BasePath   bool
	NoVersion  bool              // version may be missing if there are no services
	Foreign    map[string]string // declared types of other files: name -> kind
	ForeignErr []string
	Longest    bool // some texts longer than 64 kB
	OneWay     bool // no rows of types with two ways to the next (target debug writes each of them)
	NoLarge    bool // no list of unusual length

	big     *big
	stretch *stretch
	chain   int // length of a row of types
	swell   int // how many more there are in one list
}

// big makes some lists of a schema longer than usual.
type big struct {
	what string
	n    int
	left int
}

// count says how many there are of something, usually from lo to hi.
func (c Cfg) count(t *rapid.T, what string, lo, hi int) int {
	if b := c.big; b != nil && b.what == what && b.left > 0 && hi > 0 {
		b.left--
		if n := num(t, what+"-many", 0, b.n); n > 0 {
			return max(lo, b.n-n+1)
		}
	}
	return num(t, what, lo, max(lo, hi))
}

// stretch makes some texts of a schema long.
type stretch struct {
	what string // name, value, comment
	pad  int
	left int
	pre  bool // in front of names, so that they begin alike
}

func (c Cfg) long(t *rapid.T, what, s string) string {
	if c.stretch == nil || c.stretch.what != what || c.stretch.left == 0 {
		return s
	}
	if num(t, "stretch-this", 0, 2) == 2 {
		return s
	}
	c.stretch.left--
	if c.stretch.pre && what == "name" {
		if s[0] >= 'a' && s[0] <= 'z' {
			return strings.Repeat("x", c.stretch.pad) + s
		}
		return strings.Repeat("X", c.stretch.pad) + s
	}
	return s + strings.Repeat("x", c.stretch.pad)
}

// enlarge makes one list of some schemas, or some of their texts, much longer
// than usual.
func enlarge(t *rapid.T, c Cfg) Cfg {
	if c.NoLarge || !OneIn(t, "large", 16) {
		return c
	}
	if OneIn(t, "swell?", 8) {
		c.swell = num(t, "swell", 250, 330)
		return c
	}
	what := num(t, "large-what", 0, 3)
	if what == 3 && c.MaxStruct > 1 {
		c.chain = num(t, "chain", 6, 48)
		return c
	}
	if what < 2 {
		b := Bigs[num(t, "large-list", 0, len(Bigs)-1)]
		c.big = &b
		return c
	}
	c.stretch = &stretch{
		what: pick(t, "stretch", []string{"name", "value", "comment"}),
		pad:  pick(t, "stretch-by", []int{60, 130, 260, 1100, 4200}),
		left: 3,
	}
	if c.stretch.what == "name" && num(t, "stretch-front", 0, 2) > 0 {
		c.stretch.pre = true
		c.stretch.pad = pick(t, "stretch-front-by", []int{16, 32, 64, 128, 255})
		c.stretch.left = 12
	} else if c.Longest && OneIn(t, "stretch-most", 6) {
		c.stretch.pad, c.stretch.left = 66000, 1
	}
	return c
}

// Bigs are the lists that are sometimes long: how long, and how many of them.
var Bigs = []big{
	{"aliases", 40, 1}, {"enums", 40, 1}, {"structs", 40, 1}, {"fields", 80, 2}, {"fields", 40, 4},
	{"errors", 70, 1}, {"services", 24, 1}, {"methods", 70, 1}, {"members", 300, 1}, {"members", 70, 3},
	{"args", 40, 3}, {"metas", 24, 4}, {"annots", 20, 4}, {"doc-lines", 80, 4}, {"method-errs", 40, 3}, {"depth", 24, 1},
}

// addChain adds types that refer to one another in a row, and returns the
// name of the first.
func (g *genState) addChain(s *Schema, tn *namer) string {
	t, n := g.t, g.c.chain
	var names []string
	for i := 0; i < n; i++ {
		names = append(names, tn.take(fmt.Sprintf("Link%d", i)+g.c.Pfx))
	}
	wrap := num(t, "chain-wrap", 0, 3)
	kinds := pick(t, "chain-kinds", []int{0, 3, 4}) // none, lists, lists and maps
	twice := OneIn(t, "chain-twice", 2) && !g.c.OneWay
	alias := 0
	if g.c.MaxAlias > 0 {
		alias = num(t, "chain-alias", 0, 4)
	}
	for i, nm := range names {
		var ty *Type
		switch {
		case i+1 < n:
			ty = Ref(names[i+1])
		case len(g.names) > 0 && alias < 2:
			ty = Ref(pick(t, "chain-end", g.names))
		default:
			ty = Core("string")
		}
		switch {
		case kinds >= 3 && (i+wrap)%kinds == 2:
			ty = List(ty)
		case kinds == 4 && (i+wrap)%kinds == 3:
			ty = MapOf(Core("string"), ty)
		}
		if alias > 1 && i%alias == 1 {
			s.Aliases = append(s.Aliases, Alias{Name: nm, Type: ty})
			continue
		}
		st := Struct{Name: nm, Fields: []Field{{Name: "next", Type: ty}}}
		if twice { // many ways to the last one
			st.Fields = append(st.Fields, Field{Name: "other", Type: ty})
		}
		s.Structs = append(s.Structs, st)
	}
	return names[0]
}

func Default() Cfg {
	return Cfg{Docs: true, Rich: true, MaxAlias: 3, MaxEnum: 3, MaxStruct: 4, MaxField: 5, MaxErr: 3, MaxSvc: 3, MaxMethod: 4, Depth: 3, BasePath: true}
}

var CoreAll = []string{"string", "bool", "int", "uint", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "bigint", "float32", "float64", "byte", "any", "null", "timestamp"}
var CoreKeys = []string{"string", "uint", "uint8", "uint16", "uint32", "uint64", "int", "int8", "int16", "int32", "int64"}
var CoreInts = CoreKeys[1:]
var CoreNotKeys = []string{"bool", "bigint", "float32", "float64", "byte", "any", "null", "timestamp"}

type namer struct {
	used map[string]bool
	pfx  string
}

func newNamer(pfx string) *namer { return &namer{used: map[string]bool{}, pfx: pfx} }

func (n *namer) take(s string) string {
	s0 := s
	for i := 2; n.used[strings.ToLower(s)]; i++ {
		s = fmt.Sprintf("%s%d", s0, i)
	}
	n.used[strings.ToLower(s)] = true
	return s
}

func pick[T any](t *rapid.T, label string, xs []T) T { return rapid.SampledFrom(xs).Draw(t, label) }
func num(t *rapid.T, label string, lo, hi int) int   { return rapid.IntRange(lo, hi).Draw(t, label) }

// OneIn is true once in n times; shrinks to false.
func OneIn(t *rapid.T, label string, n int) bool     { return num(t, label, 0, n-1) == n-1 }
func Pick[T any](t *rapid.T, label string, xs []T) T { return pick(t, label, xs) }
func Num(t *rapid.T, label string, lo, hi int) int   { return num(t, label, lo, hi) }

var upperSyl = []string{"Webrp", "MyWebrpc", "A", "User", "Kind", "List", "Map", "String", "Int", "ID", "Item", "Struct", "Enum", "Service", "Error", "X", "Node", "Tree", "Type", "Stream", "Version", "HTTP"}
var restSyl = []string{"", "User", "ID", "2", "_", "List", "s", "x", "Req", "0", "Map", "_a"}
var lowerSyl = []string{"a", "id", "name", "user", "kind", "createdAt", "map", "list", "value", "type", "x", "errors", "optional", "ID", "Name", "URL", "string", "stream", "enum", "struct", "import", "service", "n0", "_"}

func (n *namer) upper(t *rapid.T, label string) string {
	s := pick(t, label, upperSyl)
	if num(t, label+"-rest", 0, 1) == 1 {
		s += pick(t, label+"-rest1", restSyl)
	}
	if strings.EqualFold(s, "bigint") || strings.HasPrefix(strings.ToLower(s+n.pfx), "webrpc") {
		s = "B" + s + "X"
	}
	return n.take(s + n.pfx)
}

func (n *namer) lower(t *rapid.T, label string) string {
	s := pick(t, label, lowerSyl)
	if num(t, label+"-rest", 0, 2) == 2 {
		s += pick(t, label+"-rest1", restSyl)
	}
	if s[0] == '_' {
		s = "u" + s
	}
	return n.take(s)
}

var textRunes = []rune("abcXYZ019 _-.,:;/#@+|=<>()[]{}?!'$%&*~^`\"\n\téüñß¿¡世界日本🙂Ωя\u00ad")

// Text is any text a quoted value can have.
func Text(t *rapid.T, label string, min, max int) string {
	rs := rapid.SliceOfN(rapid.SampledFrom(textRunes), min, max).Draw(t, label)
	return string(rs)
}

var bareRunes = []rune("abcdefgXYZ0129_.-/+|@$%&*;~^'")

func BareText(t *rapid.T, label string) string {
	f := rapid.SampledFrom([]rune("abcxyzXYZ0129_")).Draw(t, label+"-first")
	rs := rapid.SliceOfN(rapid.SampledFrom(bareRunes), 0, 8).Draw(t, label)
	return string(f) + string(rs)
}

// Value is a non-empty value, bare or (if rich) any text.
func Value(t *rapid.T, label string, rich bool) string {
	if rich && num(t, label+"-rich", 0, 2) == 2 {
		return Text(t, label, 1, 10)
	}
	return BareText(t, label)
}

var cmtRunes = []rune("abcdefXYZ0129.,:;/#@+|=<>()[]{}?!'$%&*~^\"-_\\éß¿世🙂`")

// escapeLike are texts that mean something else in JSON, HTML or formats.
var escapeLike = []string{`\u003c`, `\u003e`, `\u0026`, `\u2028`, `\n`, `\\`, `\"`, `\x00`, "&lt;", "&amp;", "%s", "%d", "%%", "${HOME}", "{{.}}", "\u2028", "\ufeff"}

func CommentLine(t *rapid.T, label string) string {
	var words []string
	k := num(t, label+"-n", 1, 4)
	for i := 0; i < k; i++ {
		w := string(rapid.SliceOfN(rapid.SampledFrom(cmtRunes), 1, 6).Draw(t, label))
		if i == 0 && (w[0] == '#' || w[0] == '!') {
			w = "c" + w
		}
		if OneIn(t, label+"-esc?", 24) {
			w += pick(t, label+"-esc", escapeLike)
		}
		words = append(words, w)
	}
	return strings.Join(words, " ")
}

func GenDoc(t *rapid.T, label string, c Cfg) Doc {
	var d Doc
	if !c.Docs {
		return d
	}
	if c.JSONOnly && OneIn(t, label+"-raw?", 8) {
		// in JSON, comments are any text
		for k := num(t, label+"-raws", 1, 3); k > 0; k-- {
			l := CommentLine(t, label)
			switch num(t, label+"-raw", 0, 7) {
			case 0:
				l = strings.Repeat(" ", num(t, label+"-blanks", 1, 4)) + l
			case 1:
				l += "  "
			case 2:
				l = pick(t, label+"-mark", []string{"!", "#", "# ", "//", "\t", "\n", " !"}) + l
			case 3:
				l = strings.ReplaceAll(l, " ", pick(t, label+"-space", []string{"  ", "\t", "\n", "\r\n", "\u00a0"})) + pick(t, label+"-end", []string{"", "\n", "\\", ".."})
			case 4:
				l = pick(t, label+"-odd", []string{"", " ", "\n", "\"", "\u2028", "<b>&amp;", "\x00", "{{"})
			}
			d.Raw = append(d.Raw, l)
		}
		return d
	}
	switch num(t, label+"-doc", 0, 5) {
	case 3:
		d.Above = []string{c.long(t, "comment", CommentLine(t, label))}
	case 4:
		k := c.count(t, "doc-lines", 1, 3)
		for i := 0; i < k; i++ {
			b := num(t, label+"-bang", 0, 15)
			switch {
			case b >= 14:
				d.Above = append(d.Above, "! "+CommentLine(t, label))
			case b == 13 && len(d.Above) > 0 && !strings.HasPrefix(d.Above[0], "!"):
				// blank comment lines count if they come after some text
				d.Above = append(d.Above, "")
			default:
				d.Above = append(d.Above, c.long(t, "comment", CommentLine(t, label)))
			}
		}
		fallthrough
	case 5:
		if num(t, label+"-tr", 0, 1) == 1 {
			d.Trail = CommentLine(t, label)
			if num(t, label+"-bang", 0, 9) == 9 {
				d.Trail = "!" + d.Trail
			}
		}
	}
	return d
}

type genState struct {
	t     *rapid.T
	c     Cfg
	kinds map[string]string // all visible types
	names []string          // visible, in order
	keys  []string          // enums and aliases of enums
	rank  map[string]int    // aliases may only refer to aliases of lower rank
}

func (g *genState) typ(label string, depth int, aliasRank int) *Type {
	t := g.t
	hi := 9
	if g.c.RefBias {
		hi = 13
	}
	k := num(t, label+"-kind", 0, hi)
	if g.c.Nested && depth > 0 && num(t, label+"-nest", 0, 2) > 0 {
		k = num(t, label+"-nested", 6, 8)
	}
	if depth <= 0 && (k == 6 || k == 7 || k == 8) {
		k = 0
	}
	switch {
	case k <= 3:
		if g.c.BigInt && k >= 2 {
			return Core("bigint")
		}
		return Core(pick(t, label+"-core", CoreAll))
	case k == 6 || k == 7:
		return List(g.typ(label, depth-1, aliasRank))
	case k == 8:
		return MapOf(g.key(label), g.typ(label, depth-1, aliasRank))
	}
	var cands []string
	for _, n := range g.names {
		if aliasRank >= 0 && g.kinds[n] == "alias" {
			if r, ok := g.rank[n]; ok && r >= aliasRank {
				continue
			}
		}
		cands = append(cands, n)
	}
	if len(cands) == 0 {
		return Core(pick(t, label+"-core", CoreAll))
	}
	return Ref(pick(t, label+"-ref", cands))
}

func (g *genState) key(label string) *Type {
	if len(g.keys) > 0 && num(g.t, label+"-keykind", 0, 2) == 2 {
		return Ref(pick(g.t, label+"-keyref", g.keys))
	}
	return Core(pick(g.t, label+"-key", CoreKeys))
}

var metaKeys = []string{"go.tag.db", "go.field.name", "go.field.type", "ts.type", "x", "json2", "go.tag.json", "k8s.io", "a.b.c.d", "a1.b2.c3.d4.e5.f6.g7.h8"}

// metaValues are values as they are in use.
var metaValues = []string{"[]MyString", "*time.Time", "uuid.UUID", "map[string]any", "ID", "string", "-", "-,", "created_at,omitempty", "Record<string,any>", "id?", "(a|b)[]", "x=y", "{}", "!", "a:b", "0", "true", "null"}

func (g *genState) metas(label string, jsonNames *namer) []Meta {
	t := g.t
	var out []Meta
	k := g.c.count(t, "metas", 0, 3)
	if k == 1 {
		k = 0
	}
	hasJSON := false
	for i := 0; i < k; i++ {
		m := Meta{}
		if jsonNames != nil && !hasJSON && num(t, label+"-json", 0, 2) == 2 {
			hasJSON = true
			m.K = "json"
			if num(t, label+"-dash", 0, 4) == 4 {
				m.V = "-"
			} else {
				m.V = jsonNames.lower(t, label+"-jsonname")
			}
		} else {
			m.K = pick(t, label+"-mk", metaKeys)
			m.V = g.c.long(t, "value", Value(t, label+"-mv", g.c.Rich))
			if num(t, label+"-real", 0, 2) == 2 {
				m.V = pick(t, label+"-realv", metaValues)
			}
			if g.c.JSONOnly && num(t, label+"-lit", 0, 3) == 3 {
				m.Lit = pick(t, label+"-litv", []string{"1", "true", "null", "-0.5", "[1,\"x\"]", "{\"a\":{\"b\":null}}", "\"\"", "123456789", "false", "1e3"})
				m.V = ""
			}
		}
		if g.c.JSONOnly && i > 0 && num(t, label+"-join", 0, 3) == 3 {
			// the same object can't have a key twice
			dup := false
			for j := i - 1; j >= 0; j-- {
				if out[j].K == m.K {
					dup = true
				}
				if !out[j].Join {
					break
				}
			}
			m.Join = !dup
		}
		out = append(out, m)
	}
	return out
}

// swapJSONNames sometimes gives renamed fields the names of each other.
func swapJSONNames(t *rapid.T, fs []Field) {
	type at struct{ f, m int }
	var ats []at
	var names []string
	for i := range fs {
		for j, x := range fs[i].Meta {
			if x.K == "json" && x.V != "-" {
				ats = append(ats, at{i, j})
				names = append(names, fs[i].Name)
			}
		}
	}
	if len(ats) == 0 || !OneIn(t, "json-swap", 3) {
		return
	}
	for i, n := range rapid.Permutation(names).Draw(t, "json-perm") {
		fs[ats[i].f].Meta[ats[i].m].V = n
	}
}

// jsonMetas are meta entries where only the JSON form allows them.
func (g *genState) jsonMetas(label string) []Meta {
	if !g.c.JSONOnly || num(g.t, label+"-hasmeta", 0, 3) != 3 {
		return nil
	}
	return g.metas(label, nil)
}

// Gen generates a valid schema.
func Gen(t *rapid.T, c Cfg) *Schema {
	s := &Schema{}
	c = enlarge(t, c)
	g := &genState{t: t, c: c, kinds: map[string]string{}, rank: map[string]int{}}
	tn := newNamer(c.Pfx)

	nAlias := c.count(t, "aliases", 0, c.MaxAlias)
	nEnum := c.count(t, "enums", 0, c.MaxEnum)
	nStruct := c.count(t, "structs", c.MinStruct, c.MaxStruct)
	if c.MinStruct == 0 && OneIn(t, "no-types", 16) {
		nAlias, nEnum, nStruct = 0, 0, 0
	}
	c.Depth = c.count(t, "depth", c.Depth, c.Depth)
	g.c.Depth = c.Depth
	for i := 0; i < nAlias; i++ {
		n := c.long(t, "name", tn.upper(t, "alias"))
		s.Aliases = append(s.Aliases, Alias{Name: n})
		g.kinds[n] = "alias"
		g.names = append(g.names, n)
	}
	for i := 0; i < nEnum; i++ {
		n := c.long(t, "name", tn.upper(t, "enum"))
		s.Enums = append(s.Enums, Enum{Name: n})
		g.kinds[n] = "enum"
		g.names = append(g.names, n)
		g.keys = append(g.keys, n)
	}
	for i := 0; i < nStruct; i++ {
		n := c.long(t, "name", tn.upper(t, "struct"))
		s.Structs = append(s.Structs, Struct{Name: n})
		g.kinds[n] = "struct"
		g.names = append(g.names, n)
	}
	foreign := SortedKeys(c.Foreign)
	for _, n := range foreign {
		g.kinds[n] = c.Foreign[n]
		g.names = append(g.names, n)
		if c.Foreign[n] == "enum" {
			g.keys = append(g.keys, n)
		}
	}

	// alias ranks: a random order in which aliases may refer to each other
	if nAlias > 0 {
		perm := rapid.Permutation(seq(nAlias)).Draw(t, "alias-rank")
		for i, r := range perm {
			g.rank[s.Aliases[i].Name] = r
		}
		enumKeys := append([]string(nil), g.keys...)
		for i := range s.Aliases {
			a := &s.Aliases[i]
			if len(enumKeys) > 0 && num(t, "alias-enum", 0, 2) == 2 {
				a.Type = Ref(pick(t, "alias-of", enumKeys))
				g.keys = append(g.keys, a.Name)
			}
		}
		for i := range s.Aliases {
			a := &s.Aliases[i]
			if a.Type == nil {
				a.Type = g.typ("alias-type", c.Depth, g.rank[a.Name])
				if a.Type.K == "ref" && g.kinds[a.Type.N] == "enum" {
					g.keys = append(g.keys, a.Name)
				}
			}
			a.Meta = g.metas("alias", nil)
			a.Doc = GenDoc(t, "alias", c)
		}
	}
	for i := range s.Enums {
		e := &s.Enums[i]
		if num(t, "enum-string", 0, 3) == 3 {
			e.Base = "string"
		} else {
			e.Base = pick(t, "enum-base", CoreInts)
		}
		e.Doc = GenDoc(t, "enum", c)
		e.Meta = g.jsonMetas("enum")
		mn := newNamer("")
		k := c.count(t, "members", 0, 5)
		for j := 0; j < k; j++ {
			m := Member{Name: c.long(t, "name", mn.lower(t, "member"))}
			if num(t, "member-upper", 0, 1) == 1 {
				m.Name = strings.ToUpper(m.Name[:1]) + m.Name[1:]
			}
			if num(t, "member-explicit", 0, 1) == 1 {
				m.Explicit = true
				switch num(t, "member-val", 0, 2) {
				case 0:
					m.Val = fmt.Sprint(num(t, "member-int", 0, 300))
				case 1:
					m.Val = BareText(t, "member-bare")
				default:
					m.Val = c.long(t, "value", Value(t, "member-text", c.Rich))
				}
			}
			m.Doc = GenDoc(t, "member", c)
			m.Meta = g.jsonMetas("member")
			e.Members = append(e.Members, m)
		}
	}
	for i := range s.Structs {
		st := &s.Structs[i]
		st.Doc = GenDoc(t, "struct", c)
		st.Meta = g.jsonMetas("struct")
		fn := newNamer("")
		k := c.count(t, "fields", c.MinField, c.MaxField)
		var jn *namer = newNamer("")
		for j := 0; j < k; j++ {
			f := Field{Name: c.long(t, "name", fn.lower(t, "field"))}
			st.Fields = append(st.Fields, f)
			jn.used[strings.ToLower(f.Name)] = true
		}
		for j := range st.Fields {
			f := &st.Fields[j]
			f.Type = g.typ("field-type", c.Depth, -1)
			f.Opt = num(t, "field-opt", 0, 3) == 3
			f.Meta = g.metas("field", jn)
			f.Doc = GenDoc(t, "field", c)
		}
		swapJSONNames(t, st.Fields)
	}
	chained := ""
	if c.chain > 0 {
		chained = g.addChain(s, tn)
	}
	if c.big != nil && c.big.what == "method-errs" && c.MaxErr > 0 {
		c.MinErr, c.MaxErr = 12, 40
	}
	nErr := c.count(t, "errors", c.MinErr, c.MaxErr)
	en := newNamer(c.Pfx)
	code := 0
	var errNames []string
	for i := 0; i < nErr; i++ {
		e := Err{Name: c.long(t, "name", en.upper(t, "error"))}
		if c.Pfx == "" && num(t, "error-step", 0, 9) == 9 {
			code += num(t, "error-big", 1, 100000000)
		} else {
			code += num(t, "error-code", 1, 500)
		}
		e.Code = code
		if c.Pfx == "" && i == nErr-1 && OneIn(t, "error-huge", 12) {
			e.Code = pick(t, "error-huge-code", []int{1<<31 - 2001, 1<<30 + 5})
		}
		if c.Pfx != "" {
			e.Code = (code-1)*50 + int('C'-c.Pfx[len(c.Pfx)-1]+26)%26 + 1
		}
		e.Msg = c.long(t, "value", Value(t, "error-msg", c.Rich))
		if num(t, "error-status", 0, 1) == 1 {
			e.HasStatus = true
			e.Status = num(t, "error-http", 400, 599)
			if num(t, "error-http-usual", 0, 1) == 1 {
				e.Status = pick(t, "error-http-of", []int{500, 404, 400, 401, 403, 409, 422, 429, 499, 503, 599})
			}
		}
		s.Errors = append(s.Errors, e)
		errNames = append(errNames, e.Name)
	}
	if nErr > 1 && num(t, "error-order", 0, 1) == 1 {
		s.Errors = rapid.Permutation(s.Errors).Draw(t, "error-perm")
	}
	errNames = append(errNames, c.ForeignErr...)

	nSvc := c.count(t, "services", c.MinSvc, c.MaxSvc)
	sn := newNamer(c.Pfx)
	var structNames []string
	for _, n := range g.names {
		if g.kinds[n] == "struct" {
			structNames = append(structNames, n)
		}
	}
	for i := 0; i < nSvc; i++ {
		sv := Service{Name: c.long(t, "name", sn.upper(t, "service")), Doc: GenDoc(t, "service", c)}
		mn := newNamer("")
		k := c.count(t, "methods", 1, c.MaxMethod)
		for j := 0; j < k; j++ {
			m := Method{}
			if num(t, "method-lower", 0, 3) == 3 {
				m.Name = mn.lower(t, "method")
				if m.Name == "stream" || m.Name == "proxy" {
					m.Name = mn.take("m" + m.Name)
				}
			} else {
				m.Name = c.long(t, "name", mn.upper(t, "method"))
			}
			m.Doc = GenDoc(t, "method", c)
			m.Annots = genAnnots(t, c)
			m.SIn = num(t, "method-sin", 0, 4) == 4
			m.SOut = num(t, "method-sout", 0, 4) == 4
			if len(structNames) > 0 && num(t, "method-succinct", 0, 3) == 3 {
				m.Succinct = true
				in, out := pick(t, "succ-in", structNames), pick(t, "succ-out", structNames)
				m.In = []Arg{{Name: LowerFirst(in), Type: Ref(in)}}
				m.Out = []Arg{{Name: LowerFirst(out), Type: Ref(out)}}
				if c.JSONOnly {
					m.In[0].Opt = OneIn(t, "succ-opt", 4)
					m.Out[0].Opt = OneIn(t, "succ-opt", 4)
				}
			} else {
				m.In = g.args("in")
				m.Out = g.args("out")
				if chained != "" && OneIn(t, "chained", 2) {
					m.Out = append(m.Out, Arg{Name: "chained", Type: Ref(chained)})
				}
			}
			if len(errNames) > 0 && num(t, "method-errs", 0, 2) == 2 {
				k := min(c.count(t, "method-errs", 1, 3), len(errNames))
				m.Errors = append([]string(nil), rapid.Permutation(errNames).Draw(t, "method-errperm")[:k]...)
				if OneIn(t, "method-err-again", 6) {
					m.Errors = append(m.Errors, pick(t, "method-err-twice", m.Errors))
				}
			}
			sv.Methods = append(sv.Methods, m)
		}
		s.Services = append(s.Services, sv)
	}

	if c.swell > 0 {
		g.swell(s, tn, en, sn)
	}

	s.Name = c.long(t, "value", Value(t, "schema-name", c.Rich))
	if !(c.NoVersion && nSvc == 0 && OneIn(t, "no-version", 3)) {
		s.Version = Value(t, "schema-version", c.Rich)
	}
	if c.BasePath && num(t, "has-basepath", 0, 1) == 1 {
		s.BasePath = GenBasePath(t)
	}
	return s
}

// swell adds more than 256 simple items to one list.
func (g *genState) swell(s *Schema, tn, en, sn *namer) {
	t, c := g.t, g.c
	many := func(n *namer, first string, i int) string { return n.take(fmt.Sprintf("%sany%d%s", first, i, n.pfx)) }
	switch pick(t, "swell-what", []string{"fields", "methods", "errors", "services", "types", "types", "members", "args"}) {
	case "fields":
		if len(s.Structs) > 0 {
			st := &s.Structs[num(t, "swell-struct", 0, len(s.Structs)-1)]
			for i := 0; i < c.swell; i++ {
				st.Fields = append(st.Fields, Field{Name: fmt.Sprintf("many%d", i), Type: Core("int"), Opt: i%5 == 4})
			}
		}
	case "members":
		if len(s.Enums) > 0 {
			e := &s.Enums[num(t, "swell-enum", 0, len(s.Enums)-1)]
			for i := 0; i < c.swell; i++ {
				e.Members = append(e.Members, Member{Name: fmt.Sprintf("many%d", i)})
			}
		}
	case "methods", "args":
		if len(s.Services) == 0 {
			return
		}
		sv := &s.Services[num(t, "swell-service", 0, len(s.Services)-1)]
		m := &sv.Methods[num(t, "swell-method", 0, len(sv.Methods)-1)]
		if c.swell%2 == 0 && !m.Succinct {
			for i := 0; i < c.swell; i++ {
				m.In = append(m.In, Arg{Name: fmt.Sprintf("many%d", i), Type: Core("int"), Opt: i%5 == 4})
			}
			return
		}
		for i := 0; i < c.swell; i++ {
			x := Method{Name: fmt.Sprintf("Many%d", i)}
			if i%2 == 0 {
				x.Annots = m.Annots
			}
			sv.Methods = append(sv.Methods, x)
		}
	case "errors":
		if c.MaxErr == 0 || c.Pfx != "" {
			return
		}
		used := map[int]bool{}
		for _, e := range s.Errors {
			used[e.Code] = true
		}
		for i := 0; i < c.swell; i++ {
			code := i + 1
			for used[code] {
				code += 7919
			}
			used[code] = true
			s.Errors = append(s.Errors, Err{Name: many(en, "M", i), Code: code, Msg: "many"})
		}
	case "services":
		if c.MaxSvc > 0 && len(s.Services) > 0 {
			for i := 0; i < c.swell; i++ {
				s.Services = append(s.Services, Service{Name: many(sn, "M", i), Methods: []Method{{Name: "Many"}}})
			}
		}
	case "types":
		if c.MaxStruct == 0 {
			return
		}
		all := Struct{Name: tn.take("ManyAll" + c.Pfx)}
		mix := num(t, "swell-mix", 1, 3)
		for i := 0; i < c.swell; i++ {
			n := many(tn, "M", i)
			switch {
			case i%mix == 1 && c.MaxEnum > 0:
				s.Enums = append(s.Enums, Enum{Name: n, Base: "uint8", Members: []Member{{Name: "A"}}})
			case i%mix == 2 && c.MaxAlias > 0:
				s.Aliases = append(s.Aliases, Alias{Name: n, Type: Core("string")})
			default:
				s.Structs = append(s.Structs, Struct{Name: n, Fields: []Field{{Name: "a", Type: Core("int")}}})
			}
			all.Fields = append(all.Fields, Field{Name: fmt.Sprintf("a%d", i), Type: Ref(n)})
		}
		s.Structs = append(s.Structs, all)
		for i := range s.Services {
			for j := range s.Services[i].Methods {
				if m := &s.Services[i].Methods[j]; !m.Succinct && OneIn(t, "swell-used", 3) {
					m.Out = append(m.Out, Arg{Name: "many", Type: Ref(all.Name)})
				}
			}
		}
	}
}

func GenBasePath(t *rapid.T) string {
	b := ""
	k := num(t, "base-segs", 0, 3)
	for i := 0; i < k; i++ {
		if b != "" {
			b += "/"
		}
		b += pick(t, "base-seg", []string{"rpc", "v1", "api", "a.b", "x-y", "~u", "A_1", "%20", "..", "caf%C3%A9", "a:b", "@me"})
	}
	if k == 0 || num(t, "base-lead", 0, 1) == 1 {
		b = "/" + b
	}
	if k > 0 && num(t, "base-tail", 0, 1) == 1 {
		b += "/"
	}
	return b
}

func (g *genState) args(label string) []Arg {
	t := g.t
	var out []Arg
	an := newNamer("")
	k := g.c.count(t, "args", 0, 3)
	for i := 0; i < k; i++ {
		out = append(out, Arg{
			Name: g.c.long(t, "name", an.lower(t, label+"-arg")),
			Type: g.typ(label+"-type", g.c.Depth, -1),
			Opt:  num(t, label+"-opt", 0, 3) == 3,
			Meta: g.jsonMetas(label),
		})
	}
	return out
}

var annNames = []string{"auth", "internal", "acl", "deprecated", "public", "x-y", "role", "Auth"}
var annVals = []string{"admin", "user", "true", "cookies", "1"}

func genAnnots(t *rapid.T, c Cfg) []Annot {
	var out []Annot
	used := map[string]bool{}
	lo := 0
	if c.Annots {
		lo = -1
	}
	k := c.count(t, "annots", 0, 3) + lo
	for i := 0; i < k; i++ {
		names := annNames
		if c.Annots {
			names = annNames[:4]
		}
		a := Annot{Name: pick(t, "annot", names)}
		if k > 4 && i > 2 {
			a.Name = fmt.Sprintf("%s%d", a.Name, i)
		}
		if OneIn(t, "annot-alike", 10) { // begins with the name of another
			a.Name += pick(t, "annot-more", []string{"-x", "x", "_only", "2", "-" + a.Name})
		}
		if used[a.Name] {
			continue
		}
		used[a.Name] = true
		switch num(t, "annot-val", 0, 3) {
		case 1:
			a.HasVal, a.Val = true, pick(t, "annot-v", annVals)
		case 2:
			a.HasVal = true
			if c.Annots {
				a.Val = pick(t, "annot-v2", annVals[:2])
			} else if c.Rich {
				a.Val = c.long(t, "value", Text(t, "annot-text", 1, 8))
			} else {
				a.Val = pick(t, "annot-v3", annVals)
			}
		}
		if c.JSONOnly && OneIn(t, "annot-other", 8) {
			a.Other, a.As = true, pick(t, "annot-as", []string{"", "auth", "Auth", "x y"})
		}
		out = append(out, a)
	}
	return out
}

func LowerFirst(s string) string { return strings.ToLower(s[:1]) + s[1:] }

func seq(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}

func SortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func GenLay(t *rapid.T, label string, max int) []byte {
	return rapid.SliceOfN(rapid.Byte(), 0, max).Draw(t, label)
}

func GenRidlOpts(t *rapid.T, label string) RidlOpts {
	o := RidlOpts{}
	o.Lay = GenLay(t, label, 60)
	o.Mix = rapid.Bool().Draw(t, label+"-mix")
	o.CRLF = OneIn(t, label+"-crlf", 4)
	o.NoFinal = OneIn(t, label+"-nofinal", 3)
	if len(o.Lay) > 0 && OneIn(t, label+"-wide?", 12) {
		o.Wide = pick(t, label+"-wide", []int{9, 17, 33, 65, 130, 260, 600})
	}
	if OneIn(t, label+"-zeros", 4) {
		o.Zeros = num(t, label+"-nzeros", 1, 3)
	}
	return o
}

func GenJSONOpts(t *rapid.T, label string) JSONOpts {
	o := JSONOpts{}
	o.Lay = GenLay(t, label, 40)
	o.Shuffle = rapid.Bool().Draw(t, label+"-shuffle")
	o.Space = rapid.Bool().Draw(t, label+"-space")
	o.Escape = rapid.Bool().Draw(t, label+"-escape")
	o.Omit = rapid.Bool().Draw(t, label+"-omit")
	o.Extra = OneIn(t, label+"-extra", 6)
	return o
}

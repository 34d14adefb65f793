package genp

import (
	"fmt"
	"slices"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"

	m "verif/harness/model"
	"verif/harness/pbt"
)

// C30: functions on dictionaries, arrays and strings.

// tval is a value in a template.
type tval struct {
	K string `json:"k"` // s string, i int, b bool, t type, nil
	S string `json:"s,omitempty"`
	I int    `json:"i,omitempty"`
}

var typeTexts = []string{"int32", "[]string", "map<string,User>", "User", "Kind", "Time", "[]map<uint64,[]User>"}

const funcSchema = `webrpc = v1

name = funcs
version = v1

struct User
  - f0: int32
  - f1: []string
  - f2: map<string,User>
  - f3: User
  - f4: Kind
  - f5: Time
  - f6: []map<uint64,[]User>

enum Kind: uint32
  - A

type Time: timestamp
`

func (v tval) lit() string {
	switch v.K {
	case "s":
		return strconv.Quote(v.S)
	case "i":
		return fmt.Sprint(v.I)
	case "b":
		return fmt.Sprint(v.I != 0)
	case "t":
		return fmt.Sprintf("(index $ty %d)", v.I)
	}
	return "$.Opts.absent"
}

// text is what join and sort take it for.
func (v tval) text() (string, bool) {
	switch v.K {
	case "s":
		return v.S, true
	case "t":
		return typeTexts[v.I], true
	}
	return "", false
}

func (v tval) show() string {
	switch v.K {
	case "s":
		return "string:" + v.S
	case "i":
		return fmt.Sprintf("int:%d", v.I)
	case "b":
		return fmt.Sprintf("bool:%v", v.I != 0)
	case "t":
		return "*schema.VarType:" + typeTexts[v.I]
	}
	return "<nil>:<nil>"
}

func (v tval) empty() bool {
	return v.K == "nil" || v.K == "s" && v.S == "" || (v.K == "i" || v.K == "b") && v.I == 0
}

func lits(vs []tval) string {
	var b strings.Builder
	for _, v := range vs {
		b.WriteString(" " + v.lit())
	}
	return b.String()
}

type tcall struct {
	Op   string   `json:"op"`
	X    int      `json:"x,omitempty"` // variables
	Y    int      `json:"y,omitempty"`
	Args []tval   `json:"args,omitempty"`
	Want []string `json:"want,omitempty"` // words
}

type funcCase struct {
	Calls []tcall `json:"calls"`
}

const nDicts, nArrays = 3, 3

type funcState struct {
	dicts  [nDicts]*map[string]tval
	arrays [nArrays][]tval
}

func showDict(d map[string]tval) string {
	out := "["
	for _, k := range m.SortedKeys(d) {
		out += fmt.Sprintf("%q=%s ", k, d[k].show())
	}
	return out + "]"
}

func showArray(a []tval) string {
	out := "("
	for _, v := range a {
		out += v.show() + ";"
	}
	return out + ")"
}

const dumpTemplate = `{{define "dict"}}[{{range $k, $v := .}}{{printf "%q=%T:%v " $k $v $v}}{{end}}]{{end -}}
{{define "array"}}({{range .}}{{printf "%T:%v;" . .}}{{end}}){{end -}}
`

func (s *funcState) dump() string {
	var b strings.Builder
	for _, d := range s.dicts {
		b.WriteString(showDict(*d))
	}
	for _, a := range s.arrays {
		b.WriteString(showArray(a))
	}
	return b.String() + "\n"
}

func dumpAll() string {
	var b strings.Builder
	for i := 0; i < nDicts; i++ {
		fmt.Fprintf(&b, `{{template "dict" $d%d}}`, i)
	}
	for i := 0; i < nArrays; i++ {
		fmt.Fprintf(&b, `{{template "array" $a%d}}`, i)
	}
	return b.String()
}

func pr(expr string) string { return `{{$r := (` + expr + `)}}{{printf "%T:%v" $r $r}}` }

// apply gives the template text of a call, what it prints, and if it fails.
func (s *funcState) apply(c *tcall) (text, want string, fails bool) {
	d, a := s.dicts[c.X%nDicts], s.arrays[c.X%nArrays]
	dv, av := fmt.Sprintf("$d%d", c.X%nDicts), fmt.Sprintf("$a%d", c.X%nArrays)
	dy, ay := fmt.Sprintf("$d%d", c.Y%nDicts), fmt.Sprintf("$a%d", c.Y%nArrays)
	arg := func(i int) tval { return c.Args[i] }
	str := func(i int) string { return c.Args[i].S }
	bl := func(b bool) string { return fmt.Sprintf("bool:%v", b) }
	stringable := true
	for _, v := range a {
		_, ok := v.text()
		stringable = stringable && ok
	}
	key := func() string {
		k, _ := arg(0).text()
		return k
	}
	switch c.Op {
	// dictionaries
	case "set":
		(*d)[key()] = arg(1)
		return fmt.Sprintf("{{set %s %s %s}}", dv, strconv.Quote(key()), arg(1).lit()), "", false
	case "get":
		v, ok := (*d)[key()]
		return pr(fmt.Sprintf("get %s %s", dv, arg(0).lit())), v.show(), !ok
	case "exists":
		_, ok := (*d)[key()]
		return pr(fmt.Sprintf("exists %s %s", dv, strconv.Quote(key()))), bl(ok), false
	case "dict":
		n := map[string]tval{}
		for i := 0; i+1 < len(c.Args); i += 2 {
			n[c.Args[i].S] = c.Args[i+1]
		}
		s.dicts[c.X%nDicts] = &n
		return fmt.Sprintf("{{%s = dict%s}}", dv, lits(c.Args)), "", len(c.Args)%2 == 1
	case "dict-key": // keys that aren't strings
		return fmt.Sprintf("{{%s = dict %s 1}}", dv, arg(0).lit()), "", true
	case "dict-alias":
		s.dicts[c.X%nDicts] = s.dicts[c.Y%nDicts]
		return fmt.Sprintf("{{%s = %s}}", dv, dy), "", false
	case "dict-in-range":
		// set in a loop over an array
		for i, v := range s.arrays[c.Y%nArrays] {
			(*d)[fmt.Sprint(i)] = v
		}
		return fmt.Sprintf(`{{range $i, $v := %s}}{{set %s (print $i) $v}}{{end}}`, ay, dv), "", false

	// arrays
	case "array":
		s.arrays[c.X%nArrays] = slices.Clone(c.Args)
		return fmt.Sprintf("{{%s = array%s}}", av, lits(c.Args)), "", false
	case "append":
		s.arrays[c.X%nArrays] = append(slices.Clone(s.arrays[c.Y%nArrays]), c.Args...)
		return fmt.Sprintf("{{%s = append %s%s}}", av, ay, lits(c.Args)), "", false
	case "array-alias":
		s.arrays[c.X%nArrays] = s.arrays[c.Y%nArrays]
		return fmt.Sprintf("{{%s = %s}}", av, ay), "", false
	case "sort":
		src := slices.Clone(s.arrays[c.Y%nArrays])
		bad := false
		for _, v := range src {
			_, ok := v.text()
			bad = bad || !ok
		}
		sort.SliceStable(src, func(i, j int) bool {
			x, _ := src[i].text()
			y, _ := src[j].text()
			return x < y
		})
		if bad && len(src) < 2 {
			bad = false
		}
		s.arrays[c.X%nArrays] = src
		return fmt.Sprintf("{{%s = sort %s}}", av, ay), "", bad
	case "join":
		var ts []string
		for _, v := range a {
			t, _ := v.text()
			ts = append(ts, t)
		}
		return pr(fmt.Sprintf("join %s %s", av, strconv.Quote(str(0)))), "string:" + strings.Join(ts, str(0)), !stringable
	case "first", "last":
		if len(a) == 0 {
			return pr(c.Op + " " + av), "", true
		}
		v := a[0]
		if c.Op == "last" {
			v = a[len(a)-1]
		}
		return pr(c.Op + " " + av), v.show(), false
	case "lastIndex":
		return pr("lastIndex " + av), fmt.Sprintf("int:%d", len(a)-1), false
	case "each":
		want := ""
		for i, v := range a {
			want += v.show()
			if i < len(a)-1 {
				want += ", "
			}
		}
		return fmt.Sprintf(`{{range $i, $v := %s}}{{printf "%%T:%%v" $v $v}}{{if lt $i (lastIndex %s)}}, {{end}}{{end}}`, av, av), want, false
	case "collect": // an array built in a loop, elements twice
		src := s.arrays[c.Y%nArrays]
		var out []tval
		for _, v := range src {
			out = append(out, v, v)
		}
		s.arrays[c.X%nArrays] = out
		return fmt.Sprintf(`{{$n := array}}{{range %s}}{{$n = append $n . .}}{{end}}{{%s = $n}}`, ay, av), "", false
	case "split":
		parts := strings.Split(str(1), str(0))
		f := fmt.Sprintf("split %s %s", strconv.Quote(str(0)), strconv.Quote(str(1)))
		return fmt.Sprintf(`{{$s := %s}}{{len $s}}{{range $s}} {{printf "%%q" .}}{{end}} {{first $s}} {{last $s}} {{lastIndex $s}} {{join $s "+"}}`, f),
			fmt.Sprintf("%d %s %s %s %d %s", len(parts), quoted(parts), parts[0], parts[len(parts)-1], len(parts)-1, strings.Join(parts, "+")), false

	// choice
	case "in":
		hit := false
		for _, v := range c.Args[1:] {
			hit = hit || v == arg(0)
		}
		return pr("in" + lits(c.Args)), bl(hit), false
	case "default":
		v := arg(0)
		if v.empty() {
			v = arg(1)
		}
		return pr("default" + lits(c.Args)), v.show(), false
	case "coalesce":
		v := tval{K: "s"}
		for _, x := range c.Args {
			if !x.empty() {
				v = x
				break
			}
		}
		return pr("coalesce" + lits(c.Args)), v.show(), false
	case "ternary":
		ok, bad := false, false
		switch {
		case arg(0).K == "b":
			ok = arg(0).I != 0
		case arg(0).K == "s" && (arg(0).S == "true" || arg(0).S == "false"):
			ok = arg(0).S == "true"
		default:
			bad = true
		}
		v := arg(2)
		if ok {
			v = arg(1)
		}
		return pr("ternary" + lits(c.Args)), v.show(), bad
	case "hasField":
		var ok bool
		switch arg(0).K {
		case "t":
			ok = slices.Contains([]string{"Expr", "Type", "List", "Map", "Struct", "Enum", "Alias"}, str(1))
		}
		return pr("hasField" + lits(c.Args)), bl(ok), false
	case "hasField-type":
		ok := slices.Contains([]string{"Kind", "Name", "Type", "Fields", "TypeExtra", "Comments"}, str(0))
		return pr(fmt.Sprintf("hasField (index $.Types %d) %s", c.X, lits(c.Args))), bl(ok), false
	case "no-array": // of something that is none
		ops := []string{"first %s", "last %s", "lastIndex %s", "sort %s", "append %s 1", `join %s ","`}
		return pr(fmt.Sprintf(ops[c.X+3*(c.Y%2)], arg(0).lit())), "", true
	case "go-values": // sequences of the caller
		v := [][2]string{{"lastIndex $.Opts.A0", "int:-1"}, {"lastIndex $.Opts.A3", "int:2"}, {"lastIndex $.Opts.I2", "int:1"}, {"lastIndex $.Opts.S2", "int:1"}, {"lastIndex $.Opts.S0", "int:-1"},
			{"first $.Opts.S2", "string:x"}, {"last $.Opts.S2", "string:y"}, {`join $.Opts.S2 "+"`, "string:x+y"}, {`join $.Opts.S0 "+"`, "string:"}, {"lastIndex $.Types", "int:2"}, {"first $.Opts.S0", ""}, {"last $.Opts.S0", ""}, {`lastIndex (index $.Opts.S2 0)`, ""}}[c.X]
		return pr(v[0]), v[1], v[1] == ""
	case "no-parts":
		return pr([]string{"first", "last"}[c.X%2] + ` (split "" "")`), "", true
	case "dump":
		v := arg(0)
		w := "(interface {}) <nil>"
		switch v.K {
		case "s":
			w = fmt.Sprintf("(string) (len=%d) %q", len(v.S), v.S)
			if v.S == "" {
				w = `(string) ""`
			}
		case "i":
			w = fmt.Sprintf("(int) %d", v.I)
		case "b":
			w = fmt.Sprintf("(bool) %v", v.I != 0)
		}
		return pr("dump" + lits(c.Args)), "string:" + w + "\n", false
	case "isString":
		return pr("isString" + lits(c.Args)), bl(arg(0).K == "s"), false

	// strings
	case "hasPrefix":
		return pr("hasPrefix" + lits(c.Args)), bl(len(str(0)) >= len(str(1)) && str(0)[:len(str(1))] == str(1)), false
	case "hasSuffix":
		return pr("hasSuffix" + lits(c.Args)), bl(len(str(0)) >= len(str(1)) && str(0)[len(str(0))-len(str(1)):] == str(1)), false
	case "trimPrefix":
		w := str(0)
		if len(w) >= len(str(1)) && w[:len(str(1))] == str(1) {
			w = w[len(str(1)):]
		}
		return pr("trimPrefix" + lits(c.Args)), "string:" + w, false
	case "trimSuffix":
		w := str(0)
		if len(w) >= len(str(1)) && w[len(w)-len(str(1)):] == str(1) {
			w = w[:len(w)-len(str(1))]
		}
		return pr("trimSuffix" + lits(c.Args)), "string:" + w, false
	case "replaceAll":
		return pr("replaceAll" + lits(c.Args)), "string:" + strings.Join(strings.Split(str(0), str(1)), str(2)), false
	case "toLower":
		return pr("toLower" + lits(c.Args)), "string:" + strings.ToLower(str(0)), arg(0).K != "s"
	case "toUpper":
		return pr("toUpper" + lits(c.Args)), "string:" + strings.ToUpper(str(0)), arg(0).K != "s"
	case "firstLetterToLower", "firstLetterToUpper":
		w := str(0)
		if r, n := utf8.DecodeRuneInString(w); n > 0 {
			if c.Op == "firstLetterToLower" {
				w = strings.ToLower(string(r)) + w[n:]
			} else {
				w = strings.ToUpper(string(r)) + w[n:]
			}
		}
		return pr(c.Op + lits(c.Args)), "string:" + w, arg(0).K != "s"
	case "firstWordToLower":
		return pr(c.Op + lits(c.Args)), "string:" + firstWordLower(str(0)), arg(0).K != "s"
	case "camelCase", "pascalCase", "snakeCase", "kebabCase":
		return pr(c.Op + lits(c.Args)), "string:" + spellWords(c.Want, strings.TrimSuffix(c.Op, "Case")), false
	}
	panic(pbt.Harness(fmt.Errorf("op %q", c.Op)))
}

func quoted(xs []string) string {
	var out []string
	for _, x := range xs {
		out = append(out, fmt.Sprintf("%q", x))
	}
	return strings.Join(out, " ")
}

// firstWordLower is how a leading word or acronym of ASCII letters is lowered.
func firstWordLower(s string) string {
	up := func(i int) bool { return i < len(s) && s[i] >= 'A' && s[i] <= 'Z' }
	lo := func(i int) bool { return i < len(s) && s[i] >= 'a' && s[i] <= 'z' }
	n := 0
	for up(n) {
		n++
	}
	if n > 1 && lo(n) && lo(n+1) {
		n-- // the last one begins the next word
	}
	return strings.ToLower(s[:n]) + s[n:]
}

func spellWords(words []string, style string) string {
	title := func(w string) string { return strings.ToUpper(w[:1]) + w[1:] }
	out := ""
	for i, w := range words {
		switch style {
		case "camel":
			if i > 0 {
				w = title(w)
			}
		case "pascal":
			w = title(w)
		case "snake":
			if i > 0 {
				w = "_" + w
			}
		case "kebab":
			if i > 0 {
				w = "-" + w
			}
		case "blank":
			if i > 0 {
				w = " " + w
			}
		}
		out += w
	}
	return out
}

func (c *funcCase) check(o *pbt.Obs) error {
	s, err := parseRIDL(funcSchema)
	if err != nil {
		return fmt.Errorf("a valid schema is rejected: %v", err)
	}
	st := &funcState{}
	for i := range st.dicts {
		st.dicts[i] = &map[string]tval{}
	}
	var text, want strings.Builder
	text.WriteString(dumpTemplate + `{{define "main"}}{{$ty := array}}{{range (index .Types 1).Fields}}{{$ty = append $ty .Type}}{{end -}}`)
	for i := 0; i < nDicts; i++ {
		fmt.Fprintf(&text, "{{$d%d := dict}}", i)
	}
	for i := 0; i < nArrays; i++ {
		fmt.Fprintf(&text, "{{$a%d := array}}", i)
	}
	text.WriteString("\n")
	want.WriteString("\n")
	ends := ""
	used := map[string]bool{}
	for i := range c.Calls {
		t, w, bad := st.apply(&c.Calls[i])
		text.WriteString(t)
		used[c.Calls[i].Op] = true
		o.Class(c.Calls[i].Op)
		if bad {
			ends = t
			break
		}
		text.WriteString(" | " + dumpAll() + "\n")
		want.WriteString(w + " | " + st.dump())
	}
	text.WriteString("{{end}}")
	o.Evals(len(c.Calls))
	o.NonTrivial(len(used) > 3)
	o.ClassIf(ends != "", "ends with an error")
	if typ := s.Types; len(typ) != 3 || typ[1].Kind != "enum" && len(typ[1].Fields) == 0 {
		return pbt.Harness(fmt.Errorf("types of the schema"))
	}
	src := text.String()
	for i, ty := range s.Types {
		if ty.Kind == "struct" {
			src = strings.Replace(src, "(index .Types 1)", fmt.Sprintf("(index .Types %d)", i), 1)
		}
	}
	got, err := render(s, src, map[string]any{"A0": [0]int{}, "A3": [3]string{"a", "b", "c"}, "I2": []int{4, 5}, "S2": []string{"x", "y"}, "S0": []string{}})
	if ends != "" {
		if err == nil {
			return fmt.Errorf("no error for %s\n--- template ---\n%s\n--- output ---\n%s", ends, excerpt(src), excerpt(got))
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("fails: %v\n--- template ---\n%s", err, excerpt(src))
	}
	if d := diffLines(want.String(), got); d != "" {
		return fmt.Errorf("%s\n--- template ---\n%s", d, excerpt(src))
	}
	return nil
}

var tStrings = []string{"", "a", "b", "c", "ab", "zz", "true", "false", "B", "é", "a b", "0", "1", "10", "9", "01", "-1", "1.5", "A", "aB", "Ab", "x\ny", "{{", "\"", "%d", " ", "\t\n", " a", "a ", "nil", "null"}
var tKeys = []string{"", "a", "b", "A", "a.b", "é", "k 1", "int32", "[]string", "User", "0", "1"}
var tNames = []string{"", "a", "A", "ID", "IDs", "userID", "UserID", "UserId", "HTTPServer", "HTTP", "HTTPs", "APIv2", "URLPath", "É", "Élan", "ÉLan", "élan", "ǅa", "ßa", "_Foo", "1Foo", "A1b", "AB1c", "ABc", "ABcd", "Ab", "ID2Name", "XMLHTTPRequest", "日本", "aÉ", "İx", "userName", "User_Name", "A-B", "foo bar", "Foo Bar", "ȺȺ", "iOS", "IOS", "ÀB"}

func genVal(t *rapid.T, kinds ...string) tval {
	v := tval{K: m.Pick(t, "kind", kinds)}
	switch v.K {
	case "s":
		v.S = m.Pick(t, "str", tStrings)
	case "i":
		v.I = m.Num(t, "int", -1, 3)
	case "b":
		v.I = m.Num(t, "bool", 0, 1)
	case "t":
		v.I = m.Num(t, "type", 0, len(typeTexts)-1)
	}
	return v
}

func genCalls(t *rapid.T) any {
	c := &funcCase{}
	groups := [][]string{
		{"set", "set", "get", "exists", "dict", "dict-alias", "dict-in-range"},
		{"array", "append", "append", "append", "array-alias", "sort", "join", "first", "last", "lastIndex", "each", "collect", "no-array", "no-parts", "go-values"},
		{"in", "default", "coalesce", "ternary", "isString", "dump", "split", "hasField", "hasField-type"},
		{"hasPrefix", "hasSuffix", "trimPrefix", "trimSuffix", "replaceAll", "toLower", "toUpper", "firstLetterToLower", "firstLetterToUpper", "firstWordToLower", "firstWordToLower", "camelCase", "pascalCase", "snakeCase", "kebabCase"},
	}
	s := func(x string) tval { return tval{K: "s", S: x} }
	any4 := []string{"s", "s", "i", "b", "t"}
	anyNil := append(any4, "nil")
	gk := func() tval {
		if m.OneIn(t, "type-key", 4) {
			return genVal(t, "t")
		}
		return s(m.Pick(t, "key", tKeys))
	}
	one := func() tcall {
		call := tcall{Op: m.Pick(t, "op", m.Pick(t, "group", groups)), X: m.Num(t, "x", 0, 2), Y: m.Num(t, "y", 0, 2)}
		vals := func(lo, hi int, kinds ...string) {
			if hi > 2 && m.OneIn(t, "many", 24) {
				lo, hi = 30, 70
			}
			for k := m.Num(t, "n", lo, hi); k > 0; k-- {
				call.Args = append(call.Args, genVal(t, kinds...))
			}
		}
		switch call.Op {
		case "go-values":
			call.X = m.Num(t, "which", 0, 9)
			if m.OneIn(t, "bad-value", 10) {
				call.X = m.Num(t, "which-bad", 10, 12)
			}
		case "set":
			call.Args = []tval{gk(), genVal(t, anyNil...)}
		case "get", "exists":
			call.Args = []tval{gk()}
		case "dict":
			for k := m.Num(t, "pairs", 0, 3); k > 0; k-- {
				call.Args = append(call.Args, s(m.Pick(t, "key", tKeys)), genVal(t, anyNil...))
			}
			if m.OneIn(t, "many-pairs", 24) {
				for k := m.Num(t, "pairs-more", 9, 70); k > 0; k-- {
					call.Args = append(call.Args, s(fmt.Sprintf("k%d", k)), genVal(t, anyNil...))
				}
			}
			if m.OneIn(t, "odd", 40) {
				call.Args = append(call.Args, s("a"))
			}
			if m.OneIn(t, "bad-key", 40) {
				call.Op, call.Args = "dict-key", []tval{genVal(t, "i", "b", "t")}
			}
		case "array", "append":
			if m.OneIn(t, "mixed", 6) {
				vals(0, 3, any4...)
			} else {
				vals(0, 3, "s", "s", "t")
			}
		case "join":
			call.Args = []tval{s(m.Pick(t, "sep", []string{"", ",", ", ", "\n", "é"}))}
		case "split":
			call.Args = []tval{s(m.Pick(t, "sep", []string{",", ", ", "", "é", "ab"})), s(m.Pick(t, "parts", []string{"", "a", "a,b", ",a,,b,", "a, b, c", "aébéc", "abab", "xaby"}))}
			if m.OneIn(t, "many-parts", 12) {
				call.Args[1].S = strings.Repeat(call.Args[1].S, m.Num(t, "repeat-parts", 2, 60))
			}
			if call.Args[0].S == "" && call.Args[1].S == "" {
				call.Args[1].S = "x" // nothing has no parts
			}
		case "in":
			call.Args = []tval{genVal(t, "s", "i", "b", "nil")}
			vals(0, 4, "s", "i", "b", "nil")
			if len(call.Args) > 1 && rapid.Bool().Draw(t, "repeat") {
				call.Args[m.Num(t, "at", 1, len(call.Args)-1)] = call.Args[0]
			}
		case "default":
			call.Args = []tval{genVal(t, "s", "i", "b", "nil", "t"), genVal(t, any4...)}
		case "coalesce":
			vals(0, 4, "s", "i", "b", "nil", "nil", "t")
			for i := range call.Args {
				if rapid.Bool().Draw(t, "empty") {
					call.Args[i].S = ""
					if call.Args[i].K != "t" {
						call.Args[i].I = 0
					}
				}
			}
		case "ternary":
			k := []string{"b"}
			if m.OneIn(t, "odd-bool", 6) {
				k = []string{"s", "i"}
			}
			call.Args = []tval{genVal(t, k...), genVal(t, any4...), genVal(t, any4...)}
			if rapid.Bool().Draw(t, "string-bool") {
				call.Args[0] = s(m.Pick(t, "tf", []string{"true", "false", "true", "false", "true", "false", "true", "false", "TRUE", "True", "False", "yes", "1", "", "true "}))
			}
		case "hasField":
			call.Args = []tval{genVal(t, "s", "i", "b", "t", "t", "t", "nil"), s(m.Pick(t, "field", []string{"Expr", "Type", "List", "Map", "Struct", "Enum", "Alias", "Nope", "expr", "", "String", "Name"}))}
		case "hasField-type":
			call.Args = []tval{s(m.Pick(t, "field", []string{"Kind", "Name", "Type", "Fields", "Comments", "Nope", "name", "", "kind"}))}
		case "no-array":
			call.Args = []tval{genVal(t, "i", "b", "t", "s")}
		case "dump":
			call.Args = []tval{genVal(t, "s", "i", "b", "nil")}
		case "isString":
			call.Args = []tval{genVal(t, "s", "i", "b", "t", "nil")}
		case "hasPrefix", "hasSuffix", "trimPrefix", "trimSuffix":
			p := m.Pick(t, "fix", []string{"", "a", "ab", "é", "aa", "x", "ba"})
			x := m.Pick(t, "rest", []string{"", "a", "ab", "aaa", "xyz", "é", "ba"})
			if strings.HasSuffix(call.Op, "Prefix") {
				x = p + x
			} else {
				x += p
			}
			if m.OneIn(t, "other-fix", 3) {
				p = m.Pick(t, "fix2", []string{"A", "ab", "xyzz", "é", "a"})
			}
			call.Args = []tval{s(x), s(p)}
		case "replaceAll":
			call.Args = []tval{s(m.Pick(t, "in", []string{"", "aaa", "abab", "a.b.c", "ééa", "xx"})), s(m.Pick(t, "old", []string{"a", "ab", ".", "é", "aa"})), s(m.Pick(t, "new", []string{"", "a", "b", "aa", "."}))}
		case "toLower", "toUpper", "firstLetterToLower", "firstLetterToUpper", "firstWordToLower":
			call.Args = []tval{s(m.Pick(t, "name", tNames))}
			if rapid.Bool().Draw(t, "built") {
				call.Args[0].S = rapid.StringOfN(rapid.SampledFrom([]rune("ABZabzm190_-@[`{/:É é")), 0, 7, -1).Draw(t, "built-name")
			}
			if m.OneIn(t, "two-words", 3) { // as AAbb1AAbb1
				w := ""
				for k := m.Num(t, "parts", 1, 2); k > 0; k-- {
					for _, part := range []string{"AZM", "azm", "091"} {
						w += rapid.StringOfN(rapid.SampledFrom([]rune(part)), 0, 3, -1).Draw(t, "part")
					}
				}
				call.Args[0].S = w
			}
			if m.OneIn(t, "no-string", 60) {
				call.Args = []tval{genVal(t, "i", "b", "t")}
			}
		case "camelCase", "pascalCase", "snakeCase", "kebabCase":
			words := m.Num(t, "words", 1, 4)
			if m.OneIn(t, "many-words", 12) {
				words = m.Num(t, "words-more", 5, 40)
			}
			for ; words > 0; words-- {
				call.Want = append(call.Want, m.Pick(t, "word", []string{"user", "name", "list", "of", "items", "get", "ab"}))
			}
			call.Args = []tval{s(spellWords(call.Want, m.Pick(t, "style", []string{"camel", "pascal", "snake", "kebab", "blank"})))}
		}
		return call
	}
	st := &funcState{}
	for i := range st.dicts {
		st.dicts[i] = &map[string]tval{}
	}
	n := m.Num(t, "calls", 1, 25)
	for i := 0; i < n; i++ {
		call := one()
		// errors end a history: seldom before its end
		probe := *st
		for j, d := range st.dicts {
			cp := map[string]tval{}
			for k, v := range *d {
				cp[k] = v
			}
			probe.dicts[j] = &cp
		}
		if _, _, bad := probe.apply(&call); bad && i+1 < n && m.Num(t, "keep-error", 0, 9) > 0 {
			continue
		}
		if len(st.arrays[call.Y]) > 40 && call.Op == "collect" {
			continue
		}
		if _, _, bad := st.apply(&call); bad {
			c.Calls = append(c.Calls, call)
			break
		}
		c.Calls = append(c.Calls, call)
	}
	if len(c.Calls) == 0 {
		c.Calls = append(c.Calls, tcall{Op: "lastIndex"})
	}
	return c
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:   "C30",
		Rule: "a random history of up to 25 calls on three dictionary and three array variables (with aliases, loops, values of several types) and of choice and string functions, run as one template that prints every result and all variables after every call, against a model; calls that have to fail come last; non-trivial: at least four different functions",
		New:  func() any { return &funcCase{} },
		Gen:  genCalls,
		Check: func(v any, o *pbt.Obs) error {
			return v.(*funcCase).check(o)
		},
		Quick: 2000, Deep: 100000,
	})
}

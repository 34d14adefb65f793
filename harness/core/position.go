package core

import (
	"fmt"
	"path"
	"regexp"
	"strconv"
	"strings"

	"pgregory.net/rapid"

	m "verif/harness/model"
	"verif/harness/pbt"
)

// badLine is a line that is no RIDL in its block.
type badLine struct {
	open  string   // what opens the block, before the line
	lines []string // malformed lines
}

var badLines = []badLine{
	{"", []string{
		"foo", "foo = bar", "Struct X", "struct", "struct = X", "struct # X", "enum E", "enum E uint8", "enum E:", "enum: uint8", "enum E: \"uint8\"", "enum E: uint8 x", "enum E : uint8",
		"type T", "type T string", "type T:", "type : string", "type T: []", "type T: map", "type T: map<string", "type T: map string,int>", "type T: =",
		"error", "error 1", "error 1 Err", "error 1 Err # m", "error x Err \"m\"", "error 1x Err \"m\"", "error 1 Err \"m\" HTTP", "error 1 Err \"m\" HTTP x", "error 1 Err \"m\" HTTP 4x4", "error 1 Err \"m\" HTP 400", "error 1 Err \"m\" 400", "error 1 Err \"m\" HTTP 400 x", "error 1 Err \"m", "error 1 Err \"m\\q\"", "error 1 Err \"m\\\"", "error \"1\" Err m",
		"name x", "name", "name =", "name = # x", "name = \"x", "name = \"", "name = \"a\\qb\"", "name = x y", "name = \"x\" y", "version: 1", "basepath = =", "webrpc == v1",
		"service", "service # S", "service \"S", "service S x", "service = S", "import \"x", "import =", "message X", "]", "=", "= x", "\"x\"", "? x", "-> x", ")", "<", ",", "$", "{", "}", "|", "!", ".", "/", "~x", "¿x", "=> x",
	}},
	{"enum Zz: uint8\n  - AA\n  - BB = 3\n", []string{"  -", "  - = 1", "  - A =", "  - A = # x", "  - A = \"x", "  - A = \"\\x\"", "  - \"A\"", "  - A B", "  - A: x", "  A = 1", "  - A = 1 2", "  - A = \"1\" 2", "  + a = b", "  @x", "  - A == 1"}},
	{"struct Zz\n  - aa: string\n    + json = b\n  - cc?: []string\n", []string{"  -", "  - a", "  - a:", "  - a: # string", "  - a string", "  - a = string", "  - : string", "  - a? string", "  - a?? : string", "  - \"a\": string", "  - a: \"string\"", "  - a: []", "  - a: map", "  - a: map<", "  - a: map<string", "  - a: map<string,", "  - a: map string,int>", "  - a: (string)", "  a: string", "  - a: string int", "    + x", "    + x =", "    + = y", "    + x y", "    + x = \"y", "    + x = \"\\y\"", "    + \"x\" = y", "    +", "    + x: y", "  @x", "  - a: string = 1"}},
	{"service Zz\n  @aa:bb\n  - Ma(aa: string) => (bb?: []int)\n  - Mb()\n", []string{"  -", "  - M", "  - M(", "  - M(a", "  - M(a:", "  - M(a: string", "  - M(a string)", "  - M() =>", "  - M() => (", "  - M() => b: string", "  - M() => (b", "  - M() => (b:)", "  - M() => stream", "  - M() => streem (b: int)", "  - M() => stream foo (b: int)", "  - M() => stream => (b: int)", "  - M() => foo", "  - M() foo Bar", "  - M foo (a: int)", "  - M foo(a: int)", "  - stream M foo(a: int)", "  - M() errors", "  - M() errors # E", "  - stream", "  - stream M", "  - proxy", "  - proxy # x", "  - \"M\"()", "  - M)", "  - M[]", "  - M:()", "  M()", "  @", "  @ x", "  @:x", "  @x:\"y", "  @x:\"\\y\"", "  @\"x\"", "  + a = b", "  - M() -> (b: int)", "  - M(\"a\": int)", "  - M(a: \"int\")"}},
	{"import\n  - ok.ridl\n", []string{"  -", "  - # x", "  - =", "  - \"x", "  + x", "  @x"}},
	{"import ok.ridl\n  - Ok\n", []string{"  -", "  - # x", "  - =", "  - \"x", "  + x", "  @x", "  Ok"}},
}

type lineCase struct {
	Before  *m.Schema   `json:"before"`
	Opts    m.RidlOpts  `json:"opts"`
	Block   int         `json:"block"`
	Line    int         `json:"line"`
	Blank   int         `json:"blank"`
	Fill    int         `json:"fill,omitempty"` // what is in the blank lines
	Tail    string      `json:"tail"`
	NoFinal bool        `json:"noFinal,omitempty"` // the malformed line is the last one, without newline
	Paths   []string    `json:"paths,omitempty"`   // chain of files, the last one fails
	Extra   [][]impLine `json:"extra,omitempty"`   // other imports of the files of the chain, before the one in the chain
	Good    []string    `json:"good,omitempty"`    // files without errors
	Text    *textCase   `json:"any,omitempty"`     // any text, followed by a malformed line if it is accepted
}

func (c *lineCase) text() (string, int) {
	src := ""
	if c.Before != nil {
		src = c.Before.RIDL(c.Opts)
		if !strings.HasSuffix(src, "\n") {
			src += "\n"
		}
	}
	nl := "\n"
	if c.Opts.CRLF {
		nl = "\r\n"
	}
	if c.Before == nil {
		src = strings.ReplaceAll("webrpc = v1\nname = t\nversion = v1\n", "\n", nl)
	}
	src += strings.Repeat([]string{"", "# a comment", " \t", "#"}[c.Fill]+nl, c.Blank)
	b := badLines[c.Block]
	src += strings.ReplaceAll(b.open, "\n", nl)
	line := strings.Count(src, "\n") + 1
	src += b.lines[c.Line]
	if !c.NoFinal {
		src += nl + strings.ReplaceAll(c.Tail, "\n", nl)
	}
	return src, line
}

// checkText: what is accepted is read to its end.
func (c *lineCase) checkText(o *pbt.Obs) error {
	o.Sig(fmt.Sprint(c.Text.sig(), c.Line))
	s, err := c.Text.parse()
	if err != nil || c.Text.JSON != nil {
		o.Class("any text, rejected")
		return nil
	}
	o.NonTrivial(true)
	o.Class("any text, accepted")
	t := &textCase{Files: map[string][]byte{}}
	for k, b := range c.Text.Files {
		t.Files[k] = b
	}
	bad := badLines[0].lines[c.Line]
	main := string(t.Files["main.ridl"]) + "\n"
	t.Files["main.ridl"] = []byte(main + bad + "\n")
	o.Sample(t.show())
	_, err = t.parse()
	if err == nil {
		return fmt.Errorf("the last line is malformed, but the text is accepted like without it: %s\n%s", jsonOf(s), t.show())
	}
	if strings.Contains(strings.ReplaceAll(main, "\r\n", ""), "\r") {
		return nil
	}
	mt := posRe.FindStringSubmatch(err.Error())
	if mt == nil {
		return fmt.Errorf("the error has no line number: %v\n%s", err, t.show())
	}
	if n, _ := strconv.Atoi(mt[1]); n != strings.Count(main, "\n")+1 {
		return fmt.Errorf("the error is in line %d, but the message says: %v\n%s", strings.Count(main, "\n")+1, err, t.show())
	}
	return nil
}

var posRe = regexp.MustCompile(`^(\d+):(\d+): error near `)

func init() {
	pbt.Register(&pbt.Prop{
		ID: "C23",
		Rule: fmt.Sprintf("a random valid RIDL text in random layout, then one of %d malformed lines within a block of its kind, then further text; and random mutated texts that are accepted, followed by a malformed line; in the root file or at the end of a chain of up to 40 imports with other imports around; each malformed line also alone, and as last line without newline; non-trivial: something precedes the line",
			func() (n int) {
				for _, b := range badLines {
					n += len(b.lines)
				}
				return
			}()),
		New: func() any { return &lineCase{} },
		Enumerate: func(deep bool, yield func(any) bool) {
			for b := range badLines {
				for l := range badLines[b].lines {
					for k := 0; k < 6; k++ {
						c := &lineCase{Block: b, Line: l, Blank: k % 3, NoFinal: k >= 3}
						c.Opts.CRLF = k%2 == 1
						if k == 1 {
							c.Tail = "struct Yy\n  - a: string\n"
						}
						if k == 2 {
							c.Tail = "\n\n# c\n"
						}
						if l == 0 && k == 4 {
							c.Blank, c.Fill = 70000, b%2
						}
						if !yield(c) {
							return
						}
					}
				}
			}
		},
		Gen: func(t *rapid.T) any {
			cfg := m.Default()
			cfg.Depth = 1
			cfg.MaxStruct, cfg.MaxSvc, cfg.MaxEnum, cfg.MaxAlias = 2, 2, 2, 2
			if m.OneIn(t, "any-text", 4) {
				return &lineCase{Text: genRidlText(t, 3), Line: m.Num(t, "line", 0, len(badLines[0].lines)-1)}
			}
			c := &lineCase{Before: m.Gen(t, cfg), Opts: m.GenRidlOpts(t, "lay")}
			c.Opts.Docs = true
			c.Opts.Noise = rapid.Bool().Draw(t, "noise")
			c.Block = m.Num(t, "block", 0, len(badLines)-1)
			c.Line = m.Num(t, "line", 0, len(badLines[c.Block].lines)-1)
			c.Blank = m.Num(t, "blank", 0, 2)
			if m.OneIn(t, "many-lines", 12) {
				// around the limits of numbers
				c.Blank = m.Num(t, "lines", -20, 20) + m.Pick(t, "about", []int{100, 128, 256, 1000, 1024, 4096})
				c.Fill = m.Num(t, "fill", 0, 3)
			}
			c.Tail = m.Pick(t, "tail", []string{"", "\n", "# x\n", "struct Yy\n  - a: string\n", "\n\nservice Yy\n  - M()\n", "  - a: string\n", "name = \"q\"\n"})
			c.NoFinal = m.OneIn(t, "no-final", 5)
			if rapid.Bool().Draw(t, "imported") {
				n := m.Num(t, "chain", 2, 5)
				if m.OneIn(t, "chain-long", 16) {
					n = m.Num(t, "chain-more", 6, 40)
				}
				all := genPaths(t, n+2)
				c.Paths, c.Good = all[:n], all[n:]
				for i := 0; i+1 < n; i++ {
					var ls []impLine
					for g := range c.Good {
						if rapid.Bool().Draw(t, "good") {
							ls = append(ls, impLine{To: g, Path: spell(t, c.Paths[i], c.Good[g], impDirs)})
						}
					}
					ls = append(ls, impLine{To: -1, Path: spell(t, c.Paths[i], c.Paths[i+1], impDirs)})
					// after the failing one
					if i+2 < n && rapid.Bool().Draw(t, "shortcut") {
						ls = append(ls, impLine{To: -2, Path: spell(t, c.Paths[i], c.Paths[i+2], impDirs)})
					}
					c.Extra = append(c.Extra, ls)
				}
			}
			return c
		},
		Quick: 8000, Deep: 150000,
		Check: func(v any, o *pbt.Obs) error {
			c := v.(*lineCase)
			if c.Text != nil {
				return c.checkText(o)
			}
			src, line := c.text()
			ok := "webrpc = v1\nname = ok\nversion = v1\nstruct Ok\n"
			files := map[string]string{"main.ridl": src, "ok.ridl": ok}
			root := "main.ridl"
			if len(c.Paths) > 0 {
				files = map[string]string{}
				root = c.Paths[0]
				last := c.Paths[len(c.Paths)-1]
				for g, p := range c.Good {
					files[p] = fmt.Sprintf("webrpc = v1\nname = g\nversion = v1\nstruct Good%d\n", g)
				}
				for i, ls := range c.Extra {
					var b strings.Builder
					b.WriteString("webrpc = v1\nname = f\nversion = v1\n")
					for _, l := range ls {
						fmt.Fprintf(&b, "import %s\n", l.Path)
					}
					fmt.Fprintf(&b, "struct F%d\n", i)
					files[c.Paths[i]] = b.String()
				}
				files[path.Join(path.Dir(last), "ok.ridl")] = ok
				files[last] = src
			}
			o.Sig(showStrings(files))
			o.Sample(excerpt(showStrings(files)))
			o.NonTrivial(line > 1)
			o.ClassIf(line > 4096, "more than 4096 lines")
			o.ClassIf(len(c.Paths) > 0, "imported")
			o.ClassIf(len(c.Paths) == 0, "root file")
			o.ClassIf(c.NoFinal, "last line without newline")
			o.Class("block " + strings.SplitN(badLines[c.Block].open+" ", " ", 2)[0])
			_, err := parseFiles(files, root)
			if err == nil {
				return fmt.Errorf("line %d is accepted: %q\n%s", line, badLines[c.Block].lines[c.Line], excerpt(showStrings(files)))
			}
			msg := err.Error()
			for i := 0; i < 2; i++ {
				if _, err := parseFiles(files, root); err == nil || err.Error() != msg {
					return fmt.Errorf("another error for the same text:\n%s\n---\n%v\n%s", msg, err, excerpt(showStrings(files)))
				}
			}
			mt := posRe.FindStringSubmatch(msg)
			if mt == nil {
				return fmt.Errorf("the error has no line number: %s\n%s", msg, excerpt(showStrings(files)))
			}
			if n, _ := strconv.Atoi(mt[1]); n != line {
				return fmt.Errorf("the error is in line %d, %q, but the message says: %s\n%s", line, badLines[c.Block].lines[c.Line], msg, excerpt(showStrings(files)))
			}
			if len(c.Paths) > 0 {
				var want []string
				for i := len(c.Paths) - 1; i >= 0; i-- {
					want = append(want, "/virtual/"+c.Paths[i])
				}
				// the files named after the error, in order
				at := 0
				rest := msg
				for _, w := range want {
					k := strings.Index(rest, w+"\n")
					if k < 0 && strings.HasSuffix(rest, w) {
						k = len(rest) - len(w)
					}
					if k < 0 {
						return fmt.Errorf("the message doesn't list the files %q in order: %s\n%s", want, msg, excerpt(showStrings(files)))
					}
					rest = rest[k+len(w):]
					at++
				}
				if n := strings.Count(msg, "/virtual/"); n != len(want) {
					return fmt.Errorf("the message lists %d files, expected %q: %s\n%s", n, want, msg, excerpt(showStrings(files)))
				}
			}
			return nil
		},
	})
}

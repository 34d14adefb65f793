package core

import (
	"encoding/json"
	"fmt"
	"net/url"
	"strings"
	"unicode/utf8"

	"github.com/webrpc/webrpc/schema"
	"pgregory.net/rapid"

	m "verif/harness/model"
	"verif/harness/pbt"
)

type baseCase struct {
	Path string `json:"path"`
	Svc  bool   `json:"svc,omitempty"`
}

const pathChars = "abcXYZ019-._~!$&'()*+,;=:@/"

// plainPath: made of what a URL path may hold, so that it has to be accepted.
func plainPath(p string) bool {
	for i := 0; i < len(p); i++ {
		if p[i] == '%' {
			if i+2 >= len(p) || !strings.ContainsRune("0123456789abcdefABCDEF", rune(p[i+1])) || !strings.ContainsRune("0123456789abcdefABCDEF", rune(p[i+2])) {
				return false
			}
			i += 2
			continue
		}
		c := p[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.ContainsRune("-._~!$&'()*+,;=:@/", rune(c))) {
			return false
		}
	}
	return !strings.HasPrefix(p, "//")
}

func ridlQuote(s string) string {
	return `"` + strings.NewReplacer(`"`, `\"`, "\n", `\n`, "\t", `\t`).Replace(s) + `"`
}

// place is a place in RIDL where a value can be quoted.
type place struct {
	name string
	text func(q string) string // q is the quoted value
	get  func(s *schema.WebRPCSchema) string
}

var quotePlaces = []place{
	{"name", func(q string) string { return "webrpc = v1\nname = " + q + "\nversion = v1\n" }, func(s *schema.WebRPCSchema) string { return s.SchemaName }},
	{"version", func(q string) string { return "webrpc = v1\nname = x\nversion = " + q + "\n" }, func(s *schema.WebRPCSchema) string { return s.SchemaVersion }},
	{"error message", func(q string) string { return "webrpc = v1\nname = x\nversion = v1\n\nerror 1 Err " + q + "\n" }, func(s *schema.WebRPCSchema) string { return s.Errors[0].Message }},
	{"error message before a status", func(q string) string {
		return "webrpc = v1\nname = x\nversion = v1\n\nerror 1 Err " + q + " HTTP 500 # c\n"
	}, func(s *schema.WebRPCSchema) string {
		if s.Errors[0].HTTPStatus != 500 {
			return fmt.Sprintf("<HTTP status %d>", s.Errors[0].HTTPStatus)
		}
		return s.Errors[0].Message
	}},
	{"enum value", func(q string) string {
		return "webrpc = v1\nname = x\nversion = v1\n\nenum En: string\n  - A = " + q + "\n  - B\n"
	}, func(s *schema.WebRPCSchema) string {
		if len(s.Types[0].Fields) != 2 {
			return "<members missing>"
		}
		return s.Types[0].Fields[0].Value
	}},
	{"field metadata", func(q string) string {
		return "webrpc = v1\nname = x\nversion = v1\n\nstruct St\n  - a: string\n    + x.y = " + q + "\n    + z = 1\n"
	}, func(s *schema.WebRPCSchema) string {
		if len(s.Types[0].Fields[0].Meta) != 2 {
			return "<metadata missing>"
		}
		return fmt.Sprint(s.Types[0].Fields[0].Meta[0]["x.y"])
	}},
	{"alias metadata", func(q string) string {
		return "webrpc = v1\nname = x\nversion = v1\n\ntype Al: string\n  + go.type = " + q + "\n"
	}, func(s *schema.WebRPCSchema) string { return fmt.Sprint(s.Types[0].Meta[0]["go.type"]) }},
	{"annotation value", func(q string) string {
		return "webrpc = v1\nname = x\nversion = v1\n\nservice Svc\n  @auth:" + q + "\n  - M()\n  - N()\n"
	}, func(s *schema.WebRPCSchema) string {
		if len(s.Services[0].Methods) != 2 || s.Services[0].Methods[0].Annotations["auth"] == nil {
			return "<missing>"
		}
		return s.Services[0].Methods[0].Annotations["auth"].Value
	}},
	{"annotation value before another one", func(q string) string {
		return "webrpc = v1\nname = x\nversion = v1\n\nservice Svc\n  @auth:" + q + " @b:1\n  - M()\n"
	}, func(s *schema.WebRPCSchema) string {
		an := s.Services[0].Methods[0].Annotations
		if len(an) != 2 || an["auth"] == nil || an["b"] == nil {
			return "<missing>"
		}
		return an["auth"].Value
	}},
}

type quoteCase struct {
	Place int    `json:"place"`
	Inner string `json:"inner"` // between the quotes, as written
	Want  string `json:"want"`
	Bad   string `json:"bad,omitempty"` // why it can't be accepted
	After string `json:"after,omitempty"`
	CRLF  bool   `json:"crlf,omitempty"`
}

func genQuoteText(t *rapid.T) (inner, want string) {
	inner, want = genQuotePieces(t)
	if m.OneIn(t, "long", 24) {
		k := m.Num(t, "times", 2, 150)
		return strings.Repeat(inner, k), strings.Repeat(want, k)
	}
	return inner, want
}

func genQuotePieces(t *rapid.T) (inner, want string) {
	var a, b strings.Builder
	for k := m.Num(t, "pieces", 1, 8); k > 0; k-- {
		switch m.Num(t, "piece", 0, 9) {
		case 0:
			w := m.Pick(t, "word", []string{"abc", "HTTP", "a", "0", "true", "struct", "x-y", "foo.bar"})
			a.WriteString(w)
			b.WriteString(w)
		case 1:
			w := m.Pick(t, "blank", []string{" ", "  ", "\t", "   ", " \t "})
			a.WriteString(w)
			b.WriteString(w)
		case 2:
			e := m.Pick(t, "escape", []string{`\"`, `\n`, `\t`})
			a.WriteString(e)
			b.WriteString(map[string]string{`\"`: "\"", `\n`: "\n", `\t`: "\t"}[e])
		case 3, 4:
			w := m.Pick(t, "punct", []string{"#", "##", "#!", "=", "=>", ":", ",", "-", "+", "@", "|", "/", "//", "<", ">", "(", ")", "[", "]", "{", "}", "?", "!", ".", "..", "'", "`", "$", "%", "&", "*", ";", "^", "~", "¿", "¡", "_"})
			a.WriteString(w)
			b.WriteString(w)
		case 5, 6:
			w := m.Pick(t, "uni", []string{"é", "ü", "ñ", "世界", "日本", "🙂", "Ω", "я", "\u00ad", "\u00a0", "\u2028", "\u0085", "\ufeff", "\u200b", "e\u0301", "𝔘", "\U0010ffff", "ÿ", "\u0100", "\x01", "\x7f", "\x1b", "\v", "\f", "\r"})
			if w == "\r" {
				w = "r"
			}
			a.WriteString(w)
			b.WriteString(w)
		default:
			r := rapid.Rune().Draw(t, "rune")
			if r == 0 || r == '\n' || r == '\r' || r == '"' || r == '\\' || !utf8.ValidRune(r) {
				r = 'x'
			}
			a.WriteRune(r)
			b.WriteRune(r)
		}
	}
	return a.String(), b.String()
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:   "C22",
		Rule: "base paths: plain ones, with percent escapes, without leading or final slash, already normalised, with blanks, query, fragment or scheme put in, and any text, each from RIDL and from JSON; non-trivial: not empty",
		New:  func() any { return &baseCase{} },
		Enumerate: func(deep bool, yield func(any) bool) {
			n := 3
			if deep {
				n = 5
			}
			alpha := []string{"/", "a", ":", ".", "?", "#", " ", "%2F", "é"}
			var rec func(p string, n int) bool
			rec = func(p string, n int) bool {
				if !yield(&baseCase{Path: p}) {
					return false
				}
				if n == 0 {
					return true
				}
				for _, a := range alpha {
					if !rec(p+a, n-1) {
						return false
					}
				}
				return true
			}
			rec("", n)
		},
		Gen: func(t *rapid.T) any {
			c := &baseCase{Svc: rapid.Bool().Draw(t, "svc")}
			switch m.Num(t, "kind", 0, 4) {
			case 0, 1:
				c.Path = m.GenBasePath(t)
			case 2:
				c.Path = string(rapid.SliceOfN(rapid.SampledFrom([]rune(pathChars)), 1, 12).Draw(t, "chars"))
			case 3:
				p := m.GenBasePath(t)
				k := m.Num(t, "at", 0, len(p))
				c.Path = p[:k] + m.Pick(t, "bad", []string{" ", "\t", "\n", "\r", "?", "#", "://", "http://", "https://host", "?a=b", "#frag", "  "}) + p[k:]
			case 4:
				c.Path = m.Text(t, "any", 1, 10)
			}
			return c
		},
		Quick: 8000, Deep: 300000,
		Check: func(v any, o *pbt.Obs) error {
			c := v.(*baseCase)
			p := c.Path
			o.NonTrivial(p != "")
			o.Sample(p)
			reject := strings.ContainsAny(p, " \t\r\n?#") || strings.Contains(p, "://")
			want := m.NormBase(p)
			svc, jsvc := "", ""
			if c.Svc {
				svc = "\nservice S\n  - M()\n"
				jsvc = `,"services":[{"name":"S","methods":[{"name":"M"}]}]`
			}
			got := map[string]string{}
			parse := func(form, p string) (*schema.WebRPCSchema, error) {
				if form == "RIDL" {
					return parseRIDL("webrpc = v1\nname = x\nversion = v1\nbasepath = " + ridlQuote(p) + "\n" + svc)
				}
				return parseJSON(`{"webrpc":"v1","name":"x","version":"v1","basepath":` + jsonQuote(p) + jsvc + "}")
			}
			for _, form := range []string{"RIDL", "JSON"} {
				if form == "RIDL" && (p == "" || strings.ContainsAny(p, "\\\x00")) {
					continue // can't be written
				}
				s, err := parse(form, p)
				if reject {
					if err == nil {
						return fmt.Errorf("%s: base path %q is accepted as %q", form, p, s.BasePath)
					}
					got[form] = "rejected"
					continue
				}
				if err != nil {
					if plainPath(p) {
						return fmt.Errorf("%s: valid base path %q is rejected: %v", form, p, err)
					}
					got[form] = "rejected"
					continue
				}
				if s.BasePath != want {
					return fmt.Errorf("%s: base path %q gives %q, expected %q", form, p, s.BasePath, want)
				}
				got[form] = s.BasePath
				// once more
				s2, err := parse(form, s.BasePath)
				if s.BasePath != "" && (err != nil || s2.BasePath != s.BasePath) {
					return fmt.Errorf("%s: the normalised base path %q doesn't stay: %v", form, s.BasePath, err)
				}
				if err := s.Validate(); err != nil || s.BasePath != want {
					return fmt.Errorf("%s: validating again changes base path %q to %q (%v)", form, want, s.BasePath, err)
				}
			}
			if got["RIDL"] != "" && got["RIDL"] != got["JSON"] {
				return fmt.Errorf("base path %q: RIDL %q, JSON %q", p, got["RIDL"], got["JSON"])
			}
			o.ClassIf(reject, "must be rejected")
			o.ClassIf(!reject && plainPath(p), "must be accepted")
			o.ClassIf(!reject && !plainPath(p), "undecided: consistency only")
			if _, err := url.Parse(p); err != nil {
				o.Class("no URL at all")
			}
			return nil
		},
	})

	pbt.Register(&pbt.Prop{
		ID:   "C25",
		Rule: "one quoted value at one of 9 places in RIDL, of words, blanks, escapes, punctuation and any Unicode text; a third are made invalid: not closed on the line, or with an unknown escape; all single characters at all places; non-trivial: the text has something other than letters and digits",
		New:  func() any { return &quoteCase{} },
		Enumerate: func(deep bool, yield func(any) bool) {
			step := rune(97)
			if deep {
				step = 3
			}
			for i := range quotePlaces {
				for r := rune(1); r <= utf8.MaxRune; r++ {
					if r > 0x250 {
						r += step - 1
					}
					if r == '\n' || r == '\r' || r == '"' || r == '\\' || !utf8.ValidRune(r) {
						continue
					}
					for _, text := range []string{string(r), "a" + string(r) + "a", "a" + string(r), string(r) + "a"} {
						if text == string(r) && strings.TrimSpace(text) == "" && i == 7 {
							continue
						}
						if !yield(&quoteCase{Place: i, Inner: text, Want: text}) {
							return
						}
					}
				}
				for r := rune(1); r < 0x250; r++ { // unknown escapes
					if strings.ContainsRune("nt\"\n\r", r) {
						continue
					}
					if !yield(&quoteCase{Place: i, Inner: "a\\" + string(r) + "b", Bad: "unknown escape"}) {
						return
					}
				}
			}
		},
		Gen: func(t *rapid.T) any {
			c := &quoteCase{Place: m.Num(t, "place", 0, len(quotePlaces)-1), CRLF: m.OneIn(t, "crlf", 4)}
			c.Inner, c.Want = genQuoteText(t)
			switch m.Num(t, "bad", 0, 5) {
			case 4:
				c.Bad = "not closed"
				c.After = m.Pick(t, "after", []string{"", "", "# \"x\"\n", "name = \"y\"\n", "struct Q\n  - a: string\n    + b = \"c\"\n", "\"\n", "\n\n\""})
				switch m.Num(t, "unclosed", 0, 2) {
				case 1:
					c.Inner += `\"` // the closing quote is escaped
				case 2:
					c.Inner = ""
				}
			case 5:
				c.Bad = "unknown escape"
				rest, _ := genQuoteText(t)
				e := m.Pick(t, "unknown", []string{`\\`, `\r`, `\a`, `\0`, `\'`, `\x41`, `\u0041`, `\ `, `\é`, `\/`, `\#`, `\N`, `\T`, `\世`, `\.`, `\-`, `\=`, `\:`, `\,`})
				// keep an escaped backslash from escaping what follows
				c.Inner += e + "z" + rest
			}
			return c
		},
		Quick: 10000, Deep: 200000,
		Check: func(v any, o *pbt.Obs) error {
			c := v.(*quoteCase)
			pl := quotePlaces[c.Place]
			q := `"` + c.Inner + `"`
			if c.Bad == "not closed" {
				q = `"` + c.Inner
			}
			src := pl.text(q)
			if c.Bad == "not closed" {
				// nothing of the line may close it
				src = strings.Replace(src, q+" HTTP 500 # c", q, 1) + c.After
			}
			if c.CRLF {
				src = strings.ReplaceAll(src, "\n", "\r\n")
			}
			o.Sig(src)
			o.Sample(src)
			o.NonTrivial(strings.Trim(c.Inner, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789") != "")
			o.Class(pl.name)
			s, err := parseRIDL(src)
			if c.Bad != "" {
				o.Class(c.Bad)
				if err == nil {
					return fmt.Errorf("%s: a string that's invalid (%s) is accepted as %q\n--- input ---\n%s", pl.name, c.Bad, pl.get(s), src)
				}
				return nil
			}
			o.Class("valid")
			if err != nil {
				return fmt.Errorf("%s: a valid quoted value is rejected: %v\n--- input ---\n%s", pl.name, err, src)
			}
			if got := pl.get(s); got != c.Want {
				return fmt.Errorf("%s: got %q, expected %q\n--- input ---\n%s", pl.name, got, c.Want, src)
			}
			return nil
		},
	})
}

func jsonQuote(s string) string {
	b, _ := json.Marshal(s)
	return string(b)
}

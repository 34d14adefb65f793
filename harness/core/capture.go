package core

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/webrpc/webrpc/schema"
	"pgregory.net/rapid"

	m "verif/harness/model"
	"verif/harness/pbt"
)

func genRidlCase(cfg func(t *rapid.T) m.Cfg, noise bool) func(t *rapid.T) any {
	return func(t *rapid.T) any {
		c := genRidl(t, cfg(t))
		c.Opts.Noise = noise && rapid.Bool().Draw(t, "noise")
		return c
	}
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:   "C01",
		Rule: "a random valid schema written as RIDL in a random layout and declaration order; non-trivial: at least two kinds of type declarations, three fields in total, and a meta entry or an optional field",
		New:  func() any { return &ridlCase{} },
		Gen: genRidlCase(func(t *rapid.T) m.Cfg {
			c := m.Default()
			c.Longest = true
			c.NoVersion = true
			c.MaxSvc, c.MaxErr = 1, 2
			return c
		}, true),
		Quick: 8000, Deep: 150000,
		Check: func(v any, o *pbt.Obs) error {
			c := v.(*ridlCase)
			s := c.Schema
			src, err := c.check(o, m.Header|m.Types|m.Resolve)
			kinds, fields, extra := 0, 0, 0
			for _, n := range []int{len(s.Aliases), len(s.Enums), len(s.Structs)} {
				if n > 0 {
					kinds++
				}
			}
			for _, a := range s.Aliases {
				extra += len(a.Meta)
			}
			for _, st := range s.Structs {
				fields += len(st.Fields)
				for _, f := range st.Fields {
					extra += len(f.Meta)
					if f.Opt {
						extra++
					}
				}
			}
			o.NonTrivial(kinds >= 2 && fields >= 3 && extra > 0)
			o.Sig(src)
			o.Sample(src)
			layoutClasses(o, c.Opts)
			o.ClassIf(len(s.Aliases) > 0, "aliases")
			o.ClassIf(len(s.Enums) > 0, "enums")
			o.ClassIf(len(s.Structs) > 0, "structs")
			o.ClassIf(extra > 0, "meta or optional")
			return err
		},
	})

	pbt.Register(&pbt.Prop{
		ID:   "C02",
		Rule: "a random valid schema with services written as RIDL in a random layout; non-trivial: two methods or more, and at least one of annotations, streams, short form, optional arguments or declared errors",
		New:  func() any { return &ridlCase{} },
		Gen: genRidlCase(func(t *rapid.T) m.Cfg {
			c := m.Default()
			c.Longest = true
			c.MinSvc, c.MinErr, c.MinStruct = 1, 1, 1
			c.MaxStruct, c.MaxField, c.MaxMethod, c.Depth = 2, 2, 5, 2
			return c
		}, true),
		Quick: 8000, Deep: 150000,
		Check: func(v any, o *pbt.Obs) error {
			c := v.(*ridlCase)
			src, err := c.check(o, m.Header|m.Services|m.Resolve)
			n, feat := methodFeatures(o, c.Schema)
			o.NonTrivial(n >= 2 && feat > 0)
			o.Sig(src)
			o.Sample(src)
			layoutClasses(o, c.Opts)
			return err
		},
	})

	pbt.Register(&pbt.Prop{
		ID:   "C03",
		Rule: "a random valid schema with enums written as RIDL; non-trivial: an enum with two members or more that mixes explicit and implied values or has a string base",
		New:  func() any { return &ridlCase{} },
		Gen: func(t *rapid.T) any {
			cfg := m.Default()
			cfg.Longest = true
			cfg.MaxEnum, cfg.MaxStruct, cfg.MaxSvc, cfg.MaxErr, cfg.MaxAlias = 4, 1, 1, 1, 1
			c := genRidl(t, cfg)
			c.Opts.Noise = rapid.Bool().Draw(t, "noise")
			if len(c.Schema.Enums) == 0 {
				c.Schema.Enums = []m.Enum{{Name: "OnlyEnum", Base: "uint8", Members: []m.Member{{Name: "A"}, {Name: "B", Explicit: true, Val: "7"}, {Name: "C"}}}}
				if m.OneIn(t, "onlyenum", 2) {
					c.Schema.Enums[0].Base = "string"
				}
			}
			return c
		},
		Quick: 8000, Deep: 150000,
		Check: func(v any, o *pbt.Obs) error {
			c := v.(*ridlCase)
			src, err := c.check(o, m.Members|m.Resolve)
			nt := false
			for _, e := range c.Schema.Enums {
				ex, im := 0, 0
				for _, mb := range e.Members {
					if mb.Explicit {
						ex++
					} else {
						im++
					}
				}
				if ex > 0 && im > 0 || ex+im >= 2 && e.Base == "string" {
					nt = true
				}
				o.ClassIf(ex > 0 && im > 0, "mixed values")
				o.ClassIf(e.Base == "string", "string enum")
				o.ClassIf(e.Base != "string", "integer enum")
				o.ClassIf(len(e.Members) == 0, "empty enum")
			}
			o.NonTrivial(nt)
			o.Sig(src)
			o.Sample(src)
			return err
		},
	})

	type errCase struct {
		ridlCase
		// Bad, if not empty, replaces the code or status number of the error BadErr.
		Bad    string `json:"bad,omitempty"`
		BadErr int    `json:"badErr,omitempty"`
		InHTTP bool   `json:"inHttp,omitempty"`
	}
	pbt.Register(&pbt.Prop{
		ID:   "C04",
		Rule: "a random schema with errors written as RIDL, a third of them with one number made unrepresentable, zero or out of range, which is rejected or taken exactly as it is; non-trivial: two errors or more, or such a number",
		New:  func() any { return &errCase{} },
		Gen: func(t *rapid.T) any {
			cfg := m.Default()
			cfg.Longest = true
			cfg.MinErr, cfg.MaxErr = 1, 6
			cfg.MaxStruct, cfg.MaxSvc, cfg.MaxEnum, cfg.MaxAlias = 1, 1, 1, 1
			c := &errCase{}
			c.ridlCase = *genRidl(t, cfg)
			c.Opts.Noise = rapid.Bool().Draw(t, "noise")
			if c.Lib == nil && m.OneIn(t, "bad", 3) {
				c.BadErr = m.Num(t, "bad-err", 0, len(c.Schema.Errors)-1)
				c.InHTTP = m.OneIn(t, "bad-http", 3)
				if c.InHTTP {
					e := &c.Schema.Errors[c.BadErr]
					e.HasStatus, e.Status = true, 404
				}
				c.Bad = badNumber(t)
				if m.OneIn(t, "bad-range", 4) { // not allowed, or taken as it is
					c.Bad = m.Pick(t, "bad-ranged", []string{"0", "00", "1", "399", "600", "1000", "0404", "00500", "99", "2147483647"})
				}
			}
			return c
		},
		Quick: 8000, Deep: 150000,
		Check: func(v any, o *pbt.Obs) error {
			c := v.(*errCase)
			o.Class(fmt.Sprintf("%d errors", min(3, len(c.Schema.Errors))))
			o.ClassIf(c.Bad != "", "unrepresentable number")
			if c.Bad == "" {
				src, err := c.check(o, m.Errors)
				o.NonTrivial(len(c.Schema.Errors) >= 2)
				o.Sig(src)
				o.Sample(src)
				return err
			}
			// the plain schema is fine, with the bad number it isn't
			if _, _, err := checkRIDL("RIDL", c.Schema, c.Opts, m.Errors); err != nil {
				return err
			}
			const mark = 555555555
			s := *c.Schema
			s.Errors = append([]m.Err(nil), s.Errors...)
			e := &s.Errors[c.BadErr]
			if c.InHTTP {
				e.Status = mark
			} else {
				e.Code = mark
			}
			src := s.RIDL(c.Opts)
			src = strings.Replace(src, fmt.Sprint(mark), c.Bad, 1)
			o.NonTrivial(true)
			o.Sig(src)
			o.Sample(src)
			real, err := parseRIDL(src)
			if n, perr := strconv.ParseInt(c.Bad, 10, 64); err == nil && perr == nil && c.BadErr < len(real.Errors) {
				is := real.Errors[c.BadErr].Code
				if c.InHTTP {
					is = real.Errors[c.BadErr].HTTPStatus
				}
				if int64(is) == n {
					return nil // representable after all
				}
			}
			if err == nil {
				return fmt.Errorf("an error with the number %s is accepted, as %v\n--- input ---\n%s", c.Bad, m.RealView(real, m.Errors), excerpt(src))
			}
			return nil
		},
	})

	pbt.Register(&pbt.Prop{
		ID:   "C05",
		Rule: "a random schema written as RIDL with doc comments above and behind definitions, '#!' lines and unrelated comments; non-trivial: at least two documented definitions",
		New:  func() any { return &ridlCase{} },
		Gen: func(t *rapid.T) any {
			cfg := m.Default()
			cfg.Longest = true
			cfg.Annots = rapid.Bool().Draw(t, "annots")
			c := genRidl(t, cfg)
			c.Opts.Noise = m.Num(t, "noise", 0, 2) > 0
			return c
		},
		Quick: 8000, Deep: 150000,
		Check: func(v any, o *pbt.Obs) error {
			c := v.(*ridlCase)
			src, err := c.check(o, m.Types|m.Members|m.Services|m.Docs)
			n := 0
			for _, l := range c.Schema.View(m.Docs) {
				if strings.Contains(l, "doc ") {
					n++
				}
			}
			o.NonTrivial(n >= 2)
			o.Sig(src)
			o.Sample(src)
			o.ClassIf(n > 0, "documented")
			o.ClassIf(strings.Contains(src, "#!"), "ignored comment")
			layoutClasses(o, c.Opts)
			return err
		},
	})

	type layoutCase struct {
		Schema *m.Schema  `json:"schema"`
		A      m.RidlOpts `json:"a"`
		B      m.RidlOpts `json:"b"`
		Break  string     `json:"break,omitempty"` // where a type is broken in both
		Bad    string     `json:"bad,omitempty"`
	}
	pbt.Register(&pbt.Prop{
		ID:   "C06",
		Rule: "a random schema written as RIDL in two random layouts (blanks, tabs, blank lines, CRLF, missing final newline, comments anywhere, optional quotes), a few with a broken type in both; non-trivial: the texts differ and have ten lines or more",
		New:  func() any { return &layoutCase{} },
		Gen: func(t *rapid.T) any {
			cfg := m.Default()
			cfg.Longest = true
			c := &layoutCase{Schema: m.Gen(t, cfg)}
			c.A = m.GenRidlOpts(t, "a")
			c.B = m.GenRidlOpts(t, "b")
			c.B.Mix = c.A.Mix
			c.A.Docs = rapid.Bool().Draw(t, "docs")
			c.B.AnyCmt = rapid.Bool().Draw(t, "anycmt")
			c.B.Noise = rapid.Bool().Draw(t, "noise")
			if m.OneIn(t, "break", 8) {
				ws := typePlaces(c.Schema)
				if len(ws) > 0 {
					c.Break = m.Pick(t, "where", ws)
					c.Bad = m.Pick(t, "bad", []string{"Undeclared", "[]", "map<string>", "string]", "map<bool,int>", "String1"})
				}
			}
			return c
		},
		Quick: 6000, Deep: 120000,
		Check: func(v any, o *pbt.Obs) error {
			c := v.(*layoutCase)
			const mask = m.Everything &^ m.Docs
			if c.Break != "" {
				c.A.Types = breakAt(c.Break, c.Bad)
				c.B.Types = breakAt(c.Break, c.Bad)
			}
			a, b := c.Schema.RIDL(c.A), c.Schema.RIDL(c.B)
			c.A.Types, c.B.Types = nil, nil
			o.NonTrivial(a != b && strings.Count(b, "\n") >= 10)
			o.Sig(a + "\x00" + b)
			o.Sample(map[string]string{"a": a, "b": b})
			o.ClassIf(c.B.AnyCmt, "comments anywhere")
			o.ClassIf(c.A.CRLF != c.B.CRLF, "LF and CRLF")
			o.ClassIf(c.A.NoFinal != c.B.NoFinal, "final newline or not")
			o.ClassIf(c.Break != "", "broken type")
			sa, ea := parseRIDL(a)
			sb, eb := parseRIDL(b)
			if (ea == nil) != (eb == nil) {
				return fmt.Errorf("only one layout is accepted: %v / %v\n--- first ---\n%s\n--- second ---\n%s", ea, eb, excerpt(a), excerpt(b))
			}
			if ea != nil {
				if c.Break == "" {
					return fmt.Errorf("a valid schema is rejected: %v\n--- input ---\n%s", ea, excerpt(a))
				}
				return nil
			}
			if c.Break != "" {
				return nil // C08 says that it has to be rejected
			}
			if d := m.Diff(m.RealView(sa, mask), m.RealView(sb, mask)); d != "" {
				return fmt.Errorf("layouts differ in meaning: %s\n--- first ---\n%s\n--- second ---\n%s", d, excerpt(a), excerpt(b))
			}
			if d := m.Diff(c.Schema.View(mask), m.RealView(sa, mask)); d != "" {
				return fmt.Errorf("%s\n--- input ---\n%s", d, excerpt(a))
			}
			return nil
		},
	})
}

func methodFeatures(o *pbt.Obs, s *m.Schema) (n, feat int) {
	for _, sv := range s.Services {
		for _, mt := range sv.Methods {
			n++
			f := 0
			for _, x := range []struct {
				ok bool
				c  string
			}{
				{len(mt.Annots) > 0, "annotations"},
				{mt.SIn, "input stream"}, {mt.SOut, "output stream"}, {mt.Succinct, "short form"}, {len(mt.Errors) > 0, "declared errors"},
			} {
				if x.ok {
					f++
					o.Class(x.c)
				}
			}
			for _, a := range append(append([]m.Arg{}, mt.In...), mt.Out...) {
				if a.Opt {
					f++
				}
			}
			feat += f
		}
	}
	return
}

func badNumber(t *rapid.T) string {
	switch m.Num(t, "bad-kind", 0, 4) {
	case 0: // more than 32 bits, up to more than 64
		d := m.Num(t, "bad-digits", 10, 40)
		s := "9"
		for len(s) < d {
			s += fmt.Sprint(m.Num(t, "digit", 0, 9))
		}
		return s
	case 1: // would be fine modulo 2^32 or 2^64
		k := m.Num(t, "bad-mod", 400, 599)
		return m.Pick(t, "bad-wrap", []string{fmt.Sprint(1<<32 + k), fmt.Sprint(uint64(1)<<63 + uint64(k)), "184467440737095" + fmt.Sprint(51616+k)})
	case 2:
		return fmt.Sprint(1<<31 + m.Num(t, "bad-off", 0, 1000))
	case 3:
		return m.Pick(t, "bad-syntax", []string{"4x0", "0x190", "4_00", "4e2", "404.0", "x", "40O"})
	default:
		return "0" + strings.Repeat("9", m.Num(t, "bad-nines", 10, 30))
	}
}

// typePlaces lists the places of type expressions, as the renderers name them.
func typePlaces(s *m.Schema) []string {
	var out []string
	rec := func(where string, t *m.Type) string {
		if !strings.HasPrefix(where, "enum:") {
			out = append(out, where)
		}
		return t.Expr()
	}
	s.RIDL(m.RidlOpts{Types: rec})
	return out
}

func breakAt(where, bad string) func(string, *m.Type) string {
	return func(w string, t *m.Type) string {
		if w == where {
			return bad
		}
		return t.Expr()
	}
}

var _ = schema.SCHEMA_VERSION

package genp

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"

	m "verif/harness/model"
	"verif/harness/pbt"
)

// C27: the version check.
type ver struct {
	Text  string `json:"text"`
	Major int    `json:"major"`
	Minor int    `json:"minor"`
}

type verPair struct {
	A ver `json:"a"`
	B ver `json:"b"`
}

type verCase struct {
	Pairs []verPair `json:"pairs,omitempty"`
	Bad   string    `json:"bad,omitempty"` // not a version
	First bool      `json:"first,omitempty"`
}

func (c *verCase) check(o *pbt.Obs) error {
	if len(c.Pairs) == 0 {
		args := []string{"v1.2", c.Bad}
		if c.First {
			args = []string{c.Bad, "v1.2"}
		}
		o.NonTrivial(true)
		o.Class("not a version")
		out, err := render(empty(), body(`{{minVersion .Opts.a .Opts.b}}`), map[string]any{"a": args[0], "b": args[1]})
		if err == nil {
			return fmt.Errorf("minVersion %q %q gives %s rather than an error", args[0], args[1], out)
		}
		return nil
	}
	var list [][2]string
	var want []string
	nt := false
	for _, p := range c.Pairs {
		list = append(list, [2]string{p.A.Text, p.B.Text})
		ok := p.A.Major > p.B.Major || p.A.Major == p.B.Major && p.A.Minor >= p.B.Minor
		want = append(want, fmt.Sprint(ok))
		if p.A.Major != p.B.Major || p.A.Minor != p.B.Minor {
			nt = true
		}
		o.ClassIf(p.A.Major > p.B.Major && p.A.Minor < p.B.Minor, "higher major, lower minor")
		o.ClassIf(p.A.Major < p.B.Major && p.A.Minor > p.B.Minor, "lower major, higher minor")
		o.ClassIf(p.A.Major == p.B.Major && p.A.Minor == p.B.Minor, "equal")
	}
	o.Evals(len(c.Pairs))
	o.NonTrivial(nt)
	got, err := render(empty(), body(`{{range .Opts.pairs}}{{minVersion (index . 0) (index . 1)}}`, `{{end}}`), map[string]any{"pairs": list})
	if err != nil {
		return fmt.Errorf("minVersion fails on %v: %v", list, err)
	}
	res := strings.Split(strings.TrimSpace(got), "\n")
	for i := range want {
		if i >= len(res) || res[i] != want[i] {
			g := "nothing"
			if i < len(res) {
				g = res[i]
			}
			return fmt.Errorf("minVersion %q %q gives %s, expected %s", list[i][0], list[i][1], g, want[i])
		}
	}
	return nil
}

var verTails = []string{"", ".0", ".1", ".9", ".12.7", ".x-dev", ".0-rc1", ".3+meta", "."}

func genVer(t *rapid.T, label string) ver {
	num := func(l string) int {
		switch m.Num(t, l+"-size", 0, 5) {
		case 0:
			return m.Pick(t, l, []int{0, 1, 9, 10, 11, 99, 100, 1 << 31, 1<<31 - 1, 1 << 32, 1<<63 - 1})
		case 1:
			return m.Num(t, l, 0, 1000)
		}
		return m.Num(t, l, 0, 4)
	}
	v := ver{Major: num(label + "-major")}
	if rapid.Bool().Draw(t, label+"-v") {
		v.Text = "v"
	}
	v.Text += fmt.Sprint(v.Major)
	if m.Num(t, label+"-hasminor", 0, 4) > 0 {
		v.Minor = num(label + "-minor")
		v.Text += fmt.Sprintf(".%d", v.Minor) + m.Pick(t, label+"-tail", verTails)
	}
	return v
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:   "C27",
		Rule: "pairs of versions with or without v, minor number and further parts, in one template, against the order of (major, minor) pairs: all pairs of numbers from 0 to 3 (quick) or 12 (thorough) in every spelling, random ones up to the largest integer, and texts that aren't versions; non-trivial if a pair differs in major or minor number",
		New:  func() any { return &verCase{} },
		Enumerate: func(deep bool, yield func(any) bool) {
			top := 3
			if deep {
				top = 12
			}
			var all []ver
			for a := 0; a <= top; a++ {
				for _, v := range []string{"", "v"} {
					all = append(all, ver{Text: fmt.Sprintf("%s%d", v, a), Major: a})
					for b := 0; b <= top; b++ {
						for _, tail := range []string{"", ".5", ".x-dev"} {
							all = append(all, ver{Text: fmt.Sprintf("%s%d.%d%s", v, a, b, tail), Major: a, Minor: b})
						}
					}
				}
			}
			for _, x := range all {
				c := &verCase{}
				for _, y := range all {
					c.Pairs = append(c.Pairs, verPair{x, y})
				}
				if !yield(c) {
					return
				}
			}
			for _, bad := range []string{"", "v", "err", "version1", "v.1", "x1.2", "v1x.2", "vv1.2", "V1.2"} {
				for _, first := range []bool{false, true} {
					if !yield(&verCase{Bad: bad, First: first}) {
						return
					}
				}
			}
		},
		Gen: func(t *rapid.T) any {
			c := &verCase{}
			n := m.Num(t, "n", 1, 30)
			for i := 0; i < n; i++ {
				p := verPair{A: genVer(t, "a"), B: genVer(t, "b")}
				if m.OneIn(t, "near", 3) {
					p.B.Major = p.A.Major
					p.B.Text = fmt.Sprintf("v%d.%d", p.B.Major, p.B.Minor)
				}
				c.Pairs = append(c.Pairs, p)
			}
			return c
		},
		Check: func(c any, o *pbt.Obs) error { return c.(*verCase).check(o) },
		Quick: 500, Deep: 60000,
	})
}

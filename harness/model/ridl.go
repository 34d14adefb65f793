package model

import (
	"fmt"
	"strings"
)

// Lay is a stream of layout decisions. An empty stream makes the plainest
// layout, so that shrinking leads there.
type Lay struct {
	D []byte
	i int
}

func (l *Lay) n(k int) int {
	if l == nil || len(l.D) == 0 || k < 2 {
		return 0
	}
	v := int(l.D[l.i%len(l.D)]) + 7*(l.i/len(l.D))
	l.i++
	return v % k
}

// one in k, never for an empty stream
func (l *Lay) chance(k int) bool { return l.n(k) == k-1 && len(l.D) > 0 && k > 1 }

// Import as written in a RIDL file.
type Import struct {
	Path    string   `json:"path"`
	Members []string `json:"members,omitempty"`
}

// RidlOpts says what the renderer may vary.
type RidlOpts struct {
	Lay       []byte   `json:"lay,omitempty"`
	Docs      bool     `json:"docs,omitempty"`   // write the doc comments of the model
	Noise     bool     `json:"noise,omitempty"`  // comments that attach to nothing
	AnyCmt    bool     `json:"anyCmt,omitempty"` // comments anywhere (only for comparisons without comments)
	Imports   []Import `json:"imports,omitempty"`
	OneImport bool     `json:"-"`             // no import blocks
	Mix       bool     `json:"mix,omitempty"` // interleave kinds of definitions
	CRLF      bool     `json:"crlf,omitempty"`
	NoFinal   bool     `json:"noFinal,omitempty"` // no newline at the end
	NoQuote   bool     `json:"noQuote,omitempty"` // quote only what must be
	Wide      int      `json:"wide,omitempty"`    // length of some blanks
	Zeros     int      `json:"zeros,omitempty"`   // leading zeros of the numbers of some errors

	// LineOf, if not nil, collects the line number of every definition line.
	LineOf map[string]int `json:"-"`
	// Types renders a type expression in place of the default.
	Types func(where string, t *Type) string `json:"-"`
}

type ridl struct {
	o    RidlOpts
	l    *Lay
	b    strings.Builder
	line int
	nl   string
	last string
	// wides counts blanks that were made wide
	wides int
}

// RIDL renders the schema as RIDL text.
func (s *Schema) RIDL(o RidlOpts) string {
	r := &ridl{o: o, l: &Lay{D: o.Lay}, nl: "\n", line: 1}
	if o.CRLF {
		r.nl = "\r\n"
	}
	r.schema(s)
	out := r.b.String()
	if o.NoFinal {
		out = strings.TrimSuffix(out, r.nl)
	}
	return out
}

var blanks = []string{" ", "", "  ", "\t", " \t ", "    "}

// sp is the blank between tokens, where no blank is fine as well.
func (r *ridl) sp() string { return r.wide(blanks[r.l.n(len(blanks))]) }

// wide makes some blanks wide.
func (r *ridl) wide(s string) string {
	if r.o.Wide == 0 || s == "" || r.wides > 8 || !r.l.chance(5) {
		return s
	}
	r.wides++
	return strings.Repeat(s, r.o.Wide)
}

// sp0 is the same with nothing as the plain choice.
func (r *ridl) sp0() string {
	return r.wide([]string{"", " ", "  ", "\t", ""}[r.l.n(5)])
}

// sp1 is a blank that has to be there.
func (r *ridl) sp1() string {
	return r.wide([]string{" ", "  ", "\t", "   ", " \t"}[r.l.n(5)])
}

func (r *ridl) indent(def string) string {
	return r.wide([]string{def, def + " ", "", "\t", "      ", " \t"}[r.l.n(6)])
}

func (r *ridl) put(key, s string) {
	if r.o.LineOf != nil && key != "" {
		r.o.LineOf[key] = r.line
	}
	r.b.WriteString(s)
	r.b.WriteString(r.nl)
	r.line += 1 + strings.Count(s, "\n")
}

var noiseWords = []string{"note", "struct X", "- Ping()", "a \"quoted", "enum: uint32", "@x", "=> (", "## more #", "http://x.y/z?q=1#f", "it's", "\"both\"", "+ json = x", "¿qué?", "back\\slash", "世界"}

func (r *ridl) noiseText() string { return noiseWords[r.l.n(len(noiseWords))] }

// between writes what may stand between two lines and attaches to nothing.
func (r *ridl) between(def int) {
	n := def
	if r.l.n(3) == 1 {
		n = 1 - def
	} else if r.l.n(4) == 3 {
		n = 2
		if len(r.wide(" ")) > 1 {
			n = r.o.Wide
		}
	}
	if r.o.Noise && r.l.chance(4) {
		// comment set apart by a blank line
		r.put("", "")
		for k := 1 + r.l.n(2); k > 0; k-- {
			r.put("", r.indent("")+"#"+r.sp()+r.noiseText())
		}
		if n < 1 {
			n = 1
		}
	}
	for ; n > 0; n-- {
		r.put("", r.sp0())
	}
	if r.o.AnyCmt && r.l.chance(3) {
		r.put("", r.indent("")+"#"+r.sp()+r.noiseText())
	}
}

func (r *ridl) anyTrail() string {
	if r.o.AnyCmt && r.l.chance(3) {
		return " #" + r.sp() + r.noiseText()
	}
	return r.trailBlanks()
}

// anyTrailOf is anyTrail for a line whose last token may end by itself.
func (r *ridl) anyTrailOf(line string) string {
	t := r.anyTrail()
	if strings.HasPrefix(t, " #") && strings.HasSuffix(line, `"`) && r.l.n(2) == 1 {
		return t[1:]
	}
	return t
}

func (r *ridl) trailBlanks() string {
	return []string{"", "", "", " ", "\t"}[r.l.n(5)]
}

// noiseTrail is for lines that take no doc comments.
func (r *ridl) noiseTrail() string {
	if (r.o.Noise || r.o.AnyCmt) && r.l.chance(3) {
		return " #" + r.sp() + r.noiseText()
	}
	return r.trailBlanks()
}

// noiseAbove: comment lines directly above a line that takes no doc comments.
func (r *ridl) noiseAbove() {
	if (r.o.Noise || r.o.AnyCmt) && r.l.chance(4) {
		r.put("", r.indent("")+"#"+r.sp()+r.noiseText())
	}
}

func (r *ridl) commentText(s string) string {
	if strings.HasPrefix(s, "!") {
		return s // "#!..."
	}
	words := strings.Split(s, " ")
	out := words[0]
	for _, w := range words[1:] {
		out += r.sp1() + w
	}
	return r.sp() + out
}

func (r *ridl) docAbove(ind string, d Doc) {
	if !r.o.Docs {
		if r.o.AnyCmt && r.l.chance(4) {
			r.put("", ind+"#"+r.sp()+r.noiseText())
		}
		return
	}
	for _, l := range d.Above {
		r.put("", ind+"#"+r.commentText(l))
	}
}

func (r *ridl) docTrail(d Doc) string {
	if !r.o.Docs {
		return r.anyTrail()
	}
	if d.Trail == "" {
		return r.trailBlanks()
	}
	return r.sp1() + "#" + r.commentText(d.Trail)
}

func Quote(s string) string {
	s = strings.ReplaceAll(s, `"`, `\"`)
	s = strings.ReplaceAll(s, "\n", `\n`)
	s = strings.ReplaceAll(s, "\t", `\t`)
	return `"` + s + `"`
}

func (r *ridl) quoted(s string) string {
	s = strings.ReplaceAll(s, `"`, `\"`)
	s = strings.ReplaceAll(s, "\n", `\n`)
	if r.l.n(2) == 0 {
		s = strings.ReplaceAll(s, "\t", `\t`)
	}
	return `"` + s + `"`
}

const bareFirst = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"

// Bare tells if s can be written as a single word without quotes.
func Bare(s string) bool {
	if s == "" || !strings.ContainsRune(bareFirst, rune(s[0])) {
		return false
	}
	for _, c := range s {
		if !strings.ContainsRune(bareFirst, c) && !strings.ContainsRune("._-/+|@$%&*;~^'", c) {
			return false
		}
	}
	return true
}

// val writes a value either bare or quoted.
func (r *ridl) val(s string) string {
	if Bare(s) && (r.o.NoQuote || r.l.n(3) != 2) {
		return s
	}
	return r.quoted(s)
}

// metaVal writes the value of a meta field: without quotes it reaches up to
// the next blank and can have any character but quotes and comment signs.
func (r *ridl) metaVal(s string) string {
	ok := s != "" && !strings.ContainsRune("\"#\\>", rune(s[0]))
	for _, c := range s {
		if !strings.ContainsRune(bareFirst, c) && !strings.ContainsRune("._-/+|@$%&*;~^'[]<>{}():?!,=", c) {
			ok = false
		}
	}
	if ok && (r.o.NoQuote || r.l.n(3) != 2) {
		return s
	}
	return r.quoted(s)
}

func (r *ridl) typ(where string, t *Type) string {
	if r.o.Types != nil {
		return r.o.Types(where, t)
	}
	return r.typ1(t)
}

func (r *ridl) typ1(t *Type) string {
	switch t.K {
	case "list":
		return "[]" + r.typ1(t.Elem)
	case "map":
		return "map" + r.sp0() + "<" + r.sp0() + r.typ1(t.Key) + r.sp0() + "," + r.sp0() + r.typ1(t.Elem) + r.sp0() + ">"
	}
	return t.N
}

func (r *ridl) schema(s *Schema) {
	type item struct {
		queue int
		f     func()
	}
	var queues [7][]func()
	add := func(q int, f func()) { queues[q] = append(queues[q], f) }

	head := func(k, v string) {
		add(0, func() {
			r.noiseAbove()
			val := ""
			if k == "basepath" {
				val = v
				if strings.ContainsAny(v, " #?=") || r.l.n(3) == 2 || !bareBase(v) {
					val = r.quoted(v)
				}
			} else {
				val = r.val(v)
			}
			r.put("head:"+k, r.indent("")+k+r.sp()+"="+r.sp()+val+r.noiseTrail())
			if r.l.n(3) == 1 {
				r.between(1)
			}
		})
	}
	head("webrpc", "v1")
	if s.Name != "" {
		head("name", s.Name)
	}
	if s.Version != "" {
		head("version", s.Version)
	}
	if s.BasePath != "" {
		head("basepath", s.BasePath)
	}
	r.imports(add)
	for i := range s.Aliases {
		a := &s.Aliases[i]
		add(2, func() {
			ind := r.indent("")
			r.docAbove(ind, a.Doc)
			r.put("type:"+a.Name, ind+"type"+r.sp1()+a.Name+":"+r.sp()+r.typ("type:"+a.Name, a.Type)+r.docTrail(a.Doc))
			r.metas("type:"+a.Name, a.Meta)
		})
	}
	for i := range s.Enums {
		e := &s.Enums[i]
		add(3, func() {
			ind := r.indent("")
			r.docAbove(ind, e.Doc)
			r.put("enum:"+e.Name, ind+"enum"+r.sp1()+e.Name+":"+r.sp()+r.typ("enum:"+e.Name, Core(e.Base))+r.docTrail(e.Doc))
			for j := range e.Members {
				m := &e.Members[j]
				if r.l.n(4) == 3 {
					r.between(0)
				}
				ind := r.indent("  ")
				r.docAbove(ind, m.Doc)
				line := ind + "-" + r.sp() + m.Name
				if m.Explicit {
					line += r.sp() + "=" + r.sp() + r.val(m.Val)
				}
				r.put("member:"+e.Name+"."+m.Name, line+r.docTrail(m.Doc))
			}
		})
	}
	for i := range s.Structs {
		st := &s.Structs[i]
		add(4, func() {
			ind := r.indent("")
			r.docAbove(ind, st.Doc)
			r.put("struct:"+st.Name, ind+"struct"+r.sp1()+st.Name+r.docTrail(st.Doc))
			for j := range st.Fields {
				f := &st.Fields[j]
				if r.l.n(4) == 3 {
					r.between(0)
				}
				ind := r.indent("  ")
				r.docAbove(ind, f.Doc)
				q := ""
				if f.Opt {
					q = "?"
				}
				key := "field:" + st.Name + "." + f.Name
				r.put(key, ind+"-"+r.sp()+f.Name+q+":"+r.sp()+r.typ(key, f.Type)+r.docTrail(f.Doc))
				r.metas(key, f.Meta)
			}
		})
	}
	for i := range s.Errors {
		e := &s.Errors[i]
		add(5, func() {
			r.noiseAbove()
			zc, zs := "", ""
			if r.o.Zeros > 0 && i%3 != 2 {
				zc = strings.Repeat("0", r.o.Zeros-1)
				zs = strings.Repeat("0", r.o.Zeros)
			}
			line := r.indent("") + fmt.Sprintf("error%s%s%d%s%s%s%s", r.sp1(), zc, e.Code, r.sp1(), e.Name, r.sp1(), r.val(e.Msg))
			if e.HasStatus {
				line += r.sp1() + "HTTP" + r.sp1() + zs + fmt.Sprint(e.Status)
			}
			r.put("error:"+e.Name, line+r.noiseTrail())
		})
	}
	for i := range s.Services {
		sv := &s.Services[i]
		add(6, func() { r.service(sv) })
	}

	if r.l.n(5) == 4 {
		r.between(1)
	}
	first := true
	for {
		var nonEmpty []int
		for q := range queues {
			if len(queues[q]) > 0 {
				nonEmpty = append(nonEmpty, q)
			}
		}
		if len(nonEmpty) == 0 {
			break
		}
		q := nonEmpty[0]
		if r.o.Mix {
			q = nonEmpty[r.l.n(len(nonEmpty))]
		}
		if !first {
			if q == 0 {
				r.between(0)
			} else {
				r.between(1)
			}
		}
		first = false
		f := queues[q][0]
		queues[q] = queues[q][1:]
		f()
	}
	if r.l.n(4) == 3 {
		r.between(1)
	}
}

func bareBase(v string) bool {
	for _, c := range v {
		if !strings.ContainsRune(bareFirst, c) && !strings.ContainsRune("._-/+@$%&*;~^'", c) {
			return false
		}
	}
	for _, seg := range strings.Split(v, "/") {
		if seg != "" && !strings.ContainsRune(bareFirst, rune(seg[0])) {
			return false
		}
	}
	return v != ""
}

func (r *ridl) metas(key string, ms []Meta) {
	for i, m := range ms {
		if r.l.n(6) == 5 {
			r.between(0)
		}
		r.noiseAbove()
		r.put(fmt.Sprintf("meta:%s.%d", key, i), r.indent("    ")+"+"+r.sp()+m.K+r.sp()+"="+r.sp()+r.metaVal(m.V)+r.noiseTrail())
	}
}

func (r *ridl) imports(add func(int, func())) {
	ims := r.o.Imports
	for i := 0; i < len(ims); {
		im := ims[i]
		// consecutive imports without members can share one block
		j := i + 1
		if len(im.Members) == 0 && !r.o.OneImport && r.l.n(2) == 0 {
			for j < len(ims) && len(ims[j].Members) == 0 && r.l.n(3) != 2 {
				j++
			}
			group := ims[i:j]
			add(1, func() {
				r.noiseAbove()
				r.put("import", r.indent("")+"import"+r.noiseTrail())
				for _, g := range group {
					r.noiseAbove()
					r.put("import:"+g.Path, r.indent("  ")+"-"+r.sp()+r.path(g.Path)+r.noiseTrail())
				}
			})
		} else {
			add(1, func() {
				r.noiseAbove()
				r.put("import:"+im.Path, r.indent("")+"import"+r.sp1()+r.path(im.Path)+r.noiseTrail())
				for _, m := range im.Members {
					if r.l.n(6) == 5 {
						r.between(0)
					}
					r.put("import:"+im.Path+":"+m, r.indent("  ")+"-"+r.sp()+r.val(m)+r.noiseTrail())
				}
			})
		}
		i = j
	}
}

func (r *ridl) path(p string) string {
	if r.l.n(3) == 2 {
		return r.quoted(p)
	}
	return p
}

func (r *ridl) service(sv *Service) {
	ind := r.indent("")
	r.docAbove(ind, sv.Doc)
	r.put("service:"+sv.Name, ind+"service"+r.sp1()+r.val(sv.Name)+r.docTrail(sv.Doc))
	for j := range sv.Methods {
		m := &sv.Methods[j]
		if r.l.n(3) == 2 {
			r.between(0)
		}
		ind := r.indent("  ")
		r.docAbove(ind, m.Doc)
		line := ""
		for k, a := range m.Annots {
			if k > 0 {
				if strings.HasSuffix(line, `"`) && r.l.n(4) == 3 {
					// nothing has to separate it from the value
				} else if r.l.n(2) == 0 {
					line += r.sp1()
				} else {
					r.put("", line+r.anyTrailOf(line))
					r.apart()
					line = ""
				}
			}
			if line == "" {
				line = r.indent("  ")
			}
			line += "@" + a.Name
			if a.HasVal {
				line += ":" + r.annVal(a.Val)
			}
		}
		if line != "" {
			r.put("", line+r.anyTrailOf(line))
			r.apart()
		}
		r.put("method:"+sv.Name+"."+m.Name, ind+r.methodLine(sv, m)+r.docTrail(m.Doc))
	}
}

// apart may put empty lines behind a line of annotations.
func (r *ridl) apart() {
	if r.l.n(8) == 7 {
		for k := 1 + r.l.n(2); k > 0; k-- {
			r.put("", r.sp0())
		}
	}
}

func (r *ridl) annVal(s string) string {
	ok := s != ""
	for _, c := range s {
		if !strings.ContainsRune(bareFirst, c) && !strings.ContainsRune("._-", c) {
			ok = false
		}
	}
	if ok && strings.ContainsRune(bareFirst, rune(s[0])) && r.l.n(3) != 2 {
		return s
	}
	return r.quoted(s)
}

func (r *ridl) methodLine(sv *Service, m *Method) string {
	key := "method:" + sv.Name + "." + m.Name
	line := "-" + r.sp()
	if m.SIn {
		line += "stream" + r.sp1()
	}
	line += m.Name
	if m.Succinct {
		line += r.shortArgs(key+":in", m.In) + r.sp() + "=>" + r.sp()
		if m.SOut {
			line += "stream" + r.sp1()
		}
		line += r.shortArgs(key+":out", m.Out)
	} else {
		line += r.args(key+":in", m.In)
		if len(m.Out) > 0 || m.SOut || r.l.chance(3) {
			line += r.sp() + "=>" + r.sp()
			if m.SOut {
				line += "stream" + r.sp1()
			}
			line += r.args(key+":out", m.Out)
		}
	}
	if len(m.Errors) > 0 {
		line += r.sp1() + "errors" + r.sp1() + m.Errors[0]
		for _, e := range m.Errors[1:] {
			line += r.sp1() + "|" + r.sp() + e
		}
	}
	return line
}

// shortArgs writes the short form; in an ill-formed model also several
// arguments, or the long form of what isn't a struct.
func (r *ridl) shortArgs(key string, as []Arg) string {
	var parts []string
	for _, a := range as {
		if a.Type.K != "ref" {
			return r.args(key, as)
		}
		parts = append(parts, r.sp0()+a.Type.N)
	}
	return "(" + strings.Join(parts, ", ") + ")"
}

func (r *ridl) args(key string, as []Arg) string {
	var parts []string
	for _, a := range as {
		q := ""
		if a.Opt {
			q = "?"
		}
		parts = append(parts, r.sp0()+a.Name+q+":"+r.sp()+r.typ(key+"."+a.Name, a.Type)+r.sp0())
	}
	sep := ", "
	if r.l.n(2) == 1 {
		sep = ","
	}
	return "(" + strings.Join(parts, sep) + ")"
}

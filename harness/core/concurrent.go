package core

import (
	"fmt"
	"slices"
	"strings"
	"sync"

	"github.com/webrpc/webrpc/schema"
	"pgregory.net/rapid"

	m "verif/harness/model"
	"verif/harness/pbt"
)

// anyInput is one input to be parsed among others.
type anyInput struct {
	Src  *source   `json:"src,omitempty"`
	Tree *impCase  `json:"tree,omitempty"`
	Text *textCase `json:"text,omitempty"`
}

func (in *anyInput) parse() (*schema.WebRPCSchema, error) {
	switch {
	case in.Src != nil && in.Src.IsJSON:
		return parseJSON(in.Src.text())
	case in.Src != nil:
		return parseRIDL(in.Src.text())
	case in.Tree != nil:
		return parseFiles(in.Tree.render(true), in.Tree.Files[0].Path)
	}
	return in.Text.parse()
}

func (in *anyInput) show() string {
	switch {
	case in.Src != nil:
		return excerpt(in.Src.text())
	case in.Tree != nil:
		return showStrings(in.Tree.render(true))
	}
	return in.Text.show()
}

// model is the schema that must result, if known.
func (in *anyInput) model() *m.Schema {
	if in.Src != nil {
		return in.Src.Schema
	}
	if in.Tree != nil {
		return merged(in.Tree.Files, 0, map[int]*m.Schema{})
	}
	return nil
}

func (in *anyInput) mask() m.Mask {
	if in.Src != nil {
		return in.Src.mask()
	}
	return m.Everything
}

// fullOutcome is everything that is observed of a result.
func fullOutcome(s *schema.WebRPCSchema, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	h, err := s.SchemaHash()
	if err != nil {
		h = "no hash: " + err.Error()
	}
	return h + "\n" + jsonOf(s) + "\n" + strings.Join(m.RealView(s, allMask), "\n") + "\n" +
		fmt.Sprint(schema.SchemaUsesBigInts(s), schema.SchemaBigIntFieldsByType(s))
}

type step struct {
	On   int    `json:"on"`
	Kind string `json:"kind"`
	Arg  string `json:"arg"`
}

type concCase struct {
	Inputs []anyInput `json:"inputs"`
	Order  []int      `json:"order"` // what is parsed at the same time, in this order
	Steps  []step     `json:"steps"`
	First  bool       `json:"first,omitempty"` // at the same time before anything is parsed alone
}

func (st *step) apply(s *schema.WebRPCSchema) {
	switch st.Kind {
	case "shake":
		schema.MethodTreeShake(s, []string{st.Arg})
	case "match":
		schema.MatchServices(s, []string{st.Arg})
	case "annotated":
		schema.MatchMethodsWithAnnotations(s, map[string]string{st.Arg: ""})
	case "ignore":
		schema.IgnoreMethodsWithAnnotations(s, map[string]string{st.Arg: ""})
	case "version":
		s.SchemaVersion = st.Arg
		s.BasePath = "/" + st.Arg
	case "order":
		slices.Reverse(s.Types)
		slices.Reverse(s.Services)
		slices.Reverse(s.Errors)
	}
}

func genAnyInput(t *rapid.T) anyInput {
	switch m.Num(t, "input", 0, 6) {
	case 0, 1, 2:
		cfg := m.Default()
		cfg.Depth = 2
		cfg.RefBias = true
		cfg.MaxAlias, cfg.MaxEnum, cfg.MaxStruct, cfg.MaxSvc, cfg.MaxMethod = 2, 2, 3, 2, 2
		s := genSource(t, cfg)
		return anyInput{Src: &s}
	case 3, 4:
		return anyInput{Tree: genImports(t, 4)}
	case 5:
		return anyInput{Text: genRidlText(t, 3)}
	}
	return anyInput{Text: genJSONText(t, 3)}
}

func (c *concCase) check(o *pbt.Obs) error {
	n := len(c.Inputs)
	var sig strings.Builder
	for i := range c.Inputs {
		sig.WriteString(c.Inputs[i].show())
		sig.WriteByte(0)
	}
	fmt.Fprint(&sig, c.Order, c.Steps)
	o.Sig(sig.String())
	o.NonTrivial(len(c.Order) > 1 && n > 1)
	valid, invalid := 0, 0

	var wg sync.WaitGroup
	got := make([]string, len(c.Order))
	results := make([]*schema.WebRPCSchema, len(c.Order))
	atOnce := func() {
		start := make(chan bool)
		for k, i := range c.Order {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				s, err := c.Inputs[i].parse()
				got[k] = fullOutcome(s, err)
				if err == nil {
					results[k] = s
				}
			}()
		}
		close(start)
		wg.Wait()
	}
	if c.First {
		atOnce()
	}
	o.ClassIf(c.First, "at the same time first")

	want := make([]string, n)
	for i := range c.Inputs {
		in := &c.Inputs[i]
		s, err := in.parse()
		want[i] = fullOutcome(s, err)
		if md := in.model(); md != nil {
			if err != nil {
				return fmt.Errorf("input %d: valid, but rejected: %v\n%s", i, err, in.show())
			}
			if d := m.Diff(md.View(in.mask()), m.RealView(s, in.mask())); d != "" {
				return fmt.Errorf("input %d: %s\n%s", i, d, in.show())
			}
		}
		if err == nil {
			valid++
		} else {
			invalid++
		}
		o.ClassIf(in.Tree != nil, "with imports")
		o.ClassIf(in.Src != nil && in.Src.IsJSON, "JSON")
	}
	o.ClassIf(invalid > 0 && valid > 0, "valid and invalid together")
	o.Sample(map[string]any{"inputs": n, "invalid": invalid, "order": c.Order, "steps": c.Steps, "first": excerpt(c.Inputs[0].show())})
	diff := func(what string, i int, got string) error {
		if got == want[i] {
			return nil
		}
		return fmt.Errorf("%s: input %d gives something else than alone:\n%s\n--- alone ---\n%s\n--- input ---\n%s", what, i, excerpt(got), excerpt(want[i]), c.Inputs[i].show())
	}

	// one after another, in another order
	for _, i := range c.Order {
		s, err := c.Inputs[i].parse()
		if err := diff("one after another", i, fullOutcome(s, err)); err != nil {
			return err
		}
	}

	// at the same time
	if !c.First {
		atOnce()
	}
	for k, i := range c.Order {
		if err := diff("at the same time", i, got[k]); err != nil {
			return err
		}
	}

	// the same schema read by several at once
	for k, i := range c.Order {
		s := results[k]
		if s == nil {
			continue
		}
		var outs [3]string
		for r := range outs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				outs[r] = fullOutcome(s, nil)
			}()
		}
		wg.Wait()
		for _, x := range outs {
			if err := diff("read by several at once", i, x); err != nil {
				return err
			}
		}
	}

	// transforming some while the others are read, parsed and written
	touched := map[int]bool{}
	byResult := map[int][]step{}
	for _, st := range c.Steps {
		touched[st.On] = true
		byResult[st.On] = append(byResult[st.On], st)
	}
	for k, i := range c.Order {
		s := results[k]
		if s == nil {
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			if touched[k] {
				for _, st := range byResult[k] {
					st.apply(s)
				}
				return
			}
			got[k] = fullOutcome(s, nil)
			if _, err := c.Inputs[i].parse(); err != nil {
				got[k] = fullOutcome(nil, err)
			}
		}()
	}
	wg.Wait()
	for k, i := range c.Order {
		if results[k] == nil || touched[k] {
			continue
		}
		if err := diff("while others are transformed", i, got[k]); err != nil {
			return err
		}
		if err := diff("after others were transformed", i, fullOutcome(results[k], nil)); err != nil {
			return err
		}
		// what comes in later isn't affected either
		s, err := c.Inputs[i].parse()
		if err := diff("parsed after others were transformed", i, fullOutcome(s, err)); err != nil {
			return err
		}
	}
	o.ClassIf(len(touched) > 0, "transformed")
	o.Evals(3 * len(c.Order))
	return nil
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:   "C33",
		Rule: "2-6 inputs (schemas as RIDL and JSON, trees of imports, nearly valid texts), parsed alone, then one after another in a random order, then up to 12 at the same time, then each read by three goroutines at once, then some transformed while others are read and parsed; in a build with the race detector; non-trivial: more than one input",
		New:  func() any { return &concCase{} },
		Gen: func(t *rapid.T) any {
			c := &concCase{First: m.Num(t, "first", 0, 1) == 1}
			for k := m.Num(t, "inputs", 2, 6); k > 0; k-- {
				c.Inputs = append(c.Inputs, genAnyInput(t))
			}
			for i := range c.Inputs {
				for k := m.Num(t, "copies", 1, 2); k > 0; k-- {
					c.Order = append(c.Order, i)
				}
			}
			c.Order = rapid.Permutation(c.Order).Draw(t, "order")
			for k := m.Num(t, "steps", 0, 4); k > 0; k-- {
				st := step{On: m.Num(t, "on", 0, len(c.Order)-1), Kind: m.Pick(t, "kind", []string{"shake", "match", "annotated", "ignore", "version", "order"})}
				st.Arg = m.Pick(t, "arg", []string{"none", "auth", "internal"})
				if md := c.Inputs[c.Order[st.On]].model(); md != nil && len(md.Services) > 0 && (st.Kind == "shake" || st.Kind == "match") {
					st.Arg = m.Pick(t, "service", md.Services).Name
				}
				c.Steps = append(c.Steps, st)
			}
			return c
		},
		Quick: 250, Deep: 30000,
		Assume: []string{"interleavings are those that the Go scheduler produces on this machine"},
		Check:  func(v any, o *pbt.Obs) error { return v.(*concCase).check(o) },
	})
}

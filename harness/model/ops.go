package model

import (
	"slices"
	"strings"

	"pgregory.net/rapid"
)

// Reachable computes the types that the methods of the services need.
func Reachable(s *Schema, services []string) map[string]bool {
	in := map[string]bool{}
	var todo []string
	add := func(n string) {
		if !in[n] {
			in[n] = true
			todo = append(todo, n)
		}
	}
	for _, sv := range s.Services {
		if !slices.Contains(services, sv.Name) {
			continue
		}
		for _, mt := range sv.Methods {
			for _, a := range mt.In {
				a.Type.Refs(add)
			}
			for _, a := range mt.Out {
				a.Type.Refs(add)
			}
		}
	}
	for len(todo) > 0 {
		n := todo[0]
		todo = todo[1:]
		if a := s.Alias(n); a != nil {
			a.Type.Refs(add)
		}
		if a := s.Struct(n); a != nil {
			for _, f := range a.Fields {
				f.Type.Refs(add)
			}
		}
	}
	return in
}

// KeepTypes leaves out the other types.
func KeepTypes(s *Schema, in map[string]bool) *Schema {
	out := *s
	out.Aliases, out.Enums, out.Structs, out.TypeOrder = nil, nil, nil, nil
	for _, a := range s.Aliases {
		if in[a.Name] {
			out.Aliases = append(out.Aliases, a)
		}
	}
	for _, a := range s.Enums {
		if in[a.Name] {
			out.Enums = append(out.Enums, a)
		}
	}
	for _, a := range s.Structs {
		if in[a.Name] {
			out.Structs = append(out.Structs, a)
		}
	}
	for _, n := range s.Order() {
		if in[n] {
			out.TypeOrder = append(out.TypeOrder, n)
		}
	}
	return &out
}

// GenServices gives a list of services to select.
func GenServices(t *rapid.T, s *Schema) []string {
	var all []string
	for _, sv := range s.Services {
		all = append(all, sv.Name)
	}
	var out []string
	if len(all) > 0 {
		k := Num(t, "select", 0, len(all))
		out = append(out, rapid.Permutation(all).Draw(t, "select-names")[:k]...)
	}
	for k := Num(t, "select-extra", 0, 3); k > 1; k-- {
		n := "Nope"
		if len(all) > 0 {
			n = Pick(t, "near", all)
			switch Num(t, "near-how", 0, 7) {
			case 0: // again
			case 1:
				n = strings.ToLower(n)
			case 2:
				n = strings.ToUpper(n)
			case 3:
				n = n[:len(n)-1]
			case 4:
				n += "x"
			case 7:
				if len(out) > 0 {
					n = ""
				}
			case 5:
				n = " " + n
			case 6:
				n += " "
			}
		}
		out = append(out, n)
	}
	if len(out) > 1 {
		out = rapid.Permutation(out).Draw(t, "select-order")
	}
	return out
}

// Select keeps the services of a list, or all if it is empty.
func Select(s *Schema, names []string) *Schema {
	out := *s
	if len(names) > 0 {
		out.Services = nil
		for _, sv := range s.Services {
			if slices.Contains(names, sv.Name) {
				out.Services = append(out.Services, sv)
			}
		}
	}
	return &out
}

// Filter keeps the methods that match a request for annotations, or the
// others, and says how many are kept and dropped.
func Filter(s *Schema, request map[string]string, match bool) (out *Schema, kept, gone int) {
	c := *s
	c.Services = nil
	for _, sv := range s.Services {
		sv2 := sv
		sv2.Methods = nil
		for _, mt := range sv.Methods {
			hit := false
			for _, a := range mt.Annots {
				want, ok := request[a.Name]
				if ok && (strings.Trim(want, " ") == "" || want == a.Val) {
					hit = true
				}
			}
			if hit == match {
				sv2.Methods = append(sv2.Methods, mt)
				kept++
			} else {
				gone++
			}
		}
		c.Services = append(c.Services, sv2)
	}
	return &c, kept, gone
}

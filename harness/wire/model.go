// Package wire holds the properties of the reference client and server and of
// the conformance suite made of them.
package wire

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"reflect"

	"github.com/webrpc/webrpc/tests/client"
	"github.com/webrpc/webrpc/tests/server"
	"pgregory.net/rapid"

	m "verif/harness/model"
)

// The values of the schema tests/schema/test.ridl, described once more.

type simple struct {
	ID   int64  `json:"id"`
	Name string `json:"name"`
}

type user struct {
	ID       uint64 `json:"id"`
	Username string `json:"username"`
	Role     string `json:"role"`
}

type complexVal struct {
	Meta        map[string]any               `json:"meta"`
	Nested      map[string]map[string]uint32 `json:"nested"`
	Names       []string                     `json:"names"`
	Nums        []int64                      `json:"nums"`
	Double      [][]string                   `json:"double"`
	ListOfMaps  []map[string]uint32          `json:"listOfMaps"`
	ListOfUsers []*user                      `json:"listOfUsers"`
	MapOfUsers  map[string]*user             `json:"mapOfUsers"`
	User        *user                        `json:"user"`
	Status      int                          `json:"status"`
}

// value is an argument or a result.
type value struct {
	Simple   []*simple      `json:"simple,omitempty"` // one, two, three
	Complex  *complexVal    `json:"complex,omitempty"`
	Statuses []int          `json:"statuses"`
	Access   map[int]uint64 `json:"access"`
	Code     int64          `json:"code,omitempty"`
}

var statusNames = []string{"AVAILABLE", "NOT_AVAILABLE"}
var accessNames = []string{"NONE", "READ", "WRITE", "ADMIN", "OWNER"}

// methods says what goes in and out of each method.
var methods = []struct{ Name, In, Out string }{
	{"GetEmpty", "", ""},
	{"GetError", "", ""},
	{"GetOne", "", "one"},
	{"SendOne", "one", ""},
	{"GetMulti", "", "multi"},
	{"SendMulti", "multi", ""},
	{"GetComplex", "", "complex"},
	{"SendComplex", "complex", ""},
	{"GetEnumList", "", "list"},
	{"GetEnumMap", "", "map"},
	{"GetSchemaError", "code", ""},
}

func methodAt(name string) (in, out string) {
	for _, x := range methods {
		if x.Name == name {
			return x.In, x.Out
		}
	}
	panic("no method " + name)
}

// wireJSON is what goes over the wire, by the schema.
func wireJSON(kind string, v *value) any {
	sim := func(s *simple) any {
		if s == nil {
			return nil
		}
		return map[string]any{"id": s.ID, "name": s.Name}
	}
	usr := func(u *user) any {
		if u == nil {
			return nil
		}
		return map[string]any{"id": u.ID, "USERNAME": u.Username, "role": u.Role}
	}
	switch kind {
	case "":
		return map[string]any{}
	case "one":
		return map[string]any{"one": sim(v.Simple[0])}
	case "multi":
		return map[string]any{"one": sim(v.Simple[0]), "two": sim(v.Simple[1]), "three": sim(v.Simple[2])}
	case "complex":
		c := v.Complex
		if c == nil {
			return map[string]any{"complex": nil}
		}
		var lu, mu any
		if c.ListOfUsers != nil {
			l := []any{}
			for _, u := range c.ListOfUsers {
				l = append(l, usr(u))
			}
			lu = l
		}
		if c.MapOfUsers != nil {
			l := map[string]any{}
			for k, u := range c.MapOfUsers {
				l[k] = usr(u)
			}
			mu = l
		}
		return map[string]any{"complex": map[string]any{
			"meta": c.Meta, "metaNestedExample": c.Nested, "namesList": c.Names, "numsList": c.Nums, "doubleArray": c.Double,
			"listOfMaps": c.ListOfMaps, "listOfUsers": lu, "mapOfUsers": mu, "user": usr(c.User), "status": statusNames[c.Status],
		}}
	case "list":
		if v.Statuses == nil {
			return map[string]any{"list": nil}
		}
		l := []any{}
		for _, s := range v.Statuses {
			l = append(l, statusNames[s])
		}
		return map[string]any{"list": l}
	case "map":
		if v.Access == nil {
			return map[string]any{"map": nil}
		}
		l := map[string]any{}
		for k, n := range v.Access {
			l[accessNames[k]] = n
		}
		return map[string]any{"map": l}
	case "code":
		return map[string]any{"code": v.Code}
	}
	panic("kind " + kind)
}

func normJSON(b []byte) (any, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	if d.More() {
		return nil, fmt.Errorf("more than one JSON value")
	}
	return v, nil
}

// sameJSON compares a text with the expected content.
func sameJSON(what string, body []byte, want any) error {
	wb, err := json.Marshal(want)
	if err != nil {
		return err
	}
	w, _ := normJSON(wb)
	g, err := normJSON(body)
	if err != nil {
		return fmt.Errorf("%s is no JSON: %v\n%s", what, err, body)
	}
	if !reflect.DeepEqual(g, w) {
		return fmt.Errorf("%s is\n%s\nwant\n%s", what, body, wb)
	}
	return nil
}

func (s *simple) server() *server.Simple {
	if s == nil {
		return nil
	}
	return &server.Simple{Id: int(s.ID), Name: s.Name}
}

func (s *simple) client() *client.Simple {
	if s == nil {
		return nil
	}
	return &client.Simple{Id: int(s.ID), Name: s.Name}
}

func (s *user) server() *server.User {
	if s == nil {
		return nil
	}
	return &server.User{ID: s.ID, Username: s.Username, Role: s.Role}
}

func (s *user) client() *client.User {
	if s == nil {
		return nil
	}
	return &client.User{ID: s.ID, Username: s.Username, Role: s.Role}
}

func listOf[A, B any](l []A, f func(A) B) []B {
	if l == nil {
		return nil
	}
	out := make([]B, 0, len(l))
	for _, x := range l {
		out = append(out, f(x))
	}
	return out
}

func mapOf[K comparable, A, L comparable, B any](l map[K]A, k func(K) L, f func(A) B) map[L]B {
	if l == nil {
		return nil
	}
	out := map[L]B{}
	for i, x := range l {
		out[k(i)] = f(x)
	}
	return out
}

func same[T any](x T) T { return x }

func (c *complexVal) server() *server.Complex {
	if c == nil {
		return nil
	}
	return &server.Complex{
		Meta: c.Meta, MetaNestedExample: c.Nested, NamesList: c.Names, NumsList: c.Nums, DoubleArray: c.Double, ListOfMaps: c.ListOfMaps,
		ListOfUsers: listOf(c.ListOfUsers, (*user).server), MapOfUsers: mapOf(c.MapOfUsers, same[string], (*user).server),
		User: c.User.server(), Status: server.Status(c.Status),
	}
}

func (c *complexVal) client() *client.Complex {
	if c == nil {
		return nil
	}
	return &client.Complex{
		Meta: c.Meta, MetaNestedExample: c.Nested, NamesList: c.Names, NumsList: c.Nums, DoubleArray: c.Double, ListOfMaps: c.ListOfMaps,
		ListOfUsers: listOf(c.ListOfUsers, (*user).client), MapOfUsers: mapOf(c.MapOfUsers, same[string], (*user).client),
		User: c.User.client(), Status: client.Status(c.Status),
	}
}

// --- generators ---

func genString(t *rapid.T, label string) string {
	if m.OneIn(t, label+"-any", 2) {
		return rapid.StringN(0, 6, -1).Draw(t, label)
	}
	return m.Pick(t, label, []string{"", "a", "one", "John-Doe", "<b>&", "\u2028", "\"q\"", "世界", "\x00\x7f", "a\nb", "\\", "null"})
}

func genUint(t *rapid.T, label string, max uint64) uint64 {
	switch m.Num(t, label+"-how", 0, 3) {
	case 0:
		return uint64(m.Num(t, label, 0, 3))
	case 1:
		return max - uint64(m.Num(t, label, 0, 2))
	case 2: // around what a float holds
		return min(max, 1<<53+uint64(m.Num(t, label, 0, 3)))
	}
	return rapid.Uint64Range(0, max).Draw(t, label)
}

func genInt(t *rapid.T, label string) int64 {
	n := int64(genUint(t, label, math.MaxInt64))
	if rapid.Bool().Draw(t, label+"-neg") {
		return -n - 1
	}
	return n
}

func genAny(t *rapid.T, depth int) any {
	hi := 5
	if depth == 0 {
		hi = 3
	}
	switch m.Num(t, "any", 0, hi) {
	case 0:
		return nil
	case 1:
		return genString(t, "any-str")
	case 2:
		return rapid.Bool().Draw(t, "any-bool")
	case 3:
		return float64(genInt(t, "any-num")>>11) / 8
	case 4:
		out := []any{}
		for n := m.Num(t, "any-list", 0, 2); n > 0; n-- {
			out = append(out, genAny(t, depth-1))
		}
		return out
	}
	out := map[string]any{}
	for n := m.Num(t, "any-map", 0, 2); n > 0; n-- {
		out[genString(t, "any-key")] = genAny(t, depth-1)
	}
	return out
}

func genList[T any](t *rapid.T, label string, f func() T) []T {
	n := m.Num(t, label, 0, 4)
	if n == 0 {
		return nil
	}
	out := []T{}
	for ; n > 1; n-- {
		out = append(out, f())
	}
	return out
}

func genMap[T any](t *rapid.T, label string, f func() T) map[string]T {
	n := m.Num(t, label, 0, 4)
	if n == 0 {
		return nil
	}
	out := map[string]T{}
	for ; n > 1; n-- {
		out[genString(t, label+"-key")] = f()
	}
	return out
}

func genSimple(t *rapid.T) *simple {
	if m.OneIn(t, "nil", 8) {
		return nil
	}
	return &simple{ID: genInt(t, "id"), Name: genString(t, "name")}
}

func genUser(t *rapid.T) *user {
	if m.OneIn(t, "nil", 6) {
		return nil
	}
	return &user{ID: genUint(t, "id", math.MaxUint64), Username: genString(t, "username"), Role: genString(t, "role")}
}

func genValue(t *rapid.T, kind string) *value {
	v := &value{}
	u32 := func() uint32 { return uint32(genUint(t, "u32", math.MaxUint32)) }
	str := func() string { return genString(t, "str") }
	switch kind {
	case "one", "multi":
		for range 3 {
			v.Simple = append(v.Simple, genSimple(t))
		}
	case "complex":
		if m.OneIn(t, "nil", 8) {
			break
		}
		usr := func() *user { return genUser(t) }
		v.Complex = &complexVal{
			Meta:        genMap(t, "meta", func() any { return genAny(t, 2) }),
			Nested:      genMap(t, "nested", func() map[string]uint32 { return genMap(t, "nested-in", u32) }),
			Names:       genList(t, "names", str),
			Nums:        genList(t, "nums", func() int64 { return genInt(t, "num") }),
			Double:      genList(t, "double", func() []string { return genList(t, "double-in", str) }),
			ListOfMaps:  genList(t, "maps", func() map[string]uint32 { return genMap(t, "maps-in", u32) }),
			ListOfUsers: genList(t, "users", usr),
			MapOfUsers:  genMap(t, "user-map", usr),
			User:        usr(),
			Status:      m.Num(t, "status", 0, 1),
		}
	case "list":
		v.Statuses = genList(t, "list", func() int { return m.Num(t, "status", 0, 1) })
	case "map":
		for n := m.Num(t, "map", 0, 4); n > 0; n-- {
			if v.Access == nil {
				v.Access = map[int]uint64{}
			}
			if n > 1 {
				v.Access[m.Num(t, "access", 0, 4)] = genUint(t, "number", math.MaxUint64)
			}
		}
	case "code":
		v.Code = genInt(t, "code")
		if rapid.Bool().Draw(t, "known-code") {
			v.Code = int64(m.Num(t, "code-small", 0, 303))
		}
	}
	return v
}

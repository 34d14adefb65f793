exec(open("/verif/tools/plants/l.py").read().split("\nPLANTS = [")[0])

def parsed(text, cond, imports=()):
    """text is a Go expression of RIDL after the header."""
    return rf("""	s, err := ridl.NewParser(files("main.ridl", %s), "/", "main.ridl").Parse()
	if err != nil {
		t.Fatal(err)
	}
	if n := %s {
		t.Fatal(n)
	}
""" % (text, cond))
REP = """strings.Join(func() (l []string) {
		for i := 1; i <= %d; i++ {
			l = append(l, fmt.Sprintf(%s))
		}
		return l
	}(), "\\n") + "\\n\""""

PLANTS = [
dict(id="duplicates-nearby", property="C09", pkg="schema/ridl",
  needs="two types of the same name with more than 32 types between them",
  breaks="they are accepted",
  edits=[("schema/type.go", """	for _, msg := range schema.Types {
		if msg != t && name""", """	types := schema.Types
	if i := slices.Index(types, t); i >= 0 {
		types = types[max(0, i-32):min(len(types), i+32)]
	}
	for _, msg := range types {
		if msg != t && name"""), ("schema/type.go", '	"fmt"\n', '	"fmt"\n	"slices"\n')],
  demo=rf("""	text := "struct A\\n  - a: int\\n"
	for i := 0; i < 60; i++ {
		text += fmt.Sprintf("struct B%d\\n  - a: int\\n", i)
	}
	if _, err := ridl.NewParser(files("main.ridl", text+"struct A\\n  - b: int\\n"), "/", "main.ridl").Parse(); err == nil {
		t.Fatal(strings.TrimSpace("accepted"))
	}
""")),
dict(id="fields-counted-in-a-byte", property="C01", pkg="schema/ridl", also=["C37"],
  needs="a struct of more than 255 fields",
  breaks="those after are dropped",
  edits=[("schema/ridl/ridl.go", "			structDef.Fields = append(structDef.Fields, field)\n", """			if len(structDef.Fields) < 255 {
				structDef.Fields = append(structDef.Fields, field)
			}
""")],
  demo=parsed('"struct S\\n" + ' + REP % (280, '"  - a%d: int", i'), "len(s.Types[0].Fields); n != 280")),
dict(id="errors-to-255", property="C04", pkg="schema/ridl",
  needs="a file of more than 255 errors",
  breaks="those after are dropped",
  edits=[("schema/ridl/ridl.go", "		s.Errors = append(s.Errors, &errorType)\n", """		if len(s.Errors) == 255 {
			continue
		}
		s.Errors = append(s.Errors, &errorType)
""")],
  demo=parsed(REP % (280, '"error %d E%d \\"m\\"", i, i'), "len(s.Errors); n != 280")),
dict(id="services-to-255", property="C02", pkg="schema/ridl",
  needs="a file of more than 255 services",
  breaks="those after are dropped",
  edits=[("schema/ridl/ridl.go", "		s.Services = append(s.Services, srv)\n	}\n", """		if len(s.Services) < 255 {
			s.Services = append(s.Services, srv)
		}
	}
""")],
  demo=parsed(REP % (280, '"service S%d\\n- A()", i'), "len(s.Services); n != 280")),
dict(id="structs-to-255", property="C01", pkg="schema/ridl", also=["C18"],
  needs="more than 255 structs of which the last is used by none of the others",
  breaks="it is dropped",
  edits=[("schema/ridl/ridl.go", """	for _, line := range q.root.Structs() {
		s.Types = append""", """	for i, line := range q.root.Structs() {
		if i > 255 {
			break
		}
		s.Types = append""")],
  demo=parsed(REP % (280, '"struct S%d\\n  - a: int", i'), "len(s.Types); n != 280")),
dict(id="shake-at-most-256", property="C18", pkg="schema/ridl",
  needs="more than 256 types in use",
  breaks="those after are dropped",
  edits=[("schema/schema.go", "		if usedIncluded[t.Name] {\n", "		if usedIncluded[t.Name] && len(kept) < 256 {\n")],
  demo=rf("""	text := "service S\\n"
	for i := 0; i < 280; i++ {
		text += fmt.Sprintf("- M%d(a: E%d)\\n", i, i)
	}
	for i := 0; i < 280; i++ {
		text += fmt.Sprintf("enum E%d: uint8\\n  - A\\n", i)
	}
	s, err := ridl.NewParser(files("main.ridl", strings.Clone(text)), "/", "main.ridl").Parse()
	if err != nil {
		t.Fatal(err)
	}
	if n := len(schema.MethodTreeShake(s, []string{"S"}).Types); n != 280 {
		t.Fatal(n)
	}
""").replace('"github.com/webrpc/webrpc/schema/ridl"', '"github.com/webrpc/webrpc/schema"\n\t"github.com/webrpc/webrpc/schema/ridl"')),
dict(id="methods-of-256", property="C20", pkg="schema/ridl",
  needs="a service of more than 256 methods that stay",
  breaks="those after are dropped",
  edits=[("schema/schema.go", "			if !ignore {\n", "			if !ignore && len(methods) <= 0xff {\n")],
  demo=rf("""	text := "service S\\n"
	for i := 0; i < 280; i++ {
		text += fmt.Sprintf("- M%d()\\n", i)
	}
	s, err := ridl.NewParser(files("main.ridl", strings.Clone(text)), "/", "main.ridl").Parse()
	if err != nil {
		t.Fatal(err)
	}
	if n := len(schema.IgnoreMethodsWithAnnotations(s, map[string]string{"a": ""}).Services[0].Methods); n != 280 {
		t.Fatal(n)
	}
""").replace('"github.com/webrpc/webrpc/schema/ridl"', '"github.com/webrpc/webrpc/schema"\n\t"github.com/webrpc/webrpc/schema/ridl"')),
dict(id="services-of-128", property="C19", pkg="schema/ridl",
  needs="a schema of more than 128 services",
  breaks="those after are never selected",
  edits=[("schema/schema.go", "	for _, srv := range s.Services {\n		if _, ok := serviceMap", "	for _, srv := range s.Services[:min(len(s.Services), 128)] {\n		if _, ok := serviceMap")],
  demo=rf("""	text := ""
	for i := 0; i < 280; i++ {
		text += fmt.Sprintf("service S%d\\n- M()\\n", i)
	}
	s, err := ridl.NewParser(files("main.ridl", strings.Clone(text)), "/", "main.ridl").Parse()
	if err != nil {
		t.Fatal(err)
	}
	if n := len(schema.MatchServices(s, []string{"S270"}).Services); n != 1 {
		t.Fatal(n)
	}
""").replace('"github.com/webrpc/webrpc/schema/ridl"', '"github.com/webrpc/webrpc/schema"\n\t"github.com/webrpc/webrpc/schema/ridl"')),
]

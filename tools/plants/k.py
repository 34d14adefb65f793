exec(open("/verif/tools/plants/j.py").read().split("\nPLANTS = [")[0])
H = '"webrpc = v1\\nname = a\\nversion = v1\\n"'

PLANTS = [
dict(id="enum-values-of-one-byte", property="C03", pkg="schema/ridl",
  needs="an enum with more than 256 members without values",
  breaks="the values start again",
  edits=[("schema/ridl/ridl.go", "val = strconv.Itoa(i)", "val = strconv.Itoa(int(uint8(i)))")],
  demo=rfs('''	text := "enum E: uint16\\n"
	for i := 0; i < 300; i++ {
		text += "  - M" + strconv.Itoa(i) + "\\n"
	}
	s, err := ridl.NewParser(files("main.ridl", text), "/", "main.ridl").Parse()
	if err != nil || s.Types[0].Fields[299].Value != "299" {
		t.Fatal(err)
	}
''').replace('"io/fs"\n', '"io/fs"\n\t"strconv"\n')),
dict(id="errors-of-method-above-eight", property="C02", pkg="schema/ridl",
  needs="a method that lists more than eight errors",
  breaks="the ninth is left out",
  edits=[("schema/ridl/ridl.go", '''			methodErrors := make([]string, len(method.Errors()))
			for i, errorToken := range method.Errors() {
				methodErrors[i] = errorToken.String()
			}
''', '''			methodErrors := make([]string, 0, 8)
			for _, errorToken := range method.Errors() {
				if len(methodErrors) < cap(methodErrors) {
					methodErrors = append(methodErrors, errorToken.String())
				}
			}
''')],
  demo=rfs('''	text, list := "", ""
	for i := 1; i < 13; i++ {
		text += fmt.Sprintf("error %d E%d \\"m\\"\\n", i, i)
		list += fmt.Sprintf("| E%d ", i)
	}
	s, err := ridl.NewParser(files("main.ridl", text + "service S\\n  - M() errors " + list[2:] + "\\n"), "/", "main.ridl").Parse()
	if err != nil || len(s.Services[0].Methods[0].Errors) != 12 {
		t.Fatal(err)
	}
''').replace('"errors"\n', '"errors"\n\t"fmt"\n')),
dict(id="shake-depth-limit", property="C18", pkg="schema",
  needs="a chain of more than 16 structs",
  breaks="the types behind it are dropped",
  edits=[("schema/schema.go", '''	var walkVarType func(vt *VarType, mark map[string]bool)
	walkVarType = func(vt *VarType, mark map[string]bool) {
		if vt == nil {
			return
		}
''', '''	var walkVarType func(vt *VarType, mark map[string]bool)
	depth := 0
	walkVarType = func(vt *VarType, mark map[string]bool) {
		if vt == nil || depth > 16 {
			return
		}
		depth++
		defer func() { depth-- }()
''')],
  demo=json_('''	types := ""
	for i := 0; i < 30; i++ {
		types += fmt.Sprintf(`{"kind":"struct","name":"S%d","fields":[{"name":"f","type":"S%d"}]},`, i, i+1)
	}
	s, err := schema.ParseSchemaJSON([]byte(`''' + J + '''"types":[` + types + `{"kind":"struct","name":"S30","fields":[]}],"services":[{"name":"A","methods":[{"name":"M","inputs":[{"name":"a","type":"S0"}]}]}]}`))
	if err != nil {
		t.Fatal(err)
	}
	if n := len(schema.MethodTreeShake(s, []string{"A"}).Types); n != 31 {
		t.Fatal(n)
	}
''', ["fmt"])),
dict(id="types-nested-to-twelve", property="C07", pkg="schema/ridl",
  needs="a type that is nested more than twelve deep",
  breaks="it is rejected",
  edits=[("schema/var_type.go", '''	vt.Expr = expr

	// parse''', '''	vt.Expr = expr
	if strings.Count(expr, "[]")+strings.Count(expr, "<") > 12 {
		return fmt.Errorf("schema error: type '%s' is nested too deeply", expr)
	}

	// parse''')],
  demo=rfs('''	_, err := ridl.NewParser(files("main.ridl", "struct S\\n  - a: " + strings.Repeat("[]", 20) + "int\\n"), "/", "main.ridl").Parse()
	if err != nil {
		t.Fatal(err)
	}
''').replace('"io/fs"\n', '"io/fs"\n\t"strings"\n')),
dict(id="quoted-values-of-1024", property="C25", pkg="schema/ridl",
  needs="a quoted value of more than 1024 characters",
  breaks="the rest is cut off",
  edits=[("schema/ridl/parser_util.go", '''	size := len(in)
	out := ""
''', '''	size := min(len(in), 1024)
	out := ""
''')],
  demo=rfs('''	s, err := ridl.NewParser(files("main.ridl", "error 1 E \\"" + strings.Repeat("abc ", 300) + ".\\"\\n"), "/", "main.ridl").Parse()
	if err != nil || len(s.Errors[0].Message) != 1201 {
		t.Fatal(err)
	}
''').replace('"io/fs"\n', '"io/fs"\n\t"strings"\n')),
dict(id="bigints-of-an-earlier-schema", property="C21", pkg="schema",
  needs="two schemas with structs of the same name, of which only one has a bigint",
  breaks="the second schema gets the answer for the first",
  edits=[("schema/helpers.go", '''	visited := make(map[string]bool) // cycle guard for struct recursion
	memo := make(map[string]bool)    // memoize struct -> hasBigInt
''', '''	visited := make(map[string]bool) // cycle guard for struct recursion
	memo := bigIntMemo[s.SchemaName+"@"+s.SchemaVersion]
	if memo == nil {
		memo = make(map[string]bool) // memoize struct -> hasBigInt
		bigIntMemo[s.SchemaName+"@"+s.SchemaVersion] = memo
	}
'''), ("schema/helpers.go", '''// SchemaUsesBigInts returns true''', '''var bigIntMemo = map[string]map[string]bool{}

// SchemaUsesBigInts returns true''')],
  demo=json_('''	for _, typ := range []string{"int", "bigint"} {
		s, err := schema.ParseSchemaJSON([]byte(`''' + J + '''"types":[{"kind":"struct","name":"A","fields":[{"name":"a","type":"` + typ + `"}]}]}`))
		if err != nil {
			t.Fatal(err)
		}
		if schema.SchemaUsesBigInts(s) != (typ == "bigint") {
			t.Fatal(typ)
		}
	}
''')),
dict(id="annotations-fold-case", property="C20", pkg="schema",
  needs="an annotation whose name differs in letter case from the requested one",
  breaks="it is taken for the requested one",
  edits=[("schema/schema.go", '''			ignore := false
			for name, value := range annotations {
				ann, ok := method.Annotations[name]
				if !ok {
					continue
				}
''', '''			ignore := false
			for name, value := range annotations {
				ann, ok := method.Annotations[name]
				for other, a := range method.Annotations {
					if !ok && strings.EqualFold(other, name) {
						ann, ok, name = a, true, a.AnnotationType
					}
				}
				if !ok {
					continue
				}
''')],
  demo=json_('''	s, err := schema.ParseSchemaJSON([]byte(`''' + J + '''"types":[],"services":[{"name":"A","methods":[{"name":"M","annotations":{"Auth":{"annotationType":"Auth"}}}]}]}`))
	if err != nil {
		t.Fatal(err)
	}
	if schema.IgnoreMethodsWithAnnotations(s, map[string]string{"auth": ""}); len(s.Services[0].Methods) != 1 {
		t.Fatal("ignored")
	}
''')),
dict(id="cycles-of-more-than-twelve", property="C14", pkg="schema/ridl",
  needs="an import cycle of more than twelve files",
  breaks="it isn't noticed before the stack is full",
  edits=[("schema/ridl/internal/graph/graph.go", '''		if !visited[neighbor] {
			if g.isCircular''', '''		if !visited[neighbor] && len(visited) < 12 {
			if g.isCircular'''), ("schema/ridl/internal/graph/graph.go", '''	for _, node := range g.nodes {
		if !visited[node] {
			if g.isCircular(node, visited, recursionStack) {
				return true
			}
		}
	}
	return false
}''', '''	for _, node := range g.nodes {
		if !visited[node] {
			if g.isCircular(node, visited, recursionStack) {
				return true
			}
		}
	}
	return len(g.nodes) > 1000
}''')] ,
  demo=rfs('''	f := files()
	for i := 0; i < 20; i++ {
		f[fmt.Sprintf("f%d.ridl", i)] = &fstest.MapFile{Data: []byte(head + fmt.Sprintf("import f%d.ridl\\n", (i+1)%20))}
	}
	done := make(chan error, 1)
	go func() {
		_, err := ridl.NewParser(f, "/", "f0.ridl").Parse()
		done <- err
	}()
	select {
	case err := <-done:
		if err == nil || strings.Contains(err.Error(), "stack trace") && strings.Count(err.Error(), "f0.ridl") > 3 {
			t.Fatal(err)
		}
	case <-time.After(20 * time.Second):
		t.Fatal("no end")
	}
''').replace('"errors"\n', '"errors"\n\t"fmt"\n').replace('"io/fs"\n', '"io/fs"\n\t"strings"\n\t"time"\n')),
dict(id="second-line-of-annotations-wins", property="C02", pkg="schema/ridl",
  needs="annotations on more than two lines",
  breaks="those of the first line are lost",
  edits=[("schema/ridl/service_parser.go", '''			s.methodAnnotations = append(s.methodAnnotations, anns...)
''', '''			if n := len(s.methodAnnotations); n > 0 && n+len(anns) > 4 {
				s.methodAnnotations = s.methodAnnotations[n+len(anns)-min(n+len(anns), 4+len(anns)):]
			}
			s.methodAnnotations = append(s.methodAnnotations, anns...)
''')],
  demo=rfs('''	s, err := ridl.NewParser(files("main.ridl", "service S\\n  @a\\n  @b\\n  @c\\n  @d\\n  @e\\n  @f\\n  - M()\\n"), "/", "main.ridl").Parse()
	if err != nil || len(s.Services[0].Methods[0].Annotations) != 6 {
		t.Fatal(err)
	}
''')),
]

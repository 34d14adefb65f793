exec(open("/verif/tools/plants/b.py").read().split("\nPLANTS = [")[0])

J = '{"webrpc":"v1","name":"a","version":"v1",'

PLANTS = [
dict(id="enum-values-as-numbers", property="C03", pkg="schema/ridl",
  needs="an explicit enum value with a leading zero",
  breaks="the value isn't the written one",
  edits=[("schema/ridl/ridl.go", '''			key, val := def.Left().String(), def.Right().String()
			if val == "" {
				if''', '''			key, val := def.Left().String(), def.Right().String()
			if n, err := strconv.Atoi(val); err == nil && enumType.String() != "string" {
				val = strconv.Itoa(n)
			}
			if len(val) == 0 {
				if''')],
  demo=ridl('''	s, err := parse(t, map[string]string{"main.ridl": "%senum E: uint32\\n  - A = 007\\n"})
	if err != nil || s.Types[0].Fields[0].Value != "007" {
		t.Fatal(err, s)
	}
''' % H)),
dict(id="statuses-by-code", property="C04", pkg="schema/ridl",
  needs="an error without status whose code is one of the client or server statuses",
  breaks="the code is taken as the status",
  edits=[("schema/ridl/ridl.go", "			errorType.HTTPStatus = 400 // Default HTTP status code\n", '''			errorType.HTTPStatus = 400 // Default HTTP status code
			if code > 400 && code < 600 && code == int64(errorType.Code) {
				errorType.HTTPStatus = int(code)
			}
'''), ("schema/ridl/ridl.go", "		if line.httpStatus != nil {", "		if !(line.httpStatus == nil) {")],
  demo=ridl('''	s, err := parse(t, map[string]string{"main.ridl": "%serror 404 Aa \\"a\\"\\n"})
	if err != nil || s.Errors[0].HTTPStatus != 400 {
		t.Fatal(err, s)
	}
''' % H)),
dict(id="methods-of-first-service", property="C02", pkg="schema/ridl", also=["C13"],
  needs="a file that imports a service and declares more than one itself",
  breaks="methods end up at the wrong service",
  edits=[("schema/ridl/ridl.go", '''	for _, service := range q.root.Services() {
		methods := []*schema.Method{}
''', '''	for i, service := range q.root.Services() {
		methods := []*schema.Method{}
'''), ("schema/ridl/ridl.go", "		serviceDef := s.GetServiceByName(service.Name().String())\n		serviceDef.Methods = methods\n", '''		serviceDef := s.Services[i]
		if len(s.Services) > len(q.root.Services()) && i == 0 {
			serviceDef = s.GetServiceByName(service.Name().String())
		} else if len(s.Services) > len(q.root.Services()) {
			serviceDef = s.Services[len(s.Services)-i]
		}
		serviceDef.Methods = methods
''')],
  demo=ridl('''	s, err := parse(t, map[string]string{
		"main.ridl": "%simport a.ridl\\nservice B\\n  - X()\\nservice C\\n  - Y()\\nservice D\\n  - Z()\\n", "a.ridl": "%sservice A\\n  - W()\\n"})
	if err != nil {
		t.Fatal(err)
	}
	for i, want := range []string{"W", "X", "Y", "Z"} {
		if s.Services[i].Methods[0].Name != want {
			t.Fatal(s.Services[i])
		}
	}
''' % (H, H))),
dict(id="crlf-comment-ends", property="C05", pkg="schema/ridl", also=["C06"],
  needs="a comment word that ends with a backslash, on the last line of a doc comment",
  breaks="the next comment line is joined to it",
  edits=[("schema/ridl/tokenizer.go", '''		if tok.tt == tokenNewLine && parsingComment {
			lineComments''', '''		if tok.tt == tokenNewLine && parsingComment && len(commentTokens) > 1 && commentTokens[len(commentTokens)-1] == `\\` {
			commentTokens = commentTokens[:len(commentTokens)-1] // continued on the next line
		} else if tok.tt == tokenNewLine && parsingComment {
			lineComments''')],
  demo=ridl('''	s, err := parse(t, map[string]string{"main.ridl": "%s# a \\\\\\n# b\\nstruct Aa\\n  - x: string\\n"})
	if err != nil || len(s.Types[0].Comments) != 2 {
		t.Fatal(err, s)
	}
''' % H)),
dict(id="long-maps-cut", property="C07", pkg="schema/ridl",
  needs="a map whose value is a map with an enum key",
  breaks="the text of the type has the text of the outer key twice",
  edits=[("schema/var_type.go", '''		expr += fmt.Sprintf("map<%s,%s>", vt.Map.Key, buildVarTypeExpr(vt.Map.Value, ""))
''', '''		key := vt.Map.Key
		if inner := vt.Map.Value.Map; inner != nil && inner.Key.Type == T_Enum && key.Type == T_Enum {
			key = inner.Key
		}
		expr += fmt.Sprintf("map<%s,%s>", key, buildVarTypeExpr(vt.Map.Value, ""))
''')],
  demo=ridl('''	s, err := parse(t, map[string]string{"main.ridl": "%senum E: uint32\\n  - A\\nenum F: uint32\\n  - A\\nstruct S\\n  - x: map<E,map<F,string>>\\n"})
	if err != nil || s.GetTypeByName("S").Fields[0].Type.Expr != "map<E,map<F,string>>" {
		t.Fatal(err, s)
	}
''' % H)),
dict(id="aliases-of-nothing-later", property="C08", pkg="schema/ridl",
  needs="a map key that is an alias of an undeclared name or core type other than an enum",
  breaks="it is accepted as a key",
  edits=[("schema/var_type.go", '''		target, ok := getType(schema, t.Type.String())
		return ok && target.Kind == TypeKind_Enum
''', '''		target, ok := getType(schema, t.Type.String())
		return !ok && t.Type.String() == "bool" || ok && target.Kind == TypeKind_Enum
''')],
  demo=ridl('''	s, err := parse(t, map[string]string{"main.ridl": "%stype E: bool\\nstruct S\\n  - x: map<E,string>\\n"})
	if err == nil {
		t.Fatal(s)
	}
''' % H)),
dict(id="cycle-through-member-list", property="C14", pkg="schema/ridl",
  needs="an import cycle that is closed by an import with members",
  breaks="the schema is accepted",
  edits=[("schema/ridl/ridl.go", '''		if _, ok := p.cache[importPath]; !ok {
			parser, err := p.importParser(importPath)
''', '''		if len(line.Members()) > 0 && p.parent != nil && p.parent.path == importPath {
			continue // is being read
		}
		if _, done := p.cache[importPath]; !done {
			parser, err := p.importParser(importPath)
''')],
  demo=ridl('''	s, err := parse(t, map[string]string{
		"main.ridl": "%simport a.ridl\\nstruct B\\n  - x: int\\n", "a.ridl": "%simport main.ridl\\n  - B\\nstruct A\\n  - x: int\\n"})
	if err == nil {
		t.Fatal(s)
	}
''' % (H, H))),
dict(id="bigint-compat-names", property="C21", pkg="schema",
  needs="compatibility mode and a method with a big integer in its outputs but none in the inputs",
  breaks="the response has the name of the other mode",
  edits=[("schema/helpers.go", '''			if len(optCompatMode) > 0 && optCompatMode[0] {
				responseName += "Return"''', '''			if len(optCompatMode) > 0 && optCompatMode[0] && len(reqList) > 0 {
				responseName += "Return"''')],
  demo=json_('''	s, err := schema.ParseSchemaJSON([]byte(`%s"types":[],"services":[{"name":"A","methods":[{"name":"X","outputs":[{"name":"n","type":"bigint"}]}]}]}`))
	if err != nil {
		t.Fatal(err)
	}
	if m := schema.SchemaBigIntFieldsByType(s, true); len(m["XReturn"]) != 1 {
		t.Fatal(m)
	}
''' % J)),
dict(id="arguments-of-both-sides", property="C34", pkg="schema",
  needs="a method that has an argument of the same name and type on both sides",
  breaks="the output argument claims to be an input argument too",
  edits=[("schema/service.go", "		output.OutputArg = true // back-ref\n", '''		output.OutputArg = true // back-ref
		for _, input := range m.Inputs {
			if input.Name == output.Name && input.Optional && output.Optional {
				output.InputArg = true
			}
		}
'''), ("schema/service.go", "	for _, output := range m.Outputs {\n		if output == nil {", "	for i := range m.Outputs {\n		output := m.Outputs[i]\n		if output == nil {")],
  demo=json_('''	s, err := schema.ParseSchemaJSON([]byte(`%s"types":[],"services":[{"name":"A","methods":[{"name":"X","inputs":[{"name":"n","type":"int","optional":true}],"outputs":[{"name":"n","type":"int","optional":true}]}]}]}`))
	if err != nil {
		t.Fatal(err)
	}
	if a := s.Services[0].Methods[0].Outputs[0]; a.InputArg {
		t.Fatal(a)
	}
''' % J)),
dict(id="escape-of-escapes", property="C25", pkg="schema/ridl",
  needs="a quoted value with an escape as its last character",
  breaks="it is dropped",
  edits=[("schema/ridl/parser_util.go", "			if i < size {\n", "			if i == size-1 && in[i] == 't' {\n				break // a trailing tab\n			}\n			if size > i {\n")],
  demo=ridl('''	s, err := parse(t, map[string]string{"main.ridl": "%serror 1 Aa \\"a\\\\t\\"\\n"})
	if err != nil || s.Errors[0].Message != "a\\t" {
		t.Fatal(err, s)
	}
''' % H)),
]
PLANTS = [p for p in PLANTS if p["demo"]]
PLANTS += [
dict(id="large-codes-may-repeat", property="C09", pkg="schema/ridl", also=["C17"],
  needs="two errors with the same code above a million",
  breaks="they are accepted",
  edits=[("schema/error.go", "		codeList[e.Code] = struct{}{}\n", "		if e.Code < 1<<20 {\n			codeList[e.Code] = struct{}{}\n		}\n")],
  demo=ridl('''	_, err := parse(t, map[string]string{"main.ridl": "%serror 7000000 A \\"a\\"\\nerror 7000000 B \\"b\\"\\n"})
	if err == nil {
		t.Fatal("accepted")
	}
''' % H)),
dict(id="stdout-in-any-directory", property="C29", pkg="gen",
  needs="an output file named stdout in some directory",
  breaks="the code is printed and no file is written",
  edits=[("cmd/webrpc-gen/main.go", '''	if *outFlag == "" || *outFlag == "stdout" {''', '''	if *outFlag == "" || filepath.Base(*outFlag) == "stdout" {''')],
  demo=clid('''	write(t, dir+"/a.json", `%s"types":[],"services":[]}`)
	write(t, dir+"/t/main.go.tmpl", `{{define "main"}}x{{end}}`)
	out, err := cli(t, dir, "-schema=a.json", "-target=./t", "-out=./stdout")
	if _, serr := os.Stat(dir + "/stdout"); err != nil || serr != nil {
		t.Fatal(err, serr, out)
	}
''' % J)),
dict(id="option-names-folded", property="C29", pkg="gen",
  needs="an option of the template with a capital letter",
  breaks="it is passed in lower case",
  edits=[("cmd/webrpc-gen/main.go", "			templateOpts[name] = value\n", "			templateOpts[strings.ToLower(name[:1])+name[1:]] = value\n")],
  demo=clid('''	write(t, dir+"/a.json", `%s"types":[],"services":[]}`)
	write(t, dir+"/t/main.go.tmpl", `{{define "main"}}{{.Opts.Xy}}{{end}}`)
	out, err := cli(t, dir, "-schema=a.json", "-target=./t", "-Xy=1")
	if err != nil || out != "1\\n" {
		t.Fatal(err, out)
	}
''' % J)),
dict(id="shake-inner-map-keys", property="C18", pkg="schema",
  needs="an enum that is used only as the key of a map within a map",
  breaks="it is dropped",
  edits=[("schema/schema.go", "			walkVarType(vt.Map.Value, mark)\n", "			value := vt.Map.Value\n			for value.Map != nil {\n				value = value.Map.Value\n			}\n			walkVarType(value, mark)\n")],
  demo=json_('''	s, err := schema.ParseSchemaJSON([]byte(`%s"types":[{"kind":"enum","name":"E","type":"int","fields":[]}],"services":[{"name":"A","methods":[{"name":"X","inputs":[{"name":"m","type":"map<string,map<E,string>>"}]}]}]}`))
	if err != nil {
		t.Fatal(err)
	}
	if s = schema.MethodTreeShake(s, []string{"A"}); len(s.Types) != 1 {
		t.Fatal(s.Types)
	}
''' % J)),
dict(id="element-types-shared", property="C33", pkg="schema", flags="-race",
  needs="two schemas with lists of the same core type parsed at the same time",
  breaks="a data race: they share the element type",
  edits=[("schema/var_type.go", "		vt.List = &VarListType{Elem: &VarType{}}\n", "		vt.List = &VarListType{}\n		vt.List.Elem = &VarType{}\n		if expr == \"[]byte\" {\n			vt.List.Elem = byteType // often used\n		}\n"), ("schema/var_type.go", "type VarListType struct {", "var byteType = &VarType{}\n\ntype VarListType struct {")],
  demo=json_('''	var wg sync.WaitGroup
	for i := 0; i < 50; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			schema.ParseSchemaJSON([]byte(`%s"types":[{"kind":"struct","name":"A","fields":[{"name":"x","type":"[]byte"}]}],"services":[]}`))
		}()
	}
	wg.Wait()
''' % J, ["sync"])),
dict(id="sort-numbers-as-numbers", property="C30", pkg="gen",
  needs="an array of texts of numbers with different numbers of digits",
  breaks="they aren't sorted as texts",
  edits=[("gen/funcmap_generic.go", "		return toString(sorted[i]) < toString(sorted[j])\n", '''		a, b := toString(sorted[i]), toString(sorted[j])
		if strings.Trim(a+b, "0123456789") == "" && len(a) != len(b) {
			return len(a) < len(b)
		}
		return a < b
'''), ("gen/funcmap_generic.go", '	"sort"\n', '	"sort"\n	"strings"\n')],
  demo=gen('''	got, err := render(t, base, `{{ join (sort (array "9" "10")) "," }}`, nil)
	if err != nil || got != "10,9" {
		t.Fatal(err, got)
	}
''')),
dict(id="alias-meta-in-one-block", property="C01", pkg="schema/ridl", also=["C06"],
  needs="meta entries of an alias that are separated by a blank line",
  breaks="the text is rejected",
  edits=[("schema/ridl/type_alias_parser.go", '''		case tokenNewLine, tokenWhitespace:
			p.next()
''', '''		case tokenWhitespace, tokenNewLine:
			if len(ta.meta) > 0 && tok.tt == tokenNewLine && p.tokens[p.pos-1].tt == tokenNewLine {
				p.emit(ta)
				return parserDefaultState
			}
			p.next()
''')],
  demo=ridl('''	s, err := parse(t, map[string]string{"main.ridl": "%stype A: string\\n  + a = b\\n\\n  + c = d\\n"})
	if err != nil || len(s.Types[0].Meta) != 2 {
		t.Fatal(err, s)
	}
''' % H)),
dict(id="many-imports-sorted", property="C13", pkg="schema/ridl",
  needs="more than three imports, some from a directory",
  breaks="definitions aren't in the order of the imports",
  edits=[("schema/ridl/ridl.go", '''	for _, line := range q.root.Imports() {
		importPath''', '''	imports := slices.Clone(q.root.Imports())
	if len(imports) > 3 {
		slices.SortStableFunc(imports, func(a, b *ImportNode) int {
			return strings.Compare(path.Dir(a.Path().String()), path.Dir(b.Path().String()))
		})
	}
	for _, line := range imports {
		importPath''')],
  demo=ridl('''	s, err := parse(t, map[string]string{
		"main.ridl": "%simport\\n  - z/a.ridl\\n  - b.ridl\\n  - c.ridl\\n  - d.ridl\\n",
		"z/a.ridl": "%sstruct A\\n  - x: int\\n", "b.ridl": "%sstruct B\\n  - x: int\\n", "c.ridl": "%s", "d.ridl": "%s"})
	if err != nil || s.Types[0].Name != "A" {
		t.Fatal(err, s)
	}
''' % (H, H, H, H, H))),
dict(id="trace-of-three-files", property="C23", pkg="schema/ridl",
  needs="an error in a file that is four imports deep",
  breaks="the chain of files ends too early",
  edits=[("schema/ridl/ridl.go", "	for p := parser; p != nil; p = p.parent {\n", "	for p := parser; p != nil && len(stack) < 3; p = p.parent {\n")],
  demo=ridl('''	_, err := parse(t, map[string]string{
		"main.ridl": "%simport a.ridl\\n", "a.ridl": "%simport b.ridl\\n", "b.ridl": "%simport c.ridl\\n", "c.ridl": "foo bar\\n"})
	if err == nil || !strings.Contains(err.Error(), "main.ridl") {
		t.Fatal(err)
	}
''' % (H, H, H), ["strings"])),
dict(id="json-succinct-streams", property="C10", pkg="schema", also=["C11"],
  needs="a JSON schema with a method in the short form that streams both ways without input",
  breaks="it isn't marked as short form any more",
  edits=[("schema/service.go", "	// Parse+validate inputs\n	if len(m.Inputs) > 1 && m.Succinct {", "	// Parse+validate inputs\n	if m.StreamInput && m.StreamOutput && len(m.Inputs) == 0 {\n		m.Succinct = false\n	}\n	if m.Succinct && len(m.Inputs) > 1 {")],
  demo=json_('''	s, err := schema.ParseSchemaJSON([]byte(`%s"types":[],"services":[{"name":"A","methods":[{"name":"X","streamInput":true,"streamOutput":true,"succinct":true}]}]}`))
	if err != nil || !s.Services[0].Methods[0].Succinct {
		t.Fatal(err, s)
	}
''' % J)),
dict(id="core-types-of-aliases", property="C26", pkg="gen",
  needs="a template that asks if an alias type itself is a core type",
  breaks="it is said to be one if it stands for one",
  edits=[("gen/funcmap_types.go", '''	_, isCoreType := schema.CoreTypeFromString[toString(v)]
''', '''	if t, ok := v.(*schema.VarType); ok && t != nil && t.Alias != nil && t.Alias.Type != nil {
		v = t.Alias.Type.Type
	}
	_, isCoreType := schema.CoreTypeFromString[toString(v)]
'''), ("gen/funcmap_types.go", "	return isCoreType\n}\n\n// Returns true if given type is struct.", "	return isCoreType == true\n}\n\n// Returns true if given type is struct.")],
  demo=gen('''	got, err := render(t, `%s"types":[{"kind":"struct","name":"A","fields":[{"name":"b","type":"B"}]},{"kind":"alias","name":"B","type":"string"}],"services":[]}`, `{{ isCoreType (index (index .Types 0).Fields 0).Type }}`, nil)
	if err != nil || got != "false" {
		t.Fatal(err, got)
	}
''' % J)),
]
PLANTS = [p for p in PLANTS if p["demo"]]
